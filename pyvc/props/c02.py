"""Format detection and dispatch (weio/__init__.py, weio/file_formats.py)."""
from ..core import *
from ..interp import Builtin
S = z3.StringSort(); Z = z3.IntSort(); Bo = z3.BoolSort()
ASSUMPTIONS = ['a format constructor is a class: the object it returns is an instance of it, and constructing is its only effect on detection',
               'os.path.splitext and str.lower are uninterpreted functions of the file name',
               'numpy.argsort(kind="stable") returns the stable sorting permutation']
ORDER = [('CSVFile', 0), ('ExcelFile', 0), ('TecplotFile', 10), ('BladedFile', 10), ('FASTInputFile', 20), ('FASTOutputFile', 20), ('FASTWndFile', 20), ('FASTLinearizationFile', 20), ('FASTSummaryFile', 20), ('TurbSimTSFile', 20), ('TurbSimFile', 20), ('HAWC2DatFile', 30), ('HAWC2HTCFile', 30), ('HAWC2StFile', 30), ('HAWC2PCFile', 30), ('HAWC2AEFile', 30), ('HAWCStab2PwrFile', 30), ('HAWCStab2IndFile', 30), ('HAWCStab2CmbFile', 30), ('MannBoxFile', 30), ('FLEXBladeFile', 40), ('FLEXProfileFile', 40), ('FLEXOutFile', 40), ('FLEXWaveKinFile', 40), ('FLEXDocFile', 40), ('BModesOutFile', 50), ('ROSCOPerformanceFile', 50), ('NetCDFFile', 60), ('VTKFile', 60), ('TDMSFile', 60), ('ParquetFile', 60), ('CactusFile', 70), ('RAAWMatFile', 70)]
EXT = z3.Function('ext', Z, S); ACC = z3.Function('accepts', Z, Bo); WRONG = z3.Function('says_wrong_format', Z, Bo)

class Boom(Exception): pass
class Other(Exception): pass
class Res:
    """object produced by one call of a constructor"""
    _vc_model = True
    def __init__(self, k, a, kw): self.k = k; self.a = a; self.kw = kw
    def vc_truth(self): return T.ENG.decide(z3.Bool('result_is_truthy')) if False else truth(SymBool(z3.Const('result_is_truthy', Bo)))
    def vc_subst(self, f): return Res(f(self.k), self.a, self.kw)
    def vc_seq(self): raise Unsupported('iteration over a file object')
class Ctor:
    _vc_model = True
    def __init__(self, k, out=None, log=None): self.k = k; self.out = out; self.log = log
    def vc_subst(self, f): return Ctor(f(self.k), self.out, self.log)
    def vc_instance(self, x): return isinstance(x, Res) and truth(tb(cmp('==', x.k, self.k)))
    def vc_getattr(self, n):
        if n == '__name__': return 'Fmt'
        raise Unsupported('attribute %s of a format class' % n)
class Fmt:
    """format k of the list: extension ext(k) (no wildcard), constructor with outcome accepts(k) / wrong(k) / another error"""
    _vc_model = True
    def __init__(self, k, exts=None, log=None): self.k = k; self.exts = exts; self.log = log
    def vc_subst(self, f): return Fmt(f(self.k), self.exts, self.log)
    def vc_getattr(self, n):
        if n == 'constructor': return Ctor(self.k, None, self.log)
        if n == 'extensions':
            if self.exts is not None: return SList(list(self.exts))
            e = SymStr(EXT(zi(self.k)))
            T.ENG.assume_t(z3.Not(z3.Contains(e.t, z3.StringVal('*'))))
            return SList([e])
        if n == 'name': return 'fmt'
        raise Unsupported('attribute %s of a format' % n)
ERRS = None
def call_ctor(it, c, a, kw):
    """the constructor's behaviour, a function of the format"""
    t = T.ENG
    if c.log is not None:
        c.log.append((c.k, tuple(a), dict(kw))); t.log(None, lambda: c.log.pop())
    if truth(SymBool(ACC(zi(c.k)))): return Res(c.k, tuple(a), dict(kw))
    if truth(SymBool(WRONG(zi(c.k)))): raise PyRaise(ERRS['wrong'](), True)
    for n in list(ERRS)[1:]:
        if n != 'other' and truth(SymBool(z3.Function('raises_'+n, Z, Bo)(zi(c.k)))): raise PyRaise(ERRS[n](), True)
    raise PyRaise(ERRS['other'](), True)
def setup(ctx):
    global ERRS
    w = ctx.module('weio'); it = ctx.it
    ctx.weak_ok |= {'lower', 'splitext', 'splitext_ext', 'splitext_root', 'upper'}
    def cls(q): return lambda: it.call(ctx.get('weio.file:'+q), ['x'], {})
    ERRS = dict(wrong=cls('WrongFormatError'), broken=cls('BrokenFormatError'), empty=cls('EmptyFileError'), reader=cls('BrokenReaderError'),
                missing=lambda: FileNotFoundError(2, 'x'), mem=lambda: MemoryError(), key=lambda: KeyError('x'), value=lambda: ValueError('x'), typ=lambda: TypeError('x'), other=lambda: Other('x'))
    old = it.call
    def call(f, args, kw=None):
        if isinstance(f, Ctor): return call_ctor(it, f, list(args), kw or {})
        return old(f, args, kw)
    it.call = call
    return w
def kinds(ctx): return dict(wrong='weio.file:WrongFormatError')
def lower(s): return SymStr(z3.Function('lower', S, S)(s.t))
def extof(name): return SymStr(z3.Function('splitext_ext', S, S)(z3.Function('lower', S, S)(name.t)))
def isnot(exc, ctx, name): return isinstance(exc, IObj) and exc.cls is ctx.get(name)

@contract('detectFormat', ['weio.detectFormat', 'isRightFormat'], budget=200)
def detect(ctx):
    w = setup(ctx); n = ctx.int('nformats', 0); name = ctx.str('filename'); x = ctx.real('option')
    w.vars['_FORMATS'] = SList(segs=[Seg(n, lambda k: Fmt(k))])
    ext = extof(name)
    def match(k): return cmp('==', lower(SymStr(EXT(zi(k)))), ext)
    def post(r, exc):
        if exc is not None:
            e = exc.exc
            if isnot(e, ctx, 'weio:FormatNotDetectedError'):
                j = ctx.idx('j', n)
                ctx.prove('FormatNotDetectedError only when every format with this extension says it is the wrong format', orb(notb(match(j)), andb(notb(SymBool(ACC(zi(j)))), SymBool(WRONG(zi(j))))))
                return
            ctx.prove('a format that reports a wrong format is passed over', not isnot(e, ctx, 'weio.file:WrongFormatError'))
            # some format raised: the loop index is existential, so state it through the fact that no call could succeed
            ctx.prove('any other error surfaces unchanged', isinstance(e, (Other, FileNotFoundError, MemoryError, KeyError, ValueError, TypeError)) or (isinstance(e, IObj) and e.cls.name in ('BrokenFormatError', 'EmptyFileError', 'BrokenReaderError')), 'raises %r' % (e,))
            return
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Fmt) and isinstance(r[1], Res)):
            ctx.fail('the format and the object it produced are returned', 'returns %r' % (r,)); return
        f, F = r
        ctx.prove('the object returned is the one the returned format produced', cmp('==', f.k, F.k))
        ctx.prove('the returned format is in the list, has the extension and accepts', andb(cmp('>=', f.k, 0), cmp('<', f.k, n), match(f.k), SymBool(ACC(zi(f.k)))))
        j = ctx.idx('j', f.k)
        ctx.prove('every earlier format has another extension or says it is the wrong format', orb(notb(match(j)), andb(notb(SymBool(ACC(zi(j)))), SymBool(WRONG(zi(j))))))
        ctx.prove('the reader gets the file name and the options', given(F, name, x))
    ctx.run(lambda: ctx.call(ctx.get('weio:detectFormat'), name, opt=x), post)
def given(F, name, x):
    a, kw = F.a, dict(F.kw)
    fn = a[0] if a else kw.pop('filename', None)
    if len(a) > 1 or fn is None: return False
    return set(kw) == {'opt'} and kw['opt'] is x and fn is name

@contract('detectFormat-no-call', ['weio.detectFormat', 'isRightFormat'], budget=150)
def detect_calls(ctx):
    """three formats in a row: exactly the readers that the statement names are called, once each and in order"""
    w = setup(ctx); name = ctx.str('filename'); x = ctx.real('option'); log = []
    w.vars['_FORMATS'] = SList([Fmt(k, log=log) for k in range(3)])
    ext = extof(name)
    def match(k): return cmp('==', lower(SymStr(EXT(zi(k)))), ext)
    def post(r, exc):
        called = [e[0] for e in log]
        ctx.prove('each reader is tried at most once, in list order', called == sorted(set(called)))
        stop = False
        for k in range(3):
            ctx.prove('a reader is tried exactly when its extension matches and no earlier one decided', cmp('==', mkbool(zb(andb(match(k), notb(stop)))), k in called) if True else None)
            stop = orb(stop, andb(match(k), orb(SymBool(ACC(zi(k))), notb(SymBool(WRONG(zi(k)))))))
        for e in log: ctx.prove('every reader tried gets the file name and the options', given(Res(e[0], e[1], e[2]), name, x))
    ctx.run(lambda: ctx.call(ctx.get('weio:detectFormat'), name, opt=x), post)

@contract('isRightFormat', ['isRightFormat'])
def isright(ctx):
    w = setup(ctx); name = ctx.str('filename'); x = ctx.real('option'); log = []
    f = Fmt(ctx.int('k', 0), log=log)
    def post(r, exc):
        ctx.prove('the reader is called exactly once', len(log) == 1)
        if exc is not None:
            e = exc.exc
            ctx.prove('a wrong format is not an error', not isnot(e, ctx, 'weio.file:WrongFormatError'))
            ctx.prove('raises only when the reader raised', andb(notb(SymBool(ACC(zi(f.k)))), notb(SymBool(WRONG(zi(f.k))))))
            return
        ok, F = to_seq(r).items
        if truth(ok):
            ctx.prove('accepted means the reader accepted', SymBool(ACC(zi(f.k))))
            ctx.prove('the object the reader produced is returned', isinstance(F, Res) and given(F, name, x))
        else: ctx.prove('refused means the reader reported a wrong format', andb(notb(SymBool(ACC(zi(f.k)))), SymBool(WRONG(zi(f.k)))))
    ctx.run(lambda: ctx.call(ctx.get('weio.file_formats:isRightFormat'), f, name, opt=x), post)

@contract('read', ['weio.read'])
def read(ctx):
    """detectFormat is replaced by its contract: it returns a format and the object that format produced, or raises"""
    w = setup(ctx); name = ctx.str('filename'); x = ctx.real('option'); log = []; dlog = []
    R = Res(ctx.int('k', 0), (name,), dict(opt=x)); F = Fmt(R.k, log=log)
    def det(it, fn, args, kw):
        a = it.bind(fn, args, kw); dlog.append(a); it.eng.log(None, lambda: dlog.pop())
        if truth(ctx.bool('detected')): return (F, R)
        raise PyRaise(it.call(ctx.get('weio:FormatNotDetectedError'), ['x'], {}), True)
    ctx.it.contracts['weio:detectFormat'] = det
    def post(r, exc):
        ctx.prove('detection runs exactly once', len(dlog) == 1)
        a = dict(dlog[0]) if dlog else {}
        kw = next((v for v in a.values() if isinstance(v, dict)), {})
        ctx.prove('detection gets the file name and the options', any(v is name for v in a.values()) and set(kw) == {'opt'} and kw.get('opt') is x)
        if exc is not None:
            ctx.prove('an undetected format surfaces unchanged', andb(notb(ctx.bool('detected')), isnot(exc.exc, ctx, 'weio:FormatNotDetectedError'))); return
        ctx.prove('the very object produced during detection is returned, the file is not read again', r is R and not log)
    ctx.run(lambda: ctx.call(ctx.get('weio:read'), name, opt=x), post)

@contract('read-explicit', ['weio.read'])
def read_explicit(ctx):
    w = setup(ctx); name = ctx.str('filename'); x = ctx.real('option'); log = []; dlog = []
    F = Fmt(ctx.int('k', 0), log=log)
    def det(it, fn, args, kw):
        dlog.append(1); it.eng.log(None, lambda: dlog.pop()); raise PyRaise(it.call(ctx.get('weio:FormatNotDetectedError'), ['x'], {}), True)
    ctx.it.contracts['weio:detectFormat'] = det
    def post(r, exc):
        ctx.prove('no detection takes place when the format is given', not dlog)
        ctx.prove('the given format reads the file exactly once', len(log) == 1)
        if exc is not None:
            ctx.prove('only the reader raises', notb(SymBool(ACC(zi(F.k))))); return
        ctx.prove('the object of the given format is returned and its reader got the name and the options', isinstance(r, Res) and given(r, name, x))
    ctx.run(lambda: ctx.call(ctx.get('weio:read'), name, fileformat=F, opt=x), post)

def ext_contract(exts):
    def fn(ctx):
        w = setup(ctx); name = ctx.str('filename'); log = []
        w.vars['_FORMATS'] = SList([Fmt(0, exts=exts, log=log)])
        ext = extof(name)
        def m1(e):
            e = e.lower()
            if '*' not in e: return cmp('==', ext, e)
            p = e.split('*')
            if len(p) == 2 and p[1] == '': return mkbool(z3.PrefixOf(z3.StringVal(p[0]), ext.t))
            return andb(mkbool(z3.PrefixOf(z3.StringVal(p[0]), ext.t)), mkbool(z3.SuffixOf(z3.StringVal(p[-1]), ext.t)), cmp('>=', ext.sym_len(), len(p[0])+len(p[-1])))
        ctx.assume(notb(ext.sym_contains('\n')))
        def post(r, exc):
            ctx.prove('a format with extensions %s is tried exactly when one of them matches, regardless of case' % exts, cmp('==', orb(*[m1(e) for e in exts]), len(log) > 0))
        ctx.run(lambda: ctx.call(ctx.get('weio:detectFormat'), name), post)
    return fn
for e in (['.dat', '.TXT'], ['.%*', '.$*'], ['.Csv*'], ['.00X', 'doc'], ['']):
    contract('extension-match %s' % ' '.join(e), ['weio.detectFormat'])(ext_contract(e))

class UCls:
    """user class k: may lack the static methods, may define a priority"""
    _vc_model = True
    def __init__(self, k): self.k = k
    def vc_subst(self, f): return UCls(f(self.k))
    def vc_getattr(self, n):
        if n == 'priority':
            if truth(SymBool(z3.Function('has_priority', Z, Bo)(zi(self.k)))): return Builtin(lambda: mkint(PRIO(UFMT(zi(self.k)))), 'priority')
            T.ENG.assume_t(PRIO(UFMT(zi(self.k))) == 2)
            raise PyRaise(AttributeError('priority'), True)
        if n == '__name__': return 'UserFile'
        raise Unsupported('attribute %s of a user class' % n)
FSORT = z3.DeclareSort('Format'); PRIO = z3.Function('prio', FSORT, Z); REG = z3.Function('reg', FSORT, Z); UFMT = z3.Function('userfmt', Z, FSORT)
def registry(user):
    def fn(ctx):
        w = setup(ctx); it = ctx.it; w.vars['_FORMATS'] = None
        m = ctx.int('nuser', 1) if user else 0
        N = len(ORDER)
        lib = {n: z3.Const('F_'+n, FSORT) for n, _ in ORDER}
        def mk(it, c, args, kw):
            cl = args[0] if args else kw['fileclass']
            if isinstance(cl, UCls):
                if truth(SymBool(z3.Function('bad_class', Z, Bo)(zi(cl.k)))): raise PyRaise(AttributeError('defaultExtensions'), True)
                return SymObj(UFMT(zi(cl.k)))
            return SymObj(lib[cl.name])
        it.contracts['weio.file_formats:FileFormat'] = mk
        def users(it, fn, args, kw):
            cs = SList(segs=[Seg(m, UCls)]) if user else SList([])
            ps = SList(segs=[Seg(m, lambda k: SymStr(z3.Function('upath', Z, S)(zi(k))))]) if user else SList([])
            return (cs, ps, ps, ps, SList([]))
        it.contracts['weio:userFileClasses'] = users
        for j, (n, p) in enumerate(ORDER): ctx.assume(SymBool(z3.And(PRIO(lib[n]) == p, REG(lib[n]) == j)))
        q = z3.Const('qu', Z)
        if user: ctx.eng.qfacts = ctx.eng.qfacts+[z3.ForAll([q], z3.Implies(q >= 0, REG(UFMT(q)) == N+q), patterns=[UFMT(q)])]
        def post(r, exc):
            if exc is not None:
                ctx.prove('only a broken user class makes the registration fail', user and isnot(exc.exc, ctx, 'weio:UserFormatImportError')); return
            s = to_seq(r); n = s.size()
            ctx.prove('every format is listed once (count)', cmp('==', n, N+m))
            if user: a = ctx.idx('a', n); b = ctx.idx('b', n)
            for i, j in ([(i, i+1) for i in range(N-1)] if not user else [(a, b)]):
                if user: ctx.assume(cmp('<', i, j))
                with nd.nofork(): f, g = norm(s.get(i).t), norm(s.get(j).t)
                ctx.prove('formats are sorted by priority, registration order among equals', SymBool(z3.Or(PRIO(f) < PRIO(g), z3.And(PRIO(f) == PRIO(g), REG(f) < REG(g)))))
            ctx.prove('the list is remembered', w.vars['_FORMATS'] is r)
        ctx.run(lambda: ctx.call(ctx.get('weio:fileFormats')), post)
    return fn
contract('registry', ['weio.fileFormats'])(registry(False))
contract('registry-user', ['weio.fileFormats'], budget=200)(registry(True))

@contract('FileFormat', ['FileFormat.__init__'])
def fileformat(ctx):
    """a FileFormat holds the class it was made of and that class's own extensions"""
    setup(ctx)
    exts = SList(['.a', '.b'])
    class C:
        _vc_model = True
        def vc_getattr(self, n): return Builtin(lambda: exts, n) if n == 'defaultExtensions' else Builtin(lambda: 'N', n)
    c = C()
    def post(r, exc):
        if exc is not None: ctx.fail('a format can be made of a class', repr(exc.exc)); return
        g = ctx.it.getattr
        ctx.prove('constructor, extensions and name are those of the class', g(r, 'constructor') is c and (g(r, 'extensions') is exts or to_seq(g(r, 'extensions')).items == exts.items) and g(r, 'name') == 'N')
    ctx.run(lambda: ctx.call(ctx.get('weio.file_formats:FileFormat'), c), post)

"""Models (assumed contracts) of the builtins and library modules the code under contract uses."""
import z3, ast, struct as _struct, re as _re, os as _os, collections
from . import terms as T
from .terms import *
from .engine import PyRaise
from . import interp as I
from .interp import *
from . import nd
from .nd import Arr, Storage, DT, gand, gdec, nofork
from . import strs
S = z3.StringSort(); Z = z3.IntSort(); R = z3.RealSort()

# ------------------------------------------------------------------ strings
FMT_D = z3.Function('fmt_d', Z, S)
CHR = z3.Function('chr', Z, S)
TEXT = z3.Function('filetext', Z, Z, S)
STRREP = z3.Function('strrep', S, Z, S)
def fmt_one(v, spec=''):
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    if isinstance(v, SymStr):
        if spec in ('', 's'): return v
        m = _re.match(r'^<?([1-9]\d*)s?$', spec)
        if m and strs.known(v) is not None: return catstr(v, SymStr(z3.Function('pad!'+m.group(1), S, S)(v.t)))
        m = _re.match(r'^>([1-9]\d*)s?$', spec)
        if m and strs.known(v) is not None: return catstr(SymStr(z3.Function('pad!r'+m.group(1), S, S)(v.t)), v)
        m = _re.match(r'^\^([1-9]\d*)s?$', spec)
        if m and strs.known(v) is not None: return catstr(SymStr(z3.Function('pad!cl'+m.group(1), S, S)(v.t)), v, SymStr(z3.Function('pad!cr'+m.group(1), S, S)(v.t)))
        return SymStr(z3.Function('fmts_'+spec, S, S)(v.t))
    if isinstance(v, SymInt): return SymStr(FMT_D(zi(v)) if spec in ('', 'd') else z3.Function('fmti_'+spec, Z, S)(zi(v)))
    if isinstance(v, SymReal): return SymStr(z3.Function('fmtr_'+(spec or 'str'), R, S)(v.t))
    if isinstance(v, SymBool): return SymStr(z3.If(v.t, z3.StringVal('True'), z3.StringVal('False')))
    if isinstance(v, (str, int, float, bool, type(None))):
        try: return format(v, spec)
        except (ValueError, TypeError) as x: raise PyRaise(x, True)
    f = z3.Const(T.ENG.fresh_name('repr'), S)
    return SymStr(f)
def fmt_percent(f, args):
    a = args if isinstance(args, tuple) else (args,)
    if not any(has_sym(x) or isinstance(x, (IObj, SList, IClass, TypeModel)) for x in a):
        try: return f % args
        except (TypeError, ValueError) as x: raise PyRaise(x, True)
    out = ''; i = 0; j = 0
    for m in _re.finditer(r'%(\([^)]*\))?([-+ 0#]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])', f):
        out = catstr(out, f[i:m.start()]); i = m.end()
        if m.group(5) == '%': out = catstr(out, '%'); continue
        if j >= len(a): raise PyRaise(TypeError('not enough arguments for format string'), True)
        v = a[j]; j += 1
        spec = (m.group(2) or '')+(m.group(3) or '')+('.'+m.group(4) if m.group(4) else '')+m.group(5)
        if not has_sym(v) and not isinstance(v, (IObj, SList)):
            try: out = catstr(out, ('%'+spec) % (v,))
            except (TypeError, ValueError) as x: raise PyRaise(x, True)
        elif spec == 's' or (spec in ('d', 'i') and isinstance(v, SymInt)): out = catstr(out, fmt_one(v))
        else: out = catstr(out, fmt_one(v, '%'+spec))
    if j < len(a): raise PyRaise(TypeError('not all arguments converted during string formatting'), True)
    return catstr(out, f[i:])
def fmt_format(f, args, kw):
    import string
    out = ''; auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out = catstr(out, lit)
        if field is None: continue
        if field == '': v = args[auto]; auto += 1
        elif field.isdigit(): v = args[int(field)]
        elif field in kw: v = kw[field]
        else: raise Unsupported('format field '+field)
        if '{' in (spec or ''):
            raise Unsupported('nested format spec')
        out = catstr(out, fmt_one(v, spec or ''))
    return out
def str_method(s, name, args, kw):
    if name == 'format': return fmt_format(s, args, kw)
    if name == 'join': return str_join(s, args[0])
    if name in ('startswith', 'endswith') and isinstance(args[0], tuple): return orb(*[tb(str_method(s, name, [x], {})) for x in args[0]])
    if isinstance(s, str): 
        x = SymStr(z3.StringVal(s))
        if name in ('startswith', 'endswith'): return getattr(x, name)(*args)
    raise Unsupported('str.%s with symbolic arguments' % name)
def str_join(sep, seq):
    q = to_seq(seq)
    if not q.concrete():
        if sep == '' and len(q.segs) == 1:
            n = q.segs[0].n
            k = z3.Const(T.ENG.fresh_name('jk'), Z)
            with nofork(), T.ENG.scope():
                T.ENG.bound(mkint(k), 0, n-1)
                e = q.segs[0].get(mkint(k))
            o = chr_off(e)
            if o is not None:
                d = P(o)-P(mkint(k))
                if atom_id(k) not in d.atoms(): return SymStr(TEXT(d.z3(), zi(n)))
        return join_text(sep, q)
    its = q.items
    if sep == '' and its and all(isinstance(x, SymStr) for x in its):
        offs = [chr_off(x) for x in its]
        if all(o is not None for o in offs) and all((P(offs[j])-P(offs[0])) == Poly.const(j) for j in range(len(offs))):
            return SymStr(TEXT(zi(offs[0]), z3.IntVal(len(offs))))
    out = ''
    for j, x in enumerate(its):
        if not isinstance(x, (str, SymStr)): raise PyRaise(TypeError('sequence item: expected str instance'), True)
        if j: out = catstr(out, sep)
        out = catstr(out, x)
    return out
def join_text(sep, q):
    eng = T.ENG; out = ''; first = True
    for g in q.segs:
        if isinstance(g, list):
            for x in g:
                if not isinstance(x, (str, SymStr)): raise PyRaise(TypeError('sequence item: expected str instance'), True)
                out = catstr(out, '' if first else sep, x); first = False
            continue
        if not truth(cmp('>=', g.n, 1)): continue
        k = z3.Const(eng.fresh_name('jk'), Z); K = mkint(k); a = 0
        if first and sep != '': out = catstr(out, g.get(0)); a = 1
        first = False
        with nofork(), eng.scope():
            eng.bound(K, 0, g.n-1-a); e = g.get(K+a)
        if not isinstance(e, (str, SymStr)): raise PyRaise(TypeError('sequence item: expected str instance'), True)
        out = catstr(out, strs.repeat(k, catstr(sep, e), g.n-a))
    return out
def chr_off(e):
    """byte offset p if e is chr(item_u1(p))"""
    if isinstance(e, SymStr) and e.t.decl().name() == 'chr':
        c = e.t.arg(0)
        if z3.is_app(c) and c.decl().name() == 'item_u1': return mkint(c.arg(0))
    return None
def str_index(s, i):
    if isinstance(i, slice):
        a, b, c = i.start, i.stop, i.step
        if c is not None: raise Unsupported('string slice step')
        if isinstance(s, SymStr) and a not in (None, 0) and isinstance(b, int) and b < 0 and (isinstance(a, SymInt) or a > 0):
            r = strs.slice_by_length(s, a)
            if r is not None: return str_index(r, slice(None, b)) if isinstance(r, SymStr) else r[:b]
        if isinstance(s, SymStr) and isinstance(a, (int, SymInt)) and b is None:
            r = strs.slice_by_length(s, a)
            if r is not None: return r
        if isinstance(s, SymStr) and a in (None, 0) and isinstance(b, SymInt):
            r = strs.head_by_length(s, b)
            if r is not None: return r
        if isinstance(s, str) or any(isinstance(x, Sym) for x in (a, b)):
            raise Unsupported('symbolic string slice')
        if a in (None, 0) and b is None: return s
        if a in (None, 0) and isinstance(b, int):
            ps = strs.known(s)      # cut within a literal at the beginning or the end
            if ps and b > 0 and isinstance(ps[0], strs.Lit) and len(ps[0].s) >= b: return ps[0].s[:b]
            if ps and b < 0 and isinstance(ps[-1], strs.Lit) and len(ps[-1].s) >= -b: return strs.join(ps[:-1]+([strs.Lit(ps[-1].s[:b])] if len(ps[-1].s) > -b else []))
        return SymStr(z3.Function('slice_%s_%s' % (a, b), S, S)(zs(s)))
    if isinstance(s, SymStr) and i in (0, -1) and isinstance(i, int):
        r = strs.first_char(s) if i == 0 else strs.last_char(s)
        if r is not None: return r
    if isinstance(i, int) and i < 0: i = (len(s) if isinstance(s, str) else s.sym_len())+i
    n = len(s) if isinstance(s, str) else s.sym_len()
    if isinstance(i, SymInt) and truth(cmp('<', i, 0)): i = i+n
    if not truth(andb(tb(cmp('>=', i, 0)), tb(cmp('<', i, n)))): raise PyRaise(IndexError('string index out of range'))
    return char_of(s, i)
def char_of(s, k):
    """character k of s, 0 <= k < len(s)"""
    if isinstance(s, str) and isinstance(k, int): return s[k]
    parts = catparts(zs(s)); out = None
    offs = []; o = 0
    for t in parts:
        offs.append(o); o = o+(len(t.as_string()) if z3.is_string_value(t) else mkint(z3.Length(t)))
    for t, o in reversed(list(zip(parts, offs))):
        r = k-o
        if z3.is_string_value(t):
            x = t.as_string(); c = x[-1]
            for j in range(len(x)-2, -1, -1): c = ite(cmp('<=', r, j), x[j], c)
        else: c = SymStr(z3.Function('charat', S, Z, S)(t, zi(r)))
        out = c if out is None else ite(cmp('<', k, nxt), c, out)
        nxt = o
    return out
def num_attr(o, n):
    if n in ('astype',): return Builtin(lambda d, **k: nd.coerce(nd.dtcode(d), o), 'astype')
    if n == 'item': return Builtin(lambda: o, 'item')
    if n == 'real': return o
    if n == 'is_integer': return Builtin(lambda: SymBool(z3.IsInt(zr(o))), n)
    if n == 'shape': return ()
    if n == 'ndim': return 0
    if n in ('min', 'max', 'mean'): return Builtin(lambda: o, n)
    raise PyRaise(AttributeError(n), True)

# ------------------------------------------------------------------ bytes and files
class FileBytes:
    """n bytes read from input file f at byte offset off"""
    _vc_model = True
    def __init__(self, f, off, n): self.f = f; self.off = off; self.n = n
    def vc_len(self): return self.n
    def vc_truth(self): return truth(cmp('>', self.n, 0))
    def decode(self, *a, **k): return SymStr(TEXT(zi(self.off), zi(self.n)))
    def strip(self, *a): return SymStr(z3.Function('bstrip', S, S)(TEXT(zi(self.off), zi(self.n))))
    def vc_seq(self):
        g = lambda k: self.f.item('u1', self.off+k)
        return SList([g(k) for k in range(self.n)]) if isinstance(self.n, int) else SList(segs=[Seg(self.n, g)])
    def vc_getitem(self, i):
        if isinstance(i, slice):
            a, m, st = norm_slice(i, self.n)
            if st != 1: raise Unsupported('bytes slice')
            return FileBytes(self.f, self.off+a, m)
        raise Unsupported('bytes index')
class WSeg:
    """count items of one dtype"""
    def __init__(self, code, count, get): self.code = code; self.count = count; self.get = get
    def size(self): return self.count*DT[self.code][1]
class RepSeg:
    """for k in 0..n-1: segs (with k substituted); persize bytes per iteration"""
    def __init__(self, n, k, segs, per): self.n = n; self.k = k; self.segs = segs; self.per = per
    def size(self): return self.n*self.per
class TextSeg:
    def __init__(self, s, n): self.s = s; self.n = n
    def size(self): return self.n
class WBytes:
    """bytes produced by the program"""
    _vc_model = True
    def __init__(self, segs): self.segs = segs
    def vc_len(self): return segsize(self.segs)
    def vc_binop(self, op, a, b):
        if op == '+' and isinstance(a, WBytes) and isinstance(b, WBytes): return WBytes(a.segs+b.segs)
        raise Unsupported('bytes operation')
    def vc_truth(self): return truth(cmp('>', self.vc_len(), 0))
    def join(self, seq): raise Unsupported('bytes.join')
def segsize(segs):
    n = 0
    for s in segs: n = n+s.size()
    return n
def locate(segs, code, p):
    """value of the item of that dtype stored at byte offset p, or Unsupported/None"""
    for s in segs:
        n = s.size()
        if s is segs[-1] or gdec(cmp('<', p, n)) is True:
            if isinstance(s, WSeg):
                if s.code != code: raise LayoutError('item of type %s expected at this offset, %s written' % (code, s.code), True)
                q, r = int_divmod(p, DT[code][1])
                if gdec(cmp('==', r, 0)) is not True: raise LayoutError('misaligned item')
                with nofork(): return s.get(q)
            if isinstance(s, RepSeg):
                k, r = int_divmod(p, s.per)
                v = locate_sub(s, code, r)
                return subst(v, [(s.k, k)])
            raise LayoutError('text where an item is expected')
        if gdec(cmp('>=', p, n)) is not True: raise LayoutError('offset not comparable with the written layout')
        p = p-n
    raise LayoutError('offset beyond the written bytes')
def locate_sub(s, code, r): return locate(s.segs, code, r)
class LayoutError(Exception):
    def __init__(self, m, definite=False): Exception.__init__(self, m); self.definite = definite

class InFile:
    """an existing file with arbitrary contents: item_<dtype>(byte offset), total size in bytes"""
    def __init__(self, path, size, tag=''): self.path = path; self.size = size; self.tag = tag
    def item(self, code, off):
        sort = R if DT[code][0] == 'f' else Z
        return fromz(z3.Function('item_'+code+self.tag, Z, sort)(zi(off)))
    def array(self, code, off, n):
        w = DT[code][1]
        return nd.new((n,), lambda idx: self.item(code, off+w*idx[0]), code)
class WrittenFile(InFile):
    """the bytes another function of the program has just written"""
    def __init__(self, w): self.path = w.path; self.size = segsize(w.segs); self.segs = w.segs; self.tag = ''
    def item(self, code, off):
        try: return locate(self.segs, code, off)
        except LayoutError as e: raise Unsupported('written file: %s' % e)
class TextIn:
    """an existing text file: a list of lines (each with its newline)"""
    def __init__(self, path, lines): self.path = path; self.lines = lines; self.size = None
    def opener(self, mode):
        if 'b' in mode: raise Unsupported('binary access to a text file')
        return TFile(self)
class TFile:
    """open text file for reading; pos counts lines"""
    _vc_model = True
    def __init__(self, inf): self.inf = inf; self.pos = 0; self.closed = False
    def setpos(self, p):
        old = self.pos; T.ENG.log(('fpos', self), lambda: setattr(self, 'pos', old)); self.pos = p
    def vc_enter(self): return self
    def vc_exit(self, e): return False
    def close(self): pass
    def rest(self):
        if isinstance(self.pos, Poison): raise PoisonRead(self.pos.loc)
        if isinstance(self.pos, int) and self.pos == 0: r = self.inf.lines
        else: r = I.INTERP.getitem(self.inf.lines, slice(self.pos, None))
        self.setpos(self.inf.lines.size())
        return r
    def readlines(self, *a): return SList(segs=[list(x) if isinstance(x, list) else x for x in self.rest().segs])
    def vc_seq(self): return self.rest()
    def readline(self, *a):
        if isinstance(self.pos, Poison): raise PoisonRead(self.pos.loc)
        if not truth(cmp('<', self.pos, self.inf.lines.size())): return ''
        s = self.inf.lines.get(self.pos); self.setpos(self.pos+1)
        return s
    def read(self, *a):
        if isinstance(self.inf, StrText) and not a and isinstance(self.pos, int) and self.pos == 0: self.setpos(self.inf.lines.size()); return self.inf.text
        raise Unsupported('read of a whole symbolic text file')
    def seek(self, p, *a):
        if p == 0 and not a: self.setpos(0); return 0
        raise Unsupported('seek in a text file')
    def vc_stream(self, body):
        """iteration over the lines, the position being shared with readline() in the body"""
        from . import loops
        if not isinstance(self.inf, StrText): return loops.for_loop(I.INTERP, self.vc_seq(), body)
        lines = self.inf.lines; count = 0
        while True:
            if isinstance(self.pos, Poison): raise PoisonRead(self.pos.loc)
            r = self.whole(lines)
            if r is not None:
                # a whole symbolic segment lies ahead: its lines one by one, the body must not read further itself
                seg, end = r
                def one(x):
                    try: body(x)
                    except I.ContinueEx: pass
                    if isinstance(self.pos, Poison) or P(self.pos) != P(end): raise Unsupported('reading ahead in a loop over the lines of a file')
                self.setpos(end)
                if loops.for_loop(I.INTERP, SList(segs=[seg]), one):
                    self.setpos(Poison(('fpos', self)))         # reading on from here is outside the model
                    return True
                continue
            if not truth(cmp('<', self.pos, lines.size())): return False
            s = lines.get(self.pos); self.setpos(self.pos+1); count += 1
            if count > 300: raise Unsupported('many lines')
            try: body(s)
            except I.ContinueEx: continue
            except I.BreakEx: return True
    def whole(self, lines):
        base = 0
        for s in lines.segs:
            if not isinstance(s, list):
                if P(self.pos) == P(base) and not (isinstance(s.n, int) and s.n == 0): return s, base+s.n
                base = base+s.n
            else: base = base+len(s)
        return None
class RFile:
    """open file handle for reading"""
    _vc_model = True
    def __init__(self, inf, text=False): self.inf = inf; self.pos = 0; self.text = text; self.closed = False
    def setpos(self, p):
        old = self.pos; T.ENG.log(('fpos', self), lambda: setattr(self, 'pos', old)); self.pos = p
    def vc_enter(self): return self
    def vc_exit(self, e): return False
    def close(self): pass
    def tell(self): return self.pos
    def seek(self, off, whence=0):
        if whence == 0: self.setpos(off)
        elif whence == 1: self.setpos(self.pos+off)
        elif whence == 2: self.setpos(self.inf.size+off)
        return self.pos
    def avail(self, n):
        """number of bytes that a read of n returns (forks)"""
        if isinstance(self.pos, Poison): raise PoisonRead(self.pos.loc)
        if not truth(cmp('>=', n, 0)): return self.inf.size-self.pos if truth(cmp('<=', self.pos, self.inf.size)) else 0
        if truth(cmp('<=', self.pos+n, self.inf.size)): return n
        if truth(cmp('>=', self.pos, self.inf.size)): return 0
        return self.inf.size-self.pos
    def read(self, n=-1):
        if self.text: raise Unsupported('text read')
        if isinstance(n, (float, SymReal)): raise PyRaise(TypeError('integer argument expected'), True)
        if n is None: n = -1
        m = self.avail(n); b = FileBytes(self.inf, self.pos, m); self.setpos(self.pos+m)
        return b
    def readlines(self, *a): raise Unsupported('readlines of a symbolic file')
    def readline(self, *a): raise Unsupported('readline of a symbolic file')
    def __iter__(self): raise Unsupported('lines of a symbolic file')
class WFile:
    """open file handle for writing"""
    _vc_model = True
    def __init__(self, path): self.path = path; self.segs = []
    def vc_enter(self): return self
    def vc_exit(self, e): return False
    def close(self): pass
    def tell(self): return segsize(self.segs)
    def flush(self): pass
    def setsegs(self, s):
        old = self.segs; T.ENG.log(('fseg', self), lambda: setattr(self, 'segs', old)); self.segs = s
    def write(self, b):
        if isinstance(b, WBytes): self.setsegs(self.segs+b.segs); return b.vc_len()
        if isinstance(b, bytes):
            bb = b; self.setsegs(self.segs+[WSeg('u1', len(bb), lambda q: nd.pickv(list(bb), q))]); return len(bb)
        if isinstance(b, (str, SymStr)): self.setsegs(self.segs+[TextSeg(b, None)]); return None
        raise Unsupported('write of %r' % (b,))

class TextW:
    """text file open for writing: the text written so far"""
    _vc_model = True
    def __init__(self, path): self.path = path; self.d = dict(text='')
    def vc_enter(self): return self
    def vc_exit(self, e): return False
    def close(self): pass
    def flush(self): pass
    def text(self):
        v = self.d['text']
        if isinstance(v, I.Poison): raise I.PoisonRead(v.loc)
        return v
    def write(self, b):
        if isinstance(b, I.Poison): raise I.PoisonRead(b.loc)
        if not isinstance(b, (str, SymStr)): raise PyRaise(TypeError('write() argument must be str'), True)
        I.INTERP.setd(self.d, 'text', catstr(self.text(), b), 'dict'); return b_len(b)
    def writelines(self, q): self.write(str_join('', q))
class StrText:
    """a text file with the text the program has written"""
    def __init__(self, path, text):
        self.path = path; self.text = text; self.lines = strs.lines(text)
        if isinstance(text, str): self.size = len(text)
        elif strs.nonempty(text): self.size = T.ENG.fresh_int('fsize', 1)
        else: self.size = T.ENG.fresh_int('fsize', 0)
    def opener(self, mode):
        if 'b' in mode: raise Unsupported('binary access to a text file')
        return TFile(self)
def parse_fmt(f):
    """struct format (possibly symbolic) -> list of (code, count)"""
    parts = [f] if isinstance(f, str) else [p.as_string() if z3.is_string_value(p) else p for p in catparts(zs(f))]
    m = {'b': 'i1', 'B': 'u1', 'h': 'i2', 'H': 'u2', 'i': 'i4', 'I': 'u4', 'l': 'i4', 'L': 'u4', 'q': 'i8', 'Q': 'u8', 'f': 'f4', 'd': 'f8', 'c': 'c', 's': 's', '?': 'b1'}
    out = []; cnt = None; first = True; std = False
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                if ch in '<>!=@':
                    if not first: raise PyRaise(_struct.error('bad char in struct format'), True)
                    if ch in '>!': raise Unsupported('big endian struct')
                    std = ch in '<='; first = False; continue
                first = False
                if ch.isdigit(): cnt = (cnt or 0)*10+int(ch); continue
                if ch == ' ': continue
                if ch not in m: raise Unsupported('struct format '+ch)
                if ch in 'lLqQ' and not std: 
                    c = 'i8' if ch in 'lq' else 'u8'
                else: c = m[ch]
                out.append((c, 1 if cnt is None else cnt)); cnt = None
        elif p.decl().name() == 'fmt_d': cnt = mkint(p.arg(0)); first = False
        elif p.decl().name() == 'strrep':
            ch = p.arg(0).as_string(); first = False
            if len(ch) != 1 or ch not in m: raise Unsupported('struct format repetition')
            c = m[ch] if not (ch in 'lq' and not std) else 'i8'
            out.append((c, mkint(p.arg(1))))
        else: raise Unsupported('symbolic struct format')
    if not std and len({c for c, n in out}) > 1: raise Unsupported('native alignment in a mixed struct format')
    return out
SERR = _struct.error
def st_unpack(fmt, b):
    items = parse_fmt(fmt)
    tot = 0
    for c, n in items: tot = tot+(DT[c][1] if c in DT else 1)*n
    if not isinstance(b, FileBytes): raise Unsupported('unpack of %r' % (b,))
    if not truth(cmp('==', b.n, tot)): raise PyRaise(SERR('unpack requires a buffer of %s bytes' % tot), True)
    out = []; off = b.off; segs = []
    for c, n in items:
        if c in ('c', 's'): raise Unsupported('struct char')
        w = DT[c][1]
        if isinstance(n, int): segs.append([b.f.item(c, off+w*j) for j in range(n)])
        else:
            o = off
            segs.append(Seg(n, lambda k, c=c, w=w, o=o: b.f.item(c, o+w*k)))
        off = off+w*n
    if all(isinstance(s, list) for s in segs): return tuple(x for s in segs for x in s)
    r = SList(segs=segs); r.istuple = True
    if len(r.segs) == 1: return r
    return r
def st_pack(fmt, *args):
    items = parse_fmt(fmt)
    vals = SList([])
    for a in args:
        if isinstance(a, StarSeq): vals = cat(vals, a.s)
        else: vals = cat(vals, SList([a]))
    tot = 0
    for c, n in items: tot = tot+n
    nv = vals.size()
    if not truth(cmp('==', tot, nv)): raise PyRaise(SERR('pack expected a different number of items for packing'), True)
    segs = []; off = 0
    for c, n in items:
        if isinstance(n, int) and vals.concrete():
            xs = [pack_val(c, vals.items[off+j]) for j in range(n)]
            segs.append(WSeg(c, n, lambda q, xs=xs: nd.pickv(xs, q)))
        else:
            # range check of every element (struct.error)
            o = off
            k = z3.Const(T.ENG.fresh_name('pk'), Z); 
            if truth(cmp('>', n, 0)):
                with T.ENG.scope():
                    T.ENG.bound(mkint(k), 0, n-1)
                    with nofork(): v = vals.get(o+mkint(k))
                    ok = pack_ok(c, v)
                    if ok is not True and T.ENG.implied(zb(ok)): ok = True
                if ok is not True:
                    q = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), zb(ok)))
                    if not T.ENG.decide_t(q): raise PyRaise(SERR('argument out of range'), True)
            segs.append(WSeg(c, n, lambda q, o=o, c=c: nd.coerce(c, vals.get(o+q))))
        off = off+n
    return WBytes(segs)
def pack_ok(c, v):
    if DT[c][0] in 'iu':
        if isinstance(v, (SymReal, float)): raise PyRaise(SERR('required argument is not an integer'), True)
        n = DT[c][1]*8
        lo, hi = (-(1 << (n-1)), (1 << (n-1))-1) if DT[c][0] == 'i' else (0, (1 << n)-1)
        return andb(tb(cmp('>=', v, lo)), tb(cmp('<=', v, hi)))
    return True
def pack_val(c, v):
    if isinstance(v, Arr): v = v.item()
    if not truth(pack_ok(c, v)): raise PyRaise(SERR('argument out of range'), True)
    return nd.coerce(c, v)
def arr_tobytes(a, order='C'):
    f = a.ravel(order if order != 'A' else 'C').snap()
    return WBytes([WSeg(a.code, a.size, lambda q: f((q,)))])
def arr_tofile(a, f, *r, **k):
    if r or k: raise Unsupported('tofile in text mode')
    b = arr_tobytes(a)
    if isinstance(f, WFile): f.write(b)
    elif isinstance(f, str): INTERP_().call(INTERP_().builtins['open'], [f, 'wb'], {}).write(b)
    else: raise Unsupported('tofile')
def INTERP_(): return I.INTERP
def np_frombuffer(b, dtype=None, count=-1, offset=0):
    c = nd.dtcode(dtype)
    if not isinstance(b, FileBytes): raise Unsupported('frombuffer of %r' % (b,))
    w = DT[c][1]
    n = b.n-offset
    q, r = int_divmod(n, w)
    if not truth(cmp('==', r, 0)): raise PyRaise(ValueError('buffer size must be a multiple of element size'), True)
    if not truth(cmp('>=', q, 0)): raise PyRaise(ValueError('offset'), True)
    if not (isinstance(count, int) and count == -1):
        if not truth(cmp('<=', count, q)): raise PyRaise(ValueError('buffer is smaller than requested size'), True)
        q = count
    return b.f.array(c, b.off+offset, q)
def np_fromfile(f, dtype=None, count=-1, sep='', offset=0):
    c = nd.dtcode(dtype); w = DT[c][1]
    if sep != '': raise Unsupported('fromfile text mode')
    if isinstance(f, str): f = I.INTERP.call(I.INTERP.builtins['open'], [f, 'rb'], {})
    if not isinstance(f, RFile): raise Unsupported('fromfile of %r' % (f,))
    pos = f.pos+offset
    if isinstance(f.pos, Poison): raise PoisonRead(f.pos.loc)
    left = f.inf.size-pos
    if not truth(cmp('>=', left, 0)): left = 0
    if isinstance(count, int) and count < 0: n = int_divmod(left, w)[0]
    else:
        if not truth(cmp('>=', count, 0)): raise Unsupported('negative count in fromfile')
        n = count if truth(cmp('<=', count*w, left)) else int_divmod(left, w)[0]
    a = f.inf.array(c, pos, n)
    f.setpos(pos+n*w)
    return a

# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, Poison): raise PoisonRead(x.loc)
    if isinstance(x, SList): return x.size()
    if isinstance(x, SymStr): return x.sym_len()
    if isinstance(x, SRange): return x.n()
    if isinstance(x, dict) and I.fams(x): return I.view(x, 'keys')().size()
    if hasattr(x, 'vc_len'): return x.vc_len()
    if isinstance(x, IObj):
        f = I.INTERP.find_method(x, '__len__')
        if f is not None: return I.INTERP.call(f, [], {})
        if x.payload is not None: return len(x.payload)
        raise PyRaise(TypeError('no len'), True)
    if isinstance(x, Sym) or x is None or isinstance(x, (int, float)): raise PyRaise(TypeError('object has no len()'), True)
    return len(x)
def b_range(*a):
    a = [idx_int(x) for x in a]
    if len(a) == 1: return SRange(0, a[0], 1)
    if len(a) == 2: return SRange(a[0], a[1], 1)
    return SRange(*a)
def b_int(x=0, base=None):
    if isinstance(x, Poison): raise PoisonRead(x.loc)
    if base is not None: return int(x, base)
    if isinstance(x, Arr): x = x.item()
    if isinstance(x, (int, SymInt)): return int(x) if isinstance(x, bool) else x
    if isinstance(x, SymBool): return mkint(P(x))
    if isinstance(x, SymReal):
        t = x.t
        if t.decl().kind() == z3.Z3_OP_DIV:
            a, b = t.arg(0), t.arg(1)
            ia = mkint(a.arg(0)) if a.decl().kind() == z3.Z3_OP_TO_REAL else (a.numerator_as_long() if z3.is_rational_value(a) and a.denominator_as_long() == 1 else None)
            ib = mkint(b.arg(0)) if b.decl().kind() == z3.Z3_OP_TO_REAL else (b.numerator_as_long() if z3.is_rational_value(b) and b.denominator_as_long() == 1 else None)
            if ia is not None and ib is not None and (T.ENG.prove_nonneg(P(ia)) and T.ENG.prove_nonneg(P(ib)-Poly.const(1))):
                T.ENG.assumptions.add('int(a/b) of integers is floor division (exact below 2**53)')
                return int_divmod(ia, ib)[0]
        return nd.trunc(x)
    if isinstance(x, SymStr):
        # an integer literal or ValueError
        r = strs.to_int(x)
        if isinstance(r, str): raise PyRaise(ValueError('invalid literal for int()'))
        if r is not None: return r
        ok = SymBool(z3.Function('is_int_text', S, z3.BoolSort())(x.t))
        if truth(ok): return mkint(z3.Function('int_of_text', S, Z)(x.t))
        raise PyRaise(ValueError('invalid literal for int()'), True)
    if isinstance(x, (SList, IObj, dict, type(None))): raise PyRaise(TypeError('int() argument'), True)
    try: return int(x)
    except (ValueError, TypeError, OverflowError) as e: raise PyRaise(e, True)
def b_float(x=0.0):
    if isinstance(x, Poison): raise PoisonRead(x.loc)
    if isinstance(x, Arr): x = x.item()
    if isinstance(x, SymReal): return x
    if isinstance(x, (SymInt, SymBool)): return mkreal(zr(x))
    if isinstance(x, SymStr):
        r = strs.to_float(x)
        if isinstance(r, str): raise PyRaise(ValueError('could not convert string to float'))
        if r is not None: return r
        ok = SymBool(z3.Function('is_float_text', S, z3.BoolSort())(x.t))
        if truth(ok): return mkreal(z3.Function('float_of_text', S, R)(x.t))
        raise PyRaise(ValueError('could not convert string to float'), True)
    if isinstance(x, (SList, IObj, dict, type(None), tuple)): raise PyRaise(TypeError('float() argument'), True)
    try: return float(x)
    except (ValueError, TypeError, OverflowError) as e: raise PyRaise(e, True)
def b_str(x=''):
    if isinstance(x, (SymStr,)): return x
    if isinstance(x, (Sym,)): return fmt_one(x)
    if isinstance(x, IObj):
        f = I.INTERP.find_method(x, '__str__') or I.INTERP.find_method(x, '__repr__')
        if f: return I.INTERP.call(f, [], {})
        if x.cls.is_exc(): return fmt_one(x.args[0]) if x.args else ''
    if isinstance(x, (SList, tuple)) and not has_sym(x): return str(native(x))
    if isinstance(x, BaseException): return str(x)
    return fmt_one(x)
def b_isinstance(x, t):
    if isinstance(x, Poison): raise PoisonRead(x.loc)
    if isinstance(t, (tuple, SList)): return any(b_isinstance(x, u) for u in to_seq(t).items)
    if isinstance(t, TypeModel): return t.inst(x)
    if hasattr(t, 'vc_instance'): return t.vc_instance(x)
    if isinstance(t, IClass): return isinstance(x, IObj) and t in x.cls.mro
    if isinstance(t, Missing): raise Unsupported('isinstance with '+t.name)
    if isinstance(t, type):
        if isinstance(x, IObj): return any(isinstance(c, type) and issubclass(c, t) for c in x.cls.native_bases())
        return isinstance(x, t)
    raise Unsupported('isinstance')
def b_type(x):
    B = I.INTERP.builtins
    if isinstance(x, IObj): return x.cls
    if isinstance(x, (bool, SymBool)): return B['bool']
    if isinstance(x, (int, SymInt)): return B['int']
    if isinstance(x, (float, SymReal)): return B['float']
    if isinstance(x, (str, SymStr)): return B['str']
    if isinstance(x, SList): return B['list']
    if isinstance(x, tuple): return B['tuple']
    if isinstance(x, dict): return B['dict']
    if isinstance(x, Arr): return I.INTERP.libs['numpy'].d['ndarray']
    return type(x)
def b_minmax(op):
    def f(*a, key=None, default=None):
        if key is not None: raise Unsupported('min/max with key')
        if len(a) == 1:
            if isinstance(a[0], Arr): return nd.reduce_(op, a[0])
            s = to_seq(a[0])
            if not s.concrete(): return nd.reduce_(op, nd.asarray(s))
            xs = s.items
            if not xs:
                if default is not None: return default
                raise PyRaise(ValueError('min() arg is an empty sequence'), True)
        else: xs = list(a)
        r = xs[0]
        for x in xs[1:]:
            c = cmp('<' if op == 'min' else '>', x, r) if (isinstance(x, Sym) or isinstance(r, Sym)) else (x < r if op == 'min' else x > r)
            if isinstance(r, SymReal) or isinstance(x, SymReal): r = ite(tb(c), x, r)
            elif truth(c): r = x
        return r
    return f
class EnumFile:
    """enumerate(file)"""
    _vc_model = True
    def __init__(self, f, start): self.f = f; self.d = dict(n=start)
    def vc_stream(self, body):
        def one(x):
            n = self.d['n']
            if isinstance(n, I.Poison): raise I.PoisonRead(n.loc)
            I.INTERP.setd(self.d, 'n', n+1, 'dict'); body((n, x))
        return self.f.vc_stream(one)
    def vc_seq(self): return b_enumerate(self.f.vc_seq(), self.d['n'])
def b_enumerate(x, start=0):
    if isinstance(x, TFile): return EnumFile(x, start)
    s = to_seq(x)
    if s.concrete(): return SList([(start+i, v) for i, v in enumerate(s.items)])
    segs = []; at = start
    for q in s.segs:
        if isinstance(q, list): segs.append([(at+j, v) for j, v in enumerate(q)]); at = at+len(q)
        else: segs.append(Seg(q.n, lambda k, q=q, at=at: (at+k, q.get(k)))); at = at+q.n
    return SList(segs=segs)
def b_zip(*xs):
    ss = [to_seq(x) for x in xs]
    if all(s.concrete() for s in ss): return SList([tuple(t) for t in zip(*[s.items for s in ss])])
    lay = [[(len(q) if isinstance(q, list) else q.n) for q in s.segs if not (isinstance(q, list) and not q)] for s in ss]
    if all(len(l) == len(lay[0]) and all(nd.dim_eq(a, b) is True if isinstance(a, int) == isinstance(b, int) else False for a, b in zip(l, lay[0])) for l in lay):
        segs = []
        for qs in zip(*[[q for q in s.segs if not (isinstance(q, list) and not q)] for s in ss]):
            n = len(qs[0]) if isinstance(qs[0], list) else qs[0].n
            g = lambda k, qs=qs: tuple(q[k] if isinstance(q, list) else q.get(k) for q in qs)
            segs.append([g(k) for k in range(n)] if isinstance(n, int) else Seg(n, g))
        return SList(segs=segs)
    n = ss[0].size()
    for s in ss[1:]:
        m = s.size()
        if truth(cmp('<', m, n)): n = m
    if isinstance(n, int): return SList([tuple(s.get(k) for s in ss) for k in range(n)])
    return SList(segs=[Seg(n, lambda k: tuple(s.get(k) for s in ss))])
def b_list(x=()):
    s = to_seq(x); return s.copy()
def b_tuple(x=()):
    s = to_seq(x)
    if s.concrete(): return tuple(s.items)
    return s.copy()
def b_map(f, *xs):
    if len(xs) > 1: xs = [b_zip(*xs)]; g = lambda v: I.INTERP.call(f, list(v), {})
    else: g = lambda v: I.INTERP.call(f, [v], {})
    s = to_seq(xs[0])
    if s.concrete(): return SList([g(v) for v in s.items])
    return lazy_map(s, g)
def lazy_map(s, g):
    segs = [[g(x) for x in q] if isinstance(q, list) else Seg(q.n, lambda k, q=q: g(q.get(k))) for q in s.segs]
    return SList(segs=segs)
def b_filter(f, x):
    r = SList([])
    def body(v):
        if truth(I.INTERP.call(f, [v], {}) if f is not None else v): r.append(v)
    from . import loops
    loops.for_loop(I.INTERP, to_seq(x), body)
    return r
def b_sum(x, start=0):
    if isinstance(x, Arr): 
        if x.ndim == 1 and not isinstance(x.shape[0], int): return nd.reduce_('sum', x)
    s = to_seq(x)
    if not s.concrete():
        r = start
        for q in s.segs:
            if isinstance(q, list):
                for v in q: r = I.INTERP.binop('+', r, v)
                continue
            v = q.get(T.ENG.fresh_int('j', 0, q.n-1)) if not (isinstance(q.n, int) and q.n <= 0) else 0
            if not isinstance(v, (bool, int)): return nd.reduce_('sum', nd.asarray(s))
            r = r+int(v)*q.n            # every element is this number
        return r
    r = start
    for v in s.items: r = I.INTERP.binop('+', r, v)
    return r
def b_any(x): 
    if isinstance(x, Arr): return nd.anyall(x, True)
    s = to_seq(x)
    if s.concrete(): return any(truth(v) for v in s.items)
    return nd.anyall(nd.asarray(s), True)
def b_all(x): 
    if isinstance(x, Arr): return nd.anyall(x, False)
    s = to_seq(x)
    if s.concrete(): return all(truth(v) for v in s.items)
    return nd.anyall(nd.asarray(s), False)
def b_sorted(x, key=None, reverse=False):
    s = to_seq(x).copy(); its = s.items
    if has_sym(its) and key is None: raise Unsupported('sort of symbolic values')
    ks = [I.INTERP.call(key, [v], {}) if key is not None else v for v in its]
    if any(isinstance(k, Sym) for k in ks): raise Unsupported('sort with symbolic keys')
    order = sorted(range(len(its)), key=lambda i: ks[i], reverse=reverse) if not reverse else sorted(range(len(its)), key=lambda i: ks[i], reverse=True)
    return SList([its[i] for i in order])
def b_reversed(x):
    s = to_seq(x); n = s.size()
    if s.concrete(): return SList(list(reversed(s.items)))
    return SList(segs=[Seg(n, lambda k: s.get(n-1-k))])
def b_abs(x):
    if isinstance(x, Arr): return nd.np_abs(x)
    return abs(x)
def b_chr(x):
    if isinstance(x, SymInt): return SymStr(CHR(zi(x)))
    try: return chr(x)
    except (ValueError, TypeError) as e: raise PyRaise(e, True)
def b_ord(x):
    if isinstance(x, SymStr):
        t = x.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return ite(mkbool(t.arg(0)), b_ord(fromz(t.arg(1))), b_ord(fromz(t.arg(2))))
        if z3.is_string_value(t): return ord(t.as_string())
        return mkint(z3.Function('ord', S, Z)(t))
    return ord(x)
def b_hasattr(o, n):
    try: I.INTERP.getattr(o, n); return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError): return False
        raise
def b_getattr(o, n, *d):
    try: return I.INTERP.getattr(o, n)
    except PyRaise as e:
        if d and isinstance(e.exc, AttributeError): return d[0]
        raise
def b_dict(*a, **k):
    d = {}
    if a:
        x = a[0]
        if isinstance(x, IObj): x = x.payload
        if isinstance(x, dict): d.update(x)
        else:
            for p in to_seq(x).items:
                kk, v = to_seq(p).items
                if isinstance(kk, Sym): raise Unsupported('symbolic dict key')
                d[kk] = v
    d.update(k); return d
def b_open(path, mode='r', *a, **k):
    return I.INTERP.fs.open(path, mode)
def b_round(x, n=None):
    if isinstance(x, (SymReal,)):
        if n is None: return mkint(nd.RINT(x.t))
        return nd.round_(x, n)
    if isinstance(x, SymInt): return x
    return round(x, n) if n is not None else round(x)
def b_print(*a, sep=' ', end='\n', file=None, flush=False):
    if file is None: return None
    out = ''
    for j, x in enumerate(a): out = catstr(out, sep if j else '', b_str(x))
    I.INTERP.call(I.INTERP.getattr(file, 'write'), [catstr(out, end)], {})
def b_callable(x): return isinstance(x, (IFunction, IMethod, Builtin, IClass, TypeModel))
def b_setattr(o, n, v): I.INTERP.setattr(o, n, v)
class ListIter:
    """iterator over a list"""
    _vc_model = True
    def __init__(self, s, d=None): self.s = s; self.d = d if d is not None else dict(pos=0)
    def vc_seq(self):
        if not (isinstance(self.d['pos'], int) and self.d['pos'] == 0): raise Unsupported('loop over a partly consumed iterator')
        return self.s
    def vc_truth(self): return True
    def vc_subst(self, f): return ListIter(f(self.s), self.d)
    def vc_getattr(self, n):
        if n == '__next__': return Builtin(self.next, n)
        if n == '__iter__': return Builtin(lambda: self, n)
        raise Unsupported('attribute %s of an iterator' % n)
    def next(self):
        p = self.d['pos']
        if isinstance(p, I.Poison): raise I.PoisonRead(p.loc)
        if truth(cmp('>=', p, self.s.size())): T.ENG.pyraise(StopIteration())
        I.INTERP.setd(self.d, 'pos', p+1, 'attr')
        return I.INTERP.getitem(self.s, p)
def b_iter(x):
    if isinstance(x, IObj):
        f = I.INTERP.find_method(x, '__iter__')
        if f is not None: return I.INTERP.call(f, [], {})
    if isinstance(x, ListIter): return x
    return ListIter(to_seq(x))
def b_repr(x): return b_str(x) if isinstance(x, Sym) else repr(native(x)) if not has_sym(x) else fmt_one(x)
def b_divmod(a, b): return int_divmod(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else divmod(a, b)
def b_pow(a, b): return I.INTERP.binop('**', a, b)
def b_set(x=()):
    s = to_seq(x).items
    if any(isinstance(v, Sym) for v in s): raise Unsupported('set of symbolic values')
    return set(s)
def b_id(x): return id(x)
def b_next(x, *d):
    """first element (of a generator expression, which pyvc evaluates as a list; consuming the rest is not modelled)"""
    if isinstance(x, (IObj, ListIter)):
        f = I.INTERP.find_method(x, '__next__') if isinstance(x, IObj) else x.vc_getattr('__next__')
        if f is None: raise Unsupported('next() of an object')
        if not d: return I.INTERP.call(f, [], {})
        try: return I.INTERP.call(f, [], {})
        except PyRaise as e:
            if isinstance(e.exc, StopIteration): return d[0]
            raise
    if isinstance(x, TFile):
        l = x.readline()
        if not (isinstance(l, str) and l == ''): return l
        if d: return d[0]
        T.ENG.pyraise(StopIteration())
    if getattr(x, 'isgen', None) is not True: raise Unsupported('next() of this value')
    s = x.copy(); T.ENG.log(None, lambda: setattr(x, 'isgen', True)); x.isgen = 'used'
    if truth(s): return I.INTERP.getitem(s, 0)
    if d: return d[0]
    T.ENG.pyraise(StopIteration())

class FS:
    """file system model: inputs maps paths to InFile; every other path does not exist"""
    def __init__(self): self.inputs = {}; self.outputs = []; self.log = []; self.syminputs = []
    def find(self, path):
        for p, f in self.inputs.items():
            if p is path or (isinstance(p, str) and isinstance(path, str) and p == path): return f
        for p, f in self.syminputs:
            if isinstance(path, SymStr) and p.t.eq(path.t): return f
        if isinstance(path, SymStr) : raise Unsupported('existence of a symbolic path')
        return None
    def open(self, path, mode):
        if 'w' in mode:
            w = WFile(path) if 'b' in mode else TextW(path); self.outputs.append(w); T.ENG.log(None, lambda: self.outputs.remove(w)); return w
        if mode in ('a', 'at'):
            for w in self.outputs[::-1]:
                if isinstance(w, TextW) and isinstance(path, str) and w.path == path: return w      # the text written so far is kept
        if 'a' in mode or '+' in mode: raise Unsupported('open mode '+mode)
        f = self.find(path)
        if f is None: raise PyRaise(FileNotFoundError(2, 'No such file or directory', path), True)
        return f.opener(mode) if hasattr(f, 'opener') else RFile(f, 'b' not in mode)
    def isfile(self, path): return self.find(path) is not None
    def size(self, path):
        f = self.find(path)
        if f is None: raise PyRaise(FileNotFoundError(2, 'No such file or directory', path), True)
        return f.size
class StatRes:
    _vc_model = True
    def __init__(self, n): self.st_size = n

def install(it):
    it.fs = FS()
    def isnum_int(x): return isinstance(x, (int, SymInt)) 
    B = {}
    for f in (b_len, b_range, b_isinstance, b_type, b_enumerate, b_zip, b_map, b_filter, b_sum, b_any, b_all, b_sorted, b_reversed, b_abs, b_chr, b_ord,
              b_hasattr, b_getattr, b_setattr, b_open, b_round, b_print, b_callable, b_iter, b_repr, b_divmod, b_pow, b_id, b_next):
        B[f.__name__[2:]] = Builtin(f, f.__name__[2:])
    B['min'] = Builtin(b_minmax('min'), 'min'); B['max'] = Builtin(b_minmax('max'), 'max')
    B['locals'] = Builtin(lambda: {}, 'locals'); B['globals'] = Builtin(lambda: {}, 'globals')
    B['slice'] = Builtin(lambda *a: slice(*a), 'slice')
    B['int'] = TypeModel('int', b_int, lambda x: isinstance(x, (int, SymInt, SymBool)), int)
    B['float'] = TypeModel('float', b_float, lambda x: isinstance(x, (float, SymReal)), float)
    B['str'] = TypeModel('str', b_str, lambda x: isinstance(x, (str, SymStr)), str)
    B['bool'] = TypeModel('bool', lambda x=False: x if isinstance(x, SymBool) else truth(x), lambda x: isinstance(x, (bool, SymBool)), bool)
    B['list'] = TypeModel('list', b_list, lambda x: isinstance(x, SList) and not getattr(x, 'istuple', False), list)
    B['tuple'] = TypeModel('tuple', b_tuple, lambda x: isinstance(x, tuple) or (isinstance(x, SList) and getattr(x, 'istuple', False)), tuple)
    B['dict'] = TypeModel('dict', b_dict, lambda x: isinstance(x, dict) or (isinstance(x, IObj) and x.payload is not None), dict)
    B['set'] = TypeModel('set', b_set, lambda x: isinstance(x, (set, frozenset)), set)
    B['bytes'] = TypeModel('bytes', lambda *a: (_ for _ in ()).throw(Unsupported('bytes()')), lambda x: isinstance(x, (bytes, FileBytes, WBytes)), bytes)
    B['object'] = TypeModel('object', None, lambda x: True, object)
    B['complex'] = TypeModel('complex', None, lambda x: isinstance(x, complex), complex)
    for n in ('Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'OSError', 'IOError', 'FileNotFoundError', 'NotImplementedError', 'RuntimeError', 'AttributeError',
              'NameError', 'AssertionError', 'ImportError', 'ModuleNotFoundError', 'StopIteration', 'ZeroDivisionError', 'UnicodeDecodeError', 'ArithmeticError', 'LookupError', 'PermissionError', 'EOFError', 'OverflowError', 'MemoryError', 'DeprecationWarning', 'Warning', 'UserWarning', 'FutureWarning', 'SyntaxError', 'KeyboardInterrupt', 'SystemExit', 'EnvironmentError'):
        B[n] = getattr(__import__('builtins'), n)
    B['True'] = True; B['False'] = False; B['None'] = None; B['NotImplemented'] = NotImplemented; B['Ellipsis'] = Ellipsis; B['__name__'] = '?'
    it.builtins = B
    npd = nd.module()
    npd['fromfile'] = Builtin(np_fromfile, 'np.fromfile'); npd['frombuffer'] = Builtin(np_frombuffer, 'np.frombuffer')
    npd['float'] = B['float']; npd['int'] = B['int']
    L = it.libs
    L['numpy'] = ModelModule('numpy', npd)
    L['struct'] = ModelModule('struct', dict(unpack=Builtin(st_unpack, 'struct.unpack'), pack=Builtin(st_pack, 'struct.pack', star=True), error=SERR,
        calcsize=Builtin(lambda f: calcsize(f), 'struct.calcsize')))
    path = ModelModule('os.path', dict(isfile=Builtin(lambda p: it.fs.isfile(p)), exists=Builtin(lambda p: it.fs.isfile(p)), getsize=Builtin(lambda p: it.fs.size(p)), isdir=Builtin(lambda p: False),
        **{n: Builtin(purefn(getattr(_os.path, n)), 'os.path.'+n) for n in ('basename', 'dirname', 'splitext', 'join', 'abspath', 'normpath', 'split')}, sep='/'))
    path.d['isfile'].name = 'os.path.isfile'
    L['os.path'] = path
    L['os'] = ModelModule('os', dict(path=path, stat=Builtin(lambda p: StatRes(it.fs.size(p)), 'os.stat'), sep='/', linesep='\n', SEEK_SET=0, SEEK_CUR=1, SEEK_END=2,
        getcwd=Builtin(lambda: '/', 'os.getcwd'), name='posix'))
    L['time'] = ModelModule('time', dict(strftime=Builtin(lambda *a: 'DD-Mon-YYYY at HH:MM:SS', 'time.strftime'), localtime=Builtin(lambda *a: 0, 'time.localtime'), time=Builtin(lambda: 0.0, 'time.time')))
    L['collections'] = ModelModule('collections', dict(namedtuple=Builtin(lambda *a, **k: object, 'namedtuple'), OrderedDict=TypeModel('OrderedDict', b_dict, lambda x: isinstance(x, dict) or (isinstance(x, IObj) and x.payload is not None), dict)))
    L['warnings'] = ModelModule('warnings', dict(warn=Builtin(lambda *a, **k: None, 'warn'), simplefilter=Builtin(lambda *a, **k: None, 'w'), filterwarnings=Builtin(lambda *a, **k: None, 'w')))
    L['re'] = ModelModule('re', {n: Builtin(purefn(getattr(_re, n)), 're.'+n) for n in ('findall', 'split', 'sub', 'escape')} | {n: Builtin(purefn(getattr(_re, n)), 're.'+n) for n in ('match', 'search', 'compile', 'fullmatch')} | dict(IGNORECASE=_re.IGNORECASE, I=_re.I))
    L['re'].d['sub'] = Builtin(re_sub(L['re'].d['sub'].fn), 're.sub')
    for n in ('match', 'fullmatch', 'search'): L['re'].d[n] = Builtin(re_sym(n, L['re'].d[n].fn), 're.'+n)
    L['fnmatch'] = ModelModule('fnmatch', {n: Builtin(fn_match(n), 'fnmatch.'+n) for n in ('fnmatch', 'fnmatchcase')})
    L['copy'] = ModelModule('copy', dict(copy=Builtin(cp_shallow, 'copy.copy'), deepcopy=Builtin(cp_deep, 'copy.deepcopy')))
    L['math'] = ModelModule('math', {n: npd[n] for n in ('cos', 'sin', 'tan', 'sqrt', 'exp', 'log', 'pi', 'nan', 'inf')} | dict(floor=Builtin(lambda x: b_int(nd.np_floor(x)), 'floor'), ceil=Builtin(lambda x: b_int(nd.np_ceil(x)), 'ceil')))
    L['sys'] = ModelModule('sys', dict(version_info=(3, 12, 3), platform='linux', byteorder='little', maxsize=2**63-1))
    L['io'] = ModelModule('io', dict(open=B['open']))
    L['itertools'] = ModelModule('itertools', dict(product=Builtin(it_product, 'itertools.product'), takewhile=Builtin(it_takewhile, 'itertools.takewhile'), chain=Builtin(lambda *a: [0] and catall(a), 'chain')))
    sl = ModelModule('future.standard_library', dict(install_aliases=Builtin(lambda *a: None, 'install_aliases')))
    L['future'] = ModelModule('future', dict(standard_library=sl)); L['future.standard_library'] = sl
    L['builtins'] = ModelModule('builtins', dict(B))
    L['__future__'] = ModelModule('__future__', {n: None for n in ('print_function', 'unicode_literals', 'division', 'absolute_import')})
    L['numpy.polynomial'] = Missing('numpy.polynomial')
    from . import pdmodel
    pdmodel.install(it)
    nd.install_axioms(it.eng)
class MatchRes:
    _vc_model = True
    def vc_truth(self): return True
def re_to_z3(pat, flags=0):
    """translation of the parsed regular expression; '$' only at the end (newlines are outside the model)"""
    try: from re import _parser as sp
    except ImportError: import sre_parse as sp
    ANY = z3.Diff(z3.AllChar(z3.ReSort(S)), z3.Re('\n'))
    def cls(items):
        neg = False; rs = []
        for op, av in items:
            o = str(op)
            if o == 'NEGATE': neg = True
            elif o == 'LITERAL': rs.append(z3.Re(chr(av)))
            elif o == 'RANGE': rs.append(z3.Range(chr(av[0]), chr(av[1])))
            elif o == 'CATEGORY' and str(av) == 'CATEGORY_DIGIT': rs.append(z3.Range('0', '9'))
            else: raise Unsupported('regular expression %s' % o)
        r = rs[0] if len(rs) == 1 else z3.Union(rs)
        return z3.Diff(z3.AllChar(z3.ReSort(S)), r) if neg else r
    def seq(items):
        out = []; items = list(items); endd = False
        for j, (op, av) in enumerate(items):
            o = str(op)
            if o == 'LITERAL': out.append(z3.Re(chr(av)))
            elif o == 'ANY': out.append(ANY)
            elif o == 'IN': out.append(cls(av))
            elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
                lo, hi, sub = av; r, e = seq(sub)
                if e: raise Unsupported('regular expression')
                if str(hi) == 'MAXREPEAT' or hi == sp.MAXREPEAT:
                    out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
                elif (lo, hi) == (0, 1): out.append(z3.Option(r))
                else: out.append(z3.Loop(r, lo, hi))
            elif o == 'SUBPATTERN':
                r, e = seq(av[-1])
                if e: raise Unsupported('regular expression')
                out.append(r)
            elif o == 'BRANCH':
                rs = [seq(x) for x in av[1]]
                if any(e for _, e in rs): raise Unsupported('regular expression')
                out.append(z3.Union([r for r, _ in rs]))
            elif o == 'AT' and str(av) in ('AT_END', 'AT_END_STRING') and j == len(items)-1: endd = True
            elif o == 'AT' and str(av) in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and j == 0: pass
            else: raise Unsupported('regular expression %s' % o)
        if not out: return z3.Re(''), endd
        return (out[0] if len(out) == 1 else z3.Concat(out)), endd
    if flags not in (0, _re.IGNORECASE): raise Unsupported('regular expression flags')
    return seq(sp.parse(pat))
def re_prefix(pat):
    """(literal, followed by .*, anchored at the end) or None"""
    try: from re import _parser as sp
    except ImportError: import sre_parse as sp
    items = list(sp.parse(pat)); lit = ''; star = endd = False
    while items and str(items[0][0]) == 'LITERAL': lit += chr(items.pop(0)[1])
    if items and str(items[0][0]) == 'MAX_REPEAT':
        lo, hi, sub = items[0][1]
        if lo == 0 and hi == sp.MAXREPEAT and [str(o) for o, _ in sub] == ['ANY']: star = True; items.pop(0)
    if items and str(items[0][0]) == 'AT' and str(items[0][1]) == 'AT_END': endd = True; items.pop(0)
    return None if items or '\n' in lit else (lit, star, endd)
def re_chars(pat):
    """the characters of a pattern that is one character or one set of listed characters, else None"""
    try: from re import _parser as sp
    except ImportError: import sre_parse as sp
    items = list(sp.parse(pat))
    if len(items) != 1: return None
    o, av = items[0]
    if str(o) == 'LITERAL': return [chr(av)]
    if str(o) == 'IN' and all(str(x) == 'LITERAL' for x, _ in av): return [chr(c) for _, c in av]
    return None
def re_sub(plain):
    def f(pat, rep, s, *a, **k):
        if isinstance(s, SymStr) and not a and not k and isinstance(pat, str) and len(pat) == 2 and pat[1] == '+' and pat[0] not in '.^$*+?{}[]\\|()' and rep == pat[0]:
            r = strs.collapse(s, rep)
            if r is not None: return r
        if isinstance(s, SymStr) and not a and not k and isinstance(pat, str) and isinstance(rep, str) and '\\' not in rep:
            cs = re_chars(pat)
            if cs and not any(c in rep for c in cs):        # characters of a set, one by one
                for c in cs: s = I.INTERP.call(I.INTERP.getattr(s, 'replace'), [c, rep], {})
                return s
        return plain(pat, rep, s, *a, **k)
    return f
def re_sym(name, plain):
    def f(pat, s, flags=0):
        if not isinstance(s, SymStr) or not isinstance(pat, str): return plain(pat, s, flags) if flags else plain(pat, s)
        if flags: raise Unsupported('regular expression flags on a symbolic string')
        lit = re_prefix(pat)
        if lit is not None and name in ('match', 'fullmatch'):
            # literal prefix, then anything
            c = mkbool(z3.PrefixOf(z3.StringVal(lit[0]), s.t))
            if lit[1] and (lit[2] or name == 'fullmatch'): c = andb(c, notb(s.sym_contains('\n')))
            if lit[1] or name == 'match' and not lit[2]: return MatchRes() if truth(c) else None
        r, endd = re_to_z3(pat)
        tail = z3.Star(z3.AllChar(z3.ReSort(S)))
        if name == 'search': r = z3.Concat(tail, r)
        if name != 'fullmatch' and not endd: r = z3.Concat(r, tail)
        return MatchRes() if truth(mkbool(z3.InRe(s.t, r))) else None
    return f
def fn_match(name):
    import fnmatch as _fn
    def f(s, pat):
        if isinstance(s, str) and isinstance(pat, str): return getattr(_fn, name)(s, pat)
        if not isinstance(pat, str): raise Unsupported('symbolic file name pattern')
        if set('?[') & set(pat): raise Unsupported('file name pattern')
        tail = z3.Star(z3.AllChar(z3.ReSort(S))); ps = pat.split('*'); out = []
        for j, x in enumerate(ps):
            if j: out.append(tail)
            if x: out.append(z3.Re(x))
        return mkbool(z3.InRe(s.t, z3.Concat(out) if len(out) > 1 else out[0] if out else z3.Re('')))
    return f
def catall(a):
    r = SList([])
    for x in a: r = cat(r, to_seq(x))
    return r
def it_takewhile(pred, seq):
    from . import loops
    r = SList([])
    def body(x):
        if not truth(I.INTERP.call(pred, [x], {})): raise I.BreakEx()
        r.append(x)
    loops.for_loop(I.INTERP, to_seq(seq), body)
    return r
def it_product(*xs):
    if len(xs) != 2: raise Unsupported('itertools.product')
    a, b = [to_seq(x) for x in xs]
    if a.concrete() and b.concrete(): return SList([(x, y) for x in a.items for y in b.items])
    n, m = a.size(), b.size()
    return SList(segs=[Seg(n*m, lambda k: (a.get(int_divmod(k, m)[0]), b.get(int_divmod(k, m)[1])))])
def calcsize(f):
    return sum(DT[c][1]*n for c, n in parse_fmt(f))
def uf_s(name, *a): return SymStr(z3.Function(name, *([S]*len(a)), S)(*[zs(x) for x in a]))
SYMPURE = dict(basename=lambda p: uf_s('basename', p), dirname=lambda p: uf_s('dirname', p), splitext=lambda p: (uf_s('splitext_root', p), uf_s('splitext_ext', p)),
    findall=lambda pat, t: SList(segs=[Seg(findall_n(pat, t), lambda k: SymStr(z3.Function('findall', S, S, Z, S)(zs(pat), zs(t), zi(k))))]))
def findall_n(pat, t):
    n = mkint(z3.Function('findall_n', S, S, Z)(zs(pat), zs(t)))
    T.ENG.bound(n, 0); return n
def purefn(f):
    def g(*a, **k):
        if f.__name__ in SYMPURE and not k and all(isinstance(x, (str, SymStr)) for x in a) and any(isinstance(x, SymStr) for x in a): return SYMPURE[f.__name__](*a)
        if has_sym(list(a)) or has_sym(k): raise Unsupported('%s of a symbolic value' % f.__name__)
        try: return lift(f(*[native(x) for x in a], **k))
        except (TypeError, ValueError, AttributeError) as x: raise PyRaise(x, True)
    return g
def cp_shallow(x):
    if isinstance(x, Arr): return x.copy()
    if isinstance(x, SList): return x.copy()
    if isinstance(x, dict): return dict(x)
    if isinstance(x, (Sym, str, int, float, tuple, type(None))): return x
    raise Unsupported('copy.copy of %r' % (x,))
def cp_deep(x, memo=None):
    if isinstance(x, Arr): return x.copy()
    if isinstance(x, SList):
        if x.concrete(): return SList([cp_deep(v) for v in x.items])
        return lazy_map(x, cp_deep)
    if isinstance(x, dict): return {k: cp_deep(v) for k, v in x.items()}
    if isinstance(x, tuple): return tuple(cp_deep(v) for v in x)
    if isinstance(x, (Sym, str, int, float, bool, type(None))): return x
    if isinstance(x, IObj):
        o = IObj(x.cls); o.attrs = {k: cp_deep(v) for k, v in x.attrs.items()}
        o.payload = None if x.payload is None else cp_deep(x.payload); return o
    if hasattr(x, 'vc_deepcopy'): return x.vc_deepcopy()
    raise Unsupported('deepcopy of %r' % (x,))

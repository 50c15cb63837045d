"""C12: HAWC2 ae/pc and ROSCO performance tables survive a write/read cycle."""
import z3
from ..core import contract
from ..terms import *
from .. import nd, libs, strs
from ..interp import SList, Seg
from ..nd import Arr
from .. import interp as I
AE = ('weio/wetb/hawc2/ae_file.py', 'weio/hawc2_ae_file.py')
AEF = ['weio/wetb/hawc2/ae_file.py:AEFile.__str__', 'weio/wetb/hawc2/ae_file.py:AEFile.save', 'weio/wetb/hawc2/ae_file.py:AEFile._read_file', 'weio/hawc2_ae_file.py:HAWC2AEFile.write', 'weio/hawc2_ae_file.py:HAWC2AEFile.read']
PATH = 'out.dat'
ASSUMPTIONS = ['number formatting and parsing of Python (strs.py): int of a formatted integer is that integer; float of a float printed with at least 17 significant digits is that float; with fewer digits it is within half a unit of the last printed digit; a printed finite number is a non-empty token without blanks',
    'values are finite; the month name in the header of the performance file is one of the English abbreviations (C locale)', 'text files: what is written is what is read, line by line']

def dims(a, *n):
    return isinstance(a, Arr) and len(a.shape) == len(n) and andb(*[cmp('==', x, y) for x, y in zip(a.shape, n)])
def ae(keys):
    def f(ctx):
        d = {}; want = []
        for j, key in enumerate(keys):
            n = ctx.int('n%d' % j, 1)
            x = ctx.array('d%d' % j, (n, 3)); ids = z3.Function('id%d' % j, z3.IntSort(), z3.IntSort())
            g = x.snap()
            a = nd.new((n, 4), lambda ix, g=g, ids=ids: nd.pickv([g((ix[0], 0)), g((ix[0], 1)), g((ix[0], 2)), mkreal(z3.ToReal(ids(zi(ix[0]))))], ix[1]), 'f8')
            d[key] = a; want.append((key, n, g, ids))
        o = ctx.obj('weio.hawc2_ae_file:HAWC2AEFile'); o.attrs['filename'] = PATH
        data = ctx.obj('weio.wetb.hawc2.ae_file:AEFile'); data.attrs['ae_sets'] = d; o.attrs['data'] = data
        def body():
            ctx.call(ctx.it.getattr(o, 'write'), PATH)
            ctx.publish()
            q = ctx.obj('weio.hawc2_ae_file:HAWC2AEFile'); q.attrs['filename'] = None
            ctx.call(ctx.it.getattr(q, 'read'), PATH)
            return q.attrs['data'].attrs['ae_sets']
        def post(r, exc):
            if exc is not None: return ctx.fail('writing and reading back succeeds', '%r' % exc)
            ctx.prove('the same set numbers in the same order', isinstance(r, dict) and list(r) == list(keys), '%r' % list(r))
            for j, (key, n, g, ids) in enumerate(want):
                a = r[key]
                if not ctx.prove('every set has all its rows', dims(a, n, 4), '%s %s' % (key, getattr(a, 'shape', None))): return
                with nd.nofork():
                    i = ctx.idx('i', n)
                    for c, nm in enumerate(('radius', 'chord', 'thickness')):
                        ctx.prove('%s is read back exactly' % nm, cmp('==', a.at(i, c), g((i, c))), 'set %s' % key)
                    ctx.prove('the profile set identifier is read back exactly', cmp('==', a.at(i, 3), mkreal(z3.ToReal(ids(zi(i))))), 'set %s' % key)
        ctx.run(body, post)
    return f
for ks in ([1], [1, 2], [3, 1, 2]):
    contract('AEFile written and read back, sets %s of any length' % ks, AEF, budget=100)(ae(ks))

@contract('AEFile written and read back, any number of sets of any length', AEF, budget=100)
def ae_any(ctx):
    from ..ragged import SymDict, DictFam
    I_ = z3.IntSort(); R_ = z3.RealSort(); eng = ctx.eng
    N = ctx.int('nset', 1)
    NROW = z3.Function('nrow', I_, I_); eng.axiom_hooks['nrow'] = lambda t: [t >= 1]
    KEY = z3.Function('setkey', I_, I_); INV = z3.Function('setkeyinv', I_, I_); eng.axiom_hooks['setkey'] = lambda t: [INV(t) == t.arg(0)]
    D = [z3.Function('d%d' % c, I_, I_, R_) for c in range(3)]; ID = z3.Function('id', I_, I_, I_)
    n = lambda k: mkint(NROW(zi(k))); key = lambda k: mkint(KEY(zi(k)))
    def elem(k, i, c): return mkreal(z3.ToReal(ID(zi(k), zi(i)))) if c == 3 else mkreal(D[c](zi(k), zi(i)))
    def val(k): return nd.new((n(k), 4), lambda ix: nd.pickv([elem(k, ix[0], c) for c in range(4)], ix[1]), 'f8')
    o = ctx.obj('weio.hawc2_ae_file:HAWC2AEFile'); o.attrs['filename'] = PATH
    data = ctx.obj('weio.wetb.hawc2.ae_file:AEFile'); data.attrs['ae_sets'] = SymDict(N, key, val); o.attrs['data'] = data
    def body():
        ctx.call(ctx.it.getattr(o, 'write'), PATH)
        ctx.publish()
        q = ctx.obj('weio.hawc2_ae_file:HAWC2AEFile'); q.attrs['filename'] = None
        ctx.call(ctx.it.getattr(q, 'read'), PATH)
        return q.attrs['data'].attrs['ae_sets']
    def post(r, exc):
        if exc is not None: return ctx.fail('writing and reading back succeeds', '%r' % exc)
        f = list(r)[0] if isinstance(r, dict) and len(r) == 1 else None
        if not isinstance(f, DictFam): return ctx.unknown('the same set numbers in the same order', '%r' % (r,))
        if not ctx.prove('as many sets as written', cmp('==', f.n, N)): return
        with nd.nofork():
            k = ctx.idx('k', N); i = ctx.idx('i', n(k))
            ctx.prove('the same set numbers in the same order', cmp('==', f.keyat(k), key(k)))
            a = f.valat(k)
            if not ctx.prove('every set has all its rows', dims(a, n(k), 4), str(getattr(a, 'shape', None))): return
            for c, nm in enumerate(('radius', 'chord', 'thickness')): ctx.prove('%s is read back exactly' % nm, cmp('==', a.at(i, c), elem(k, i, c)))
            ctx.prove('the profile set identifier is read back exactly', cmp('==', a.at(i, 3), elem(k, i, 3)))
    ctx.run(body, post)

PCF = ['weio/wetb/hawc2/pc_file.py:PCFile.__init__', 'weio/wetb/hawc2/pc_file.py:PCFile._parse_lines', 'weio/wetb/hawc2/pc_file.py:PCFile.__str__', 'weio/wetb/hawc2/pc_file.py:PCFile.save', 'weio/hawc2_pc_file.py:HAWC2PCFile.write', 'weio/hawc2_pc_file.py:HAWC2PCFile.read']
def within(got, want, tol, rel=False):
    d = zr(got)-zr(want); lim = z3.RealVal(tol)
    if rel: lim = lim*z3.If(zr(want) >= 0, zr(want), -zr(want))
    return mkbool(z3.And(d <= lim, -d <= lim))
@contract('PCFile written and read back, any number of sets of any number of profiles of any length', PCF, budget=100)
def pc_any(ctx):
    from ..ragged import SymDict, DictFam
    I_ = z3.IntSort(); R_ = z3.RealSort(); eng = ctx.eng
    N = ctx.int('nset', 1)
    NP = z3.Function('nprof', I_, I_); eng.axiom_hooks['nprof'] = lambda t: [t >= 1]
    NR = z3.Function('nrow', I_, I_, I_); eng.axiom_hooks['nrow'] = lambda t: [t >= 1]
    KEY = z3.Function('setkey', I_, I_); INV = z3.Function('setkeyinv', I_, I_); eng.axiom_hooks['setkey'] = lambda t: [INV(t) == t.arg(0)]
    TH = z3.Function('thick', I_, I_, R_); D = z3.Function('coeff', I_, I_, I_, I_, R_)
    np_ = lambda k: mkint(NP(zi(k))); nr = lambda k, p: mkint(NR(zi(k), zi(p)))
    def val(k):
        th = nd.new((np_(k),), lambda ix: mkreal(TH(zi(k), zi(ix[0]))), 'f8')
        prof = SList(segs=[Seg(np_(k), lambda p: nd.new((nr(k, p), 4), lambda ix, p=p: mkreal(D(zi(k), zi(p), zi(ix[0]), zi(ix[1]))), 'f8'))])
        return (th, prof)
    new = ctx.get('weio.wetb.hawc2.pc_file:PCFile')
    def body():
        o = ctx.obj('weio.hawc2_pc_file:HAWC2PCFile'); o.attrs['filename'] = PATH
        o.attrs['data'] = data = ctx.call(new); data.attrs['pc_sets'] = SymDict(N, lambda k: mkint(KEY(zi(k))), val)
        ctx.call(ctx.it.getattr(o, 'write'), PATH)
        ctx.publish()
        q = ctx.obj('weio.hawc2_pc_file:HAWC2PCFile'); q.attrs['filename'] = None
        ctx.call(ctx.it.getattr(q, 'read'), PATH)
        return q.attrs['data'].attrs['pc_sets']
    def post(r, exc):
        if exc is not None: return ctx.fail('writing and reading back succeeds', '%r' % exc)
        f = list(r)[0] if isinstance(r, dict) and len(r) == 1 else None
        if not isinstance(f, DictFam): return ctx.unknown('the same number of sets', '%r' % (r,))
        if not ctx.prove('the same number of sets', cmp('==', f.n, N)): return
        with nd.nofork():
            k = ctx.idx('k', N); p = ctx.idx('p', np_(k)); i = ctx.idx('i', nr(k, p)); c = ctx.idx('c', 4)
            ctx.prove('sets are numbered in the order of the file', cmp('==', f.keyat(k), k+1))
            v = f.valat(k)
            if not (isinstance(v, tuple) and len(v) == 2): return ctx.unknown('every set has all its profiles', '%r' % (v,))
            th, prof = v
            if not ctx.prove('every set has all its thicknesses', dims(th, np_(k)), str(getattr(th, 'shape', None))): return
            if not ctx.prove('every set has all its profiles', isinstance(prof, SList) and P(prof.size()) == P(np_(k))): return
            ctx.prove('thickness to 8 decimals', within(th.at(p), mkreal(TH(zi(k), zi(p))), '5/1000000000'))
            a = prof.get(p)
            if not ctx.prove('every profile has all its rows', dims(a, nr(k, p), 4), str(getattr(a, 'shape', None))): return
            ctx.prove('coefficients to 15 significant digits', within(a.at(i, c), mkreal(D(zi(k), zi(p), zi(i), zi(c))), '5/10000000000000000', rel=True))
    ctx.run(body, post)

ROF = ['weio/rosco_performance_file.py:write_rotor_performance', 'weio/rosco_performance_file.py:load_from_txt', 'weio/rosco_performance_file.py:ROSCOPerformanceFile._read', 'weio/rosco_performance_file.py:ROSCOPerformanceFile._write', 'weio/rosco_performance_file.py:ROSCOPerformanceFile.read', 'weio/rosco_performance_file.py:ROSCOPerformanceFile.write']
class Now:
    """the current date: formatted with directives for numbers and month names (C locale)"""
    _vc_model = True
    def strftime(self, f):
        import re
        out = ''
        for m in re.finditer(r'%(.)|([^%]+)', f):
            if m.group(2): out = catstr(out, m.group(2)); continue
            if m.group(1) == 'b': strs.WORDS['month!name'] = strs.MONTHS; out = catstr(out, SymStr(z3.Const('month!name', z3.StringSort())))
            elif m.group(1) in 'dmyYHMS': out = catstr(out, SymStr(libs.FMT_D(z3.Int('date!'+m.group(1)))))
            else: raise Unsupported('date format')
        return out
    isoformat = None
def rosco(ws):
    def f(ctx):
        eng = ctx.eng; nP = ctx.int('npitch', 1); nT = ctx.int('ntsr', 1)
        pitch = ctx.array('pitch', (nP,)); tsr = ctx.array('tsr', (nT,))
        W = ctx.array('ws', (ctx.int('nws', 1),)) if ws else None
        C = {c: ctx.array(c, (nT, nP)) for c in ('CP', 'CT', 'CQ')}
        snap = {n: a.snap() for n, a in [('pitch', pitch), ('TSR', tsr)]+list(C.items())+([('WS', W)] if ws else [])}
        ctx.it.libs['datetime'] = I.ModelModule('datetime', dict(datetime=I.ModelModule('datetime.datetime', dict(now=I.Builtin(lambda *a: Now(), 'now')))))
        o = ctx.obj('weio.rosco_performance_file:ROSCOPerformanceFile'); o.attrs['filename'] = None
        for n, a in [('pitch', pitch), ('TSR', tsr), ('WS', W)]+list(C.items()): o.payload[n] = a
        def body():
            ctx.call(ctx.it.getattr(o, 'write'), PATH)
            ctx.publish()
            q = ctx.obj('weio.rosco_performance_file:ROSCOPerformanceFile'); q.attrs['filename'] = None
            ctx.call(ctx.it.getattr(q, 'read'), PATH)
            return q.payload
        def post(r, exc):
            if exc is not None: return ctx.fail('writing and reading back succeeds', '%r' % exc)
            with nd.nofork():
                for n, a in (('pitch', pitch), ('TSR', tsr), ('WS', W)):
                    v = r.get(n)
                    if a is None: ctx.prove('no wind speeds when none were written', v is None); continue
                    if not ctx.prove('%s has all its values' % n, dims(v, a.shape[0]), str(getattr(v, 'shape', None))): continue
                    i = ctx.idx('i', a.shape[0])
                    ctx.prove('%s to the printed digits' % n, within(v.at(i), snap[n]((i,)), '1/2000', rel=True))
                i = ctx.idx('i', nT); j = ctx.idx('j', nP)
                for n in C:
                    v = r.get(n)
                    if not ctx.prove('%s has one value per (ratio, pitch)' % n, dims(v, nT, nP), str(getattr(v, 'shape', None))): continue
                    ctx.prove('%s at the same position to 6 decimals' % n, within(v.at(i, j), snap[n]((i, j)), '1/2000000'))
        ctx.run(body, post)
    return f
contract('ROSCO performance file written and read back, with wind speeds', ROF, budget=100)(rosco(True))
contract('ROSCO performance file written and read back, without wind speeds', ROF, budget=100)(rosco(False))

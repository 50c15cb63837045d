"""C17: linearization, HAWC2 st and TurbSim time-series files keep every value in its place."""
import z3
from ..core import contract
from ..terms import *
from .. import nd, libs, strs
from .. import interp as I
from ..interp import SList, Seg
from .c16 import word, impl
from .c12 import within
LIN = 'weio.fast_linearization_file:FASTLinearizationFile'
LF = ['weio/fast_linearization_file.py:FASTLinearizationFile._read']
S = z3.StringSort(); Z = z3.IntSort()
ASSUMPTIONS = ['number formatting and parsing of Python (strs.py): a printed finite number is a non-empty token without blanks; with fewer than 17 digits it reads back within half a unit of the last printed digit',
    'values are finite; the words of the linearization tables have no blanks and no comma inside; text files: what is written is what is read, line by line']
TRUSTED = []
BOUNDED = ['st file: four combinations of set numbers, each proved for any number of stations; TurbSim time series: 1, 2 and 3 components, any number of points and times']
MATS = ('A', 'B', 'C', 'D', 'dUdu', 'dUdy')
def tokens(ctx):
    """a printed number is not empty, with or without its blanks"""
    ctx.eng.axiom_hooks['fmtr_str'] = lambda t: [z3.Length(t) >= 1]
    ctx.eng.axiom_hooks['strip'] = lambda t: [z3.Length(t) >= 1] if isinstance(strs.piece_of(t), strs.Tok) else []
def dims(a, *n): return isinstance(a, nd.Arr) and len(a.shape) == len(n) and andb(*[cmp('==', x, y) for x, y in zip(a.shape, n)])
def matlines(n, m, A): return Seg(n, lambda i: libs.str_join(' ', SList(segs=[Seg(m, lambda j: libs.fmt_one(A.at(i, j)))])))
def lin(mats, deriv, triple=''):
    def f(ctx):
        tokens(ctx)
        nx = ctx.int('nx', 1); nu = ctx.int('nu', 1); ny = ctx.int('ny', 1)
        dim = dict(A=(nx, nx), B=(nx, nu), C=(ny, nx), D=(ny, nu), dUdu=(nu, nu), dUdy=(nu, ny))
        M = {k: ctx.array('M'+k, dim[k], 'f8') for k in mats}
        ops = dict(x=nx, xdot=nx, u=nu, y=ny); title = dict(x='continuous states', xdot='continuous state derivatives', u='inputs', y='outputs')
        V = {k: ctx.array('op'+k, (n,), 'f8') for k, n in ops.items()}
        X = ctx.array('angles', (ops[triple], 2), 'f8') if triple else None
        W = {k: word(ctx, 'word'+k, excl=',') for k in ops}; F = {k: word(ctx, 'frame'+k, excl=',') for k in ops}
        DO = {k: z3.Function('order!'+k, Z, Z) for k in ops}
        L = [['Linearized model: made by a test', '', 'Simulation information:', '  Simulation time:   50.0 s', catstr('  Rotor Speed:    ', libs.fmt_one(V['x'].at(0)), ' rad/s')]]
        for nm, v in (('continuous states:', nx), ('discrete states:', 0), ('constraint states:', 0), ('inputs:', nu), ('outputs:', ny)):
            L[0].append(catstr('    Number of '+nm+'     ', libs.fmt_one(v)))
        L[0] += ['    Jacobians included in this file?   No', '']
        for k in ops:
            L.append(['Order of %s:' % title[k], '  Row/Column  Operating Point   Rotating Frame? '+('Derivative Order ' if deriv else '')+'Description', '  ----------  ---------------  ---------------'])
            def row(i, k=k): return catstr('   ', libs.fmt_one(i+1), '   ', libs.fmt_one(V[k].at(i)), *([', ', libs.fmt_one(X.at(i, 0)), ', ', libs.fmt_one(X.at(i, 1))] if k == triple else []), '   ', F[k](i), '   ', *([libs.fmt_one(mkint(DO[k](zi(i)))), '   '] if deriv else []), 'ED state ', W[k](i), ', m')
            L.append(Seg(ops[k], row)); L.append([''])
        for k in mats:
            L.append([catstr(k, ': ', libs.fmt_one(dim[k][0]), ' x ', libs.fmt_one(dim[k][1]))]); L.append(matlines(*dim[k], M[k])); L.append([''])
        def body():
            text = catstr(libs.str_join('\n', SList(segs=L)), '\n')
            fs = ctx.it.fs; old = fs.inputs; ctx.eng.log(None, lambda: setattr(fs, 'inputs', old)); fs.inputs = dict(old); fs.inputs['a.lin'] = libs.StrText('a.lin', text)
            o = ctx.call(ctx.get(LIN)); o.attrs['filename'] = 'a.lin'
            ctx.call(ctx.it.getattr(o, '_read'))
            return o.payload
        def post(r, exc):
            if exc is not None: return ctx.fail('the file is read', '%r' % exc)
            with nd.nofork():
                for k in mats:
                    if not ctx.prove('%s has one row per output and one column per input of it' % k, dims(r.get(k), *dim[k]), str(getattr(r.get(k), 'shape', None))): continue
                    i = ctx.idx('i', dim[k][0]); j = ctx.idx('j', dim[k][1])
                    ctx.prove('every entry of %s at its row and column' % k, cmp('==', r[k].at(i, j), M[k].at(i, j)))
                for k, n in ops.items():
                    i = ctx.idx('i', n); v = I.to_seq(r.get(k)); inf = r.get(k+'_info')
                    if not ctx.prove('one operating point per %s' % k, cmp('==', v.size(), n)): continue
                    ctx.prove('operating points of %s in order' % k, cmp('==', v.get(i), V[k].at(i)))
                    ctx.prove('frame of %s' % k, cmp('==', I.to_seq(inf['RotatingFrame']).get(i), F[k](i)))
                    ctx.prove('derivative order of %s' % k, cmp('==', I.to_seq(inf['DerivativeOrder']).get(i), mkint(DO[k](zi(i))) if deriv else -1))
                    ctx.prove('description of %s' % k, cmp('==', I.to_seq(inf['Description']).get(i), catstr('ED state ', W[k](i), ', m')))
        ctx.run(body, post)
    return f
for ms, dv in ((('A', 'B'), True), (('C', 'D'), False), (('dUdu', 'dUdy'), True)):
    contract('linearization file read, matrices %s and %s, %s derivative order' % (ms[0], ms[1], 'with' if dv else 'without'), LF, budget=100)(lin(ms, dv))
contract('linearization file read, orientations as outputs', LF, budget=100)(lin(('C',), True, 'y'))

TS = 'weio/turbsim_ts_file.py:TurbSimTSFile.'
TSF = [TS+x for x in ('_read', 'toString', '_write', 'columns', 'units')]
HEAD = ['--TurbSim input--', 'a comment', '-----']
def ts(nc):
    def f(ctx):
        tokens(ctx)
        n = ctx.int('n', 1); p = ctx.int('p', 1); ident = ctx.int('id', 1)
        Pt = ctx.array('points', (p, 2), 'f8'); D = ctx.array('data', (n, 1+nc*p), 'f8'); gp = Pt.snap(); gd = D.snap()
        o = ctx.obj('weio.turbsim_ts_file:TurbSimTSFile'); o.attrs['filename'] = None
        o.payload.update(dict(header=list(HEAD), nComp=nc, ID=ident, Points=Pt, data=D))
        def body():
            ctx.call(ctx.it.getattr(o, 'write'), 'ts.txt'); ctx.publish()
            q = ctx.obj('weio.turbsim_ts_file:TurbSimTSFile'); q.attrs['filename'] = None
            ctx.call(ctx.it.getattr(q, 'read'), 'ts.txt')
            return q.payload
        def post(r, exc):
            if exc is not None: return ctx.fail('writing and reading back succeeds', '%r' % exc)
            with nd.nofork():
                ctx.prove('number of components', cmp('==', r.get('nComp'), nc)); ctx.prove('reference point', cmp('==', r.get('ID'), ident))
                if ctx.prove('header lines', I.to_seq(r.get('header')).size() == len(HEAD)): ctx.prove('header lines as they were', all(I.to_seq(r.get('header')).get(i) == x for i, x in enumerate(HEAD)))
                for nm, a, g, sh in (('Points', r.get('Points'), gp, (p, 2)), ('data', r.get('data'), gd, (n, 1+nc*p))):
                    if not ctx.prove('all the rows and columns of the '+nm.lower(), dims(a, *sh), str(getattr(a, 'shape', None))): continue
                    i = ctx.idx('i', sh[0]); j = ctx.idx('j', sh[1])
                    ctx.prove('every value of the %s to 9 digits' % nm.lower(), within(a.at(i, j), g((i, j)), '5/1000000000', rel=True))
        ctx.run(body, post)
    return f
for nc in (1, 2, 3): contract('TurbSim time series written and read back, %d components' % nc, TSF, budget=100)(ts(nc))

STF = ['weio/wetb/hawc2/st_file.py:StFile.'+x for x in ('__init__', 'save', 'to_str')]+['weio/hawc2_st_file.py:HAWC2StFile.'+x for x in ('_read', '_write', 'toDataFrame')]
REG = 'r_[m] m_[kg/m] x_cg_[m] y_cg_[m] ri_x_[m] ri_y_[m] x_sh_[m] y_sh_[m] E_[N/m^2] G_[N/m^2] I_x_[m^4] I_y_[m^4] I_p_[m^4] k_x_[-] k_y_[-] A_[m^2] pitch_[deg] x_e_[m] y_e_[m]'.split()
FPM = 'r_[m] m_[kg/m] x_cg_[m] y_cg_[m] ri_x_[m] ri_y_[m] pitch_[deg] x_e_[m] y_e_[m]'.split()+['K%d%d' % (a, b) for a in range(1, 7) for b in range(a, 7)]
def st(keys, nc):
    def f(ctx):
        tokens(ctx); want = []; d = {}
        for m, sets in keys:
            d[m] = {}
            for s in sets:
                n = ctx.int('n%d_%d' % (m, s), 1); A = ctx.array('st%d_%d' % (m, s), (n, nc), 'f8'); d[m][s] = A; want.append((m, s, n, A.snap()))
        def body():
            o = ctx.obj('weio.hawc2_st_file:HAWC2StFile'); o.attrs['filename'] = None
            o.attrs['data'] = x = ctx.call(ctx.get('weio.wetb.hawc2.st_file:StFile')); x.attrs['main_data_sets'] = d
            ctx.call(ctx.it.getattr(o, 'write'), 'st.dat'); ctx.publish()
            q = ctx.obj('weio.hawc2_st_file:HAWC2StFile'); q.attrs['filename'] = None
            ctx.call(ctx.it.getattr(q, 'read'), 'st.dat')
            return q.attrs['data'].attrs['main_data_sets'], ctx.call(ctx.it.getattr(q, 'toDataFrame'))
        def post(r, exc):
            if exc is not None: return ctx.fail('writing and reading back succeeds', '%r' % exc)
            r, dfs = r
            if not ctx.prove('the same main sets and sets in the same order', isinstance(r, dict) and [(m, tuple(v)) for m, v in r.items()] == [(m, tuple(v)) for m, v in keys], '%r' % [(m, tuple(v)) for m, v in r.items()]): return
            ctx.prove('one table per set', list(dfs) == ['%d_%d' % (m, s) for m, s, _, _ in want])
            with nd.nofork():
                for m, s, n, g in want:
                    a = r[m][s]
                    if not ctx.prove('every set has all its stations and properties', dims(a, n, nc), '%s %s' % ((m, s), getattr(a, 'shape', None))): return
                    i = ctx.idx('i', n); j = ctx.idx('j', nc)
                    ctx.prove('every value to 8 significant digits', within(a.at(i, j), g((i, j)), '5/100000000', rel=True), 'set %d %d' % (m, s))
                    df = dfs.get('%d_%d' % (m, s))
                    if df is None: return
                    L = df.labels()
                    if ctx.prove('one column per property', cmp('==', L.size(), nc)): ctx.prove('columns named after the properties', [L.get(c) for c in range(nc)] == (REG if nc == 19 else FPM))
                    (l, V), = df.blocks
                    ctx.prove('every value in its column', cmp('==', V.at(i, j), a.at(i, j)))
        ctx.run(body, post)
    return f
for ks, nc in (([(1, (1,))], 19), ([(1, (1,))], 30), ([(1, (2, 1))], 19), ([(1, (1,)), (3, (1,))], 19)):
    contract('st file written and read back, sets %s of any length, %d properties' % (ks, nc), STF, budget=100)(st(ks, nc))

"""Derived data-frame columns of OpenFAST input files (weio/fast_input_file.py)."""
from ..core import *
from ..interp import *
from ..pdmodel import DF
from .c10 import Entry
M = 'weio.fast_input_file:'
ASSUMPTIONS = ['one or two tables per file, with any number of other entries before, between and after them; entries are dictionaries with the keys of getDict',
    'item access on the object follows the contract of property C10 (value of the first entry with that label, any case)',
    'np.cos and np.sin are uninterpreted functions; arithmetic on reals']
FIELDS = ('label', 'value', 'isComment', 'descr', 'tabType', 'tabColumnNames', 'tabUnits')

def filler(ctx, nm):
    """any number of entries that are not tables"""
    n = ctx.int('n_'+nm, 0)
    def fld(f, sort, wrap):
        g = z3.Function(nm+'_'+f, z3.IntSort(), sort)
        return nd.Storage((n,), lambda idx: wrap(g(zi(idx[0]))), 'O', nm+f, pre=True)
    S = z3.StringSort(); V = z3.DeclareSort('Value')
    kind = lambda t: ite(mkbool(t), 0, 3)       # TABTYPE_NOT_A_TAB or TABTYPE_FIL
    mem = dict(label=fld('label', S, SymStr), value=fld('value', V, SymObj), isComment=fld('isComment', z3.BoolSort(), mkbool), descr=fld('descr', S, SymStr),
               tabType=fld('tabType', z3.BoolSort(), kind), tabColumnNames=fld('cols', V, SymObj), tabUnits=fld('units', V, SymObj))
    return n, Seg(n, lambda k: Entry(mem, k)), mem
def table(label, value, cols, units, tt=1):
    return dict(label=label, value=value, isComment=False, descr='', tabType=tt, tabColumnNames=cols, tabUnits=units, tabDimVar='N')
def deck(ctx, cls, tables, keys):
    """object whose entries are: fillers, table, fillers, table, ..., fillers;  keys: values of the scalar entries"""
    n, s, mem = filler(ctx, 'e0'); segs = [s]; mems = [mem]; at = n; ctx.it.splits = []
    for j, t in enumerate(tables):
        segs.append([t]); ctx.it.splits.append(at); at = at+1
        n, s, mem = filler(ctx, 'e%d' % (j+1)); segs.append(s); mems.append(mem); at = at+n
    o = ctx.obj(M+cls); data = SList(segs=segs)
    o.attrs.update(data=data, hasNodal=False, module=None, filename='f.dat', _lines=SList([]))
    low = {k.lower(): v for k, v in keys.items()}
    tabs = {t['label'].lower(): t for t in tables if isinstance(t['label'], str)}
    def find(it, fn, args, kw):
        k = args[1]
        if not isinstance(k, str): raise Unsupported('item access with a symbolic label')
        if k.lower() in tabs: return tabs[k.lower()]['value']
        if k.lower() in low: return low[k.lower()]
        raise PyRaise(KeyError(k))
    def getid(it, fn, args, kw):
        k = args[1]
        if not isinstance(k, str): raise Unsupported('item access with a symbolic label')
        if k.lower() in low:
            i = ctx.eng.fresh_int('id', 1); ctx.eng.assume(cmp('<', i, data.size())); return i
        if k.lower() in tabs: raise Unsupported('index of a table')
        return -1
    ctx.it.contracts[M+'FASTInputFileBase.__getitem__'] = find
    ctx.it.contracts[M+'FASTInputFileBase.getIDSafe'] = getid
    return o, mems, data
def unchanged(ctx, o, data, mems, olds, tables, oldt):
    ctx.prove('frame: the entries of the object are those of before', o.attrs.get('data') is data and data.size() is not None)
    for m, old in zip(mems, olds):
        for k in m: ctx.prove('frame: no entry changes', not m[k].written(), k) if not m[k].written() else None
        for k in m:
            if m[k].written(): ctx.fail('frame: no entry changes', k)
    for t, (d0, arrs) in zip(tables, oldt):
        ctx.prove('frame: table entries keep their fields', list(t) == list(d0) and all(t[k] is d0[k] for k in d0))
def list_snap(tables):
    return [(t[k], list(t[k].items)) for t in tables for k in ('tabColumnNames', 'tabUnits') if isinstance(t[k], SList) and t[k].concrete()]
def lists_same(ctx, snap):
    for l, old in snap: ctx.prove('frame: the stored names and units are unchanged', l.concrete() and l.items == old)
def tab_snap(tables): return [(dict(t), None) for t in tables]
def tables_same(ctx, tables, vals):
    """the stored numbers of every table are those of before"""
    for t, f in zip(tables, vals):
        a = t['value']; i, j = ctx.idx('ti', a.shape[0]), ctx.idx('tj', a.shape[1])
        ctx.prove('frame: the stored table is unchanged', cmp('==', a.at(i, j), f((i, j))))

def col(ctx, df, label, what):
    p = df.find(label, forks=False) if isinstance(df, DF) else None
    if p is None: ctx.fail(what, 'no column %r' % (label,)); return None
    return df.column(*p)
def prove_col(ctx, df, label, n, want, what, hyps=None):
    c = col(ctx, df, label, what)
    if c is None: return
    ctx.prove(what, cmp('==', c.shape[0], n), 'rows')
    i = ctx.idx('row', n)
    v = want(i)
    if getattr(v, 'poly', None): pass
    ctx.prove(what, cmp('==', c.at(i), v), label if isinstance(label, str) else '')
def poly(x, c): return sum((c[k]*x**k for k in range(3, 7)), c[2]*x**2)

def mode_contract(name, cls, funcs, tabs, labels, modes, units=True):
    @contract(name, funcs, budget=200)
    def c(ctx):
        n = ctx.int('n', 1); m = len(labels)
        T_ = ctx.array('Tab', (n, m)); f0 = T_.snap()
        C = {nm: {k: ctx.real('%s_%d' % (nm, k)) for k in range(2, 7)} for nm in modes}
        keys = {'%s(%d)' % (nm, k): C[nm][k] for nm in modes for k in range(2, 7)}
        t = table(tabs, T_, SList([a for a, b in labels]), SList([b for a, b in labels]) if units else None); lists = list_snap([t])
        o, mems, data = deck(ctx, cls, [t], keys); t0 = dict(t)
        def body(): return ctx.call(methods(ctx, o, 'toDataFrame'))
        def post(r, exc):
            what = 'a data frame is returned'
            if exc is not None: ctx.fail('no exception', repr(exc)); return
            if not isinstance(r, DF): ctx.fail(what, repr(r)); return
            ctx.prove('the frame has the stored columns and one per mode', andb(cmp('==', r.nrows, n), cmp('==', r.ncols, m+len(modes))))
            for j, (a, b) in enumerate(labels):
                prove_col(ctx, r, a+'_'+b.replace('(', '[').replace(')', ']') if units else a, n, lambda i, j=j: f0((i, j)), 'stored columns appear unchanged under name and unit')
            for nm, lab in modes.items():
                prove_col(ctx, r, lab, n, lambda i, nm=nm: poly(f0((i, 0)), C[nm]), 'column %s is the polynomial of %s' % (lab, nm))
            tables_same(ctx, [t], [f0]); lists_same(ctx, lists); ctx.prove('frame: table entries keep their fields', list(t) == list(t0) and all(t[k] is t0[k] for k in t0))
            unchanged(ctx, o, data, mems, mems, [], [])
        ctx.run(body, post)
    return c
def methods(ctx, f, name): return ctx.it.getattr(f, name)

mode_contract('blade', 'EDBladeFile', ['EDBladeFile._toDataFrame', 'FASTInputFileBase._toDataFrame'], 'BldProp',
    [('BlFract', '(-)'), ('PitchAxis', '(-)'), ('StrcTwst', '(deg)'), ('BMassDen', '(kg/m)'), ('FlpStff', '(Nm^2)'), ('EdgStff', '(Nm^2)')],
    dict(BldFl1Sh='ShapeFlap1_[-]', BldFl2Sh='ShapeFlap2_[-]', BldEdgSh='ShapeEdge1_[-]'))
mode_contract('tower', 'FASTInputFileBase', ['FASTInputFileBase._toDataFrame'], 'TowProp',
    [('HtFract', '(-)'), ('TMassDen', '(kg/m)'), ('TwFAStif', '(Nm^2)'), ('TwSSStif', '(Nm^2)')],
    dict(TwFAM1Sh='ShapeForeAft1_[-]', TwFAM2Sh='ShapeForeAft2_[-]', TwSSM1Sh='ShapeSideSide1_[-]', TwSSM2Sh='ShapeSideSide2_[-]'))
mode_contract('tower-names', 'FASTInputFileBase', ['FASTInputFileBase._toDataFrame'], 'TowProp', [('HtFract', ''), ('TMassDen', ''), ('TwFAStif', '')],
    dict(TwFAM1Sh='ShapeForeAft1_[-]', TwFAM2Sh='ShapeForeAft2_[-]', TwSSM1Sh='ShapeSideSide1_[-]', TwSSM2Sh='ShapeSideSide2_[-]'), units=False)

# ---------------------------------------------------------------- airfoil polars
POLAR = [('Alpha', '(deg)'), ('Cl', '(-)'), ('Cd', '(-)'), ('Cm', '(-)')]
for nT in (1, 2):
    def mk(nT):
        @contract('polar-%d' % nT, ['ADPolarFile._toDataFrame', 'FASTInputFileBase._toDataFrame'], budget=250)
        def c(ctx):
            PI = ctx.symbolic_pi()
            offs = [''] if nT == 1 else ['_1', '_2']; keys = {}; tabs = []; vals = []
            for off in offs:
                n = ctx.int('n'+off, 1); A = ctx.array('Tab'+off, (n, 4)); vals.append((n, A.snap()))
                tabs.append(table('AFCoeff'+off, A, SList([a for a, b in POLAR]), SList([b for a, b in POLAR]), 2))
                for k in ('Cd0', 'C_nalpha', 'alpha0', 'alpha1', 'alpha2'):
                    if nT == 1 or k != 'alpha2': keys[k+off] = ctx.real(k+off)     # with two tables: no attached-flow limit (fewer paths)
            o, mems, data = deck(ctx, 'ADPolarFile', tabs, keys); t0 = [dict(t) for t in tabs]; lists = list_snap(tabs)
            def body(): return ctx.call(methods(ctx, o, 'toDataFrame'))
            np_ = ctx.it.libs['numpy'].d; cos = lambda x: ctx.call(np_['cos'], x); sin = lambda x: ctx.call(np_['sin'], x); pi = PI
            def post(r, exc):
                if exc is not None: ctx.fail('no exception', repr(exc)); return
                if nT == 1: r = {'AFCoeff': r}
                if not isinstance(r, dict) or [k for k in r] != ['AFCoeff'+off for off in offs]: ctx.fail('one frame per table, under its label', repr(r)); return
                for off, (n, f) in zip(offs, vals):
                    df = r['AFCoeff'+off]
                    if not isinstance(df, DF): ctx.fail('one frame per table, under its label', repr(df)); continue
                    for j, (a, b) in enumerate(POLAR):
                        prove_col(ctx, df, a+'_'+b.replace('(', '[').replace(')', ']'), n, lambda i, j=j: f((i, j)), 'stored columns appear unchanged under name and unit')
                    al = lambda i: f((i, 0))*pi/180.
                    prove_col(ctx, df, 'Cn_[-]', n, lambda i: f((i, 1))*cos(al(i))+f((i, 2))*sin(al(i)), 'Cn is Cl cos(alpha) + Cd sin(alpha)')
                    prove_col(ctx, df, 'Cn_Cd0off_[-]', n, lambda i: f((i, 1))*cos(al(i))+(f((i, 2))-keys['Cd0'+off])*sin(al(i)), 'Cn without zero-lift drag')
                for t, d0 in zip(tabs, t0): ctx.prove('frame: table entries keep their fields', list(t) == list(d0) and all(t[k] is d0[k] for k in d0))
                tables_same(ctx, tabs, [f for n, f in vals]); lists_same(ctx, lists); unchanged(ctx, o, data, mems, mems, [], [])
            ctx.weak_ok = {'cos', 'sin'}
            ctx.run(body, post)
    mk(nT)

# ---------------------------------------------------------------- AeroDyn blade: stored columns
ADB = [('BlSpn', '(m)'), ('BlCrvAC', '(m)'), ('BlSwpAC', '(m)'), ('BlCrvAng', '(deg)'), ('BlTwist', '(deg)'), ('BlChord', '(m)'), ('BlAFID', '(-)')]
@contract('adblade', ['ADBladeFile._toDataFrame', 'FASTInputFileBase._toDataFrame'], budget=150)
def adblade(ctx):
    n = ctx.int('n', 1); A = ctx.array('Tab', (n, 7)); f = A.snap()
    t = table('BldAeroNodes', A, SList([a for a, b in ADB]), SList([b for a, b in ADB])); t0 = dict(t); lists = list_snap([t])
    o, mems, data = deck(ctx, 'ADBladeFile', [t], {})
    def body(): return ctx.call(methods(ctx, o, 'toDataFrame'))
    def post(r, exc):
        if exc is not None: ctx.fail('no exception', repr(exc)); return
        if not isinstance(r, DF): ctx.fail('a data frame is returned', repr(r)); return
        for j, (a, b) in enumerate(ADB):
            prove_col(ctx, r, a+'_'+b.replace('(', '[').replace(')', ']'), n, lambda i, j=j: f((i, j)), 'stored columns appear unchanged under name and unit')
        ctx.prove('frame: table entries keep their fields', list(t) == list(t0) and all(t[k] is t0[k] for k in t0))
        tables_same(ctx, [t], [f]); lists_same(ctx, lists); unchanged(ctx, o, data, mems, mems, [], [])
    ctx.run(body, post)

# ---------------------------------------------------------------- BeamDyn
@contract('beamdyn', ['FASTInputFileBase._toDataFrame'], budget=200)
def beamdyn(ctx):
    n = ctx.int('n', 1)
    S, K, Mm = ctx.array('span', (n,)), ctx.array('K', (n, 6, 6)), ctx.array('M', (n, 6, 6))
    fs = [x.snap() for x in (S, K, Mm)]
    val = dict(span=S, K=K, M=Mm); t = dict(label='BeamProperties', value=val, isComment=False, descr='', tabType=5)
    o, mems, data = deck(ctx, 'FASTInputFileBase', [t], {})
    def body(): return ctx.call(methods(ctx, o, 'toDataFrame'))
    def post(r, exc):
        if exc is not None: ctx.fail('no exception', repr(exc)); return
        if not isinstance(r, DF): ctx.fail('a data frame is returned', repr(r)); return
        ctx.prove('the frame has one row per span and 73 columns', andb(cmp('==', r.nrows, n), cmp('==', r.ncols, 73)))
        prove_col(ctx, r, 'Span', n, lambda i: fs[0]((i,)), 'Span column')
        for a in range(6):
            for b in range(6):
                for L, f in (('K', fs[1]), ('M', fs[2])):
                    prove_col(ctx, r, '%s%d%d' % (L, a+1, b+1), n, lambda i: f((i, a, b)), 'every %sij column holds entry (i,j) of its matrix' % L)
        ctx.prove('frame: the matrices are kept', t['value'] is val and val['span'] is S and val['K'] is K and val['M'] is Mm and not any(x.stor.written() for x in (S, K, Mm)))
        unchanged(ctx, o, data, mems, mems, [], [])
    ctx.run(body, post)

# ---------------------------------------------------------------- any table
for units in (True, False):
    for nT in (1, 2):
        def mk(units, nT):
            @contract('table-%s-%d' % ('units' if units else 'names', nT), ['FASTInputFileBase._toDataFrame'], budget=150)
            def c(ctx):
                S = z3.StringSort(); tabs = []; spec = []
                ctx.weak_ok = set()
                for q in range(nT):
                    n, m = ctx.int('n%d' % q, 0), ctx.int('m%d' % q, 1); A = ctx.array('Tab%d' % q, (n, m))
                    nf, uf = z3.Function('name%d' % q, z3.IntSort(), S), z3.Function('unit%d' % q, z3.IntSort(), S)
                    name = lambda j, nf=nf: SymStr(nf(zi(j))); unit = lambda j, uf=uf: SymStr(uf(zi(j)))
                    tt = [1, 2, 4, 6][(q+(2 if units else 0)) % 4]
                    tabs.append(table('Tab%d' % q, A, SList(segs=[Seg(m, name)]), SList(segs=[Seg(m, unit)]) if units else None, tt)); spec.append((n, m, A.snap(), name, unit))
                o, mems, data = deck(ctx, 'FASTInputFileBase', tabs, {}); t0 = [dict(t) for t in tabs]
                def body(): return ctx.call(methods(ctx, o, 'toDataFrame'))
                def post(r, exc):
                    if exc is not None: ctx.fail('no exception', repr(exc)); return
                    if nT == 1: r = {'Tab0': r}
                    if not isinstance(r, dict) or list(r) != [t['label'] for t in tabs]: ctx.fail('one frame per table, under its label', repr(r)); return
                    for t, (n, m, f, name, unit) in zip(tabs, spec):
                        df = r[t['label']]
                        if not isinstance(df, DF): ctx.fail('one frame per table, under its label', repr(df)); continue
                        v = df.values(); ls = df.labels()
                        ctx.prove('shape of the table', andb(cmp('==', v.shape[0], n), cmp('==', v.shape[1], m), cmp('==', ls.size(), m)))
                        j = ctx.idx('j', m); l = ls.get(j)
                        if units:
                            rp = lambda s, a, b: ctx.call(ctx.it.getattr(s, 'replace'), a, b)
                            want = ctx.it.binop('+', ctx.it.binop('+', name(j), '_'), rp(rp(unit(j), '(', '['), ')', ']'))
                        else: want = name(j)
                        ctx.prove('columns carry their own name and unit', equal(l, want))
                        for q in ('tabColumnNames', 'tabUnits'):
                            if t[q] is not None: ctx.prove('frame: the stored names and units are unchanged', len([s for s in t[q].segs if s != []]) == 1 and cmp('==', t[q].size(), m))
                        if feasible(ctx, n >= 1):
                            i = ctx.idx('i', n); ctx.prove('stored values appear unchanged', cmp('==', v.at(i, j), f((i, j))))
                    for t, d0 in zip(tabs, t0): ctx.prove('frame: table entries keep their fields', list(t) == list(d0) and all(t[k] is d0[k] for k in d0) and not t['value'].stor.written())
                    unchanged(ctx, o, data, mems, mems, [], [])
                ctx.run(body, post)
        mk(units, nT)
def feasible(ctx, c): return ctx.eng.check(zb(c)) != z3.unsat

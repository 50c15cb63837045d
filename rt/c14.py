"""C14: derived data-frame columns of OpenFAST input files."""
import numpy as np
from common import *

def poly(x, c): return sum(c[k-2]*x**k for k in range(2, 7))

def eq(df, col, want, what):
    check(col in list(df.columns), '%s: no column %r in %s', what, col, list(df.columns))
    sc = 1e-9*(1+np.abs(np.asarray(want)))
    check(close(df[col].values, want, sc), '%s %s: %s', what, col, worst(df[col].values, want, sc))

def run(case):
    from weio import fast_input_file as fi
    r = rng_of(case); k = case['kind']; n = case['n']
    def coefs(o, names, desc=0):
        C = {}
        for nm in names:
            C[nm] = r.normal(size=5)
            for i in range(2, 7): o.addKeyVal('%s(%d)' % (nm, i), float(C[nm][i-2]))
        return C
    if k == 'blade':
        o = fi.EDBladeFile(); T = r.normal(size=(n, 6)); T[:, 0] = np.linspace(0, 1, n) if n > 1 else .3
        o['BldProp'] = T; o['NBlInpSt'] = n
        C = coefs(o, ['BldFl1Sh', 'BldFl2Sh', 'BldEdgSh'])
        df = o.toDataFrame()
        for c, nm in (('ShapeFlap1_[-]', 'BldFl1Sh'), ('ShapeFlap2_[-]', 'BldFl2Sh'), ('ShapeEdge1_[-]', 'BldEdgSh')):
            eq(df, c, poly(T[:, 0], C[nm]), 'blade')
        for j, c in enumerate(['BlFract_[-]', 'PitchAxis_[-]', 'StrcTwst_[deg]', 'BMassDen_[kg/m]', 'FlpStff_[Nm^2]', 'EdgStff_[Nm^2]']): eq(df, c, T[:, j], 'blade')
        check(df.shape == (n, 9), 'shape %s', df.shape)
        check(same(o['BldProp'], T), 'table changed')
    elif k == 'tower':
        o = fi.FASTInputFileBase(); o.filename = 'twr.dat'
        o.addComment('--- tower'); T = r.normal(size=(n, 4)); T[:, 0] = np.linspace(0, 1, n) if n > 1 else .7
        o.addKeyVal('NTwInpSt', n)
        if case.get('first'):
            C = coefs(o, ['TwFAM1Sh', 'TwFAM2Sh', 'TwSSM1Sh', 'TwSSM2Sh'])
        o.addTable('TowProp', T, cols=['HtFract', 'TMassDen', 'TwFAStif', 'TwSSStif'], units=None if case.get('bare') else ['(-)', '(kg/m)', '(Nm^2)', '(Nm^2)'], tabType=1, tabDimVar='NTwInpSt')
        if not case.get('first'):
            C = coefs(o, ['TwSSM2Sh', 'TwFAM1Sh', 'TwSSM1Sh', 'TwFAM2Sh'])
        df = o.toDataFrame()
        for c, nm in (('ShapeForeAft1_[-]', 'TwFAM1Sh'), ('ShapeForeAft2_[-]', 'TwFAM2Sh'), ('ShapeSideSide1_[-]', 'TwSSM1Sh'), ('ShapeSideSide2_[-]', 'TwSSM2Sh')):
            eq(df, c, poly(T[:, 0], C[nm]), 'tower')
        for j, c in enumerate(['HtFract_[-]', 'TMassDen_[kg/m]', 'TwFAStif_[Nm^2]', 'TwSSStif_[Nm^2]']): eq(df, c.split('_')[0] if case.get('bare') else c, T[:, j], 'tower')
        check(df.shape == (n, 8), 'shape')
    elif k == 'polar':
        nT = case['tabs']
        o = fi.ADPolarFile(hasUA=True, numTabs=nT)
        D = {}
        for i in range(nT):
            off = '' if nT == 1 else '_%d' % (i+1)
            T = r.normal(size=(n+i, 4)); T[:, 0] = np.linspace(-180, 180, n+i) if n+i > 1 else 5.
            o['AFCoeff'+off] = T
            for kk in ('Cd0', 'C_nalpha', 'alpha0', 'alpha1', 'alpha2'): o[kk+off] = float(r.normal())
            D['AFCoeff'+off] = (T, o['Cd0'+off], o['C_nalpha'+off], o['alpha0'+off])
        dfs = o.toDataFrame()
        if not isinstance(dfs, dict): dfs = {'AFCoeff': dfs}
        check(sorted(dfs) == sorted(D), 'frames %s', list(dfs))
        for nm, (T, cd0, cna, a0) in D.items():
            a = np.radians(T[:, 0]); df = dfs[nm]
            eq(df, 'Cn_[-]', T[:, 1]*np.cos(a)+T[:, 2]*np.sin(a), nm)
            eq(df, 'Cn_Cd0off_[-]', T[:, 1]*np.cos(a)+(T[:, 2]-cd0)*np.sin(a), nm)
            for j, c in enumerate(['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]']): eq(df, c, T[:, j], nm)
            check(same(o[nm], T), 'table changed')
    elif k == 'beamdyn':
        o = fi.FASTInputFileBase(); o.filename = 'bd.dat'
        S, K, M = np.linspace(0, 1, n), r.normal(size=(n, 6, 6))*1e6, r.normal(size=(n, 6, 6))
        o.addComment('---'); o.data.append({'value': dict(span=S, K=K, M=M), 'label': 'BeamProperties', 'isComment': False, 'descr': '', 'tabType': 5})
        df = o.toDataFrame()
        check(df.shape == (n, 73) and len(set(df.columns)) == 73, 'shape')
        eq(df, 'Span', S, 'beamdyn')
        for i in range(6):
            for j in range(6):
                eq(df, 'K%d%d' % (i+1, j+1), K[:, i, j], 'beamdyn'); eq(df, 'M%d%d' % (i+1, j+1), M[:, i, j], 'beamdyn')
    elif k == 'generic':
        o = fi.FASTInputFileBase(); o.filename = 'g.dat'; o.addComment('---'); W = {}
        for t in range(case['tabs']):
            m = int(r.integers(1, 8)); T = r.normal(size=(n, m)); nm = 'Tab%d' % t
            cols = ['c%d_%d' % (t, j) for j in range(m)]; un = [['(m)', '(-)', '(kg)'][(j+t) % 3] for j in range(m)] if t % 2 == 0 else None
            tt = [1, 2, 4, 6][int(r.integers(4))]
            o.addTable(nm, T.astype(object) if tt == 6 else T, cols=cols, units=un, tabType=tt); W[nm] = (T, [c+'_'+u.replace('(', '[').replace(')', ']') for c, u in zip(cols, un)] if un else cols)
            o.addKeyVal('x%d' % t, 3)
        dfs = o.toDataFrame()
        if not isinstance(dfs, dict): dfs = {list(W)[0]: dfs}
        check(list(dfs) == list(W), 'frames %s expected %s', list(dfs), list(W))
        for nm, (T, cols) in W.items():
            check(list(dfs[nm].columns) == cols, 'columns %s expected %s', list(dfs[nm].columns), cols)
            check(same(dfs[nm].values.astype(float), T), 'values of %s', nm)

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for _ in range(1 if tier == 'quick' else 60):
        for n in (1, 2, 3, 10, 33):
            for _ in range(3):
                yield dict(kind='blade', n=n, seed=s())
                yield dict(kind='tower', n=n, first=0, seed=s()); yield dict(kind='tower', n=n, first=1, seed=s()); yield dict(kind='tower', n=n, first=n % 2, bare=1, seed=s())
                for tabs in (1, 2, 3): yield dict(kind='polar', n=n, tabs=tabs, seed=s())
                yield dict(kind='beamdyn', n=n, seed=s())
                for tabs in (1, 2, 4): yield dict(kind='generic', n=n, tabs=tabs, seed=s())

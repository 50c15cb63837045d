"""C17: linearization, HAWC2 st and TurbSim time-series files keep every value in its place."""
import numpy as np
from common import *

DESC = ['ED Variable speed generator DOF (internal DOF index = DOF_GeAz), rad', 'ED 1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1), m', 'ED 1st flapwise bending-mode DOF of blade 1 (internal DOF index = DOF_BF(1,1)), m',
    'ED Platform horizontal surge translation DOF (internal DOF index = DOF_Sg), m', 'ED GenSpeed, (rpm)', 'IfW Extended input: horizontal wind speed (steady/uniform wind), m/s', 'AD Blade 1 node 3, m', 'ED TwrBsMxt, (kN-m)', 'BD_1 First time derivative of finite element node 4 (number of elements = 5; element order = 6) translational displacement in X, m/s']
def num(r, v): return [('%.8E' % v), '%13.6e' % v, repr(float(v))][int(r.integers(3))]
def values(r, shape, wild):
    v = r.normal(size=shape)*10.**r.integers(-5, 9, size=shape)
    if wild: v = np.where(r.random(shape) < .4, v*10.**r.integers(-280, 280, size=shape), v)
    return np.where(r.random(shape) < .1, 0., v)
def run(case):
    r = rng_of(case); k = case['kind']
    if k == 'lin':
        from weio.fast_linearization_file import FASTLinearizationFile
        n = dict(x=case['nx'], xdot=case['nx'], u=case['nu'], y=case['ny']); T = dict(x='continuous states', xdot='continuous state derivatives', u='inputs', y='outputs')
        dim = dict(A='xx', B='xu', C='yx', D='yu', dUdu='uu', dUdy='uy'); M = {}
        L = ['', 'Linearized model: OpenFAST', '', 'Simulation information:', '  Simulation time:      200.05 s'] + (['  Rotor Speed:   %s rad/s' % '1.267', '  Azimuth:    %s rad' % '3.25', '  Wind Speed:   %s m/s' % '11.5'] if case['op'] else [])
        for t, v in (('continuous states:', n['x']), ('discrete states:', 0), ('constraint states:', 0), ('inputs:', n['u']), ('outputs:', n['y'])): L.append(' Number of %-24s %5d' % (t, v))
        L += [' Jacobians included in this file?   %s' % ('Yes' if case['jac'] else 'No'), '']
        O = {}
        for q in n:
            if case.get('noop') == q: continue
            L += ['Order of %s:' % T[q], '  Row/Column  Operating Point   Rotating Frame? '+('Derivative Order ' if case['deriv'] else '')+'Description', '  ----------  ---------------  ---------------']
            V = values(r, n[q], case['wild']); W = [num(r, x) for x in V]; fr = ['TF'[int(x)] for x in r.integers(2, size=n[q])]; do = [int(x) for x in r.integers(0, 3, size=n[q])]
            ds = [str(DESC[int(r.integers(len(DESC)))])+(' #%d' % i) for i in range(n[q])]
            for i in range(n[q]):
                trip = case.get('trip') and r.random() < .4
                L.append('%8d  %s   %s   %s%s' % (i+1, W[i]+(', 1.0E+00, -2.5' if trip else ''), fr[i], '  %d  ' % do[i] if case['deriv'] else '', ds[i]))
            L.append(''); O[q] = ([float(x) for x in W], fr, do if case['deriv'] else [-1]*n[q], ds)
        for m in case['mats']:
            a, b = n[dim[m][0]], n[dim[m][1]]; V = values(r, (a, b), case['wild']); W = [[num(r, x) for x in row] for row in V]; M[m] = np.array([[float(x) for x in row] for row in W])
            L += ['%s: %d x %d' % (m, a, b)]+['  '+'  '.join(row) for row in W]+['']
        if case.get('edm'):
            EM = values(r, (24, 24), case['wild']); ED = ['%d_DOF%d' % (i+1, int(r.integers(9))) for i in range(24)]
            L += ['ED M:'+'   '.join(ED)]+[' '.join('%.17E' % x for x in row) for row in EM]+['']
        p = scratch('a.lin'); open(p, 'w').write('\n'.join(L)+'\n')
        f = FASTLinearizationFile(p)
        for m in dim: check((m in f.keys()) == (m in M), 'matrix %s', m)
        for m in M: check(f[m].shape == M[m].shape and same(f[m], M[m]), 'matrix %s', m)
        for q in O:
            i = f[q+'_info']
            check([list(f[q]), i['RotatingFrame'], i['DerivativeOrder'], i['Description']] == [list(O[q][0]), O[q][1], O[q][2], O[q][3]], 'operating points of %s', q)
        for key, v in (('RotSpeed', 1.267), ('Azimuth', 3.25), ('WindSpeed', 11.5)): check(f[key] == (v if case['op'] else None), key)
        check(('M' in f.keys()) == bool(case.get('edm')), 'mass matrix')
        if case.get('edm'):
            check(same(f['M'], EM) and list(f['EDDOF']) == ED, 'mass matrix'); t = f.toDataFrame()['M'] if not case.get('noop') else None
            check(t is None or (same(t.values, EM) and list(t.columns) == ED and list(t.index) == ED), 'table of M')
        if case.get('noop'): return
        d = f.toDataFrame(); lab = dict(x=f.xdescr(), u=f.udescr(), y=f.ydescr(), xdot=f.xdotdescr())
        for q in n: check(len(lab[q]) == n[q] and list(d[q].columns) == lab[q] and same(d[q].values[0], O[q][0]), 'table of %s', q)
        for m in M: check(list(d[m].index) == lab[dim[m][0]] and list(d[m].columns) == lab[dim[m][1]] and same(d[m].values, M[m]), 'table of %s', m)
    elif k == 'ts':
        from weio.turbsim_ts_file import TurbSimTSFile
        nc, npt, nt = case['nc'], case['np'], case['nt']
        o = TurbSimTSFile(); H = ['--------------TurbSim v2.00.* User Time Series Input File-----------------------', case['comment'], '-'*80]
        o['header'] = list(H); o['nComp'] = nc; o['ID'] = case['id']; o['Points'] = P = values(r, (npt, 2), case['wild']); o['data'] = D = values(r, (nt, 1+nc*npt), case['wild'])
        p = scratch('ts.txt'); o.write(p); q = TurbSimTSFile(p)
        check(q['nComp'] == nc and q['ID'] == case['id'] and q['header'] == H, 'header')
        check(q['Points'].shape == P.shape and close(q['Points'], P, 6e-9*np.abs(P)), 'points'); check(q['data'].shape == D.shape and close(q['data'], D, 6e-9*np.abs(D)), 'data')
        d = q.toDataFrame(); check(same(d['TimeSeries'].values, q['data']) and same(d['Points'].values, q['Points']), 'tables')
        C = list(d['TimeSeries'].columns); check(C[0] == 'Time_[s]' and sorted(C[1:]) == sorted('Point%d%s_[m/s]' % (i+1, 'uvw'[c]) for i in range(npt) for c in range(nc)), 'columns')
        p2 = scratch('ts2.txt'); q.write(p2); check(open(p2).read() == open(p).read(), 'second write differs')
    elif k == 'st':
        from weio.hawc2_st_file import HAWC2StFile
        from weio.wetb.hawc2.st_file import StFile
        s = StFile(); nc = case['nc']; S = {int(m): {int(i): values(r, (int(n), nc), case['wild']) for i, n in v} for m, v in case['sets']}
        if case['mono']:
            for v in S.values():
                for a in v.values(): a[:, 0] = np.arange(len(a))*1.5
        s.main_data_sets = {m: {i: a.copy() for i, a in v.items()} for m, v in S.items()}
        o = HAWC2StFile(); o.data = s; p = scratch('a_st.dat'); o.write(p); q = HAWC2StFile(p); R = q.data.main_data_sets
        check([(m, list(v)) for m, v in R.items()] == [(m, list(v)) for m, v in S.items()], 'sets')
        d = q.toDataFrame(); check(list(d) == ['%d_%d' % (m, i) for m in S for i in S[m]], 'tables')
        for m in S:
            for i, a in S[m].items():
                check(R[m][i].shape == a.shape and close(R[m][i], a, 6e-8*np.abs(a)), 'set %d %d', m, i)
                t = d['%d_%d' % (m, i)]; check(same(t.values, R[m][i]) and list(t.columns) == REG if nc == 19 else same(t.values, R[m][i]) and list(t.columns) == FPM, 'table %d %d', m, i)
                for c, nm in enumerate(q.data.cols): check(same(getattr(q.data, nm)(None, m, i), R[m][i][:, c]) if case['mono'] else True, 'access by name %s', nm)
        p2 = scratch('b_st.dat'); q.write(p2); check(open(p2).read() == open(p).read(), 'second write differs')
        nm = q.data.cols[int(r.integers(1, nc))]; m = list(S)[-1]; i = list(S[m])[0]; B = R[m][i].copy(); q.data.set_value(m, i, **{nm: 4.25}); B[:, q.data.cols.index(nm)] = 4.25
        check(same(R[m][i], B), 'set_value')
REG = 'r_[m] m_[kg/m] x_cg_[m] y_cg_[m] ri_x_[m] ri_y_[m] x_sh_[m] y_sh_[m] E_[N/m^2] G_[N/m^2] I_x_[m^4] I_y_[m^4] I_p_[m^4] k_x_[-] k_y_[-] A_[m^2] pitch_[deg] x_e_[m] y_e_[m]'.split()
FPM = 'r_[m] m_[kg/m] x_cg_[m] y_cg_[m] ri_x_[m] ri_y_[m] pitch_[deg] x_e_[m] y_e_[m]'.split()+['K%d%d' % (a, b) for a in range(1, 7) for b in range(a, 7)]

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31)); c = lambda *a: a[int(rng.integers(len(a)))]
    ALL = ['A', 'B', 'C', 'D', 'dUdu', 'dUdy']
    def lin(nx, nu, ny, mats, **k): return dict(kind='lin', nx=nx, nu=nu, ny=ny, mats=mats, seed=s(), deriv=k.pop('deriv', c(0, 1)), op=c(0, 1), wild=c(0, 1), trip=c(0, 0, 1), jac=c(0, 1), **k)
    for dv in (0, 1):
        for nx, nu, ny in ((1, 1, 1), (2, 3, 4), (4, 2, 1), (1, 5, 2), (6, 1, 3)): yield lin(nx, nu, ny, ALL, deriv=dv); yield lin(nx, nu, ny, ALL[:4], deriv=dv)
    for q in ('xdot', 'u', 'y'): yield lin(3, 2, 4, ['A'], noop=q)
    for m in ALL: yield lin(3, 2, 5, [m]); yield lin(2, 1, 3, [m], edm=1)
    for nc in (1, 2, 3):
        for npt, nt in ((1, 1), (1, 2), (2, 1), (3, 4), (2, 30)):
            for w in (0, 1): yield dict(kind='ts', nc=nc, np=npt, nt=nt, wild=w, id=int(rng.integers(1, npt+1)), comment=c('Comment', 'a b c', '123 456', 'x'), seed=s())
    for nc in (19, 30):
        for sets in ([(1, [(1, 1)])], [(1, [(1, 2), (2, 5)])], [(1, [(1, 3)]), (2, [(1, 1), (2, 2)])], [(2, [(1, 20)]), (1, [(2, 1), (1, 15)])], [(m, [(i, 2) for i in (1, 2, 3)]) for m in range(1, 12)]):
            for w in (0, 1): yield dict(kind='st', nc=nc, sets=sets, wild=w, mono=1-w, seed=s())
    for _ in range(400 if tier == 'quick' else 3000):
        t = int(rng.integers(3))
        if t == 0: yield lin(*[int(x) for x in rng.integers(1, 12, size=3)], [m for m in ALL if rng.random() < .7])
        elif t == 1: yield dict(kind='ts', nc=int(rng.integers(1, 4)), np=int(rng.integers(1, 9)), nt=int(rng.integers(1, 40)), wild=c(0, 1), id=int(rng.integers(1, 50)), comment=c('Comment', 'a b', '7'), seed=s())
        else: yield dict(kind='st', nc=c(19, 30), sets=[(1, [(1, int(rng.integers(1, 30)))])]+[(m, [(i+1, int(rng.integers(1, 30))) for i in range(int(rng.integers(1, 4)))]) for m in range(2, 2+int(rng.integers(0, 4)))], wild=c(0, 1), mono=0, seed=s())

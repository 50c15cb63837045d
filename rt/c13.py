"""C13: Bladed results."""
import os
import numpy as np
from common import *
U = {'L': 'm', 'F': 'N', 'FL': 'Nm', 'A': 'rad', 'T': 's', 'P': 'W', 'L/T': 'm/s', 'N': 'N', 'L/TT': 'm/s^2', 'A/T': 'rad/s', 'M': 'kg'}
UK = list(U)

def sensor(path, case, names, units, secs, nt, prec):
    nd = case['nd']; L = []
    L.append('FILE\tx'); L.append('ACCESS\tD'); L.append('FORM\tU'); L.append('RECL\t4')
    L.append('FORMAT\tR*%d' % prec)
    L.append('NDIMENS\t%d' % nd)
    L.append('DIMENS\t'+'\t'.join(str(x) for x in ([len(names)]+([len(secs)] if nd == 3 else [])+[nt])))
    L.append("GENLAB\t'%s'" % case.get('cat', 'Some category'))
    L.append('VARIAB\t'+' '.join("'%s'" % s for s in names))
    L.append('VARUNIT\t'+' '.join(units))
    if nd == 3:
        L.append("AXISLAB\t'Distance'"); L.append('AXIUNIT\tL'); L.append('AXIMETH\t3')
        if case.get('tick'): L.append('AXITICK\t'+' '.join("'%s'" % s for s in secs))
        else: L.append('AXIVAL\t'+' '.join('%s' % s for s in secs))
    L.append("AXISLAB\t'Time'"); L.append('AXIUNIT\tT'); L.append('AXIMETH\t2')
    if case.get('time', 1):
        L.append('MIN\t%r' % case['t0']); L.append('STEP\t%r' % case['dt'])
    open(path, 'w').write('\n'.join(L)+'\n')

def build(case, base, num, r, nt=None, tag=''):
    nd, n, ns = case['nd'], case['n'], case['ns']; nt = nt or case['nt']
    names = ['%sChan %d %s' % (tag, i, 'xyz'[i % 3]) for i in range(n)]
    uk = [UK[(i+case['seed']) % len(UK)] for i in range(n)]
    if case.get('tick'): secs = ['Tower %d' % i if case['tick'] == 1 else 'Mbr %d End 1' % i for i in range(ns)]
    else: secs = [float(np.round(1.5*i+(0.123 if i % 2 else 0), 3)) for i in range(ns)]
    if case.get('desc'): secs = secs[::-1]
    sensor(base+'.%'+num, case, names, uk, secs, nt, case['prec'])
    D = r.normal(size=(nt, ns, n) if nd == 3 else (nt, n))*10**r.uniform(-2, 5, size=n)
    if case['prec'] == 4: D = D.astype('f4')
    if case['bin']:
        if D.nbytes < 32: raise Skip('a binary file of a few bytes may look like text (precondition)')
        D.tofile(base+'.$'+num)
    else:
        np.savetxt(base+'.$'+num, D.reshape(-1, n), fmt='%.17g')
    if nd == 3:
        lab = lambda s: (str(np.around(float(s), 2))+'m' if not case.get('tick') else s)
        cols = ['%s-%s [%s]' % (lab(s), c, U[u]) for s in secs for c, u in zip(names, uk)]
        flat = np.stack([D[:, i, j] for i in range(ns) for j in range(n)], axis=1)
    else:
        cols = ['%s [%s]' % (c, U[u]) for c, u in zip(names, uk)]; flat = D
    return cols, flat.astype(float)

def run(case):
    from weio.bladed_out_file import BladedFile
    r = rng_of(case)
    d = os.path.dirname(scratch('x')); base = os.path.join(d, 'run')
    nt = case['nt']
    if case['kind'] == 'single':
        cols, flat = build(case, base, '04', r)
        if case.get('time', 1):
            cols = ['Time [s]']+cols; flat = np.column_stack([case['t0']+case['dt']*np.arange(nt), flat])
        for ext in ('.$04', '.%04'):
            o = BladedFile(base+ext)
            df = o.toDataFrame()
            check(list(df.columns) == cols, 'columns %s expected %s', list(df.columns), cols)
            tol = 1e-9*np.abs(flat)
            check(close(df.values, flat, tol), 'values %s', worst(df.values, flat, tol))
        check(len(o.dataSets) == 1, 'data sets %s', list(o.dataSets))
    elif case['kind'] == 'merge':
        # several files, in $PJ mode, of one or two lengths
        open(base+'.$PJ', 'w').write('project\n')
        groups = {}
        for j, c in enumerate(case['files']):
            cc = dict(case); cc.update(c); cc['cat'] = 'Cat%d' % j; cc['seed'] = case['seed']+j
            cols, flat = build(cc, base, '%02d' % (4+j), r, nt=cc['nt'], tag='f%d' % j if not case.get('same') else '')
            if not cc.get('time', 1): continue
            g = groups.setdefault(cc['nt'], dict(cols=[], parts=[], cat=[]))
            if not g['cols']:
                g['cols'] = ['Time [s]']; g['parts'] = [(cc['t0']+cc['dt']*np.arange(cc['nt']))[:, None]]
            g['cols'] += cols; g['parts'].append(flat); g['cat'].append(cc['cat'])
        o = BladedFile(base+'.$PJ')
        dfs = o.toDataFrame()
        if not isinstance(dfs, dict): dfs = {'only': dfs}
        lst = list(dfs.values())
        multi = [k for k, g in groups.items() if len(g['cat']) > 1]
        # exactly one merged group: only that one is kept ("for simplicity", documented in the code)
        want = [groups[multi[0]]] if len(multi) == 1 else list(groups.values())
        check(len(lst) == len(want), 'data sets %s, expected %d', list(dfs), len(want))
        for g in want:
            flat = np.column_stack(g['parts'])
            m = [df for df in lst if df.shape[0] == flat.shape[0]]
            check(len(m) == 1, 'no data set with %d rows', flat.shape[0])
            df = m[0]
            check(list(df.columns) == g['cols'], 'columns %s expected %s', list(df.columns), g['cols'])
            check(close(df.values, flat, 1e-9*np.abs(flat)), 'values %s', worst(df.values, flat, 1e-9*np.abs(flat)))
    elif case['kind'] == 'short':
        build(dict(case, bin=1), base, '04', r)
        b = open(base+'.$04', 'rb').read(); open(base+'.$04', 'wb').write(b[:-case['prec']])
        raises(lambda: BladedFile(base+'.$04'), msg='short binary data file')

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for nd in (2, 3):
        for b in (0, 1):
            for n, ns, nt in ((1, 1, 2), (1, 2, 3), (2, 1, 4), (3, 2, 5), (2, 3, 6), (4, 4, 4), (5, 2, 9), (2, 7, 3), (6, 5, 12), (1, 1, 1), (3, 2, 1)):
                i = n+ns+nt
                yield dict(kind='single', nd=nd, bin=b, n=n, ns=ns, nt=nt, prec=[4, 8][i % 2], t0=[0., 10.5, -2.][i % 3], dt=[.1, .05, 1.][i % 3], seed=s(), tick=[0, 1, 0, 2][i % 4], desc=i % 2)
                yield dict(kind='single', nd=nd, bin=b, n=n, ns=ns, nt=nt, prec=[8, 4][i % 2], t0=0., dt=.1, seed=s(), time=0)
            yield dict(kind='short', nd=nd, bin=1, n=3, ns=2, nt=4, prec=4, t0=0., dt=.1, seed=s())
    F = lambda **k: k
    for fs in ([F(nd=2), F(nd=3)], [F(nd=3), F(nd=2), F(nd=3, n=1)], [F(nd=2, nt=5), F(nd=2, nt=7)], [F(nd=3, ns=3), F(nd=2, time=0), F(nd=3, ns=2)], [F(nd=2, nt=5), F(nd=3, nt=7), F(nd=2, nt=5), F(nd=3, nt=7)], [F(nd=2, n=1), F(nd=2, n=1), F(nd=2, n=1)]):
        for b in (0, 1):
            yield dict(kind='merge', nd=2, bin=b, n=2, ns=2, nt=5, prec=8, t0=1., dt=.5, seed=s(), files=fs)
            yield dict(kind='merge', nd=2, bin=b, n=3, ns=2, nt=5, prec=8, t0=1., dt=.5, seed=s(), files=[F(**{**k, **({'n': 3} if 'n' in k else {})}) for k in fs], same=1)   # the same channel names in every file
    for _ in range(80 if tier == 'quick' else 3000):
        yield dict(kind='single', nd=int(rng.integers(2, 4)), bin=int(rng.integers(2)), n=int(rng.integers(1, 7)), ns=int(rng.integers(1, 7)), nt=int(rng.integers(2, 15)), prec=int(rng.choice([4, 8])), t0=float(rng.integers(0, 20)), dt=.25, seed=s(), tick=int(rng.integers(3)), desc=int(rng.integers(2)))

"""C12: HAWC2 ae/pc and ROSCO performance tables survive a write/read cycle."""
import numpy as np
from common import *

def run(case):
    r = rng_of(case); k = case['kind']
    if k == 'ae':
        from weio.hawc2_ae_file import HAWC2AEFile
        o = HAWC2AEFile(); S = {}
        for i, n in enumerate(case['rows']):
            R = np.cumsum(np.abs(r.normal(size=n)))*10**r.uniform(-3, 3); C = r.normal(size=n)*10**r.uniform(-200, 200, size=n) if case.get('wild') else r.uniform(.1, 5, size=n); T = r.uniform(10, 100, size=n); I = r.integers(1, 9, size=n)
            key = case['keys'][i] if case.get('keys') else i+1
            o.add_set(radius=R, chord=C, thickness=T, pc_set_id=I, **(dict(set_id=key) if case.get('keys') else {}))
            S[key] = np.column_stack([R, C, T, I])
        p = scratch('b_ae.dat'); o.write(p)
        q = HAWC2AEFile(p)
        check(list(q.data.ae_sets) == list(S), 'set numbers %s expected %s', list(q.data.ae_sets), list(S))
        for s in S: check(same(q.data.ae_sets[s], S[s]), 'set %s: %s', s, worst(q.data.ae_sets[s], S[s], 0))
        p2 = scratch('b_ae2.dat'); q.write(p2)
        check(open(p2).read() == open(p).read(), 'second write differs')
        q.read(p); check(list(q.data.ae_sets) == list(S) and all(same(q.data.ae_sets[s], S[s]) for s in S), 're-read')
    elif k == 'pc':
        from weio.hawc2_pc_file import HAWC2PCFile
        o = HAWC2PCFile(); S = {}
        for i, rows in enumerate(case['sets']):
            th = np.sort(np.round(r.uniform(10, 100, size=len(rows)), 8 if case.get('th8', 1) else 12)); P = [np.column_stack([np.sort(r.uniform(-180, 180, size=n))]+[r.normal(size=n)*10**r.uniform(-5, 2) for _ in range(3)]) for n in rows]
            if case.get('desc'): th = th[::-1]
            o.add_set(i+1, th, P); S[i+1] = (th, P)
        p = scratch('b_pc.dat'); o.write(p)
        q = HAWC2PCFile(p)
        check(len(q.data.pc_sets) == len(S), 'number of sets %d expected %d', len(q.data.pc_sets), len(S))
        for s, (th, P) in S.items():
            a, b = q.data.pc_sets[s]
            check(len(a) == len(th) and len(b) == len(P), 'profiles')
            check(close(a, th, 0.6e-8), 'thickness %s', worst(a, th, .6e-8))
            for x, y in zip(b, P):
                check(x.shape == y.shape and close(x, y, 1e-15*np.abs(y)), 'coefficients %s', worst(x, y, 1e-15*np.abs(y)))
    elif k == 'rosco':
        from weio.rosco_performance_file import ROSCOPerformanceFile
        o = ROSCOPerformanceFile(); npi, nt = case['np'], case['nt']
        o['pitch'] = np.sort(np.round(r.uniform(-10, 30, size=npi), 1)); o['TSR'] = np.sort(np.round(r.uniform(1, 15, size=nt), 2)) ; o['WS'] = np.round(r.uniform(3, 25, size=case['nw']), 1) if case['nw'] else None
        for c in ('CP', 'CT', 'CQ'): o[c] = r.normal(size=(nt, npi))*case['sc']
        p = scratch('Cp_Ct_Cq.txt'); o.write(p)
        q = ROSCOPerformanceFile(p)
        for c in ('pitch', 'TSR')+(('WS',) if case['nw'] else ()):
            check(close(q[c], o[c], 5e-4*np.abs(o[c])), '%s %s', c, worst(q[c], o[c], 5e-4*np.abs(o[c])))
        if not case['nw']: check(q['WS'] is None, 'WS')
        for c in ('CP', 'CT', 'CQ'):
            check(q[c].shape == (nt, npi) and close(q[c], o[c], 0.51e-6), '%s %s', c, worst(q[c], o[c], .51e-6))

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for rows in ([1], [2], [5], [1, 1], [3, 2], [2, 5, 1], [4, 4, 4, 4], [11, 3], [1]*11):
        yield dict(kind='ae', rows=rows, seed=s()); yield dict(kind='ae', rows=rows, wild=1, seed=s())
        yield dict(kind='ae', rows=rows, keys=[int(x) for x in rng.permutation(40)[:len(rows)]], seed=s())
    for sets in ([[1]], [[3]], [[3, 2]], [[2, 3, 4]], [[3], [2]], [[3, 2], [1, 4, 2]], [[1, 1], [2], [3, 3, 3]], [[2]*12], [[5]]*11):
        for desc in (0, 1): yield dict(kind='pc', sets=sets, desc=desc, th8=int(rng.integers(2)), seed=s())
    for npi, nt, nw in ((1, 1, 1), (1, 3, 1), (3, 1, 0), (2, 2, 2), (4, 7, 1), (7, 4, 3), (12, 12, 0), (36, 20, 1)):
        for sc in (.3, 50.): yield dict(kind='rosco', np=npi, nt=nt, nw=nw, sc=sc, seed=s())
    for _ in range(100 if tier == 'quick' else 4000):
        t = int(rng.integers(3))
        if t == 0: yield dict(kind='ae', rows=[int(x) for x in rng.integers(1, 12, size=int(rng.integers(1, 6)))], wild=int(rng.integers(2)), seed=s())
        elif t == 1: yield dict(kind='pc', sets=[[int(x) for x in rng.integers(1, 8, size=int(rng.integers(1, 5)))] for _ in range(int(rng.integers(1, 4)))], seed=s())
        else: yield dict(kind='rosco', np=int(rng.integers(1, 15)), nt=int(rng.integers(1, 15)), nw=int(rng.integers(0, 3)), sc=1., seed=s())

"""C16: OpenFAST ASCII outputs.  Oracle: the text is composed here, independently of the repository's writer."""
import numpy as np
from common import *

WORDS = ['These predictions were generated by FAST', 'Predictions   were generated on 14-Feb-2020', '', 'linked with ElastoDyn; AeroDyn (v15.03)', 'Description from the input file: Times of a test', 'time-marching, dt = 0.0125', '  ', '# 5 MW', '1.0 2.0 3.0', 'Timeseries of x', 'Number of time steps: 100', 'Total Time (s) 600', '(s) (m) units', 'The Time']
NAMES = ['Wind1VelX', 'RootMxb1', 'B1N1Alpha', 'GenPwr', 'TwrBsFxt', 'Q_GeAz', 'Spn1ALxb1', 'a', 'VeryLongChannelName12', '-PtfmYaw', 'Time2', 'GenTq[1]', 'This']
UNITS = ['m/s', 'kN-m', 'deg', '-', 'kW', 'rpm', 'm/s^2', 'N/m', '1/s', '']

def fmt(x, st): return ['%.4f', '%11.4e', '%.15g', '%d', '%+.6E', '%r'][st] % (x if st != 3 else round(x))

def run(case):
    import weio.fast_output_file as fo
    from weio.file import WrongFormatError, EmptyFileError
    r = rng_of(case); n, m = case['n'], case['m']
    T = r.normal(size=(n, m))*10**r.uniform(-6, 6, size=(1, m))
    if case.get('vals') == 'int': T = np.round(T)
    if case.get('vals') == 'zero': T *= 0
    if case.get('vals') == 'neg': T = -np.abs(T)
    T[:, 0] = case.get('t0', 0)+case.get('dt', 0.05)*np.arange(n)
    names = [['Time', 'time', 'TIME'][case.get('T', 0)]]+[(NAMES[(j+case['seed']) % (len(NAMES)-1)] if j < 12 else 'Ch%d' % j) for j in range(1, m)]
    if case.get('dup'): names[1:] = [names[1+j//2] for j in range(m-1)]
    units = [['(s)', '(sec)'][case.get('T', 0) % 2]]+['('+UNITS[(j*7+case['seed']) % 10]+')' for j in range(1, m)]
    st = [(j+case['seed']) % 6 for j in range(m)]; st[0] = 2
    cells = [[fmt(T[i, j], st[j]) for j in range(m)] for i in range(n)]
    V = np.array([[float(c) for c in row] for row in cells]).reshape(n, m)
    sep = ['\t', ' ', '   ', ' \t '][case['seed'] % 4]
    ind = ['', ' ', '\t'][case['seed'] % 3]
    H = [WORDS[(i*3+case['seed']) % len(WORDS)] for i in range(case['h'])]
    L = H+([ind+sep.join(names), ind+sep.join(units)] if case['kind'] != 'notime' else [])+[ind+sep.join(c) for c in cells]
    if case.get('tail'): L.append('This is a comment at the end of a HydroDyn output')
    p = scratch('o'+case.get('ext', '.out'))
    open(p, 'w', newline=case.get('nl', '\n')).write('\n'.join(L)+('\n' if case.get('last', 1) else ''))
    if case['kind'] == 'notime':
        raises(lambda: fo.FASTOutputFile(p), WrongFormatError, msg='file without a Time line'); return
    if n == 0:
        raises(lambda: fo.FASTOutputFile(p), EmptyFileError, msg='file without data'); return
    o = fo.FASTOutputFile(p)
    cols = [a+'_['+u[1:-1].replace('sec', 's')+']' for a, u in zip(names, units)]
    def verify(df, what, M, tol, cols):
        check(df.shape == (n, m), '%s: shape %s expected %s', what, df.shape, (n, m))
        check(list(df.columns) == cols, '%s: columns %s expected %s', what, list(df.columns), cols)
        check(close(df.values.astype(float), M, tol), '%s: %s', what, worst(df.values.astype(float), M, tol))
    verify(o.toDataFrame(), 'read', V, (1e-12 if case.get('ext') == '.elm' else 1e-14)*np.abs(V), cols)       # the parser of pandas drops digits beyond the 13th
    check([str(x) for x in o.info['attribute_names']] == names, 'names %s', o.info['attribute_names'])
    check([u.replace('sec', 's') for u in o.info['attribute_units']] == [u[1:-1].replace('sec', 's') for u in units], 'units %s', o.info['attribute_units'])
    q = scratch('w'+case.get('to', '.out')); o.write(q)
    tol = 0.5001e-3*np.abs(V)+1e-300; tol[:, 0] = 0.50001e-4+1e-12*np.abs(V[:, 0])
    o2 = fo.FASTOutputFile(q); verify(o2.toDataFrame(), 'write/read', V, tol, cols)
    check([len(o2.info['attribute_names']), len(o2.info['attribute_units'])] == [m, m], 'names and units after writing')
    if case.get('made'):
        o3 = fo.FASTOutputFile(); o3.data = V.copy(); o3.info = dict(attribute_names=list(names), attribute_units=[u[1:-1] for u in units]); o3['binary'] = False
        q3 = scratch('m.out'); o3.write(q3); verify(fo.FASTOutputFile(q3).toDataFrame(), 'made/write/read', V, tol, cols)

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for n, m in ((1, 1), (1, 4), (2, 1), (2, 2), (3, 3), (4, 4), (7, 13), (40, 5), (200, 3), (3, 90)):
        for h in (0, 1, 6, 7, 8, 20, 150):
            yield dict(kind='read', n=n, m=m, h=h, seed=s(), T=int(rng.integers(3)), tail=int(rng.integers(2)), last=int(rng.integers(2)), made=h == 6, dt=float(rng.choice([.0125, .1, 1/3, 5])), t0=float(rng.choice([0, 0, 60, 1000.5])))
    for v in ('int', 'zero', 'neg'):
        for ext in ('.out', '.OUT', '.elev'):
            yield dict(kind='read', n=6, m=4, h=6, seed=s(), vals=v, ext=ext, nl=['\n', '\r\n'][ext == '.out'])
    for n, m in ((1, 2), (2, 2), (5, 3), (30, 12)):
        for ext, to in (('.elm', '.out'), ('.elm', '.elm'), ('.out', '.elm'), ('.elev', '.elev')):
            yield dict(kind='read', n=n, m=m, h=1, seed=s(), ext=ext, to=to, T=int(rng.integers(3)))
    for n, m in ((2, 3), (3, 7)): yield dict(kind='read', n=n, m=m, h=3, seed=s(), dup=1)
    for n in (999, 1000, 2600): yield dict(kind='read', n=n, m=3, h=2, seed=s())
    for j in range(28): yield dict(kind='read', n=2+j % 3, m=3, h=1+j//14, seed=j)
    for h in (0, 3): yield dict(kind='read', n=0, m=3, h=h, seed=s())
    for n, h in ((0, 3), (3, 0), (4, 6)): yield dict(kind='notime', n=n, m=3, h=h, seed=s())
    for _ in range(150 if tier == 'quick' else 5000):
        yield dict(kind='read', n=int(rng.integers(1, 40)), m=int(rng.integers(1, 20)), h=int(rng.integers(0, 12)), seed=s(), T=int(rng.integers(3)), tail=int(rng.integers(2)), last=int(rng.integers(2)), nl=str(rng.choice(['\n', '\r\n'])), dt=float(rng.choice([.0125, .1, 1/3, 5])), t0=float(rng.choice([0, 0, 60, 1000.5])))

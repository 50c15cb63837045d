"""C15: delimited text tables."""
import numpy as np
from common import *

def fmtv(x, style):
    return ('%d' % x) if style == 'int' else repr(float(x)) if style == 'repr' else '%.5e' % x

def run(case):
    import pandas as pd
    from weio.csv_file import CSVFile
    r = rng_of(case); n, m, sep = case['n'], case['m'], case['sep']
    k = case['kind']
    T = np.round(r.normal(size=(n, m))*10**r.uniform(-3, 5, size=(n, m)), 6)
    st = [['int', 'repr', 'exp'][int(r.integers(3))] for _ in range(m)]
    for j in range(m):
        if st[j] == 'int': T[:, j] = np.round(T[:, j])
    S = {}
    if case.get('strcol') is not None and case['strcol'] < m and m > 1:
        S[case['strcol']] = [('w%d,%s' if case.get('odd') else 'w%d_%s') % (i, 'abc'[i % 3]) for i in range(n)]
    cells = [[S[j][i] if j in S else fmtv(T[i, j], st[j]) for j in range(m)] for i in range(n)]
    T = np.array([[np.nan if j in S else float(cells[i][j]) for j in range(m)] for i in range(n)]).reshape(n, m)
    names = [['Alpha%d', 'x_%d', 'Wind-%d', 'T%d'][(j+case['seed']) % 4] % j for j in range(m)]
    if case.get('numnames'): names = [n_ if j % 2 == 0 else '%d.5' % j for j, n_ in enumerate(names)]      # at most half of them are numbers
    units = [['[m]', '(m/s)', '[-]', '(deg)'][(j+case['seed']) % 4] for j in range(m)]
    if case.get('bare'): units = [u if j % 3 != 2 else 'kN' for j, u in enumerate(units)]                   # more than half of them are bracketed
    ws = sep.strip(' ') == ''
    lines = []
    cc = case.get('cc', '#')
    for i in range(case['ncom']): lines.append(cc+' this is the comment line number %d of the file with many more words than columns in the table below it ok' % i)
    if case['names'] == 'header': lines.append(cc+sep.join(names))
    if case['names'] == 'line': lines.append(sep.join(names))
    if case['units']: lines.append(sep.join(units))
    pad = ' ' if case.get('pad') and not ws and sep != '\t' else ''
    lines += [(sep+pad).join(c) for c in cells]
    if k == 'read':
        p = scratch('t.'+case.get('ext', 'csv'))
        open(p, 'w', newline=case.get('nl', '\n')).write('\n'.join(lines)+('\n' if case.get('last', 1) else ''))
        o = CSVFile(p, **case.get('kw', {}))
    else:
        p = None
        o = CSVFile(sep=sep); df = pd.DataFrame(T, columns=names)
        for j in S: df[names[j]] = S[j]
        o.data = df
    want = names if case['names'] != 'none' else case['kw']['colNames'] if 'colNames' in case.get('kw', {}) else ['C%d' % j for j in range(m)]
    if case['units']: want = [a+'_'+b for a, b in zip(names, units)]
    def verify(df, what):
        check(list(df.columns) == want, '%s: columns %s expected %s', what, list(df.columns), want)
        check(df.shape == (n, m), '%s: shape %s expected %s', what, df.shape, (n, m))
        for j in range(m):
            c = df.iloc[:, j].values
            if j in S: check([str(x).strip() for x in c] == S[j], '%s: column %d %s', what, j, list(c))
            else: check(close(c.astype(float), T[:, j], 1e-12*np.abs(T[:, j])), '%s: column %d %s', what, j, worst(c.astype(float), T[:, j], 1e-12*np.abs(T[:, j])))
    verify(o.toDataFrame(), 'read')
    if case['ncom']+(case['names'] == 'header') and k == 'read':
        check(o.header == lines[:case['ncom']+(case['names'] == 'header')], 'header lines kept: %s', o.header)
    if case.get('nowrite') or (n == 1 and m == 1): return
    q = scratch('out.csv'); o.write(q)
    o2 = CSVFile(q); verify(o2.toDataFrame(), 'write/read')
    q2 = scratch('out2.csv'); o2.write(q2)
    verify(CSVFile(q2).toDataFrame(), 'second write/read')

def ok(c):
    if c['sep'] == c.get('cc'): return False
    if c['m'] == 1 and (c['sep'] != ' ' or c['names'] == 'header'): return False       # one column: no separator to detect
    if c['units'] and c['names'] != 'line': return False
    if c['names'] == 'none' and c['n'] < 2: return False                 # separator is detected on the second line
    if c['names'] == 'header' and c['n'] < 2: return False
    if c['names'] != 'line' and c.get('strcol') is not None and c['m'] < 3: return False        # a line of which no more than half are numbers may be names
    if c['units'] and c.get('strcol') is not None and c['n'] < 1: return False
    return True

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for sep in (',', ';', '\t', ' ', '   '):
        for names in ('line', 'none', 'header'):
            for ncom in (0, 1, 3):
                for n, m in ((2, 2), (1, 3), (5, 1), (7, 4), (3, 6)):
                    for units in ((0, 1) if names == 'line' else (0,)):
                        for cc in ('#', '!', ';') if ncom == 1 or names == 'header' else ('#',):
                            c = dict(kind='read', sep=sep, names=names, ncom=ncom, n=n, m=m, units=units, cc=cc, seed=s(), pad=int(rng.integers(2)), last=int(rng.integers(2)), ext=['csv', 'txt'][int(rng.integers(2))])
                            if ok(c): yield c
                            c = dict(c, strcol=int(rng.integers(m)), pad=0, seed=s())
                            if ok(c): yield c
    for sep in (',', ';', '\t', ' '):
        for ncom in (0, 4, 7, 9, 10, 11, 14, 33, 99):
            for names in ('line', 'none', 'header'):
                c = dict(kind='read', sep=sep, names=names, ncom=ncom-(names == 'header' and ncom == 99), n=4, m=3, units=0, cc='#', seed=s())
                if ok(c): yield c
        for n, m in ((300, 3), (101, 2), (1000, 2), (3, 60)):
            yield dict(kind='read', sep=sep, names='line', ncom=1, n=n, m=m, units=0, cc='!', seed=s())
        for m in (3, 4, 5, 8):
            yield dict(kind='read', sep=sep, names='line', ncom=m % 2, n=4, m=m, units=0, cc='#', numnames=1, seed=s())
            yield dict(kind='read', sep=sep, names='line', ncom=m % 2, n=4, m=m, units=1, cc='#', bare=1, seed=s())
    for sep in (',', ';', '\t'):
        for n, m in ((2, 2), (4, 5), (1, 3)):
            yield dict(kind='made', sep=sep, names='line', ncom=0, units=0, n=n, m=m, seed=s())
            yield dict(kind='made', sep=sep, names='line', ncom=0, units=0, n=n, m=m, strcol=1, seed=s())
    # explicit options
    for sep in (',', ' '):
        yield dict(kind='read', sep=sep, names='line', ncom=2, n=4, m=3, units=0, cc='%', kw=dict(commentChar='%'), nowrite=1, seed=s())
        yield dict(kind='read', sep=sep, names='line', ncom=2, n=4, m=3, units=0, cc='x', kw=dict(commentLines=[0, 1]), nowrite=1, seed=s())
        yield dict(kind='read', sep=sep, names='line', ncom=0, n=4, m=3, units=0, kw=dict(sep=sep, colNamesLine=0), seed=s())
        yield dict(kind='read', sep=sep, names='header', ncom=1, n=4, m=3, units=0, kw=dict(sep=sep, commentChar='#', colNamesLine=-1), nowrite=1, seed=s())
        for ncom in (1, 2, 5):
            yield dict(kind='read', sep=sep, names='line', ncom=ncom, n=4, m=3, units=0, cc='x', kw=dict(commentLines=list(range(ncom)), colNamesLine=ncom), nowrite=1, seed=s())
            yield dict(kind='read', sep=sep, names='line', ncom=ncom, n=4, m=3, units=0, cc='#', kw=dict(commentChar='#', colNamesLine=ncom), seed=s())
            yield dict(kind='read', sep=sep, names='line', ncom=ncom, n=4, m=3, units=0, cc='#', kw=dict(colNamesLine=ncom), seed=s())
        for ncom in (0, 2):
            yield dict(kind='read', sep=sep, names='none', ncom=ncom, n=4, m=3, units=0, cc='#', kw=dict(colNames=['a1', 'b 2' if sep == ',' else 'b2', 'c_[m]']), nowrite=1, seed=s())
            yield dict(kind='read', sep=sep, names='none', ncom=ncom, n=4, m=2, units=0, cc='#', kw=dict(detectColumnNames=False), seed=s())
    for ncom in (0, 1):
        yield dict(kind='read', sep=';', names='line', ncom=ncom, n=5, m=3, units=0, cc='#', strcol=1, odd=1, kw=dict(sep=';'), nowrite=1, seed=s())
    for _ in range(150 if tier == 'quick' else 6000):
        c = dict(kind='read', sep=[',', ';', '\t', ' '][int(rng.integers(4))], names=['line', 'none', 'header'][int(rng.integers(3))], ncom=int(rng.integers(4)), n=int(rng.integers(1, 30)), m=int(rng.integers(1, 9)), units=int(rng.integers(2)), cc=['#', '!', ';'][int(rng.integers(3))], seed=s(), pad=int(rng.integers(2)))
        if rng.integers(3) == 0: c['strcol'] = int(rng.integers(c['m']))
        if ok(c): yield c

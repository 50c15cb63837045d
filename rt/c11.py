"""C11: OpenFAST input lines, tables and output lists survive a write/read cycle."""
import re
import numpy as np
from common import *

def entry(label, value, descr='', **k):
    d = {'value': value, 'label': label, 'isComment': False, 'descr': descr, 'tabType': 0}; d.update(k); return d

def printed(*ds):
    from weio.fast_input_file import FASTInputFileBase
    o = FASTInputFileBase(); o.data = list(ds); o.filename = 'x'
    return o.toString()

def same_value(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, list): return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return a == b

def sig9(a, b): return a == b or abs(a-b) <= 5.1e-9*abs(a)*10/9

def run(case):
    from weio import fast_input_file as fi
    k = case['kind']
    if k == 'line':
        v, lab, descr = case['value'], case['label'], case['descr']
        txt = printed(entry(lab, v, descr))
        check('\n' not in txt, 'line printed on several lines %r', txt)
        d = fi.parseFASTInputLine(txt, 0)
        check(not d['isComment'], 'line %r read as comment', txt)
        check(same_value(d['value'], v), 'line %r: value %r expected %r', txt, d['value'], v)
        check(d['label'] == lab, 'line %r: label %r expected %r', txt, d['label'], lab)
        # second cycle is a fixed point
        txt2 = printed(d); d2 = fi.parseFASTInputLine(txt2, 0)
        check(same_value(d2['value'], v) and d2['label'] == lab, 'second cycle %r -> %r', txt2, d2)
    elif k == 'table':
        r = rng_of(case); n, m = case['n'], case['m']
        T = table(r, n, m, case['style'])
        cols = ['Col%d' % j if j % 3 else 'Wnd_%d' % j for j in range(m)]
        if case.get('long'): cols = ['%s_%s%d' % ('ABCDEFGHIJKLMNOP'[j % 16], 'Section'*(1+j % 4), j) for j in range(m)]
        units = ['(%s)' % ['m', '-', 'kg/m', 'N-m^2', 'deg'][(j+case['seed']) % 5] for j in range(m)]
        if case.get('long'): units = ['(%s)' % ['kg-m^2/s^2/rad', 'm', 'Nm/(rad/s)'.replace('(', '').replace(')', ''), 'a'*25][(j+case['seed']) % 4] for j in range(m)]
        tt = case['tt']; h = 2
        if case.get('nounits'): units = None; h = 1
        txt = printed(entry('Tab', T, '', tabType=tt, tabColumnNames=cols, tabUnits=units))
        L = txt.splitlines()
        check(len(L) == n+h or n == 0, 'table of %d rows printed on %d lines', n, len(L))
        got, c, u = fi.parseFASTNumTable('f', L[:n+h], n, 0, h)
        check(got.shape == (n, m), 'shape %s expected %s', got.shape, (n, m))
        check(c == cols, 'names %s', c); check(u == units, 'units %s expected %s', u, units)
        for i in range(n):
            for j in range(m):
                x = T[i, j]
                ok = (got[i, j] == x) if (tt == 1 and x == int(x) and abs(x) < 1e15) else sig9(x, got[i, j])
                check(ok, 'table[%d,%d] %r expected %r', i, j, got[i, j], x)
    elif k == 'outlist':
        ol = case['entries']
        d = entry('OutList', ['']+ol, '- list', tabType=3)
        txt = printed(d, entry('', 'END of input', '', isComment=True))
        L = txt.splitlines()
        got, nxt = fi.parseFASTOutList(L, 1)
        check(got == ol, 'output list %s expected %s', got, ol)
        check(nxt == 1+len(ol), 'next line %s', nxt)
        got, nxt = fi.parseFASTOutList(L[:1+len(ol)], 1)
        check(got == ol and nxt == 1+len(ol), 'output list without END')
    elif k == 'file':
        p = scratch('deck.dat'); r = rng_of(case); n = case['n']
        T = table(r, n, 6, 'mix'); T[:, 0] = np.linspace(0, 1, n)
        from weio.fast_input_file import EDBladeFile, FASTInputFile
        o = EDBladeFile(); o['BldProp'] = T; o['BldFlDmp(1)'] = case['x']; o['AdjBlMs'] = case['k']
        o.write(p)
        f = FASTInputFile(p)
        check(f['NBlInpSt'] == n and same_value(f['BldFlDmp(1)'], case['x']) and same_value(f['AdjBlMs'], case['k']), 'values read back')
        g = f['BldProp']
        check(g.shape == T.shape and all(sig9(a, b) for a, b in zip(T.ravel(), g.ravel())), 'table read back')
        q = scratch('deck2.dat'); f.write(q)
        f2 = FASTInputFile(q)
        check(list(f2.keys()) == list(f.keys()) and all(freeze(f[k2]) == freeze(f2[k2]) for k2 in f.keys()), 'second cycle differs')
    elif k == 'beamdyn':
        from weio.fast_input_file import FASTInputFileBase
        r = rng_of(case); n = case['n']
        S, K, M = np.round(np.linspace(0, 1, n), 6), r.normal(size=(n, 6, 6))*10**r.uniform(-3, 9, size=(n, 6, 6)), r.normal(size=(n, 6, 6))
        txt = printed(entry('BeamProperties', dict(span=S, K=K, M=M), tabType=5))
        o = FASTInputFileBase(); o.data = [entry('station_total', n)]; o.filename = 'x'
        o.readBeamDynProps(txt.splitlines(), 0)
        v = o.data[-1]['value']
        check(np.array_equal(v['span'], S) and np.array_equal(v['K'], K) and np.array_equal(v['M'], M), 'BeamDyn matrices')
    elif k == 'sections': sections(case)
    elif k == 'filtab':
        ff = case['files']
        d = entry('AFNames', ff, '', tabType=3, tabDimVar='NumAFfiles')
        L = printed(d).splitlines()
        got = fi.parseFASTFilTable(L, len(ff), 0)
        check(got == ff, 'file list %s expected %s', got, ff)

# tables of the module decks: name of the first (V) or second (L) column that announces them, entry with the number of rows, name of the table, lines of names and units
SECTIONS = [('V', 'HtFract', 'NTwInpSt', 'TowProp', 2), ('V', 'TwrElev', 'NumTwrNds', 'TowProp', 2), ('V', 'BlFract', 'NBlInpSt', 'BldProp', 2), ('V', 'Genspd_TLU', 'DLL_NumTrq', 'DLLProp', 2), ('V', 'BlSpn', 'NumBlNds', 'BldAeroNodes', 2),
    ('V', 'WndSpeed', 'NumCases', 'Cases', 2), ('V', 'HvCoefID', 'NHvCoef', 'HvCoefs', 2), ('V', 'AxCoefID', 'NAxCoef', 'AxCoefs', 2), ('V', 'JointID', 'NJoints', 'Joints', 2), ('V', 'Dpth', 'NCoefDpth', 'DpthProp', 2), ('V', 'FillNumM', 'NFillGroups', 'FillGroups', 2),
    ('V', 'MGDpth', 'NMGDepths', 'MGProp', 2), ('V', 'SimplCd', 1, 'SmplProp', 2), ('V', 'RNodes', 'BldNodes', 'BldAeroNodes', 1), ('V', 'TwrHtFr', 'NTwrHt', 'TowerProp', 1), ('V', 'TwrRe', 'NTwrRe', 'TowerRe', 1), ('V', 'WT_X', 'NumTurbines', 'WindTurbines', 2), ('V', 'RJointID', 'NReact', 'BaseJoints', 2), ('V', 'IJointID', 'NInterf', 'InterfaceJoints', 2),
    ('V', 'COSMID', 'NCOSMs', 'MemberCosineMatrix', 2), ('V', 'CMJointID', 'NCmass', 'ConcentratedMasses', 2), ('L', 'F_X', 'NKInpSt', 'TMDspProp', 2), ('L', 'MemberCd1', 'NCoefMembers', 'MemberProp', 2), ('L', 'MJointID1', 'NMembers', 'Members', 2),
    ('L', 'NOutLoc', 'NMOutputs', 'MemberOuts', 2), ('L', 'NOutCnt', 'NMOutputs', 'MemberOuts', 2), ('L', 'PropD', 'NPropSets', 'SectionProp', 2), ('L', 'Diam', 'NTypes', 'LineTypes', 2), ('L', 'YoungE', 'NPropSets', 'BeamProp', 2),
    ('L', 'EA', 'NCablePropSets', 'CableProp', 2), ('L', 'MatDens', 'NRigidPropSets', 'RigidProp', 2)]
def sections(case):
    """a deck with one or two of these tables between ordinary entries"""
    from weio.fast_input_file import FASTInputFile, FASTInputFileBase
    if any(x[1] in ('BlFract', 'BlSpn') for x in case['secs']): FASTInputFile = FASTInputFileBase       # these make it a blade file of one module, with more entries (kind 'file')
    r = rng_of(case); L = ['------- A DECK -------', 'description', '------ GENERAL ------']; want = {}; tabs = []
    for j in range(6): L.append('%d Opt%d - option %d' % (j+3, j, j)); want['Opt%d' % j] = j+3
    for t, (k, key, dim, name, h) in enumerate(case['secs']):
        n = case['n'] if isinstance(dim, str) else 1
        m = int(r.integers(2, 8)); T = np.round(table(r, n, m, 'real'), 6); T = np.where(T == 0, .5, T)
        cols = (['First%d' % t, key] if k == 'L' else [key, 'Sec%d' % t])+['Col%d_%d' % (j, t) for j in range(2, m)]
        units = ['(%s)' % ['m', '-', 'kg/m', 'N-m^2', 'deg'][(j+case['seed']) % 5] for j in range(m)]
        L.append('------ SECTION %d ------' % t)
        if isinstance(dim, str): L.append('%d   %s   - number of rows' % (n, dim)); want[dim] = n
        L.append('  '.join(cols))
        if h == 2: L.append('  '.join(units))
        L += ['  '.join('%.9e' % x for x in row) for row in T]
        for j in range(4): L.append('%.2f After%d_%d - entry' % (j+t+.25, j, t)); want['After%d_%d' % (j, t)] = j+t+.25
        tabs.append((name, np.array([[float('%.9e' % x) for x in row] for row in T]), cols, units if h == 2 else None))
    p = scratch('sec.dat'); open(p, 'w').write('\n'.join(L)+'\n')
    f = FASTInputFile(p)
    for c in range(2):
        for q, v in want.items(): check(q in f.keys() and f[q] == v, 'cycle %d: %s = %r expected %r', c, q, f[q] if q in f.keys() else None, v)
        for name, T, cols, units in tabs:
            g = f[name]; check(g.shape == T.shape, 'cycle %d: %s has shape %s expected %s', c, name, g.shape, T.shape)
            check(all(sig9(a, b) or c == 0 and abs(a-b) <= 1e-12*abs(a) for a, b in zip(T.ravel(), g.astype(float).ravel())), 'cycle %d: %s', c, name)
            b = getattr(f, 'fixedfile', None) or f; b = getattr(f, 'basefile', b); d = b.data[b.getID(name)]
            check(list(d['tabColumnNames']) == cols, 'cycle %d: names %s', c, d['tabColumnNames'])
            check((d['tabUnits'] is None) if units is None else list(d['tabUnits']) == units, 'cycle %d: units %s', c, d['tabUnits'])
        q = scratch('sec2.dat'); f.write(q); f = FASTInputFile(q)

def table(r, n, m, style):
    if style == 'int': return r.integers(-10**6, 10**6, size=(n, m)).astype(float)
    if style == 'big': return np.round(r.normal(size=(n, m))*10**r.uniform(0, 14.9, size=(n, m)))
    T = r.normal(size=(n, m))*10**r.uniform(-12, 12, size=(n, m))
    if style == 'mix':
        T = np.where(r.integers(0, 2, size=(n, m)) == 1, np.round(r.normal(size=(n, m))*100), T)
    if style == 'tiny': T = T*1e-290
    if style == 'near': T = np.round(T)+r.choice([-1, 1], size=(n, m))*10**r.uniform(-9, -1, size=(n, m))
    return T

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    q = tier == 'quick'
    labs = ['DT', 'TMax', 'BldFl1Sh(2)', 'a', 'Wave_Dir', 'PtfmRefzt', 'OutFile', 'TwFAM1Sh(6)', 'NumBl', 'StallDlyMod-1']
    descr = ['', 'time step (s)', '- already dashed', '-', 'flag {0: none; 1: "some, thing"} (switch)', 'a, b, c', '3 values [-]', '! note', 'T F true', '12.5 13']
    vals = [0, 1, -1, 7, 100000, -99999999, 10**17, 0.0, -0.0, 1.5, -2.25, 1e-5, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 0.1, 1/3, 123456789.123, 1e22, True, False, 'DEFAULT', 'none', 'word', 'file.dat', '"quoted"', '"../a b/c d.dat"', '""', '"a, b"', '"unused"', '"T"', '"1 2 3"',
            float('inf'), -float('inf'), '5MW', '1.2.3', 'endpoint', 'x=1', '0x10', '1e', 'e5', 'a#b', 'c!d', '--x'[2:], 'v1.00.x', "'single'", '"end"', '"a;b#c!d"', '"1.0"', '"-"',
            [-1.2345678901234567e-05, 2.0], [-1.2345678901234567e+105, -1.2345678901234567e-105, 0], [10**20, -10**20], [float('inf'), 1.], [-float('inf'), 2, 3], [False, True], [0., -0.0], [1, 1.0], [11, 1, 111, 1], [-1.5, 1.5, 5], [1, 2], [1.5, 2.5, -3.], [True, False], [0, 0, 0], [1, 2.5], [1e-5, 2e10], [10, 100, 1000, 10000], [-1, 1, -1], [1., 1., 1.], [12, 2, 1], [True, True, True], list(range(12)), [1.1]*20]
    for i, v in enumerate(vals):
        for j in range(len(labs) if q else len(labs)*3):
            yield dict(kind='line', value=v, label=labs[j % len(labs)], descr=descr[(i+j*3+j//len(labs)) % len(descr)])
    R = rng
    for _ in range(300 if q else 20000):
        t = int(R.integers(6))
        v = int(R.integers(-10**9, 10**9)) if t == 0 else float(R.normal()*10**R.uniform(-30, 30)) if t == 1 else bool(R.integers(2)) if t == 2 else '"%s"' % ''.join(R.choice(list('abc /.,-_:1 ')) for _ in range(int(R.integers(0, 14)))) if t == 3 else [float(np.round(R.normal()*100, int(R.integers(0, 4)))) for _ in range(int(R.integers(2, 9)))] if t == 4 else [int(x) for x in R.integers(-50, 500, size=int(R.integers(2, 9)))]
        if t == 4 and R.integers(2): v = [float(R.normal()*10**R.uniform(-200, 200)) for _ in v]
        if t == 3: v = '"%s"' % ' '.join(v.strip('"').split())       # consecutive blanks inside a text are merged by the parser
        yield dict(kind='line', value=v, label=labs[int(R.integers(len(labs)))], descr=descr[int(R.integers(len(descr)))])
    odd = ['a;', ';a', 'a.', 'b:', 'c)', '(d', '[e]', 'f{1}', 'g|h', 'i*', '$j', '%k', 'l&', 'm@n', '~o', 'p/q\\\\r', 's^t', '?u', 'w<x>', 'y_', '_z', "v'", '+-', '.', '-', '1d5', '2nd', '1e', '.5x', 'x=1', 'TRUE1', 'fa', 'Tt', 'e', 'E5', 'd', 'x'*25, 'Long'*12, 'q'*100, 'é', 'endless', 'OutList']
    for j, w in enumerate(odd):
        yield dict(kind='line', value=[3, 2.5, True, 'word', '"a b"', [1, 2]][j % 6], label=w, descr=descr[j % len(descr)])
        yield dict(kind='line', value=w, label=labs[j % len(labs)], descr=descr[j % len(descr)])
        yield dict(kind='line', value='"%s"' % w, label=labs[j % len(labs)], descr=descr[j % len(descr)])
        yield dict(kind='line', value='"%s %s"' % (w, odd[j-7]), label=odd[j-3], descr=descr[j % len(descr)])
    for n, m in ((1, 1), (1, 5), (2, 2), (3, 7), (20, 4), (50, 12), (2, 40)):
        for style in ('int', 'big', 'mix', 'real', 'tiny', 'near'):
            for tt in (1, 2): yield dict(kind='table', n=n, m=m, style=style, tt=tt, seed=s(), long=0)
    for n, m in ((1, 1), (3, 3), (5, 18)):
        for tt in (1, 2): yield dict(kind='table', n=n, m=m, style='mix', tt=tt, seed=s(), long=1)
    for n, m in ((1, 1), (2, 3), (9, 6)):
        yield dict(kind='table', n=n, m=m, style='mix', tt=1, seed=s(), nounits=1)
    for ol in (['"A"'], ['"RotSpeed"', '"GenPwr"  - power'], ['B%d' % i for i in range(60)], ['"TwHt1ALxt , TwHt1ALyt"', '', '"x"'], ['Ch%d' % i for i in range(199)], ['"Ch%d"' % i for i in range(200)], ['ENDa'[::-1], 'x END', '"END"', '  END'[2:3]+'nd' if 0 else 'BEND'], ['"Z END"', ' end?']):
        yield dict(kind='outlist', entries=ol)
    for n in (2, 3, 10, 40):
        for x in (1.0, 2.5, -1e-7, 3e9): yield dict(kind='file', n=n, x=x, k=[1.0, 5, 0.25][n % 3], seed=s())
    for n in (1, 2, 7, 30): yield dict(kind='beamdyn', n=n, seed=s())
    for i, t in enumerate(SECTIONS):
        for n in ((1, 2, 4) if q else (1, 2, 3, 4, 5, 9)):
            yield dict(kind='sections', secs=[t], n=n, seed=s())
        o = SECTIONS[(i*7+5) % len(SECTIONS)]
        if o[2] != t[2] and o[3] != t[3]: yield dict(kind='sections', secs=[t, o], n=3, seed=s())
    for n in (1, 2, 5): yield dict(kind='filtab', files=['"../foils/f%02d.dat"' % i for i in range(n)])

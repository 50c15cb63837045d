"""C04: OpenFAST binary writing.  Oracle: independent decoder of the layout + tolerance of the 16-bit scaling."""
import struct, os
import numpy as np, pandas as pd
from common import *
EPS = float(np.finfo('f4').eps)

def decode(b):
    fid, n, nt, t0, dt = struct.unpack_from('<hiidd', b, 0)
    o = struct.calcsize('<hiidd')
    scl = np.frombuffer(b, '<f4', n, o).astype(float); o += 4*n
    off = np.frombuffer(b, '<f4', n, o).astype(float); o += 4*n
    ld, = struct.unpack_from('<i', b, o); o += 4
    desc = b[o:o+ld].decode('latin1'); o += ld
    names = [b[o+10*i:o+10*i+10].decode('latin1') for i in range(n+1)]; o += 10*(n+1)
    units = [b[o+10*i:o+10*i+10].decode('latin1') for i in range(n+1)]; o += 10*(n+1)
    packed = np.frombuffer(b, '<i2', n*nt, o).reshape(nt, n).astype(float); o += 2*n*nt
    check(o == len(b), 'file has %d bytes, layout needs %d', len(b), o)
    data = np.empty((nt, n+1)); data[:, 0] = t0+dt*np.arange(nt); data[:, 1:] = (packed-off)/scl
    return fid, names, units, data, desc, t0, dt

def tol_of(x):
    """one 1/65535 step of the channel range (16-bit truncation) + single-precision rounding of the channel magnitude"""
    rngs = x.max(0)-x.min(0); mag = np.abs(x).max(0)
    return np.where(rngs > 0, rngs/65535*(1+1e-3), 1/65535.*(1+1e-3))+6*EPS*mag+np.where(rngs > 0, 4*EPS*rngs, 0), rngs

def table(case):
    r = rng_of(case); nt, n = case['nt'], case['n']
    d = np.empty((nt, n+1))
    t0 = float(r.choice([0., 0., 12.5, -3., 600.])); dt = float(r.choice([0.0125, 0.1, 0.025, 1.]))
    d[:, 0] = t0+dt*np.arange(nt)
    for i in range(n):
        k = (case.get('vals') or ['normal', 'const', 'ramp', 'big', 'tiny', 'offset', 'step', 'zero', 'huge', 'neg'])[(i+case['seed']) % (len(case['vals']) if case.get('vals') else 10)]
        if k == 'normal': c = r.normal(size=nt)*10**r.uniform(-3, 3)
        elif k == 'const': c = np.full(nt, r.normal()*10**r.uniform(-2, 5))
        elif k == 'ramp': c = np.linspace(-1, 1, nt)*10**r.uniform(-2, 3)+r.normal()
        elif k == 'big': c = r.normal(size=nt)*1e8
        elif k == 'tiny': c = r.normal(size=nt)*1e-9
        elif k == 'offset': c = 1e5+r.normal(size=nt)
        elif k == 'step': c = np.where(np.arange(nt) < nt//2, -5., 7.)
        elif k == 'zero': c = np.zeros(nt)
        elif k == 'huge': c = 1e7+1e-3*r.normal(size=nt)
        elif k == 'neg': c = -np.abs(r.normal(size=nt))*50-3
        elif k == 'nearconst': c = float(r.normal()*100)*(1+1e-9*r.normal(size=nt))
        d[:, i+1] = c
    if case.get('f32'): d = d.astype('f4')
    return d, float(d[0, 0]), float(d[1, 0]-d[0, 0])

def compare(p, d, names, units, t0, dt, what):
    import weio.fast_output_file as fo
    x = d[:, 1:].astype(float)
    fid, bn, bu, bd, desc, bt0, bdt = decode(open(p, 'rb').read())
    tol, rngs = tol_of(x)
    rd, info = fo.load_binary_output(p)
    for lab, dd in (('bytes', bd), ('read back', rd)):
        check(dd.shape == d.shape, '%s %s: shape %s expected %s', what, lab, dd.shape, d.shape)
        check(close(dd[:, 1:], x, tol), '%s %s: %s', what, lab, worst(dd[:, 1:], x, tol))
        check(abs(dd[0, 0]-t0) <= 1e-12*max(1, abs(t0)), '%s %s: start time %r expected %r', what, lab, dd[0, 0], t0)
        et = t0+dt*np.arange(len(d)); check(close(dd[:, 0], et, 1e-9*max(1, np.abs(et).max())), '%s %s time: %s', what, lab, worst(dd[:, 0], et, 1e-9))
    check([s.strip() for s in bn] == names, '%s: names on disk %s expected %s', what, bn, names)
    check([s.strip() for s in bu] == ['('+u+')' for u in units], '%s: units on disk %s expected %s', what, bu, units)
    check(list(info['attribute_names']) == names, '%s: names read %s expected %s', what, info['attribute_names'], names)
    check(list(info['attribute_units']) == units, '%s: units read %s expected %s', what, info['attribute_units'], units)

def run(case):
    import weio.fast_output_file as fo
    r = rng_of(case)
    d, t0, dt = table(case)
    nt, n = case['nt'], case['n']
    names = ['Time']+['Ch%d' % i if i % 3 else 'LongName%02d' % (i % 100) for i in range(1, n+1)]
    units = ['s']+[['m', 'kN-m', 'm/s^2', 'deg', '-', 'deg/s^2x'][i % 6] for i in range(1, n+1)]
    p = scratch('out.outb')
    before = d.copy()
    if case['kind'] == 'binary':
        sn, su = list(names), list(units)
        fo.writeBinary(p, d, names, units, descStr=case.get('desc', ''))
        check(names == sn and units == su, 'writeBinary changed its name or unit arguments')
        compare(p, d, names, units, t0, dt, 'writeBinary')
        check(decode(open(p, 'rb').read())[4] == case.get('desc', ''), 'description not preserved')
    elif case['kind'] == 'df':
        cols = []; eu = []
        if case.get('odd'): names = [names[0]]+[['B%d(1)', 'B[%d]', 'A_%d', 'a-%d/x', '(%d)b', 'q%d{t}'][i % 6] % i for i in range(1, n+1)]
        for i, (a, u) in enumerate(zip(names, units)):
            st = (case['style']+i) % 7 if i else case['style'] % 4
            if st == 0: cols.append(a+'_['+u+']'); eu.append(u)
            elif st == 1: cols.append(a+' ['+u+']'); eu.append(u)
            elif st == 2: cols.append(a+'_('+u+')'); eu.append(u)
            elif st == 3: cols.append(a+'['+u+']'); eu.append(u)
            elif st == 4: names[i] = a = a.rstrip(')]'); cols.append(a); eu.append('')
            elif st == 5: cols.append(' '+a+'_['+u+'] '); eu.append(u)
            else: names[i] = a = a.rstrip(')]'); cols.append(a); eu.append('')
        if case['style'] == 7:
            cols = list(names); eu = ['']*(n+1)
        df = pd.DataFrame(d, columns=cols)
        fo.writeDataFrame(df, p)
        check(list(df.columns) == cols and same(df.values, before), 'writeDataFrame changed the data frame')
        compare(p, d, names, eu, t0, dt, 'writeDataFrame')
    elif case['kind'] == 'object':
        fo.writeBinary(p, d, names, units, descStr='desc')
        f = fo.FASTOutputFile(p); d1 = np.array(f.data)
        q = scratch('again.outb'); f.write(q)
        compare(q, d1, names, units, t0, dt, 'FASTOutputFile.write')
        check(same(f.data, d1), 'write changed the data in memory')
        df = f.toDataFrame(); q2 = scratch('df.outb'); f.writeDataFrame(df, q2)
        compare(q2, d1, names, [u.replace('sec', 's') for u in units], t0, dt, 'toDataFrame/writeDataFrame')
    elif case['kind'] == 'refuse':
        for bad in ([names[1], 'Time']+names[2:], ['T']+names[1:]):
            if len(bad) < 2: continue
            raises(lambda: fo.writeBinary(p, d, bad, units), msg='writeBinary with names %s' % bad)
            raises(lambda: fo.writeDataFrame(pd.DataFrame(d, columns=[b+'_[m]' for b in bad]), p), msg='writeDataFrame with names %s' % bad)
    check(same(d, before), '%s changed the table', case['kind'])

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for n, nt in ((1, 2), (2, 3), (10, 20), (11, 7), (30, 5), (5, 200), (1, 50)):
        for kind in ('binary', 'object'):
            yield dict(kind=kind, n=n, nt=nt, seed=s(), desc=['', 'hello world'][n % 2])
        for style in range(8):
            yield dict(kind='df', n=n, nt=nt, seed=s(), style=style)
    for style in range(7): yield dict(kind='df', n=12, nt=4, seed=s(), style=style, odd=1)
    yield dict(kind='refuse', n=2, nt=4, seed=s()); yield dict(kind='refuse', n=5, nt=3, seed=s())
    for k in ('normal', 'const', 'ramp', 'big', 'tiny', 'offset', 'step', 'zero', 'huge', 'neg', 'nearconst'):
        for _ in range(3): yield dict(kind='binary', n=4, nt=64, seed=s(), vals=[k])
        yield dict(kind='binary', n=3, nt=40, seed=s(), vals=[k], f32=1)
    for _ in range(80 if tier == 'quick' else 3000):
        yield dict(kind=str(rng.choice(['binary', 'df', 'object'])), n=int(rng.integers(1, 25)), nt=int(rng.integers(2, 80)), seed=s(), style=int(rng.integers(8)))

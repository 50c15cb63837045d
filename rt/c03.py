"""C03: OpenFAST binary output decoding.  Oracle: an independent encoder of the published layout."""
import struct, os
import numpy as np
from common import *

def encode(fid, names, units, data, tscl=None, toff=None, t0=0., dt=.1, ptime=None, scl=None, off=None, desc='', lenname=10):
    """bytes of a file; data is the stored (packed) table NT x N"""
    nt, n = data.shape
    b = struct.pack('<h', fid)
    if fid == 4: b += struct.pack('<h', lenname)
    b += struct.pack('<ii', n, nt)
    b += struct.pack('<dd', tscl, toff) if fid == 1 else struct.pack('<dd', t0, dt)
    if fid != 3:
        b += np.asarray(scl, '<f4').tobytes()+np.asarray(off, '<f4').tobytes()
    b += struct.pack('<i', len(desc))+desc.encode('latin1')
    ln = lenname if fid == 4 else 10
    b += b''.join([s.encode('latin1').ljust(ln)[:ln] for s in names])
    b += b''.join([('('+s+')').encode('latin1').ljust(ln)[:ln] for s in units])
    if fid == 1: b += np.asarray(ptime, '<i4').tobytes()
    b += (np.asarray(data, '<f8') if fid == 3 else np.asarray(data, '<i2')).tobytes()
    return b

def make(case):
    r = rng_of(case)
    fid, n, nt = case['fid'], case['n'], case['nt']
    ln = case.get('lenname', 10) if fid == 4 else 10
    alph = 'abcXYZ019_-'
    big = n > 500
    def word(k): 
        if big: return ('c%d' % k)[:ln]
        return ''.join(r.choice(list(alph), size=k))
    names = ['Time']+[word(int(r.integers(1, ln+1))) for _ in range(n)]
    units = ['s']+[word(int(r.integers(1, ln-1))) for _ in range(n)]
    if case.get('inner') and ln >= 8:
        names[1:] = [('%s b' % w[:4])[:ln] for w in names[1:]]; 
        units[1:] = [('-m/s^2', 'deg/s', '-', 'kN-m')[i % 4] for i in range(n)]
    kw = dict(desc='  A test %d ' % case['seed'] if case.get('desc', 1) else '')
    if fid == 3:
        data = r.normal(size=(nt, n))*10**r.uniform(-3, 6, size=(1, n))
    else:
        data = r.integers(-32768, 32768, size=(nt, n))
        if nt: data[0, 0] = -32768; data[-1, -1] = 32767
    if fid == 1:
        kw.update(tscl=float(10**r.uniform(0, 6)), toff=float(r.uniform(-1e5, 1e5)), ptime=np.sort(r.integers(-2**31, 2**31-1, size=nt)))
    else:
        kw.update(t0=float(r.choice([0., 30.5, -10., 1e4])), dt=float(r.choice([0.0125, 0.1, 1., 1/3])))
    if fid != 3:
        kw.update(scl=(10**r.uniform(-4, 5, size=n)*r.choice([-1, 1], size=n)).astype('f4'), off=(r.normal(size=n)*1e4).astype('f4'))
    return fid, names, units, data, kw, ln

def run(case):
    import weio.fast_output_file as fo
    fid, names, units, data, kw, ln = make(case)
    nt, n = data.shape
    b = encode(fid, names, units, data, lenname=ln, **kw)
    p = scratch('case.outb')
    open(p, 'wb').write(b)
    if case['kind'] == 'trunc':
        cut = case['cut'] if case['cut'] >= 0 else len(b)+case['cut']
        if not 0 < cut < len(b): raise Skip()
        open(p, 'wb').write(b[:cut])
        raises(lambda: fo.load_binary_output(p), msg='truncated at %d of %d bytes, buffered' % (cut, len(b)))
        raises(lambda: fo.load_binary_output(p, use_buffer=False), msg='truncated at %d of %d bytes, unbuffered' % (cut, len(b)))
        raises(lambda: fo.FASTOutputFile(p), msg='truncated at %d of %d bytes, FASTOutputFile' % (cut, len(b)))
        return
    # specification
    exp = np.zeros((nt, n+1))
    exp[:, 0] = (np.asarray(kw['ptime'], float)-kw['toff'])/kw['tscl'] if fid == 1 else kw['t0']+kw['dt']*np.arange(nt)
    if fid == 3: exp[:, 1:] = data
    else: exp[:, 1:] = (data.astype(float)-kw['off'].astype(float))/kw['scl'].astype(float)
    enames = [s.strip() for s in names]
    tol = 1e-12*np.maximum(np.abs(exp), 1e-300)
    outs = []
    for ub in (True, False):
        d, info = fo.load_binary_output(p, use_buffer=ub)
        d = np.asarray(d)
        check(d.shape == exp.shape, 'use_buffer=%s: shape %s, expected %s', ub, d.shape, exp.shape)
        check(close(d, exp, tol), 'use_buffer=%s: value %s', ub, worst(d, exp, tol))
        check(list(info['attribute_names']) == enames, 'use_buffer=%s names %s, expected %s', ub, info['attribute_names'], enames)
        check(list(info['attribute_units']) == units, 'use_buffer=%s units %s, expected %s', ub, info['attribute_units'], units)
        outs.append(d)
    f = fo.FASTOutputFile(p)
    df = f.toDataFrame()
    check(df.shape == exp.shape, 'toDataFrame shape %s expected %s', df.shape, exp.shape)
    check(close(df.values, exp, tol), 'toDataFrame: value %s', worst(df.values, exp, tol))
    import re
    ecols = [a+'_['+u.replace('sec', 's')+']' for a, u in zip(enames, units)]
    check(list(df.columns) == ecols, 'toDataFrame columns %s expected %s', list(df.columns), ecols)

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for fid in (1, 2, 3, 4):
        for n, nt in ((1, 1), (1, 2), (2, 1), (3, 3), (2, 5), (7, 4), (5, 11), (26, 101), (1, 40), (40, 2)):
            yield dict(kind='decode', fid=fid, n=n, nt=nt, seed=s(), inner=n % 2, desc=int(nt % 2), lenname=[10, 20, 6, 14][(n+nt) % 4])
    # several buffers: 4096*40 values per buffer
    for fid, n, nt in ((2, 163, 1010), (3, 400, 450), (1, 1000, 170), (4, 1, 163841), (2, 3, 163841), (4, 81921, 3), (2, 200, 819), (2, 163841, 2), (1, 7, 60001)):
        yield dict(kind='multibuffer', fid=fid, n=n, nt=nt, seed=s(), lenname=12)
    for fid in (1, 2, 3, 4):
        for cut in list(range(1, 30))+[40, 50, 60, 80, 100, 110, 120, 130, 140, 150, 160, 170]+list(range(-30, 0)):
            yield dict(kind='trunc', fid=fid, n=2, nt=3, seed=s(), cut=cut)
    for fid, n, nt, cuts in ((2, 100, 1700, (-1, -2, -3, -200, -13000)), (3, 100, 1650, (-1, -8, -9, -800, -90000))):
        for cut in cuts: yield dict(kind='trunc', fid=fid, n=n, nt=nt, seed=s(), cut=cut)
    for _ in range(60 if tier == 'quick' else 2000):
        fid = int(rng.integers(1, 5))
        yield dict(kind='decode', fid=fid, n=int(rng.integers(1, 40)), nt=int(rng.integers(1, 60)), seed=s(), inner=int(rng.integers(2)), lenname=int(rng.integers(4, 30)))
    if tier == 'thorough':
        for _ in range(40):
            n = int(rng.integers(1, 5000)); nt = int(rng.integers(1, 2))+int(rng.integers(150000, 600000))//n
            yield dict(kind='multibuffer', fid=int(rng.integers(1, 5)), n=n, nt=nt, seed=s(), lenname=10)

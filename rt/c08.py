"""C08: FLEX .res/.int and HAWC2 binary results.  Oracle: independent encoders."""
import os, struct
import numpy as np
from common import *

def flex(ver, raw, scl, tmin, dt, withdate):
    nt, n = raw.shape
    b = struct.pack('<i', 0)
    if withdate: b += struct.pack('<6i', 12, 3, 2012, 10, 30, 5)+b'title of file'.ljust(40)
    else: b += struct.pack('<i', 99)+b'a longer title of this file'.ljust(60)
    b += struct.pack('<2i', 0, 0)+struct.pack('<i', n)+struct.pack('<%di' % n, *range(1, n+1))+struct.pack('<i', 0)+struct.pack('<i', ver)
    b += struct.pack('<2f', tmin, dt)+np.asarray(scl, '<f4').tobytes()
    return b, (raw.T if ver == 3 else raw).astype('<i2').tobytes()

def sel(raw, scl, T, n, nt, names, units):
    L = ['_'*60, '  Version ID : test', ' Time : 0', ' Date : 0', '_'*60, '  Result file : x.dat', '_'*60, '   Scans    Channels    Time [sec]      Format',
         '%12d%12d%16.3f      BINARY' % (nt, n, T), '', '  Channel   Variable Description', '']
    for i in range(n): L.append('%-12d%-31s%-11s%s' % (i+1, names[i], units[i], 'desc %d' % i))
    L += ['_'*60, 'Scale factors:']
    L += ['%.7E' % s for s in scl]
    return '\n'.join(L)+'\n'

def run(case):
    r = rng_of(case)
    nt, n = case['nt'], case['n']
    raw = r.integers(-32768, 32768, size=(nt, n))
    if case.get('extreme') and nt: raw[0] = -32768; raw[-1] = 32767
    scl = (10**r.uniform(-4, 4, size=n)).astype('f4')
    if case.get('neg'): scl = scl*r.choice([-1, 1], size=n).astype('f4')
    if case['kind'].startswith('flex'):
        from weio.flex_out_file import FLEXOutFile
        tmin, dt = case['tmin'], case['dt']
        head, body = flex(case['ver'], raw, scl, tmin, dt, case['date'])
        p = scratch('a'+case.get('ext', '.res'))
        if case['kind'] == 'flexbad':
            open(p, 'wb').write(head+body+b'\1\2'*case['extra'] if case['extra'] > 0 else head+body[:2*case['extra']])
            if (n*nt+case['extra']) % n == 0: raise Skip()
            import weio
            raises(lambda: FLEXOutFile(p), msg='%d values for %d sensors' % (n*nt+case['extra'], n)); return
        open(p, 'wb').write(head+body)
        if case.get('sensor'):
            with open(os.path.join(os.path.dirname(p), 'sensor'), 'w') as f:
                f.write('Sensor list\n No forst offset korr. c Volt Unit Navn Beskrivelse\n')
                for i in range(n+(1 if case['sensor'] == 2 else 0)): f.write('%3d 1.000 0.000 1.00 0.00 %7s %-8s %s\n' % (i+1, '(kN)' if i % 2 else 'm/s', 'S%dx' % i, 'descr %d' % i))
            if case['sensor'] == 2:
                raises(lambda: FLEXOutFile(p), msg='inconsistent sensor file'); return
        o = FLEXOutFile(p)
        exp = raw.astype(float)*scl.astype(float)
        check(o.data.shape == (nt, n), 'data shape %s expected %s', o.data.shape, (nt, n))
        check(close(o.data, exp, 1e-6*np.abs(exp)), 'data %s', worst(o.data, exp, 1e-6*np.abs(exp)))
        et = float(np.float32(tmin))+float(np.float32(dt))*np.arange(nt)
        t = np.asarray(o.time, float).ravel()
        check(t.shape == (nt,), 'time has %s entries, %d samples', t.shape, nt)
        tt = 1e-6*(np.abs(et)+abs(dt))+1e-6*abs(tmin)
        check(close(t, et, tt), 'time %s', worst(t, et, tt))
        df = o.toDataFrame()
        names = ['S%04d' % (i+1) for i in range(n)] if not case.get('sensor') else ['S%dx' % i for i in range(n)]
        units = ['NA']*n if not case.get('sensor') else ['kN' if i % 2 else 'm/s' for i in range(n)]
        check(list(df.columns) == ['Time_[s]']+['%s_[%s]' % z for z in zip(names, units)], 'columns %s', list(df.columns))
        check(df.shape == (nt, n+1) and close(df.values[:, 1:], exp, 1e-6*np.abs(exp)) and close(df.values[:, 0], et, tt), 'data frame values')
        check(abs(o.tmin-np.float32(tmin)) == 0 and o.dt == np.float32(dt) and o.Version == case['ver'], 'tmin/dt/version %r %r %r', o.tmin, o.dt, o.Version)
    else:
        from weio.hawc2_dat_file import HAWC2DatFile
        from weio.wetb.hawc2.Hawc2io import ReadHawc2
        names = ['Ch%d' % i for i in range(n)]; units = [['m', 'kN', 'deg', '-'][i % 4] for i in range(n)]
        scl = np.array([float('%.7E' % s) for s in scl])
        base = scratch('h2'); open(base+'.sel', 'w').write(sel(raw, scl, nt*.1, n, nt, names, units))
        body = raw.T.astype('<i2').tobytes()
        if case['kind'] == 'hawcbad':
            cut = len(body)+case['cut']
            if not 0 < cut < len(body): raise Skip()
            open(base+'.dat', 'wb').write(body[:cut])
            raises(lambda: HAWC2DatFile(base+'.dat'), msg='data file with %d of %d bytes' % (cut, len(body)))
            raises(lambda: ReadHawc2(base).ReadBinary(), msg='ReadBinary, data file with %d of %d bytes' % (cut, len(body))); return
        open(base+'.dat', 'wb').write(body)
        exp = raw.astype(float)*scl
        for e in ('.dat', '.sel'):
            o = HAWC2DatFile(base+e)
            check(o.data.shape == (nt, n) and close(o.data, exp, 1e-12*np.abs(exp)), '%s: %s', e, worst(o.data, exp, 1e-12*np.abs(exp)))
            df = o.toDataFrame()
            check(list(df.columns) == ['%s_[%s]' % z for z in zip(names, units)], 'columns %s', list(df.columns))
            check(close(df.values, exp, 1e-12*np.abs(exp)), 'data frame values')
        R = ReadHawc2(base)
        chans = [int(x) for x in r.permutation(n)[:max(1, n//2)]]
        d = R.ReadBinary(list(chans))
        check(close(d, exp[:, chans], 1e-12*np.abs(exp[:, chans])), 'ReadBinary(%s): %s', chans, worst(d, exp[:, chans], 0))

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for nt, n in ((1, 1), (2, 1), (1, 3), (3, 2), (2, 5), (7, 7), (50, 3), (101, 20), (3, 64)):
        for ver in (0, 2, 3):
            for date in (0, 1):
                yield dict(kind='flex', nt=nt, n=n, ver=ver, date=date, tmin=float(rng.choice([0, 30.1, 600, -5.3, 0.05])), dt=float(rng.choice([.02, .1, 1/3, 1.])), seed=s(), neg=date, extreme=1-date, sensor=int(n % 2 == 1 and date), ext=['.res', '.int'][date])
        yield dict(kind='hawc', nt=nt, n=n, seed=s(), extreme=1, neg=1); yield dict(kind='hawc', nt=nt, n=n, seed=s())
        for cut in (-1, -2, -3, -4, 2-2*nt, 3-2*nt, 4-2*nt, -2*nt, 2-4*nt, 1-2*nt):
            if cut < 0: yield dict(kind='hawcbad', nt=nt, n=n, seed=s(), cut=cut)
        for ex in (1, -1, 2, -2, 3):
            for ver in (0, 2, 3): yield dict(kind='flexbad', nt=nt, n=n, ver=ver, date=ver % 2, tmin=0., dt=.1, seed=s(), extra=ex)
    yield dict(kind='flex', nt=5, n=4, ver=2, date=1, tmin=0., dt=.1, seed=s(), sensor=2)
    for _ in range(400 if tier == 'quick' else 10000):  # time vector
        yield dict(kind='flex', nt=int(rng.integers(1, 300)), n=1, ver=int(rng.choice([0, 2, 3])), date=1, tmin=float(np.round(rng.uniform(0, 1000), 2)), dt=float(rng.choice([.01, .02, .025, .04, .05, .1, .2, .3, 1/3])), seed=s())
    for _ in range(60 if tier == 'quick' else 2000):
        yield dict(kind='hawc', nt=int(rng.integers(1, 60)), n=int(rng.integers(1, 20)), seed=s(), neg=1)

"""C05: TurbSim .bts.  Oracle: independent encoder/decoder of the published layout."""
import struct
import numpy as np
from common import *
EPS = float(np.finfo('f4').eps)

def decode(b):
    ID, nz, ny, ntw, nt = struct.unpack_from('<h4i', b, 0)
    dz, dy, dt, uh, zh, zb = struct.unpack_from('<6f', b, 18)
    so = np.array(struct.unpack_from('<6f', b, 42)).reshape(3, 2)
    nch, = struct.unpack_from('<i', b, 66)
    o = 70+nch
    step = 3*ny*nz+3*ntw
    check(len(b) == o+2*step*nt, 'file has %d bytes, header announces %d', len(b), o+2*step*nt)
    raw = np.frombuffer(b, '<i2', step*nt, o).reshape(nt, step).astype(float)
    u = np.empty((3, nt, ny, nz)); tw = np.empty((3, nt, ntw))
    for k in range(3):
        s, f = so[k]
        for iz in range(nz):
            for iy in range(ny):
                u[k, :, iy, iz] = (raw[:, k+3*iy+3*ny*iz]-f)/s
        for j in range(ntw):
            tw[k, :, j] = (raw[:, 3*ny*nz+k+3*j]-f)/s
    return dict(ID=ID, dz=dz, dy=dy, dt=dt, uRef=uh, zRef=zh, zBottom=zb, info=b[70:o].decode(), u=u, uTwr=tw)

def encode(ID, raw, rawtw, dz, dy, dt, uh, zh, zb, scl, off, info):
    _, nt, ny, nz = raw.shape; ntw = rawtw.shape[2]
    out = [struct.pack('<h4i', ID, nz, ny, ntw, nt), struct.pack('<6f', dz, dy, dt, uh, zh, zb),
           struct.pack('<6f', scl[0], off[0], scl[1], off[1], scl[2], off[2]), struct.pack('<i', len(info)), info.encode()]
    for it in range(nt):
        for iz in range(nz):
            for iy in range(ny): out.append(raw[:, it, iy, iz].astype('<i2').tobytes())
        for j in range(ntw): out.append(rawtw[:, it, j].astype('<i2').tobytes())
    return b''.join(out)

def field(r, shape, kind):
    u = np.empty(shape)
    for k in range(3):
        kk = kind if isinstance(kind, str) else kind[k]
        if kk == 'normal': x = r.normal(size=shape[1:])*10**r.uniform(-2, 2)+(10 if k == 0 else 0)
        elif kk == 'const': x = np.full(shape[1:], float(r.normal()*10))
        elif kk == 'zero': x = np.zeros(shape[1:])
        elif kk == 'nearconst': x = 10+1e-3*r.normal(size=shape[1:])
        elif kk == 'verynear': x = 123.+1e-6*r.normal(size=shape[1:])
        elif kk == 'lsb': x = 8.*(1+1e-15*r.integers(0, 8, size=shape[1:]))
        elif kk == 'ramp': x = np.arange(np.prod(shape[1:])).reshape(shape[1:])*0.1-3
        elif kk == 'neg': x = -20-np.abs(r.normal(size=shape[1:]))
        elif kk == 'big': x = r.normal(size=shape[1:])*1e6
        u[k] = x
    return u

def tolerances(u, tw):
    """per component: one 1/65535 step of the range (constant: 1/65535 of 1... exact up to rounding) plus single-precision rounding"""
    t = []
    for k in range(3):
        a = np.concatenate([u[k].ravel(), tw[k].ravel()]); rg = a.max()-a.min(); m = np.abs(a).max()
        t.append((rg/65535*(1+1e-3) if rg > 0 else 0)+8*EPS*(m+rg)+(EPS*40000 if rg == 0 else 0))
    return np.array(t)

def cmp_fields(got, exp, tol, what):
    check(got.shape == exp.shape, '%s: shape %s expected %s', what, got.shape, exp.shape)
    tt = tol.reshape((3,)+(1,)*(exp.ndim-1))
    check(close(got, exp, tt), '%s: %s', what, worst(got, exp, np.broadcast_to(tt, exp.shape)))

def f32(x): return float(np.float32(x))

def run(case):
    from weio.turbsim_file import TurbSimFile
    r = rng_of(case)
    nt, ny, nz, ntw = case['nt'], case['ny'], case['nz'], case['ntw']
    dz, dy, dt, zb = [float(x) for x in (r.uniform(.5, 12), r.uniform(.5, 12), r.choice([.05, .1, .25, 1.]), r.uniform(1, 30))]
    p = scratch('b.bts')
    if case['kind'] in ('decode', 'trunc'):
        raw = r.integers(-32768, 32768, size=(3, nt, ny, nz)); rt = r.integers(-32768, 32768, size=(3, nt, ntw))
        scl = 10**r.uniform(-2, 4, size=3); off = r.normal(size=3)*1e4
        scl = scl.astype('f4'); off = off.astype('f4')
        info = 'info %d' % case['seed'] if case['seed'] % 3 else ''
        b = encode(case['seed'] % 2+7, raw, rt, dz, dy, dt, 9.5, 77.25, zb, scl, off, info)
        if case['kind'] == 'trunc':
            cut = case['cut'] if case['cut'] >= 0 else len(b)+case['cut']
            if not 0 < cut < len(b): raise Skip()
            open(p, 'wb').write(b[:cut]); raises(lambda: TurbSimFile(p), msg='truncated at %d of %d' % (cut, len(b))); return
        open(p, 'wb').write(b)
        ts = TurbSimFile(p)
        s4 = scl.astype(float)[:, None, None, None]; o4 = off.astype(float)[:, None, None, None]
        eu = (raw-o4)/s4; et = (rt-o4[..., 0])/s4[..., 0]
        check(ts['u'].shape == eu.shape and ts['uTwr'].shape == et.shape, 'shapes %s %s', ts['u'].shape, ts['uTwr'].shape)
        mag = 1e-5*np.maximum(np.abs(eu), np.abs(1/s4))+4*EPS*np.abs(o4/s4)
        check(close(ts['u'], eu, mag), 'decode: %s', worst(ts['u'], eu, mag))
        mt = 1e-5*np.maximum(np.abs(et), np.abs(1/s4[..., 0]))+4*EPS*np.abs((o4/s4)[..., 0])
        check(close(ts['uTwr'], et, mt), 'decode tower: %s', worst(ts['uTwr'], et, mt))
        check(ts['info'] == info and ts['ID'] == case['seed'] % 2+7, 'info/ID %r %r', ts['info'], ts['ID'])
        d = dict(ny=ny, nz=nz, nt=nt)
        for key, e in (('z', zb+f32(dz)*np.arange(nz)), ('y', f32(dy)*(np.arange(ny)-(ny-1)/2)), ('t', f32(dt)*np.arange(nt)), ('zTwr', zb-f32(dz)*np.arange(ntw))):
            check(close(ts[key], e, 1e-5*(1+np.abs(e).max() if e.size else 1)), 'axis %s: %s expected %s', key, ts[key], e)
        check(abs(ts['dt']-dt) < 1e-6 and abs(ts['zRef']-77.25) < 1e-5 and abs(ts['uRef']-9.5) < 1e-5, 'dt/zRef/uRef %r %r %r', ts['dt'], ts['zRef'], ts['uRef'])
        h = TurbSimFile(p, header_only=True)
        check('u' not in h and close(h['t'], ts['t'], 0), 'header_only')
        return
    ts = TurbSimFile()
    u = field(r, (3, nt, ny, nz), case['vals']); tw = field(r, (3, nt, ntw), case.get('tvals', case['vals']))
    if case.get('f32'): u = u.astype('f4'); tw = tw.astype('f4')
    ts['u'] = u.copy(); 
    if ntw or case['seed'] % 2: ts['uTwr'] = tw.copy()
    ts['z'] = zb+dz*np.arange(nz); ts['y'] = dy*(np.arange(ny)-(ny-1)/2); ts['t'] = dt*np.arange(nt)
    if case['seed'] % 3 == 0: ts['ID'] = 8
    if case['seed'] % 5 == 0: ts['zRef'] = 88.; ts['uRef'] = 9.
    ts.write(p)
    check(same(ts['u'], u), 'write changed the velocities in memory')
    if ntw: check(same(ts['uTwr'], tw), 'write changed the tower velocities in memory')
    tol = tolerances(u.astype(float), tw.astype(float))
    d = decode(open(p, 'rb').read())
    g = TurbSimFile(p)
    for what, D in (('bytes', d), ('read back', g)):
        cmp_fields(np.asarray(D['u']), u.astype(float), tol, what+' u'); cmp_fields(np.asarray(D['uTwr']), tw.astype(float), tol, what+' uTwr')
        check(D['ID'] == (8 if case['seed'] % 3 == 0 else 7), '%s ID %r', what, D['ID'])
    check(abs(d['dz']-dz) < 1e-5*dz*nz+1e-6*zb and abs(d['dy']-dy) < 1e-5*dy*ny and abs(d['dt']-dt) < 1e-6*(1+nt*dt) and abs(d['zBottom']-zb) < 1e-5*zb, 'spacing on disk %s', {k: d[k] for k in ('dz', 'dy', 'dt', 'zBottom')})
    for key in ('z', 'y', 't'):
        check(close(g[key], ts[key], 1e-5*(1+np.abs(ts[key]).max())), 'axis %s: %s expected %s', key, g[key], ts[key])
    check(g['zTwr'].shape == (ntw,), 'zTwr %s', g['zTwr'].shape)
    if case['seed'] % 5 == 0: check(abs(g['zRef']-88) < 1e-4 and abs(g['uRef']-9) < 1e-5, 'zRef,uRef')
    # a second generation loses at most one more step
    q = scratch('c.bts'); gu = np.array(g['u']); g.write(q); g2 = TurbSimFile(q)
    cmp_fields(np.asarray(g2['u']), gu, 2*tol, 'second generation')
    check(same(g['u'], gu), 'second write changed memory')

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 30))
    for nt, ny, nz, ntw in ((2, 2, 2, 0), (2, 3, 4, 0), (3, 2, 5, 2), (5, 4, 3, 1), (4, 5, 2, 7), (17, 3, 2, 3), (2, 2, 9, 0), (8, 6, 6, 0)):
        yield dict(kind='decode', nt=nt, ny=ny, nz=nz, ntw=ntw, seed=s())
        for v in ('normal', 'const', 'zero', 'nearconst', 'verynear', 'lsb', 'ramp', 'neg', 'big'):
            yield dict(kind='write', nt=nt, ny=ny, nz=nz, ntw=ntw, vals=v, seed=s())
        yield dict(kind='write', nt=nt, ny=ny, nz=nz, ntw=ntw, vals=['normal', 'const', 'nearconst'], tvals='normal', seed=s())
        yield dict(kind='write', nt=nt, ny=ny, nz=nz, ntw=ntw, vals=['nearconst', 'ramp', 'zero'], tvals='big', seed=s(), f32=1)
        yield dict(kind='write', nt=nt, ny=ny, nz=nz, ntw=ntw, vals='const', tvals='normal', seed=s())
    for nt, ny, nz in ((1, 1, 1), (1, 2, 3), (3, 1, 2), (0, 2, 2)):
        yield dict(kind='decode', nt=nt, ny=ny, nz=nz, ntw=ny-1, seed=s())
    for cut in list(range(1, 90, 3))+list(range(-80, 0)):
        yield dict(kind='trunc', nt=3, ny=2, nz=3, ntw=2, seed=5, cut=cut)
    for cut in list(range(-60, 0)):
        yield dict(kind='trunc', nt=4, ny=2, nz=2, ntw=0, seed=6, cut=cut)
    for _ in range(120 if tier == 'quick' else 4000):
        yield dict(kind='write', nt=int(rng.integers(2, 12)), ny=int(rng.integers(2, 8)), nz=int(rng.integers(2, 8)), ntw=int(rng.integers(0, 5)), vals=str(rng.choice(['normal', 'nearconst', 'ramp', 'neg', 'verynear'])), seed=s())

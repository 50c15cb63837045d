"""C07: axes, nearest-point queries and conversions of turbulence boxes."""
import numpy as np
from common import *

def nearest(axis, v):
    return int(np.argmin(np.abs(np.asarray(axis)-v))), float(np.min(np.abs(np.asarray(axis)-v)))

def box(r, nx, ny, nz): return r.normal(size=(nx, ny, nz)).astype('f4')

def axis_ok(a, n, d, what, start=None, centre=None):
    a = np.asarray(a, float)
    check(a.shape == (n,), '%s has %s points, field has %d', what, a.shape, n)
    sc = abs(d)*n+abs(start or 0)+abs(centre or 0)
    if n > 1: check(close(np.diff(a), np.full(n-1, float(d)), 1e-9*sc), '%s spacing %s expected %r', what, np.diff(a), d)
    if start is not None: check(abs(a[0]-start) <= 1e-9*sc, '%s starts at %r expected %r', what, a[0], start)
    if centre is not None: check(abs(a.mean()-centre) <= 1e-9*sc, '%s centred at %r expected %r', what, a.mean(), centre)

def run(case):
    from weio.mannbox_file import MannBoxFile
    from weio.turbsim_file import TurbSimFile
    r = rng_of(case)
    k = case['kind']
    nx, ny, nz = case['N']
    if k == 'axes':
        dy, dz = case['dy'], case['dz']; y0, z0, zM = case['y0'], case['z0'], case['zMid']
        F = box(r, nx, ny, nz)
        p = scratch('b.u'); open(p, 'wb').write(F[:, ::-1, :].tobytes())
        m = MannBoxFile(p, N=(nx, ny, nz), dy=dy, dz=dz, y0=y0, z0=z0, zMid=zM)
        axis_ok(m.y, ny, dy, 'y', start=y0, centre=0 if y0 is None else None)
        axis_ok(m.z, nz, dz, 'z', start=z0 if zM is None else None, centre=zM)
        for dx, U in ((1., 1.), (2.5, 10.), (1/3, 7.), (6.1, 8.3), (0.1, 3.)):
            axis_ok(m.t(dx, U), nx, dx/U, 't', start=0)
        Y, Z = np.array(m.y), np.array(m.z)
        keep = m['field'].copy()
        for _ in range(6):
            a, b = float(r.uniform(Y[0]-2*dy, Y[-1]+2*dy)), float(r.uniform(Z[0]-2*dz, Z[-1]+2*dz))
            iy, iz = m.closestPoint(a, b)
            check(abs(Y[iy]-a) <= nearest(Y, a)[1]+1e-12 and abs(Z[iz]-b) <= nearest(Z, b)[1]+1e-12, 'closestPoint(%r,%r)=%s', a, b, (iy, iz))
            check(same(m.valuesAt(a, b), F[:, nearest(Y, a)[0], nearest(Z, b)[0]]), 'valuesAt(%r,%r)', a, b)
        for iy in range(ny):
            for iz in range(nz):
                check(same(m.valuesAt(Y[iy], Z[iz]), F[:, iy, iz]), 'valuesAt grid point %d %d', iy, iz)
        z, mean, std = m.vertProfile
        jy = ny//2
        check(close(mean, F[:, jy, :].astype(float).mean(0), 1e-4) and close(std, F[:, jy, :].astype(float).std(0), 1e-4) and close(z, Z, 0), 'vertProfile')
        raises(lambda: m.valuesAt(0, 0, method='spline'), NotImplementedError, msg='unknown method')
        check(same(m['field'], keep), 'queries changed the field')
    elif k == 'tsquery':
        ts = TurbSimFile(); u = r.normal(size=(3, nx, ny, nz))+np.array([8, 0, 0]).reshape(3, 1, 1, 1)
        ts['u'] = u.copy(); dy, dz = case['dy'], case['dz']
        ts['y'] = dy*(np.arange(ny)-(ny-1)/2); ts['z'] = 5+dz*np.arange(nz); ts['t'] = .1*np.arange(nx)
        Y, Z = ts['y'], ts['z']
        pts = [(Y[i], Z[j]) for i in range(ny) for j in range(nz)]+[(float(r.uniform(Y[0]-2*dy, Y[-1]+2*dy)), float(r.uniform(Z[0]-2*dz, Z[-1]+2*dz))) for _ in range(6)]
        for a, b in pts:
            iy, iz = nearest(Y, a)[0], nearest(Z, b)[0]
            got = ts.valuesAt(a, b)
            check(len(got) == 3 and all(same(g, u[c, :, iy, iz]) for c, g in enumerate(got)), 'valuesAt(%r,%r)', a, b)
            ci = ts.closestPoint(a, b)
            check(tuple(int(x) for x in ci) == (iy, iz) or (abs(abs(Y[ci[0]]-a)-nearest(Y, a)[1]) < 1e-12 and abs(abs(Z[ci[1]]-b)-nearest(Z, b)[1]) < 1e-12), 'closestPoint(%r,%r)=%s expected %s', a, b, ci, (iy, iz))
            for rm in (False, True):
                hp = ts.horizontalPlane(z=b, removeMean=rm)
                vp = ts.verticalPlane(y=a, removeMean=rm)
                for c in range(3):
                    eh = u[c, :, :, iz]; ev = u[c, :, iy, :]
                    check(close(hp[c], eh-(eh.mean() if rm else 0), 1e-9), 'horizontalPlane(z=%r,removeMean=%s) component %d', b, rm, c)
                    check(close(vp[c], ev-(ev.mean() if rm else 0), 1e-9), 'verticalPlane(y=%r,removeMean=%s) component %d', a, rm, c)
        check(same(ts['u'], u), 'queries changed the field')
    elif k == 'frommann':
        u, v, w = box(r, nx, ny, nz), box(r, nx, ny, nz), box(r, nx, ny, nz)
        y = case['dy']*(np.arange(ny)-(ny-1)/2); z = 10.+case['dz']*np.arange(nz)
        dx, U = case['dx'], case['U']
        args = [a.copy() for a in (u, v, w, y, z)]
        ts = TurbSimFile()
        ts.fromMannBox(args[0], args[1], args[2], dx, U, args[3], args[4], addU=case['addU'])
        check(ts['u'].shape == (3, nx, ny, nz), 'shape %s', ts['u'].shape)
        add = 0 if case['addU'] is None else case['addU']
        for c, a in enumerate((u, v, w)):
            check(close(ts['u'][c], a.astype(float)+(add if c == 0 else 0), 1e-9*(1+abs(add))), 'fromMannBox component %d', c)
        axis_ok(ts['t'], nx, dx/U, 't', start=0)
        check(close(ts['y'], y, 0) and close(ts['z'], z, 0), 'fromMannBox axes')
        check(all(same(a, b) for a, b in zip(args, (u, v, w, y, z))), 'fromMannBox changed its arguments')
        if ny > 1:
            raises(lambda: TurbSimFile().fromMannBox(u, v, w, dx, U, y[::-1], z), msg='decreasing y')
    elif k == 'tomann':
        ts = TurbSimFile(); u = (r.normal(size=(3, nx, ny, nz))+np.array([9, 0, 0]).reshape(3, 1, 1, 1))
        ts['u'] = u.copy(); ts['y'] = 1.*np.arange(ny); ts['z'] = 1.*np.arange(nz); ts['t'] = .1*np.arange(nx)
        p = scratch('x.bts'); ts.filename = p
        kw = case['kw']
        base = scratch('conv') if case.get('base') else None
        ts.toMannBox(base=base, **kw)
        stem = (base or p[:-4])+'_%dx%dx%d' % (nx, ny, nz)
        for c, e in enumerate('uvw'):
            m = MannBoxFile(stem+'.'+e)
            exp = u[c]
            if c == 0 and kw.get('removeAllUMean'): exp = exp-exp.mean(axis=0)
            elif c == 0 and kw.get('removeUConstant') is not None: exp = exp-kw['removeUConstant']
            check(same(m['field'], exp.astype('f4')) or close(m['field'], exp, 2e-6*(1+np.abs(exp).max())), 'toMannBox .%s: %s', e, worst(m['field'], exp, 1e-6))
        check(same(ts['u'], u), 'toMannBox changed the velocities')
        # and back
        y = 1.*np.arange(ny)-(ny-1)/2; z = 1.*np.arange(nz)
        t2 = TurbSimFile(); t2.fromMannBox(*[MannBoxFile(stem+'.'+e)['field'] for e in 'uvw'], dx=1., U=10., y=y, z=z, addU=kw.get('removeUConstant'))
        if not kw.get('removeAllUMean'): check(close(t2['u'], u, 1e-5*(1+np.abs(u).max())), 'TurbSim->Mann->TurbSim')
    elif k == 'fromts':
        u = r.normal(size=(3, nx, ny, nz)); 
        for c in range(3):
            for kw in ({}, dict(removeConstant=3.5), dict(removeAllMean=True), dict(removeConstant=0.)):
                m = MannBoxFile(); ret = m.fromTurbSim(u, c, **kw)
                exp = u[c]
                if c == 0 and kw.get('removeAllMean'): exp = exp-exp.mean(axis=0)
                elif c == 0 and kw.get('removeConstant') is not None: exp = exp-kw['removeConstant']
                check(close(m['field'], exp, 1e-12), 'fromTurbSim component %d %s', c, kw)
                check(ret is m, 'fromTurbSim returns the object')
    elif k == 'periodic':
        ts = TurbSimFile(); u = r.normal(size=(3, nx, ny, nz)); tw = r.normal(size=(3, nx, case['ntw']))
        ts['u'] = u.copy(); ts['y'] = 1.*np.arange(ny); ts['z'] = 1.*np.arange(nz); ts['t'] = .1*np.arange(nx)
        if case['ntw'] >= 0 and case['tw']: ts['uTwr'] = tw.copy()
        ts.makePeriodic()
        nt = 2*nx-2
        exp = np.concatenate([u, u[:, 1:-1][:, ::-1]], axis=1)
        check(same(ts['u'], exp), 'makePeriodic u')
        axis_ok(ts['t'], nt, .1, 't', start=0)
        if case['tw']: check(same(ts['uTwr'], np.concatenate([tw, tw[:, 1:-1][:, ::-1]], axis=1)), 'makePeriodic tower')
        check(ts['ID'] == 8, 'periodic ID')

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    dims = [(1, 1, 1), (2, 2, 2), (3, 1, 2), (2, 3, 1), (2, 4, 7), (4, 5, 3), (3, 8, 16), (5, 32, 31), (2, 64, 33), (33, 3, 5)]
    sp = [1, 1., .1, 2.5, 1/3, 6.0, 0.7, 13.37, 4.9999]
    i = 0
    for N in dims:
        for y0 in (None, 0, -12.5, 100.):
            for z0, zM in ((0, None), (5.5, None), (0, 90.), (3., 0.)):
                i += 1
                yield dict(kind='axes', N=N, dy=sp[i % 9], dz=sp[(i*5+2) % 9], y0=y0, z0=z0, zMid=zM, seed=s())
        if min(N) > 0: yield dict(kind='tsquery', N=N if N[0] > 1 else (2, 2, 3), dy=sp[i % 9], dz=sp[(i+3) % 9], seed=s())
        for j, addU in enumerate((None, 0., 8.5)):
            yield dict(kind='frommann', N=N, dy=sp[(i+j) % 9], dz=sp[(i+j+1) % 9], dx=[1., .3, 2.][j], U=[10., 7., 9.9][j], addU=addU, seed=s())
        for kw in ({}, dict(removeUConstant=9.), dict(removeAllUMean=True), dict(removeUConstant=0.), dict(removeUConstant=2., removeAllUMean=True)):
            yield dict(kind='tomann', N=N, kw=kw, base=int(rng.integers(2)), seed=s())
        yield dict(kind='fromts', N=N, seed=s())
        if N[0] >= 2:
            for tw, ntw in ((0, 0), (1, 0), (1, 3)): yield dict(kind='periodic', N=N, ntw=ntw, tw=tw, seed=s())
    for _ in range(100 if tier == 'quick' else 3000):
        yield dict(kind='axes', N=[int(rng.integers(1, 4)), int(rng.integers(1, 200)), int(rng.integers(1, 12))], dy=float(rng.uniform(.01, 20)), dz=float(rng.uniform(.01, 20)), y0=[None, float(rng.uniform(-200, 200))][int(rng.integers(2))], z0=float(rng.uniform(0, 50)), zMid=[None, 77.][int(rng.integers(2))], seed=s())

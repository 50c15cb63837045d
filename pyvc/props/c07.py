"""Turbulence boxes: axes, point queries, conversions (weio/mannbox_file.py, weio/turbsim_file.py)."""
from ..core import *
from ..interp import *
MB = 'weio.mannbox_file:MannBoxFile'
TS = 'weio.turbsim_file:TurbSimFile'
BIG = 2**30
ASSUMPTIONS = ['spacings are positive; axis starts are at most 2**30 spacings from zero and axes have at most 2**30 points',
               'axis values are compared in exact arithmetic; the number of points accounts for floating point rounding',
               'the mean of an array is an uninterpreted function of its values, exact for evenly spaced values']

def mann(ctx, y0='sym', zmid='none', code='f4'):
    nx, ny, nz = [ctx.int(n, 1) for n in ('nx', 'ny', 'nz')]
    for n in (nx, ny, nz): ctx.assume(cmp('<=', n, BIG))
    F = ctx.array('F', (nx, ny, nz), code)
    dy, dz, z0 = ctx.real('dy'), ctx.real('dz'), ctx.real('z0')
    Y0 = None if y0 is None else ctx.real('y0'); zM = None if zmid == 'none' else ctx.real('zMid')
    for d in (dy, dz): ctx.assume(cmp('>', d, 0))
    for v, d in ((z0, dz),)+(((Y0, dy),) if Y0 is not None else ()):
        ctx.assume(cmp('<=', v, BIG*d)); ctx.assume(cmp('>=', v, -BIG*d))
    m = ctx.obj(MB, field=F, dy=dy, dz=dz, y0=Y0, z0=z0, zMid=zM); m.attrs['filename'] = None
    yax = (lambda j: Y0+j*dy) if Y0 is not None else (lambda j: (j-(ny-1)*0.5)*dy)
    zax = (lambda j: z0+j*dz) if zM is None else (lambda j: zM+(j-(nz-1)*0.5)*dz)
    return m, F, (nx, ny, nz), (dy, dz), yax, zax
def half(x): return arith('/', x, 2)

def axis(ctx, name, getv, n, spec, m, F):
    before = F.snap()
    def post(r, exc):
        if exc is not None: ctx.fail('the %s axis can be computed' % name, 'raises %r' % (exc.exc,)); return
        ctx.prove('the %s axis has as many points as the field' % name, r.ndim == 1 and tb(cmp('==', r.shape[0], n)))
        i = ctx.idx('i', n)
        ctx.prove('point i of the %s axis is at its start plus i spacings' % name, cmp('==', r.at(i), spec(i)))
        ctx.prove('the field is unchanged', m.payload['field'] is F)
    ctx.run(getv, post)

for nm, y0, zm in (('y-start', 'sym', 'none'), ('y-centred', None, 'none'), ('z-start', None, 'none'), ('z-centred', None, 'sym')):
    def mk(nm, y0, zm):
        @contract('mann-'+nm, ['MannBoxFile.'+nm[0]])
        def ax(ctx):
            m, F, N, D, yax, zax = mann(ctx, y0, zm)
            c = nm[0]
            axis(ctx, c, lambda: ctx.it.getattr(m, c), N[1] if c == 'y' else N[2], yax if c == 'y' else zax, m, F)
    mk(nm, y0, zm)

@contract('mann-t', ['MannBoxFile.t'])
def mann_t(ctx):
    m, F, N, D, yax, zax = mann(ctx)
    dx, U = ctx.real('dx'), ctx.real('U')
    ctx.assume(cmp('>', dx, 0)); ctx.assume(cmp('>', U, 0))
    axis(ctx, 't', lambda: ctx.call(ctx.it.getattr(m, 't'), dx, U), N[0], lambda i: i*(dx/U), m, F)

def nearest_ok(ctx, name, r, ny, nz, yax, zax, y, z):
    iy, iz = r
    ctx.prove('the indices are inside the grid', andb(cmp('>=', iy, 0), cmp('<', iy, ny), cmp('>=', iz, 0), cmp('<', iz, nz)))
    j, k = ctx.idx('j', ny), ctx.idx('k', nz)
    a = lambda v: abs(v)
    ctx.prove(name, cmp('<=', a(yax(iy)-y), a(yax(j)-y)), 'y'); ctx.prove(name, cmp('<=', a(zax(iz)-z), a(zax(k)-z)), 'z')

for y0, zm in (('sym', 'none'), (None, 'sym')):
    def mk2(y0, zm, tag):
        @contract('mann-closestPoint-'+tag, ['MannBoxFile.closestPoint', 'MannBoxFile.y', 'MannBoxFile.z'])
        def cp(ctx):
            m, F, N, D, yax, zax = mann(ctx, y0, zm); y, z = ctx.real('yq'), ctx.real('zq')
            def post(r, exc):
                if exc is not None: ctx.fail('the query succeeds', 'raises %r' % (exc.exc,)); return
                nearest_ok(ctx, 'no grid point is closer than the one returned', r, N[1], N[2], yax, zax, y, z)
            ctx.run(lambda: ctx.call(ctx.it.getattr(m, 'closestPoint'), y, z), post)
        @contract('mann-valuesAt-'+tag, ['MannBoxFile.valuesAt'])
        def va(ctx):
            """callee closestPoint replaced by its contract"""
            m, F, N, D, yax, zax = mann(ctx, y0, zm); y, z = ctx.real('yq'), ctx.real('zq'); before = F.snap()
            I, K = ctx.idx('iy', N[1]), ctx.idx('iz', N[2]); calls = []
            def stub(it, f, a, kw):
                calls.append((a, kw)); ctx.eng.log(None, calls.pop); return (I, K)
            ctx.it.contracts[MB+'.closestPoint'] = stub
            def post(r, exc):
                if exc is not None: ctx.fail('the query succeeds', 'raises %r' % (exc.exc,)); return
                if not calls: ctx.unknown('the series at the nearest grid point is returned', 'closestPoint is not called'); return
                ar = list(calls[-1][0][1:] if calls[-1][0] and calls[-1][0][0] is m else calls[-1][0])+[calls[-1][1][k] for k in ('y', 'z') if k in calls[-1][1]]
                ctx.prove('the requested point is looked up', len(ar) == 2 and andb(tb(equal(ar[0], y)), tb(equal(ar[1], z))))
                i = ctx.idx('i', N[0])
                ctx.prove('the series has one value per step', r.ndim == 1 and tb(cmp('==', r.shape[0], N[0])))
                ctx.prove('the series at the nearest grid point is returned', cmp('==', r.at(i), before((i, I, K))))
                ctx.prove('the field is unchanged', m.payload['field'] is F and tb(cmp('==', F.at(i, I, K), before((i, I, K)))))
            ctx.run(lambda: ctx.call(ctx.it.getattr(m, 'valuesAt'), y, z), post)
    mk2(y0, zm, 'start' if y0 else 'centred')

def tsbox(ctx, ntmin=1, tower=False):
    nt, ny, nz = ctx.int('nt', ntmin), ctx.int('ny', 1), ctx.int('nz', 1)
    for n in (nt, ny, nz): ctx.assume(cmp('<=', n, BIG))
    u = ctx.array('u', (3, nt, ny, nz), 'f8')
    y, z, t = ctx.array('yv', (ny,)), ctx.array('zv', (nz,)), ctx.array('tv', (nt,))
    ts = ctx.obj(TS, u=u, y=y, z=z, t=t); ts.attrs['filename'] = 'in.bts'
    if tower:
        ntw = ctx.int('ntw', 0); w = ctx.array('tw', (3, nt, ntw), 'f8'); ts.payload['uTwr'] = w
        return ts, u, (nt, ny, nz), (y, z, t), w, ntw
    return ts, u, (nt, ny, nz), (y, z, t)

@contract('turbsim-closestPoint', ['TurbSimFile.closestPoint'])
def ts_cp(ctx):
    ts, u, N, (ya, za, ta) = tsbox(ctx); y, z = ctx.real('yq'), ctx.real('zq')
    fy, fz = ya.snap(), za.snap()
    def post(r, exc):
        if exc is not None: ctx.fail('the query succeeds', 'raises %r' % (exc.exc,)); return
        nearest_ok(ctx, 'no grid point is closer than the one returned', r, N[1], N[2], lambda j: fy((j,)), lambda k: fz((k,)), y, z)
    ctx.run(lambda: ctx.call(ctx.it.getattr(ts, 'closestPoint'), y, z), post)

@contract('turbsim-valuesAt', ['TurbSimFile.valuesAt', 'TurbSimFile.closestPoint'])
def ts_va(ctx):
    ts, u, N, (ya, za, ta) = tsbox(ctx); y, z = ctx.real('yq'), ctx.real('zq'); before = u.snap(); fy, fz = ya.snap(), za.snap()
    I, K = ctx.idx('iy', N[1]), ctx.idx('iz', N[2]); calls = []
    def stub(it, f, a, kw):
        calls.append((a, kw)); ctx.eng.log(None, calls.pop); return (I, K)
    ctx.it.contracts[TS+'.closestPoint'] = stub
    def post(r, exc):
        if exc is not None: ctx.fail('the query succeeds', 'raises %r' % (exc.exc,)); return
        if not calls: ctx.unknown('the series at the nearest grid point are returned', 'closestPoint is not called'); return
        ar = list(calls[-1][0][1:] if calls[-1][0] and calls[-1][0][0] is ts else calls[-1][0])+[calls[-1][1][k] for k in ('y', 'z') if k in calls[-1][1]]
        ctx.prove('the requested point is looked up', len(ar) == 2 and andb(tb(equal(ar[0], y)), tb(equal(ar[1], z))))
        ctx.prove('one series per component', len(to_seq(r).items) == 3)
        i = ctx.idx('i', N[0])
        for c, s in enumerate(to_seq(r).items):
            ctx.prove('the series has one value per step', s.ndim == 1 and tb(cmp('==', s.shape[0], N[0])))
            ctx.prove('the series at the nearest grid point are returned', cmp('==', s.at(i), before((c, i, I, K))), 'component %d' % c)
    ctx.run(lambda: ctx.call(ctx.it.getattr(ts, 'valuesAt'), y, z), post)

# ------------------------------------------------------------------ conversions
for case in ('plain', 'constant', 'mean', 'v', 'w', 'v-constant', 'w-mean'):
    def mk3(case):
        @contract('fromTurbSim-'+case, ['MannBoxFile.fromTurbSim'])
        def fts(ctx):
            nt, ny, nz = ctx.int('nt', 1), ctx.int('ny', 1), ctx.int('nz', 1)
            u = ctx.array('u', (3, nt, ny, nz), 'f8'); before = u.snap(); c = ctx.real('c')
            m = ctx.obj(MB); m.attrs['filename'] = None
            comp = {'v': 1, 'w': 2}.get(case[0], 0)
            kw = dict(removeConstant=c) if 'constant' in case else dict(removeAllMean=True) if 'mean' in case else {}
            def post(r, exc):
                if exc is not None: ctx.fail('the conversion succeeds', 'raises %r' % (exc.exc,)); return
                F = m.payload['field']
                ctx.prove('the field has shape (nt,ny,nz)', len(F.shape) == 3 and andb(*[tb(cmp('==', a, b)) for a, b in zip(F.shape, (nt, ny, nz))]))
                i, j, k = ctx.idx('i', nt), ctx.idx('j', ny), ctx.idx('k', nz)
                e = before((comp, i, j, k))
                if comp == 0 and case == 'constant': e = e-c
                if comp == 0 and case == 'mean': e = e-nd.reduce_('mean', nd.new((nt, ny, nz), lambda x: before((0,)+tuple(x))), 0).at(j, k)
                ctx.prove('every value keeps its (time,y,z) index apart from the requested mean removal', cmp('==', F.at(i, j, k), e))
                ctx.prove('the TurbSim field is unchanged', cmp('==', u.at(comp, i, j, k), before((comp, i, j, k))))
                ctx.prove('the object is returned', r is m)
            ctx.run(lambda: ctx.call(ctx.it.getattr(m, 'fromTurbSim'), u, comp, **kw), post)
    mk3(case)

for add in (True, False):
    def mk4(add):
        @contract('fromMannBox'+('-add' if add else ''), ['TurbSimFile.fromMannBox'], budget=150)
        def fmb(ctx):
            nt, ny, nz = ctx.int('nt', 1), ctx.int('ny', 1), ctx.int('nz', 1)
            ctx.assume(cmp('<=', nt, BIG))
            B = [ctx.array(x, (nt, ny, nz), 'f4') for x in ('bu', 'bv', 'bw')]; before = [b.snap() for b in B]
            y, z = ctx.array('yv', (ny,)), ctx.array('zv', (nz,)); fy, fz = y.snap(), z.snap()
            dx, U, a = ctx.real('dx'), ctx.real('U'), ctx.real('addU')
            ctx.assume(cmp('>', dx, 0)); ctx.assume(cmp('>', U, 0))
            ts = ctx.obj(TS); ts.attrs['filename'] = None
            mono = cmp('<=', fy((0,)), fy((ny-1,)))
            ctx.it.contracts[TS+'.hubValues'] = lambda it, f, aa, kw: (ctx.real('zHub'), ctx.real('uHub'), False)
            def post(r, exc):
                if exc is not None:
                    ctx.prove('the conversion succeeds when y does not decrease', notb(mono), 'raises %r' % (exc.exc,)); return
                ctx.prove('a decreasing y axis is rejected', mono)
                u = ts.payload['u']
                ctx.prove('the field has shape (3,nt,ny,nz)', len(u.shape) == 4 and andb(*[tb(cmp('==', p, q)) for p, q in zip(u.shape, (3, nt, ny, nz))]))
                i, j, k = ctx.idx('i', nt), ctx.idx('j', ny), ctx.idx('k', nz)
                for c in range(3):
                    e = before[c]((i, j, k))
                    if add and c == 0: e = e+a
                    ctx.prove('every value keeps its (time,y,z) index apart from the requested addition', cmp('==', u.at(c, i, j, k), e), 'component %d' % c)
                    ctx.prove('the Mann boxes are unchanged', cmp('==', B[c].at(i, j, k), before[c]((i, j, k))))
                t = ts.payload['t']
                ctx.prove('one time per step', t.ndim == 1 and tb(cmp('==', t.shape[0], nt)))
                ctx.prove('time i is i*dx/U', cmp('==', t.at(i), i*(dx/U)))
                ctx.prove('the axes are those given', andb(tb(cmp('==', ts.payload['y'].at(j), fy((j,)))), tb(cmp('==', ts.payload['z'].at(k), fz((k,)))),
                          tb(cmp('==', ts.payload['y'].shape[0], ny)), tb(cmp('==', ts.payload['z'].shape[0], nz))))
            ctx.run(lambda: ctx.call(ctx.it.getattr(ts, 'fromMannBox'), B[0], B[1], B[2], dx, U, y, z, **(dict(addU=a) if add else {})), post)
    mk4(add)

for case in ('plain', 'constant', 'mean'):
    def mk5(case):
        @contract('toMannBox-'+case, ['TurbSimFile.toMannBox', 'MannBoxFile.fromTurbSim', 'MannBoxFile.write', 'MannBoxFile.__init__'])
        def tmb(ctx):
            ts, u, (nt, ny, nz), ax = tsbox(ctx); before = u.snap(); c = ctx.real('c')
            kw = dict(removeUConstant=c) if case == 'constant' else dict(removeAllUMean=True) if case == 'mean' else {}
            def post(r, exc):
                if exc is not None: ctx.fail('the conversion succeeds', 'raises %r' % (exc.exc,)); return
                outs = ctx.it.fs.outputs
                stem = 'box_{}x{}x{}'
                st = ctx.it.call(ctx.it.getattr(stem, 'format'), [nt, ny, nz], {})
                ctx.prove('three files are written', len(outs) == 3)
                names = [o.path for o in outs]
                i, j, k = ctx.idx('i', nt), ctx.idx('j', ny), ctx.idx('k', nz)
                for q, e in enumerate('uvw'):
                    w = [o for o in outs if equal_now(ctx, o.path, st+'.'+e)]
                    ctx.prove('one file per component, named after the dimensions', len(w) == 1, e)
                    if len(w) != 1: continue
                    v = before((q, i, j, k))
                    if q == 0 and case == 'constant': v = v-c
                    if q == 0 and case == 'mean': v = v-nd.reduce_('mean', nd.new((nt, ny, nz), lambda x: before((0,)+tuple(x))), 0).at(j, k)
                    ctx.prove('the file has 4*nt*ny*nz bytes', cmp('==', libs.segsize(w[0].segs), 4*nt*ny*nz))
                    ctx.prove('every value is stored at its (time,y,z) place apart from the requested mean removal',
                              cmp('==', libs.locate(w[0].segs, 'f4', 4*(i*ny*nz+(ny-1-j)*nz+k)), nd.f32(v)), e)
                    ctx.prove('the TurbSim field is unchanged', cmp('==', u.at(q, i, j, k), before((q, i, j, k))))
            ctx.run(lambda: ctx.call(ctx.it.getattr(ts, 'toMannBox'), base='box', **kw), post)
    mk5(case)
def equal_now(ctx, a, b):
    r = tb(equal(a, b))
    return r if isinstance(r, bool) else ctx.eng.implied(zb(r))

for tower in (False, True):
    def mk6(tower):
        @contract('makePeriodic'+('-tower' if tower else ''), ['TurbSimFile.makePeriodic'])
        def mp(ctx):
            x = tsbox(ctx, 2, tower)
            ts, u, (nt, ny, nz), (ya, za, ta) = x[:4]; before = u.snap(); ft = ta.snap()
            ts.payload['ID'] = 7
            def post(r, exc):
                if exc is not None: ctx.fail('making a box periodic succeeds', 'raises %r' % (exc.exc,)); return
                def chk(a, f, last, what):
                    m = 2*nt-2
                    ctx.prove('the %s have 2*nt-2 steps' % what, cmp('==', a.shape[1], m))
                    ctx.prove('the other dimensions of the %s are unchanged' % what, len(a.shape) == len(last)+2 and andb(tb(cmp('==', a.shape[0], 3)), *[tb(cmp('==', p, q)) for p, q in zip(a.shape[2:], last)]))
                    i = ctx.idx('i', nt); rest = tuple(ctx.idx('r', n) for n in last)
                    for c in range(3):
                        ctx.prove('the original steps of the %s are unchanged' % what, cmp('==', a.at(c, i, *rest), f((c, i)+rest)))
                    s = ctx.idx('s', nt-2)
                    for c in range(3):
                        ctx.prove('the reversed interior of the %s is appended' % what, cmp('==', a.at(c, nt+s, *rest), f((c, nt-2-s)+rest)))
                T_ = ts.payload['t']; ctx.prove('one time per step', T_.ndim == 1 and tb(cmp('==', T_.shape[0], 2*nt-2)))
                q = ctx.idx('q', 2*nt-2)
                ctx.prove('the time step is kept', cmp('==', T_.at(q), q*(ft((1,))-ft((0,)))))
                ctx.prove('the box is marked periodic', tb(equal(ts.payload['ID'], 8)))
                if tower: chk_tower = x[4].snap()
                try: chk(ts.payload['u'], before, (ny, nz), 'velocities')
                except Infeasible: pass
                if tower: chk(ts.payload['uTwr'], x[4].stor.fn if False else wf, (x[5],), 'tower velocities')
            wf = x[4].snap() if tower else None
            ctx.run(lambda: ctx.call(ctx.it.getattr(ts, 'makePeriodic')), post)
    mk6(tower)

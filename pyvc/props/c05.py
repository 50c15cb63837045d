"""TurbSim full-field files (weio/turbsim_file.py)."""
from ..core import *
TS = 'weio.turbsim_file:TurbSimFile'

def header(ctx, f, tower):
    ID = f.item('i2', 0)
    nz, ny, nTwr, nt = [f.item('i4', o) for o in (2, 6, 10, 14)]
    dz, dy, dt, uHub, zHub, zBot = [f.item('f4', 18+4*i) for i in range(6)]
    scl = [f.item('f4', 42+8*i) for i in range(3)]; off = [f.item('f4', 46+8*i) for i in range(3)]
    nChar = f.item('i4', 66)
    for v in (nz, ny, nt): ctx.eng.bound(v, 1)
    ctx.eng.bound(nTwr, 0); ctx.eng.bound(nChar, 0)
    for s in scl: ctx.assume(cmp('!=', s, 0))
    ctx.assume(cmp('==', nTwr, 0) if not tower else cmp('>', nTwr, 0))
    return ID, nz, ny, nTwr, nt, dz, dy, dt, uHub, zHub, zBot, scl, off, nChar

def read_contract(ctx, tower):
    size = ctx.int('size', 1); f = ctx.infile('a.bts', size)
    ID, nz, ny, nTwr, nt, dz, dy, dt, uHub, zHub, zBot, scl, off, nChar = header(ctx, f, tower)
    per = 6*(ny*nz+nTwr); H = 70+nChar
    ts = ctx.obj(TS); ts.attrs['filename'] = None
    def post(r, exc):
        if exc is not None:
            ctx.prove('a complete file is accepted', cmp('<', size, H+nt*per), 'raises %r' % (exc.exc,)); return
        D = ts.payload
        ctx.prove('a truncated file is rejected', cmp('>=', size, H+nt*per))
        ctx.prove('shape of u', andb(*[tb(cmp('==', a, b)) for a, b in zip(D['u'].shape, (3, nt, ny, nz))]) if len(D['u'].shape) == 4 else False)
        ctx.prove('shape of uTwr', andb(*[tb(cmp('==', a, b)) for a, b in zip(D['uTwr'].shape, (3, nt, nTwr))]) if len(D['uTwr'].shape) == 3 else False)
        it, iy, iz = ctx.idx('it', nt), ctx.idx('iy', ny), ctx.idx('iz', nz)
        for c in range(3):
            ctx.prove('u[c,t,y,z] = (stored - offset)/slope, component fastest, then y, then z, then time',
                      cmp('==', D['u'].at(c, it, iy, iz), (f.item('i2', H+it*per+2*(c+3*(iy+ny*iz)))-off[c])/scl[c]), 'component %d' % c)
        if tower:
            iw = ctx.idx('iw', nTwr)
            for c in range(3):
                ctx.prove('uTwr[c,t,k] = (stored - offset)/slope, after the grid of its time step',
                          cmp('==', D['uTwr'].at(c, it, iw), (f.item('i2', H+it*per+6*ny*nz+2*(c+3*iw))-off[c])/scl[c]), 'component %d' % c)
            ctx.prove('tower heights go down from the bottom', cmp('==', D['zTwr'].at(iw), zBot-dz*iw))
        ctx.prove('z axis', andb(tb(cmp('==', D['z'].shape[0], nz)), tb(cmp('==', D['z'].at(iz), zBot+dz*iz))))
        ctx.prove('t axis', andb(tb(cmp('==', D['t'].shape[0], nt)), tb(cmp('==', D['t'].at(it), dt*it))))
        ctx.prove('y axis, centred', andb(tb(cmp('==', D['y'].shape[0], ny)), tb(cmp('==', D['y'].at(iy), dy*iy-dy*(ny-1)/2))))
        ctx.prove('identifier, time step and reference values', andb(*[tb(equal(D[k], v)) for k, v in (('ID', ID), ('dt', dt), ('zRef', zHub), ('uRef', uHub))]))
        ctx.prove('the name is remembered', ts.attrs['filename'] == 'a.bts')
    ctx.run(lambda: ctx.call(ctx.it.getattr(ts, 'read'), 'a.bts'), post)

@contract('read', ['TurbSimFile.read'])
def read(ctx): read_contract(ctx, False)
@contract('read-tower', ['TurbSimFile.read'])
def read_tower(ctx): read_contract(ctx, True)

EPS = 2.0**-23
def state(ctx, tower, ref, extra=True):
    nt, ny, nz = ctx.int('nt', 2), ctx.int('ny', 2), ctx.int('nz', 2)
    nTwr = ctx.int('nTwr', 1) if tower else 0
    u = ctx.array('u', (3, nt, ny, nz)); D = dict(u=u, y=ctx.array('y', (ny,)), z=ctx.array('z', (nz,)), t=ctx.array('t', (nt,)))
    if tower: D['uTwr'] = ctx.array('uTwr', (3, nt, nTwr))
    if ref:
        D['zRef'] = ctx.real('zRef'); D['uRef'] = ctx.real('uRef'); D['ID'] = ctx.int('ID', -32768, 32767)
    for n in (nt, ny, nz): ctx.assume(cmp('<=', n, 2**31-1))
    if tower: ctx.assume(cmp('<=', nTwr, 2**31-1))
    ts = ctx.obj(TS, **D); ts.attrs['filename'] = None
    return nt, ny, nz, nTwr, D, ts

def write_contract(ctx, tower, ref):
    nt, ny, nz, nTwr, D, ts = state(ctx, tower, ref)
    snap = {k: v.snap() for k, v in D.items() if isinstance(v, nd.Arr)}
    def post(r, exc):
        if exc is not None: ctx.fail('writing a valid field succeeds', 'raises %r' % (exc.exc,)); return
        outs = ctx.it.fs.outputs
        ctx.prove('one file is written, under the given name', len(outs) == 1 and outs[0].path == 'o.bts')
        sg = outs[0].segs
        def at(code, o): return libs.locate(sg, code, o)
        try:
            head = [at('i2', 0)]+[at('i4', o) for o in (2, 6, 10, 14, 66)]
            fl = [at('f4', 18+4*i) for i in range(12)]
            nChar = head[5]; per = 6*(ny*nz+nTwr); H = 70+nChar
            it, iy, iz = ctx.idx('it', nt), ctx.idx('iy', ny), ctx.idx('iz', nz)
            V = [at('i2', H+it*per+2*(c+3*(iy+ny*iz))) for c in range(3)]
            if tower: iw = ctx.idx('iw', nTwr); W = [at('i2', H+it*per+6*ny*nz+2*(c+3*iw)) for c in range(3)]
        except libs.LayoutError as e:
            ctx.layout('the bytes follow the published layout', e); return
        ctx.prove('the bytes follow the published layout', True)
        ctx.prove('header: identifier', cmp('==', head[0], D['ID'] if ref else 7))
        ctx.prove('header: nz, ny, nTwr, nt', andb(*[tb(cmp('==', a, b)) for a, b in zip(head[1:5], (nz, ny, nTwr, nt))]))
        ctx.prove('file size', cmp('==', libs.segsize(sg), H+nt*per))
        ctx.prove('header: dz, dy, dt, zBottom in single precision', andb(*[tb(cmp('==', a, nd.f32(b))) for a, b in ((fl[0], snap['z']((1,))-snap['z']((0,))), (fl[1], snap['y']((1,))-snap['y']((0,))), (fl[2], snap['t']((1,))-snap['t']((0,))), (fl[5], snap['z']((0,))))]))
        if ref: ctx.prove('header: reference speed and height', andb(tb(cmp('==', fl[3], nd.f32(D['uRef']))), tb(cmp('==', fl[4], nd.f32(D['zRef'])))))
        for c in range(3):
            scaling(ctx, c, fl[6+2*c], fl[7+2*c], V[c], snap['u']((c, it, iy, iz)), D['u'], D['uTwr'] if tower else None, 'the stored integer decodes to the velocity within one step of the range')
            if tower: scaling(ctx, c, fl[6+2*c], fl[7+2*c], W[c], snap['uTwr']((c, it, iw)), D['u'], D['uTwr'], 'the stored integer decodes to the tower velocity within one step of the range')
        ctx.prove('the fields in memory are unchanged', andb(*[tb(cmp('==', ts.payload[k].at(*ix), snap[k](ix))) for k, ix in [('u', (c, it, iy, iz)) for c in range(3)]+([('uTwr', (c, it, iw)) for c in range(3)] if tower else [])]))
    ctx.run(lambda: ctx.call(ctx.it.getattr(ts, 'write'), 'o.bts'), post)

def scaling(ctx, c, S, O, v, x, u, tw, name):
    A = u.view((c, slice(None), slice(None), slice(None))).min(); B = u.view((c, slice(None), slice(None), slice(None))).max()
    if tw is not None:
        a = tw.view((c, slice(None), slice(None))); a, b = a.min(), a.max()
        A = ite(cmp('<', a, A), a, A); B = ite(cmp('>', b, B), b, B)
    def ab(q): return ite(cmp('>=', q, 0), q, 0-q)
    ctx.prove('the extreme values bound every element', andb(tb(cmp('<=', A, x)), tb(cmp('<=', x, B))))
    R = B-A
    hyp = [cmp('<=', A, x), cmp('<=', x, B)]
    for case, h in (('constant', [cmp('==', A, B)]), ('varying', [cmp('<', A, B), cmp('>', R, 1e-30), cmp('<', R, 1e30)])):
        pre = andb(*[tb(y) for y in h])
        tol = R/65535*1.001+8*EPS*(ab(A)+ab(B)) if case == 'varying' else 8*EPS*(ab(A)+ab(B))+EPS*40000
        ctx.prove(name+' (slope positive)', orb(notb(pre), cmp('>', S, 0)), hyps=hyp+h)
        ctx.prove(name, orb(notb(pre), andb(tb(cmp('<=', v-O-x*S, tol*S)), tb(cmp('>=', v-O-x*S, 0-tol*S)))), 'component %d, %s' % (c, case), hyps=hyp+h)

@contract('write', ['TurbSimFile.write', 'TurbSimFile.hubValues'])
def write(ctx): write_contract(ctx, False, True)
@contract('write-tower', ['TurbSimFile.write', 'TurbSimFile.hubValues'])
def write_tower(ctx): write_contract(ctx, True, True)
@contract('write-noref', ['TurbSimFile.write', 'TurbSimFile.hubValues'])
def write_noref(ctx): write_contract(ctx, False, False)

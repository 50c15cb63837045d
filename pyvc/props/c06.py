"""Mann turbulence boxes (weio/mannbox_file.py)."""
from ..core import *
MB = 'weio.mannbox_file:MannBoxFile'
ASSUMPTIONS = ['box dimensions are positive integers']

def dims(ctx): return ctx.int('nx', 1), ctx.int('ny', 1), ctx.int('nz', 1)

@contract('read', ['MannBoxFile.read'])
def read(ctx):
    nx, ny, nz = dims(ctx)
    size = ctx.int('size', 4*1)
    f = ctx.infile('box.u', size)
    mb = ctx.obj(MB); mb.attrs['filename'] = None
    dy, dz, z0 = ctx.real('dy'), ctx.real('dz'), ctx.real('z0')
    def post(r, exc):
        if exc is not None:
            ctx.prove('a file with exactly enough values is accepted', cmp('!=', size, 4*nx*ny*nz), 'raises %r' % (exc.exc,)); return
        ctx.prove('a file with too few values is rejected', cmp('>=', size, 4*nx*ny*nz))
        F = mb.payload['field']
        ctx.prove('field has shape (nx,ny,nz)', len(F.shape) == 3 and andb(*[tb(cmp('==', a, b)) for a, b in zip(F.shape, (nx, ny, nz))]))
        i, j, k = ctx.idx('i', nx), ctx.idx('j', ny), ctx.idx('k', nz)
        ctx.prove('field[i,j,k] is the stored float with z fastest, then decreasing y, then x',
                  cmp('==', F.at(i, j, k), f.item('f4', 4*(i*ny*nz+(ny-1-j)*nz+k))))
        ctx.prove('stored in single precision', F.code == 'f4')
        ctx.prove('spacings and origin are remembered', andb(tb(equal(mb.payload['dy'], dy)), tb(equal(mb.payload['dz'], dz)), tb(equal(mb.payload['z0'], z0))))
        ctx.prove('the name is remembered', mb.attrs['filename'] == 'box.u')
    ctx.run(lambda: ctx.call(ctx.it.getattr(mb, 'read'), 'box.u', N=(nx, ny, nz), dy=dy, dz=dz, z0=z0), post)

@contract('write', ['MannBoxFile.write'])
def write(ctx):
    nx, ny, nz = dims(ctx)
    U = ctx.array('U', (nx, ny, nz), 'f4')
    before = U.snap()
    mb = ctx.obj(MB, field=U); mb.attrs['filename'] = None
    def post(r, exc):
        if exc is not None: ctx.fail('writing a box succeeds', 'raises %r' % (exc.exc,)); return
        outs = ctx.it.fs.outputs
        ctx.prove('one file is written, under the given name', len(outs) == 1 and outs[0].path == 'out.u')
        segs = outs[0].segs
        ctx.prove('the file has 4*nx*ny*nz bytes', cmp('==', libs.segsize(segs), 4*nx*ny*nz))
        i, j, k = ctx.idx('i', nx), ctx.idx('j', ny), ctx.idx('k', nz)
        ctx.prove('the float at 4*(i*ny*nz+(ny-1-j)*nz+k) is field[i,j,k]',
                  cmp('==', libs.locate(segs, 'f4', 4*(i*ny*nz+(ny-1-j)*nz+k)), before((i, j, k))))
        ctx.prove('the field in memory is unchanged', cmp('==', U.at(i, j, k), before((i, j, k))))
    ctx.run(lambda: ctx.call(ctx.it.getattr(mb, 'write'), 'out.u'), post)

@contract('write-double', ['MannBoxFile.write'])
def write_double(ctx):
    """a field held in double precision is stored rounded to single precision"""
    nx, ny, nz = dims(ctx)
    U = ctx.array('U', (nx, ny, nz), 'f8')
    before = U.snap()
    mb = ctx.obj(MB, field=U); mb.attrs['filename'] = 'out.u'
    def post(r, exc):
        if exc is not None: ctx.fail('writing a box succeeds', 'raises %r' % (exc.exc,)); return
        segs = ctx.it.fs.outputs[-1].segs
        ctx.prove('the file has 4*nx*ny*nz bytes', cmp('==', libs.segsize(segs), 4*nx*ny*nz))
        i, j, k = ctx.idx('i', nx), ctx.idx('j', ny), ctx.idx('k', nz)
        ctx.prove('the float stored is field[i,j,k] in single precision', cmp('==', libs.locate(segs, 'f4', 4*(i*ny*nz+(ny-1-j)*nz+k)), nd.f32(before((i, j, k)))))
    ctx.run(lambda: ctx.call(ctx.it.getattr(mb, 'write')), post)

@contract('round-trip', ['MannBoxFile.write', 'MannBoxFile.read'])
def roundtrip(ctx):
    nx, ny, nz = dims(ctx)
    U = ctx.array('U', (nx, ny, nz), 'f4')
    before = U.snap()
    mb = ctx.obj(MB, field=U); mb.attrs['filename'] = None
    m2 = ctx.obj(MB); m2.attrs['filename'] = None
    def body():
        ctx.call(ctx.it.getattr(mb, 'write'), 'out.u'); ctx.publish()
        ctx.call(ctx.it.getattr(m2, 'read'), 'out.u', N=(nx, ny, nz))
    def post(r, exc):
        if exc is not None: ctx.fail('write then read succeeds', 'raises %r' % (exc.exc,)); return
        F = m2.payload['field']
        ctx.prove('same shape', len(F.shape) == 3 and andb(*[tb(cmp('==', a, b)) for a, b in zip(F.shape, (nx, ny, nz))]))
        i, j, k = ctx.idx('i', nx), ctx.idx('j', ny), ctx.idx('k', nz)
        ctx.prove('same values', cmp('==', F.at(i, j, k), before((i, j, k))))
    ctx.run(body, post)

@contract('name', ['MannBoxFile.read'])
def name(ctx):
    """dimensions taken from the last three integers of the file name (for every name)"""
    fname = ctx.str('fname')
    size = ctx.int('size', 4)
    f = ctx.infile(fname, size)
    base = libs.uf_s('splitext_root', libs.uf_s('basename', fname))
    cnt = libs.findall_n(r'\d+', base)
    def num(q): return mkint(z3.Function('int_of_text', libs.S, libs.Z)(z3.Function('findall', libs.S, libs.S, libs.Z, libs.S)(zs(r'\d+'), base.t, zi(q))))
    N = [num(cnt-3), num(cnt-2), num(cnt-1)]
    ctx.weak_ok = {'basename', 'splitext', 'findall', 'int_of_text', 'is_int_text'}
    ctx.assume(cmp('!=', fname, ''))
    for v in N: ctx.eng.bound(v, 1)
    mb = ctx.obj(MB); mb.attrs['filename'] = None
    ctx.eng.axiom_hooks['is_int_text'] = lambda t: [t]      # re \d+ matches are integer texts
    def post(r, exc):
        if exc is not None:
            ctx.prove('three integers and enough values are accepted', orb(cmp('<', cnt, 3), cmp('!=', size, 4*N[0]*N[1]*N[2])), 'raises %r' % (exc.exc,)); return
        ctx.prove('fewer than three integers are rejected', cmp('>=', cnt, 3))
        F = mb.payload['field']
        ctx.prove('the dimensions are the last three integers of the name', len(F.shape) == 3 and andb(*[tb(cmp('==', a, b)) for a, b in zip(F.shape, N)]))
    ctx.run(lambda: ctx.call(ctx.it.getattr(mb, 'read'), fname), post)

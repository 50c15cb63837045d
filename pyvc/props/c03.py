"""OpenFAST binary output files (weio/fast_output_file.py: load_binary_output)."""
from ..core import *
MOD = 'weio.fast_output_file:load_binary_output'
ASSUMPTIONS = ['slopes are not zero and slopes/offsets are not NaN', 'counts in the header are non-negative, with at least one channel and one time step']

def header(ctx, f, ID):
    """layout of the file: offsets of everything, from the published format description"""
    o = 2; H = {}
    if ID == 4: H['len'] = f.item('i2', 2); ctx.eng.bound(H['len'], 1); o = 4
    else: H['len'] = 10
    nc, nt = f.item('i4', o), f.item('i4', o+4); o += 8
    ctx.eng.bound(nc, 1); ctx.eng.bound(nt, 1)
    H['t0'], H['t1'] = f.item('f8', o), f.item('f8', o+8); o += 16
    if ID != 3:
        H['scl'] = o; H['off'] = o+4*nc; o = o+8*nc
    nd_ = f.item('i4', o); ctx.eng.bound(nd_, 0); H['ndesc'] = nd_; H['desc'] = o+4; o = o+4+nd_
    H['names'] = o; o = o+H['len']*(nc+1)
    H['units'] = o; o = o+H['len']*(nc+1)
    if ID == 1: H['time'] = o; o = o+4*nt
    H['data'] = o; w = 8 if ID == 3 else 2
    H['end'] = o+w*nt*nc
    return nc, nt, H

def reader(ctx, ID, buf):
    size = ctx.int('size', 1); f = ctx.infile('a.outb', size)
    fid = f.item('i2', 0)
    ctx.assume(cmp('==', fid, ID))
    nc, nt, H = header(ctx, f, ID)
    nobj = ctx.idx('c', nc)      # arbitrary channel
    if ID != 3:
        q = z3.Int('anyc'); ctx.eng.assume_t(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(nc)), zb(cmp('!=', f.item('f4', H['scl']+4*mkint(q)), 0)))))
    if ID == 1: ctx.assume(cmp('!=', H['t0'], 0))
    w, code = (8, 'f8') if ID == 3 else (2, 'i2')
    def post(r, exc):
        if exc is not None:
            ctx.prove('a complete file is accepted', cmp('<', size, H['end']), 'raises %r' % (exc.exc,)); return
        data, info = to_seq(r).items if not isinstance(r, tuple) else r
        ctx.prove('a truncated file is rejected', cmp('>=', size, H['end']))
        ctx.prove('one row per time step, one column per channel and one for time', len(data.shape) == 2 and andb(tb(cmp('==', data.shape[0], nt)), tb(cmp('==', data.shape[1], nc+1))))
        i, c = ctx.idx('i', nt), nobj
        sc = f.item('f4', H['scl']+4*c) if ID != 3 else 1.0; of = f.item('f4', H['off']+4*c) if ID != 3 else 0.0
        ctx.prove('value = (stored - offset)/slope', cmp('==', data.at(i, c+1), (f.item(code, H['data']+w*(i*nc+c))-of)/sc))
        tim = (f.item('i4', H['time']+4*i)-H['t1'])/H['t0'] if ID == 1 else H['t0']+H['t1']*i
        ctx.prove('time column', cmp('==', data.at(i, 0), tim))
        ctx.prove('table in double precision', data.code == 'f8')
        j = ctx.idx('j', nc+1); L = H['len']
        for key, base, cut in (('attribute_names', H['names'], False), ('attribute_units', H['units'], True)):
            lst = to_seq(info[key])
            ctx.prove(key+': one per column', cmp('==', lst.size(), nc+1))
            t = libs.FileBytes(f, base+L*j, L).decode().strip()
            if cut: t = ctx.it.getitem(t, slice(1, -1))
            ctx.prove(key+': taken from their place in the header, in file order', cmp('==', lst.get(j), t))
        ctx.prove('file identifier reported', cmp('==', info['fileID'], ID))
    ctx.run(lambda: ctx.call(ctx.get(MOD), 'a.outb', use_buffer=buf), post)

def mk(ID, buf):
    @contract('id%d-%s' % (ID, 'buffered' if buf else 'plain'), ['load_binary_output'])
    def c(ctx): reader(ctx, ID, buf)
for ID in (1, 2, 3, 4):
    for buf in (True, False): mk(ID, buf)

@contract('unknown-id', ['load_binary_output'])
def unknown(ctx):
    size = ctx.int('size', 1); f = ctx.infile('a.outb', size)
    fid = f.item('i2', 0)
    for k in (1, 2, 3, 4): ctx.assume(cmp('!=', fid, k))
    def post(r, exc): ctx.prove('an unknown identifier is rejected', exc is not None)
    ctx.run(lambda: ctx.call(ctx.get(MOD), 'a.outb'), post)
unknown.no_cover = True

"""FLEX results (weio/flex_out_file.py) and HAWC2 binary results (weio/wetb/hawc2/Hawc2io.py, weio/hawc2_dat_file.py)."""
from ..core import *
FX = 'weio.flex_out_file:'
H2 = 'weio.wetb.hawc2.Hawc2io:ReadHawc2'
ASSUMPTIONS = ['FLEX: at least one sensor', 'scale factors are numbers (not NaN)']

def flex_layout(f):
    """byte positions in a FLEX result file: dummy, 6 date integers + 40 characters (or 1 integer + 60 characters), 2 dummies, sensor count, sensor numbers, dummy, version, start, step, scales"""
    n = f.item('i4', 76); o = 80+4*n+4
    return n, dict(version=o, tmin=o+4, dt=o+8, scale=o+12, data=o+12+4*n)

def flexres(ctx, version, whole):
    f = ctx.infile('a.res', 84)
    n, P = flex_layout(f)
    ctx.eng.bound(n, 1)
    v = f.item('i4', P['version']); ctx.assume(cmp('==', v, version))
    nt = ctx.int('nt', 0)                        # whole time steps
    if whole: f.size = P['data']+2*(nt*n)
    else:
        rest = ctx.int('rest', 1); ctx.assume(cmp('<', rest, n))
        f.size = P['data']+2*(nt*n+rest)
    return f, n, nt, P

def scaled(ctx, f, P, n, nt, version, i, c):
    raw = f.item('i2', P['data']+2*(c*nt+i if version == 3 else i*n+c))
    return raw*f.item('f4', P['scale']+4*c)

def mk(version):
    @contract('flex-v%d' % version, ['read_flex_res'])
    def c(ctx):
        f, n, nt, P = flexres(ctx, version, True)
        def post(r, exc):
            if exc is not None: ctx.fail('a complete file is accepted', 'raises %r' % (exc.exc,)); return
            r = to_seq(r).items if not isinstance(r, tuple) else r
            data, tmin, dt, ver = r[:4]
            ctx.prove('one row per sample, one column per sensor', len(data.shape) == 2 and andb(tb(cmp('==', data.shape[0], nt)), tb(cmp('==', data.shape[1], n))))
            i, c = ctx.idx('i', nt), ctx.idx('c', n)
            ctx.prove('value = stored value * scale of its own sensor, in single precision',
                      cmp('==', data.at(i, c), nd.f32(scaled(ctx, f, P, n, nt, version, i, c))))
            ctx.prove('start time, time step and version are those of the header', andb(tb(cmp('==', tmin, f.item('f4', P['tmin']))), tb(cmp('==', dt, f.item('f4', P['dt']))), tb(cmp('==', ver, version))))
        ctx.run(lambda: ctx.call(ctx.get(FX+'read_flex_res'), 'a.res'), post)
    @contract('flex-v%d-incomplete' % version, ['read_flex_res'])
    def d(ctx):
        f, n, nt, P = flexres(ctx, version, False)
        def post(r, exc): ctx.prove('a number of values that is not a multiple of the number of sensors is rejected', exc is not None)
        ctx.run(lambda: ctx.call(ctx.get(FX+'read_flex_res'), 'a.res'), post)
    d.no_cover = True
for v in (0, 2, 3): mk(v)

@contract('flex-object', ['FLEXOutFile._read', 'read_flex_sensor_fake'])
def flexobj(ctx):
    """FLEXOutFile._read on top of read_flex_res (replaced by its contract)"""
    nt, n = ctx.int('nt', 0), ctx.int('n', 1)
    D = ctx.array('D', (nt, n), 'f4'); before = D.snap()
    tmin, dt = nd.f32(ctx.real('tmin')), nd.f32(ctx.real('dt'))
    ctx.it.contracts[FX+'read_flex_res'] = lambda it, fn, a, k: (D, nd_scalar(tmin), nd_scalar(dt), 2, 0, b'')
    o = ctx.obj(FX+'FLEXOutFile'); o.attrs['filename'] = 'd/a.res'
    def post(r, exc):
        if exc is not None: ctx.fail('reading succeeds without sensor file', 'raises %r' % (exc.exc,)); return
        t = o.attrs['time']
        ctx.prove('the time vector has exactly one entry per sample', cmp('==', nd.prod(t.shape), nt))
        i = ctx.idx('i', nt)
        e = tmin+i*dt
        ctx.prove('time[i] = start + i*step', andb(tb(cmp('<=', t.at(i, 0), e+TOL(tmin, i, dt))), tb(cmp('>=', t.at(i, 0), e-TOL(tmin, i, dt)))))
        ctx.prove('the data are the ones of the reader', o.attrs['data'] is D)
        c = ctx.idx('c', n)
        ctx.prove('the data are unchanged', cmp('==', D.at(i, c), before((i, c))))
        s = o.attrs['sensors']
        for k in ('ID', 'Name', 'Unit'): ctx.prove('one %s per sensor' % k, cmp('==', to_seq(s[k]).size(), n))
        ctx.prove('sensors are numbered from one', cmp('==', to_seq(s['ID']).get(c), c+1))
    ctx.run(lambda: ctx.call(ctx.it.getattr(o, '_read')), post)

def nd_scalar(v): return v
def TOL(tmin, i, dt):
    return (abs(tmin)+abs(i*dt))*2.0**-22+2.0**-140

@contract('hawc2-binary', ['ReadHawc2.ReadBinary'])
def h2(ctx):
    nc, nt = ctx.int('nc', 1), ctx.int('nt', 0)
    size = ctx.int('size', 0); f = ctx.infile('h2.dat', size)
    S = ctx.array('S', (nc,), 'f8')
    o = ctx.obj(H2); o.attrs.update(FileName='h2', NrCh=nc, NrSc=nt, ScaleFactor=S, FileFormat='HAWC2_BINARY')
    def post(r, exc):
        if exc is not None:
            ctx.prove('a complete data file is accepted', cmp('<', size, 2*nt*nc), 'raises %r' % (exc.exc,)); return
        ctx.prove('a data file shorter than announced is rejected', cmp('>=', size, 2*nt*nc))
        ctx.prove('one row per scan, one column per channel', len(r.shape) == 2 and andb(tb(cmp('==', r.shape[0], nt)), tb(cmp('==', r.shape[1], nc))))
        i, c = ctx.idx('i', nt), ctx.idx('c', nc)
        ctx.prove('value = stored value * scale of its own channel (channel-major)', cmp('==', r.at(i, c), f.item('i2', 2*(c*nt+i))*S.at(c)))
    ctx.run(lambda: ctx.call(ctx.it.getattr(o, 'ReadAll')), post)

@contract('hawc2-selection', ['ReadHawc2.ReadBinary'])
def h2sel(ctx):
    nc, nt, m = ctx.int('nc', 1), ctx.int('nt', 0), ctx.int('m', 1)
    size = ctx.int('size', 0); f = ctx.infile('h2.dat', size)
    ctx.assume(cmp('>=', size, 2*nt*nc))
    S = ctx.array('S', (nc,), 'f8')
    o = ctx.obj(H2); o.attrs.update(FileName='h2', NrCh=nc, NrSc=nt, ScaleFactor=S, FileFormat='HAWC2_BINARY')
    ch = z3.Function('chan', z3.IntSort(), z3.IntSort())
    q = z3.Int('q'); ctx.eng.assume_t(z3.ForAll([q], z3.And(ch(q) >= 0, ch(q) < zi(nc))))
    sel = SList(segs=[Seg(m, lambda k: mkint(ch(zi(k))))])
    def post(r, exc):
        if exc is not None: ctx.fail('selected channels can be read', 'raises %r' % (exc.exc,)); return
        ctx.prove('one column per selected channel', len(r.shape) == 2 and andb(tb(cmp('==', r.shape[0], nt)), tb(cmp('==', r.shape[1], m))))
        i, c = ctx.idx('i', nt), ctx.idx('c', m); k = mkint(ch(zi(c)))
        ctx.prove('value = stored value * scale of the selected channel', cmp('==', r.at(i, c), f.item('i2', 2*(k*nt+i))*S.at(k)))
    ctx.run(lambda: ctx.call(ctx.it.getattr(o, 'ReadBinary'), sel), post)

@contract('hawc2-sel', ['ReadHawc2._ReadSelFile', 'ReadHawc2.__init__'])
def h2s(ctx):
    """the header file: counts, format, names, units and one scale factor per channel from their fixed lines"""
    ctx.weak_ok = {'float_of_text', 'is_float_text', 'int_of_text', 'is_int_text', 'split_ws', 'split_ws_n', 'lower'}
    nl = ctx.int('nlines', 0); LINE = z3.Function('LINE', z3.IntSort(), z3.StringSort())
    L = lambda i: SymStr(LINE(zi(i)))
    ctx.intext('h2.sel', nl, L); ctx.infile('h2.dat', ctx.int('size', 0))
    low = ctx.call(ctx.ghost("def g(l): return l.lower()"), L(0))
    ctx.assume(notb(low.sym_contains('bhawc')))
    G = ctx.ghost("""
        def g(l8, li, ls):
            w = l8.split()
            return int(w[0]), int(w[1]), float(w[2]), w[3], str(li[12:43]).strip(), str(li[43:54]).strip(), str(li[54:-1]).strip(), float(ls)
        """)
    o = ctx.obj(H2)
    def post(r, exc):
        if exc is not None: return          # a malformed header is rejected
        a = o.attrs
        nc = a['NrCh']
        i = ctx.idx('i', nc)
        ctx.assume(cmp('>=', nl, 14+2*nc))      # every announced line is there
        binary = equal(a['FileFormat'], 'HAWC2_BINARY')
        def inner():
            return ctx.call(G, L(8), L(i+12), L(i+14+nc))
        def ok(res, e):
            if e is not None: ctx.prove('only well-formed headers are accepted (binary format)', notb(tb(binary))); return
            n, m, T_, fmt, nm, un, ds, sc = res if isinstance(res, tuple) else to_seq(res).items
            ctx.prove('number of scans and channels', andb(tb(equal(a['NrSc'], n)), tb(equal(nc, m))))
            ctx.prove('the format word decides the format', tb(cmp('==', tb(binary), tb(equal(ctx.call(ctx.ghost("def g(l): return l.lower()"), fmt), 'binary')))))
            ch = to_seq(a['ChInfo']).items
            for x, e2, what in zip(ch, (nm, un, ds), ('name', 'unit', 'description')):
                ctx.prove('one %s per channel' % what, cmp('==', to_seq(x).size(), nc))
                ctx.prove('%s from its own columns and line' % what, equal(to_seq(x).get(i), e2))
            if truth(binary): ctx.prove('scale factor of its own channel', cmp('==', a['ScaleFactor'].at(i), sc))
        ctx.eng.explore(inner, lambda r2, e2, *_: ok(r2, e2))
    ctx.run(lambda: ctx.call(ctx.it.getattr(o, '__init__'), 'h2.dat'), post)

@contract('hawc2-object', ['HAWC2DatFile._read'])
def h2o(ctx):
    """HAWC2DatFile._read returns the table of ReadHawc2.ReadAll (replaced by its contract) with its names, units and descriptions"""
    nc, nt = ctx.int('nc', 1), ctx.int('nt', 0)
    D = ctx.array('D', (nt, nc), 'f8'); before = D.snap()
    ctx.infile('h2.dat', ctx.int('size', 1)); marks = []
    def init(it, fn, a, k):
        a[0].attrs.update(FileFormat='HAWC2_BINARY', ChInfo=SList(['NAMES', 'UNITS', 'DESCR']), FileName='h2'); marks.append(a[1])
        return None
    ctx.it.contracts[H2+'.__init__'] = init
    ctx.it.contracts[H2+'.ReadAll'] = lambda it, fn, a, k: D
    def post(r, exc):
        if exc is not None: ctx.fail('reading succeeds', 'raises %r' % (exc.exc,)); return
        o = r
        ctx.prove('the reader is given the file name', len(marks) > 0 and marks[-1] == 'h2.dat')
        i, c = ctx.idx('i', nt), ctx.idx('c', nc)
        d = o.attrs['data']
        ctx.prove('table as read', andb(tb(cmp('==', d.shape[0], nt)), tb(cmp('==', d.shape[1], nc)), tb(cmp('==', d.at(i, c), before((i, c))))))
        inf = o.attrs['info']
        ctx.prove('names, units and descriptions as read', inf['attribute_names'] == 'NAMES' and inf['attribute_units'] == 'UNITS' and inf['attribute_descr'] == 'DESCR')
    ctx.run(lambda: ctx.call(ctx.get('weio.hawc2_dat_file:HAWC2DatFile'), 'h2.dat'), post)
    with_failure(ctx)

def with_failure(ctx):
    """a reader that raises (e.g. short data file) is never swallowed"""
    def bad(it, fn, a, k): T.ENG.pyraise(Exception('short'))
    ctx.it.contracts[H2+'.ReadAll'] = bad
    ctx.run(lambda: ctx.call(ctx.get('weio.hawc2_dat_file:HAWC2DatFile'), 'h2.dat'),
            lambda r, exc: ctx.prove('a failure of the reader surfaces', exc is not None), cover=False)

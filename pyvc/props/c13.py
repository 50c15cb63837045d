"""Bladed results (weio/bladed_out_file.py)."""
from ..core import *
from ..interp import *
from ..pdmodel import DF
M = 'weio.bladed_out_file:'
S_ = z3.StringSort()
ASSUMPTIONS = ['the sensor file parser read_bladed_sensor_file is replaced by its result (number of sections, channels, samples, names, units, time axis); its parsing is bounded (run-time contracts)',
    'np.loadtxt returns the numbers of the text file row by row', 'glob.glob returns the matching files in any order', 'column labels of a data set are pairwise different (repeated labels are dropped by design)']
def names(ctx, nm, n):
    f = z3.Function(nm, z3.IntSort(), S_); return (lambda j: SymStr(f(zi(j)))), SList(segs=[Seg(n, lambda j: SymStr(f(zi(j))))])
def st(ctx, s, t): return ctx.it.binop('+', s, t)
def same_list(ctx, what, lst, n, want):
    """lst is the list of n elements want(k)"""
    ctx.prove(what, cmp('==', lst.size(), n), 'number of entries')
    k = ctx.idx('k', n)
    ctx.prove(what, equal(lst.get(k), want(k)))

def sensor_info(ctx, nd, secs, tag='', ns=None, time=True):
    nt, ns, nc = ctx.int('nMajor'+tag, 1), ctx.int('nSections'+tag, 1) if nd == 3 else 1, ctx.int('nSensors'+tag, 1)
    nf, nl = names(ctx, 'chan'+tag, nc); uf, ul = names(ctx, 'unit'+tag, nc)
    if nd == 2: sl, sf = SList([]), None
    elif secs == 'num':
        sl = ctx.array('sec'+tag, (ns,)); g = sl.snap(); sf = lambda k: g((k,))
    else: sf, sl = names(ctx, 'sec'+tag, ns)
    info = dict(NDIMENS=nd, nSensors=nc, nMajor=nt, nSections=ns, SectionList=sl, Precision=ctx.it.libs['numpy'].d['float64'], category='Cat'+tag, ChannelName=nl, ChannelUnit=ul)
    if time: info['MIN'] = ctx.real('MIN'+tag); info['STEP'] = ctx.real('STEP'+tag)
    return info, nt, ns, nc, nf, uf, sf
def sec_label(ctx, secs, sv, chan):
    """expected label of (section, channel)"""
    if secs == 'num':
        r = nd.round_(sv, 2)
        return st(ctx, st(ctx, ctx.call(ctx.it.builtins['str'], r), 'm-'), chan)
    return st(ctx, st(ctx, sv, '-'), chan)

for nd_, secs in ((3, 'num'), (3, 'text'), (2, None)):
    def mk(nd_, secs):
        @contract('flatten-%d%s' % (nd_, '-'+secs if secs else ''), ['OrgData'])
        def flatten(ctx):
            info, nt, ns, nc, nf, uf, sf = sensor_info(ctx, nd_, secs)
            if secs == 'text':
                # member names are not numbers
                ctx.it.contracts  # (no callee)
                ctx.eng.axiom_hooks['is_float_text'] = lambda t: [z3.Not(t)]
            D = ctx.array('data', (nt, ns, nc) if nd_ == 3 else (nt, nc)); d0 = D.snap()
            f = ctx.get(M+'OrgData')
            def body(): return ctx.it.call(f, [D], dict(info))
            def post(r, exc):
                if exc is not None: ctx.fail('no exception', repr(exc)); return
                data, inf = r
                if nd_ == 2:
                    ctx.prove('two-dimensional results are returned as stored', data is D and not D.stor.written())
                    same_list(ctx, 'channel names are kept', to_seq(inf['ChannelName']), nc, nf); same_list(ctx, 'channel units are kept', to_seq(inf['ChannelUnit']), nc, uf)
                    return
                ctx.prove('one column per section and channel', len(data.shape) == 2 and andb(cmp('==', data.shape[0], nt), cmp('==', data.shape[1], ns*nc)))
                i, s, c = ctx.idx('i', nt), ctx.idx('s', ns), ctx.idx('c', nc)
                ctx.prove('column s*nChannels+c holds the series of (section s, channel c)', cmp('==', data.at(i, s*nc+c), d0((i, s, c))))
                ln, lu = to_seq(inf['ChannelName']), to_seq(inf['ChannelUnit'])
                ctx.prove('one name and one unit per column', andb(cmp('==', ln.size(), ns*nc), cmp('==', lu.size(), ns*nc)))
                ctx.prove('its name carries that section and channel', equal(ln.get(s*nc+c), sec_label(ctx, secs, sf(s), nf(c))))
                ctx.prove('its unit is the unit of that channel', equal(lu.get(s*nc+c), uf(c)))
                ctx.prove('the stored values are not modified', not D.stor.written())
            ctx.run(body, post)
    mk(nd_, secs)

def stub(ctx, name, f): ctx.it.contracts[name] = f
def flat_value(d0, nd_, s, c): return None
for nd_, secs in ((3, 'num'), (3, 'text'), (2, None)):
    for kind in ('binary', 'text'):
        def mk(nd_, secs, kind):
            @contract('read-%d%s-%s' % (nd_, '-'+secs if secs else '', kind), ['read_bladed_output', 'OrgData'])
            def read(ctx):
                info, nt, ns, nc, nf, uf, sf = sensor_info(ctx, nd_, secs)
                if secs == 'text': ctx.eng.axiom_hooks['is_float_text'] = lambda t: [z3.Not(t)]
                only = ctx.bool('readTimeFilesOnly')
                seen = []
                def sens(it, fn, a, k): seen[:] = [a[0]]; return dict(info)
                stub(ctx, M+'read_bladed_sensor_file', sens)
                stub(ctx, 'weio.file:isBinary', lambda it, fn, a, k: kind == 'binary')
                if kind == 'binary':
                    f = ctx.infile('d/run.$04', 8*nt*ns*nc)
                    val = lambda i, s, c: f.item('f8', 8*((i*ns+s)*nc+c))
                else:
                    D = ctx.array('lines', (nt*ns, nc)); d0 = D.snap()
                    val = lambda i, s, c: d0((i*ns+s, c))
                    def loadtxt(path, ndmin=0, **kw):
                        if kw: raise Unsupported('options of loadtxt')
                        if path != 'd/run.$04': raise PyRaise(FileNotFoundError(path))
                        if ndmin == 2: return D
                        if ndmin != 0: raise Unsupported('ndmin')
                        # numpy drops the dimensions of size one
                        r1, c1 = truth(cmp('==', D.shape[0], 1)), truth(cmp('==', nc, 1))
                        if r1 and c1: return D.reshape()
                        if r1 or c1: return D.reshape(nt*ns*nc)
                        return D
                    ctx.it.libs['numpy'].d['loadtxt'] = Builtin(loadtxt, 'np.loadtxt')
                g = ctx.get(M+'read_bladed_output')
                def post(r, exc):
                    if exc is not None: ctx.fail('no exception', repr(exc)); return
                    data, inf = r
                    ctx.prove('the sensor file is the one asked for', seen == ['d/run.%04'])
                    ctx.prove('shape: one row per time, one column per (section, channel)', len(data.shape) == 2 and andb(cmp('==', data.shape[0], nt), cmp('==', data.shape[1], ns*nc)))
                    i, s, c = ctx.idx('i', nt), (ctx.idx('s', ns) if nd_ == 3 else 0), ctx.idx('c', nc)
                    ctx.prove('column (section s, channel c) holds the numbers the file stores for it', cmp('==', data.at(i, s*nc+c), val(i, s, c)))
                    ln, lu = to_seq(inf['ChannelName']), to_seq(inf['ChannelUnit'])
                    ctx.prove('one name and one unit per column', andb(cmp('==', ln.size(), ns*nc), cmp('==', lu.size(), ns*nc)))
                    ctx.prove('its name carries that section and channel', equal(ln.get(s*nc+c), sec_label(ctx, secs, sf(s), nf(c)) if nd_ == 3 else nf(c)))
                    ctx.prove('its unit is the unit of that channel', equal(lu.get(s*nc+c), uf(c)))
                ctx.run(lambda: ctx.it.call(g, ['d/run.%04', only], {}), post)
        mk(nd_, secs, kind)
for nd_ in (2, 3):
    def mk(nd_):
        @contract('read-%d-truncated' % nd_, ['read_bladed_output'])
        def trunc(ctx):
            info, nt, ns, nc, nf, uf, sf = sensor_info(ctx, nd_, 'num')
            stub(ctx, M+'read_bladed_sensor_file', lambda it, fn, a, k: dict(info))
            stub(ctx, 'weio.file:isBinary', lambda it, fn, a, k: True)
            n = ctx.int('numbers', 0); ctx.assume(cmp('!=', n, nt*ns*nc))
            ctx.infile('d/run.$04', 8*n)
            ctx.run(lambda: ctx.call(ctx.get(M+'read_bladed_output'), 'd/run.%04'), lambda r, exc: ctx.prove('a binary file of another size than announced is refused', exc is not None), cover=False)
        trunc.no_cover = True
    mk(nd_)
@contract('time-files-only', ['read_bladed_output'])
def timeonly(ctx):
    info, *_ = sensor_info(ctx, 2, None, time=False)
    stub(ctx, M+'read_bladed_sensor_file', lambda it, fn, a, k: dict(info))
    ctx.run(lambda: ctx.call(ctx.get(M+'read_bladed_output'), 'd/run.%04', True), lambda r, exc: ctx.prove('a file without time axis is left out of the collection', exc is None and isinstance(r[0], SList) and len(r[0].items) == 0))

FILES = {1: ['d/run.%04'], 2: ['d/run.%15', 'd/run.%04'], 3: ['d/run.%06', 'd/run.%04', 'd/run.%15']}
for nf_ in (1, 2, 3):
    def mk(nf_):
        @contract('project-%d' % nf_, ['BladedFile._read', 'BladedFile.toDataFrame'], budget=200)
        def project(ctx):
            parts = {}
            for j, fn in enumerate(sorted(FILES[nf_])):
                nt, nc = ctx.int('nt%d' % j, 1), ctx.int('nc%d' % j, 1)
                nm, nl = names(ctx, 'chan%d' % j, nc); um, ul = names(ctx, 'unit%d' % j, nc)
                D = ctx.array('D%d' % j, (nt, nc))
                parts[fn] = dict(j=j, nt=nt, nc=nc, nm=nm, nl=nl, um=um, ul=ul, D=D, d0=D.snap(), t0=ctx.real('t0_%d' % j), dt=ctx.real('dt_%d' % j), time=ctx.bool('time%d' % j))
            asked = []
            def reader(it, fn, a, k):
                p = parts[a[0]]; only = k.get('readTimeFilesOnly', a[1] if len(a) > 1 else False)
                info = dict(nMajor=p['nt'], category='Cat%d' % p['j'], ChannelName=p['nl'].copy(), ChannelUnit=p['ul'].copy())
                p['has'] = truth(p['time'])
                if p['has']: info['MIN'] = p['t0']; info['STEP'] = p['dt']
                elif truth(only): return SList([]), {}
                return p['D'], info
            stub(ctx, M+'read_bladed_output', reader)
            def glob(pat):
                asked.append(pat); return SList(list(FILES[nf_]))
            ctx.it.libs['glob'] = ModelModule('glob', dict(glob=Builtin(glob, 'glob.glob')))
            ctx.it.distinct_labels = lambda l: True
            o = ctx.obj(M+'BladedFile'); o.attrs['filename'] = 'd/run.$PJ' if nf_ > 1 else 'd/run.$04'
            def body():
                ctx.it.call(ctx.it.getattr(o, '_read'), [], {})
                return ctx.it.call(ctx.it.getattr(o, 'toDataFrame'), [], {})
            def post(r, exc):
                if exc is not None: ctx.fail('no exception', repr(exc)); return
                ps = [p for fn, p in sorted(parts.items()) if nf_ == 1 or p['has']]
                # groups of equal length, in file order (the path fixes which lengths are equal)
                groups = []
                for p in ps:
                    for g in groups:
                        if truth(cmp('==', g[0]['nt'], p['nt'])): g.append(p); break
                    else: groups.append([p])
                many = [g for g in groups if len(g) > 1]
                if len(many) == 1: groups = many          # documented simplification
                dfs = list(r.values()) if isinstance(r, dict) else [r]
                ctx.prove('one table per series length', len(dfs) == len(groups))
                if len(dfs) != len(groups): return
                for g, df in zip(groups, dfs):
                    A = df.values(); lab = df.labels()
                    t = 1 if g[0]['has'] else 0
                    ctx.prove('one row per time', cmp('==', A.shape[0], g[0]['nt']))
                    ctx.prove('all channels of the files of that length, and no others', andb(cmp('==', A.shape[1], sum([p['nc'] for p in g], t)), cmp('==', lab.size(), A.shape[1])))
                    i = ctx.idx('i', g[0]['nt'])
                    if t:
                        ctx.prove('the first column is the time MIN + i*STEP', cmp('==', A.at(i, 0), g[0]['t0']+i*g[0]['dt']))
                        ctx.prove('and is called Time [s]', equal(lab.get(0), 'Time [s]'))
                    for p in g:
                        c = ctx.idx('c%d' % p['j'], p['nc'])
                        ctx.prove('a channel keeps its values, in file order', cmp('==', A.at(i, t+c), p['d0']((i, c))))
                        ctx.prove('a channel is labelled with its own name and unit', equal(lab.get(t+c), st(ctx, st(ctx, st(ctx, p['nm'](c), ' ['), p['um'](c)), ']')))
                        t = t+p['nc']
                for p in ps: ctx.prove('what was read is not modified', not p['D'].stor.written())
            ctx.run(body, post)
    mk(nf_)

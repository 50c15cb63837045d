"""OpenFAST binary writer (weio/fast_output_file.py: writeBinary, writeDataFrame)."""
from ..core import *
from .. import strs, pdmodel, nd
from ..interp import to_seq, SList, Seg
M = 'weio.fast_output_file:'
ASSUMPTIONS = ['channel names have at most 10 characters and units at most 8, in the 8-bit character set', 'at least two time steps and one channel besides time',
               'range of every channel is zero or between 1e-30 and 1e30, magnitudes below 1e30',
               'labels of a data frame: name and unit are non-empty words without blanks, the unit without brackets, the name without underscore (and without brackets where there is no unit)']
EPS = 2.0**-23
Z, S = z3.IntSort(), z3.StringSort()

def text_list(ctx, name, n, maxlen):
    """list of n strings of at most maxlen 8-bit characters"""
    F = z3.Function(name, Z, S); q, k = z3.Ints('q k')
    CH = lambda i, j: libs.b_ord(SymStr(z3.Function('charat', S, Z, S)(F(i), j)))
    ctx.eng.assume_t(z3.ForAll([q], z3.Length(F(q)) <= maxlen))
    ctx.eng.assume_t(z3.ForAll([q, k], z3.And(zi(CH(q, k)) >= 0, zi(CH(q, k)) <= 255)))
    get = lambda i: SymStr(F(zi(i)))
    return SList(segs=[Seg(n, get)]), get

def table(ctx):
    nT, nC = ctx.int('nT', 2, 2**31-1), ctx.int('nC', 1, 2**31-2)
    X = ctx.array('X', (nT, nC+1))
    names, NAME = text_list(ctx, 'NAME', nC+1, 10)
    units, UNIT = text_list(ctx, 'UNIT', nC+1, 8)
    return nT, nC, X, names, NAME, units, UNIT
def char(s, k): return libs.b_ord(libs.char_of(s, k))

@contract('write', ['writeBinary'])
def write(ctx):
    nT, nC, X, names, NAME, units, UNIT = table(ctx)
    ctx.assume(equal(NAME(0), 'Time'))
    j = z3.Int('j')
    ctx.eng.assume_t(z3.ForAll([j], z3.Not(z3.PrefixOf(z3.StringVal('('), UNIT(mkint(j)).t))))
    before = X.snap()
    def post(r, exc):
        if exc is not None: ctx.fail('writing a valid table succeeds', 'raises %r' % (exc.exc,)); return
        outs = ctx.it.fs.outputs
        ctx.prove('one file is written, under the given name', len(outs) == 1 and outs[0].path == 'o.outb')
        sg = outs[0].segs
        i, c, q, k = ctx.idx('i', nT), ctx.idx('c', nC), ctx.idx('q', nC+1), ctx.idx('k', 10)
        try:
            at = lambda code, o: libs.locate(sg, code, o)
            fid, nc, nt, t0, dt = at('i2', 0), at('i4', 2), at('i4', 6), at('f8', 10), at('f8', 18)
            o = 26; scl, off = at('f4', o+4*c), at('f4', o+4*nC+4*c); o = o+8*nC
            nd_ = at('i4', o); o = o+4+nd_
            nb = at('u1', o+10*q+k); o = o+10*(nC+1)
            ub = at('u1', o+10*q+k); o = o+10*(nC+1)
            v = at('i2', o+2*(i*nC+c)); end = o+2*nT*nC
        except libs.LayoutError as e:
            ctx.layout('the bytes follow the layout of identifier 2', e); return
        ctx.prove('the bytes follow the layout of identifier 2', True)
        ctx.prove('identifier, channel count and number of steps', andb(tb(cmp('==', fid, 2)), tb(cmp('==', nc, nC)), tb(cmp('==', nt, nT))))
        ctx.prove('start time and increment', andb(tb(cmp('==', t0, before((0, 0)))), tb(cmp('==', dt, before((1, 0))-before((0, 0))))))
        ctx.prove('file size', cmp('==', libs.segsize(sg), end))
        nm, un = NAME(q), UNIT(q); n, m = nm.sym_len(), un.sym_len()
        ctx.prove('name bytes: the name of the channel padded with blanks', cmp('==', nb, ite(cmp('<', k, n), char(nm, k), 32)))
        par = catstr('(', un, ')')
        ctx.prove('unit bytes: the unit of the channel in parentheses, padded with blanks', cmp('==', ub, ite(cmp('<', k, m+2), char(par, k), 32)))
        A, B = (X.view((slice(None), slice(1, None))) for _ in range(2)); A, B = A.min(axis=0).at(c), B.max(axis=0).at(c)
        x = before((i, c+1))
        scaling(ctx, scl, off, v, x, A, B)
        ctx.prove('the table in memory is unchanged', cmp('==', X.at(i, q), before((i, q))))
    ctx.run(lambda: ctx.call(ctx.get(M+'writeBinary'), 'o.outb', X, names, units), post)

def scaling(ctx, SC, O, v, x, A, B):
    def ab(q): return ite(cmp('>=', q, 0), q, 0-q)
    ctx.prove('the extreme values bound every element', andb(tb(cmp('<=', A, x)), tb(cmp('<=', x, B))))
    R = B-A; base = [cmp('<=', A, x), cmp('<=', x, B)]
    for case, h in (('constant', [cmp('==', A, B)]), ('varying', [cmp('<', A, B), cmp('>', R, 1e-30), cmp('<', R, 1e30)])):
        pre = andb(*[tb(y) for y in h])
        tol = R/65535*1.001+8*EPS*(ab(A)+ab(B)) if case == 'varying' else 8*EPS*(ab(A)+ab(B))+1/65535*1.001
        ctx.prove('slope positive', orb(notb(pre), cmp('>', SC, 0)), hyps=base+h)
        ctx.prove('the stored integer decodes to the value within one step of the range', orb(notb(pre), andb(tb(cmp('<=', v-O-x*SC, tol*SC)), tb(cmp('>=', v-O-x*SC, 0-tol*SC)))), case, hyps=base+h)

@contract('no-time', ['writeBinary'])
def notime(ctx):
    nT, nC, X, names, NAME, units, UNIT = table(ctx)
    ctx.assume(notb(equal(NAME(0), 'Time')))
    def post(r, exc):
        ctx.prove('a table whose first column is not Time is refused', exc is not None)
        ctx.prove('nothing is written then', len(ctx.it.fs.outputs) == 0)
    ctx.run(lambda: ctx.call(ctx.get(M+'writeBinary'), 'o.outb', X, names, units), post)
notime.no_cover = True

def word(ctx, nm, **info):
    f = 'c04!'+nm; strs.OPQ[f] = info; F = z3.Function(f, Z, S); ctx.eng.axiom_hooks[f] = lambda t: [z3.Length(t) >= 1]
    return lambda k: SymStr(F(zi(k)))
FORMS = {'name_[unit]': ('', '_[', ']'), 'name [unit]': ('', ' [', ']'), 'name[unit]': ('', '[', ']'), 'name_(unit)': ('', '_(', ')'), 'name (unit)': ('', ' (', ')'), 'name(unit)': ('', '(', ')'), 'no unit': ('', None, ''), 'blanks around': ('  ', '_[', '] ')}
@contract('labels of a data frame', ['writeDataFrame', 'FASTOutputFile.writeDataFrame'])
def labels(ctx):
    """the table of a data frame is written with the name and the unit in the label of each column, for any mixture of label forms"""
    B = word(ctx, 'bare', excl='[]()_'); N = word(ctx, 'name', excl='_'); U = word(ctx, 'unit', excl='[]()')
    n = ctx.int('n', 2); got = []
    ctx.it.contracts[M+'writeBinary'] = lambda it, fn, a, k: got.append((list(a), dict(k)))
    m = [ctx.int('m%d' % i, 1) for i in range(len(FORMS))]; tot = sum(m, 1)
    A = ctx.array('A', (n, tot), 'f8'); starts = []; segs = [['Time_[s]']]; at = 1
    for (b, op, cl), q in zip(FORMS.values(), m):
        segs.append(Seg(q, lambda k, b=b, op=op, cl=cl, at=at: catstr(b, N(k+at), op, U(k+at), cl) if op else catstr(B(k+at)))); starts.append(at); at = at+q
    def body():
        df = pdmodel.DF([(SList(segs=list(segs)), A)], n)
        ctx.call(ctx.get(M+'writeDataFrame'), df, 'o.outb')
    def post(r, exc):
        q = got[:]; got.clear()
        if exc is not None: return ctx.fail('the table is written', '%r' % exc)
        if not ctx.prove('one file is written, under the given name', len(q) == 1 and len(q[0][0]) >= 4 and q[0][0][0] == 'o.outb'): return
        X, names, units = q[0][0][1:4]
        ctx.prove('the options of the binary file are those of the default', len(q[0][0]) == 4 and not q[0][1])
        i, c = ctx.idx('i', n), ctx.idx('c', tot)
        if ctx.prove('the whole table is written', len(X.shape) == 2 and andb(cmp('==', X.shape[0], n), cmp('==', X.shape[1], tot))):
            with nd.nofork(): ctx.prove('the values are written', cmp('==', X.at(i, c), A.at(i, c)))
        names, units = to_seq(names), to_seq(units)
        if not ctx.prove('one name and one unit per column', andb(cmp('==', names.size(), tot), cmp('==', units.size(), tot))): return
        ctx.prove('the first column is Time in seconds', andb(equal(names.get(0), 'Time'), equal(units.get(0), 's')))
        for f, s0, mm in zip(FORMS, starts, m):
            k = ctx.idx('k '+f, mm)
            with nd.nofork():
                ctx.prove('name of a column labelled '+f, cmp('==', names.get(k+s0), N(k+s0) if FORMS[f][1] else B(k+s0)))
                ctx.prove('unit of a column labelled '+f, cmp('==', units.get(k+s0), U(k+s0) if FORMS[f][1] else ''))
    ctx.run(body, post)

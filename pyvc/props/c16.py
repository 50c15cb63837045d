"""C16: OpenFAST ASCII outputs: reading, tables, writing and reading again, as structured text."""
import z3
from ..core import contract
from ..engine import PyRaise
from ..terms import *
from .. import nd, libs, strs, pdmodel
from .. import interp as I
from ..interp import SList, Seg, Builtin, IObj, to_seq, truth
from .c15 import word
from .c15 import models, Lines
M = 'weio.fast_output_file:'; FO = 'weio/fast_output_file.py:'
S = z3.StringSort(); Z = z3.IntSort()
ASSUMPTIONS = ['number formatting and parsing of Python (strs.py): a printed finite number is a non-empty token without blanks; %.4f and %.3e print to half a unit of the last digit',
    'channel names and units are words without blanks, units without parentheses and brackets; a line above the names is blank, or begins with a word other than time followed by any text (of an element output: its first word is no number)']
TRUSTED = ['numpy.loadtxt(file, comments="This", ndmin=2) from the current position: one row per line, one column per blank separated token, each the nearest float; with ndmin=0 axes of length one are removed (the run-time contracts read real files through it)']
BOUNDED = ['lines above the names: 0 to 8 lines, each count proved separately (rows and columns: any number)']
READ = [FO+x for x in ('load_ascii_output', 'FASTOutputFile._read', 'FASTOutputFile._toDataFrame')]
WRITE = READ+[FO+'FASTOutputFile._write']
PATH = 'sim.out'

class Rest:
    """the lines of a list, as a file at its start"""
    def __init__(self, l): self.inf = self; self.lines = l; self.pos = 0
def setup(ctx):
    ctx.eng.axiom_hooks['fmtr_str'] = lambda t: [z3.Length(t) >= 1]
    m = ctx.int('m', 1); n = ctx.int('n', 1); A = ctx.array('A', (n, m), 'f8'); calls = []
    N = word(ctx, 'name', excl=''); U = word(ctx, 'unit', excl='()[]', nosub=('SEC',))
    def loadtxt(f, dtype=None, comments='#', ndmin=0, **k):
        if isinstance(f, SList): f = Rest(f)
        if k or not isinstance(f, (libs.TFile, Rest)) or ndmin not in (0, 2) or comments != 'This': raise Unsupported('loadtxt with these options')
        q = dict(); calls.append(q)
        l0 = f.inf.lines.size()-f.pos
        if not truth(cmp('>=', l0, 1)): return nd.new((0, 1), lambda x: 0.0, 'f8')
        pos = f.pos
        def cells(i): return to_seq(ctx.it.call(ctx.it.getattr(f.inf.lines.get(pos+i), 'split'), [], {}))
        c = cells(0).size(); q['cells'] = cells; q['n'] = l0; q['m'] = c
        B = q['B'] = ctx.array('parsed%d' % len(calls), (l0, c), 'f8')
        if ndmin == 0 and truth(cmp('==', c, 1)): return B.copy()[0, 0] if truth(cmp('==', l0, 1)) else nd.new((l0,), lambda x: B.at(x[0], 0), 'f8')
        if ndmin == 0 and truth(cmp('==', l0, 1)): return nd.new((c,), lambda x: B.at(0, x[0]), 'f8')
        return B.copy()
    ctx.it.libs['numpy'].d['loadtxt'] = Builtin(loadtxt, 'loadtxt')
    return m, n, A, calls, N, U
def word(ctx, nm, **info):
    f = 'c16!'+nm; strs.OPQ[f] = info; F = z3.Function(f, Z, S); ctx.eng.axiom_hooks[f] = lambda t: [z3.Length(t) >= 1]
    return lambda k: SymStr(F(zi(k)))
def rows(sep, n, m, cell): return libs.str_join('\n', SList(segs=[Seg(n, lambda i: libs.str_join(sep, SList(segs=[Seg(m, lambda j: cell(i, j))])))]))
def load(ctx, path, content=None):
    if content is not None:
        fs = ctx.it.fs; old = fs.inputs; ctx.eng.log(None, lambda: setattr(fs, 'inputs', old)); fs.inputs = dict(old); fs.inputs[path] = libs.StrText(path, content)
    o = ctx.call(ctx.get(M+'FASTOutputFile'))
    o.attrs['filename'] = path
    ctx.call(ctx.it.getattr(o, '_read'))
    return o
def loaded(ctx, path, content=None):
    o = load(ctx, path, content)
    return o, ctx.call(ctx.it.getattr(o, '_toDataFrame'))
def text(ctx, sep, head, n, m, A, N, U, names=True, **first):
    strs.TEXTS.add('c16!remark'); E = z3.Function('c16!remark', Z, S); W = word(ctx, 'first', excl='', notwords=('time',), **first)
    parts = []
    for i, b in enumerate(head): parts.append('' if b == '0' else catstr(W(i), ' ', SymStr(E(zi(i))), ' .'))
    if names:
        parts.append(libs.str_join(sep, SList(segs=[['Time'], Seg(m-1, lambda k: N(k+1))])))
        parts.append(libs.str_join(sep, SList(segs=[['(s)'], Seg(m-1, lambda k: catstr('(', U(k+1), ')'))])))
    if not (isinstance(n, int) and n == 0): parts.append(rows(sep, n, m, lambda i, j: libs.fmt_one(A.at(i, j))))
    return catstr(libs.str_join('\n', SList(parts)), '\n')
def table(ctx, o, q, n, m, N, U, cell):
    o, df = o
    L = df.labels()
    if not ctx.prove('one row per line', cmp('==', df.nrows, n)): return
    if not ctx.prove('one column per name', cmp('==', L.size(), m)): return
    k = ctx.idx('k', m); i = ctx.idx('i', n)
    (l, V), = df.blocks
    x = V.at(i, k)
    with nd.nofork():
        ctx.prove('the first column is the time', cmp('==', L.get(0), 'Time_[s]'))
        ctx.prove('every column has its name and unit', impl(cmp('>=', k, 1), cmp('==', L.get(k), catstr(N(k), '_[', U(k), ']'))))
        ctx.prove('every number goes to its row and column', cmp('==', x, q['B'].at(i, k)))
    w = q['cells'](i)
    if not ctx.prove('as many numbers as names on every row', cmp('==', w.size(), m)): return
    if cell is None: return
    with nd.nofork(): ctx.prove('every number of the file is parsed', cmp('==', w.get(k), cell(i, k)))
def impl(a, b): return orb(notb(a), b)
def read(sep, head, path=PATH):
    def f(ctx):
        m, n, A, calls, N, U = setup(ctx)
        def body(): return loaded(ctx, path, text(ctx, sep, head, n, m, A, N, U))
        def post(o, exc):
            q = calls[:]; calls.clear()
            if exc is not None: return ctx.fail('the output is read', '%r' % exc)
            if not ctx.prove('the numbers are parsed once', len(q) == 1): return
            table(ctx, o, q[0], n, m, N, U, lambda i, j: libs.fmt_one(A.at(i, j)))
        ctx.run(body, post)
    return f
def write(sep, head):
    """an output read, written under another name, and read again"""
    def f(ctx):
        m, n, A, calls, N, U = setup(ctx)
        def body():
            o = load(ctx, PATH, text(ctx, sep, head, n, m, A, N, U))
            ctx.call(ctx.it.getattr(o, 'write'), 'written.out'); ctx.publish()
            return loaded(ctx, 'written.out')
        def post(o, exc):
            q = calls[:]; calls.clear()
            if exc is not None: return ctx.fail('the output is written and read', '%r' % exc)
            if not ctx.prove('two outputs are parsed', len(q) == 2): return
            B = q[0]['B']
            table(ctx, o, q[1], n, m, N, U, None)
            i = ctx.idx('row', n); k = ctx.idx('channel', m)
            for nm, j in (('times to four decimals', 0), ('other values to four digits', k)):
                if j is k and not ctx.prove('as many numbers as channels', cmp('==', q[1]['m'], m)): return
                t = q[1]['cells'](i).get(j); x = strs.to_float(t) if isinstance(t, SymStr) else None
                if x is None or isinstance(x, str): return ctx.fail('every value is written as a number', repr(t))
                with nd.nofork():
                    a = B.at(i, j); ab = ite(cmp('>=', a, 0), a, -a); d = x-a
                    tol = z3.Q(1, 20000) if j is not k else None
                    lim = mkreal(tol) if tol is not None else ab*mkreal(z3.Q(1, 2000))
                    ctx.prove(nm, impl(cmp('>=', j, 1) if j is k else True, andb(cmp('<=', d, lim), cmp('<=', -d, lim))))
        ctx.run(body, post)
    return f
def rejected(name, head, names, nrows):
    """texts that are no OpenFAST output, or hold no data"""
    def f(ctx):
        m, n, A, calls, N, U = setup(ctx)
        def body():
            try: return load(ctx, PATH, text(ctx, '\t', head, nrows, m, A, N, U, names=names))
            except PyRaise as e: return e.exc
        def post(e, exc):
            calls.clear()
            ctx.prove('the file is rejected with '+name, isinstance(e, IObj) and e.cls is ctx.get('weio.file:'+name), repr(e))
        ctx.run(body, post)
    return f
def element(head):
    """element outputs: one line, the names, the units, the rows"""
    def f(ctx):
        m, n, A, calls, N, U = setup(ctx)
        csv = []; models(ctx, csv, m, A)
        def body(): 
            return loaded(ctx, 'sim.elm', text(ctx, '\t', head, n, m, A, N, U, notnum=True))
        def post(r, exc):
            q = csv[:]; csv.clear(); calls.clear()
            if exc is not None: return ctx.fail('the output is read', '%r' % exc)
            if not ctx.prove('the rows are parsed once', len(q) == 1): return
            o, df = r; q = q[0]
            ctx.prove('columns are separated by blanks', q['sep'] == r'\s+', repr(q['sep'])); ctx.prove('no row gives names or comments', q['header'] is None and not q['comment'])
            if not ctx.prove('number of lines', cmp('==', q['lines'].size(), n+3)): return
            i = ctx.idx('line', n+3); sk = I.INTERP.contains(i, to_seq(q['skip'])) if not isinstance(q['skip'], Lines) else q['skip'].has(i)
            with nd.nofork():
                ctx.prove('every row is kept', impl(cmp('>=', i, 3), notb(sk)))
                ctx.prove('the lines above are no rows', impl(cmp('<', i, 3), sk))
            L = df.labels(); k = ctx.idx('k', m); j = ctx.idx('row', n)
            if not ctx.prove('one column per name', cmp('==', L.size(), m)): return
            (l, V), = df.blocks; x = V.at(j, k)
            with nd.nofork():
                ctx.prove('the first column is the time', cmp('==', L.get(0), 'Time_[s]'))
                ctx.prove('every column has its name and unit', impl(cmp('>=', k, 1), cmp('==', L.get(k), catstr(N(k), '_[', U(k), ']'))))
                ctx.prove('every number goes to its row and column', cmp('==', x, A.at(j, k)))
        ctx.run(body, post)
    return f
HEADS = ['', '0', '1', '01', '10', '0110', '111111', '01101010']
for sep, sn in (('\t', 'tabs'), (' ', 'blanks'), ('   ', 'columns')):
    for head in HEADS:
        nm = '%s, %s' % (sn, 'no header' if not head else 'header of %d line%s (%s)' % (len(head), 's'*(len(head) > 1), head))
        contract('read: '+nm, READ, budget=60)(read(sep, head))
        if sep == '\t' or head == '01': contract('read, written and read: '+nm, WRITE, budget=60)(write(sep, head))
for path in ('Wave.elev', 'SIM.OUT', 'a.b.out', 'results.txt'): contract('read: a file named '+path, READ+[FO+'load_output']*(path[-3:] == 'txt'), budget=60)(read('\t', '01', path))
for nrows in (0, 1, 3):
    for head in ('', '01', '111'): 
        if head or nrows: contract('%d lines of a header and %d of numbers without a line of names are rejected' % (len(head), nrows), READ[:2], budget=60)(rejected('WrongFormatError', head, False, nrows))
for head in ('', '01'): contract('an output without data lines is rejected (header of %d lines)' % len(head), READ[:2], budget=60)(rejected('EmptyFileError', head, True, 0))
for head in ('1', '0'): contract('read: an element output, header %s' % head, READ[1:]+['weio/csv_file.py:CSVFile.__init__', 'weio/csv_file.py:CSVFile._read'], budget=60)(element(head))

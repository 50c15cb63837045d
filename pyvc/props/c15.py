"""C15: delimited text tables: which lines of the file become data, names and comments, and what is written back."""
import z3
from ..core import contract
from ..terms import *
from .. import nd, libs, strs, pdmodel
from .. import interp as I
from ..interp import SList, Seg, Builtin, TypeModel, to_seq, truth
M = 'weio.csv_file:'; CF = 'weio/csv_file.py:'
S = z3.StringSort(); Z = z3.IntSort()
ASSUMPTIONS = ['number formatting and parsing of Python (strs.py): a printed finite number is a non-empty token without blanks, separators, brackets and comment characters',
    'a column name or unit is a non-empty word without blanks, separators, brackets and comment characters that float() rejects; there are at least two columns',
    'a comment line is the comment character, a blank, any text without line breaks, and a blank and full stop (one word where the table has no names: the reader may take the words of a comment for the names)']
BOUNDED = ['comment lines: files with 0, 1, 2 and 3 comment lines above the table (rows and columns: any number); longer headers are left to the run-time contracts']
TRUSTED = ['the detection of the encoding (File.encoding, chardet) finds the encoding of the file',
    'pandas.read_csv(file, sep, skiprows, header=None, comment): the lines that are neither in skiprows nor comments become the rows, in order, split at sep, numbers parsed to the nearest float (run-time contracts read real files through it)',
    'DataFrame.to_csv(file, sep, index=False, header): the column names joined with sep when header is true, then every row in order, each value as str() prints it']
READ = [CF+x for x in ('CSVFile.__init__', 'CSVFile._read')]
WRITE = READ+[CF+'CSVFile._write', 'weio/file.py:File.write']
PATH = 'table.csv'

class Lines:
    """a set of line numbers (or the sorted list of it): only membership is used"""
    _vc_model = True
    def __init__(self, seq): self.seq = seq
    def vc_seq(self): return self.seq
    def has(self, i): return I.INTERP.contains(i, self.seq)
    def vc_contains(self, i): return self.has(i)
def models(ctx, calls, m, A):
    """set / sorted of line numbers, pandas.read_csv and DataFrame.to_csv"""
    B = ctx.it.builtins
    st, so, ls = B['set'], B['sorted'], B['list']
    sym = lambda x: isinstance(x, Lines) or isinstance(x, SList) and not (x.concrete() and not any(isinstance(v, Sym) for v in x.items))
    B['set'] = TypeModel('set', lambda x=(): Lines(to_seq(x)) if sym(x) else st.call(x), st.inst, set)
    B['sorted'] = Builtin(lambda x, **k: x if isinstance(x, Lines) and not k else so.fn(x, **k), 'sorted')
    B['list'] = TypeModel('list', lambda x=(): x if isinstance(x, Lines) else ls.call(x), ls.inst, list)
    def read_csv(f, sep=',', skiprows=None, header='infer', comment=None, **k):
        if k or not isinstance(f, libs.TFile): raise Unsupported('read_csv with %s' % sorted(k))
        calls.append(dict(pos=f.pos, sep=sep, skip=skiprows, header=header, comment=comment, lines=f.inf.lines))
        return pdmodel.DF([(SList(segs=[Seg(m, lambda q: q)]), A.copy())], A.shape[0])
    def to_csv(df, f, sep=',', index=True, header=True, lineterminator='\n'):
        if index is not False or lineterminator != '\n' or not isinstance(header, (bool, SymBool)) or len(df.blocks) != 1 or not isinstance(sep, str): raise Unsupported('to_csv with these options')
        w = ctx.it.fs.open(f, 'w') if isinstance(f, str) else f
        if not isinstance(w, libs.TextW): raise Unsupported('to_csv to this file')
        (L, V), = df.blocks
        if truth(header): w.write(catstr(libs.str_join(sep, L), '\n'))
        w.write(catstr(rows(sep, df.nrows, L.size(), lambda i, j: libs.fmt_one(V.at(i, j))), '\n'))
    pdmodel.METHODS['to_csv'] = to_csv
    ctx.it.contracts['weio.file:File.encoding'] = lambda it, fn, a, k: 'utf-8'
    pd = ctx.it.libs['pandas']
    pd.d['read_csv'] = Builtin(read_csv, 'read_csv')
def word(ctx, nm, **info):
    f = 'c15!'+nm; strs.OPQ[f] = info; F = z3.Function(f, Z, S); ctx.eng.axiom_hooks[f] = lambda t: [z3.Length(t) >= 1]
    return lambda k: SymStr(F(zi(k)))
def rows(sep, n, m, cell): return libs.str_join('\n', SList(segs=[Seg(n, lambda i: libs.str_join(sep, SList(segs=[Seg(m, lambda j: cell(i, j))])))]))
def table(ctx, sep, cc, names, units, c, m, n, A, N, U):
    """the text of a file, its number of lines above the data, the names its columns must get"""
    excl = ',;[]()!#'; UU = lambda k: catstr('(', U(k), ')')
    strs.TEXTS.add('c15!comment'); E = z3.Function('c15!comment', Z, S); W = word(ctx, 'remark', excl=excl, notnum=True)
    parts = []
    coms = [catstr(cc+' ', SymStr(E(zi(i))), ' .') if names == 'line' else catstr(cc+' ', W(i)) for i in range(c)]
    if names == 'comment': coms[-1] = catstr(cc+' ', libs.str_join(sep, SList(segs=[Seg(m, N)])))
    parts += coms
    if names == 'line': parts.append(libs.str_join(sep, SList(segs=[Seg(m, N)])))
    if units: parts.append(libs.str_join(sep, SList(segs=[Seg(m, UU)])))
    parts.append(rows(sep, n, m, lambda i, j: libs.fmt_one(A.at(i, j))))
    def name(k):
        w = N(k) if names != 'none' else catstr('C', libs.fmt_one(k))
        return catstr(w, '_', UU(k)) if units else w
    return catstr(libs.str_join('\n', SList(parts)), '\n'), c+(names == 'line')+units, name
def setup(ctx, names):
    ctx.eng.axiom_hooks['fmtr_str'] = lambda t: [z3.Length(t) >= 1]
    m = ctx.int('m', 2); n = ctx.int('n', 1 if names == 'line' else 2); A = ctx.array('A', (n, m), 'f8'); calls = []
    excl = ',;[]()!#'
    N = word(ctx, 'name', excl=excl, notnum=True); U = word(ctx, 'unit', excl=excl, notnum=True)
    models(ctx, calls, m, A)
    return m, n, A, calls, N, U
def load(ctx, path, content=None):
    """a new reader object that has read the file"""
    if content is not None:
        fs = ctx.it.fs; old = fs.inputs; ctx.eng.log(None, lambda: setattr(fs, 'inputs', old)); fs.inputs = dict(old); fs.inputs[path] = libs.StrText(path, content)
    o = ctx.call(ctx.get(M+'CSVFile'))
    o.attrs['filename'] = path; o.attrs['_encoding'] = None
    ctx.call(ctx.it.getattr(o, '_read'))
    return o
def parsed(ctx, o, q, sep, cc, head, ncom, m, n, name):
    """posts: what the reader handed to the parser, and the names it gave"""
    want = r'\s+' if sep.strip(' ') == '' or sep == '\t' else sep
    ctx.prove('the separator is found', q['sep'] == want, '%r' % (q['sep'],))
    ctx.prove('no line of data is used for names by pandas', q['header'] is None)
    ctx.prove('comments are dropped at their own character only', q['comment'] is None or q['comment'] == cc, repr(q['comment']))
    if not ctx.prove('number of lines', cmp('==', q['lines'].size(), n+head)): return
    i = ctx.idx('line', head+n)
    sk = I.INTERP.contains(i, to_seq(q['skip'])) if not isinstance(q['skip'], Lines) else q['skip'].has(i)
    with nd.nofork():
        ctx.prove('every data line is kept', impl(cmp('>=', i, head), notb(sk)))
        ctx.prove('no comment, name or unit line is data', impl(cmp('<', i, head), orb(sk, andb(q['comment'] == cc if cc else False, cmp('<', i, ncom)))))
    d = o.attrs['data']; L = d.labels()
    k = ctx.idx('k', m)
    if not ctx.prove('as many names as columns', cmp('==', L.size(), m)): return
    with nd.nofork(): ctx.prove('every name on its column', cmp('==', L.get(k), name(k)))
def read(sep, cc, names, units, c=0):
    def f(ctx):
        m, n, A, calls, N, U = setup(ctx, names); x = []
        def body():
            t, head, name = table(ctx, sep, cc, names, units, c, m, n, A, N, U)
            x[:] = [head, name]
            return load(ctx, PATH, t)
        def post(o, exc):
            q = calls[:]; calls.clear()
            if exc is not None: return ctx.fail('the table is read', '%r' % exc)
            if not ctx.prove('the table is parsed once', len(q) == 1): return
            parsed(ctx, o, q[0], sep, cc, x[0], c, m, n, x[1])
        ctx.run(body, post)
    return f
def write(sep, cc, names, units, c=0):
    """a table read, written under another name, and read again"""
    def f(ctx):
        m, n, A, calls, N, U = setup(ctx, names); x = []
        def body():
            t, head, name = table(ctx, sep, cc, names, units, c, m, n, A, N, U)
            x[:] = [name]
            o = load(ctx, PATH, t)
            ctx.call(ctx.it.getattr(o, 'write'), 'out.csv'); ctx.publish()
            return load(ctx, 'out.csv')
        def post(o, exc):
            q = calls[:]; calls.clear()
            if exc is not None: return ctx.fail('the table is written and read', '%r' % exc)
            if not ctx.prove('two tables are parsed', len(q) == 2): return
            lines = q[1]['lines']; head = lines.size()-n      # the lines above the rows: comments, then possibly names
            if not ctx.prove('the comments are kept', cmp('>=', head, c)): return
            parsed(ctx, o, q[1], sep, cc, head, c, m, n, x[0])
            i = ctx.idx('row', n); j = ctx.idx('column', m)
            l = ctx.it.call(ctx.it.getattr(lines.get(i+head), 'strip'), [], {})
            cells = ctx.it.call(ctx.it.getattr(l, 'split'), [] if sep in '\t ' else [sep], {})
            if not ctx.prove('as many values as columns on every row', cmp('==', cells.size(), m)): return
            with nd.nofork(): ctx.prove('every row is written with every value', cmp('==', cells.get(j), libs.fmt_one(A.at(i, j))))
        ctx.run(body, post)
    return f
def impl(a, b): return orb(notb(a), b)
CASES = []
for sep, sn in ((',', 'comma'), (';', 'semicolon'), ('\t', 'tab'), (' ', 'blank')):
    for cc in ('', '#', '!', ';'):
        if cc == sep: continue
        for c in (1, 2, 3) if cc else (0,):
            for names in ('line', 'none', 'comment') if cc else ('line', 'none'):
                for units in (0, 1):
                    if units and names != 'line': continue
                    if cc in ('!', ';') and c != 2: continue
                    CASES.append(('%s separated, %s, %s%s' % (sn, '%d comment%s with %s' % (c, 's'*(c > 1), cc) if cc else 'no comments', {'line': 'names', 'none': 'no names', 'comment': 'names in a comment'}[names], ' and units' if units else ''), (sep, cc, names, units, c)))
for nm, a in CASES: contract(nm, READ, budget=60)(read(*a))
for nm, a in CASES: contract('read, written and read: '+nm, WRITE, budget=60)(write(*a))

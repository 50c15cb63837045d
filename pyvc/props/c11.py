"""C11: OpenFAST input lines, tables and output lists: the printer composed with the parser, as structured text."""
import z3, itertools
from ..core import contract
from ..terms import *
from .. import nd, strs
from ..interp import SList, Seg
M = 'weio.fast_input_file:'; FI = 'weio/fast_input_file.py:'
ASSUMPTIONS = ['number formatting and parsing of Python (strs.py): str() of a finite float or of an integer is read back by float() / int() as the same number, has no blank, comma or quote, is at most 24 characters long (integers: below 1e28 in magnitude) and only an integer consists of an optional sign and digits',
    'a label or word value is a non-empty word without blanks and commas that float(), int() and isdigit() reject, is no boolean word, and begins with none of # ! -- == "; a word value beginning with END is not followed by the label "of"',
    'a description is any text without line end', 'an entry of an output list is a non-empty text without line end that does not begin with END']
S = z3.StringSort(); Z = z3.IntSort()
LINE = [FI+x for x in ('FASTInputFileBase.toString', 'parseFASTInputLine', 'cleanLine', '_merge_value', 'strIsFloat', 'strIsInt', 'strIsBool', 'strToBool')]
BOOLS = ('true', 'false', 't', 'f')

def lengths(eng):
    eng.axiom_hooks['fmt_d'] = lambda t: [z3.Length(t) >= 1, z3.Implies(z3.And(t.arg(0) < 10**28, t.arg(0) > -10**28), z3.Length(t) <= 29), z3.Implies(z3.And(t.arg(0) < 10**12, t.arg(0) > -10**11), z3.Length(t) <= 12)]
    eng.axiom_hooks['fmtr_str'] = lambda t: [z3.Length(t) >= 1, z3.Length(t) <= 24]
    for nm in strs.OPQ: eng.axiom_hooks[nm] = lambda t: [z3.Length(t) >= 1]
def word(ctx, name, **info):
    """an arbitrary word"""
    nm = 'c11!'+name; strs.OPQ[nm] = info; ctx.eng.axiom_hooks[nm] = lambda t: [z3.Length(t) >= 1]
    return SymStr(z3.Const(nm, S))
def label(ctx): return word(ctx, 'label', excl=',', notnum=True, notwords=BOOLS+('of',), noprefix=['#', '!', '--', '==', '"'])
def descr(ctx):
    strs.TEXTS.add('c11!descr'); return SymStr(z3.Const('c11!descr', S))
def entry(lab, value, d, **k):
    r = {'value': value, 'label': lab, 'isComment': False, 'descr': d, 'tabType': 0}; r.update(k); return r
def deck(ctx, *entries):
    o = ctx.obj(M+'FASTInputFileBase')
    o.attrs.update(data=SList(list(entries)), hasNodal=False, module=None, filename='deck.dat', _size=None, _encoding=None)
    return o
def scalar(v):
    """kind of a value"""
    if isinstance(v, (bool, SymBool)): return 'bool'
    if isinstance(v, (int, SymInt)): return 'int'
    if isinstance(v, (float, SymReal)): return 'float'
    if isinstance(v, (str, SymStr)): return 'str'
    return type(v).__name__
def same(ctx, what, got, want):
    if isinstance(want, SList):
        if not ctx.prove(what, isinstance(got, SList) and got.concrete() and len(got.items) == len(want.items), 'list %r' % (got,)): return
        for a, b in zip(got.items, want.items): same(ctx, what, a, b)
        return
    if not ctx.prove(what, scalar(got) == scalar(want), 'a value of type %s comes back as %s' % (scalar(want), scalar(got))): return
    ctx.prove(what, got == want if isinstance(got, (bool, str)) and isinstance(want, (bool, str)) else cmp('==', got, want))
def line(make, nodescr):
    def f(ctx):
        lengths(ctx.eng)
        v = make(ctx); lab = label(ctx); d = '' if nodescr else descr(ctx)
        o = deck(ctx, entry(lab, v, d))
        def body():
            txt = ctx.call(ctx.it.getattr(o, 'toString'))
            return ctx.call(ctx.get(M+'parseFASTInputLine'), txt, 0)
        def post(r, exc):
            if exc is not None: return ctx.fail('the printed line is parsed', '%r' % exc)
            if not isinstance(r, dict): return ctx.unknown('the printed line is parsed', '%r' % (r,))
            ctx.prove('the line is not taken for a comment', r['isComment'] == False)
            same(ctx, 'the value is read back with its type', r['value'], v)
            same(ctx, 'the label is read back', r['label'], lab)
        ctx.run(body, post)
    return f
def ints(ctx, nm):
    v = ctx.int(nm); ctx.assume(cmp('<', v, 10**28)); ctx.assume(cmp('>', v, -10**28)); return v
def text(m):
    def make(ctx):
        ws = [word(ctx, 'txt%d' % j, excl='"') for j in range(m)]
        out = '"'
        for j, w in enumerate(ws): out = catstr(out, ' ' if j else '', w)
        return catstr(out, '"')
    return make
KINDS = dict(integer=lambda ctx: ctx.int('v'), floating=lambda ctx: ctx.real('v'), true=lambda ctx: True, false=lambda ctx: False,
    word=lambda ctx: word(ctx, 'word', excl='",', notnum=True, notwords=BOOLS, noprefix=['#', '!', '--', '==', '"']),
    **{'quoted text of %d words' % m: text(m) for m in (0, 1, 2, 3, 4)})
for nm, mk in KINDS.items():
    for nd_ in (0, 1):
        contract('a line with a value: %s%s' % (nm, ', no description' if nd_ else ''), LINE, budget=60)(line(mk, nd_))
def listof(kinds):
    def make(ctx):
        return SList([ints(ctx, 'v%d' % j) if k == 'i' else ctx.real('v%d' % j) if k == 'f' else k == 'T' for j, k in enumerate(kinds)])
    return make
for n in (2, 3):
    for ks in itertools.product('ifTF', repeat=n):
        if n == 3 and ks.count('T')+ks.count('F') > 1: continue
        contract('a line with a list: %s' % ''.join(ks), LINE, budget=60)(line(listof(ks), False))
for ks in ('iiii', 'ffff', 'iffi', 'TFTF', 'iiiii', 'fffff', 'iiiiii', 'ffffff', 'fiTFif'):
    contract('a line with a list: %s' % ks, LINE, budget=60)(line(listof(ks), False))
BOUNDED = ['lists on a line: 2 to 6 elements (every mix of kinds for 2, most mixes for 3, selected ones beyond), any values; quoted text: 0 to 4 words, any words', 'the whole deck: one sequence of entries (integer value of at least 4, tower table of at least 3 rows and 4 columns whose names are none of the special names of _read, real value, output list of at least 3)', 'tables without header, file-list tables and the special sections of _read other than output lists and BeamDyn properties: run-time contracts only']

OUTL = [FI+'FASTInputFileBase.toString', FI+'parseFASTOutList']
def outlist(end):
    def f(ctx):
        n = ctx.int('n', 1, 200)
        strs.TEXTS.add('c11!entry'); E = z3.Function('c11!entry', Z, S)
        ctx.eng.axiom_hooks['c11!entry'] = lambda t: [z3.Length(t) >= 1]
        ctx.eng.axiom_hooks['find_END'] = lambda t: [t != 0] if 'c11!entry' in strs.consts_fn(t) else []
        vals = SList(segs=[[''], Seg(n, lambda k: SymStr(E(zi(k))))])
        es = [entry(label(ctx), vals, descr(ctx), tabType=3)]
        if end: es.append(entry('', end, '', isComment=True))
        o = deck(ctx, *es)
        def body():
            txt = ctx.call(ctx.it.getattr(o, 'toString'))
            L = ctx.call(ctx.it.getattr(txt, 'splitlines'))
            return ctx.call(ctx.get(M+'parseFASTOutList'), L, 1)
        def post(r, exc):
            if exc is not None: return ctx.fail('the printed list is parsed', '%r' % exc)
            if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SList)): return ctx.unknown('the printed list is parsed', '%r' % (r,))
            if not ctx.prove('as many entries as written', cmp('==', r[0].size(), n)): return
            k = ctx.idx('k', n)
            with nd.nofork(): ctx.prove('every entry is read back in its place', cmp('==', r[0].get(k), SymStr(E(zi(k)))))
            ctx.prove('reading continues after the last entry', cmp('==', r[1], 1+n))
        ctx.run(body, post)
    return f
contract('output list of up to 200 entries, closed by END', OUTL, budget=60)(outlist('END of input file (the word "END" must appear)'))
contract('output list of up to 200 entries, end of file', OUTL, budget=60)(outlist(''))

TAB = [FI+x for x in ('FASTInputFileBase.toString', 'parseFASTNumTable', 'cleanLine', 'cleanAfterChar', 'detectUnits')]
def columns(ctx, nm, m, **info):
    """m arbitrary words"""
    f = 'c11!'+nm; strs.OPQ[f] = info; F = z3.Function(f, Z, S); ctx.eng.axiom_hooks[f] = lambda t: [z3.Length(t) >= 1]
    return lambda k: SymStr(F(zi(k)))
def close(x, v, p):
    """x to p digits after the first"""
    h = z3.Q(1, 2*10**p); x, v = zr(x), zr(v)
    return SymBool(z3.And(v-x <= h*z3.If(x >= 0, x, -x), x-v <= h*z3.If(x >= 0, x, -x)))
def table(tabtype, units, rows, kind='num'):
    def f(ctx):
        lengths(ctx.eng)
        n = ctx.int('n', 1) if rows else 0; m = ctx.int('m', 1)
        N = columns(ctx, 'name', m, excl='[(!#', notwords=('nodecnt', 'cosmid', 'ssifile'), noprefix=['"', '-'])
        U = columns(ctx, 'unit', m, excl='[]()!#', noprefix=['"', '-'])
        UU = lambda k: catstr('(', U(k), ')')
        A = ctx.array('A', (n, m), 'f8')
        es = [entry('Tab', A, '', tabType=tabtype, tabColumnNames=SList(segs=[Seg(m, N)]), tabUnits=SList(segs=[Seg(m, UU)]) if units else None)]
        o = deck(ctx, *es)
        def body():
            txt = ctx.call(ctx.it.getattr(o, 'toString'))
            L = ctx.call(ctx.it.getattr(txt, 'splitlines'))
            return ctx.call(ctx.get(M+'parseFASTNumTable'), 'deck.dat', L, n, 0, 2 if units else 1, tableType=kind)
        def post(r, exc):
            if exc is not None: return ctx.fail('the printed table is parsed', '%r' % exc)
            if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[1], SList) and isinstance(r[0], nd.Arr)): return ctx.unknown('the printed table is parsed', '%r' % (r,))
            V, names, us = r
            k = ctx.idx('k', m)
            if ctx.prove('as many names as columns', cmp('==', names.size(), m)):
                with nd.nofork(): ctx.prove('every name in its place', cmp('==', names.get(k), N(k)))
            if units:
                if ctx.prove('as many units as columns', isinstance(us, SList) and cmp('==', us.size(), m)):
                    with nd.nofork(): ctx.prove('every unit in its place', cmp('==', us.get(k), UU(k)))
            else: ctx.prove('no units', us is None)
            if not ctx.prove('shape', len(V.shape) == 2 and andb(cmp('==', V.shape[0], n), cmp('==', V.shape[1], m))): return
            if not rows: return
            i = ctx.idx('i', n)
            with nd.nofork(): x = A.at(i, k); v = V.at(i, k)
            ctx.prove('every value to nine digits, in its place', close(x, v, 8))
            if tabtype == 1: ctx.prove('integers exactly', impl(cmp('==', mkreal(z3.ToReal(z3.ToInt(zr(x)))), x), cmp('==', v, x)))
        ctx.run(body, post)
    return f
def impl(a, b): return orb(notb(a), b)
for rows in (1, 0):
    for u in (1, 0):
        contract('table with names%s%s' % (' and units' if u else '', '' if rows else ', no rows'), TAB, budget=100)(table(1, u, rows))
contract('table with commented names and units', TAB, budget=100)(table(2, 1, 1))
def mixed(words):
    def f(ctx):
        lengths(ctx.eng)
        n = ctx.int('n', 1); m = ctx.int('m', 1)
        N = columns(ctx, 'name', m, excl='[(!#', notwords=('nodecnt', 'cosmid', 'ssifile'), noprefix=['"', '-'])
        U = columns(ctx, 'unit', m, excl='[]()!#', noprefix=['"', '-'])
        UU = lambda k: catstr('(', U(k), ')')
        if words:
            nm = 'c11!cell'; strs.OPQ[nm] = dict(excl='!#', notnum=True, noprefix=['--']); C = z3.Function(nm, Z, Z, S); ctx.eng.axiom_hooks[nm] = lambda t: [z3.Length(t) >= 1]
            A = nd.new((n, m), lambda idx: SymStr(C(zi(idx[0]), zi(idx[1]))), 'O')
        else: A = ctx.array('A', (n, m), 'f8')
        o = deck(ctx, entry('Tab', A, '', tabType=6, tabColumnNames=SList(segs=[Seg(m, N)]), tabUnits=SList(segs=[Seg(m, UU)])))
        def body():
            txt = ctx.call(ctx.it.getattr(o, 'toString'))
            L = ctx.call(ctx.it.getattr(txt, 'splitlines'))
            return ctx.call(ctx.get(M+'parseFASTNumTable'), 'deck.dat', L, n, 0, 2, tableType='mix')
        def post(r, exc):
            if exc is not None: return ctx.fail('the printed table is parsed', '%r' % exc)
            if not (isinstance(r, tuple) and len(r) == 3 and isinstance(r[1], SList) and isinstance(r[0], nd.Arr)): return ctx.unknown('the printed table is parsed', '%r' % (r,))
            V, names, us = r
            k = ctx.idx('k', m); i = ctx.idx('i', n)
            if ctx.prove('as many names as columns', cmp('==', names.size(), m)):
                with nd.nofork(): ctx.prove('every name in its place', cmp('==', names.get(k), N(k)))
            if ctx.prove('as many units as columns', isinstance(us, SList) and cmp('==', us.size(), m)):
                with nd.nofork(): ctx.prove('every unit in its place', cmp('==', us.get(k), UU(k)))
            if not ctx.prove('shape', len(V.shape) == 2 and andb(cmp('==', V.shape[0], n), cmp('==', V.shape[1], m))): return
            with nd.nofork(): x = A.at(i, k); v = V.at(i, k)
            ctx.prove('every value in its place, words as words, numbers as numbers', scalar(x) == scalar(v) and cmp('==', x, v))
        ctx.run(body, post)
    return f
contract('mixed table of words', TAB, budget=100)(mixed(True))
contract('mixed table of numbers', TAB, budget=100)(mixed(False))
BD = [FI+x for x in ('FASTInputFileBase.toString', 'FASTInputFileBase.readBeamDynProps')]
@contract('BeamDyn section properties', BD, budget=100)
def _(ctx):
    lengths(ctx.eng)
    n = ctx.int('n', 1)
    A = {'span': ctx.array('span', (n,), 'f8'), 'K': ctx.array('K', (n, 6, 6), 'f8'), 'M': ctx.array('M', (n, 6, 6), 'f8')}
    o = deck(ctx, entry('BeamProperties', A, '', tabType=5))
    p = deck(ctx, entry('station_total', n, ''))
    def body():
        txt = ctx.call(ctx.it.getattr(o, 'toString'))
        L = ctx.call(ctx.it.getattr(txt, 'splitlines'))
        ctx.call(ctx.it.getattr(p, 'readBeamDynProps'), L, 0)
        return p.attrs['data']
    def post(r, exc):
        if exc is not None: return ctx.fail('the printed sections are parsed', '%r' % exc)
        if not (isinstance(r, SList) and r.concrete()): return ctx.unknown('the printed sections are parsed', '%r' % (r,))
        if not ctx.prove('one entry is added', len(r.items) == 2): return
        e = r.items[1]; V = e['value']
        ctx.prove('label and type', e['label'] == 'BeamProperties' and e['tabType'] == 5)
        i = ctx.idx('i', n); a = ctx.idx('a', 6); b = ctx.idx('b', 6)
        for nm in ('K', 'M'):
            if not ctx.prove('shape of the matrices', len(V[nm].shape) == 3 and andb(cmp('==', V[nm].shape[0], n), cmp('==', V[nm].shape[1], 6), cmp('==', V[nm].shape[2], 6))): continue
            with nd.nofork(): ctx.prove('every coefficient of the matrices', cmp('==', V[nm].at(i, a, b), A[nm].at(i, a, b)))
        if ctx.prove('number of stations', len(V['span'].shape) == 1 and cmp('==', V['span'].shape[0], n)):
            d = V['span'].at(i)-A['span'].at(i)
            ctx.prove('every position to six decimals', andb(cmp('<=', d, 0.5e-6), cmp('>=', d, -0.5e-6)))
    ctx.run(body, post)
SPECIAL = tuple('re kp_total numcoords htfract twrelev blfract genspd_tlu blspn wndspeed hvcoefid axcoefid jointid dpth fillnumm mgdpth simplcd rnodes kp_xr mu1 twrhtfr twrre wt_x rjointid ijointid cosmid cmjointid numalf f_x membercd1 mjointid1 noutloc noutcnt propd diam type linetype guyandampsize younge ea matdens gridname foilnm afnames'.split())
SECTIONS = ('OUTPUTS', 'CHANNELS', 'SSOUTLIST', 'SDOUTLIST', 'STIFFNESS', 'PROPERTIES')
READ = [FI+x for x in ('FASTInputFileBase.write', 'FASTInputFileBase._read', 'FASTInputFileBase.toString', 'FASTInputFileBase.keys')]+TAB[1:]+LINE[1:]+OUTL[1:]
@contract('a whole deck: entries, a table, entries, an output list', READ, budget=200)
def _(ctx):
    lengths(ctx.eng)
    n = ctx.int('n', 3, 10**9); m = ctx.int('m', 4); v1 = ctx.int('v1', 4, 10**9); v2 = ctx.real('v2'); q = ctx.int('q', 3, 200)
    N = columns(ctx, 'name', m, excl='[(!#,"\'', notnum=True, notwords=('nodecnt',)+BOOLS+SPECIAL, noprefix=['"', '-'], nosub=SECTIONS)
    U = columns(ctx, 'unit', m, excl='[]()!#', noprefix=['"', '-'], nosub=SECTIONS)
    UU = lambda k: catstr('(', U(k), ')')
    A = ctx.array('A', (n, m), 'f8')
    strs.TEXTS.add('c11!entry'); E = z3.Function('c11!entry', Z, S); ctx.eng.axiom_hooks['c11!entry'] = lambda t: [z3.Length(t) >= 1]
    ctx.eng.axiom_hooks['find_END'] = lambda t: [t != 0] if 'c11!entry' in strs.consts_fn(t) else []
    names = SList(segs=[['HtFract'], Seg(m-1, N)]); units = SList(segs=[Seg(m, UU)])
    outs = SList(segs=[[''], Seg(q, lambda k: SymStr(E(zi(k))))])
    def com(x): return entry('', x, '', isComment=True)
    o = deck(ctx, com('------- A title -------'), com('! what it is'), entry('First', v1, 'the first'), entry('NTwInpSt', n, 'rows'),
        entry('TowProp', A, '', tabType=1, tabColumnNames=names, tabUnits=units), entry('Second', v2, 'the second'), com('---- outputs ----'), entry('OutList', outs, 'The next line(s) contains a list of output parameters. See OutListParameters.xlsx for a listing of available output channels, (-)', tabType=3),
        com('END of input file (the word "END" must appear)'), com('-------------'))
    p = ctx.obj(M+'FASTInputFileBase'); p.attrs.update(filename='deck.dat', _size=None, _encoding=None)
    def body():
        ctx.call(ctx.it.getattr(o, 'write'), 'deck.dat'); ctx.publish()
        ctx.call(ctx.it.getattr(p, '_read'))
        return p.attrs['data']
    def post(r, exc):
        if exc is not None: return ctx.fail('the deck is read', '%r' % exc)
        if not (isinstance(r, SList) and r.concrete()): return ctx.unknown('the deck is read', '%r' % (r,))
        got = [d for d in r.items if not d['isComment']]
        if not ctx.prove('the entries are found in their order, and no other', [d['label'] for d in got] == ['First', 'NTwInpSt', 'TowProp', 'Second', 'OutList'], [d['label'] for d in got]): return
        same(ctx, 'value before the table', got[0]['value'], v1); same(ctx, 'number of rows', got[1]['value'], n); same(ctx, 'value after the table', got[3]['value'], v2)
        V = got[2]['value']; k = ctx.idx('k', m); i = ctx.idx('i', n); j = ctx.idx('j', q)
        ctx.prove('type of the table', got[2]['tabType'] == 1)
        for what, g, w in (('names', got[2]['tabColumnNames'], names), ('units', got[2]['tabUnits'], units)):
            if ctx.prove('as many %s as columns' % what, cmp('==', g.size(), m)):
                with nd.nofork(): ctx.prove('%s of the table' % what, cmp('==', g.get(k), w.get(k)))
        if ctx.prove('shape of the table', len(V.shape) == 2 and andb(cmp('==', V.shape[0], n), cmp('==', V.shape[1], m))):
            with nd.nofork(): ctx.prove('values of the table', close(A.at(i, k), V.at(i, k), 8))
        L = got[4]['value']
        if ctx.prove('size of the output list', cmp('==', L.size(), q+1)):
            with nd.nofork(): ctx.prove('entries of the output list', cmp('==', L.get(j+1), outs.get(j+1)))
    ctx.run(body, post)

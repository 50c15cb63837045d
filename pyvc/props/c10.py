"""OpenFAST input files as case-insensitive ordered dictionaries (weio/fast_input_file.py)."""
from ..core import *
from ..interp import *
M = 'weio.fast_input_file:'
V = z3.DeclareSort('Value')
ASSUMPTIONS = ['entries are dictionaries with the keys of getDict (label: text, isComment: truth value); no entry object occurs twice in the list']
FIELDS = ('label', 'value', 'isComment', 'descr', 'tabType')

class Entry:
    """entry number k of the initial list (fields live in one memory region per field, so that writes are framed)"""
    _vc_model = True
    def __init__(self, mem, k): self.mem = mem; self.k = k
    def vc_subst(self, f): return Entry(self.mem, f(self.k))
    def vc_getitem(self, n):
        if n not in self.mem: raise PyRaise(KeyError(n))
        return self.mem[n].get((self.k,))
    def vc_setitem(self, n, v):
        if n not in self.mem: raise Unsupported('new key %r of an entry' % (n,))
        self.mem[n].write(((self.k, 1, 1),), None, lambda idx: v)
    def vc_contains(self, n): return n in self.mem
    def vc_truth(self): return True
    def vc_getattr(self, n):
        if n == 'get': return Builtin(lambda k, d=None: self.vc_getitem(k) if k in self.mem else d, 'get')
        if n == 'keys': return Builtin(lambda: SList(list(self.mem)), 'keys')
        if n == 'update': return Builtin(self.update, 'update')
        raise Unsupported('method %s of an entry' % n)
    def update(self, *a, **kw):
        for x in a:
            for k, v in x.items(): self.vc_setitem(k, v)
        for k, v in kw.items(): self.vc_setitem(k, v)

def deck(ctx, kind='base', nmin=0):
    """object with an arbitrary list of entries"""
    n = ctx.int('n', nmin)
    ctx.weak_ok = {'lower'}       # case folding is an arbitrary idempotent function
    ctx.eng.axiom_hooks['lower'] = lambda t: [t.decl()(t) == t]
    def field(name, sort, wrap):
        f = z3.Function(name, z3.IntSort(), sort)
        return nd.Storage((n,), lambda idx: wrap(f(zi(idx[0]))), 'O', name, pre=True)
    S = z3.StringSort()
    mem = dict(label=field('label', S, SymStr), value=field('value', V, SymObj), isComment=field('isComment', z3.BoolSort(), mkbool),
               descr=field('descr', S, SymStr), tabType=field('tabType', V, SymObj))
    data = SList(segs=[Seg(n, lambda k: Entry(mem, k))])
    o = ctx.obj(M+'FASTInputFileBase')
    o.attrs.update(data=data, hasNodal=False, module=None, filename=None, _size=None, _encoding=None)
    f = o
    if kind == 'wrapped':
        f = ctx.obj(M+'FASTInputFile'); f.attrs.update(_fixedfile=o, basefile=o)
    old = {k: mem[k].fn for k in mem}
    return n, mem, old, o, f, data
lower = libs.uf_s
def lo(ctx, s): return ctx.call(ctx.it.getattr(s, 'lower'))
def L(ctx, old, i): return lo(ctx, old['label']((i,)))

def frame(ctx, mem, old, i, but=(), who='every other entry and field is untouched'):
    """the fields of entry i are those of the initial state"""
    for k in FIELDS:
        if k in but: continue
        ctx.prove(who, cmp('==', mem[k].get((i,)), old[k]((i,))), 'field '+k)
def same_list(ctx, o, data, segs, name='no entry is added or removed'):
    ctx.prove(name, o.attrs.get('data') is data and [s for s in data.segs if s != []] == segs)
def methods(ctx, f, name): return ctx.it.getattr(f, name)

for kind in ('base', 'wrapped'):
    def mk(kind):
        fn = ['FASTInputFileBase.'] if kind == 'base' else ['FASTInputFile.', 'FASTInputFileBase.']
        def names(*xs): return [p+x for p in fn for x in xs]

        @contract('get-'+kind, names('__getitem__', 'getID', 'getIDSafe'))
        def get(ctx):
            n, mem, old, o, f, data = deck(ctx, kind); key = ctx.str('key'); segs = list(data.segs)
            def post(r, exc):
                q = ctx.int('q', 0); kl = lo(ctx, key)
                if exc is not None:
                    ctx.prove('a missing key raises KeyError', isinstance(exc.exc, KeyError), 'raises %r' % (exc.exc,))
                    ctx.prove('KeyError only if no entry has that label (ignoring case)', cmp('!=', L(ctx, old, ctx.idx('j', n)), kl)); return
                same_list(ctx, o, data, segs)
                # and there is one: if every entry differed, KeyError was due
                ctx.prove('a value is only returned when there is an entry with that label', notb(SymBool(z3.ForAll([q.z()], z3.Implies(z3.And(q.z() >= 0, q.z() < zi(n)), zb(cmp('!=', L(ctx, old, q), kl)))))))
                # r must be the value of the first match
                i = ctx.idx('i', n)
                first = andb(cmp('==', L(ctx, old, i), kl), SymBool(z3.ForAll([q.z()], z3.Implies(z3.And(q.z() >= 0, q.z() < zi(i)), zb(cmp('!=', L(ctx, old, q), kl))))))
                ctx.prove('the value returned is that of the first entry with that label (ignoring case)', orb(notb(first), cmp('==', r, old['value']((i,)))))
                frame(ctx, mem, old, i, who='reading changes no entry')
            ctx.run(lambda: ctx.call(methods(ctx, f, '__getitem__'), key), post)

        @contract('set-'+kind, names('__setitem__', 'getIDs'))
        def set_(ctx):
            n, mem, old, o, f, data = deck(ctx, kind); key = ctx.str('key'); segs = list(data.segs)
            v = SymObj(z3.Const('newvalue', V))
            def post(r, exc):
                kl = lo(ctx, key); q = ctx.int('q', 0); same_list(ctx, o, data, segs)
                if exc is not None: ctx.prove('a missing key raises KeyError', isinstance(exc.exc, KeyError), 'raises %r' % (exc.exc,))
                else: ctx.prove('an assignment succeeds only when there is an entry with that label', notb(SymBool(z3.ForAll([q.z()], z3.Implies(z3.And(q.z() >= 0, q.z() < zi(n)), zb(cmp('!=', L(ctx, old, q), kl)))))))
                i = ctx.idx('i', n); m = cmp('==', L(ctx, old, i), kl)
                if exc is not None:
                    ctx.prove('KeyError only if no entry has that label (ignoring case)', notb(m))
                    frame(ctx, mem, old, i, who='a failed assignment changes no entry'); return
                ctx.prove('exactly the entries with that label (ignoring case) get the value', cmp('==', mem['value'].get((i,)), ite(m, v, old['value']((i,)))))
                frame(ctx, mem, old, i, ('value',), 'nothing but the value of an entry is changed')
            ctx.run(lambda: ctx.call(methods(ctx, f, '__setitem__'), key, v), post)

        @contract('keys-'+kind, names('keys'))
        def keys(ctx):
            n, mem, old, o, f, data = deck(ctx, kind, 1); segs = list(data.segs)
            def post(r, exc):
                nm = 'the keys are the labels of the non-comment entries in file order'
                if exc is not None: ctx.fail(nm, 'raises %r' % (exc.exc,)); return
                same_list(ctx, o, data, segs); i = ctx.idx('i', n); r = to_seq(r)
                from ..loops import FilterSeg
                ss = [s for s in r.segs if s != []]
                if len(ss) == 1 and isinstance(ss[0], FilterSeg):
                    s = ss[0]
                    ctx.prove(nm, cmp('==', s.N, n), 'all entries are considered')
                    c = notb(old['isComment']((i,)))
                    ctx.prove(nm, cmp('==', s.sel(i), c), 'selection')
                    ctx.prove(nm, orb(notb(c), cmp('==', s.item(i), old['label']((i,)))), 'text')
                elif not ss or (len(ss) == 1 and isinstance(ss[0], Seg)):
                    # list without filter: right only if the filter keeps all entries
                    m = r.size()
                    ctx.prove(nm, orb(old['isComment']((i,)), cmp('>', m, 0)), 'no label')
                    if ss:
                        ctx.prove(nm, cmp('<=', m, n), 'number of labels')
                        ctx.prove(nm, orb(cmp('!=', m, n), notb(old['isComment']((i,)))), 'comment')
                        ctx.prove(nm, orb(cmp('!=', m, n), cmp('==', ss[0].get(i), old['label']((i,)))), 'text')
                        ctx.prove(nm, cmp('==', m, n), 'number of labels')
                else: ctx.unknown(nm, 'shape of the returned list')
                frame(ctx, mem, old, i, who='listing the keys changes no entry')
            ctx.run(lambda: ctx.call(methods(ctx, f, 'keys')), post)

        @contract('iterate-'+kind, names('__iter__', '__next__'))
        def iterate(ctx):
            n, mem, old, o, f, data = deck(ctx, kind); segs = list(data.segs)
            client = ctx.ghost('''
def client(f, n):
    """visit at most n+1 entries"""
    out = []
    for _ in range(n+1):
        try:
            d = next(f)
        except StopIteration:
            return out, True
        out.append(d)
    return out, False
''')
            p = ctx.int('p', -1); extra = ctx.bool('again')
            def body():
                it = f
                if truth(extra):         # an earlier, partial iteration
                    o.attrs['iCurrent'] = p; ctx.assume(cmp('<', p, n)); o.attrs['iMax'] = n-1
                it = ctx.call(ctx.it.builtins['iter'], f)
                return ctx.call(client, it, n)
            def post(r, exc):
                if exc is not None: ctx.fail('an iteration ends without an error', 'raises %r' % (exc.exc,)); return
                out, stop = r
                ctx.prove('the iteration stops after the last entry', stop)
                ctx.prove('every entry is visited exactly once', cmp('==', out.size(), n)); same_list(ctx, o, data, segs)
                i = ctx.idx('i', n)
                with nd.nofork(): e = out.get(i)
                if not isinstance(e, Entry): ctx.unknown('the entries are visited in file order', 'the iteration returns %r' % (e,)); return
                ctx.prove('the entries are visited in file order', andb(e.mem is mem, cmp('==', e.k, i)))
                frame(ctx, mem, old, i, who='iterating changes no entry')
            ctx.run(body, post)
    mk(kind)

def added(ctx, o, data, segs, name, n=1):
    """the entries after the initial ones"""
    now = [s for s in data.segs if s != []]
    ok = o.attrs.get('data') is data and now[:len(segs)] == segs
    ctx.prove('the existing entries stay, in order', ok)
    if not ok: return None
    new = [x for s in now[len(segs):] for x in (s if isinstance(s, list) else [s])]
    return new

for how in ('addKeyVal', 'addKeyVal-descr', 'addValKey'):
    def mk2(how):
        @contract(how, ['FASTInputFileBase.'+how.split('-')[0], 'FASTInputFileBase.getIDSafe', 'getDict'])
        def add(ctx):
            n, mem, old, o, f, data = deck(ctx); key = ctx.str('key'); segs = list(data.segs)
            v = SymObj(z3.Const('newvalue', V)); descr = ctx.str('descr')
            def body():
                if how == 'addValKey': return ctx.call(methods(ctx, o, 'addValKey'), v, key)
                return ctx.call(methods(ctx, o, 'addKeyVal'), key, v, *([descr] if how.endswith('descr') else []))
            def post(r, exc):
                if exc is not None: ctx.fail('adding a key succeeds', 'raises %r' % (exc.exc,)); return
                kl = lo(ctx, key)
                new = added(ctx, o, data, segs, how)
                if new is None: return
                q = ctx.int('q', 0)
                if not new: ctx.prove('an entry with that label exists when nothing is appended', notb(SymBool(z3.ForAll([q.z()], z3.Implies(z3.And(q.z() >= 0, q.z() < zi(n)), zb(cmp('!=', L(ctx, old, q), kl)))))))
                else:
                    d = new[0] if len(new) == 1 else None
                    ctx.prove('exactly one entry is appended', isinstance(d, dict))
                    if isinstance(d, dict):
                        ctx.prove('the new entry has the label and the value', andb(tb(equal(d.get('label'), key)), tb(equal(d.get('value'), v)), tb(equal(d.get('isComment'), False))))
                        if how.endswith('descr'): ctx.prove('the description of the new entry is set', tb(equal(d.get('descr'), descr)))
                i = ctx.idx('i', n)
                before = SymBool(z3.ForAll([q.z()], z3.Implies(z3.And(q.z() >= 0, q.z() < zi(i)), zb(cmp('!=', L(ctx, old, q), kl)))))
                first = andb(cmp('==', L(ctx, old, i), kl), before)
                if new:
                    ctx.prove('an entry is appended only if no entry has that label (ignoring case)', cmp('!=', L(ctx, old, i), kl))
                    frame(ctx, mem, old, i, who='the existing entries are untouched')
                else:
                    nf = notb(first)
                    ctx.prove('the first entry with that label gets the value', orb(nf, cmp('==', mem['value'].get((i,)), v)))
                    ctx.prove('the label of the entry is the key', orb(nf, cmp('==', mem['label'].get((i,)), key)))
                    for k in FIELDS: ctx.prove('every other entry is untouched', orb(first, cmp('==', mem[k].get((i,)), old[k]((i,)))), 'field '+k)
                    for k in ('isComment', 'tabType')+(() if how.endswith('descr') else ('descr',)): ctx.prove('the other fields of the entry are untouched', cmp('==', mem[k].get((i,)), old[k]((i,))), 'field '+k)
                    if how.endswith('descr'): ctx.prove('the description is set', orb(nf, cmp('==', mem['descr'].get((i,)), descr)))
            ctx.run(body, post)
    mk2(how)

@contract('addComment', ['FASTInputFileBase.addComment', 'getDict'])
def add_comment(ctx):
    n, mem, old, o, f, data = deck(ctx); segs = list(data.segs); txt = ctx.str('txt')
    def post(r, exc):
        if exc is not None: ctx.fail('adding a comment succeeds', 'raises %r' % (exc.exc,)); return
        new = added(ctx, o, data, segs, 'addComment')
        if new is None: return
        d = new[0] if len(new) == 1 else None
        ctx.prove('exactly one entry is appended, a comment with the text', isinstance(d, dict) and andb(tb(equal(d.get('isComment'), True)), tb(equal(d.get('value'), txt)), tb(equal(d.get('label'), ''))))
        frame(ctx, mem, old, ctx.idx('i', n), who='the existing entries are untouched')
    ctx.run(lambda: ctx.call(methods(ctx, o, 'addComment'), txt), post)

@contract('addTable', ['FASTInputFileBase.addTable', 'getDict'])
def add_table(ctx):
    n, mem, old, o, f, data = deck(ctx); segs = list(data.segs); lab = ctx.str('lab'); dv = ctx.str('dimvar')
    v, cols, units, tt = [SymObj(z3.Const(x, V)) for x in ('tab', 'cols', 'units', 'tt')]
    def post(r, exc):
        if exc is not None: ctx.fail('adding a table succeeds', 'raises %r' % (exc.exc,)); return
        new = added(ctx, o, data, segs, 'addTable')
        if new is None: return
        d = new[0] if len(new) == 1 else None
        ctx.prove('exactly one entry is appended, with the table', isinstance(d, dict) and andb(*[tb(equal(d.get(k), x)) for k, x in
                  (('label', lab), ('value', v), ('tabColumnNames', cols), ('tabUnits', units), ('tabType', tt), ('tabDimVar', dv), ('isComment', False))]))
        frame(ctx, mem, old, ctx.idx('i', n), who='the existing entries are untouched')
    ctx.run(lambda: ctx.call(methods(ctx, o, 'addTable'), lab, v, cols=cols, units=units, tabType=tt, tabDimVar=dv), post)

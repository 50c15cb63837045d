"""Repetitions of varying length: lists of rows whose lengths depend on the row, and dictionaries filled by a loop.

OFF(k) is the prefix sum of the row lengths cnt: OFF(0) = 0, OFF(k+1) = OFF(k)+cnt(k) (a definition; the facts used about it follow by
induction from cnt >= 0, which holds because cnt is the length of a list)."""
import z3
from . import terms as T
from .terms import *
from . import interp as I
from .interp import SList, Seg, PoisonRead
Z = z3.IntSort()
OFFS = {}      # name -> (canonical cnt, canonical N, number of parameters)
_offkey = {}
def offname(k, cnt, n):
    from . import strs
    c = zi(cnt); N = zi(n)
    cs = {}; cs.update(strs.consts(c)); cs.update(strs.consts(N))
    lv = [v for v in cs.values() if v.sort() == Z and not v.eq(k)]
    m = [(k, strs.REPK)]+[(v, strs.canon(j)) for j, v in enumerate(lv)]
    key = (norm(z3.substitute(c, *m)), norm(z3.substitute(N, *m)) if lv else N)
    nm = _offkey.get(key)
    if nm is None: nm = _offkey[key] = 'off!%d' % len(OFFS); OFFS[nm] = key+(len(lv),)
    return nm, lv
def cnt_at(nm, args, kk):
    from . import strs
    c, N, m = OFFS[nm]
    return subst(mkint(c), [(strs.REPK, kk)]+[(strs.canon(j), mkint(a)) for j, a in enumerate(args)])
def total(nm, args):
    from . import strs
    c, N, m = OFFS[nm]
    return subst(mkint(N), [(strs.canon(j), mkint(a)) for j, a in enumerate(args)])
def off(nm, args, kk):
    """prefix sum in normal form: 0 at 0, unfolded at kk+1"""
    p = P(kk); add = 0
    while True:
        if p.isconst() and p.constval() <= 0: return add
        c = p.m.get((), 0)
        if c >= 1 and (c <= 64 or p.isconst()):
            p = p-Poly.const(1); add = add+cnt_at(nm, args, mkint(p)); continue
        break
    eng = T.ENG
    if nm not in eng.axiom_hooks: eng.axiom_hooks[nm] = lambda t: facts(nm, t)
    return mkint(z3.Function(nm, *([Z]*(len(args)+2)))(*(list(args)+[p.z3()])))+add
def facts(nm, t):
    m = OFFS[nm][2]; args = [t.arg(j) for j in range(m)]; k = t.arg(m)
    N = zi(total(nm, args)); c = zi(cnt_at(nm, args, mkint(k))); f = t.decl()
    tN = f(*(args+[N])); c0 = zi(cnt_at(nm, args, 0))
    return [z3.Implies(z3.And(k >= 1, k <= N), z3.And(t >= c0, c0 >= 0)), z3.Implies(k <= 0, t == 0), z3.Implies(z3.And(k >= 0, k <= N), z3.And(t >= 0, t <= tN)), z3.Implies(z3.And(k >= 0, k < N), z3.And(c >= 0, t+c <= tN))]
class RagSeg(Seg):
    """row(0) ++ row(1) ++ ... ++ row(N-1)"""
    def __init__(self, N, k, row, nm=None, args=None):
        self.N = N; self.k = k; self.row = row
        if nm is None: nm, args = offname(k, row.size(), N)
        self.nm = nm; self.args = lv = [norm(a) for a in args]
        self.n = off(self.nm, lv, N); self.get = self._get
        eng = T.ENG; rg = eng.__dict__.setdefault('rags', {})
        rg[(self.nm, tuple(a.get_id() for a in lv), P(N).key())] = self
    def off(self, K): return off(self.nm, self.args, K)
    def rowat(self, kk):
        from . import loops
        return loops.subst_val(self.row, [(self.k, kk)])
    def where(self, q):
        """(iteration, offset in its row)"""
        p = P(q); ids = [a.get_id() for a in self.args]; m = len(ids); eng = T.ENG
        for a in sorted(p.atoms()):
            t = atom_term(a)
            if z3.is_app(t) and t.decl().name() == self.nm and p.m.get(((a, 1),)) == 1 and all(x.eq(y) for x, y in zip(t.children()[:m], self.args)):
                kk = mkint(t.arg(m)); r = mkint(p-P(off(self.nm, self.args, kk)))
                if self.inrow(kk, r): return kk, r
                # the start of the next row reached through its own count is in normal form already; other offsets are not located
                return None
        if self.inrow(0, q): return 0, q
        return None
    def inrow(self, kk, r):
        eng = T.ENG; c = cnt_at(self.nm, self.args, kk)
        ok = andb(cmp('>=', kk, 0), cmp('<', kk, self.N), cmp('>=', r, 0), cmp('<', r, c))
        if not (ok is True or (ok is not False and eng.implied(zb(ok)))): return False
        eng.assume(cmp('<=', self.off(kk)+c, self.n)); return True      # row kk is one of the rows
    def _get(self, q):
        w = self.where(q)
        if w is None: raise Unsupported('element of a list of rows of varying length')
        return self.rowat(w[0]).get(w[1])
    def subslice(self, a, m):
        w = self.where(a)
        if w is None:
            return None
        kk, r = w; row = self.rowat(kk)
        if not T.ENG.implied(zb(cmp('<=', r+m, row.size()))): return None
        if row.concrete() and isinstance(r, int) and isinstance(m, int): return [row.items[r:r+m]]
        return I.aligned_slice(row, r, m)
    def vc_subst(self, f, pairs):
        k2 = z3.Const('rag!%d' % self.k.get_id(), Z) if any(depends_t(self.k, x) for _, x in pairs) else self.k
        from . import loops
        row = self.row if k2 is self.k else loops.subst_val(self.row, [(self.k, mkint(k2))])
        return RagSeg(f(self.N), k2, loops.subst_val(row, [p for p in pairs if not p[0].eq(k2)]), self.nm, [zi(f(mkint(a))) for a in self.args])
def depends_t(k, v):
    from . import loops
    return loops.depends(v, k)

# ------------------------------------------------------------------ dictionaries filled by a loop
class SymKey:
    """symbolic dictionary key as part of a location, compared syntactically"""
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
    def __eq__(a, b): return isinstance(b, SymKey) and type(a.k) is type(b.k) and norm(a.k.z()).eq(norm(b.k.z()))
    def __hash__(self): return norm(self.k.z()).hash()
    def find(self, d):
        for x in d:
            if isinstance(x, Sym) and SymKey(x) == self: return x
        return None
class DictFam:
    """the entries key(j): val(j), j = 0..n-1, of a dictionary, in this order and with pairwise different keys"""
    _vc_model = True
    def __init__(self, n, k, key, val): self.n = n; self.k = k; self.key = key; self.val = val
    def keyat(self, j): return subst(self.key, [(self.k, j)])
    def valat(self, j):
        if self.val is None: raise Unsupported('entry of an earlier iteration')
        return self.val(j)
    def vc_binop(self, op, a, b):
        x = b if a is self else a
        if op not in ('==', '!=') or isinstance(x, DictFam): raise Unsupported('dictionary key comparison')
        eng = T.ENG
        k = mkint(z3.Const(eng.fresh_name('dk'), Z))
        c = I.equal(self.keyat(k), x)
        if c is False or eng.implied(zb(notb(andb(cmp('>=', k, 0), cmp('<', k, self.n), c)))): return op == '!='
        raise Unsupported('key comparison with the entries added by a loop')
class SymDict:
    """a dictionary with n entries key(j): val(j) in this order (read only), given by a contract"""
    _vc_model = True
    def __init__(self, n, key, val): self.n = n; self.key = key; self.val = val
    def vc_len(self): return self.n
    def vc_truth(self): return I.truth(cmp('>', self.n, 0))
    def vc_seq(self): return SList(segs=[Seg(self.n, self.key)])
    def items(self): return SList(segs=[Seg(self.n, lambda j: (self.key(j), self.val(j)))])
    def keys(self): return self.vc_seq()
    def values(self): return SList(segs=[Seg(self.n, self.val)])
    def copy(self): return self
    def vc_subst(self, f): return self
    def vc_getitem(self, i):
        j = self.index(i)
        if j is None: raise Unsupported('lookup in a symbolic dictionary')
        return self.val(j)
    def index(self, i):
        """the entry whose key is syntactically i"""
        if not isinstance(i, Sym): return None
        t = norm(i.z()); k = z3.Const('sd!k', Z); pat = norm(self.key(mkint(k)).z())
        if z3.is_app(pat) and z3.is_app(t) and pat.decl().eq(t.decl()) and pat.num_args() and pat.arg(pat.num_args()-1).eq(k):
            j = mkint(t.arg(t.num_args()-1))
            if norm(self.key(j).z()).eq(t) and T.ENG.implied(zb(andb(cmp('>=', j, 0), cmp('<', j, self.n)))): return j
        return None
def fams(d): return any(isinstance(k, DictFam) for k in d)
def items_of(d):
    segs = [[]]
    for k, v in d.items():
        if isinstance(k, DictFam): segs += [Seg(k.n, lambda j, k=k: (k.keyat(j), k.valat(j))), []]
        else: segs[-1].append((k, v))
    return SList(segs=segs)
def view(d, n):
    if n == 'items': return I.Builtin(lambda: items_of(d), n)
    def part(j): return SList(segs=[[x[j] for x in s] if isinstance(s, list) else Seg(s.n, lambda q, s=s: s.get(q)[j]) for s in items_of(d).segs])
    if n == 'keys': return I.Builtin(lambda: part(0), n)
    if n == 'values': return I.Builtin(lambda: part(1), n)
    raise Unsupported('dictionary method %s after a loop that fills it' % n)

"""Loops over a symbolic number of iterations.

A summary (loop invariant) is synthesised and checked, per loop and per run: the locations the body modifies are discovered, the
state at the start of an arbitrary iteration k is expressed in closed form (linear recurrences, affine families of array writes,
appended list segments, appended file segments), the body is executed once from that state for a generic k on all its paths, and
the state it leaves must be the closed form at k+1.  What does not fit is Unsupported (undecided), never assumed."""
import z3
from . import terms as T
from .terms import *
from .engine import PyRaise, Infeasible
from . import interp as I
from .interp import *
from . import nd, libs
from .nd import Arr, Storage, gand, gdec, nofork, in_box
Z = z3.IntSort()
NOVAL = object()
BOUNDS = {}

def for_loop(it, seq, body):
    for seg in list(seq.segs):
        if isinstance(seg, list):
            if len(seg) > 4000: raise Unsupported('long concrete loop')
            for x in list(seg):
                try: body(x)
                except ContinueEx: continue
                except BreakEx: return True
        elif isinstance(seg.n, int):
            for k in range(seg.n):
                try: body(seg.get(k))
                except ContinueEx: continue
                except BreakEx: return True
        else:
            if sym_for(it, seg.n, seg.get, body): return True
    return False

# ------------------------------------------------------------------ locations
def loc_get(loc):
    k = loc[0]
    if isinstance(loc[2] if len(loc) > 2 else None, SymKey):
        x = loc[2].find(loc[1].d)
        with T.hashing(): return NOVAL if x is None else loc[1].d[x]
    if k in ('env', 'attr', 'dict'): return loc[1].d.get(loc[2], NOVAL)
    if k == 'list': return list(loc[1].segs)
    if k == 'stor': return (loc[1].fn, loc[1].wlog)
    if k == 'fpos': return loc[1].pos
    if k == 'fseg': return list(loc[1].segs)
    raise Unsupported('loop modifies '+k)
def loc_set(it, loc, v):
    k = loc[0]
    if isinstance(loc[2] if len(loc) > 2 else None, SymKey): raise Unsupported('symbolic dictionary key in a loop')
    if k in ('env', 'attr', 'dict'):
        if v is NOVAL:
            if loc[2] in loc[1].d: it.deld(loc[1].d, loc[2], k)
        else: it.setd(loc[1].d, loc[2], v, k)
    elif k == 'list': loc[1]._save(); loc[1].segs = [list(s) if isinstance(s, list) else s for s in v]
    elif k == 'stor': loc[1].setfn(*v)
    elif k == 'fpos': loc[1].setpos(v)
    elif k == 'fseg': loc[1].setsegs(list(v))
def mentions(t, names):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names: return True
            st += x.children()
    return False
def is_scalar(loc): return loc[0] in ('env', 'attr', 'dict', 'fpos')

def subst_val(v, pairs):
    if not pairs or v is None or v is NOVAL: return v
    if isinstance(v, Sym): return subst(v, pairs)
    if isinstance(v, tuple): return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, (str, int, float, bool, bytes)): return v
    if isinstance(v, Arr):
        f = v.snap()
        return nd.new(tuple(subst_val(n, pairs) for n in v.shape), lambda idx: subst_val(f(idx), pairs), v.code)
    if isinstance(v, SList):
        return SList(segs=[[subst_val(x, pairs) for x in s] if isinstance(s, list) else s.vc_subst(lambda x: subst_val(x, pairs), pairs) if hasattr(s, 'vc_subst') else Seg(subst_val(s.n, pairs), lambda q, s=s: subst_val(s.get(q), pairs)) for s in v.segs])
    if isinstance(v, dict): return {k: subst_val(x, pairs) for k, x in v.items()}
    if isinstance(v, IObj):
        o = IObj(v.cls); o.attrs = {k: subst_val(x, pairs) for k, x in v.attrs.items()}
        o.payload = None if v.payload is None else subst_val(v.payload, pairs); o.args = v.args
        return o
    if isinstance(v, libs.FileBytes): return libs.FileBytes(v.f, subst_val(v.off, pairs), subst_val(v.n, pairs))
    if isinstance(v, (IFunction, IClass, Builtin, TypeModel, IMethod, Module, ModelModule, Missing, libs.RFile, libs.WFile)): return v
    if hasattr(v, 'vc_subst'): return v.vc_subst(lambda x: subst_val(x, pairs))
    if isinstance(v, Poison): return v
    if type(v).__name__ in ('DType',): return v
    if isinstance(v, (SRange,)): return SRange(subst_val(v.a, pairs), subst_val(v.b, pairs), v.s)
    raise Unsupported('loop value of type %s' % type(v).__name__)
def depends(v, k):
    """does a scalar value depend on the z3 constant k"""
    if not isinstance(v, Sym): return False
    t = v.z()
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        st += x.children()
    return False
def merge(cases):
    """cases: list of (cond, value), exhaustive; scalar or array merge"""
    v = cases[-1][1]
    for c, x in reversed(cases[:-1]):
        if x is v: continue
        if isinstance(x, Arr) and isinstance(v, Arr):
            if len(x.shape) != len(v.shape) or any(P(p) != P(q) for p, q in zip(x.shape, v.shape)): raise Unsupported('merge of arrays of different shapes')
            fx, fv = x.snap(), v.snap()
            v = nd.new(x.shape, lambda idx, fx=fx, fv=fv, c=c: ite(c, fx(idx), fv(idx)), nd.promote(x.code, v.code))
        elif isinstance(x, dict) and isinstance(v, dict) and list(x) == list(v): v = {k: merge([(c, x[k]), (True, v[k])]) for k in x}
        elif isinstance(x, SList) and isinstance(v, SList) and x.concrete() and v.concrete() and len(x.items) == len(v.items):
            v = SList([merge([(c, p), (True, q)]) for p, q in zip(x.items, v.items)])
        elif isinstance(x, SList) and isinstance(v, SList) and P(x.size()) == P(v.size()):
            def get(q, x=x, v=v, c=c):
                with nofork(): return merge([(c, x.get(q)), (True, v.get(q))])
            v = SList(segs=[Seg(x.size(), get)])
        elif x is None and v is None: pass
        else: v = ite(c, x, v)
    return v

def freeze(v, ids, old=()):
    """containers built during the iteration, as they are now (their changes are undone when the path is left)"""
    if isinstance(v, list): return [x if id(x) in old or isinstance(x, Seg) else freeze(x, ids) for x in v]
    if isinstance(v, tuple): 
        r = tuple(freeze(x, ids) for x in v)
        return v if all(a is b for a, b in zip(v, r)) else r
    if isinstance(v, SList) and id(v) in ids:
        r = SList(segs=[freeze(list(s), ids) if isinstance(s, list) else s for s in v.segs])
        if getattr(v, 'istuple', False): r.istuple = True
        return r
    if isinstance(v, dict) and id(v) in ids: return {k: freeze(x, ids) for k, x in v.items()}
    if isinstance(v, Arr) and id(v.stor) in ids: return nd.new(v.shape, v.snap(), v.code)
    return v
class Path:
    __slots__ = ('kind', 'facts', 'ends', 'exc')

class Summary:
    """shared by for and while loops"""
    def __init__(self, it, body, k):
        self.it = it; self.eng = it.eng; self.body = body; self.k = k; self.K = mkint(k)
        self.locs = {}            # loc -> mode
        self.v0 = {}              # value at loop entry
        self.byconstruction = set()
        self.dfam = set()         # dictionaries filled by the loop
        self.N = None
        self.tried = set()
        self.form = {}            # scalar carried loc -> function K -> value
    # ---- one exploration of the body from the start state
    def explore(self, setup, collect_ends=True):
        eng = self.eng; paths = []
        eng.loopvars = eng.loopvars+[self.k]
        def fn():
            setup()
            self.nf_body = eng.nfresh
            try: self.body(self.K)
            except ContinueEx: return 'fall'
            except BreakEx: return 'break'
            except ReturnEx: return 'return'
            return 'fall'
        def collect(r, exc, mark, n0):
            p = Path(); p.kind = r if exc is None else 'raise'; p.exc = exc
            p.facts = list(eng.facts[n0:])
            if len(eng.inexact): pass
            touched = [l for l, _ in eng.trail[mark:] if l is not None]
            p.ends = {}
            if p.kind in ('fall', 'break', 'return'):
                ids = {id(l[1].d if isinstance(l[1], HD) else l[1]) for l in touched if l not in self.locs and l[0] in ('list', 'stor', 'dict', 'attr')}
                for l in touched:
                    old = {id(x) for x in flatten(self.v0[l])} if l in self.v0 and l[0] == 'list' else ()
                    p.ends[l] = freeze(loc_get(l), ids, old) if ids and l[0] in ('list', 'env', 'attr', 'dict') else loc_get(l)
            self.touched.update({l: None for l in touched})
            paths.append(p)
        try:
            eng.explore(fn, collect)
        finally: eng.loopvars = eng.loopvars[:-1]
        return paths
    def discover(self):
        sets = []
        for _ in range(2):
            self.touched = {}
            try: self.explore(lambda: None)
            except PoisonRead: raise
            sets.append(self.touched)
        locs = [l for l in sets[0] if l in sets[1]]
        for l in locs:
            if l[0] == 'dict' and isinstance(l[2], SymKey): self.dfam.add(l[1]); continue
            if l not in self.locs: self.add(l)
    def add(self, l):
        if l[0] in ('dict',) and l[2] is None: raise Unsupported('loop modifies a dictionary in bulk')
        if l[0] == 'set': raise Unsupported('loop modifies a set')
        self.locs[l] = 'poison' if is_scalar(l) else l[0]
        self.v0[l] = loc_get(l)
    # speculation while closed forms are looked for: integers do not fall below their value at loop entry.  The closed forms found
    # are checked on all paths without it (explore_full, check_forms); the forms that are exact by construction are not built then
    spec = False
    def setup_scalars(self):
        if self.spec:
            for l, m in self.locs.items():
                if m == 'sym' and isinstance(self.symv[l], SymInt): self.eng.assume(cmp('>=', self.symv[l], self.v0[l]))
        for l, m in self.locs.items():
            if not is_scalar(l): continue
            if m == 'poison': loc_set(self.it, l, Poison(l))
            elif m == 'sym': loc_set(self.it, l, self.symv[l])
            elif m == 'form': loc_set(self.it, l, self.form[l](self.K))
    def solve(self):
        """find modes for all scalar locations"""
        eng = self.eng
        for _ in range(12):
            self.touched = {}; 
            try:
                try: paths = self.explore(self.setup_scalars)
                except Unsupported:
                    if self.try_offsets(): continue
                    if self.spec or not any(m == 'sym' for m in self.locs.values()): raise
                    self.spec = True; self.touched = {}; paths = self.explore(self.setup_scalars)
            except PoisonRead as p:
                l = p.loc
                if l in self.locs and self.locs[l] == 'poison': self.make_sym(l); continue
                raise Unsupported('value of a loop temporary is read in a later iteration')
            self.check_new()
            syms = [l for l, m in self.locs.items() if m == 'sym']
            if not syms: return paths
            progress = False
            for l in syms:
                f = self.recurrence(l, paths)
                if f is not None: self.form[l] = f; self.locs[l] = 'form'; progress = True
            if not progress and self.guess is None:
                # candidate (checked by check_forms): one line of the file per iteration
                for l in syms:
                    if l[0] == 'fpos' and (l, 'line') not in self.tried and isinstance(self.v0[l], (int, SymInt)):
                        self.tried.add((l, 'line')); v0 = self.v0[l]; self.form[l] = lambda K, v0=v0: v0+K; self.locs[l] = 'form'; progress = True
                # candidate (checked by check_forms): a flag that keeps its value
                for l in syms:
                    if not progress and isinstance(self.v0[l], bool) and (l, 'const') not in self.tried:
                        self.tried.add((l, 'const')); v0 = self.v0[l]; self.form[l] = lambda K, v0=v0: v0; self.locs[l] = 'form'; progress = True
            if not progress: raise Unsupported('no closed form for %s' % (syms[0][2] if len(syms[0]) > 2 else syms[0][0],))
        raise Unsupported('loop summary did not stabilise')
    guess = None
    def try_offsets(self):
        """closed form candidates (checked by check_forms): the offset of row K in a list of rows of varying length"""
        if self.guess is not None:
            l = self.guess; self.locs[l] = 'sym'; del self.form[l]; self.guess = None
        rags = getattr(self.eng, 'rags', None)
        if not rags or self.N is None: return False
        for l, m in list(self.locs.items()):
            if m != 'sym' or not isinstance(self.symv[l], SymInt): continue
            for key, r in reversed(list(rags.items())):
                if (l, key) in self.tried or P(r.N) != P(self.N): continue
                self.tried.add((l, key)); v0 = self.v0[l]
                self.form[l] = lambda K, r=r, v0=v0: v0+r.off(K); self.locs[l] = 'form'; self.guess = l
                return True
        return False
    def check_new(self):
        pass
    symv = None
    def make_sym(self, l):
        if self.symv is None: self.symv = {}
        v = self.v0[l]; e = self.eng
        nm = 'X_%s' % (l[2] if len(l) > 2 else 'pos')
        if isinstance(v, (bool, SymBool)): self.symv[l] = SymBool(z3.Const(e.fresh_name(nm), z3.BoolSort()))
        elif isinstance(v, (int, SymInt)): self.symv[l] = mkint(z3.Const(e.fresh_name(nm), Z))
        elif isinstance(v, (float, SymReal)): self.symv[l] = SymReal(z3.Const(e.fresh_name(nm), z3.RealSort()))
        elif isinstance(v, (str, SymStr)): self.symv[l] = SymStr(z3.Const(e.fresh_name(nm), z3.StringSort()))
        else: raise Unsupported('loop-carried value of type %s' % type(v).__name__)
        self.locs[l] = 'sym'
    regular = None      # index of the regular path for while loops
    def falls(self, paths): return [p for p in paths if p.kind == 'fall']
    def recurrence(self, l, paths):
        X = self.symv[l]; v0 = self.v0[l]; ps = self.falls(paths)
        if self.regular is not None: ps = [p for p in ps if self.is_regular(p)]
        if not ps: return lambda K: v0
        ends = []
        for p in ps: ends.append(p.ends.get(l, X))
        if any(isinstance(e, Poison) for e in ends): return None
        others = [s.z() for m, s in self.symv.items() if self.locs.get(m) == 'sym' and m is not l]
        def clean(e): return not any(depends(e, s) for s in others)
        if isinstance(X, SymStr):
            from . import strs
            rests = [strs.appended(X, e) for e in ends]
            if rests[0] is not None and all(r is not None and norm(zs(r)).eq(norm(zs(rests[0]))) for r in rests) and clean(rests[0]):
                rest = rests[0]
                form = lambda K: catstr(v0, strs.repeat(self.k, rest, K))
                self.strrest = getattr(self, 'strrest', {}); self.strrest[l] = rest; return form
        xz = X.z()
        # unchanged
        if all(isinstance(e, Sym) and e.z().eq(xz) for e in ends): return lambda K: v0
        if all(is_num(e) for e in ends) and isinstance(X, (SymInt, SymReal)):
            ds = [arith('-', e, X) if isinstance(X, SymInt) else mkreal(z3.simplify(zr(e)-zr(X), som=True)) for e in ends]
            d = ds[0]
            if all((isinstance(x, int) and isinstance(d, int) and x == d) or (isinstance(x, SymInt) and isinstance(d, SymInt) and x.p == d.p) for x in ds) and not depends(d, xz) and not depends(d, self.k) and clean(d):
                if isinstance(v0, (int, SymInt)): return lambda K: v0+K*d
            if isinstance(X, SymReal):
                dr = z3.simplify(zr(ends[0])-zr(X), som=True)
                if len(ends) == 1 and not depends(SymReal(dr), xz) and not depends(SymReal(dr), self.k) and clean(SymReal(dr)):
                    return lambda K: mkreal(zr(v0)+zr(K)*dr)
        # overwritten by a value that does not depend on the previous one
        if len(ends) == 1 and not depends(ends[0], xz) and clean(ends[0]) and isinstance(ends[0], (Sym, int, float, str, bool)):
            e = ends[0]
            return lambda K: ite(cmp('==', K, 0), v0, subst(e, [(self.k, K-1)]) if isinstance(e, Sym) else e)
        return self.guarded(X, v0, ps, ends, clean) if self.regular is None and not self.spec else None
    def guarded(self, X, v0, ps, ends, clean):
        """conditional overwrite (last match) or conditional increment (counter)"""
        eng = self.eng; xz = X.z(); sel = []; vals = []; kind = None
        for p, e in zip(ps, ends):
            c = mkbool(z3.And(p.facts)) if p.facts else True
            if isinstance(c, Sym) and (depends(c, xz) or not clean(c)): return None
            if isinstance(e, Sym) and e.z().eq(xz): continue
            if isinstance(e, Sym) and depends(e, xz):
                d = arith('-', e, X) if isinstance(X, SymInt) and isint(e) else None
                if not (isinstance(d, int) and d == 1) or kind == 'last': return None
                kind = 'count'
            else:
                if kind == 'count' or not isinstance(e, (Sym, int, float, str, bool)) or not clean(e): return None
                kind = 'last'
            sel.append(c); vals.append((c, e))
        if kind is None: return None
        if isinstance(X, SymBool) and any(not isinstance(e, (bool, SymBool)) for _, e in vals): return None
        if isinstance(X, SymInt) and any(not isint(e) for _, e in vals): return None
        if isinstance(X, SymStr) and any(not isinstance(e, (str, SymStr)) for _, e in vals): return None
        if isinstance(X, SymReal) and any(not is_num(e) for _, e in vals): return None
        S = orb(*sel)
        def at(c, i): return subst(c, [(self.k, i)]) if isinstance(c, Sym) else c
        lv = list(eng.loopvars); F = z3.Function(eng.fresh_name('last' if kind == 'last' else 'count'), *([Z]*(len(lv)+2)))
        f = lambda K: mkint(F(*(lv+[zi(K)])))
        a, b = [z3.Const(eng.fresh_name('gk'), Z) for _ in range(2)]; A, B = mkint(a), mkint(b)
        add = lambda vs, t: z3.ForAll(vs, t)
        if kind == 'last':
            eng.assume(cmp('==', f(0), -1))
            facts = [add([a], z3.Implies(a >= 0, z3.And(zi(f(A)) >= -1, zi(f(A)) < a, zi(f(A+1)) == z3.If(zb(at(S, A)), a, zi(f(A))), z3.Implies(zi(f(A)) >= 0, zb(at(S, f(A))))))),
                     add([a, b], z3.Implies(z3.And(b >= 0, b < a, zb(at(S, B))), zi(f(A)) >= b))]
            val = merge(vals)
            form = lambda K: ite(cmp('<', f(K), 0), v0, subst_val(val, [(self.k, f(K))]))
            def inst(K): eng.assume(cmp('>=', f(K), -1)); eng.assume(cmp('<', f(K), K)); eng.assume(orb(cmp('<', f(K), 0), at(S, f(K))))
        else:
            eng.assume(cmp('==', f(0), 0))
            W = z3.Function(eng.fresh_name('witness'), *([Z]*(len(lv)+2))); w = lambda K: mkint(W(*(lv+[zi(K)])))
            facts = [add([a], z3.Implies(a >= 0, z3.And(zi(f(A)) >= 0, zi(f(A)) <= a, zi(f(A+1)) == zi(f(A))+z3.If(zb(at(S, A)), z3.IntVal(1), z3.IntVal(0)),
                                          z3.Implies(zi(f(A)) >= 1, z3.And(zi(w(A)) >= 0, zi(w(A)) < a, zb(at(S, w(A)))))))),
                     add([a, b], z3.Implies(z3.And(b >= 0, b < a, zb(at(S, B))), zi(f(A)) >= 1))]
            form = lambda K: v0+f(K)
            def inst(K): eng.assume(cmp('>=', f(K), 0)); eng.assume(cmp('<=', f(K), K)); eng.assume(orb(cmp('<', f(K), 1), andb(cmp('>=', w(K), 0), cmp('<', w(K), K), at(S, w(K)))))
        old = eng.qfacts; eng.qfacts = old+facts
        eng.log(None, lambda: setattr(eng, 'qfacts', old))
        self.byconstruction.add(id(form)); self.inst = getattr(self, 'inst', [])+[inst]; self.keep = getattr(self, 'keep', [])+[form]
        return form
    def is_regular(self, p): return True
    # ---- containers
    def families(self, paths):
        """array write families, list appends and file appends of one iteration"""
        self.fam = {}; self.app = {}; self.fapp = {}; self.dkeys = {}
        for h in self.dfam:
            ks = []; vs = []
            for p in paths:
                ls = [l for l in p.ends if l[0] == 'dict' and l[1] == h and not isinstance(l[2], DictFam)]
                if len(ls) != 1 or not isinstance(ls[0][2], SymKey): raise Unsupported('dictionary entries stored by a loop')
                ks.append(ls[0][2]); vs.append(p.ends[ls[0]])
            if not ks: continue
            if any(x != ks[0] for x in ks) or not depends(ks[0].k, self.k): raise Unsupported('dictionary key stored by a loop')
            self.dkeys[h] = (ks[0].k, vs)
        for l, m in self.locs.items():
            if m == 'stor':
                base = len(self.v0[l][1]); fams = []
                for j, p in enumerate(paths):
                    if l not in p.ends: continue
                    for (box, cond, val) in p.ends[l][1][base:]:
                        fams.append((j, self.family(box), cond, val))
                self.fam[l] = fams
            elif m == 'list':
                n0 = self.v0[l]; res = []
                for p in paths:
                    segs = p.ends.get(l, None)
                    res.append([] if segs is None else self.appended(n0, segs))
                self.app[l] = res
            elif m == 'fseg':
                res = []
                for p in paths:
                    s = p.ends.get(l)
                    if s is None: res.append([]); continue
                    if [id(x) for x in s[:len(self.v0[l])]] != [id(x) for x in self.v0[l]]: raise Unsupported('loop rewrites a file')
                    res.append([x for x in s[len(self.v0[l]):] if not isinstance(x, Hole)])
                self.fapp[l] = res
    def appended(self, segs0, segs):
        flat0 = flatten(segs0); flat = flatten(segs)
        if len(flat) < len(flat0): raise Unsupported('loop shrinks a list')
        for a, b in zip(flat0, flat):
            if a is not b and not (isinstance(a, (int, float, str, bool, type(None))) and a == b): raise Unsupported('loop modifies list elements')
        return [x for x in flat[len(flat0):] if not (isinstance(x, Seg) and x.get is bad_get)]
    def family(self, box):
        k = atom_id(self.k)
        dep = [d for d, (a, st, n) in enumerate(box) if depends(a, self.k)]
        for (a, st, n) in box:
            if depends(n, self.k) or depends(st, self.k): raise Unsupported('size of the written region changes with the iteration')
        if not dep: return (box, None, None, None, None)
        d = dep[0]; a, st, n = box[d]
        fs = self.enum_of(a)
        if fs is not None and len(dep) == 1 and isinstance(n, int) and n == 1: return (box, d, fs, 0, dep)
        cr = P(a).coeff(k)
        if cr is None or k in cr[0].atoms() or k in cr[1].atoms() or any(depends(SymInt(Poly({((x, 1),): 1})), self.k) for x in cr[0].atoms() | cr[1].atoms()):
            raise Unsupported('write index is not affine in the iteration number')
        return (box, d, mkint(cr[0]), mkint(cr[1]), dep)
    def enum_of(self, a):
        """the filtered list whose element number is the iteration number, when a is that element"""
        if not isinstance(a, SymInt): return None
        t = a.z()
        if not z3.is_app(t): return None
        fs = self.eng.enums.get(t.decl().name())
        if fs is None or not t.arg(t.num_args()-1).eq(self.k): return None
        if any(not t.arg(j).eq(v) for j, v in enumerate(fs.lv)): return None
        return fs
    def owner(self, fam, idx):
        """(guard without range, iteration) that writes idx"""
        box, d, s, a0, dep = fam
        a, st, n = box[d]; i = idx[d]-a0
        if isinstance(s, FilterSeg): return gand(cmp('>=', i, 0), cmp('<', i, s.N), s.sel(i), cmp('>=', s.R(i), 0), cmp('==', s.E(s.R(i)), i)), s.R(i)
        if isinstance(n, int) and n == 1:
            if isinstance(s, int) and s == 1: return True, i
            if isinstance(s, int) and s == -1: return True, 0-i
            if isinstance(s, int) and s < 0: q, r = int_divmod(0-i, -s); return cmp('==', r, 0), q
            q, r = int_divmod(i, s); return cmp('==', r, 0), q
        if st == 1:
            if isinstance(s, int) and s < 0: raise Unsupported('descending block writes')
            q, r = int_divmod(i, s)
            if P(n) == P(s): return True, q
            if self.eng.prove_nonneg(P(s)-P(n)): return cmp('<', r, n), q
        raise Unsupported('overlapping block writes')
    def start_stor(self, l):
        """state of a storage at the start of iteration K"""
        fn0, w0 = self.v0[l]; fams = self.fam[l]
        if not fams: return (fn0, w0)
        def fn(idx):
            for j, fam, cond, val in fams:
                if fam[1] is None:
                    if gand(in_box(fam[0], idx)) is not False: raise Unsupported('loop-carried array dependence')
                    continue
                g, kk = self.owner(fam, idx)
                g = gand(g, cmp('>=', kk, 0), cmp('<', kk, self.K), in_box_other(fam, idx))
                if g is not False: raise Unsupported('loop-carried array dependence')
            return fn0(idx)
        return (fn, w0)
    def explore_full(self):
        """exploration from the complete start state; lengths of filtered lists are opaque"""
        eng = self.eng; self.lens = {}; lv = eng.loopvars
        eng.loopvars = lv+[self.k]
        try:
            for l, m in self.locs.items():
                if m == 'list' and self.list_count(l) is None: self.lens[l] = eng.fresh_int('len', 0)
        finally: eng.loopvars = lv
        paths = self.explore(self.setup_full)
        names = {v.z().decl().name() for v in self.lens.values()}
        if names and any(mentions(f, names) for p in paths for f in p.facts): raise Unsupported('length of a filtered list is used while it is built')
        return paths
    def setup_full(self):
        self.setup_scalars()
        for l, m in self.locs.items():
            if m == 'stor': loc_set(self.it, l, self.start_stor(l))
            elif m == 'list':
                cnt = self.list_count(l)
                if cnt is None: 
                    loc_set(self.it, l, self.v0[l]+[Seg(self.lens[l], bad_get)])
                elif not (isinstance(cnt, int) and cnt == 0): loc_set(self.it, l, self.v0[l]+[Seg(self.K*cnt, bad_get)])
            elif m == 'fseg':
                per = self.file_per(l)
                if not (isinstance(per, int) and per == 0): loc_set(self.it, l, self.v0[l]+[Hole(self.K*per)])
        for h, (key, vs) in self.dkeys.items():
            f = DictFam(self.K, self.fk, subst(key, [(self.k, mkint(self.fk))]), None); self.it.setd(h.d, f, f, 'dict')
    def list_count(self, l):
        ms = {len(a) if all(not isinstance(x, Seg) for x in a) else None for a in self.app[l]}
        if len(ms) == 1 and None not in ms: return ms.pop()
        if None in ms:
            sz = [SList(segs=joined(a)).size() for a in self.app[l]]
            if any(P(x) != P(sz[0]) for x in sz) or depends(sz[0], self.k): raise Unsupported('appends of varying symbolic length in a loop')
            return sz[0]
        return None
    def file_per(self, l):
        ps = self.fapp[l]
        sz = [libs.segsize(s) for s in ps]
        if any(P(x) != P(sz[0]) for x in sz) or depends(sz[0], self.k): raise Unsupported('iterations write different numbers of bytes: %s' % [str(P(x).z3()) for x in sz])
        return sz[0]
    def conds(self, paths):
        """guards of the fall paths (None when there is only one)"""
        if len(paths) == 1: return [True]
        fs = [[t for t in p.facts if t.get_id() not in BOUNDS] for p in paths]
        return [mkbool(z3.And(f)) if f else True for f in fs]
    def finish(self, paths, N):
        """state after N >= 1 iterations, all of them on the given paths"""
        it = self.it; k = self.k
        cs = self.conds(paths)
        for f in getattr(self, 'inst', []): f(N)
        last = [(k, N-1)]
        for h, (key, vs) in self.dkeys.items():
            f = DictFam(N, self.k, key, lambda j, vs=vs: merge([(subst_val(c, [(k, j)]), subst_val(v, [(k, j)])) for c, v in zip(cs, vs)])); it.setd(h.d, f, f, 'dict')
        for l, m in self.locs.items():
            if m == 'form': loc_set(it, l, self.form[l](N))
            elif m == 'poison':
                vs = [p.ends.get(l, NOVAL) for p in paths]
                if any(isinstance(v, Poison) or v is NOVAL for v in vs): loc_set(it, l, Poison(l)); continue
                try: loc_set(it, l, merge([(subst_val(c, last), subst_val(v, last)) for c, v in zip(cs, vs)]))
                except Unsupported: loc_set(it, l, Poison(l))
            elif m == 'stor': self.finish_stor(l, paths, cs, N)
            elif m == 'list':
                cnt = self.list_count(l); app = self.app[l]
                if cnt == 0: continue
                if cnt is None: loc_set(it, l, self.v0[l]+[FilterSeg(N, k, cs, app, self.eng)]); continue
                if not isinstance(cnt, int):
                    rows = [SList(segs=joined(a)) for a in app]
                    def get(q, rows=rows, cnt=cnt):
                        kk, j = int_divmod(q, cnt)
                        return subst_val(merge([(c, a.get(j)) for c, a in zip(cs, rows)]), [(k, kk)])
                    loc_set(it, l, self.v0[l]+[Seg(N*cnt, get)]); continue
                def get(q, app=app, cnt=cnt):
                    if cnt == 1: kk, j = q, 0
                    else: kk, j = int_divmod(q, cnt)
                    if not isinstance(j, int): 
                        cols = [merge([(c, a[jj]) for c, a in zip(cs, app)]) for jj in range(cnt)]
                        return subst_val(nd.pickv(cols, j), [(k, kk)])
                    return subst_val(merge([(c, a[j]) for c, a in zip(cs, app)]), [(k, kk)])
                loc_set(it, l, self.v0[l]+[Seg(N*cnt, get)])
            elif m == 'fseg':
                per = self.file_per(l)
                if isinstance(per, int) and per == 0 and not self.fapp[l][0]: continue
                segs = self.fapp[l][0] if len(paths) == 1 else self.merge_segs(cs, self.fapp[l])
                loc_set(it, l, self.v0[l]+[libs.RepSeg(N, k, segs, per)])
    def merge_segs(self, cs, ps):
        """the bytes written by one iteration, when every path writes items of the same types and counts"""
        a = ps[0]
        for b in ps[1:]:
            if len(b) != len(a) or any(not isinstance(x, libs.WSeg) or not isinstance(y, libs.WSeg) or x.code != y.code or P(x.count) != P(y.count) for x, y in zip(a, b)):
                raise Unsupported('file writes on several paths of a loop body')
        return [libs.WSeg(x.code, x.count, lambda q, j=j: merge([(c, p[j].get(q)) for c, p in zip(cs, ps)])) for j, x in enumerate(a)]
    def finish_stor(self, l, paths, cs, N):
        stor = l[1]; fams = self.fam[l]
        if not fams: return
        k = self.k
        loc_set(self.it, l, self.v0[l])
        if len(fams) > 1:
            if any(isinstance(f[2], FilterSeg) for _, f, _, _ in fams): raise Unsupported('several writes through a filtered index')
            doms = {(f[1], P(f[2]).key() if f[1] is not None else None, P(f[3]).key() if f[1] is not None else None, P(f[0][f[1]][2]).key() if f[1] is not None else None) for _, f, _, _ in fams}
            if len(doms) > 1 and not self.disjoint(fams): raise Unsupported('several interleaved array writes in a loop')
        for j, fam, cond, val in fams:
            box, d, s, a0, dep = fam
            pc = cs[j]
            if d is None:
                pairs = [(k, N-1)]
                c2 = None
                if cond is not None or pc is not True:
                    if pc is not True: raise Unsupported('conditional overwrite in a loop')
                    c2 = lambda idx, cond=cond: subst(cond(idx), pairs)
                stor.write(box, c2, lambda idx, val=val: subst_val(val(idx), pairs)); continue
            a, st, n = box[d]
            if isinstance(s, FilterSeg): nb = (0, 1, stor.shape[d])
            elif isinstance(n, int) and n == 1: nb = (a0, s, N) if not (isinstance(s, int) and s == 1) else (a0, 1, N)
            else: nb = (a0, 1, s*N)
            exact = not isinstance(s, FilterSeg) and ((isinstance(n, int) and n == 1) or P(n) == P(s))
            others = [x for x in dep if x != d]
            ub = tuple(nb if x == d else ((0, 1, stor.shape[x]) if x in others else b) for x, b in enumerate(box))
            def guard(idx, fam=fam, cond=cond, pc=pc, exact=exact, others=others):
                g, kk = self.owner(fam, idx); gs = [g]
                if isinstance(fam[2], FilterSeg): gs.append(cmp('<', kk, N))
                for x in others: gs.append(in_box((tuple(subst_val(v, [(k, kk)]) for v in fam[0][x]),), (idx[x],)))
                if cond is not None: gs.append(subst_val(cond(idx), [(k, kk)]))
                if pc is not True: gs.append(subst_val(pc, [(k, kk)]))
                return gand(*gs)
            def value(idx, fam=fam, val=val):
                g, kk = self.owner(fam, idx); return subst_val(val(idx), [(k, kk)])
            need = (not exact) or others or cond is not None or pc is not True
            stor.write(ub, guard if need else None, value)
    def disjoint(self, fams):
        """pairwise disjoint regions: some dimension with constant disjoint ranges"""
        for x in range(len(fams)):
            for y in range(x):
                b1, b2 = fams[x][1][0], fams[y][1][0]
                ok = False
                for d in range(len(b1)):
                    if d in (fams[x][1][4] or []) or d in (fams[y][1][4] or []): continue
                    (a1, s1, n1), (a2, s2, n2) = b1[d], b2[d]
                    if s1 != 1 or s2 != 1: continue
                    if gdec(cmp('<=', a1+n1, a2)) is True or gdec(cmp('<=', a2+n2, a1)) is True: ok = True; break
                if not ok: return False
        return True
def in_box_other(fam, idx):
    box, d, s, a0, dep = fam
    return gand(*[in_box((b,), (i,)) for x, (b, i) in enumerate(zip(box, idx)) if x not in dep])
def bad_get(q): raise Unsupported('list element of an earlier iteration')
def joined(items):
    """segments of a flattened list"""
    out = []
    for x in items:
        if isinstance(x, Seg): out.append(x)
        elif out and isinstance(out[-1], list): out[-1].append(x)
        else: out.append([x])
    return out
class Hole:
    def __init__(self, n): self.n = n
    def size(self): return self.n
def flatten(segs):
    out = []
    for s in segs:
        if isinstance(s, list): out += s
        else: out.append(s)
    return out
class FilterSeg(Seg):
    """elements appended conditionally: the items of the iterations k in 0..N-1 with sel(k), in iteration order (at most one each).
    E(q) is the iteration of element q, RANK its inverse; their defining facts are added to the quantified facts of the engine"""
    def __init__(self, N, k, conds, items, eng):
        if any(len(x) > 1 for x in items): raise Unsupported('conditional appends of several items')
        self.N = N; self.k = k; self.conds = conds; self.items = items
        cs = [c for c, x in zip(conds, items) if x]
        self._sel = orb(*cs) if cs else False
        n = self.n = eng.fresh_int('flen', 0)
        eng.assume(cmp('<=', n, N))
        lv = len(eng.loopvars); I = [z3.IntSort()]
        self.Ef = z3.Function(eng.fresh_name('enum'), *(I*(lv+2))); self.Rf = z3.Function(eng.fresh_name('rank'), *(I*(lv+2)))
        self.lv = list(eng.loopvars)
        eng.enums[self.Ef.name()] = self
        q, q2, i = [z3.Const(eng.fresh_name('fq'), Z) for _ in range(3)]
        Q, I_ = mkint(q), mkint(i)
        E, R = lambda t: self.E(t).z(), lambda t: self.R(t).z()
        sE = zb(self.sel(self.E(Q))); nz = zi(n)
        f1 = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nz), z3.And(E(Q) >= 0, E(Q) < zi(N), sE, R(self.E(Q)) == q)), patterns=[E(Q)])
        f2 = z3.ForAll([q, q2], z3.Implies(z3.And(q >= 0, q < q2, q2 < nz), E(Q) < E(mkint(q2))))
        si = zb(self.sel(I_))
        f3 = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(N), si), z3.And(R(I_) >= 0, R(I_) < nz, E(self.R(I_)) == i)))
        old = eng.qfacts; eng.qfacts = old+[f1, f2, f3]
        eng.log(None, lambda: setattr(eng, 'qfacts', old))
        self.get = self._get
    def E(self, q): return mkint(self.Ef(*(self.lv+[zi(q)])))
    def R(self, i): return mkint(self.Rf(*(self.lv+[zi(i)])))
    def sel(self, i): return subst_val(self._sel, [(self.k, i)]) if isinstance(self._sel, Sym) else self._sel
    def item(self, i):
        cases = [(c, x[0]) for c, x in zip(self.conds, self.items) if x]
        return subst_val(merge(cases), [(self.k, i)])
    def _get(self, q):
        eng = T.ENG; e = self.E(q)
        def base():
            eng.assume(impl(andb(cmp('>=', q, 0), cmp('<', q, self.n)), andb(cmp('>=', e, 0), cmp('<', e, self.N), self.sel(e), cmp('==', self.R(e), q))))
        base()
        if len(e.p.m) == 1: self.lbound(e)
        return self.item(e)
    def lbound(self, e): pass
def impl(a, b): return orb(notb(a), b)

def sym_for(it, n, get, body, first=True):
    eng = it.eng
    if not truth(cmp('>', n, 0)): return False
    try: s, k, paths, falls2 = summarise(it, n, get, body)
    except Unsupported as e:
        # no summary: the first iteration may differ from the others
        if not first or 'budget' in str(e) or 'paths' in str(e): raise
        try: body(get(0))
        except ContinueEx: pass
        except BreakEx: return True
        return sym_for(it, n-1, lambda q: get(q+1), body, False)
    exits = [p for p in paths if p.kind != 'fall']
    fallc = [z3.And(p.facts) if p.facts else z3.BoolVal(True) for p in falls2]
    fall = z3.Or(fallc) if len(fallc) > 1 else (fallc[0] if fallc else z3.BoolVal(False))
    if exits:
        c = eng.fork(2) if falls2 else 1
        if c == 1:
            if falls2:
                ks = eng.fresh_int('kx', 0, n-1)
                add_forall(eng, k, fall, 0, ks)
                if truth(cmp('>', ks, 0)): eng.assume_t(z3.substitute(fall, (k, zi(ks-1))))
                start_state(s, falls2, ks)
            else: ks = 0
            try: body(get(ks))
            except ContinueEx: raise Infeasible()
            except BreakEx: return True
            raise Infeasible()
        for kk in (0, n-1): eng.assume_t(norm(z3.substitute(fall, (k, zi(kk)))))
        eng.assume_t(fall)
        add_forall(eng, k, fall, 0, n)
    else:
        if not falls2: raise Infeasible()
        if len(falls2) == 1 and falls2[0].facts:
            add_forall(eng, k, fall, 0, n); eng.assume_t(fall)
    s.finish(falls2, n)
    return False
def summarise(it, n, get, body):
    eng = it.eng
    k = z3.Const(eng.fresh_name('k'), Z)
    K = mkint(k)
    eng.all_loopvars = eng.all_loopvars+[k]
    nb = len(eng.facts); eng.bound(K, 0, n-1)
    for t in eng.facts[nb:]: BOUNDS[t.get_id()] = t      # harmless in a path condition: n > 0 is one already
    s = Summary(it, lambda KK: body(get(KK)), k); s.N = n; s.fk = z3.Const('fam!%d' % k.get_id(), Z)
    s.discover()
    paths = s.solve()
    falls = s.falls(paths)
    s.families(falls)
    seen = s.touched; s.touched = {}
    try: paths = s.explore_full()
    except PoisonRead as p: raise Unsupported('poisoned read in loop')
    falls2 = s.falls(paths)
    if len(falls2) != len(falls): raise Unsupported('loop paths did not stabilise')
    old = s.fam
    s.families(falls2)
    for l in old:
        if [(j, boxkey(f[0])) for j, f, _, _ in old[l]] != [(j, boxkey(f[0])) for j, f, _, _ in s.fam[l]]: raise Unsupported('loop write regions did not stabilise')
    check_forms(s, falls2)
    for l in s.touched:
        # a location of an object that exists outside the iteration (touched in two explorations) must be part of the summary
        if l in seen and l not in s.locs and not (l[0] == 'dict' and l[1] in s.dkeys): raise Unsupported('loop modifies %s on a path found late' % (l[2:] and str(l[2]) or l[0],))
    return s, k, paths, falls2
def start_state(s, falls, ks):
    """state after ks >= 0 regular iterations"""
    if isinstance(ks, int) and ks == 0: return
    if s.eng.decide(cmp('==', ks, 0)) : return
    s.finish(falls, ks)
def boxkey(box): return tuple((P(a).key(), P(st).key(), P(n).key()) for a, st, n in box)
def check_forms(s, falls):
    """inductive step: the value left by the body is the closed form at K+1"""
    for l, m in s.locs.items():
        if m != 'form' or id(s.form[l]) in s.byconstruction: continue
        if l in getattr(s, 'strrest', {}):
            # the text at the start of the iteration followed by one more repetition (by the definition of a repetition)
            want = norm(zs(catstr(s.form[l](s.K), s.strrest[l])))
            if any(not isinstance(p.ends.get(l, NOVAL), (str, SymStr)) or not norm(zs(catstr(p.ends[l]))).eq(want) for p in falls): raise Unsupported('text built by a loop')
            continue
        want = s.form[l](s.K+1)
        for p in falls:
            e = p.ends.get(l, s.form[l](s.K))
            if isinstance(e, Poison): raise Unsupported('closed form check')
            if isinstance(e, (int, SymInt)) and isinstance(want, (int, SymInt)) and P(e) == P(want): continue
            c = equal(e, want)
            if c is True: continue
            t = z3.Implies(z3.And(p.facts) if p.facts else z3.BoolVal(True), zb(c))
            if not s.eng.implied(t): raise Unsupported('closed form of a loop variable is not inductive')
def add_forall(eng, k, f, lo, hi):
    if z3.is_true(f): return
    q = z3.Const(eng.fresh_name('qk'), Z)
    body = z3.Implies(z3.And(q >= zi(lo), q < zi(hi)), z3.substitute(f, (k, q)))
    fa = z3.ForAll([q], body)
    eng.qfacts = eng.qfacts+[fa]
    old = eng.qfacts[:-1]
    eng.log(None, lambda: setattr(eng, 'qfacts', old))

# ------------------------------------------------------------------ while
class WhileSummary(Summary):
    regular = True
    def is_regular(self, p): return self.reg is None or p is self.reg
    reg = None
    def falls(self, paths): return [p for p in paths if p.kind == 'fall']

def while_loop(it, raw, body, node, depth=0):
    eng = it.eng; count = 0
    def cond(): return truth(raw())
    tried = depth > 0; peeled = 0
    while True:
        if not tried:
            # a symbolic condition: look for a loop summary first, unroll if there is none
            outs = eng.explore(lambda: raw(), lambda r, exc, m, n0: (r, exc))
            if any(isinstance(r, Sym) for r, exc in outs) and not (peeled and all(exc is None and sure(eng, r) is not None for r, exc in outs) or (large(node) and all(exc is None and sure(eng, r) is not None for r, exc in outs)) or peel(eng, outs, raw, body)):
                tried = True
                r = sym_while(it, raw, body, node, depth)
                if r is not None: return r
            peeled = 1
        outs = eng.explore(lambda: cond(), lambda r, exc, m, n0: (r, exc))
        vals = {r for r, exc in outs if exc is None}
        if len(outs) == 1 or len(vals) <= 1:
            count += 1
            if count > 60: raise Unsupported('while loop with many iterations')
            if not cond(): return False
            try: body()
            except ContinueEx: continue
            except BreakEx: return True
            continue
        r = sym_while(it, raw, body, node, depth)
        if r is None: raise Unsupported('no summary for a while loop')
        return r

def large(node):
    """the body of a main loop of a reader: no summary is looked for while its condition is known"""
    import ast
    return sum(isinstance(x, ast.stmt) for b in node.body for x in ast.walk(b)) > 60
def sure(eng, r):
    """truth of a condition in every state that agrees with the facts, None when it varies"""
    return r if isinstance(r, bool) else True if eng.implied(r.t) else False if eng.implied(z3.Not(r.t)) else None
def peel(eng, outs, raw, body):
    """the condition is known now and after each of the next iterations (six, or fewer to its end): execute iteration by iteration"""
    known = lambda r: isinstance(r, (bool, SymBool)) and sure(eng, r) is not None
    if not all(exc is None and known(r) for r, exc in outs): return False
    def steps():
        seq = []
        for _ in range(6):
            r = raw()
            if not known(r): return None
            seq.append(sure(eng, r))
            if not seq[-1]: return seq
            try: body()
            except BreakEx: seq.append('break'); return seq
            except ContinueEx: pass
        r = raw()
        return seq+[sure(eng, r)] if known(r) else None
    try: nxt = eng.explore(steps, lambda r, exc, m, n0: (r, exc))
    except (Unsupported, PoisonRead): return False
    # on every path alike, not because of the path taken
    return all(exc is None and r is not None and r == nxt[0][0] for r, exc in nxt)
def sym_while(it, raw, body, node, depth):
    """iterations 0..k*-1 take the regular path; iteration k* is executed separately (condition false, or another path)"""
    eng = it.eng
    def cond(): return truth(raw())
    if depth > 2: raise Unsupported('while loop did not converge')
    k = z3.Const(eng.fresh_name('k'), Z); K = mkint(k)
    eng.all_loopvars = eng.all_loopvars+[k]
    eng.bound(K, 0)
    def step(KK):
        if not cond(): raise BreakEx()
        body()
    s = WhileSummary(it, step, k)
    try: s.discover()
    except Unsupported: return None
    if s.dfam: return None
    # choose the regular path: the fall path whose recurrences are all solvable
    base = dict(s.locs)
    err = None
    best = None
    for j in (-1, 0, 1, 2, 3, 4, 5):
        s.locs = dict(base); s.form = {}; s.symv = None
        try:
            r = solve_regular(s, j) if j >= 0 else solve_all(s)
            if r is None:
                if j < 0: continue
                break
        except Unsupported as e:
            err = e; continue
        best = r; break
    if best is None: return None
    ks = eng.fresh_int('kw', 0)
    regs = [z3.And(p.facts) if p.facts else z3.BoolVal(True) for p in best]
    reg = regs[0] if len(regs) == 1 else z3.Or(regs)
    add_forall(eng, k, reg, 0, ks)
    if truth(cmp('>', ks, 0)):
        for kk in (0, ks-1): eng.assume_t(norm(z3.substitute(reg, (k, zi(kk)))))
        # dummy k stands for an arbitrary regular iteration
        eng.bound(K, 0, ks-1); eng.assume_t(reg)
        s.finish(best, ks)
    # iteration k*: anything but the regular path (fresh symbols get the names they have in iteration k* of the summary)
    lv, nf = eng.loopvars, eng.nfresh
    eng.loopvars = lv+[zi(ks)]; eng.nfresh = s.nf_body
    try:
        if not cond(): return False
        body()
    except ContinueEx: pass
    except BreakEx: return True
    finally: eng.loopvars = lv; eng.nfresh = max(nf, eng.nfresh)
    # the regular path is excluded here: by maximality of k*, iteration k* is not regular
    eng.assume_t(z3.Not(norm(z3.substitute(reg, (k, zi(ks))))))
    if eng.check() == z3.unsat: raise Infeasible()
    return while_loop(it, raw, body, node, depth+1)

def solve_regular(s, j):
    eng = s.eng
    for _ in range(12):
        s.touched = {}
        try: paths = s.explore(s.setup_scalars)
        except PoisonRead as p:
            if p.loc in s.locs and s.locs[p.loc] == 'poison': s.make_sym(p.loc); continue
            raise Unsupported('loop temporary')
        falls = [p for p in paths if p.kind == 'fall']
        if j >= len(falls): return None
        s.reg = falls[j]
        syms = [l for l, m in s.locs.items() if m == 'sym']
        if not syms: break
        prog = False
        for l in syms:
            f = s.recurrence(l, paths)
            if f is not None: s.form[l] = f; s.locs[l] = 'form'; prog = True
        if not prog: raise Unsupported('no closed form')
        # with closed forms the index of the regular path may change: identify it again by trying all
    # with closed forms fixed, the regular path is one on which they are inductive
    s.families([s.reg])
    paths = s.explore_full()
    for p in paths:
        if p.kind != 'fall': continue
        try:
            check_forms(s, [p])
        except Unsupported: continue
        s.families([p])
        return [p]
    raise Unsupported('no inductive regular path')
def solve_all(s):
    """all fall paths are regular (at least two, same closed forms)"""
    s.reg = None
    for _ in range(12):
        s.touched = {}
        try: paths = s.explore(s.setup_scalars)
        except PoisonRead as p:
            if p.loc in s.locs and s.locs[p.loc] == 'poison': s.make_sym(p.loc); continue
            raise Unsupported('loop temporary')
        if len([p for p in paths if p.kind == 'fall']) < 2: return None
        syms = [l for l, m in s.locs.items() if m == 'sym']
        if not syms: break
        prog = False
        for l in syms:
            f = s.recurrence(l, paths)
            if f is not None: s.form[l] = f; s.locs[l] = 'form'; prog = True
        if not prog: raise Unsupported('no closed form')
    falls = s.falls(paths); s.families(falls)
    paths = s.explore_full(); falls2 = s.falls(paths)
    if len(falls2) != len(falls): raise Unsupported('loop paths did not stabilise')
    old = s.fam; s.families(falls2)
    for l in old:
        if [(j, boxkey(f[0])) for j, f, _, _ in old[l]] != [(j, boxkey(f[0])) for j, f, _, _ in s.fam[l]]: raise Unsupported('loop write regions did not stabilise')
    check_forms(s, falls2)
    return falls2

"""Path exploration, solver access, undo trail and obligations."""
import z3, time, contextlib
from . import terms as T
from .terms import *

class PyRaise(BaseException):
    """an exception of the interpreted program"""
    def __init__(self, exc, explicit=False): self.exc = exc; self.explicit = explicit
    def __str__(self): return 'PyRaise(%r)' % (self.exc,)
class Infeasible(BaseException): pass
class PathLimit(Unsupported): pass

class Engine:
    def __init__(self, timeout_ms=4000, maxpaths=400):
        self.timeout = timeout_ms
        self.solver = z3.Solver(); self.solver.set('timeout', timeout_ms)
        self.facts = []            # current path condition / assumptions (z3 bools)
        self.trail = []            # (location key, undo)
        self.prefix = []; self.pos = 0; self.alts = None
        self.nfresh = 0
        self.lbounds = {}          # atom id -> int lower bound
        self.ubounds = {}          # atom id -> list of Poly upper bounds (inclusive)
        self.loopvars = []         # active generic loop variables (z3 consts)
        self.solver_s = 0.0; self.nqueries = 0
        self.maxpaths = maxpaths
        self.axioms = []           # background quantified axioms (added to every query)
        self.axiom_hooks = {}      # function symbol name -> f(app term) -> list of z3 facts
        self.assumptions = set()   # textual assumptions used on this run
        self.inexact = []          # reasons why the current path over-approximates
        self.deadline = None
        self.all_loopvars = []
        self.enums = {}            # enumeration functions of filtered lists
        self.chain = []; self.chains = {}; self.cache = {}; self.axcache = {}
        self.qfacts = []           # universally quantified facts about loops, used only when needed
        set_engine(self)
    # ---------------------------------------------------------- fresh symbols
    def fresh_name(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)
    def fresh(self, base, sort):
        n = self.fresh_name(base)
        if self.loopvars:
            f = z3.Function(n, *([z3.IntSort()]*len(self.loopvars)), sort)
            return f(*self.loopvars)
        return z3.Const(n, sort)
    def fresh_int(self, base='n', lb=None, ub=None):
        t = self.fresh(base, z3.IntSort())
        v = mkint(t)
        self.bound(v, lb, ub)
        return v
    def fresh_real(self, base='x'): return SymReal(self.fresh(base, z3.RealSort()))
    def fresh_bool(self, base='b'): return SymBool(self.fresh(base, z3.BoolSort()))
    def fresh_str(self, base='s'): return SymStr(self.fresh(base, z3.StringSort()))
    def bound(self, v, lb=None, ub=None):
        """v: SymInt that is a single atom.  ub is inclusive."""
        (k, c), = v.p.m.items(); a = k[0][0]
        if lb is not None:
            if isinstance(lb, int):
                old = self.lbounds.get(a)
                if old is None or lb > old:
                    self.lbounds[a] = lb; self.trail.append((None, lambda a=a, old=old: self._setb(self.lbounds, a, old)))
            self.assume(cmp('>=', v, lb))
        if ub is not None:
            old = self.ubounds.get(a)
            self.ubounds[a] = (old or []) + [P(ub)]
            self.trail.append((None, lambda a=a, old=old: self._setb(self.ubounds, a, old)))
            self.assume(cmp('<=', v, ub))
    def _setb(self, d, a, old):
        if old is None: d.pop(a, None)
        else: d[a] = old
    def loopvars_all(self): return self.all_loopvars
    @contextlib.contextmanager
    def scope(self):
        """temporary assumptions"""
        n0 = len(self.facts); mark = len(self.trail); inx = len(self.inexact)
        self.solver.push()
        try: yield
        finally:
            self.solver.pop(); del self.facts[n0:]; del self.chain[n0:]; self.rollback(mark)
    # ---------------------------------------------------------- solver
    def assume(self, c):
        if c is True: return
        if c is False: raise Infeasible()
        t = norm(zb(c))
        self.facts.append(t); self.solver.add(t)
        k = (self.chain[-1] if self.chain else 0, t.get_id())
        if k not in self.chains: self.chains[k] = (len(self.chains)+1, t)
        self.chain.append(self.chains[k][0])
        for x in self._axioms_for([t]): self.solver.add(x)
    def assume_t(self, t): self.assume(mkbool(t) if not z3.is_quantifier(t) else SymBool(t))
    def _axioms_for(self, ts):
        """instances of the registered axioms for the applications occurring in ts (to a fixed depth)"""
        if not self.axiom_hooks: return []
        out = {}
        for t in ts:
            i = t.get_id(); e = self.axcache.get(i)
            if e is None: e = self.axcache[i] = (t, self._axioms1(t))
            for x in e[1]: out[x.get_id()] = x
        return list(out.values())
    def _axioms1(self, t0):
        out = []; seen = set(); todo = [t0]; done_apps = set()
        for _ in range(4):
            new = []
            while todo:
                t = todo.pop()
                i = t.get_id()
                if i in seen: continue
                seen.add(i)
                if z3.is_quantifier(t): todo.append(t.body()); continue
                if z3.is_app(t):
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        nm = t.decl().name()
                        h = self.axiom_hooks.get(nm)
                        if h and i not in done_apps and not has_var(t):
                            done_apps.add(i); new += h(t)
                    todo += t.children()
            if not new: break
            new = [norm(x) for x in new]
            out += new; todo = list(new)
        return out
    def check(self, *ts, timeout=None, exact=False):
        """sat check of the current facts and ts"""
        t0 = time.time()
        if self.deadline and t0 > self.deadline: raise Unsupported('time budget of the proof exhausted')
        ts = [norm(t) for t in ts]
        key = (self.chain[-1] if self.chain else 0, tuple(t.get_id() for t in ts), timeout)
        if not exact:
            e = self.cache.get(key)
            if e is not None: return e[0]
        self.nqueries += 1
        self.solver.push()
        try:
            for t in ts: self.solver.add(t)
            for t in self._axioms_for(ts): self.solver.add(t)
            for t in self.axioms: self.solver.add(t)
            if timeout: self.solver.set('timeout', timeout)
            r = self.solver.check()
            if r == z3.sat and exact: self.last_model = self.solver.model()
            if r == z3.unknown: self.last_reason = self.solver.reason_unknown()
        finally:
            if timeout: self.solver.set('timeout', self.timeout)
            self.solver.pop(); self.solver_s += time.time()-t0
        self.cache[key] = (r, ts)
        return r
    def implied(self, t, timeout=None):
        t = t if z3.is_expr(t) else zb(t)
        if z3.is_true(t): return True
        return self.check(z3.Not(t), timeout=timeout) == z3.unsat
    # ---------------------------------------------------------- polynomial bounds
    def prove_nonneg(self, p, depth=0, usez3=True):
        """p >= 0 under the known bounds (sound, incomplete)"""
        if p.isconst(): return p.constval() >= 0
        if self._nonneg(p, 0): return True
        if usez3:
            return self.implied(p.z3() >= 0, timeout=2000)
        return False
    def _nonneg(self, p, depth):
        if p.isconst(): return p.constval() >= 0
        if self._syntactic(p): return True
        if depth > 8: return False
        for x in sorted(p.atoms()):
            if x not in self.ubounds: continue
            cr = p.coeff(x)
            if cr is None: continue
            C, R = cr
            lb = self.lbounds.get(x)
            if lb is not None and self._nonneg(C, depth+1):
                if self._nonneg(C.scale(lb)+R, depth+1): return True
            elif self._nonneg(C.neg(), depth+1):
                for ub in self.ubounds[x]:
                    if self._nonneg(C*ub+R, depth+1): return True
        return False
    def _syntactic(self, p):
        """shift every atom by its lower bound; then all coefficients nonnegative"""
        sub = {}
        for x in p.atoms():
            lb = self.lbounds.get(x)
            if lb is None: return False
            if lb: sub[x] = Poly({((x, 1),): 1, (): lb})
        return all(v >= 0 for v in p.subst(sub).m.values())
    # ---------------------------------------------------------- decisions
    def decide(self, c):
        if isinstance(c, bool): return c
        if not isinstance(c, SymBool): raise Unsupported('truth value of %r' % (c,))
        return self.decide_t(c.t)
    def decide_t(self, t):
        t = norm(z3.simplify(t) if not z3.is_quantifier(t) else t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        q = self.quick(t)
        if q is not None: return q
        if self.alts is not None and self.pos < len(self.prefix) and False: pass
        ft = self.check(t) != z3.unsat
        ff = self.check(z3.Not(t)) != z3.unsat
        if ft and not ff: self.assume(SymBool(t)); return True
        if ff and not ft: self.assume(SymBool(z3.Not(t))); return False
        if not ft and not ff: raise Infeasible()
        if 'rep!b' in const_names_cached(t): raise Unsupported('a decision inside a repeated text')
        v = self.fork(2) == 0
        self.assume(SymBool(t) if v else SymBool(z3.Not(t)))
        return v
    def quick(self, t):
        """comparisons decided by the polynomial bound prover"""
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_NOT:
            r = self.quick(t.arg(0)); return None if r is None else not r
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_int(t.arg(0)):
            d = poly_of(t.arg(0))-poly_of(t.arg(1))
            one = Poly.const(1)
            if k == z3.Z3_OP_EQ:
                if not d.m: return True
                if self._nonneg(d-one, 0) or self._nonneg(d.neg()-one, 0): return False
                return None
            if k == z3.Z3_OP_LE: d = d.neg()
            if k == z3.Z3_OP_LT: d = d.neg()-one
            if k == z3.Z3_OP_GT: d = d-one
            if self._nonneg(d, 0): return True
            if self._nonneg(d.neg()-one, 0): return False
        return None
    def fork(self, n):
        """nondeterministic choice 0..n-1, explored exhaustively"""
        if self.alts is None: raise Unsupported('fork outside exploration')
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]; self.pos += 1
            return v
        for j in range(1, n): self.alts.append(self.prefix[:self.pos]+[j])
        self.prefix = self.prefix+[0]; self.pos += 1
        return 0
    def pyraise(self, exc):
        raise PyRaise(exc)
    # ---------------------------------------------------------- trail
    def log(self, loc, undo): self.trail.append((loc, undo))
    def rollback(self, mark):
        while len(self.trail) > mark:
            _, u = self.trail.pop(); u()
    def explore(self, fn, collect):
        """run fn on every path from here; collect(result, exc, mark) is called at the end of each path, before the state is
        rolled back.  Facts assumed on a path are visible in self.facts[n0:] during collect."""
        saved = (self.prefix, self.pos, self.alts)
        nf0 = self.nfresh; nmax = nf0
        todo = [[]]; out = []
        n0 = len(self.facts); mark = len(self.trail); inx0 = len(self.inexact)
        npaths = 0
        try:
            while todo:
                if npaths > self.maxpaths: raise PathLimit('more than %d paths' % self.maxpaths)
                if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the proof exhausted')
                self.prefix = todo.pop(); self.pos = 0; self.alts = []
                self.nfresh = nf0
                self.solver.push()
                try:
                    try:
                        r = fn(); exc = None
                    except PyRaise as e: r = None; exc = e
                    except Infeasible: continue
                    npaths += 1
                    x = collect(r, exc, mark, n0)
                    if x is not None: out.append(x)
                except Infeasible: pass
                finally:
                    todo += self.alts
                    nmax = max(nmax, self.nfresh)
                    self.solver.pop()
                    del self.facts[n0:]; del self.chain[n0:]; del self.inexact[inx0:]
                    self.rollback(mark)
        finally:
            self.prefix, self.pos, self.alts = saved
            self.nfresh = nmax
        return out

def has_var(t):
    if z3.is_var(t): return True
    return any(has_var(c) for c in t.children())
_cn = {}
def const_names_cached(t):
    """names of the 0-ary symbols of a term, repetition variables abbreviated to rep!b"""
    r = _cn.get(t.get_id())
    if r is None:
        out = set(); st = [t]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body()); continue
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add('rep!b' if x.decl().name().startswith('rep!b') else x.decl().name())
                st += x.children()
        r = (t, out); _cn[t.get_id()] = r
    return r[1]

"""Contracts, obligations and their discharge.

A property module pyvc/props/cXX.py lists contracts with @contract(name, functions=[...]).  A contract function gets a Ctx,
declares its symbolic pre-state, runs the real function (source parsed from the repository on this run) on every path with
ctx.run(...) and states the post-conditions with ctx.prove(name, condition).  Every ctx.prove call is one obligation instance:
`facts of the path => condition`, sent to z3; instances with the same name form one named obligation.
   discharged : every instance is unsatisfiable when negated
   refuted    : z3 found a model of facts and negated condition on a path without over-approximation
   undecided  : the solver gave up, or a construct is outside the model"""
import sys, os, time, traceback, importlib, multiprocessing, json
import z3
from . import terms as T
from .terms import *
from .engine import Engine, PyRaise, Infeasible
from .interp import Interp, IObj, SList, Seg, to_seq, tb, truth, equal, Poison, PoisonRead
from . import nd, libs

class Contract:
    def __init__(self, fn, name, functions, budget, thorough): self.fn = fn; self.name = name; self.functions = functions; self.budget = budget; self.thorough = thorough
def contract(name, functions=(), budget=100, thorough=False):
    def deco(fn):
        m = sys.modules[fn.__module__]
        if not hasattr(m, 'CONTRACTS'): m.CONTRACTS = []
        m.CONTRACTS.append(Contract(fn, name, list(functions), budget, thorough))
        return fn
    return deco

class Ctx:
    def __init__(self, repo, name, budget, timeout_ms=6000):
        self.eng = Engine(timeout_ms=timeout_ms); self.it = Interp(self.eng, repo)
        nd.install_axioms(self.eng)
        self.eng.deadline = time.time()+budget
        self.name = name; self.weak_ok = set(); self.obl = {}; self.covers = {}; self.repo = repo; self.prefixes = []
    # ---- symbols
    def int(self, name, lb=None, ub=None):
        v = mkint(z3.Const(name, z3.IntSort())); self.eng.bound(v, lb, ub); return v
    def real(self, name): return SymReal(z3.Const(name, z3.RealSort()))
    def str(self, name): return SymStr(z3.Const(name, z3.StringSort()))
    def bool(self, name): return SymBool(z3.Const(name, z3.BoolSort()))
    def idx(self, name, n):
        """arbitrary index 0 <= i < n (Infeasible when n <= 0)"""
        if isinstance(n, int) and n <= 0: raise Infeasible()
        if isinstance(n, SymInt) and self.eng.check((n >= 1).t if isinstance(n >= 1, SymBool) else zb(n >= 1)) == z3.unsat: raise Infeasible()
        v = mkint(z3.Const(self.eng.fresh_name(name), z3.IntSort())); self.eng.bound(v, 0, n-1)
        return v
    def array(self, name, shape, code='f8'): return nd.sym_array(name, shape, code)
    def assume(self, c): self.eng.assume(c if isinstance(c, (bool, SymBool)) else SymBool(c))
    def infile(self, path, size, tag=''):
        f = libs.InFile(path, size, tag)
        if isinstance(path, SymStr): self.it.fs.syminputs.append((path, f))
        else: self.it.fs.inputs[path] = f
        return f
    def intext(self, path, nlines, line):
        """text file of nlines lines, line(i) being the text of line i"""
        f = libs.TextIn(path, SList(segs=[Seg(nlines, line)])); self.it.fs.inputs[path] = f
        return f
    def publish(self, k=-1):
        """make the last written file readable (undone at the end of the path)"""
        fs = self.it.fs; w = fs.outputs[k]; f = libs.StrText(w.path, w.text()) if isinstance(w, libs.TextW) else libs.WrittenFile(w); old = dict(fs.inputs)
        self.eng.log(None, lambda: setattr(fs, 'inputs', old)); fs.inputs = dict(old); fs.inputs[w.path] = f
        return f
    def module(self, name): return self.it.load(name)
    def symbolic_pi(self):
        """pi as a symbol, so that the grouping of unit conversions does not matter"""
        pi = SymReal(z3.Real('pi')); self.eng.assume(cmp('>', pi, 3)); self.eng.assume(cmp('<', pi, 4))
        d = self.it.libs['numpy'].d; d['pi'] = pi; self.it.libs['math'].d['pi'] = pi
        f = libs.Builtin(lambda a: nd.unary(a, lambda v: v*pi/180, 'f8'), 'radians'); d['radians'] = d['deg2rad'] = f
        return pi
    def get(self, qual):
        m, _, q = qual.partition(':'); o = self.it.load(m)
        for p in q.split('.'): o = self.it.getattr(o, p)
        return o
    def obj(self, qual, **items):
        """instance of a repository class without running __init__"""
        c = self.get(qual); o = IObj(c)
        if any(isinstance(b, type) and issubclass(b, dict) for b in c.native_bases()): o.payload = dict(items)
        return o
    def call(self, f, *a, **k): return self.it.call(f, list(a), k)
    def ghost(self, src):
        """function given as source text (ghost code: a client of the code under contract)"""
        import ast, textwrap
        from .interp import Env
        node = ast.parse(textwrap.dedent(src)).body[0]
        m = self.it.load('weio'); e = Env(m)
        self.it.exec(node, e)
        return e.vars[node.name]
    # ---- exploration
    def run(self, body, post, cover=True):
        """explore every path of body(); post(result, exc) states the obligations of the path"""
        eng = self.eng; n = [0]
        def collect(r, exc, mark, n0):
            n[0] += 1
            for x in [r]+(list(r.values()) if isinstance(r, dict) else list(r) if isinstance(r, tuple) else []):
                if isinstance(x, Poison): raise PoisonRead(x.loc)
            try: post(r, exc)
            except Infeasible: pass
            if exc is None and cover and self.name not in self.covers:
                c = eng.check(timeout=3000)
                if c != z3.unsat: self.covers[self.name] = True
        eng.explore(body, collect)
        return n[0]
    def unknown(self, name, why):
        """the obligation cannot be stated on this path"""
        o = self.obl.setdefault(name, dict(name=name, n=0, status='discharged', why='')); o['n'] += 1
        if o['status'] == 'discharged': o['status'] = 'undecided'; o['why'] = why
    def layout(self, name, e):
        """report a LayoutError raised by libs.locate"""
        if e.definite: self.fail(name, str(e))
        else: self.unknown(name, str(e))
    def prove(self, name, cond, info='', hyps=None):
        o = self.obl.setdefault(name, dict(name=name, n=0, status='discharged', why=''))
        o['n'] += 1
        if o['status'] == 'refuted': return False      # one failing path is enough
        try:
            r, why = self.decide(cond, hyps)
        except Infeasible: return True
        if r == 'discharged': return True
        rank = dict(discharged=0, undecided=1, refuted=2)
        if rank[r] > rank[o['status']]: o['status'] = r; o['why'] = (info+' ' if info else '')+why
        return False
    def fail(self, name, why, inexact=False):
        """obligation that fails on this path whatever the values: the path must be infeasible"""
        return self.prove(name, False, why)
    def decide(self, cond, hyps=None):
        eng = self.eng
        if cond is True: return 'discharged', ''
        t = norm(zb(cond)) if cond is not False else z3.BoolVal(False)
        if z3.is_true(t): return 'discharged', ''
        if not z3.is_quantifier(t):
            if eng.quick(t) is True: return 'discharged', ''
        if hyps is not None and relax_check(eng, t, hyps): return 'discharged', ''
        r = eng.check(z3.Not(t), exact=True)
        if r == z3.unsat: return 'discharged', ''
        model = model_text(eng) if r == z3.sat else None
        if eng.qfacts:
            r2 = eng.check(z3.Not(t), *eng.qfacts, timeout=eng.timeout)
            if r2 == z3.unsat: return 'discharged', ''
            r = r2
        if r == z3.unknown:
            if relax_check(eng, t, hyps): return 'discharged', ''
            r3 = alt_check(eng, [z3.Not(t)])
            if r3 == 'unsat': return 'discharged', ''
        weak = weak_symbols([t]+eng.facts)-self.weak_ok if r == z3.sat else set()
        if weak: return 'undecided', 'a counterexample exists only relative to uninterpreted text functions %s; goal %s' % (sorted(weak)[:5], str(t)[:300])
        if r == z3.sat and not eng.inexact:
            return 'refuted', 'counterexample: %s; goal %s' % (model or model_text(eng), str(t)[:600])
        return 'undecided', ('over-approximated path (%s); ' % '; '.join(map(str, eng.inexact[:3])) if eng.inexact else 'solver: unknown; ')+'goal '+str(t)[:400]+(' model '+model[:300] if model else '')

WEAK = ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replaceall', 'split_', 'slice_', 'charat', 'fmts_', 'fmti_', 'fmtr_', 'fmt_d', 'strrep', 'bstrip', 'findall', 'basename', 'dirname', 'splitext', 'repr!',
        'is_int_text', 'int_of_text', 'is_float_text', 'float_of_text', 'wrap_', 'np_', 'math_', 'sum', 'mean', 'std', 'pow')
def weak_symbols(ts):
    out = set(); st = list(ts); seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): st.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                for w in WEAK:
                    if n.startswith(w): out.add(w if not w.endswith('_') else n)
            st += t.children()
    return out
def alt_check(eng, ts):
    """second opinion with a fresh solver (different tactic)"""
    s = z3.SolverFor('ALL') if False else z3.Solver()
    s.set('timeout', 2*eng.timeout); s.set('smt.arith.solver', 2) if False else None
    ts = [norm(t) for t in ts]
    for t in eng.facts+ts+eng._axioms_for(ts+eng.facts)+eng.axioms: s.add(t)
    t0 = time.time(); r = s.check(); eng.solver_s += time.time()-t0
    return str(r)

def realify(t, memo, side):
    """real relaxation of a quantifier-free arithmetic/boolean term: integers become reals, uninterpreted applications become variables"""
    i = t.get_id()
    if i in memo: return memo[i][0]
    k = t.decl().kind() if z3.is_app(t) else None
    def rec(j): return realify(t.arg(j), memo, side)
    def var(sort=None): return z3.Const('rx!%d' % i, sort or z3.RealSort())
    K = z3
    if k is None: raise ValueError
    if z3.is_int_value(t) or z3.is_rational_value(t): r = z3.RealVal(t.as_string()) if z3.is_int_value(t) else t
    elif z3.is_bool(t):
        ch = [realify(c, memo, side) for c in t.children()]
        if k in (K.Z3_OP_TRUE, K.Z3_OP_FALSE): r = t
        elif k == K.Z3_OP_AND: r = z3.And(ch)
        elif k == K.Z3_OP_OR: r = z3.Or(ch)
        elif k == K.Z3_OP_NOT: r = z3.Not(ch[0])
        elif k == K.Z3_OP_IMPLIES: r = z3.Implies(*ch)
        elif k == K.Z3_OP_ITE: r = z3.If(*ch)
        elif k == K.Z3_OP_EQ: r = ch[0] == ch[1]
        elif k == K.Z3_OP_LE: r = ch[0] <= ch[1]
        elif k == K.Z3_OP_GE: r = ch[0] >= ch[1]
        elif k == K.Z3_OP_LT: r = ch[0] < ch[1]
        elif k == K.Z3_OP_GT: r = ch[0] > ch[1]
        else: r = var(z3.BoolSort())
    elif not (z3.is_int(t) or z3.is_real(t)): raise ValueError('sort')
    elif k == K.Z3_OP_TO_REAL: r = rec(0)
    elif k == K.Z3_OP_TO_INT:
        x = t.arg(0)
        if z3.is_app(x) and x.decl().kind() == K.Z3_OP_TO_REAL: r = realify(x.arg(0), memo, side)
        elif int_valued(x): r = rec(0)
        else:
            r = var(); y = rec(0); side += [r <= y, y < r+1]
    elif k == K.Z3_OP_ADD: r = z3.Sum([rec(j) for j in range(t.num_args())])
    elif k == K.Z3_OP_MUL: r = z3.Product([rec(j) for j in range(t.num_args())])
    elif k == K.Z3_OP_SUB: r = rec(0)-rec(1)
    elif k == K.Z3_OP_UMINUS: r = -rec(0)
    elif k == K.Z3_OP_DIV:
        a, b = rec(0), rec(1)
        if z3.is_rational_value(b): r = a/b
        else: r = var(); side += [z3.Implies(b != 0, r*b == a)]
    elif k == K.Z3_OP_ITE: r = z3.If(rec(0), rec(1), rec(2))
    else: r = var()
    memo[i] = (r, t)
    return r
def int_valued(x):
    k = x.decl().kind() if z3.is_app(x) else None
    if k == z3.Z3_OP_TO_REAL: return True
    if k == z3.Z3_OP_ITE: return int_valued(x.arg(1)) and int_valued(x.arg(2))
    if z3.is_rational_value(x): return x.denominator_as_long() == 1
    if k in (z3.Z3_OP_UMINUS, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL): return all(int_valued(c) for c in x.children())
    return False
def relax_check(eng, goal, hyps, timeout=8000):
    """goal follows from the hypotheses, the quantifier-free facts that share its symbols, and the axioms, over the reals (nlsat)"""
    try:
        ts = [norm(z3.Not(goal))]+[norm(zb(h)) for h in (hyps or []) if h is not True]
        syms = set()
        for t in ts: syms |= const_names(t)
        rel = [f for f in eng.facts if not has_quant(f) and const_names(f) & syms]
        base = ts+[a for a in eng._axioms_for(ts) if not has_quant(a)]
        for extra in ([], rel):
            memo = {}; side = []
            s = z3.Tactic('qfnra-nlsat').solver(); s.set('timeout', timeout)
            for x in base+extra+([a for a in eng._axioms_for(extra) if not has_quant(a)] if extra else []):
                try: y = realify(x, memo, side)
                except ValueError: continue
                s.add(y)
            for x in side: s.add(x)
            t0 = time.time(); r = s.check(); eng.solver_s += time.time()-t0; eng.nqueries += 1
            if r == z3.unsat: return True
        return False
    except z3.Z3Exception: return False
def has_quant(t):
    if z3.is_quantifier(t): return True
    return any(has_quant(c) for c in t.children())
def const_names(t):
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_string(x) and (z3.is_real(x) or x.num_args() == 0): out.add(x.decl().name())
            st += x.children()
    return out
def model_text(eng):
    try: m = eng.last_model
    except AttributeError: return ''
    out = []
    for d in m.decls():
        s = '%s=%s' % (d.name(), m[d])
        if len(s) < 160: out.append(s.replace('\n', ' '))
    return ', '.join(sorted(out))[:900]

def run_contract(prop, name, repo, budget):
    """executed in a child process"""
    t0 = time.time()
    mod = importlib.import_module('pyvc.props.'+prop.lower())
    c = next(x for x in mod.CONTRACTS if x.name == name)
    ctx = Ctx(repo, name, budget)
    err = None
    try: c.fn(ctx)
    except Unsupported as e:
        if os.environ.get('PYVC_DEBUG'): traceback.print_exc(limit=-int(os.environ['PYVC_DEBUG']))
        err = 'outside the model: %s%s' % (e, where(e))
    except PoisonRead as e: err = 'loop summary failed: %r' % (e.loc,)
    except PyRaise as e: err = 'exception during set-up: %r%s' % (e.exc, where(e))
    except RecursionError as e: err = 'recursion limit'
    except Exception as e: err = 'internal error: '+traceback.format_exc()[-1500:]
    out = dict(contract=name, obligations=list(ctx.obl.values()), error=err, functions=sorted(ctx.it.executed), declared=c.functions,
               assumptions=sorted(ctx.eng.assumptions), solver_s=ctx.eng.solver_s, queries=ctx.eng.nqueries, covered=bool(ctx.covers), wall=time.time()-t0)
    return out
def where(e):
    tb = e.__traceback__; ls = []
    while tb is not None:
        f = tb.tb_frame
        if f.f_code.co_name in ('ex', 'ev', 'exec_stmt') and 'n' in f.f_locals and hasattr(f.f_locals['n'], 'lineno'): ls.append(f.f_locals['n'].lineno)
        tb = tb.tb_next
    return ' (source line %d)' % ls[-1] if ls else ''

def child(q, prop, name, repo, budget):
    sys.setrecursionlimit(20000)
    import threading, resource
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass
    threading.stack_size(512 << 20)
    res = []
    def go():
        try: res.append(run_contract(prop, name, repo, budget))
        except BaseException: res.append(dict(contract=name, obligations=[], error='internal error: '+traceback.format_exc()[-1500:], functions=[], declared=[], assumptions=[], solver_s=0, queries=0, covered=False, wall=0))
    t = threading.Thread(target=go); t.start(); t.join()
    q.put(res[0])

def prove(prop, repo, tier, jobs=6, only=None):
    mod = importlib.import_module('pyvc.props.'+prop.lower())
    cs = [c for c in mod.CONTRACTS if (tier == 'thorough' or not c.thorough) and (only is None or only in c.name)]
    expected = getattr(mod, 'EXPECTED', {})
    mp = multiprocessing.get_context('fork'); todo = list(cs); running = []; results = {}
    scale = 1.0 if tier == 'quick' else 4.0
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0); q = mp.Queue()
            p = mp.Process(target=child, args=(q, prop, c.name, repo, c.budget*scale)); p.start()
            running.append((c, p, q, time.time()))
        still = []
        for c, p, q, t0 in running:
            try: results[c.name] = q.get(timeout=0.02); p.join(5)
            except Exception:
                if not p.is_alive():
                    try: results[c.name] = q.get(timeout=1)
                    except Exception: results[c.name] = dict(contract=c.name, obligations=[], error='verifier process died', functions=[], declared=c.functions, assumptions=[], solver_s=0, queries=0, covered=False, wall=0)
                elif time.time()-t0 > c.budget*scale+20:
                    p.kill(); p.join()
                    results[c.name] = dict(contract=c.name, obligations=[], error='time budget of the contract exhausted', functions=[], declared=c.functions, assumptions=[], solver_s=0, queries=0, covered=False, wall=0)
                else: still.append((c, p, q, t0))
        running = still
    lst = []; ref = []; und = []; funs = set(); ass = set(); ss = 0; nv = 0
    for c in cs:
        r = results[c.name]
        funs |= set(r['functions']); ass |= set(r['assumptions']); ss += r['solver_s']
        for o in r['obligations']:
            nm = c.name+'/'+o['name']
            st = o['status'] if not r['error'] or o['status'] == 'refuted' else 'undecided'
            lst.append(dict(name=nm, instances=o['n'], status=st))
            if st == 'refuted': ref.append(dict(name=nm, why=o['why']))
            elif st == 'undecided': und.append(dict(name=nm, why=o['why'] or r['error']))
        if r['error']: und.append(dict(name=c.name, why=r['error']))
        elif not r['obligations']: und.append(dict(name=c.name, why='no obligation was generated'))
        if r['covered']: nv += 1
        elif not r['error'] and not getattr(c.fn, 'no_cover', False): und.append(dict(name=c.name, why='vacuity check failed: no feasible normal path'))
    return dict(obligations=len(lst), discharged=sum(1 for o in lst if o['status'] == 'discharged'), refuted=ref, undecided=und, list=lst, functions=sorted(funs),
                assumptions=sorted(ass)+list(getattr(mod, 'ASSUMPTIONS', [])), trusted=list(getattr(mod, 'TRUSTED', []))+TRUSTED, bounded=list(getattr(mod, 'BOUNDED', [])), solver_s=ss, vacuity=nv, expected=True,
                contracts={c.name: dict(wall=round(results[c.name]['wall'], 1), error=results[c.name]['error']) for c in cs})
TRUSTED = ['pyvc: symbolic semantics of the Python subset (interp.py, loops.py) and the numpy/struct/file models (nd.py, libs.py)', 'CPython ast parser']

if __name__ == '__main__':
    r = prove(sys.argv[1].upper(), sys.argv[3] if len(sys.argv) > 3 and sys.argv[3] != '-' else '/repo', 'quick', only=sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != '-' else None)
    for o in r['list']: print(o['status'], o['name'], o['instances'])
    for o in r['refuted']: print('REFUTED', o['name'], o['why'])
    for o in r['undecided']: print('UNDECIDED', o['name'], str(o['why']).strip().splitlines()[-1][:300])
    print({k: (v['wall'], str(v['error'])[-120:]) for k, v in r['contracts'].items()}); print(r['assumptions']); print(r['functions']); print('%d/%d' % (r['discharged'], r['obligations']), 'solver %.1f s' % r['solver_s'], 'vacuity ok', r['vacuity'])

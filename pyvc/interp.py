"""Symbolic interpreter for the Python of /repo.  Sources are parsed from the working tree on every run; nothing is dropped
except doc strings, print and warnings calls (no-ops), and decorators other than property/staticmethod/classmethod (rejected)."""
import ast, os, operator, builtins as B
import z3
from . import terms as T
from .terms import *
from .engine import Engine, PyRaise, Infeasible

class BreakEx(BaseException): pass
class ContinueEx(BaseException): pass
class ReturnEx(BaseException):
    def __init__(self, v): self.v = v

class Poison:
    """value of a loop temporary at the start of an arbitrary iteration: reading it is an error of the summary"""
    def __init__(self, loc): self.loc = loc
class PoisonRead(BaseException):
    def __init__(self, loc): self.loc = loc

class Missing:
    """unmodelled import: only an error when it is used"""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<missing %s>' % self.name

class ModelModule:
    def __init__(self, name, d): self.name = name; self.d = d
    def __repr__(self): return '<model module %s>' % self.name
class StarSeq:
    """*args of symbolic length"""
    def __init__(self, s): self.s = s
class Builtin:
    """model of a library function"""
    def __init__(self, fn, name=None, star=False): self.fn = fn; self.name = name or fn.__name__; self.star = star
    def __repr__(self): return '<model %s>' % self.name
class TypeModel:
    def __init__(self, name, call, inst, native=None): self.name = name; self.call = call; self.inst = inst; self.native = native; self.attrs = {}
    def __repr__(self): return '<type %s>' % self.name

class Module:
    def __init__(self, name, path): self.name = name; self.path = path; self.vars = {}
class Env:
    __slots__ = ('vars', 'parent', 'module', 'glob', 'nonl', 'fn', 'localnames', 'self_cls')
    def __init__(self, module, parent=None, fn=None, localnames=None):
        self.vars = {}; self.parent = parent; self.module = module; self.glob = set(); self.nonl = set(); self.fn = fn
        self.localnames = localnames; self.self_cls = None
class IFunction:
    def __init__(self, node, env, module, name, defaults, kwdefaults, cls=None):
        self.node = node; self.env = env; self.module = module; self.name = name; self.defaults = defaults; self.kwdefaults = kwdefaults; self.cls = cls
        self.isgen = has_yield(node) if not isinstance(node, ast.Lambda) else False
    @property
    def qualname(self): return (self.cls.name+'.' if self.cls else '')+self.name
    def __repr__(self): return '<function %s.%s>' % (self.module.name, self.qualname)
class IMethod:
    def __init__(self, func, obj): self.func = func; self.obj = obj
class IProperty:
    def __init__(self, fget, fset=None): self.fget = fget; self.fset = fset
class IStatic:
    def __init__(self, f): self.f = f
class IClassMethod:
    def __init__(self, f): self.f = f
class IClass:
    def __init__(self, name, bases, ns, module):
        self.name = name; self.bases = bases; self.ns = ns; self.module = module
        self.mro = self._mro()
    def _mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro if isinstance(b, IClass) else [b]):
                if c in out: out.remove(c)
                out.append(c)
        return out
    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, IClass) and name in c.ns: return c.ns[name]
        raise KeyError(name)
    def native_bases(self): return [c for c in self.mro if not isinstance(c, IClass)]
    def is_exc(self): return any(isinstance(c, type) and issubclass(c, BaseException) for c in self.native_bases())
    def __repr__(self): return '<class %s>' % self.name
class IObj:
    def __init__(self, cls): self.cls = cls; self.attrs = {}; self.payload = None; self.args = ()
    def __repr__(self): return '<%s object>' % self.cls.name
class Super:
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj

def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False

class SList:
    """list of the interpreted program: list of segments, each a native list or a Seg (symbolic length)"""
    _vc_model = True
    def __init__(self, items=None, segs=None):
        self.segs = segs if segs is not None else [list(items or [])]
    # ---- helpers
    def concrete(self): return all(isinstance(s, list) for s in self.segs)
    @property
    def items(self):
        if not self.concrete(): raise Unsupported('symbolic list used where a concrete one is needed')
        if len(self.segs) != 1: self.segs = [[x for s in self.segs for x in s]]
        return self.segs[0]
    def size(self):
        n = 0
        for s in self.segs: n = n+(len(s) if isinstance(s, list) else s.n)
        return n
    def _save(self):
        old = [list(s) if isinstance(s, list) else s for s in self.segs]
        T.ENG.log(('list', self), lambda: setattr(self, 'segs', old))
    def get(self, i):
        """i already normalised"""
        if self.concrete():
            if isinstance(i, SymInt):
                its = self.items
                if T.ENG.alts is None: return self.get_ite(i)
                if len(its) > 64: raise Unsupported('symbolic index into a long concrete list')
                for j, x in enumerate(its[:-1]):
                    if T.ENG.decide(i == j): return x
                return its[-1]
            return self.items[i]
        base = 0
        if T.ENG.alts is None: return self.get_ite(i)
        for s in self.segs:
            n = len(s) if isinstance(s, list) else s.n
            if s is self.segs[-1] or T.ENG.decide(i < base+n):
                if isinstance(s, list): return SList(s).get(i-base)
                return s.get(i-base)
            base = base+n
        raise Unsupported('list index')
    def get_ite(self, i):
        """without forking: scalars are joined with if-then-else"""
        from . import nd
        base = 0; cases = []
        for s in self.segs:
            n = len(s) if isinstance(s, list) else s.n
            if isinstance(n, int) and n == 0: continue
            c = True if s is self.segs[-1] else nd.gdec(cmp('<', i, base+n))
            if c is not False:
                j = i-base
                v = s.get(j) if not isinstance(s, list) else (s[j] if isinstance(j, int) else nd.pickv(s, j))
                cases.append((c, v))
            if c is True: break
            base = base+n
        if not cases: raise Unsupported('element of an empty list')
        r = cases[-1][1]
        for c, v in reversed(cases[:-1]):
            if isinstance(v, SList) and isinstance(r, SList):
                from . import loops
                r = loops.merge([(c, v), (True, r)])
            else: r = ite(c, v, r)
        return r
    # ---- list API
    def append(self, x): self._save(); self.segs = [list(s) if isinstance(s, list) else s for s in self.segs]; self._last().append(x)
    def _last(self):
        if not self.segs or not isinstance(self.segs[-1], list): self.segs.append([])
        return self.segs[-1]
    def extend(self, o):
        self._save(); s = to_seq(o)
        self.segs = [list(x) if isinstance(x, list) else x for x in self.segs]
        for g in s.segs: self.segs.append(list(g) if isinstance(g, list) else g)
        if self.concrete(): self.items
    def insert(self, i, x):
        self._save()
        if self.concrete(): self.items.insert(i, x)
        elif isinstance(i, int) and i == 0: self.segs = [[x]]+[list(s) if isinstance(s, list) else s for s in self.segs]
        else: raise Unsupported('insertion into a symbolic list')
    def pop(self, *a):
        if not self.concrete() and (not a or a[0] == -1) and isinstance(self.segs[-1], list) and self.segs[-1]:
            self._save(); self.segs = [list(s) if isinstance(s, list) else s for s in self.segs]; return self.segs[-1].pop()
        if not self.concrete() and a == (0,):
            self._save(); segs = [list(s) if isinstance(s, list) else s for s in self.segs if not (isinstance(s, list) and not s)]
            while segs and not isinstance(segs[0], list) and not truth(cmp('>=', segs[0].n, 1)): segs.pop(0)
            if not segs: raise PyRaise(IndexError('pop from empty list'))
            if isinstance(segs[0], list): x = segs[0].pop(0)
            else:
                g = segs[0]; x = g.get(0); segs[0] = Seg(g.n-1, lambda k, g=g: g.get(k+1))
            self.segs = segs or [[]]
            return x
        self._save(); return self.items.pop(*a)
    def remove(self, x):
        self._save()
        for j, y in enumerate(self.items):
            if truth(equal(x, y)): del self.items[j]; return
        T.ENG.pyraise(ValueError('not in list'))
    def clear(self): self._save(); self.segs = [[]]
    def reverse(self): self._save(); self.items.reverse()
    def frozen(self):
        r = SList(segs=[[x.frozen() if isinstance(x, SList) else x for x in s] if isinstance(s, list) else s for s in self.segs])
        if getattr(self, 'istuple', False): r.istuple = True
        return r
    def copy(self): return SList(segs=[list(s) if isinstance(s, list) else s for s in self.segs])
    def index(self, x, *a):
        if not self.concrete():
            j = seg_find(self, x)
            if j is None: T.ENG.pyraise(ValueError('not in list'))
            return j
        for j, y in enumerate(self.items):
            if truth(equal(x, y)): return j
        T.ENG.pyraise(ValueError('%r is not in list' % (x,)))
    def count(self, x): return sum(1 for y in self.items if truth(equal(x, y)))
    def sort(self, key=None, reverse=False):
        self._save()
        self.items.sort(key=(lambda v: INTERP.call(key, [v], {})) if key else None, reverse=reverse)
    def __repr__(self): return 'SList(%r)' % (self.segs,)
def seg_find(b, a):
    """index of the first element of a symbolic list equal to a, or None (forks)"""
    from . import loops
    eng = T.ENG; base = 0
    for s in b.segs:
        if isinstance(s, list):
            for j, y in enumerate(s):
                if truth(equal(y, a)): return base+j
            base = base+len(s); continue
        k = z3.Const(eng.fresh_name('k'), z3.IntSort()); K = mkint(k)
        eng.all_loopvars = eng.all_loopvars+[k]
        if eng.alts is None: raise Unsupported('membership in a symbolic list')
        if truth(cmp('>', s.n, 0)):
            eng.bound(K, 0, s.n-1)
            from .nd import nofork
            with nofork(): e = tb(equal(s.get(K), a))
            if e is True: return base
            if e is not False:
                if eng.fork(2) == 0:
                    w = eng.fresh_int('kf', 0, s.n-1)
                    loops.add_forall(eng, k, z3.Not(zb(e)), 0, w)
                    eng.assume(subst(e, [(k, w)]))
                    if eng.check() == z3.unsat: raise Infeasible()
                    return base+w
                loops.add_forall(eng, k, z3.Not(zb(e)), 0, s.n)
                for q in (0, s.n-1): eng.assume(notb(subst(e, [(k, q)])))
                eng.assume(notb(e))
        base = base+s.n
    return None
class Seg:
    """n elements, element k is get(k)"""
    def __init__(self, n, get): self.n = n; self.get = get
    def __repr__(self): return 'Seg(%s)' % (self.n,)
class SRange:
    def __init__(self, a, b, s): self.a = a; self.b = b; self.s = s
    def n(self):
        if self.s == 1: d = self.b-self.a
        elif self.s == -1: d = self.a-self.b
        elif isinstance(self.s, int) and self.s > 0: d = (self.b-self.a+self.s-1)//self.s
        else: raise Unsupported('range step')
        if isinstance(d, int): return max(0, d)
        if T.ENG.decide(d <= 0): return 0
        return d
class SlimDictView: pass

INTERP = None
def truth(v):
    if isinstance(v, bool): return v
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    if isinstance(v, Sym): return bool(v)
    if isinstance(v, SList): 
        n = v.size(); return n > 0 if isinstance(n, int) else T.ENG.decide(n > 0)
    if isinstance(v, IObj):
        for m in ('__bool__', '__len__'):
            f = INTERP.find_method(v, m)
            if f is not None: return truth(INTERP.call(f, [], {}))
        if v.payload is not None: return bool(v.payload)
        return True
    if hasattr(v, 'vc_truth'): return v.vc_truth()
    if isinstance(v, (IClass, IFunction, IMethod, Builtin, TypeModel, ModelModule)): return True
    if isinstance(v, Missing): raise Unsupported('truth of '+v.name)
    return bool(v)

def equal(a, b):
    for x in (a, b):
        if isinstance(x, Poison): raise PoisonRead(x.loc)
    if hasattr(a, 'vc_binop'): return a.vc_binop('==', a, b)
    if hasattr(b, 'vc_binop'): return b.vc_binop('==', a, b)
    if isinstance(a, (SList, tuple)) and isinstance(b, (SList, tuple)):
        if isinstance(a, SList) != isinstance(b, SList): return False
        sa, sb = to_seq(a), to_seq(b)
        if sa.concrete() and sb.concrete():
            if len(sa.items) != len(sb.items): return False
            return andb(*[tb(equal(x, y)) for x, y in zip(sa.items, sb.items)])
        raise Unsupported('equality of symbolic lists')
    if isinstance(a, (SList, tuple)) or isinstance(b, (SList, tuple)): return False
    if isinstance(a, IObj) or isinstance(b, IObj):
        if isinstance(a, IObj):
            f = INTERP.find_method(a, '__eq__')
            if f is not None: return INTERP.call(f, [b], {})
        return a is b
    if isinstance(a, TypeModel) or isinstance(b, TypeModel):
        return a is b or (isinstance(a, TypeModel) and a.native is not None and a.native is b) or (isinstance(b, TypeModel) and b.native is not None and b.native is a)
    r = a == b
    return r
def tb(v): return v if isinstance(v, (bool, SymBool)) else truth(v)

def to_seq(o):
    """-> SList (possibly symbolic) enumerating o"""
    if getattr(o, 'isgen', None) == 'used': raise Unsupported('generator used twice')
    if isinstance(o, Poison): raise PoisonRead(o.loc)
    if isinstance(o, SList): return o
    if isinstance(o, (list, tuple)): return SList(list(o))
    if isinstance(o, SRange):
        n = o.n()
        if getattr(INTERP, 'splits', None) and not isinstance(n, int) and isinstance(o.s, int) and o.s == 1: return split_range(o)
        if isinstance(n, int) and isinstance(o.a, int) and isinstance(o.s, int): return SList([o.a+o.s*k for k in range(n)])
        if isinstance(n, int): return SList([o.a+o.s*k for k in range(n)])
        return SList(segs=[Seg(n, lambda k: o.a+o.s*k)])
    if isinstance(o, (str, bytes)): return SList(list(o))
    if isinstance(o, SymStr):
        from . import libs
        return SList(segs=[Seg(o.sym_len(), lambda k: libs.char_of(o, k))])
    if isinstance(o, dict) and fams(o): return view(o, 'keys')()
    if isinstance(o, (dict, set, frozenset, type({}.keys()), type({}.values()), type({}.items()), range, map, filter, zip, enumerate, reversed)): return SList(list(o))
    if isinstance(o, IObj):
        if o.payload is not None and INTERP.find_method(o, '__iter__') is None: return SList(list(o.payload))
        f = INTERP.find_method(o, '__iter__')
        if f is not None:
            it = INTERP.call(f, [], {})
            if it is not o: return to_seq(it)
        raise Unsupported('iteration over %r' % o)
    if hasattr(o, 'vc_seq'): return o.vc_seq()
    if isinstance(o, type(iter([]))): return SList(list(o))
    if o is None or isinstance(o, (int, float, SymInt, SymReal)): raise PyRaise(TypeError('not iterable'), True)
    raise Unsupported('iteration over %r' % (o,))

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
OPF = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
       '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
       '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

def has_sym(v, depth=0):
    if isinstance(v, (Sym, Poison)): return True
    if isinstance(v, SList):
        return not v.concrete() or any(has_sym(x, depth+1) for x in v.items)
    if isinstance(v, (tuple, list)) : return any(has_sym(x, depth+1) for x in v)
    if isinstance(v, dict): return any(has_sym(x, depth+1) for x in v.values())
    if hasattr(v, '_vc_model') or isinstance(v, (IObj,)): return True
    return False
def native(v):
    """interpreted value -> native (concrete)"""
    if isinstance(v, SList): return [native(x) for x in v.items]
    if isinstance(v, tuple): return tuple(native(x) for x in v)
    if isinstance(v, TypeModel) and v.native: return v.native
    return v
def lift(v):
    """native result -> interpreted value"""
    if type(v) is list: return SList([lift(x) for x in v])
    if type(v) is tuple: return tuple(lift(x) for x in v)
    return v

class Interp:
    def __init__(self, eng, repo):
        global INTERP
        INTERP = self
        self.eng = eng; self.repo = repo
        self.modules = {}
        self.libs = {}                # name -> ModelModule
        self.contracts = {}           # 'module:qualname' -> f(interp, fn, args, kwargs)
        self.executed = set()         # functions whose body was symbolically executed
        self.events = []
        self.depth = 0
        self.loop_hook = None
        from . import libs
        libs.install(self)
    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules: return self.modules[name]
        base = os.path.join(self.repo, *name.split('.'))
        path = base+'.py' if os.path.exists(base+'.py') else os.path.join(base, '__init__.py')
        if not os.path.exists(path): return None
        m = Module(name, path); self.modules[name] = m
        m.vars['__name__'] = name; m.vars['__file__'] = path
        m.is_pkg = path.endswith('__init__.py')
        src = open(path, 'rb').read()
        m.tree = ast.parse(src)
        env = Env(m); env.vars = m.vars
        trail, self.eng.trail = self.eng.trail, []      # module initialisation is not undone with the path that triggers it
        try: self.exec_block(m.tree.body, env)
        except BaseException: del self.modules[name]; raise
        finally: self.eng.trail = trail
        return m
    def import_(self, name, level, module):
        if level:
            parts = module.name.split('.')
            if not getattr(module, 'is_pkg', False): parts = parts[:-1]
            if level > 1: parts = parts[:-(level-1)]
            name = '.'.join(parts+([name] if name else []))
        if name in self.libs: return self.libs[name]
        if name.split('.')[0] == 'weio' and (os.path.exists(os.path.join(self.repo, *name.split('.'))+'.py') or os.path.exists(os.path.join(self.repo, *name.split('.'), '__init__.py'))):
            return self.load(name)
        return Missing(name)
    def modattr(self, m, n):
        if isinstance(m, Missing): return Missing(m.name+'.'+n)
        if isinstance(m, ModelModule): return m.d.get(n, Missing(m.name+'.'+n))
        if n in m.vars: return m.vars[n]
        sub = self.import_(m.name+'.'+n, 0, m)
        return sub
    # ------------------------------------------------------------------ variables
    def lookup(self, env, name):
        e = env
        if name in env.glob:
            if name in env.module.vars: return self.unp(env.module.vars[name])
        else:
            first = True
            while e is not None:
                if name in e.vars: return self.unp(e.vars[name])
                if first and e.localnames is not None and name in e.localnames and name not in e.nonl:
                    raise PyRaise(UnboundLocalError("cannot access local variable '%s'" % name))
                first = False
                e = e.parent
            if name in env.module.vars: return self.unp(env.module.vars[name])
        if name in self.builtins: return self.builtins[name]
        raise PyRaise(NameError("name '%s' is not defined" % name))
    def unp(self, v):
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        return v
    def setvar(self, env, name, v):
        d = env.vars; holder = env
        if name in env.glob: d = env.module.vars
        elif name in env.nonl:
            e = env.parent
            while e is not None and name not in e.vars: e = e.parent
            if e is not None: d = e.vars
        self.setd(d, name, v, 'env')
    _NO = object()
    def setd(self, d, k, v, kind, owner=None):
        old = d.get(k, self._NO)
        def undo():
            with T.hashing():
                if old is self._NO: d.pop(k, None)
                else: d[k] = old
        self.eng.log((kind, HD(d, owner), SymKey(k) if isinstance(k, Sym) else k), undo)
        d[k] = v
    def deld(self, d, k, kind):
        old = d[k]; order = list(d.items())
        def undo():
            with T.hashing(): d.clear(); d.update(order)
        if isinstance(k, Sym) or symkeys(d): raise Unsupported('deletion of a symbolic key')
        self.eng.log((kind, HD(d), k), undo)
        del d[k]
    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body: self.exec(s, env)
    def exec(self, s, env):
        try:
            return getattr(self, 'x_'+type(s).__name__)(s, env)
        except AttributeError as e:
            if not hasattr(self, 'x_'+type(s).__name__): raise Unsupported('statement %s' % type(s).__name__)
            raise
    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, env)
    def x_Pass(self, s, env): pass
    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def x_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def x_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(env, t.id); v = self.ev(s.value, env)
            self.setvar(env, t.id, self.iop(op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env); old = self.getattr(o, t.attr); v = self.ev(s.value, env)
            self.setattr(o, t.attr, self.iop(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env); i = self.ev_index(t.slice, env); old = self.getitem(o, i); v = self.ev(s.value, env)
            self.setitem(o, i, self.iop(op, old, v))
        else: raise Unsupported('augmented assignment')
    def iop(self, op, old, v):
        if isinstance(old, SList) and op == '+': old.extend(v); return old
        if hasattr(old, 'vc_iop'): return old.vc_iop(op, v)
        return self.binop(op, old, v)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = to_seq(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                its = s.items; i = star[0]; m = len(t.elts)-i-1
                for x, y in zip(t.elts[:i], its[:i]): self.assign(x, y, env)
                self.assign(t.elts[i].value, SList(its[i:len(its)-m]), env)
                for x, y in zip(t.elts[i+1:], its[len(its)-m:]): self.assign(x, y, env)
                return
            n = s.size()
            if not isinstance(n, int):
                if not truth(n == len(t.elts)): raise PyRaise(ValueError('unpack'))
                for i, x in enumerate(t.elts): self.assign(x, s.get(i), env)
                return
            if n != len(t.elts): raise PyRaise(ValueError('not enough/too many values to unpack'))
            for x, y in zip(t.elts, s.items): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        else: raise Unsupported('assignment target')
    def x_Return(self, s, env): raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)
    def x_If(self, s, env):
        c = self.ev(s.test, env)
        if isinstance(c, SymBool) and self.if_merge(c, s, env): return
        if truth(c): self.exec_block(s.body, env)
        else: self.exec_block(s.orelse, env)
    def if_merge(self, c, s, env):
        """both branches only assign real numbers or array elements: execute both and join the states"""
        if not hasattr(s, 'vc_simple'):
            s.vc_simple = all(isinstance(x, (ast.Assign, ast.AugAssign, ast.Pass)) for x in s.body+s.orelse) and not any(isinstance(x, (ast.Yield, ast.NamedExpr)) for y in s.body+s.orelse for x in ast.walk(y))
        if not s.vc_simple: return False
        eng = self.eng; t = norm(zb(c))
        if eng.alts is None or z3.is_true(t) or z3.is_false(t) or eng.quick(t) is not None: return False
        if eng.check(t) == z3.unsat or eng.check(z3.Not(t)) == z3.unsat: return False
        from . import loops, nd
        res = []
        for cond, body in ((t, s.body), (z3.Not(t), s.orelse)):
            outs = []
            def fn(): eng.assume(SymBool(cond)); self.exec_block(body, env)
            def collect(r, exc, mark, n0):
                outs.append((exc, list(eng.facts[n0+1:]), {l: loops.loc_get(l) for l, _ in eng.trail[mark:] if l is not None and l[0] in ('env', 'attr', 'dict', 'stor')} if exc is None else None, [l for l, _ in eng.trail[mark:] if l is not None and l[0] not in ('env', 'attr', 'dict', 'stor')], len(eng.inexact)))
            try: eng.explore(fn, collect)
            except PoisonRead: raise
            if len(outs) != 1 or outs[0][0] is not None or outs[0][3]: return False
            res.append(outs[0])
        locs = list(res[0][2])+[l for l in res[1][2] if l not in res[0][2]]; new = {}
        for l in locs:
            v1 = res[0][2].get(l, None) if l in res[0][2] else loops.loc_get(l); v0 = res[1][2][l] if l in res[1][2] else loops.loc_get(l)
            if l[0] == 'stor':
                fn1, w1 = v1; fn0, w0 = v0; base = loops.loc_get(l)[1]; n = len(base)
                if nd.DT[l[1].code][0] != 'f': return False
                def fn(idx, fn1=fn1, fn0=fn0): return ite(SymBool(t), fn1(idx), fn0(idx))
                def g(cc, cd): return (lambda idx: nd.gand(cc, cd(idx))) if cd is not None else (lambda idx: cc)
                new[l] = (fn, base+[(b, g(SymBool(t), cd), v) for b, cd, v in w1[n:]]+[(b, g(SymBool(z3.Not(t)), cd), v) for b, cd, v in w0[n:]])
                if w1[:n] != base or w0[:n] != base: return False
            else:
                num = (float, SymReal, int)
                if v1 is v0: new[l] = v1; continue
                if not (isinstance(v1, num) and isinstance(v0, num) and not isinstance(v1, bool) and not isinstance(v0, bool)): return False
                if not (isinstance(v1, (float, SymReal)) or isinstance(v0, (float, SymReal))): return False
                if any(isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))) for v in (v1, v0)): return False
                new[l] = ite(SymBool(t), v1, v0)
        for l, v in new.items(): loops.loc_set(self, l, v)
        for cond, o in ((t, res[0]), (z3.Not(t), res[1])):
            for f in o[1]: eng.assume_t(z3.Implies(cond, f))
        return True
    def x_Break(self, s, env): raise BreakEx()
    def x_Continue(self, s, env): raise ContinueEx()
    def x_Global(self, s, env): env.glob.update(s.names)
    def x_Nonlocal(self, s, env): env.nonl.update(s.names)
    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): self.deld(env.vars, t.id, 'env')
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env); i = self.ev_index(t.slice, env)
                if isinstance(o, SList): o._save(); del o.items[i]
                elif isinstance(o, dict): self.deld(o, i, 'dict')
                elif isinstance(o, IObj) and o.payload is not None: self.deld(o.payload, i, 'dict')
                else: raise Unsupported('del')
            else: raise Unsupported('del')
    def x_Assert(self, s, env):
        if not truth(self.ev(s.test, env)): raise PyRaise(AssertionError(), True)
    def x_Raise(self, s, env):
        if s.exc is None:
            if self.cur_exc is None: raise PyRaise(RuntimeError('No active exception'))
            raise PyRaise(self.cur_exc, True)
        e = self.ev(s.exc, env)
        if isinstance(e, IClass): e = self.call(e, [], {})
        if isinstance(e, type) and issubclass(e, BaseException): e = e()
        if isinstance(e, Missing): raise Unsupported('raise of '+e.name)
        raise PyRaise(e, True)
    cur_exc = None
    def exc_match(self, e, t):
        if isinstance(t, tuple): return any(self.exc_match(e, x) for x in t)
        if isinstance(t, Missing): return False
        if isinstance(e, IObj):
            if isinstance(t, IClass): return t in e.cls.mro
            return any(isinstance(c, type) and issubclass(c, t) for c in e.cls.native_bases()) if isinstance(t, type) else False
        if isinstance(t, IClass): return False
        return isinstance(e, t)
    def x_Try(self, s, env):
        def run():
            try:
                self.exec_block(s.body, env)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None or self.exc_match(p.exc, self.ev(h.type, env)):
                        if not p.explicit and isinstance(p.exc, (TypeError, AttributeError)) and getattr(p, 'internal', True):
                            raise Unsupported('handled %r' % (p.exc,))
                        if h.name: self.setvar(env, h.name, p.exc)
                        saved = self.cur_exc; self.cur_exc = p.exc
                        try: self.exec_block(h.body, env)
                        finally: self.cur_exc = saved
                        return
                raise
            else:
                self.exec_block(s.orelse, env)
        if s.finalbody:
            try: run()
            except (PyRaise, ReturnEx, BreakEx, ContinueEx):
                self.exec_block(s.finalbody, env); raise
            self.exec_block(s.finalbody, env)
        else: run()
    def x_With(self, s, env, i=0):
        if i == len(s.items): return self.exec_block(s.body, env)
        it = s.items[i]
        c = self.ev(it.context_expr, env)
        if isinstance(c, IObj): v = self.call(self.getattr(c, '__enter__'), [], {})
        elif hasattr(c, 'vc_enter'): v = c.vc_enter()
        else: raise Unsupported('context manager %r' % (c,))
        if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
        def leave(exc):
            if isinstance(c, IObj): return self.call(self.getattr(c, '__exit__'), [None, exc, None], {})
            return c.vc_exit(exc)
        try: self.x_With(s, env, i+1)
        except PyRaise as p:
            if truth(leave(p.exc) or False): return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            leave(None); raise
        leave(None)
    def x_FunctionDef(self, s, env):
        self.setvar(env, s.name, self.mkfunc(s, env, s.name, s.decorator_list))
    def mkfunc(self, node, env, name, decos=(), cls=None):
        a = node.args
        f = IFunction(node, env, env.module, name, [self.ev(d, env) for d in a.defaults],
                      [self.ev(d, env) if d is not None else None for d in a.kw_defaults], cls)
        f.closure = env if env.fn is not None else None
        for d in decos:
            if isinstance(d, ast.Name) and d.id == 'property': f = IProperty(f)
            elif isinstance(d, ast.Name) and d.id == 'staticmethod': f = IStatic(f)
            elif isinstance(d, ast.Name) and d.id == 'classmethod': f = IClassMethod(f)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                p = self.ev(d.value, env); f = IProperty(p.fget, f)
            else: f = Missing('decorated '+name)
        return f
    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [b for b in bases if not isinstance(b, Missing)] if any(isinstance(b, Missing) for b in bases) else bases
        bases = [b.native if isinstance(b, TypeModel) else b for b in bases]
        e = Env(env.module, parent=env if env.vars is not env.module.vars else None); e.fn = env.fn
        c = IClass(s.name, bases, {}, env.module)
        e.vars = c.ns
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                c.ns[st.name] = self.mkfunc(st, e, st.name, st.decorator_list, c)
            else: self.exec(st, e)
        # methods do not see the class scope
        for f in c.ns.values():
            for g in ([f] if isinstance(f, IFunction) else [f.f] if isinstance(f, (IStatic, IClassMethod)) else [x for x in (f.fget, f.fset) if x] if isinstance(f, IProperty) else []):
                if isinstance(g, IFunction) and g.env is e: g.env = env
        self.setvar(env, s.name, c)
    def x_Import(self, s, env):
        for a in s.names:
            if a.asname: self.setvar(env, a.asname, self.import_(a.name, 0, env.module))
            else:
                top = self.import_(a.name.split('.')[0], 0, env.module)
                if isinstance(top, Missing) and '.' in a.name: pass
                self.import_(a.name, 0, env.module)
                self.setvar(env, a.name.split('.')[0], top)
    def x_ImportFrom(self, s, env):
        m = self.import_(s.module or '', s.level, env.module)
        if isinstance(m, Missing) and s.level: raise PyRaise(ImportError(s.module), True)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Module):
                    for k, v in m.vars.items():
                        if not k.startswith('_'): self.setvar(env, k, v)
                elif isinstance(m, ModelModule):
                    for k, v in m.d.items(): self.setvar(env, k, v)
                continue
            v = self.modattr(m, a.name)
            self.setvar(env, a.asname or a.name, v)
    def x_For(self, s, env):
        from . import loops, nd
        seq = self.ev(s.iter, env)
        def body(x):
            self.assign(s.target, x, env)
            self.exec_block(s.body, env)
        brk = seq.vc_stream(body) if hasattr(seq, 'vc_stream') else loops.for_loop(self, to_seq(seq), body)
        if not brk: self.exec_block(s.orelse, env)
    def x_While(self, s, env):
        from . import loops, nd
        brk = loops.while_loop(self, lambda: self.ev(s.test, env), lambda: self.exec_block(s.body, env), s)
        if not brk: self.exec_block(s.orelse, env)
    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        f = getattr(self, 'e_'+type(e).__name__, None)
        if f is None: raise Unsupported('expression %s' % type(e).__name__)
        return f(e, env)
    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env): return self.lookup(env, e.id)
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = SList([])
            for x in e.elts:
                if isinstance(x, ast.Starred): r.extend(self.ev(x.value, env))
                else: r.append(self.ev(x, env))
            return r
        return SList([self.ev(x, env) for x in e.elts])
    def elts(self, xs, env, call=False):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                s = to_seq(self.ev(x.value, env))
                if call and not s.concrete(): out.append(StarSeq(s))
                else: out += s.items
            else: out.append(self.ev(x, env))
        return out
    def e_Set(self, e, env): return set(self.elts(e.elts, env))
    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.ev(v, env))
            else: d[self.ev(k, env)] = self.ev(v, env)
        return d
    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if x is e.values[-1]: return v
            t = truth(v)
            if isinstance(e.op, ast.And) and not t: return v if not isinstance(v, SymBool) else False
            if isinstance(e.op, ast.Or) and t: return v if not isinstance(v, SymBool) else True
        return v
    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool): return notb(v)
            return not truth(v)
        if hasattr(v, 'vc_unop'): return v.vc_unop(type(e.op).__name__)
        if isinstance(e.op, ast.USub): return -v
        if isinstance(e.op, ast.UAdd): return +v
        return ~v
    def e_BinOp(self, e, env):
        a = self.ev(e.left, env); b = self.ev(e.right, env)
        return self.binop(BINOPS[type(e.op)], a, b)
    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison): raise PoisonRead(x.loc)
            if isinstance(x, Missing): raise Unsupported('use of '+x.name)
        if hasattr(a, 'vc_binop'): return a.vc_binop(op, a, b)
        if hasattr(b, 'vc_binop') and not (op == '%' and isinstance(a, str)): return b.vc_binop(op, a, b)
        if isinstance(a, SList):
            if op == '+': r = a.copy(); r.segs = [list(s) if isinstance(s, list) else s for s in r.segs]; return cat(a, b)
            if op == '*':
                if isinstance(b, int): return SList(a.items*b) if a.concrete() else SList(segs=[list(s) if isinstance(s, list) else s for s in a.segs]*b)
                its = a.items
                if len(its) == 1: return SList(segs=[Seg(ite(b > 0, b, 0) if not T.ENG.implied(zb(b >= 0)) else b, lambda k: its[0])])
        if isinstance(b, SList) and op == '*': return self.binop(op, b, a)
        if isinstance(a, str) and op == '%':
            from . import libs
            return libs.fmt_percent(a, b)
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and op == '+': return a+b if isinstance(a, str) and isinstance(b, str) else catstr(a, b)
        if isinstance(a, str) and isinstance(b, SymInt) and op == '*': return SymStr(z3.Function('strrep', z3.StringSort(), z3.IntSort(), z3.StringSort())(z3.StringVal(a), zi(b)))
        if isinstance(b, str) and isinstance(a, SymInt) and op == '*': return self.binop(op, b, a)
        if isinstance(a, IObj) or isinstance(b, IObj):
            nm = {'+': '__add__', '-': '__sub__', '*': '__mul__'}.get(op)
            f = self.find_method(a, nm) if isinstance(a, IObj) and nm else None
            if f: return self.call(f, [b], {})
            raise Unsupported('operator on object')
        try: return lift(OPF[op](native(a) if isinstance(a, SList) else a, native(b) if isinstance(b, SList) else b))
        except (ZeroDivisionError, OverflowError, ValueError) as x: raise PyRaise(x)
        except TypeError as x:
            if isinstance(a, Sym) or isinstance(b, Sym): raise Unsupported('%s %s %s' % (type(a).__name__, op, type(b).__name__))
            raise PyRaise(x)
    def e_Compare(self, e, env):
        a = self.ev(e.left, env); res = True
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env)
            v = self.compare(op, a, b)
            if len(e.ops) == 1: return v
            if not truth(v): return False
            a = b
        return True
    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison): raise PoisonRead(x.loc)
        if isinstance(op, ast.Is): return a is b or (isinstance(a, TypeModel) and a.native is b and b is not None) or (isinstance(b, TypeModel) and b.native is a and a is not None)
        if isinstance(op, ast.IsNot): return not self.compare(ast.Is(), a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            v = self.contains(a, b)
            return v if isinstance(op, ast.In) else notb(tb(v))
        o = CMPS[type(op)]
        if o == '==': return equal(a, b)
        if o == '!=':
            v = equal(a, b)
            if hasattr(v, 'vc_unop'): return v.vc_unop('Invert')
            return notb(tb(v))
        if hasattr(a, 'vc_binop'): return a.vc_binop(o, a, b)
        if hasattr(b, 'vc_binop'): return b.vc_binop(o, a, b)
        try: return OPF[o](native(a), native(b))
        except TypeError as x:
            if isinstance(a, Sym) or isinstance(b, Sym): raise Unsupported('compare')
            raise PyRaise(x)
    def contains(self, a, b):
        """a in b"""
        if isinstance(b, SList):
            if b.concrete():
                if not has_sym(a) and not any(has_sym(x) for x in b.items) : return any(truth(equal(x, a)) for x in b.items)
                return orb(*[tb(equal(x, a)) for x in b.items])
            return seg_find(b, a) is not None
        if isinstance(b, tuple): return self.contains(a, SList(list(b)))
        if isinstance(b, (str, SymStr)):
            if isinstance(a, str) and isinstance(b, str): return a in b
            return b.sym_contains(a) if isinstance(b, SymStr) else mkbool(z3.Contains(zs(b), zs(a)))
        if isinstance(b, IObj):
            f = self.find_method(b, '__contains__')
            if f is not None: return self.call(f, [a], {})
            if b.payload is not None: return self.contains(a, b.payload)
            raise Unsupported('in object')
        if hasattr(b, 'vc_contains'): return b.vc_contains(a)
        if isinstance(b, (dict, type({}.keys()))) and (isinstance(a, Sym) or symkeys(b)):
            return orb(*[tb(equal(a, k)) for k in list(b)])
        if isinstance(a, Sym) and isinstance(b, SRange): return andb(a >= b.a, a < b.b) if b.s == 1 else Unsupported('in range')
        if isinstance(b, (type({}.values()),)): return self.contains(a, SList(list(b)))
        return a in b
    def e_IfExp(self, e, env):
        return self.ev(e.body, env) if truth(self.ev(e.test, env)) else self.ev(e.orelse, env)
    def e_Lambda(self, e, env):
        f = self.mkfunc(e, env, '<lambda>'); return f
    def e_Attribute(self, e, env): return self.getattr(self.ev(e.value, env), e.attr)
    def e_Subscript(self, e, env): return self.getitem(self.ev(e.value, env), self.ev_index(e.slice, env))
    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple): return tuple(self.ev_index(x, env) for x in s.elts)
        return self.ev(s, env)
    def e_Slice(self, e, env): return self.ev_index(e, env)
    def e_JoinedStr(self, e, env):
        from . import libs
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant): out = catstr(out, v.value)
            else:
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
                val = self.ev(v.value, env)
                if v.conversion == 114: val = repr(val)
                out = catstr(out, libs.fmt_one(val, spec))
        return out
    def e_Starred(self, e, env): raise Unsupported('starred')
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.assign(e.target, v, env); return v
    def comp(self, gens, env, emit):
        from . import loops, nd
        ce = Env(env.module, parent=env, fn=env.fn)
        def rec(i):
            if i == len(gens): emit(ce); return
            g = gens[i]
            seq = to_seq(self.ev(g.iter, ce if i else env))
            def body(x):
                self.assign(g.target, x, ce)
                for c in g.ifs:
                    if not truth(self.ev(c, ce)): return
                rec(i+1)
            loops.for_loop(self, seq, body)
        rec(0)
    def e_ListComp(self, e, env):
        r = SList([]); self.comp(e.generators, env, lambda ce: r.append(self.ev(e.elt, ce))); return r
    def e_GeneratorExp(self, e, env):
        """evaluated eagerly; sound as long as no element raises (elements of this code have no side effects but exceptions)"""
        try: r = self.e_ListComp(e, env)
        except PyRaise as x: raise Unsupported('exception inside a generator expression (%r)' % (x.exc,))
        r.isgen = True
        return r
    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env).items)
    def e_DictComp(self, e, env):
        d = {}
        def emit(ce):
            k = self.ev(e.key, ce); v = self.ev(e.value, ce)
            if isinstance(k, Sym): raise Unsupported('symbolic dict key')
            self.setd(d, k, v, 'dict')
        self.comp(e.generators, env, emit); return d
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env.vars:
            if e.args:
                c = self.ev(e.args[0], env); o = self.ev(e.args[1], env); return Super(c, o)
            en = env
            while en is not None and en.fn is None: en = en.parent
            return Super(env.fn.cls, env.vars[env.fn.node.args.args[0].arg])
        f = self.ev(e.func, env)
        args = self.elts(e.args, env, True); kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, IObj): d = d.payload
                kw.update(d)
            else: kw[k.arg] = self.ev(k.value, env)
        if isinstance(f, Builtin) and f.name in ('locals', 'globals'): return dict(env.vars)
        return self.call(f, args, kw)
    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Poison): raise PoisonRead(f.loc)
        if any(isinstance(a, StarSeq) for a in args) and not (isinstance(f, Builtin) and f.star): raise Unsupported('symbolic number of arguments')
        if isinstance(f, IMethod): return self.call(f.func, [f.obj]+list(args), kw)
        if isinstance(f, IStatic): return self.call(f.f, args, kw)
        if isinstance(f, IFunction): return self.call_func(f, args, kw)
        if isinstance(f, IClass): return self.instantiate(f, args, kw)
        if isinstance(f, Builtin): return f.fn(*args, **kw)
        if isinstance(f, TypeModel): return f.call(*args, **kw)
        if isinstance(f, Missing): raise Unsupported('call of unmodelled '+f.name)
        if isinstance(f, IObj):
            m = self.find_method(f, '__call__')
            if m is not None: return self.call(m, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException): return f(*args)
        s = getattr(f, '__self__', None)
        if s is not None and not isinstance(s, type(B)):
            if getattr(type(s), '_vc_model', False): return f(*args, **kw)
            return self.call_native_method(s, f, args, kw)
        raise Unsupported('call of %r' % (f,))
    def call_native_method(self, s, f, args, kw):
        name = f.__name__
        if isinstance(s, (str, bytes)):
            from . import libs
            if has_sym(args) or has_sym(list(kw.values())):
                return libs.str_method(s, name, args, kw)
            try:
                return lift(f(*[native(a) for a in args], **kw))
            except (ValueError, IndexError, KeyError, UnicodeError) as x: raise PyRaise(x)
        if isinstance(s, dict):
            if name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
                order = list(s.items())
                def undo():
                    s.clear(); s.update(order)
                self.eng.log(('dict', HD(s), None), undo)
                if name == 'update' and args and isinstance(args[0], IObj): args = [args[0].payload]
                if name == 'update' and args and isinstance(args[0], SList): args = [args[0].items]
            if name == 'get' and args and (isinstance(args[0], Sym) or symkeys(s)):
                for k, v in list(s.items()):
                    if truth(equal(k, args[0])): return self.unp(v)
                return args[1] if len(args) > 1 else None
            if symkeys(s) and name not in ('keys', 'items', 'values', 'copy'): raise Unsupported('dictionary method %s with symbolic keys' % name)
            if any(isinstance(a, Sym) for a in args[:1]): raise Unsupported('symbolic dict key')
            try: return f(*args, **kw)
            except KeyError as x: raise PyRaise(x)
        if isinstance(s, set):
            if name in ('add', 'remove', 'discard', 'update', 'clear', 'pop'):
                old = set(s)
                def undo():
                    s.clear(); s.update(old)
                self.eng.log(('set', HD(s), None), undo)
            return f(*[native(a) for a in args], **kw)
        if isinstance(s, (list, tuple)):
            if isinstance(s, tuple):
                if name == 'index': return SList(list(s)).index(*args)
                if name == 'count': return SList(list(s)).count(*args)
            raise Unsupported('native list method '+name)
        if isinstance(s, (int, float)) and not has_sym(args): return lift(f(*args, **kw))
        if isinstance(s, type) and not has_sym(args):
            return lift(f(*[native(a) for a in args], **kw))
        if type(s).__name__ == 'Match' and not has_sym(args): return lift(f(*args, **kw))
        raise Unsupported('native method %s of %s' % (name, type(s).__name__))
    def bind(self, f, args, kw):
        a = f.node.args; v = {}
        pos = [x.arg for x in a.posonlyargs+a.args]
        args = list(args); kw = dict(kw)
        for n, x in zip(pos, args): v[n] = x
        extra = args[len(pos):]
        if a.vararg: v[a.vararg.arg] = tuple(extra)
        elif extra: raise PyRaise(TypeError('%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args))))
        for n in pos[len(args):]:
            if n in kw: v[n] = kw.pop(n)
        for n in list(kw):
            if n in pos: raise PyRaise(TypeError('%s() got multiple values for argument %r' % (f.name, n)))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in v:
                j = i-(len(pos)-nd)
                if j >= 0: v[n] = f.defaults[j]
                else: raise PyRaise(TypeError("%s() missing required argument: '%s'" % (f.name, n)))
        for x, d, i in zip(a.kwonlyargs, a.kw_defaults, range(99)):
            if x.arg in kw: v[x.arg] = kw.pop(x.arg)
            elif d is not None: v[x.arg] = f.kwdefaults[i]
            else: raise PyRaise(TypeError("missing keyword argument"))
        if a.kwarg: v[a.kwarg.arg] = kw
        elif kw: raise PyRaise(TypeError("%s() got an unexpected keyword argument '%s'" % (f.name, list(kw)[0])))
        return v
    def call_func(self, f, args, kw):
        key = f.module.name+':'+f.qualname
        c = self.contracts.get(key)
        if c is not None:
            r = c(self, f, args, kw)
            if r is not NotImplemented: return r
        self.executed.add(key)
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion depth')
        try:
            env = Env(f.module, parent=f.closure, fn=f)
            env.vars.update(self.bind(f, args, kw))
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, env)
            env.localnames = local_names(f.node)
            if f.isgen: raise Unsupported('generator function')
            try: self.exec_block(f.node.body, env)
            except ReturnEx as r: return r.v
            return None
        finally: self.depth -= 1
    def instantiate(self, c, args, kw):
        key = c.module.name+':'+c.name
        ct = self.contracts.get(key)
        if ct is not None:
            r = ct(self, c, args, kw)
            if r is not NotImplemented: return r
        o = IObj(c)
        nb = c.native_bases()
        if any(isinstance(b, type) and issubclass(b, dict) for b in nb): o.payload = {}
        if c.is_exc(): o.args = tuple(args)
        try: init = c.lookup('__init__')
        except KeyError: init = None
        if init is not None: self.call(init, [o]+list(args), kw)
        elif o.payload is not None:
            if args: self.call(self.getattr(o, 'update'), args, kw)
        return o
    # ------------------------------------------------------------------ attributes and items
    def find_method(self, o, name):
        if isinstance(o, IObj):
            try: f = o.cls.lookup(name)
            except KeyError: return None
            if isinstance(f, IFunction): return IMethod(f, o)
            if isinstance(f, IStatic): return f.f
            if isinstance(f, IClassMethod): return IMethod(f.f, o.cls)
            return f
        return None
    def getattr(self, o, n):
        if isinstance(o, Poison): raise PoisonRead(o.loc)
        if isinstance(o, IObj):
            try: f = o.cls.lookup(n)
            except KeyError: f = None
            if isinstance(f, IProperty):
                return self.call(f.fget, [o], {})
            if n in o.attrs: return self.unp(o.attrs[n])
            if n == '__class__': return o.cls
            if n == '__dict__': return o.attrs
            if f is not None:
                if isinstance(f, IFunction): return IMethod(f, o)
                if isinstance(f, IStatic): return f.f
                if isinstance(f, IClassMethod): return IMethod(f.f, o.cls)
                return f
            if o.payload is not None and hasattr(o.payload, n): return getattr(o.payload, n)
            if n == 'args' and o.cls.is_exc(): return o.args
            g = self.find_method(o, '__getattr__')
            if g is not None: return self.call(g, [n], {})
            raise PyRaise(AttributeError("'%s' object has no attribute '%s'" % (o.cls.name, n)), True)
        if isinstance(o, IClass):
            if n == '__name__': return o.name
            try: f = o.lookup(n)
            except KeyError: 
                for b in o.native_bases():
                    if b is dict or (isinstance(b, type) and issubclass(b, dict)):
                        return Builtin(lambda self_, *a, **k: self.call(getattr(self_.payload, n), list(a), k), n)
                raise PyRaise(AttributeError("type object '%s' has no attribute '%s'" % (o.name, n)), True)
            if isinstance(f, IStatic): return f.f
            if isinstance(f, IClassMethod): return IMethod(f.f, o)
            return f
        if isinstance(o, Super):
            mro = o.obj.cls.mro if isinstance(o.obj, IObj) else o.obj.mro
            i = mro.index(o.cls)
            for c in mro[i+1:]:
                if isinstance(c, IClass) and n in c.ns:
                    f = c.ns[n]
                    if isinstance(f, IFunction): return IMethod(f, o.obj)
                    if isinstance(f, IProperty): return self.call(f.fget, [o.obj], {})
                    return f
            if n == '__init__':
                def init(*a, **k):
                    if isinstance(o.obj, IObj) and o.obj.cls.is_exc(): o.obj.args = a
                    elif a or k: self.call(getattr(o.obj.payload, 'update'), list(a), k)
                return Builtin(init, 'object.__init__')
            if o.obj.payload is not None:
                if n == '__getitem__': return Builtin(lambda k: self.getitem(o.obj.payload, k), n)
                if n == '__setitem__': return Builtin(lambda k, v: self.setitem(o.obj.payload, k, v), n)
                if n == '__contains__': return Builtin(lambda k: self.contains(k, o.obj.payload), n)
                return getattr(o.obj.payload, n)
            if n == '__repr__': return Builtin(lambda: 'repr', n)
            raise Unsupported('super().'+n)
        if isinstance(o, Module):
            if n in o.vars: return self.unp(o.vars[n])
            v = self.import_(o.name+'.'+n, 0, o)
            if isinstance(v, Missing): raise PyRaise(AttributeError('module %s has no attribute %s' % (o.name, n)), True)
            return v
        if isinstance(o, (ModelModule, Missing)): return self.modattr(o, n)
        if isinstance(o, TypeModel):
            if n == '__name__': return o.name
            if n in o.attrs: return o.attrs[n]
            return Missing(o.name+'.'+n)
        if isinstance(o, IFunction) and n == '__name__': return o.name
        if isinstance(o, (IFunction, IMethod)): raise Unsupported('function attribute '+n)
        if hasattr(o, 'vc_getattr'): return o.vc_getattr(n)
        if isinstance(o, (SymReal, SymInt, SymBool)):
            from . import libs
            return libs.num_attr(o, n)
        if isinstance(o, Sym) and not hasattr(type(o), n): raise Unsupported('attribute %s of a symbolic value' % n)
        if isinstance(o, dict) and fams(o): return view(o, n)
        if isinstance(o, SymStr):
            from . import libs
            f = getattr(o, n); return Builtin(f, n)
        if isinstance(o, SList):
            if n.startswith('_') or n not in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'copy', 'index', 'count', 'sort'):
                raise PyRaise(AttributeError("'list' object has no attribute '%s'" % n), True)
            return getattr(o, n)
        try: return getattr(o, n)
        except AttributeError as x:
            if getattr(type(o), '_vc_model', False): raise Unsupported('attribute %s of %s' % (n, type(o).__name__))
            raise PyRaise(x, True)
    def setattr(self, o, n, v):
        if isinstance(o, IObj):
            try: f = o.cls.lookup(n)
            except KeyError: f = None
            if isinstance(f, IProperty):
                if f.fset is None: raise PyRaise(AttributeError("can't set attribute"), True)
                return self.call(f.fset, [o, v], {})
            self.setd(o.attrs, n, v, 'attr', o); return
        if isinstance(o, IClass): self.setd(o.ns, n, v, 'attr', o); return
        if hasattr(o, 'vc_setattr'): return o.vc_setattr(n, v)
        raise Unsupported('attribute store on %r' % (o,))
    def getitem(self, o, i):
        if isinstance(o, Poison): raise PoisonRead(o.loc)
        if isinstance(i, Poison): raise PoisonRead(i.loc)
        if hasattr(o, 'vc_getitem'): return o.vc_getitem(i)
        if isinstance(o, IObj):
            f = self.find_method(o, '__getitem__')
            if f is not None: return self.call(f, [i], {})
            if o.payload is not None: return self.getitem(o.payload, i)
            raise Unsupported('subscript of object')
        if isinstance(o, (SList, tuple)):
            istup = isinstance(o, tuple)
            s = to_seq(o)
            if isinstance(i, slice): 
                r = slice_seq(s, i)
                return tuple(r.items) if istup else r
            i = idx_int(i)
            n = s.size()
            if isinstance(i, int) and isinstance(n, int):
                if not -n <= i < n: raise PyRaise(IndexError('list index out of range'))
                return self.unp(s.items[i]) if s.concrete() else s.get(i % n)
            if truth(i < 0): i = i+n
            if not truth(andb(tb(i >= 0), tb(i < n))): raise PyRaise(IndexError('list index out of range'))
            return self.unp(s.get(i))
        if isinstance(o, dict):
            if isinstance(i, Sym) or symkeys(o):
                for k, v in list(o.items()):
                    if truth(equal(k, i)): return self.unp(v)
                raise PyRaise(KeyError(i))
            try: return self.unp(o[i])
            except KeyError as x: raise PyRaise(x)
        if isinstance(o, (str, bytes)) and not has_sym(i) and not (isinstance(i, slice) and has_sym([i.start, i.stop, i.step])):
            try: return o[i]
            except IndexError as x: raise PyRaise(x)
        if isinstance(o, (str, SymStr)):
            from . import libs
            return libs.str_index(o, i)
        raise Unsupported('subscript of %r' % (type(o).__name__,))
    def setitem(self, o, i, v):
        if isinstance(i, Poison): raise PoisonRead(i.loc)
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        if hasattr(o, 'vc_setitem'): return o.vc_setitem(i, v)
        if isinstance(o, IObj):
            f = self.find_method(o, '__setitem__')
            if f is not None: return self.call(f, [i, v], {})
            if o.payload is not None: return self.setitem(o.payload, i, v)
            raise Unsupported('item store on object')
        if isinstance(o, dict):
            if isinstance(i, Sym) or symkeys(o):
                for k in list(o):
                    if truth(equal(k, i)): i = k; break
                if isinstance(i, Sym):
                    with T.hashing(): self.setd(o, i, v, 'dict')
                    return
            self.setd(o, i, v, 'dict'); return
        if isinstance(o, SList):
            if isinstance(i, slice): raise Unsupported('slice assignment to a list')
            i = idx_int(i); n = o.size()
            if isinstance(i, int) and o.concrete():
                if not -n <= i < n: raise PyRaise(IndexError('list assignment index out of range'))
                o._save(); o.items[i] = v; return
            if truth(i < 0): i = i+n
            if not truth(andb(tb(i >= 0), tb(i < n))): raise PyRaise(IndexError('list assignment index out of range'))
            o._save()
            old = o.copy()
            o.segs = [Seg(n, lambda k: ite(k == i, v, old.get(k)))]
            o.segs[0].base = old; o.segs[0].upd = (i, v)
            return
        raise Unsupported('item store on %r' % (o,))

class HD:
    """identity wrapper so that containers can be used as location keys"""
    __slots__ = ('d', 'owner')
    def __init__(self, d, owner=None): self.d = d; self.owner = owner
    def __eq__(a, b): return isinstance(b, HD) and a.d is b.d
    def __hash__(self): return id(self.d)

def split_range(o):
    """the range as consecutive pieces, cut at indices given by the contract (same iterations, same order)"""
    pts = [o.a]
    for p in INTERP.splits:
        if T.ENG.check(zb(notb(andb(cmp('>=', p, pts[-1]), cmp('<', p, o.b))))) == z3.unsat: pts += [p, p+1]
    segs = []
    for j, a in enumerate(pts):
        b = pts[j+1] if j+1 < len(pts) else o.b
        if j % 2 == 1: segs.append([a]); continue
        n = b-a
        if isinstance(n, int): segs.append([a+k for k in range(n)])
        else: segs.append(Seg(n, lambda k, a=a: a+k))
    return SList(segs=segs)
def symkeys(d): return any(isinstance(k, (Sym, DictFam)) for k in d)
def idx_int(i):
    if isinstance(i, bool): return int(i)
    if isinstance(i, (int, SymInt)): return i
    if hasattr(i, '__index__') and not isinstance(i, Sym): return i.__index__()
    raise PyRaise(TypeError('list indices must be integers'), True) if not isinstance(i, Sym) else Unsupported('index %r' % (i,))

def cat(a, b):
    sb = to_seq(b)
    segs = [list(s) if isinstance(s, list) else s for s in list(a.segs)+list(sb.segs)]
    r = SList(segs=segs)
    if r.concrete(): r.items
    return r

def norm_slice(i, n):
    """slice of a sequence of length n -> (start, length, step) assuming Python clamping"""
    st = 1 if i.step is None else i.step
    if isinstance(st, SymInt): 
        raise Unsupported('symbolic slice step')
    if not isinstance(st, int): raise Unsupported('slice step %r' % (st,))
    def clampv(x, lo, hi):
        if isinstance(x, int) and isinstance(lo, int) and isinstance(hi, int): return max(lo, min(x, hi))
        if truth(x < lo): return lo
        if truth(x > hi): return hi
        return x
    def fix(x):
        if isinstance(x, int) and not isinstance(n, int):
            return n+x if x < 0 else x
        if truth(x < 0): return x+n
        return x
    if st > 0:
        a = 0 if i.start is None else clampv(fix(i.start), 0, n)
        b = n if i.stop is None else clampv(fix(i.stop), 0, n)
        d = b-a
        if isinstance(d, int): return a, max(0, (d+st-1)//st), st
        if truth(d <= 0): return a, 0, st
        return a, (d if st == 1 else (d+st-1)//st), st
    a = n-1 if i.start is None else clampv(fix(i.start), -1, n-1)
    b = -1 if i.stop is None else clampv(fix(i.stop), -1, n-1)
    d = a-b
    if isinstance(d, int): return a, max(0, (d-st-1)//(-st)), st
    if truth(d <= 0): return a, 0, st
    return a, (d if st == -1 else (d-st-1)//(-st)), st

def aligned_slice(s, a, m):
    """the segments between two element numbers that are segment boundaries or lie in concrete segments, or None"""
    out = []; base = 0; on = False; e = a+m
    if P(m) == P(0): return [[]]
    def at(p, s, base):
        d = P(p)-P(base)
        if not d.isconst(): return None
        d = d.constval()
        return d if d == 0 or isinstance(s, list) and 0 < d <= len(s) else None
    for g in s.segs:
        n = len(g) if isinstance(g, list) else g.n
        if not isinstance(g, list) and hasattr(g, 'subslice') and not on:
            r = g.subslice(a-base, m)
            if r is not None: return r
        lo = 0
        if not on:
            lo = at(a, g, base)
            if lo is None or (isinstance(g, list) and lo == len(g)): base = base+n; continue
            on = True
        hi = at(e, g, base)
        if hi is not None and isinstance(g, list): out.append(g[lo:hi]); return out
        if hi == 0: return out
        out.append(list(g[lo:]) if isinstance(g, list) else g); base = base+n
        if P(e) == P(base): return out
    return None
def slice_seq(s, i):
    n = s.size()
    if s.concrete() and not has_sym([i.start, i.stop, i.step]): return SList(s.items[i])
    a, m, st = norm_slice(i, n)
    if st == 1 and not s.concrete():
        r = aligned_slice(s, a, m)
        if r is not None: return SList(segs=r)
    if isinstance(m, int) and m <= 64: return SList([s.get(a+k*st) for k in range(m)])
    return SList(segs=[Seg(m, lambda k: s.get(a+k*st))])

_ln = {}
def local_names(node):
    r = _ln.get(id(node))
    if r is not None: return r[1]
    out = set(); glob = set()
    def targets(t):
        if isinstance(t, ast.Name): out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: targets(x)
        elif isinstance(t, ast.Starred): targets(t.value)
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)): out.add(c.name); continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)): continue
            if isinstance(c, ast.Global): glob.update(c.names)
            if isinstance(c, ast.Nonlocal): glob.update(c.names)
            if isinstance(c, ast.Assign):
                for t in c.targets: targets(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)): targets(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None: targets(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name: out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names: out.add((a.asname or a.name).split('.')[0])
            elif isinstance(c, ast.NamedExpr): targets(c.target)
            walk(c)
    walk(node)
    out -= glob
    _ln[id(node)] = (node, out)
    return out
from .ragged import SymKey, DictFam, fams, view

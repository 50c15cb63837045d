"""Model of numpy arrays: shared storages (for aliasing and frame conditions), views, elementwise operations.
Element values are mathematical reals/integers; rounding to single precision is the explicit function f32."""
import z3
from . import terms as T
from .terms import *
from .engine import PyRaise
from . import interp as I
from .interp import SList, Seg, to_seq, truth, equal, Builtin, TypeModel, Missing, native, idx_int, norm_slice

R = z3.RealSort(); Z = z3.IntSort()
F32 = z3.Function('f32', R, R)
RINT = z3.Function('rint', R, Z)
SQRT = z3.Function('sqrt', R, R)

class nofork:
    def __enter__(self): self.old = (T.ENG.alts, T.ENG.prefix, T.ENG.pos); T.ENG.alts = None
    def __exit__(self, *a): T.ENG.alts, T.ENG.prefix, T.ENG.pos = self.old

def gdec(g):
    """decide a guard without forking: True, False or the guard itself"""
    if isinstance(g, bool): return g
    t = norm(zb(g))
    q = T.ENG.quick(t)
    if q is not None: return q
    if T.ENG.implied(t, timeout=1000): return True
    if T.ENG.implied(z3.Not(t), timeout=1000): return False
    return g
def gand(*gs):
    out = []
    for g in gs:
        g = gdec(g)
        if g is False: return False
        if g is not True: out.append(g)
    return andb(*out)

DT = {'f8': ('f', 8), 'f4': ('f', 4), 'i1': ('i', 1), 'i2': ('i', 2), 'i4': ('i', 4), 'i8': ('i', 8), 'u1': ('u', 1), 'u2': ('u', 2), 'u4': ('u', 4), 'u8': ('u', 8), 'b1': ('b', 1), 'O': ('O', 8), 'U': ('U', 4)}
class DType:
    _vc_model = True
    def __init__(self, code): self.code = code
    @property
    def kind(self): return DT[self.code][0]
    @property
    def itemsize(self): return DT[self.code][1]
    @property
    def name(self): return {'f8': 'float64', 'f4': 'float32', 'i2': 'int16', 'i4': 'int32', 'i8': 'int64', 'u1': 'uint8'}.get(self.code, self.code)
    def vc_binop(self, op, a, b):
        r = dtcode(a) == dtcode(b)
        return r if op == '==' else not r
    def __repr__(self): return 'dtype(%s)' % self.code
def dtcode(d):
    """dtype spec -> code (little endian assumed; big endian is Unsupported)"""
    if d is None: return 'f8'
    if isinstance(d, DType): return d.code
    if isinstance(d, TypeModel):
        r = {'float': 'f8', 'int': 'i8', 'bool': 'b1', 'object': 'O', 'str': 'U', 'float64': 'f8', 'float32': 'f4', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'uint8': 'u1', 'int8': 'i1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'bool_': 'b1', 'single': 'f4', 'double': 'f8'}.get(d.name)
        if r: return r
    if d is object: return 'O'
    if isinstance(d, str):
        if d[:1] == '>': raise Unsupported('big endian dtype')
        s = d.lstrip('<=|')
        r = {'f': 'f4', 'float': 'f8', 'float32': 'f4', 'float64': 'f8', 'd': 'f8', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'uint8': 'u1', 'int8': 'i1', 'int': 'i8', 'i': 'i4', 'h': 'i2', 'b': 'i1', 'B': 'u1', 'object': 'O', 'str': 'U', 'bool': 'b1', '?': 'b1', 'S1': 'u1', 'uint16': 'u2', 'single': 'f4', 'double': 'f8', 'int8': 'i1', 'float_': 'f8'}.get(s)
        if r: return r
        if s in DT: return s
    raise Unsupported('dtype %r' % (d,))

def is_f32(t):
    """syntactically a single precision value"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ITE: return is_f32(t.arg(1)) and is_f32(t.arg(2))
    if k == z3.Z3_OP_UMINUS: return is_f32(t.arg(0))
    if k == z3.Z3_OP_TO_REAL:
        c = t.arg(0)
        return z3.is_int_value(c) and abs(c.as_long()) <= 2**24 or (z3.is_app(c) and c.decl().name() in ('item_i2', 'item_i1', 'item_u1', 'item_u2'))
    if z3.is_rational_value(t):
        n, d = t.numerator_as_long(), t.denominator_as_long()
        return abs(n) <= 2**24 and d & (d-1) == 0 and d <= 2**100
    if z3.is_app(t):
        n = t.decl().name()
        return n == 'f32' or n.startswith('item_f4') or n.endswith('_f4') or '_f4!' in n
    return False
def f32(v):
    t = zr(v)
    if is_f32(t): return mkreal(t)
    return SymReal(F32(t))
def f32_axioms(t):
    x = t.arg(0); y = t
    e = z3.RealVal('1/16777216'); tiny = z3.RealVal(1)/z3.RealVal(2**149)
    ax = z3.If(x >= 0, x, -x)
    d = z3.If(y >= x, y-x, x-y)
    return [d <= e*ax+tiny, z3.Implies(x == 0, y == 0), z3.Implies(x >= 0, y >= 0), z3.Implies(x <= 0, y <= 0)]
def rint_axioms(t):
    x = t.arg(0); r = z3.ToReal(t)
    return [r-x <= z3.RealVal('1/2'), x-r <= z3.RealVal('1/2')]
def sqrt_axioms(t):
    x = t.arg(0); return [z3.Implies(x >= 0, z3.And(t >= 0, t*t == x))]
def item_i2_axioms(t): return [t >= -32768, t <= 32767]
def install_axioms(eng):
    eng.axiom_hooks.update(f32=f32_axioms, rint=rint_axioms, sqrt=sqrt_axioms, item_i2=item_i2_axioms,
        item_u1=lambda t: [t >= 0, t <= 255], item_i1=lambda t: [t >= -128, t <= 127], item_u2=lambda t: [t >= 0, t <= 65535], item_i4=lambda t: [t >= -2**31, t <= 2**31-1])

def coerce(code, v):
    """value stored in an array of that dtype"""
    kind = DT[code][0]
    if kind == 'f':
        if isinstance(v, SymStr):
            from . import strs
            r = strs.to_float(v)
            if not isinstance(r, (int, float, Sym)): raise Unsupported('string to float')
            v = r
        if isinstance(v, str): raise Unsupported('string to float')
        if isinstance(v, (bool, SymBool)): v = mkint(P(v))
        if isinstance(v, (int,)): v = float(v)
        if code == 'f4':
            if isinstance(v, float):
                import struct
                if v != v: return v
                return struct.unpack('<f', struct.pack('<f', v))[0]
            return f32(v)
        return v if isreal(v) else mkreal(zr(v))
    if kind in 'iu':
        if isinstance(v, (bool, SymBool)): return mkint(P(v))
        if isinstance(v, float): v = int(v)
        if isinstance(v, SymReal): v = trunc(v)
        n = DT[code][1]*8
        if n >= 64: return v
        lo, hi = (-(1 << (n-1)), (1 << (n-1))-1) if kind == 'i' else (0, (1 << n)-1)
        if isinstance(v, int):
            return (v-lo) % (1 << n)+lo
        if isinstance(v, SymInt) and len(v.p.m) == 1:
            t = v.p.z3()
            if z3.is_app(t) and t.decl().name() == 'item_'+code: return v
        t = zi(v)
        return mkint(Poly.atom(z3.If(z3.And(t >= lo, t <= hi), t, z3.Function('wrap_'+code, Z, Z)(t))))
    if kind == 'b':
        return v if isinstance(v, (bool, SymBool)) else cmp('!=', v, 0)
    return v
def trunc(v):
    if isinstance(v, (int, SymInt)): return v
    if isinstance(v, float): return int(v)
    if isinstance(v, (bool, SymBool)): return mkint(P(v))
    t = v.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: return mkint(t.arg(0))
    return mkint(Poly.atom(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))

class MixedMerge(Unsupported): pass
class Storage:
    """memory of one array.  fn: index tuple -> value (persistent closure, replaced on writes)"""
    def __init__(self, shape, fn, code='f8', name=None, pre=False):
        self.shape = shape; self._fn = fn; self.code = code; self.name = name; self.pre = pre; self.wlog = []
    aliases = ()
    @property
    def fn(self):
        if self.aliases and any(a.written() for a in self.aliases): raise Unsupported('read of an array whose reshaped view was written')
        return self._fn
    @fn.setter
    def fn(self, f): self._fn = f
    def rawfn(self): return self._fn
    def written(self): return any(a.written() for a in self.aliases)
    def get(self, idx): return self.fn(idx)
    def write(self, box, cond, val, inbox=None):
        """box: per dimension (start, step, n); cond(idx): extra guard or None; val(idx): value, idx in storage coordinates"""
        old = self.fn
        def fn(idx):
            g = in_box(box, idx)
            if g is not False and cond is not None: g = gand(g, cond(idx))
            if g is True: return val(idx)
            if g is False: return old(idx)
            a = val(idx)
            try: b = old(idx)
            except MixedMerge:
                with T.ENG.scope(): T.ENG.assume_t(z3.Not(zb(g))); b = old(idx)
            if isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr)):       # an array of objects: texts over numbers
                if T.ENG.implied(zb(g)): return a
                if T.ENG.implied(z3.Not(zb(g))): return b
                raise MixedMerge('texts and numbers in one array')
            return ite(g, a, b)
        self.setfn(fn, self.wlog+[(box, cond, val)])
    def setfn(self, fn, wlog):
        old, ow = self._fn, self.wlog
        def undo(): self._fn = old; self.wlog = ow
        T.ENG.log(('stor', self), undo)
        self._fn = fn; self.wlog = wlog
class Alias(Storage):
    """reshaped view of an array: reads through to it until written, then the base may not be read any more"""
    def __init__(self, view, shape, sh0):
        base = view.stor; self.view = view
        self.shape = shape; self.base = base; self.sh0 = sh0; self.code = base.code; self.name = base.name; self.pre = base.pre
        self._fn = None; self.seen = None; self.wlog = []
        base.aliases = tuple(base.aliases)+(self,)
    @property
    def fn(self):
        if self._fn is None:
            b = self.view.snap()
            sh, sh0 = self.shape, self.sh0
            return lambda idx: b(regroup(idx, sh, sh0))
        if self.base.rawfn() is not self.seen: raise Unsupported('array and its reshaped view are both written')
        return self._fn
    @fn.setter
    def fn(self, f):
        if self._fn is None: self.seen = self.base.rawfn()
        self._fn = f
    def rawfn(self): return self._fn if self._fn is not None else self.base.rawfn()
    def written(self): return self._fn is not None or any(a.written() for a in self.aliases)
    def setfn(self, fn, wlog):
        old, ow, os_ = self._fn, self.wlog, self.seen
        def undo(): self._fn = old; self.wlog = ow; self.seen = os_
        T.ENG.log(('stor', self), undo)
        if self._fn is None: self.seen = self.base.rawfn()
        self._fn = fn; self.wlog = wlog
def in_box(box, idx):
    gs = []
    for (a, st, n), i in zip(box, idx):
        if isinstance(n, int) and n == 1: gs.append(cmp('==', i, a)); continue
        if st == 1: gs += [cmp('>=', i, a), cmp('<', i, a+n)]
        elif st == -1: gs += [cmp('<=', i, a), cmp('>', i, a-n)]
        else:
            q, r = int_divmod(i-a, st) if not (isinstance(st, int) and st < 0) else int_divmod(a-i, -st)
            gs += [cmp('==', r, 0), cmp('>=', q, 0), cmp('<', q, n)]
    return gand(*gs)

def dim_eq(a, b):
    """do two dimensions agree (forks when undecided)"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    return truth(cmp('==', a, b))
def prod(xs):
    r = 1
    for x in xs: r = r*x
    return r
def flat_of(idx, shape):
    q = 0
    for i, n in zip(idx, shape): q = q*n+i
    return q
def unflat(q, shape):
    out = []
    for n in reversed(shape[1:]):
        if isinstance(n, int) and n == 1: out.append(0); continue
        q, r = int_divmod(q, n); out.append(r)
    if shape: out.append(q)
    return tuple(reversed(out))

class Arr:
    _vc_model = True
    def __init__(self, shape, stor, vmap=None, code=None, box=None, inv=None):
        self.shape = tuple(shape); self.stor = stor
        self.vmap = vmap            # view idx -> storage idx (None: identity)
        self.box = box              # storage box of the view (None: whole), if the view is affine
        self.inv = inv              # storage idx -> view idx (valid inside box)
    @property
    def code(self): return self.stor.code
    # ---------------------------------------------------------- reads
    def snap(self):
        """persistent reader of the current contents"""
        f, m = self.stor.fn, self.vmap
        return f if m is None else (lambda idx: f(m(idx)))
    def at(self, *idx):
        with nofork(): return self.snap()(tuple(idx))
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): return prod(self.shape)
    @property
    def T(self): return self.transpose()
    @property
    def dtype(self): return DType(self.code)
    @property
    def nbytes(self): return self.size*DT[self.code][1]
    @property
    def values(self): return self
    @property
    def flat(self): return self.ravel()
    def vc_truth(self):
        if self.shape == () or all(isinstance(n, int) and n == 1 for n in self.shape): return truth(self.snap()((0,)*self.ndim))
        raise PyRaise(ValueError('truth value of an array'))
    def vc_seq(self):
        if self.ndim == 0: raise PyRaise(TypeError('iteration over a 0-d array'), True)
        n = self.shape[0]
        g = (lambda k: self.vc_getitem(k, check=False))
        if isinstance(n, int): return SList([g(k) for k in range(n)])
        return SList(segs=[Seg(n, g)])
    def vc_len(self): return self.shape[0]
    def vc_contains(self, a): raise Unsupported('in array')
    # ---------------------------------------------------------- indexing
    def vc_getitem(self, i, check=True):
        r = self.view(i, check)
        if isinstance(r, Arr) and r.ndim == 0 and not getattr(r, 'keep0', False):
            return r.snap()(())
        return r
    def view(self, key, check=True):
        if not isinstance(key, tuple): key = (key,)
        if any(isinstance(k, (Arr, SList)) for k in key): return fancy(self, key)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k if not isinstance(k, Sym) else None for k in key]:
            j = [x is Ellipsis for x in key].index(True)
            key = key[:j]+(slice(None),)*(self.ndim-n_real)+key[j+1:]
        else: key = key+(slice(None),)*(self.ndim-n_real)
        if n_real > self.ndim: raise PyRaise(IndexError('too many indices for array'))
        plan = []; shape = []; d = 0     # plan per own dim: ('i', a) or ('s', a, st, outdim)
        newdims = []
        for k in key:
            if k is None: newdims.append(len(shape)); shape.append(1); continue
            n = self.shape[d]
            if isinstance(k, slice):
                a, m, st = norm_slice(k, n); plan.append((a, st, len(shape))); shape.append(m)
            else:
                if isinstance(k, (bool, SymBool)): raise Unsupported('boolean scalar index')
                if isinstance(k, (float, SymReal)): raise PyRaise(IndexError('only integers, slices are valid indices'))
                k = idx_int(k)
                if isinstance(k, int) and k < 0: k = n+k if isinstance(n, int) else n+k
                elif isinstance(k, SymInt) and check and truth(k < 0): k = k+n
                if check and not truth(andb(I.tb(cmp('>=', k, 0)), I.tb(cmp('<', k, n)))): raise PyRaise(IndexError('index out of bounds'))
                plan.append((k, 0, None))
            d += 1
        plan = tuple(plan)
        def vm(idx): return tuple(a if o is None else (idx[o] if isinstance(a, int) and a == 0 and st == 1 else a+st*idx[o]) for a, st, o in plan)
        pm = self.vmap
        vmap = vm if pm is None else (lambda idx: pm(vm(idx)))
        out = Arr(shape, self.stor, vmap)
        # inverse
        if self.box is not None or self.vmap is None:
            base_box = self.box or tuple((0, 1, n) for n in self.shape)
            if self.vmap is None: own = list(range(self.ndim))
            else: own = getattr(self, 'dims', None)
            if own is not None:
                # own[d] = storage dim of own dimension d (None for inserted dims)
                bb = list(base_box); dims = [None]*len(shape)
                ok = True
                for d, (a, st, o) in enumerate(plan):
                    sd = own[d]
                    if sd is None: 
                        continue
                    a0, s0, n0 = bb[sd]
                    if o is None: bb[sd] = (a0+s0*a, 1, 1)
                    else: bb[sd] = (a0+s0*a, s0*st, shape[o]); dims[o] = sd
                out.box = tuple(bb); out.dims = dims
        return out
    def vc_setitem(self, key, val):
        ks = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, Arr) and k.code == 'b1' for k in ks):
            if len(ks) == 1 and ks[0].ndim == self.ndim and self.vmap is None:
                m = ks[0].snap(); v = broadcast_reader(val, self.shape) if not isinstance(val, (int, float, Sym)) else (lambda idx: val)
                for a, b in zip(ks[0].shape, self.shape):
                    if not dim_eq(a, b): raise PyRaise(IndexError('boolean index'))
                code = self.code
                self.stor.write(tuple((0, 1, n) for n in self.shape), lambda idx: m(idx), lambda idx: coerce(code, v(idx)))
                return
            raise Unsupported('boolean mask store')
        v = self.view(key)
        v.assign(val)
    def assign(self, val):
        """self[...] = val"""
        if self.vmap is None:
            rd = broadcast_reader(val, self.shape); code = self.code
            self.stor.write(tuple((0, 1, n) for n in self.shape), None, lambda idx: coerce(code, rd(idx))); return
        if self.box is None: raise Unsupported('store through a reshaped or non-affine view')
        rd = broadcast_reader(val, self.shape)
        box, dims, code = self.box, self.dims, self.code
        nd = self.ndim
        def value(sidx):
            idx = [0]*nd
            for o, sd in enumerate(dims):
                if sd is None: continue
                a, st, n = box[sd]
                if isinstance(n, int) and n == 1: idx[o] = 0
                elif st == 1: idx[o] = sidx[sd]-a
                elif st == -1: idx[o] = a-sidx[sd]
                else: idx[o] = int_divmod(sidx[sd]-a, st)[0] if not (isinstance(st, int) and st < 0) else int_divmod(a-sidx[sd], -st)[0]
            return coerce(code, rd(tuple(idx)))
        self.stor.write(box, None, value)
    # ---------------------------------------------------------- arithmetic
    def vc_binop(self, op, a, b): return binop(op, a, b)
    def vc_unop(self, op):
        f = self.snap()
        if op == 'USub': return new(self.shape, lambda idx: 0-f(idx), self.code)
        if op == 'UAdd': return self.copy()
        if op == 'Invert' and self.code == 'b1': return new(self.shape, lambda idx: notb(f(idx)), 'b1')
        if op == 'Not': return not self.vc_truth()
        raise Unsupported('unary '+op)
    def vc_iop(self, op, v):
        r = binop(op, self, v)
        if len(r.shape) != len(self.shape): raise PyRaise(ValueError('non-broadcastable output'))
        f = r.snap(); code = self.code
        self.assign(Arr(r.shape, Storage(r.shape, f, r.code)))
        return self
    # ---------------------------------------------------------- methods
    def copy(self, order=None):
        return new(self.shape, self.snap(), self.code)
    def astype(self, d, copy=True, order=None):
        c = dtcode(d); f = self.snap()
        if c == 'U': raise Unsupported('astype(str)')
        return new(self.shape, lambda idx: coerce(c, f(idx)), c)
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, SList)): axes = tuple(to_seq(axes[0]).items)
        if not axes or axes[0] is None: axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        if sorted(axes) != list(range(self.ndim)): raise PyRaise(ValueError('axes'))
        pm = self.vmap; nd = self.ndim
        def vm(idx):
            s = [0]*nd
            for o, a in enumerate(axes): s[a] = idx[o]
            return tuple(s)
        r = Arr([self.shape[a] for a in axes], self.stor, vm if pm is None else (lambda idx: pm(vm(idx))))
        if self.vmap is None: r.box = tuple((0, 1, n) for n in self.shape); r.dims = list(axes)
        elif self.box is not None: r.box = self.box; r.dims = [self.dims[a] for a in axes]
        return r
    def swapaxes(self, a, b):
        ax = list(range(self.ndim)); ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)
    def reshape(self, *shape, order='C', **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, SList)): shape = tuple(to_seq(shape[0]).items)
        return reshape(self, shape, order)
    def ravel(self, order='C'): return reshape(self, (self.size,), order)
    def flatten(self, order='C'): return reshape(self, (self.size,), order).copy()
    def squeeze(self, axis=None):
        keep = []
        for d, n in enumerate(self.shape):
            if isinstance(n, int) and n == 1: continue
            if isinstance(n, SymInt) and truth(cmp('==', n, 1)): continue
            keep.append(d)
        return self.view(tuple(slice(None) if d in keep else 0 for d in range(self.ndim)))
    def tolist(self):
        if self.ndim == 1: return to_seq(self)
        raise Unsupported('tolist of a %d-d array' % self.ndim)
    def item(self, *a):
        if a: return self.vc_getitem(a if len(a) > 1 else a[0])
        return self.snap()((0,)*self.ndim)
    def fill(self, v): self.assign(v)
    def min(self, axis=None, **k): return reduce_('min', self, axis)
    def max(self, axis=None, **k): return reduce_('max', self, axis)
    def mean(self, axis=None, **k): return reduce_('mean', self, axis)
    def std(self, axis=None, **k): return reduce_('std', self, axis)
    def sum(self, axis=None, **k): return reduce_('sum', self, axis)
    def argmin(self, axis=None): return argext('min', self)
    def argmax(self, axis=None): return argext('max', self)
    def any(self, axis=None): return anyall(self, True)
    def all(self, axis=None): return anyall(self, False)
    def round(self, n=0): return unary(self, rint_) if n == 0 else unary(self, lambda v: round_(v, n))
    def clip(self, lo, hi): return clip(self, lo, hi)
    def tofile(self, f, *a, **k): 
        from . import libs
        return libs.arr_tofile(self, f, *a, **k)
    def tobytes(self, order='C'):
        from . import libs
        return libs.arr_tobytes(self, order)
    def __repr__(self): return 'Arr%s' % (self.shape,)

def new(shape, fn, code='f8', name=None): return Arr(shape, Storage(tuple(shape), fn, code, name))
def sym_array(name, shape, code='f8', pre=True):
    """uninterpreted array content"""
    sort = {'f': R, 'i': Z, 'u': Z, 'b': z3.BoolSort(), 'U': z3.StringSort()}[DT[code][0]]
    if code == 'f4': name = name+'_f4'
    F = z3.Function(name, *([Z]*len(shape)), sort)
    if not shape: c = z3.Const(name, sort); return Arr(shape, Storage(tuple(shape), lambda idx: fromz(c), code, name, pre))
    return Arr(shape, Storage(tuple(shape), lambda idx: fromz(F(*[zi(i) for i in idx])), code, name, pre))

def broadcast_shapes(*shapes):
    nd = max(len(s) for s in shapes); out = []
    for d in range(nd):
        n = 1
        for s in shapes:
            j = d-(nd-len(s))
            if j < 0: continue
            m = s[j]
            if isinstance(m, int) and m == 1: continue
            if isinstance(n, int) and n == 1: n = m; continue
            if P(n) == P(m): continue
            if isinstance(m, SymInt) and T.ENG.implied(zi(m) == 1): continue
            if isinstance(n, SymInt) and T.ENG.implied(zi(n) == 1): n = m; continue
            if not truth(cmp('==', n, m)):
                if truth(cmp('==', m, 1)): continue
                if truth(cmp('==', n, 1)): n = m; continue
                raise PyRaise(ValueError('operands could not be broadcast together'))
        out.append(n)
    return tuple(out)
def reader_for(a, shape):
    """reader of array a broadcast to shape"""
    f = a.snap(); off = len(shape)-a.ndim
    one = []
    for d in range(a.ndim):
        m = a.shape[d]; n = shape[d+off]
        one.append((isinstance(m, int) and m == 1 and not (isinstance(n, int) and n == 1)) or (isinstance(m, SymInt) and P(m) != P(n) and not (T.ENG.implied(zi(m) == zi(n)))))
    if off == 0 and not any(one): return f
    return lambda idx: f(tuple(0 if one[d] else idx[d+off] for d in range(a.ndim)))
def broadcast_reader(v, shape):
    """value assigned to a region of that shape"""
    if isinstance(v, (SList, tuple, list)): v = asarray(v)
    if isinstance(v, Arr):
        vs = list(v.shape)
        while len(vs) > len(shape):
            if isinstance(vs[0], int) and vs[0] == 1: vs.pop(0); v = v.view(0)
            else: raise PyRaise(ValueError('could not broadcast input array'))
        off = len(shape)-len(vs)
        for d, m in enumerate(vs):
            n = shape[d+off]
            if isinstance(m, int) and m == 1: continue
            if not dim_eq(m, n):
                if isinstance(m, SymInt) and truth(cmp('==', m, 1)): continue
                raise PyRaise(ValueError('could not broadcast input array from shape'))
        return reader_for(v, shape)
    if hasattr(v, 'vc_array'): return broadcast_reader(v.vc_array(), shape)
    if isinstance(v, (bool, int, float, Sym, str)) or v is None: return lambda idx: v
    if isinstance(v, I.Poison): raise I.PoisonRead(v.loc)
    raise Unsupported('stored value %r' % (v,))

def rescode(op, a, b):
    def c(x):
        if isinstance(x, Arr): return x.code
        return None
    ca, cb = c(a), c(b)
    if op in ('==', '!=', '<', '<=', '>', '>=') : return 'b1'
    if op in ('&', '|', '^') : return ca or cb
    if ca == 'O' or cb == 'O': return 'O'
    if ca == 'U' or cb == 'U': return 'U'
    def sc(x): return 'f' if isreal(x) else 'b' if isinstance(x, (bool, SymBool)) else 'i'
    if ca and cb:
        ka, kb = DT[ca][0], DT[cb][0]
        if ka == 'f' and kb == 'f': r = 'f8' if 'f8' in (ca, cb) else 'f4'
        elif 'f' in (ka, kb):
            fc, ic = (ca, cb) if ka == 'f' else (cb, ca)
            r = fc if DT[ic][1] <= 2 else 'f8'
        else: r = 'i8' if max(DT[ca][1], DT[cb][1]) > 4 else ('i4' if max(DT[ca][1], DT[cb][1]) > 2 else (ca if ca == cb else 'i4'))
    else:
        x, s = (ca, b) if ca else (cb, a)
        k = DT[x][0]
        if k == 'f': r = x
        elif sc(s) == 'f': r = 'f8'
        else: r = x if k != 'b' else 'i8'
    if op == '/' and DT[r][0] != 'f': r = 'f8'
    return r
def divide(x, y):
    """numpy division: no exception on zero"""
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
        if y == 0: return float('nan') if x == 0 else float('inf')
        return x/y
    return mkreal(zr(x)/zr(y))
def scalar_op(op, x, y):
    if op == '/': return divide(x, y)
    if isinstance(x, I.Poison): raise I.PoisonRead(x.loc)
    if op in ('==',): return equal(x, y)
    if op == '!=': return notb(equal(x, y))
    if op in ('&', '|') and isinstance(x, (bool, SymBool)): return andb(x, y) if op == '&' else orb(x, y)
    return I.OPF[op](x, y)
def binop(op, a, b):
    for x in (a, b):
        if isinstance(x, I.Poison): raise I.PoisonRead(x.loc)
    if isinstance(a, (SList, tuple)): a = asarray(a)
    if isinstance(b, (SList, tuple)): b = asarray(b)
    for x in (a, b):
        if not isinstance(x, (Arr, bool, int, float, Sym, str)): 
            if op in ('==', '!=') and x is None: 
                o = a if x is b else b
                return new(o.shape, lambda idx: op == '!=', 'b1')
            raise Unsupported('array operation with %r' % (x,))
    code = rescode(op, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        sh = broadcast_shapes(a.shape, b.shape)
        fa, fb = reader_for(a, sh), reader_for(b, sh)
    elif isinstance(a, Arr): sh = a.shape; fa = a.snap(); fb = lambda idx: b
    else: sh = b.shape; fb = b.snap(); fa = lambda idx: a
    if code == 'f4':
        return new(sh, lambda idx: f4op(op, fa(idx), fb(idx)), code)
    return new(sh, lambda idx: scalar_op(op, fa(idx), fb(idx)), code)
def f4op(op, x, y):
    return f32(scalar_op(op, x, y))
def unary(a, f, code=None):
    if isinstance(a, Arr):
        g = a.snap(); return new(a.shape, lambda idx: f(g(idx)), code or a.code)
    if isinstance(a, (SList, tuple)): return unary(asarray(a), f, code)
    return f(a)
def rint_(v):
    if isinstance(v, (int, SymInt)): return v
    if isinstance(v, float): return float(round(v))
    t = zr(v)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: return mkreal(t)
    return mkreal(z3.ToReal(RINT(t)))
def round_(v, n):
    if isinstance(v, (float, int)): return round(v, n)
    return mkreal(z3.Function('round%s' % n, R, R)(zr(v)))

def reshape(a, shape, order='C'):
    if isinstance(shape, (int, SymInt)): shape = (shape,)
    shape = tuple(to_seq(shape).items) if not isinstance(shape, tuple) else shape
    if order == 'F':
        r = reshape(a.transpose(), tuple(reversed(shape)))
        return r.transpose()
    if order not in ('C', None, 'A'): raise Unsupported('order')
    total = a.size
    neg = [j for j, n in enumerate(shape) if isinstance(n, int) and n == -1]
    if neg:
        rest = prod(n for j, n in enumerate(shape) if j != neg[0])
        q, r = int_divmod(total, rest) if not (isinstance(rest, int) and rest == 0) else (0, 0)
        if not truth(cmp('==', r, 0)): raise PyRaise(ValueError('cannot reshape array'))
        shape = shape[:neg[0]]+(q,)+shape[neg[0]+1:]
    elif not dim_eq(prod(shape), total): raise PyRaise(ValueError('cannot reshape array of size'))
    sh0 = a.shape; pm = a.vmap
    if len(shape) == len(sh0) and all(P(x) == P(y) for x, y in zip(shape, sh0)):
        return a.view((slice(None),)*a.ndim)
    return Arr(shape, Alias(a, tuple(shape), sh0))
def regroup(idx, shape, sh0):
    q = flat_of(idx, shape)
    if len(sh0) == 0: return ()
    if len(sh0) == 1: return (q,)
    return unflat(q, sh0)

def asarray(v, code=None):
    if isinstance(v, Arr):
        if code and code != v.code: return v.astype(DType(code))
        return v
    if hasattr(v, 'vc_array'): return asarray(v.vc_array(), code)
    if isinstance(v, (bool, int, float, Sym, str)):
        c = code or code_of(v); vv = coerce(c, v) if c not in 'OU' else v
        r = new((), lambda idx: vv, c); r.keep0 = True; return r
    s = to_seq(v)
    if s.concrete():
        its = s.items
        if not its: return new((0,), lambda idx: 0.0, code or 'f8')
        if any(isinstance(x, (Arr, SList, tuple, list)) for x in its):
            subs = [asarray(x, code) for x in its]
            sh = subs[0].shape
            for x in subs[1:]:
                if len(x.shape) != len(sh): raise PyRaise(ValueError('inhomogeneous shape'))
                for p, q in zip(sh, x.shape):
                    if not dim_eq(p, q): raise PyRaise(ValueError('inhomogeneous shape'))
            fs = [x.snap() for x in subs]; c = code or subs[0].code
            for x in subs[1:]: c = code or promote(c, x.code)
            return new((len(its),)+sh, lambda idx: coerce(c, pick(fs, idx[0])(idx[1:])) if c not in 'OU' else pick(fs, idx[0])(idx[1:]), c)
        c = code or code_of(its[0])
        for x in its[1:]: c = code or promote(c, code_of(x))
        vals = [coerce(c, x) if c not in 'OU' else x for x in its]
        return new((len(its),), lambda idx: pickv(vals, idx[0]), c)
    s = s.frozen(); n = s.size()
    if not truth(cmp('>', n, 0)): return new((0,), lambda idx: 0.0, code or 'f8')
    nb = len(T.ENG.facts); q = T.ENG.fresh_int('q', 0, n-1)
    from . import loops
    for t in T.ENG.facts[nb:]: loops.BOUNDS[t.get_id()] = t         # an arbitrary index: its range is no condition of the path
    try:
        if len(s.segs) == 1: raise Unsupported('')
        with nofork(): probe = s.get(q)
    except Unsupported: probe = s.get(q)
    if isinstance(probe, (Arr, SList, tuple)):
        sub = asarray(probe)
        c = code or sub.code
        def rd(idx):
            x = asarray(s.get(idx[0])); w = x.snap()(tuple(idx[1:])); return coerce(c, w) if c not in 'OU' else w
        return new((n,)+sub.shape, rd, c)
    c = code or code_of(probe)
    return new((n,), lambda idx: coerce(c, s.get(idx[0])) if c not in 'OU' else s.get(idx[0]), c)
def code_of(v):
    if isinstance(v, (bool, SymBool)): return 'b1'
    if isinstance(v, (int, SymInt)): return 'i8'
    if isinstance(v, (float, SymReal)): return 'f8'
    if isinstance(v, (str, SymStr)): return 'U'
    return 'O'
def promote(a, b):
    if a == b: return a
    if 'O' in (a, b): return 'O'
    if 'U' in (a, b): return 'U'
    ka, kb = DT[a][0], DT[b][0]
    if 'f' in (ka, kb): return 'f8' if 'f8' in (a, b) or DT[a][1] > 2 and DT[b][1] > 2 else 'f4'
    if ka == 'b': return b
    if kb == 'b': return a
    return a if DT[a][1] >= DT[b][1] else b
def pick(fs, i):
    if isinstance(i, int): return fs[i]
    def rd(idx):
        r = fs[-1](idx)
        for j in range(len(fs)-2, -1, -1):
            g = gdec(cmp('==', i, j)); r = fs[j](idx) if g is True else (r if g is False else ite(g, fs[j](idx), r))
        return r
    return rd
def pickv(vals, i):
    if isinstance(i, int): return vals[i]
    r = vals[-1]
    for j in range(len(vals)-2, -1, -1):
        g = gdec(cmp('==', i, j)); r = vals[j] if g is True else (r if g is False else ite(g, vals[j], r))
    return r

def fancy(a, key):
    """integer-array indexing in one dimension (copy)"""
    pos = [j for j, k in enumerate(key) if isinstance(k, (Arr, SList))]
    if len(pos) != 1: raise Unsupported('fancy indexing')
    j = pos[0]; k = asarray(key[j])
    if k.code == 'b1': raise Unsupported('boolean mask read')
    if DT[k.code][0] not in 'iu' or k.ndim != 1: raise Unsupported('fancy index')
    base = a.view(key[:j]+(slice(None),)+key[j+1:]) if len(key) > 1 else a
    # position of the fancy dim in base
    d = sum(1 for x in key[:j] if isinstance(x, slice) or x is None)
    f = base.snap(); g = k.snap(); n = base.shape[d]
    def rd(idx):
        i = g((idx[d],))
        if isinstance(i, int) and i < 0: i = i+n
        return f(tuple(idx[:d])+(i,)+tuple(idx[d+1:]))
    if isinstance(k.shape[0], int):
        for q in range(k.shape[0]):
            i = g((q,))
            if not truth(andb(I.tb(cmp('>=', i, -n if isinstance(n, int) else 0-n)), I.tb(cmp('<', i, n)))): raise PyRaise(IndexError('index out of bounds'))
    return new(tuple(base.shape[:d])+(k.shape[0],)+tuple(base.shape[d+1:]), rd, a.code)

# ------------------------------------------------------------------ reductions (keyed by content, so equal arrays give equal results)
_keys = {}
def content_key(a):
    vs = [z3.Const('ck!%d!%s' % (d, P(a.shape[d]).z3()), Z) for d in range(a.ndim)]
    with nofork(), T.ENG.scope():
        for d, v in enumerate(vs):
            x = mkint(v); 
            T.ENG.bound(x, 0, a.shape[d]-1)
        t = tozv(a.snap()(tuple(mkint(v) for v in vs)))
    return norm(t), vs
def reduce_(op, a, axis=None):
    if isinstance(axis, int):
        axis = axis % a.ndim
        if a.ndim == 1: axis = None
    if isinstance(axis, (tuple, SList)):
        ax = tuple(x % a.ndim for x in to_seq(axis).items)
        if len(ax) == a.ndim: axis = None
        else: axis = ax
    if axis is None: red = tuple(range(a.ndim))
    elif isinstance(axis, int): red = (axis,)
    else: red = axis
    keep = [d for d in range(a.ndim) if d not in red]
    if op in ('min', 'max'):
        for d in red:
            if not truth(cmp('>', a.shape[d], 0)): raise PyRaise(ValueError('zero-size array to reduction operation'))
    mark = len(T.ENG.trail)
    t, vs = content_key(a)
    key = (op, t.get_id(), tuple(P(n).key() for n in a.shape), red)
    if op in ('mean', 'sum') and len(red) == 1 and not keep:
        af = affine_in(t, vs[red[0]])
        if af is not None:
            n = a.shape[red[0]]
            if op == 'mean' and not truth(cmp('>', n, 0)): return float('nan')
            m = z3.simplify(af[0]+af[1]*(zr(n)-1)/2)
            return mkreal(m if op == 'mean' else z3.simplify(m*zr(n)))
    ent = _keys.get(key)
    free = [x for x in free_loopvars(t)]
    if ent is None:
        nm = '%s!%d' % (op, len(_keys))
        F = z3.Function(nm, *([Z]*(len(keep)+len(free))), R) if keep or free else z3.Const(nm, R)
        ent = (F, t, nm); _keys[key] = ent
        if op in ('min', 'max'): T.ENG.axiom_hooks[nm] = red_axioms(op, t, vs, keep, red, a.shape, free, F, nm)
    F = ent[0]
    def val(idx):
        if not keep and not free: return mkreal(F)
        return mkreal(F(*([zi(i) for i in idx]+free)))
    if DT[a.code][0] in 'iu' and op in ('min', 'max', 'sum'):
        oval = val
        val = lambda idx: mkint(Poly.atom(z3.ToInt(zr(oval(idx)))))
    T.ENG.reds = getattr(T.ENG, 'reds', {}); T.ENG.reds[ent[2]] = (op, a.shape, t, vs, keep, red)
    if not keep: return val(())
    return new([a.shape[d] for d in keep], val, a.code if DT[a.code][0] == 'f' else 'f8')
def affine_in(t, v):
    """(a, b) with t == a + b*v as a polynomial identity, or None"""
    if z3.is_int(t): t = z3.ToReal(t)
    if not z3.is_real(t): return None
    x = z3.Real('aff!x')
    u = z3.substitute(t, (z3.ToReal(v), x))
    if any(y.eq(v) for y in allsub(u)):
        u = z3.simplify(u, som=True); u = z3.substitute(u, (z3.ToReal(v), x))
        if any(y.eq(v) for y in allsub(u)): return None
    t0 = z3.substitute(u, (x, z3.RealVal(0))); t1 = z3.substitute(u, (x, z3.RealVal(1)))
    d = z3.simplify(u-t0-x*(t1-t0), som=True)
    if not (z3.is_rational_value(d) and d.numerator_as_long() == 0): return None
    return z3.simplify(t0), z3.simplify(t1-t0)
def free_loopvars(t):
    out = []; seen = set(); st = [t]
    lv = {v.get_id() for v in T.ENG.loopvars_all()}
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in lv: out.append(x)
        st += x.children()
    return sorted(out, key=lambda v: str(v))
def red_axioms(op, t, vs, keep, red, shape, free, F, nm):
    """facts about one application of a min/max reduction: bound for every element, attained somewhere"""
    def ax(app):
        sub = [(vs[d], app.arg(j)) for j, d in enumerate(keep)]+[(free[j], app.arg(len(keep)+j)) for j in range(len(free))]
        el = z3.substitute(t, *sub) if sub else t
        if z3.is_int(el): el = z3.ToReal(el)
        rng = [z3.And(vs[d] >= 0, vs[d] < zi(shape[d])) for d in red]
        q = [vs[d] for d in red]
        body = z3.Implies(z3.And(rng), (app <= el) if op == 'min' else (app >= el))
        pats = [x for x in uf_apps(el) if all(any(v.eq(c) for c in allsub(x)) for v in q)]
        fa = z3.ForAll(q, body, patterns=[pats[0]]) if pats else z3.ForAll(q, body)
        w = [z3.Function('w_%s_%d' % (nm, d), *([R] if False else [Z]*app.num_args()), Z)(*app.children()) if app.num_args() else z3.Const('w_%s_%d' % (nm, d), Z) for d in red]
        ws = list(zip(q, w))
        return [fa, z3.And([z3.And(x >= 0, x < zi(shape[d])) for d, x in zip(red, w)]), app == z3.substitute(el, *ws)]
    return ax
def allsub(t):
    out = []; st = [t]
    while st:
        x = st.pop(); out.append(x); st += x.children()
    return out
def uf_apps(t):
    return [x for x in allsub(t) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args()]

def argext(op, a):
    """argmin/argmax of a 1-d array: index of the first extremal element"""
    if a.ndim != 1: raise Unsupported('argmin of a %d-d array' % a.ndim)
    n = a.shape[0]
    if not truth(cmp('>', n, 0)): raise PyRaise(ValueError('attempt to get argmin of an empty sequence'))
    f = a.snap()
    m = T.ENG.fresh_int('arg'+op, 0, n-1)
    j = z3.Const(T.ENG.fresh_name('j'), Z); J = mkint(j)
    with nofork(), T.ENG.scope():
        T.ENG.bound(J, 0, n-1)
        el = zr(f((J,))); em = zr(f((m,)))
    c = em <= el if op == 'min' else em >= el
    st = em < el if op == 'min' else em > el
    T.ENG.assume_t(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), z3.And(c, z3.Implies(j < zi(m), st)))))
    T.ENG.args = getattr(T.ENG, 'args', []); T.ENG.args.append((m, n, f))
    return m
def anyall(a, isany):
    f = a.snap()
    if all(isinstance(n, int) for n in a.shape) and prod(a.shape) <= 64:
        import itertools
        vals = [I.tb(f(ix)) for ix in itertools.product(*[range(n) for n in a.shape])]
        return orb(*vals) if isany else andb(*vals)
    vs = [z3.Const(T.ENG.fresh_name('q'), Z) for _ in a.shape]
    with nofork(), T.ENG.scope():
        for v, n in zip(vs, a.shape): T.ENG.bound(mkint(v), 0, n-1)
        t = zb(f(tuple(mkint(v) for v in vs)))
    rng = z3.And([z3.And(v >= 0, v < zi(n)) for v, n in zip(vs, a.shape)])
    if isany: return SymBool(z3.Exists(vs, z3.And(rng, t)))
    return SymBool(z3.ForAll(vs, z3.Implies(rng, t)))
def clip(a, lo, hi):
    def c(v): 
        if lo is not None: v = ite(cmp('<', v, lo), lo if not isreal(v) or isreal(lo) else float(lo) if isinstance(lo, int) else lo, v)
        if hi is not None: v = ite(cmp('>', v, hi), hi if not isreal(v) or isreal(hi) else float(hi) if isinstance(hi, int) else hi, v)
        return v
    if isinstance(lo, Arr) or isinstance(hi, Arr): raise Unsupported('clip with array bounds')
    return unary(a, c)

# ------------------------------------------------------------------ numpy functions
def shape_of(s):
    if isinstance(s, (int, SymInt)): return (s,)
    return tuple(to_seq(s).items)
def chk_dims(sh):
    for n in sh:
        if isinstance(n, (float, SymReal)): raise PyRaise(TypeError("'float' object cannot be interpreted as an integer"), True)
        if not truth(cmp('>=', n, 0)): raise PyRaise(ValueError('negative dimensions are not allowed'))
def np_zeros(shape, dtype=None, order=None): 
    sh = shape_of(shape); chk_dims(sh); c = dtcode(dtype); z = coerce(c, 0) if c not in 'OU' else 0
    return new(sh, lambda idx: z, c)
def np_full(shape, v, dtype=None): 
    sh = shape_of(shape); chk_dims(sh); c = dtcode(dtype) if dtype is not None else code_of(v); vv = coerce(c, v) if c not in 'OU' else v
    return new(sh, lambda idx: vv, c)
def np_empty(shape, dtype=None, order=None):
    sh = shape_of(shape); chk_dims(sh); c = dtcode(dtype); 
    if DT[c][0] == 'O': return new(sh, lambda idx: None, c)
    nm = T.ENG.fresh_name('uninit')
    F = z3.Function(nm, *([Z]*(len(sh)+len(T.ENG.loopvars))), R if DT[c][0] == 'f' else z3.StringSort() if c == 'U' else Z); lv = list(T.ENG.loopvars)
    return new(sh, lambda idx: fromz(F(*[zi(i) for i in idx], *lv)), c)
def np_ones(shape, dtype=None): return np_full(shape, 1.0 if dtcode(dtype)[0] == 'f' else 1, DType(dtcode(dtype)))
def np_array(v, dtype=None, copy=True, ndmin=0, order=None):
    a = asarray(v, dtcode(dtype) if dtype is not None else None)
    r = a.copy() if a is v or isinstance(v, Arr) else a
    while r.ndim < ndmin: r = r.view((None, Ellipsis)) if r.ndim else reshape(r, (1,))
    return r
def np_asarray(v, dtype=None, order=None): return asarray(v, dtcode(dtype) if dtype is not None else None)
def np_arange(*a, dtype=None):
    if len(a) == 1: st, en, sp = 0, a[0], 1
    elif len(a) == 2: st, en, sp = a[0], a[1], 1
    else: st, en, sp = a
    if isint(st) and isint(en) and isint(sp):
        s = to_seq(I.SRange(st, en, sp)); n = s.size()
        c = dtcode(dtype) if dtype is not None else 'i8'
        return new((n,), lambda idx: coerce(c, st+sp*idx[0]), c)
    # numpy: ceil((stop-start)/step)
    q = arith('/', arith('-', en, st), sp) if isinstance(st, Sym) or isinstance(en, Sym) or isinstance(sp, Sym) else (en-st)/sp
    if isinstance(q, float):
        import math
        n = max(0, math.ceil(q))
    else:
        n = float_arange_len(st, en, sp)
        if n is not None and not isinstance(n, int) and truth(cmp('<=', n, 0)): n = 0
    return new((n,), lambda idx: arith('+', st, arith('*', idx[0], sp)) if has(st, sp, idx[0]) else st+sp*idx[0], 'f8')
def float_arange_len(st, en, sp):
    """length of a floating point arange, ceil((stop-start)/step), with the rounding of the three operations and of their operands:
    the quotient is known up to 2**-45*(|start|+|stop|)/|step|"""
    eng = T.ENG; z = zr(sp)
    if truth(cmp('==', sp, 0)): raise PyRaise(ZeroDivisionError('float division by zero'))
    d = arith('-', en, st)
    x = z3.Real('step!x'); q = None
    if isinstance(sp, Sym):
        u = z3.simplify(z3.substitute(z3.simplify(zr(d), som=True), (z3.simplify(z), x)), som=True)
        if not any(y.eq(x) for y in allsub(u)): u = z3.substitute(zr(d), (z, x))
        t0 = z3.substitute(u, (x, z3.RealVal(0))); t1 = z3.substitute(u, (x, z3.RealVal(1)))
        r = z3.simplify(u-t0-x*(t1-t0), som=True); t0s = z3.simplify(t0, som=True)
        if z3.is_rational_value(r) and r.numerator_as_long() == 0 and z3.is_rational_value(t0s) and t0s.numerator_as_long() == 0: q = z3.simplify(t1, som=True)
    if q is None: q = zr(arith('/', d, sp))
    e = zr(eng.fresh_real('roundoff')); aq = z3.If(q >= 0, q, -q); ax = lambda v: z3.If(zr(v) >= 0, zr(v), -zr(v))
    big = z3.RealVal(2**30)
    if eng.implied(ax(st) <= big*ax(sp)): lim = (2*big+aq)
    else:
        rho = zr(eng.fresh_real('ratio')); eng.assume(mkbool(z3.And(rho >= 0, rho*ax(sp) == ax(st)))); lim = (2*rho+aq)
    lim = lim/z3.RealVal(2**45)
    eng.assume(mkbool(z3.And(e <= lim, -e <= lim)))
    n = eng.fresh_int('nar'); nz = z3.ToReal(n.z())
    eng.assume(mkbool(z3.And(nz >= q+e, nz-1 < q+e)))
    pc = int_part(q)
    if pc is not None:
        import math
        cand = mkint(pc[0]+Poly.const(math.ceil(pc[1])))
        if eng.implied(zb(cmp('==', n, cand))): n = cand
    eng.assumptions.add('rounding of floating point aranges is bounded by 2**-45 relative to the operands')
    return n
def int_part(t):
    """real term -> (integer polynomial, rational constant) with t == poly + const, or None"""
    from fractions import Fraction
    def go(t):
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t) or z3.is_int_value(t): return Poly.const(0), Fraction(t.as_fraction())
        if k == z3.Z3_OP_TO_REAL: return poly_of(t.arg(0)), Fraction(0)
        if k == z3.Z3_OP_ADD:
            p, c = Poly.const(0), Fraction(0)
            for x in t.children():
                r = go(x)
                if r is None: return None
                p = p+r[0]; c += r[1]
            return p, c
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            f = Fraction(t.arg(0).as_fraction()); r = go(t.arg(1))
            if r is None or f.denominator != 1: return None
            return r[0].scale(int(f)), r[1]*f
        return None
    return go(t)
def has(*x): return any(isinstance(v, Sym) for v in x)
def np_linspace(a, b, num=50, endpoint=True):
    if not endpoint: raise Unsupported('linspace endpoint')
    n = num
    if truth(cmp('==', n, 1)) if not isinstance(n, int) else n == 1: return new((n,), lambda idx: arith('+', a, 0.0) if has(a) else float(a), 'f8')
    return new((n,), lambda idx: mkreal(zr(a)+zr(idx[0])*(zr(b)-zr(a))/zr(n-1)), 'f8')
def np_concat(arrs, axis=0):
    s = to_seq(arrs)
    if not s.concrete():
        raise Unsupported('concatenate of a symbolic number of arrays')
    xs = [asarray(x) for x in s.items]
    if not xs: raise PyRaise(ValueError('need at least one array to concatenate'))
    nd = xs[0].ndim; axis = axis % nd
    c = xs[0].code
    for x in xs[1:]:
        if x.ndim != nd: raise PyRaise(ValueError('all the input array dimensions must match'))
        for d in range(nd):
            if d != axis and not dim_eq(x.shape[d], xs[0].shape[d]): raise PyRaise(ValueError('all the input array dimensions except for the concatenation axis must match'))
        c = promote(c, x.code)
    fs = [x.snap() for x in xs]; starts = []; tot = 0
    for x in xs: starts.append(tot); tot = tot+x.shape[axis]
    def rd(idx):
        i = idx[axis]; r = None
        for j in range(len(fs)-1, -1, -1):
            def here(j=j): 
                v = fs[j](tuple(idx[:axis])+(i-starts[j],)+tuple(idx[axis+1:])); return coerce(c, v) if c not in 'OU' else v
            g = gand(cmp('>=', i, starts[j]), cmp('<', i, starts[j]+xs[j].shape[axis]))
            if g is True: return here()
            if g is False: continue
            r = here() if r is None else ite(g, here(), r)
        if r is None: raise Unsupported('concatenate read out of range')
        return r
    sh = list(xs[0].shape); sh[axis] = tot
    return new(sh, rd, c)
def np_column_stack(arrs):
    s = to_seq(arrs)
    xs = []
    for x in s.items:
        x = asarray(x)
        if x.ndim == 1: x = x.view((slice(None), None))
        xs.append(x)
    return np_concat(SList(xs), 1)
def np_vstack(arrs):
    xs = [asarray(x) for x in to_seq(arrs).items]
    return np_concat(SList([x.view((None, slice(None))) if x.ndim == 1 else x for x in xs]), 0)
def np_hstack(arrs):
    xs = [asarray(x) for x in to_seq(arrs).items]
    return np_concat(SList(xs), 0 if xs[0].ndim == 1 else 1)
def np_stack(arrs, axis=0):
    s = to_seq(arrs)
    if not s.concrete():
        a = asarray(s)
        if axis == 0: return a
        ax = list(range(1, a.ndim)); ax.insert(axis % a.ndim, 0)
        return a.transpose(*ax)
    xs = [asarray(x) for x in s.items]
    nd = xs[0].ndim+1; axis = axis % nd
    return np_concat(SList([x.view((slice(None),)*axis+(None,)+(slice(None),)*(nd-1-axis)) for x in xs]), axis)
def np_flip(a, axis=None):
    a = asarray(a)
    ax = range(a.ndim) if axis is None else ([axis % a.ndim] if isinstance(axis, int) else [x % a.ndim for x in to_seq(axis).items])
    return a.view(tuple(slice(None, None, -1) if d in ax else slice(None) for d in range(a.ndim)))
def ufun(name):
    F = z3.Function(name, R, R)
    def f(v):
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            import math
            try: return getattr(math, name)(v)
            except (ValueError, AttributeError): return float('nan')
        return SymReal(F(zr(v)))
    return lambda a, **k: unary(a, f, 'f8')
def np_abs(a): return unary(a, lambda v: abs(v))
def np_floor(v): return unary(v, lambda x: float(__import__('math').floor(x)) if isinstance(x, (int, float)) else mkreal(z3.ToReal(z3.ToInt(zr(x)))))
def np_ceil(v): return unary(v, lambda x: float(__import__('math').ceil(x)) if isinstance(x, (int, float)) else mkreal(z3.ToReal(-z3.ToInt(-zr(x)))))
def np_where(c, *ab):
    if not ab:
        c = asarray(c)
        if c.ndim != 1: raise Unsupported('np.where of a %d-d condition' % c.ndim)
        if c.code != 'b1': raise Unsupported('np.where of numbers')
        from .loops import FilterSeg
        eng = T.ENG; f = c.snap(); n = c.shape[0]
        if isinstance(n, int):
            with nofork(): vs = [f((k,)) for k in range(n)]
            if all(isinstance(v, bool) for v in vs):
                ks = [k for k in range(n) if vs[k]]; return (new((len(ks),), lambda idx: pickv(ks, idx[0]) if ks else 0, 'i8'),)
        k = z3.Const(eng.fresh_name('wk'), z3.IntSort()); K = mkint(k)
        eng.all_loopvars = eng.all_loopvars+[k]
        with eng.scope():
            eng.bound(K, 0, n-1)
            with nofork(): v = f((K,))
        seg = FilterSeg(n, k, [I.tb(v)], [[K]], eng)
        return (new((seg.n,), lambda idx: seg.get(idx[0]), 'i8'),)
    c = asarray(c); x, y = [asarray(v) for v in ab]
    sh = broadcast_shapes(c.shape, x.shape, y.shape)
    fc, fx, fy = reader_for(c, sh), reader_for(x, sh), reader_for(y, sh)
    def rd(idx):
        g = gdec(fc(idx))
        return fx(idx) if g is True else fy(idx) if g is False else ite(g, fx(idx), fy(idx))
    return new(sh, rd, promote(x.code, y.code))
def np_minmax2(op):
    def f(a, b):
        def g(x, y): return ite(cmp('<=' if op == 'min' else '>=', x, y), x, y)
        if isinstance(a, Arr) or isinstance(b, Arr):
            aa, bb = asarray(a), asarray(b); sh = broadcast_shapes(aa.shape, bb.shape)
            fa, fb = reader_for(aa, sh), reader_for(bb, sh)
            return new(sh, lambda idx: g(fa(idx), fb(idx)), promote(aa.code, bb.code))
        return g(a, b)
    return f
def np_tile(a, reps):
    a = asarray(a)
    reps = shape_of(reps)
    nd = max(a.ndim, len(reps))
    while a.ndim < nd: a = a.view((None, Ellipsis))
    reps = (1,)*(nd-len(reps))+reps
    f = a.snap(); sh0 = a.shape
    sh = [n*r for n, r in zip(sh0, reps)]
    def rd(idx): return f(tuple(i if isinstance(r, int) and r == 1 else (0 if isinstance(n, int) and n == 1 else int_divmod(i, n)[1]) for i, n, r in zip(idx, sh0, reps)))
    return new(sh, rd, a.code)
def np_repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None: a = a.ravel(); axis = 0
    f = a.snap(); sh = list(a.shape); sh[axis] = sh[axis]*n
    return new(sh, lambda idx: f(tuple(int_divmod(i, n)[0] if d == axis else i for d, i in enumerate(idx))), a.code)
def np_shape(a): return asarray(a).shape
def np_mod(a, b): 
    return binop('%', a, b) if isinstance(a, Arr) or isinstance(b, Arr) else a % b
def np_append(a, b, axis=None):
    if axis is None: return np_concat(SList([asarray(a).ravel(), asarray(b).ravel() if asarray(b).ndim else reshape(asarray(b), (1,))]))
    return np_concat(SList([a, b]), axis)
def np_prod(a): 
    return prod(to_seq(a).items)
def np_cross_unsup(*a, **k): raise Unsupported('numpy function')
def np_atleast_1d(a):
    a = asarray(a)
    return reshape(a, (1,)) if a.ndim == 0 else a
def np_round(a, decimals=0): return unary(a, rint_) if decimals == 0 else unary(a, lambda v: round_(v, decimals))
def red(op):
    def f(a, axis=None, **k):
        if isinstance(a, (int, float, SymInt, SymReal)): return a
        return reduce_(op, asarray(a), axis)
    return f
def np_isnan(a): return unary(a, lambda v: (v != v) if isinstance(v, float) else False, 'b1')

def tm(name, code):
    def call(v=0, *a, **k):
        if isinstance(v, Arr): return v.astype(DType(code))
        return coerce(code, v)
    def inst(x): return False
    return TypeModel(name, call, inst)
def np_argsort(a, axis=-1, kind=None, order=None):
    a = asarray(a)
    if a.ndim != 1: raise Unsupported('argsort of a matrix')
    n = a.shape[0]
    if isinstance(n, int):
        vs = [a.at(k) for k in range(n)]
        if not any(isinstance(v, Sym) for v in vs):
            o = sorted(range(n), key=lambda i: vs[i])
            if kind not in ('stable', 'mergesort') and len(set(vs)) < n: raise Unsupported('order of equal keys under an unstable sort')
            return asarray(SList(o)) if o else new((0,), lambda idx: 0, 'i8')
    if kind not in ('stable', 'mergesort'): raise Unsupported('unstable argsort of symbolic keys')
    e = T.ENG; nm = e.fresh_name('perm'); Z = z3.IntSort()
    perm = z3.Function(nm, Z, Z); inv = z3.Function(nm+'_inv', Z, Z)
    i, j = z3.Const(e.fresh_name('qi'), Z), z3.Const(e.fresh_name('qj'), Z); N = zi(n); g = a.snap()
    def key(t):
        with nofork(): return zr(g((mkint(t),)))
    ki, kj = key(perm(i)), key(perm(j))
    q = [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(perm(i) >= 0, perm(i) < N, inv(perm(i)) == i)), patterns=[perm(i)]),
         z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(inv(i) >= 0, inv(i) < N, perm(inv(i)) == i)), patterns=[inv(i)]),
         z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j > i, j < N), z3.Or(ki < kj, z3.And(ki == kj, perm(i) < perm(j)))), patterns=[z3.MultiPattern(perm(i), perm(j))])]
    old = e.qfacts; e.qfacts = old+q; e.log(None, lambda: setattr(e, 'qfacts', old))
    return new((n,), lambda idx: mkint(perm(zi(idx[0]))), 'i8')
def module():
    d = dict(zeros=np_zeros, empty=np_empty, ones=np_ones, full=np_full, array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, arange=np_arange,
        linspace=np_linspace, concatenate=np_concat, column_stack=np_column_stack, vstack=np_vstack, hstack=np_hstack, stack=np_stack, flip=np_flip,
        flipud=lambda a: np_flip(a, 0), fliplr=lambda a: np_flip(a, 1), reshape=lambda a, s, order='C': reshape(asarray(a), shape_of(s), order), ravel=lambda a, order='C': asarray(a).ravel(order),
        transpose=lambda a, axes=None: asarray(a).transpose(*(() if axes is None else (axes,))), swapaxes=lambda a, i, j: asarray(a).swapaxes(i, j),
        squeeze=lambda a, axis=None: asarray(a).squeeze(axis),
        min=red('min'), max=red('max'), amin=red('min'), amax=red('max'), nanmin=red('min'), nanmax=red('max'), mean=red('mean'), std=red('std'), sum=red('sum'),
        argmin=lambda a: argext('min', asarray(a)), argmax=lambda a: argext('max', asarray(a)), any=lambda a: anyall(asarray(a), True), all=lambda a: anyall(asarray(a), False),
        abs=np_abs, absolute=np_abs, fabs=np_abs, cos=ufun('cos'), sin=ufun('sin'), tan=ufun('tan'), exp=ufun('exp'), log=ufun('log'), sqrt=lambda a: unary(a, lambda v: v**0.5 if isinstance(v, (int, float)) else SymReal(SQRT(zr(v))), 'f8'),
        floor=np_floor, ceil=np_ceil, rint=np_round, round=np_round, around=np_round, clip=clip, where=np_where, maximum=np_minmax2('max'), minimum=np_minmax2('min'),
        tile=np_tile, repeat=np_repeat, shape=np_shape, mod=np_mod, remainder=np_mod, append=np_append, prod=np_prod, atleast_1d=np_atleast_1d, isnan=np_isnan,
        copy=lambda a: asarray(a).copy(), size=lambda a, axis=None: asarray(a).size if axis is None else asarray(a).shape[axis], ndim=lambda a: asarray(a).ndim,
        zeros_like=lambda a, dtype=None: np_zeros(asarray(a).shape, DType(asarray(a).code) if dtype is None else dtype),
        ones_like=lambda a, dtype=None: np_ones(asarray(a).shape, DType(asarray(a).code) if dtype is None else dtype),
        empty_like=lambda a, dtype=None: np_empty(asarray(a).shape, DType(asarray(a).code) if dtype is None else dtype),
        square=lambda a: unary(a, lambda v: v*v), power=lambda a, b: binop('**', asarray(a), b), multiply=lambda a, b: binop('*', asarray(a), b), subtract=lambda a, b: binop('-', asarray(a), b),
        add=lambda a, b: binop('+', asarray(a), b), divide=lambda a, b: binop('/', asarray(a), b), true_divide=lambda a, b: binop('/', asarray(a), b), negative=lambda a: asarray(a).vc_unop('USub'),
        expand_dims=lambda a, ax: asarray(a).view(tuple([slice(None)]*(ax % (asarray(a).ndim+1))+[None, Ellipsis])),
        moveaxis=lambda a, s, t: moveaxis(asarray(a), s, t), deg2rad=lambda a: unary(a, lambda v: v*(3.141592653589793/180), 'f8'), radians=lambda a: unary(a, lambda v: v*(3.141592653589793/180), 'f8'),
        argsort=np_argsort, array_equal=lambda a, b: np_array_equal(a, b), seterr=lambda **k: {})
    d = {k: Builtin(v, 'np.'+k) for k, v in d.items()}
    d.update(pi=3.141592653589793, nan=float('nan'), inf=float('inf'), newaxis=None, NaN=float('nan'), Inf=float('inf'),
        ndarray=TypeModel('ndarray', lambda *a, **k: np_empty(*a, **k), lambda x: isinstance(x, Arr)), dtype=Builtin(lambda x: DType(dtcode(x)), 'np.dtype'))
    for n, c in dict(float32='f4', float64='f8', int16='i2', int32='i4', int64='i8', uint8='u1', int8='i1', uint16='u2', uint32='u4', bool_='b1', single='f4', double='f8', float_='f8', int_='i8').items(): d[n] = tm(n, c)
    for n in ('integer', 'floating', 'number', 'generic', 'str_'): d[n] = TypeModel(n, None, lambda x: False)
    d['integer'].inst = lambda x: False
    return d
def moveaxis(a, s, t):
    ax = [d for d in range(a.ndim) if d != s % a.ndim]; ax.insert(t % a.ndim, s % a.ndim)
    return a.transpose(*ax)
def np_array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if not dim_eq(x, y): return False
    return anyall(binop('==', a, b), False)

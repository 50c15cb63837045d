"""Symbolic scalars.  Integers are polynomials over integer atoms, reals/bools/strings are z3 terms."""
import z3, fractions
Fraction = fractions.Fraction

class Unsupported(BaseException):
    """The code uses something outside the supported subset: the obligation is undecided, never a violation."""

ENG = None          # set by engine
def set_engine(e):
    global ENG
    ENG = e

# ------------------------------------------------------------------ polynomials over integer atoms
_atoms = {}         # z3 ast hash-consed id -> atom id
_atom_terms = []
def atom_id(t):
    k = t.get_id()
    i = _atoms.get(k)
    if i is None:
        i = len(_atom_terms); _atoms[k] = i; _atom_terms.append(t)
    return i
def atom_term(i): return _atom_terms[i]

class Poly:
    __slots__ = ('m',)
    def __init__(self, m): self.m = m
    @staticmethod
    def const(c): return Poly({(): c} if c else {})
    @staticmethod
    def atom(t): return Poly({((atom_id(t), 1),): 1})
    def isconst(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def constval(self): return self.m.get((), 0)
    def __add__(a, b):
        m = dict(a.m)
        for k, v in b.m.items():
            s = m.get(k, 0)+v
            if s: m[k] = s
            else: m.pop(k, None)
        return Poly(m)
    def neg(a): return Poly({k: -v for k, v in a.m.items()})
    def __sub__(a, b): return a+b.neg()
    def scale(a, c): return Poly({k: v*c for k, v in a.m.items()} if c else {})
    def __mul__(a, b):
        m = {}
        for k, v in a.m.items():
            for l, w in b.m.items():
                d = dict(k)
                for x, e in l: d[x] = d.get(x, 0)+e
                kk = tuple(sorted(d.items()))
                s = m.get(kk, 0)+v*w
                if s: m[kk] = s
                else: m.pop(kk, None)
        return Poly(m)
    def key(self): return tuple(sorted(self.m.items()))
    def __eq__(a, b): return isinstance(b, Poly) and a.m == b.m
    def __hash__(self): return hash(self.key())
    def atoms(self): return {x for k in self.m for x, _ in k}
    def z3(self):
        ts = []
        for k, v in sorted(self.m.items()):
            f = []
            for x, e in k: f += [_atom_terms[x]]*e
            if not f: ts.append(z3.IntVal(v)); continue
            t = f[0]
            for g in f[1:]: t = t*g
            ts.append(t if v == 1 else z3.IntVal(v)*t)
        if not ts: return z3.IntVal(0)
        r = ts[0]
        for t in ts[1:]: r = r+t
        return r
    def coeff(self, x):
        """(C, R) with self = C*x + R, or None if x occurs with another degree"""
        C = {}; R = {}
        for k, v in self.m.items():
            d = dict(k); e = d.pop(x, 0)
            if e == 0: R[k] = v
            elif e == 1: C[tuple(sorted(d.items()))] = v
            else: return None
        return Poly(C), Poly(R)
    def subst(self, sub):
        """sub: atom id -> Poly"""
        if not any(x in sub for k in self.m for x, _ in k): return self
        out = Poly({})
        for k, v in self.m.items():
            t = Poly.const(v)
            for x, e in k:
                p = sub.get(x)
                if p is None: p = Poly({((x, 1),): 1})
                for _ in range(e): t = t*p
            out = out+t
        return out
    def divmono(self, mono, c):
        """split self = Q*(c*mono) + R where R collects the terms not divisible"""
        Q = {}; R = {}
        need = dict(mono)
        for k, v in self.m.items():
            d = dict(k)
            if all(d.get(x, 0) >= e for x, e in need.items()):
                kk = dict(d)
                for x, e in need.items():
                    kk[x] -= e
                    if not kk[x]: del kk[x]
                kk = tuple(sorted(kk.items()))
                q, r = divmod(v, c)
                if q: Q[kk] = Q.get(kk, 0)+q
                if r: R[k] = r
            else: R[k] = v
        return Poly(Q), Poly(R)

def poly_of(t):
    """z3 Int term -> Poly"""
    if z3.is_int_value(t): return Poly.const(t.as_long())
    d = t.decl().kind()
    if d == z3.Z3_OP_ADD:
        p = Poly({})
        for c in t.children(): p = p+poly_of(c)
        return p
    if d == z3.Z3_OP_SUB:
        c = t.children(); p = poly_of(c[0])
        for x in c[1:]: p = p-poly_of(x)
        return p
    if d == z3.Z3_OP_UMINUS: return poly_of(t.arg(0)).neg()
    if d == z3.Z3_OP_MUL:
        p = Poly.const(1)
        for c in t.children(): p = p*poly_of(c)
        return p
    return Poly.atom(t)

# ------------------------------------------------------------------ wrappers
HASHING = [0]
class hashing:
    def __enter__(self): HASHING[0] += 1
    def __exit__(self, *a): HASHING[0] -= 1
class Sym: 
    __slots__ = ()
    __array_priority__ = 1000
    def __hash__(self):
        if HASHING[0]: return id(self) >> 4      # symbolic dictionary keys: identity; equality is decided by the interpreter before
        raise Unsupported('hash of a symbolic value')
    def __index__(self): raise Unsupported('native use of a symbolic integer')
    def __int__(self): raise Unsupported('native int() of a symbolic value')
    def __float__(self): raise Unsupported('native float() of a symbolic value')
    def __str__(self): return '<%s %s>' % (type(self).__name__, self.z())
    __repr__ = __str__
    def __iter__(self): raise Unsupported('iteration over a symbolic scalar')
    def __format__(self, s): raise Unsupported('native formatting of a symbolic value')

def mkint(p):
    if isinstance(p, int): return p
    if not isinstance(p, Poly): p = poly_of(p)
    return p.constval() if p.isconst() else SymInt(p)
def mkbool(t):
    if isinstance(t, bool): return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SymBool(t)
def realval(x):
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    return z3.RealVal(str(Fraction(repr(float(x))) if not float(x).is_integer() else int(x)))
def mkreal(t):
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        x = float(f)
        if Fraction(repr(x)) == f or Fraction(x) == f: return x
    return SymReal(t)

def is_num(x):
    import numbers
    return isinstance(x, (int, float, bool, SymInt, SymReal, SymBool)) or (isinstance(x, numbers.Number) and not isinstance(x, complex))
def P(x):
    """-> Poly"""
    if isinstance(x, SymInt): return x.p
    if isinstance(x, bool): return Poly.const(int(x))
    if isinstance(x, int): return Poly.const(x)
    if isinstance(x, SymBool): return Poly.atom(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if hasattr(x, '__index__') and not isinstance(x, Sym): return Poly.const(int(x))
    raise Unsupported('integer expected, got %r' % (x,))
def zi(x): return P(x).z3()
def zr(x):
    if isinstance(x, SymReal): return x.t
    if isinstance(x, SymInt): return z3.ToReal(x.p.z3())
    if isinstance(x, SymBool): return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, int)): return z3.RealVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('nan/inf in symbolic arithmetic')
        return realval(x)
    if isinstance(x, Fraction): return realval(x)
    raise Unsupported('real expected, got %r' % (x,))
def zb(x):
    if isinstance(x, SymBool): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, SymInt): return zi(x) != 0
    if isinstance(x, int): return z3.BoolVal(bool(x))
    if z3.is_bool(x): return x
    raise Unsupported('bool expected, got %r' % (x,))
def zs(x):
    if isinstance(x, SymStr): return x.t
    if isinstance(x, str): return z3.StringVal(x)
    raise Unsupported('string expected, got %r' % (x,))
def isreal(x): return isinstance(x, (float, SymReal, Fraction))
def isint(x): return isinstance(x, (int, SymInt, SymBool)) 

def tozv(x):
    """any scalar -> z3 term"""
    if isinstance(x, SymBool) or isinstance(x, bool): return zb(x)
    if isinstance(x, (SymInt, int)): return zi(x)
    if isinstance(x, (SymStr, str)): return zs(x)
    if isinstance(x, SymObj): return x.t
    return zr(x)
def fromz(t):
    if z3.is_bool(t): return mkbool(t)
    if z3.is_int(t): return mkint(t)
    if z3.is_real(t): return mkreal(t)
    if z3.is_string(t): return SymStr(t) if not z3.is_string_value(t) else t.as_string()
    return SymObj(t)

def _arith(op):
    def f(a, b):
        return arith(op, a, b)
    def r(a, b):
        return arith(op, b, a)
    return f, r

def arith(op, a, b):
    if not is_num(a) or not is_num(b): return NotImplemented
    if isinstance(a, SymBool): a = mkint(P(a))
    if isinstance(b, SymBool): b = mkint(P(b))
    ii = isint(a) and isint(b)
    if op == '+':
        return mkint(P(a)+P(b)) if ii else mkreal(z3s(zr(a)+zr(b)))
    if op == '-':
        return mkint(P(a)-P(b)) if ii else mkreal(z3s(zr(a)-zr(b)))
    if op == '*':
        return mkint(P(a)*P(b)) if ii else mkreal(z3s(zr(a)*zr(b)))
    if op == '/':
        if ENG.decide_t(zr(b) == 0):
            ENG.pyraise(ZeroDivisionError('division by zero'))
        return mkreal(z3s(zr(a)/zr(b)))
    if op == '//':
        if ii: return int_divmod(a, b)[0]
        return mkreal(z3.ToReal(z3.ToInt(zr(a)/zr(b))))
    if op == '%':
        if ii: return int_divmod(a, b)[1]
        raise Unsupported('real modulo')
    if op == '**':
        if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 16:
            r = 1 if isint(a) else 1.0
            for _ in range(b): r = r*a
            return r
        if isinstance(b, float) and b.is_integer() and 0 <= b <= 16:
            r = 1.0
            for _ in range(int(b)): r = r*a
            return r
        f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
        return SymReal(f(zr(a), zr(b)))
    raise Unsupported('operator '+op)

def z3s(t):
    return z3.simplify(t) if False else t

def int_divmod(a, b):
    """floor division and remainder (Python semantics)"""
    pa, pb = P(a), P(b)
    if pb.isconst():
        c = pb.constval()
        if c == 0: ENG.pyraise(ZeroDivisionError('integer division or modulo by zero'))
        if pa.isconst():
            q, r = divmod(pa.constval(), c); return q, r
        if c == 1: return mkint(pa), 0
        if c > 0:
            Q, R = pa.divmono((), c)
            if R.isconst() and 0 <= R.constval() < c: return mkint(Q), R.constval()
            if ENG.prove_nonneg(R) and ENG.prove_nonneg(Poly.const(c-1)-R): return mkint(Q), mkint(R)
            return mkint(Q+Poly.atom(R.z3()/z3.IntVal(c))), mkint(R-Poly.atom(R.z3()/z3.IntVal(c)).scale(c))
    else:
        if len(pb.m) == 1:
            (mono, c), = pb.m.items()
            if c > 0:
                Q, R = pa.divmono(mono, c)
                for adj in (0, 1, -1):
                    Q2 = Q+Poly.const(adj); R2 = R-pb.scale(adj)
                    if ENG.prove_nonneg(R2) and ENG.prove_nonneg(pb-R2-Poly.const(1)): return mkint(Q2), mkint(R2)
        # exact multiple of a general polynomial
        for adj in (1, 2, -1, 0):
            if pa == pb.scale(adj):
                return adj, 0
        q = polyquot(pa, pb)
        if q is not None: return mkint(q), 0
        if len(pb.m) > 1:
            for mono, c in pb.m.items():
                if c <= 0 or not mono: continue
                Q, _ = pa.divmono(mono, c)
                if not Q.m: continue
                for adj in (0, 1, -1):
                    Q2 = Q+Poly.const(adj); R2 = pa-Q2*pb
                    if ENG.prove_nonneg(R2, usez3=False) and ENG.prove_nonneg(pb-R2-Poly.const(1), usez3=False): return mkint(Q2), mkint(R2)
            if ENG.prove_nonneg(pa, usez3=False) and ENG.prove_nonneg(pb-pa-Poly.const(1), usez3=False): return 0, mkint(pa)
    if not ENG.implied(zi(b) > 0):
        if ENG.decide_t(zi(b) == 0): ENG.pyraise(ZeroDivisionError('integer division or modulo by zero'))
        if not ENG.decide_t(zi(b) > 0): raise Unsupported('division by a negative symbolic integer')
    q = Poly.atom(pa.z3()/pb.z3()); Q = mkint(q)
    try:
        # division is monotone: bounds of the quotient from bounds of the dividend
        if ENG.prove_nonneg(pa, usez3=False):
            ENG.bound(Q, 0)
            for x in sorted(pa.atoms()):
                cr = pa.coeff(x)
                if cr is None or not ENG._nonneg(cr[0], 0): continue
                for ub in ENG.ubounds.get(x, ()):
                    top = cr[0]*ub+cr[1]
                    for mono, c in pb.m.items():
                        if c <= 0 or not mono: continue
                        Qt, _ = top.divmono(mono, c)
                        for adj in (0, -1):
                            Q2 = Qt+Poly.const(adj); R2 = top-Q2*pb
                            if ENG._nonneg(R2, 0) and ENG._nonneg(pb-R2-Poly.const(1), 0): ENG.bound(Q, None, mkint(Q2)); break
    except ValueError: pass
    return Q, mkint(pa-q*pb)

def polyquot(pa, pb):
    """exact polynomial quotient or None (division by leading monomial)"""
    def lead(p): return max(p.m, key=lambda k: (sum(e for _, e in k), k))
    q = Poly({}); r = pa
    lb = lead(pb); cb = pb.m[lb]
    for _ in range(30):
        if not r.m: return q
        lr = lead(r); d = dict(lr)
        for x, e in lb:
            if d.get(x, 0) < e: return None
            d[x] -= e
            if not d[x]: del d[x]
        if r.m[lr] % cb: return None
        t = Poly({tuple(sorted(d.items())): r.m[lr]//cb})
        q = q+t; r = r-t*pb
    return None

def cmp(op, a, b):
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
        if not (isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr))):
            if op == '==': return False
            if op == '!=': return True
            return NotImplemented
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SymStr) and isinstance(y, str) and op in ('==', '!='):
                r = (False if y == '' and strs().nonempty(x) else strs().equals(x, y))
                if r is not None: return r == (op == '==')
        if op == '==': return mkbool(zs(a) == zs(b))
        if op == '!=': return mkbool(zs(a) != zs(b))
        raise Unsupported('string ordering')
    if isinstance(a, SymObj) or isinstance(b, SymObj):
        if isinstance(a, SymObj) and isinstance(b, SymObj) and a.t.sort() == b.t.sort():
            e = mkbool(a.t == b.t)
            return e if op == '==' else notb(e)
        raise Unsupported('comparison of opaque values')
    if not is_num(a) or not is_num(b):
        if op == '==': return False
        if op == '!=': return True
        return NotImplemented
    for x in (a, b):
        if isinstance(x, float) and x in (float('inf'), float('-inf')):
            inf = x
            pos = (inf > 0)
            first = x is a
            r = {'<': (not pos) if first else pos, '>': pos if first else (not pos)}
            if op in ('<', '<='): return r['<']
            if op in ('>', '>='): return r['>']
            return op == '!='
        if isinstance(x, float) and x != x: return op == '!='
    if isint(a) and isint(b):
        d = P(a)-P(b)
        if d.isconst():
            c = d.constval()
            return {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        x, y = zi(a), zi(b)
    else: x, y = zr(a), zr(b)
    t = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
    return mkbool(t)

def notb(x):
    if isinstance(x, bool): return not x
    return mkbool(z3.Not(zb(x)))
def andb(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return False
    if not xs: return True
    return mkbool(z3.And([zb(x) for x in xs])) if len(xs) > 1 else xs[0]
def orb(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs): return True
    if not xs: return False
    return mkbool(z3.Or([zb(x) for x in xs])) if len(xs) > 1 else xs[0]

class _Num(Sym):
    __slots__ = ()
    __add__, __radd__ = _arith('+')
    __sub__, __rsub__ = _arith('-')
    __mul__, __rmul__ = _arith('*')
    __truediv__, __rtruediv__ = _arith('/')
    __floordiv__, __rfloordiv__ = _arith('//')
    __mod__, __rmod__ = _arith('%')
    __pow__, __rpow__ = _arith('**')
    def __divmod__(a, b): return int_divmod(a, b)
    def __neg__(a): return 0-a
    def __pos__(a): return a
    def __abs__(a):
        return ite(a >= 0, a, -a)
    def __eq__(a, b): return cmp('==', a, b)
    def __ne__(a, b): return cmp('!=', a, b)
    def __lt__(a, b): return cmp('<', a, b)
    def __le__(a, b): return cmp('<=', a, b)
    def __gt__(a, b): return cmp('>', a, b)
    def __ge__(a, b): return cmp('>=', a, b)
    __hash__ = Sym.__hash__
    def __bool__(a): return ENG.decide(a != 0)
class SymInt(_Num):
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def z(self): return self.p.z3()
class SymReal(_Num):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def z(self): return self.t
class SymBool(_Num):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def z(self): return self.t
    def __bool__(self): return ENG.decide(self)
    def __and__(a, b): return andb(a, b) if isinstance(b, (bool, SymBool)) else NotImplemented
    __rand__ = __and__
    def __or__(a, b): return orb(a, b) if isinstance(b, (bool, SymBool)) else NotImplemented
    __ror__ = __or__
    def __invert__(a): return notb(a)
    def __eq__(a, b):
        if isinstance(b, (bool, SymBool)): return mkbool(zb(a) == zb(b))
        return cmp('==', a, b)
    def __ne__(a, b):
        if isinstance(b, (bool, SymBool)): return mkbool(zb(a) != zb(b))
        return cmp('!=', a, b)
    __hash__ = Sym.__hash__
class SymObj(Sym):
    """opaque value of an uninterpreted sort"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def z(self): return self.t
    def __eq__(a, b): return cmp('==', a, b)
    def __ne__(a, b): return cmp('!=', a, b)
    __hash__ = Sym.__hash__
    def __bool__(self): raise Unsupported('truth value of an opaque value')
def strs():
    from . import strs as m
    return m
class SymStr(Sym):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def z(self): return self.t
    def __add__(a, b): return catstr(a, b) if isinstance(b, (str, SymStr)) else NotImplemented
    def __radd__(a, b): return catstr(b, a) if isinstance(b, (str, SymStr)) else NotImplemented
    def __eq__(a, b): return cmp('==', a, b)
    def __ne__(a, b): return cmp('!=', a, b)
    __hash__ = Sym.__hash__
    def __bool__(self):
        if strs().nonempty(self): return True
        return ENG.decide(cmp('!=', self, ''))
    def sym_len(self):
        n = 0
        for t in catparts(self.t): n = n+(len(t.as_string()) if z3.is_string_value(t) else mkint(z3.Length(t)))
        return n
    def sym_contains(self, x):
        r = strs().contains(self, x) if isinstance(x, str) else None
        return mkbool(z3.Contains(self.t, zs(x))) if r is None else r
    def lower(self):
        r = strs().map_chars(self, 'lower')
        if r is not None: return r
        return SymStr(z3.Function('lower', z3.StringSort(), z3.StringSort())(self.t))
    def upper(self):
        r = strs().map_chars(self, 'upper')
        if r is not None: return r
        return SymStr(z3.Function('upper', z3.StringSort(), z3.StringSort())(self.t))
    def strip(self, *a):
        r = strs().strip(self, True, True, *a) if all(isinstance(x, str) for x in a) else None
        if r is not None: return r
        if a: return SymStr(z3.Function('strip_'+repr(a), z3.StringSort(), z3.StringSort())(self.t))
        f = z3.Function('strip', z3.StringSort(), z3.StringSort())
        if self.t.decl().name() == 'strip': return self
        return SymStr(f(self.t))
    def lstrip(self, *a):
        r = strs().strip(self, True, False, *a) if all(isinstance(x, str) for x in a) else None
        return r if r is not None else SymStr(z3.Function('lstrip_'+repr(a), z3.StringSort(), z3.StringSort())(self.t))
    def rstrip(self, *a):
        r = strs().strip(self, False, True, *a) if all(isinstance(x, str) for x in a) else None
        return r if r is not None else SymStr(z3.Function('rstrip_'+repr(a), z3.StringSort(), z3.StringSort())(self.t))
    def replace(self, a, b):
        S = z3.StringSort()
        r = strs().replace(self, a, b)
        if r is not None: return r
        return SymStr(z3.Function('replaceall', S, S, S, S)(self.t, zs(a), zs(b)))
    def split(self, *a):
        from .interp import SList, Seg
        S = z3.StringSort(); Z = z3.IntSort()
        if len(a) > 1: raise Unsupported('split with limit')
        r = strs().tokens(self) if not a or a[0] is None else strs().split_lit(self, a[0]) if isinstance(a[0], str) else None
        if r is not None: return r
        nm = 'split_'+(a[0] if a and isinstance(a[0], str) else 'ws' if not a or a[0] is None else '?')
        n = mkint(z3.Function(nm+'_n', S, Z)(self.t))
        ENG.bound(n, 1 if a and a[0] is not None else 0)
        return SList(segs=[Seg(n, lambda k: SymStr(z3.Function(nm, S, Z, S)(self.t, zi(k))))])
    def isdigit(self):
        r = strs().isdigit(self)
        return r if r is not None else SymBool(z3.Function('isdigit', z3.StringSort(), z3.BoolSort())(self.t))
    def isalpha(self):
        r = strs().isalpha(self)
        return r if r is not None else SymBool(z3.Function('isalpha', z3.StringSort(), z3.BoolSort())(self.t))
    def find(self, x):
        r = strs().find(self, x)
        if r is not None: return r
        return mkint(z3.IndexOf(self.t, zs(x), 0))
    def rsplit(self, sep=None, n=-1):
        from .interp import SList
        if isinstance(sep, str) and len(sep) == 1 and n == 1:
            from . import libs
            r = strs().rfind(self, sep)
            if r is None: raise Unsupported('rsplit')
            from .interp import truth
            if not truth(cmp('>=', r, 0)): return SList([self])
            return SList([libs.str_index(self, slice(0, r)), libs.str_index(self, slice(r+1, None))])
        raise Unsupported('rsplit of a text')
    def rfind(self, x):
        r = strs().rfind(self, x)
        if r is not None: return r
        raise Unsupported('rfind of %r in a text' % (x,))
    def count(self, x):
        r = strs().count(self, x)
        if r is None: raise Unsupported('count of %r in a text' % (x,))
        return r
    def splitlines(self, *a): 
        if a: return strs().lines(self)
        from .interp import SList
        return SList(segs=[[strs().chop(x) for x in g] if isinstance(g, list) else strs().mapseg(g, strs().chop) for g in strs().lines(self).segs])
    def ljust(self, n, c=' '):
        if c != ' ' or not isinstance(n, int): raise Unsupported('ljust')
        from . import libs
        return libs.fmt_one(self, '<%ds' % n)
    def rjust(self, n, c=' '):
        if c != ' ' or not isinstance(n, int): raise Unsupported('rjust')
        from . import libs
        return libs.fmt_one(self, '>%ds' % n)
    def startswith(self, x):
        r = strs().startswith(self, x) if isinstance(x, str) else None
        return r if r is not None else mkbool(z3.PrefixOf(zs(x), self.t))
    def endswith(self, x):
        r = strs().endswith(self, x) if isinstance(x, str) else None
        return r if r is not None else mkbool(z3.SuffixOf(zs(x), self.t))

def catparts(t):
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for c in t.children(): r += catparts(c)
        return r
    return [t]
def catstr(*xs):
    parts = []
    for x in xs:
        for t in (catparts(zs(x))):
            if z3.is_string_value(t):
                s = t.as_string()
                if s == '': continue
                if parts and isinstance(parts[-1], str): parts[-1] += s
                else: parts.append(s)
            else: parts.append(t)
    if not parts: return ''
    if len(parts) == 1: return parts[0] if isinstance(parts[0], str) else SymStr(parts[0])
    return SymStr(z3.Concat([z3.StringVal(p) if isinstance(p, str) else p for p in parts]))

def ite(c, a, b):
    """value-level if-then-else on scalars"""
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return tuple(ite(c, x, y) for x, y in zip(a, b))
    ct = zb(c)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)): return mkbool(z3.If(ct, zb(a), zb(b)))
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        if isinstance(a, str) and isinstance(b, str) and a == b: return a
        return SymStr(z3.If(ct, zs(a), zs(b)))
    if isinstance(a, SymObj) and isinstance(b, SymObj): return SymObj(z3.If(ct, a.t, b.t))
    if is_num(a) and is_num(b):
        if isint(a) and isint(b):
            if P(a) == P(b): return a
            return mkint(Poly.atom(z3.If(ct, zi(a), zi(b))))
        ra, rb = zr(a), zr(b)
        if ra.eq(rb): return mkreal(ra)
        return mkreal(z3.If(ct, ra, rb))
    if type(a) is type(b) and not isinstance(a, Sym):
        try:
            if a == b: return a
        except Exception: pass
    raise Unsupported('cannot merge %r and %r' % (type(a).__name__, type(b).__name__))

def subst(v, pairs):
    """substitute z3 Int constants in a scalar value; pairs: list of (z3 const, int value)"""
    if not pairs: return v
    if isinstance(v, tuple): return tuple(subst(x, pairs) for x in v)
    if isinstance(v, SymInt):
        sub = {}
        zp = [(c, zi(x)) for c, x in pairs]
        ids = {atom_id(c): P(x) for c, x in pairs}
        for a in v.p.atoms():
            if a in ids: sub[a] = ids[a]
            else:
                t = atom_term(a)
                if t.num_args():
                    t2 = z3.substitute(t, *zp)
                    if not t2.eq(t): sub[a] = poly_of(t2) if t2.decl().kind() not in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_ITE) else Poly.atom(t2)
        return mkint(v.p.subst(sub))
    if isinstance(v, (SymReal, SymBool, SymStr, SymObj)):
        return fromz(norm(z3.substitute(v.t, *[(c, zi(x)) for c, x in pairs])))
    return v

_normc = {}
def norm(t):
    """normalise integer sub-terms to polynomial normal form, so that equal index polynomials are syntactically equal"""
    k = t.get_id()
    r = _normc.get(k)
    if r is not None: return r[1]
    if z3.is_quantifier(t): out = t
    elif t.num_args() == 0: out = t
    else:
        ch = [norm(c) for c in t.children()]
        out = t if all(a.eq(b) for a, b in zip(ch, t.children())) else (t.decl()(*ch) if t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_DISTINCT) else rebuild(t, ch))
        if z3.is_int(out) and out.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            out = poly_of(out).z3()
    _normc[k] = (t, out); 
    return out
def rebuild(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(ch)
    if k == z3.Z3_OP_OR: return z3.Or(ch)
    if k == z3.Z3_OP_SEQ_CONCAT: return z3.Concat(ch)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(ch)
    r = ch[0]
    for c in ch[1:]: r = r+c if k == z3.Z3_OP_ADD else r*c
    return r

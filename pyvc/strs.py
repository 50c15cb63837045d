"""Structure of text values: what the program writes, piece by piece, for any number of repetitions.

A text value is a z3 string term; its pieces are literals, formatted numbers (fmt_d, fmti_<spec>, fmtr_<spec>), and repetitions
rep!j(v.., N), the concatenation of body(k) for k = 0..N-1.  Reading back splits this structure at line ends and blanks and parses
the formatted numbers; what does not fit is None / Unsupported (undecided), never guessed.

Assumed (Python's number formatting and parsing): a formatted finite number is a non-empty token of the characters 0-9 + - . e, with
blanks around it only when the format has a width or the blank flag; int() of a formatted integer is that integer; float() of a float
written with at least 16 digits after the point in e-format (or by str/repr) is that float, with p digits in e-format is within
0.5*10**-p of it relative, with p digits in f-format within 0.5*10**-p absolute, with p significant digits (g, general format) within
0.5*10**-(p-1) relative; %d of a float is its integer part."""
import z3, re
from . import terms as T
from .terms import *
S = z3.StringSort(); Z = z3.IntSort(); R = z3.RealSort()
WS = ' \t\n\r\x0b\x0c'
NUM = set('0123456789+-.e')
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']

class Lit:
    def __init__(self, s): self.s = s
    def __repr__(self): return repr(self.s)
class Tok:
    """formatted number: left/right = blanks possible on that side"""
    def __init__(self, t, left, right, chars, kind): self.t = t; self.left = left; self.right = right; self.chars = chars; self.kind = kind
    def __repr__(self): return '<%s>' % self.t.decl().name()
class Word:
    """one of the given words"""
    def __init__(self, t, alts): self.t = t; self.alts = alts
class Neg:
    """every character but the given ones"""
    def __init__(self, ex): self.ex = frozenset(ex)
    def __contains__(self, c): return c not in self.ex
    def __and__(self, o): return Neg(self.ex | o.ex) if isinstance(o, Neg) else {c for c in o if c not in self.ex}
    __rand__ = __and__
class Pad:
    """some number of blanks, possibly none"""
    def __init__(self, t): self.t = t
class Any:
    """text without line end of which nothing else is known (may be empty)"""
    chars = Neg('\n\r\x0b\x0c')
    def __init__(self, t): self.t = t
class Rep:
    def __init__(self, t, k, body, n): self.t = t; self.k = k; self.body = body; self.n = n
    def __repr__(self): return 'Rep(%s x %r)' % (self.n, pieces(self.body))

# ------------------------------------------------------------------ repetitions
REPS = {}       # name -> (body over canonical variables, number of outer variables)
_repkey = {}
def canon(j): return z3.Const('rep!v%d' % j, Z)
REPK = z3.Const('rep!k', Z)
def consts(t):
    out = {}; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
            st += x.children()
    return out
def consts_fn(t):
    """names of the uninterpreted symbols in a term"""
    out = set(); st = [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st += x.children()
    return out
def repeat(k, body, n):
    """body(0) ++ ... ++ body(n-1), n >= 0"""
    if isinstance(n, int):
        out = ''
        if n > 200: raise Unsupported('long repetition')
        for j in range(n): out = catstr(out, subst(SymStr(zs(body)), [(k, j)]))
        return out
    if isinstance(body, str) and body == '': return ''
    b = norm(zs(body)); cs = consts(b)
    lv = [v for v in cs.values() if v.sort() == Z and not v.eq(k)]
    can = norm(z3.substitute(b, *([(k, REPK)]+[(v, canon(j)) for j, v in enumerate(lv)])))
    nm = _repkey.get(can)
    if nm is None: nm = _repkey[can] = 'rep!%d' % len(REPS); REPS[nm] = (can, len(lv))
    return SymStr(z3.Function(nm, *([Z]*(len(lv)+1)+[S]))(*(lv+[zi(n)])))
def rep_of(t):
    nm = t.decl().name()
    if nm not in REPS: return None
    can, m = REPS[nm]
    body = norm(z3.substitute(can, *[(canon(j), t.arg(j)) for j in range(m)])) if m else can
    # a fresh bound variable per nesting depth keeps substitutions capture free
    k = z3.Const('rep!b%d' % depth(can), Z)
    body = norm(z3.substitute(body, (REPK, k)))
    return Rep(t, k, body, mkint(t.arg(m)))
_depth = {}
def depth(t):
    """nesting depth of repetitions in a canonical body"""
    r = _depth.get(t)
    if r is None:
        r = 0; st = [t]
        while st:
            x = st.pop()
            if z3.is_app(x):
                if x.decl().name() in REPS: r = max(r, 1+depth(REPS[x.decl().name()][0]))
                st += x.children()
        _depth[t] = r
    return r
def rep_body(r, kk): return subst(SymStr(r.body), [(r.k, kk)]) if not z3.is_string_value(r.body) else r.body.as_string()

# ------------------------------------------------------------------ formatted numbers
PCT = re.compile(r'^%([-+ 0#]*)(\d+)?(?:\.(\d+))?([a-zA-Z])$')
FMT = re.compile(r'^(?:(.)?([<>^=]))?([-+ ])?(#)?(0)?(\d+)?(?:\.(\d+))?([a-zA-Z])?$')
_spec = {}
def spec_of(name):
    """(left blanks, right blanks, conversion, precision, zero padded) or None"""
    if name in _spec: return _spec[name]
    r = None; s = name.split('_', 1)[1]
    m = PCT.match(s)
    if m:
        fl, w, p, c = m.groups()
        r = (bool(w) and '-' not in fl and '0' not in fl or (' ' in fl and '+' not in fl), bool(w) and '-' in fl, c.lower() if c in 'diueEfFgGrs' else None, None if p is None else int(p))
    elif s == 'str': r = (False, False, 'r', None)
    else:
        m = FMT.match(s)
        if m:
            fill, al, sg, _, z, w, p, c = m.groups()
            if fill is not None and fill != ' ' or _: r = None
            else:
                if al is None: al = '=' if z else '>'
                ws = bool(w) and not (al == '=' and z) and int(w) > 1
                r = ((ws and al in '>^=') or sg == ' ', ws and al in '<^', c.lower() if c in ('d', 'e', 'f', 'g', 'E', 'F', 'G') else ('' if c is None else None), None if p is None else int(p))
    if r is not None and r[2] is None: r = None
    _spec[name] = r
    return r
def fmt_kind(t):
    """(conv, precision, value) of a formatted number term"""
    nm = t.decl().name()
    if nm == 'fmt_d': return 'd', None, mkint(t.arg(0))
    s = spec_of(nm)
    if s is None: return None
    v = mkint(t.arg(0)) if nm.startswith('fmti_') else SymReal(t.arg(0))
    c, p = s[2], s[3]
    if isinstance(v, SymInt) and c in ('d', 'i', 'u', '', 'r', 's'): return ('d', None, v) if p is None else None
    if isinstance(v, SymReal):
        if c in ('d', 'i', 'u'):
            from . import nd
            return ('d', None, nd.trunc(v)) if nm.split('_', 1)[1].startswith('%') and p is None else None
        if c in ('r', 's') and p is not None: return None
        if c in ('r', 's'): return 'r', None, v
        if c == '': return ('r', None, v) if p is None else ('n', p, v)
    if c in ('e', 'f', 'g'): return c, 6 if p is None else p, v
    return None
def piece_of(t):
    if z3.is_string_value(t): return Lit(t.as_string())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = piece_of(t.arg(1)), piece_of(t.arg(2))           # one of two formatted numbers
        if not isinstance(a, Tok) or not isinstance(b, Tok): return None
        if a.kind[0] == b.kind[0] == 'w':
            x, y = a.kind[1], b.kind[1]
            return Tok(t, False, False, Neg(a.chars.ex & b.chars.ex), ('w', dict(notnum=x.get('notnum') and y.get('notnum'), notwords=[w for w in x.get('notwords', ()) if w in y.get('notwords', ())], noprefix=[w for w in x.get('noprefix', ()) if w in y.get('noprefix', ())]), None))
        if 'w' in (a.kind[0], b.kind[0]): return None
        return Tok(t, a.left or b.left, a.right or b.right, a.chars | b.chars, ('ite', t.arg(0), (a.kind, b.kind)))
    if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED: return None
    nm = t.decl().name()
    if nm in REPS: return rep_of(t)
    if nm == 'strip' and t.num_args() == 1:
        p = piece_of(t.arg(0))
        return Tok(t, False, False, p.chars, p.kind) if isinstance(p, Tok) else Any(t) if isinstance(p, Any) else None
    if nm == 'fmt_d': return Tok(t, False, False, set('0123456789-'), ('d', None, mkint(t.arg(0))))
    if nm.startswith(('fmti_', 'fmtr_')):
        k = fmt_kind(t)
        if k is None: return None
        s = spec_of(nm)
        ch = set('0123456789+-') if k[0] == 'd' or k[0] == 'f' and k[1] == 0 else (set('0123456789+-.') if k[0] == 'f' else NUM)
        if nm[-1] in 'EG': ch = {'E' if x == 'e' else x for x in ch}
        return Tok(t, s[0], s[1], ch, k)
    if nm in OPQ: return Tok(t, False, False, Neg(WS+''.join(OPQ[nm].get('excl', ''))), ('w', OPQ[nm], None))
    if nm in ('lower', 'upper') and t.num_args() == 1:
        p = piece_of(t.arg(0))
        if isinstance(p, Tok) and p.kind[0] != 'w': return Tok(t, p.left, p.right, {getattr(x, nm)() for x in p.chars}, p.kind)
        if isinstance(p, Tok) and p.kind[0] == 'w': return Tok(t, False, False, Neg(''.join(c for c in p.chars.ex if not c.isalpha())), ('w', dict(p.kind[1], noprefix=[x for x in p.kind[1].get('noprefix', ()) if not x.isalpha()]), None))
        return Any(t) if isinstance(p, Any) else None
    if nm.startswith('pad!'): return Pad(t)
    if nm in TEXTS: return Any(t)
    if nm in ('strip', 'lstrip_()', 'rstrip_()', 'replaceall', 'collapse!', 'head!') or nm.startswith(('strip_', 'lstrip_', 'rstrip_', 'part!')):
        return Any(t) if isinstance(piece_of(t.arg(0)), Any) or t.arg(0).decl().name() == 'text!' else None
    w = WORDS.get(nm)
    if w is not None and t.num_args() == 0: return Word(t, w)
    return None
OPQ = {}        # name of a string function -> what is known of its values, which are non-empty words without blanks:
                # excl: characters that do not occur; nosub: texts (capitals) that do not occur in it, in any case; notnum: neither float() nor int() nor isdigit() accepts it (nor the word without its
                # first character when that is a sign); notwords: words it differs from, in any case; noprefix: texts it does not begin with
TEXTS = set()   # names of string functions whose values are texts without line end
WORDS = {}      # name of a string constant -> the words it may be
def pieces(t):
    """list of pieces, None for what has no known structure"""
    out = []
    for c in catparts(t):
        p = piece_of(c)
        if p is None: return None
        if isinstance(p, Lit):
            if p.s == '': continue
            if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].s+p.s); continue
        out.append(p)
    return out
def join(ps):
    return catstr(*[p.s if isinstance(p, Lit) else SymStr(p.t) for p in ps]) if ps else ''
def known(s):
    """pieces of a text value that has a structure worth using"""
    if not isinstance(s, SymStr): return None
    return pieces(s.t)
def allp(ps):
    """all pieces have a known structure, at every depth"""
    if ps is None: return False
    return all(allp(pieces(p.body)) for p in ps if isinstance(p, Rep))

# ------------------------------------------------------------------ what characters may occur
def advance(ps, states, step, eps):
    """over-approximation of a finite automaton run: states -> states, step(state, char set) -> set of states"""
    for p in ps:
        if isinstance(p, Lit):
            for ch in p.s: states = step(states, {ch})
        elif isinstance(p, Pad): states = star(states, step, {' '})
        elif isinstance(p, Any): states = star(states, step, p.chars)
        elif isinstance(p, Word):
            out = set()
            for w in p.alts:
                st = states
                for ch in w: st = step(st, {ch})
                out |= st
            states = out
        elif isinstance(p, Tok):
            if p.left: states = star(states, step, {' '})
            before = states
            states = star(step(states, p.chars), step, p.chars)
            if eps is not None and before == {0} and p.kind[0] == 'w' and eps.upper() in p.kind[1].get('nosub', ()): states = states-{len(eps)}
            if p.right: states = star(states, step, {' '})
        else:
            body = pieces(p.body); cur = set(states)
            while True:
                nx = cur | advance(body, cur, step, eps)
                if nx == cur: break
                cur = nx
            states = cur
    return states
def star(states, step, cs):
    cur = set(states)
    while True:
        nx = cur | step(cur, cs)
        if nx == cur: return cur
        cur = nx
def may_contain(ps, x):
    if ' ' in x.strip(' '):
        if not all(may_contain(ps, y) for y in x.split(' ') if y): return False
    n = len(x)
    def step(st, cs):
        out = {0}
        for q in st:
            if q == n: out.add(n)
            elif x[q] in cs: out.add(q+1)
        return out
    return n in advance(ps, {0}, step, x)
def may_equal(ps, x, prefix=False):
    """may the text be x (or begin with x)"""
    n = len(x)
    def step(st, cs):
        out = set()
        for q in st:
            if q < n and x[q] in cs: out.add(q+1)
            if q == n and prefix: out.add(n)
        return out
    return n in advance(ps, {0}, step, None)
def contains(s, x):
    """x in s, or None"""
    ps = known(s)
    if not allp(ps) or x == '': return None
    if any(isinstance(p, Lit) and x in p.s for p in ps): return True
    if not may_contain(ps, x): return False
    return None
def nonempty(s):
    ps = known(s)
    if ps is None: return None
    if any(isinstance(p, (Lit, Tok)) or (isinstance(p, Word) and all(p.alts)) for p in ps): return True
    return None
def equals(s, x):
    if isinstance(s, SymStr) and s.t.decl().name() == 'charat': return char_is(s.t, x)
    ps = known(s)
    if not allp(ps): return None
    if len(ps) == 1 and isinstance(ps[0], Tok) and ps[0].kind[0] == 'w' and x.lower() in ps[0].kind[1].get('notwords', ()): return False
    if not may_equal(ps, x): return False
    return None
def char_is(t, x):
    """is the character t = charat(word, k) equal to x"""
    p = piece_of(t.arg(0))
    if not isinstance(p, Tok) or p.left or p.right: return None
    if len(x) != 1 or x not in p.chars: return False
    first = z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0
    if first and p.kind[0] == 'w' and x in p.kind[1].get('noprefix', ()): return False
    if first and x == '-' and p.kind[0] == 'd': return cmp('<', p.kind[2], 0)
    if first and x == '+' and p.kind[0] == 'd' and p.t.decl().name() == 'fmt_d': return False
    return None
def first_char(s):
    """s[0] where the structure gives it"""
    ps = known(s)
    if not ps: return None
    p = ps[0]
    if isinstance(p, Lit): return p.s[0]
    if isinstance(p, Tok) and not p.left and not p.right: return SymStr(z3.Function('charat', S, Z, S)(p.t, z3.IntVal(0)))
    return None
def last_char(s):
    ps = known(s)
    if not ps: return None
    p = ps[-1]
    if isinstance(p, Lit): return p.s[-1]
    if isinstance(p, Tok) and not p.left and not p.right: return SymStr(z3.Function('charat', S, Z, S)(p.t, z3.Length(p.t)-1))
    return None
def isdigit(s):
    """s.isdigit(), or None"""
    t = s.t; tail = t.decl().name() == 'slice_1_None'
    if tail: t = t.arg(0)
    p = piece_of(t)
    if not isinstance(p, Tok) or p.left or p.right: 
        ps = known(s)
        return False if allp(ps) and any(isinstance(q, Lit) and not q.s.isdigit() for q in ps) else None
    k = p.kind
    if k[0] == 'w': return False if k[1].get('notnum') else None
    if k[0] in ('r', 'e'): return False             # a point, an exponent, inf or nan is in it, not only as first character
    if k[0] == 'd' and p.t.decl().name() == 'fmt_d': 
        if not tail: return cmp('>=', k[2], 0)
        return True if T.ENG.implied(zb(cmp('<', k[2], 0))) else None
    return None
def slice_by_length(s, b):
    """s[b:] where b is the length of the leading pieces"""
    ps = known(s)
    if ps is None: return None
    n = 0; B = P(b)
    for j in range(len(ps)+1):
        if P(n) == B: return join(ps[j:])
        if j == len(ps): break
        p = ps[j]
        if isinstance(p, Lit):
            c = mkint(B-P(n))
            if isinstance(c, int) and 0 <= c < len(p.s): return join([Lit(p.s[c:])]+ps[j+1:])
            n = n+len(p.s)
        else: n = n+mkint(z3.Length(p.t))
    return None
def head_by_length(s, b):
    """s[:b] where b is the length of the leading pieces"""
    ps = known(s)
    if ps is None: return None
    r = slice_by_length(s, b)
    if r is None: return None
    k = len(pieces(zs(r))) if not (isinstance(r, str) and not r) else 0
    h = ps[:len(ps)-k]
    if k and isinstance(pieces(zs(r))[0], Lit):
        q = ps[len(ps)-k]
        if len(pieces(zs(r))[0].s) != len(q.s): h = ps[:len(ps)-k]+[Lit(q.s[:len(q.s)-len(pieces(zs(r))[0].s)])]
    return join(h)
def find(s, x):
    """s.find(x): exact position, symbolic position, or None"""
    ps = known(s)
    if not isinstance(x, (str, SymStr)): return None
    if isinstance(x, SymStr):
        # a text that is itself a piece: found at that piece when it cannot occur earlier
        xs = known(x)
        if ps is None or not xs or len(xs) != 1 or not isinstance(xs[0], Tok): return None
        n = 0
        for p in ps:
            if not isinstance(p, Lit) and p.t.eq(xs[0].t): return n
            if not isinstance(p, Lit) or any(c in xs[0].chars for c in p.s): return None
            n += len(p.s)
        return None
    if not allp(ps) or x == '': return None
    if not may_contain(ps, x): return -1
    n = 0
    for j, p in enumerate(ps):
        if isinstance(p, Lit):
            i = p.s.find(x)
            if i >= 0:
                if not may_contain(ps[:j]+[Lit(p.s[:i+len(x)-1])], x): return n+i       # no earlier occurrence
                break
            n = n+len(p.s)
        elif isinstance(p, Rep) and may_contain([p], x) and (p.n >= 1 if isinstance(p.n, int) else T.ENG.implied(zb(cmp('>=', p.n, 1)))):
            b = rep_body(p, 0); i = find(b, x) if isinstance(b, SymStr) else None       # in the first of the parts
            if i is not None and not (isinstance(i, SymInt) and any(q.startswith('find_') for q in consts_fn(zi(i)))) and not (isinstance(i, int) and i < 0) and not may_contain(ps[:j], x): return n+i
            break
        else: n = n+mkint(z3.Length(p.t))
        if may_contain(ps[:j+1], x): break
    r = mkint(z3.Function('find_'+x, S, Z)(s.t)); T.ENG.bound(r, -1)
    return r
def rfind(s, x):
    """s.rfind(x) for one character: exact where the last occurrence is in a literal, otherwise an unknown position"""
    ps = known(s)
    if not isinstance(x, str) or len(x) != 1: return None
    if allp(ps):
        if not may_contain(ps, x): return -1
        for j in range(len(ps)-1, -1, -1):
            if isinstance(ps[j], Lit) and x in ps[j].s:
                n = ps[j].s.rfind(x)
                for q in ps[:j]: n = n+(len(q.s) if isinstance(q, Lit) else mkint(z3.Length(q.t)))
                return n
            if may_contain([ps[j]], x): break
    r = mkint(z3.Function('rfind_'+x, S, Z)(s.t)); T.ENG.bound(r, -1)
    return r
def map_chars(s, name):
    """s.lower() / s.upper() piece by piece"""
    ps = known(s)
    if not allp(ps): return None
    out = []
    for p in ps:
        if isinstance(p, Lit): out.append(getattr(p.s, name)())
        elif isinstance(p, Pad): out.append(SymStr(p.t))
        elif isinstance(p, Tok):
            if p.kind[0] == 'w': out.append(SymStr(z3.Function(name, S, S)(p.t)))
            elif all(getattr(x, name)() == x for x in p.chars): out.append(SymStr(p.t))
            else: out.append(SymStr(z3.Function(name, S, S)(p.t)))
        elif isinstance(p, Any): out.append(SymStr(z3.Function(name, S, S)(p.t)))
        elif isinstance(p, Rep):
            r = map_chars(SymStr(p.body), name) if not z3.is_string_value(p.body) else getattr(p.body.as_string(), name)()
            if r is None: return None
            out.append(repeat(p.k, r, p.n))
        else: return None
    return catstr(*out)
def collapse(s, c):
    """re.sub('c+', 'c', s)"""
    ps = known(s)
    if not allp(ps): return None
    out = ''
    for j, p in enumerate(ps):
        if isinstance(p, Lit):
            x = re.sub(re.escape(c)+'+', c, p.s)
            if isinstance(out, str) and out.endswith(c) or isinstance(out, SymStr) and last_char(out) == c and isinstance(last_char(out), str): x = x[1:] if x.startswith(c) else x
            out = catstr(out, x)
        elif isinstance(p, (Tok, Pad)) and not may_contain([p], c): out = catstr(out, SymStr(p.t))
        else:
            if isinstance(p, Rep) and not (p.n >= 1 if isinstance(p.n, int) else T.ENG.decide(cmp('>=', p.n, 1))): continue
            rest = z3.Function('text!', S, S)(zs(join(ps[j:])))
            if isinstance(out, SymStr) and not isinstance(last_char(out), str) and edge(ps[j:], 0, c) is True:
                return catstr(out, c, SymStr(z3.Function('collapse!', S, S)(rest)))
            l = (out[-1:] if isinstance(out, str) else last_char(out))
            f = 'collapse!'
            if l == c and isinstance(l, str): f = 'collapse!'; rest = z3.Function('text!', S, S)(zs(catstr(c, join(ps[j:]))))
            return catstr(out, SymStr(z3.Function(f, S, S)(rest)))
    return out
def startswith(s, x):
    ps = known(s)
    if not allp(ps): return None
    if ps and isinstance(ps[0], Lit) and ps[0].s.startswith(x): return True
    if ps and isinstance(ps[0], Tok) and not ps[0].left:
        if ps[0].kind[0] == 'w':
            if any(x.startswith(y) for y in ps[0].kind[1].get('noprefix', ())): return False
        elif len(x) > 1 and x[1] in '+-': return False          # a number has its sign first
    if not may_equal(ps, x, True): return False
    if len(x) == 1:
        c = first_char(s)
        if c is not None: return cmp('==', c, x)
    return None
def endswith(s, x):
    ps = known(s)
    if not allp(ps): return None
    if ps and isinstance(ps[-1], Lit) and len(ps[-1].s) >= len(x): return ps[-1].s.endswith(x)
    if x == '': return True
    c = last_char(s)
    if c is not None and (len(x) == 1 or cmp('==', c, x[-1]) is False): return cmp('==', c, x[-1])
    return None

# ------------------------------------------------------------------ blanks
def strip(s, left=True, right=True, chars=None):
    ps = known(s)
    if ps is None: return None
    cs = WS if chars is None else chars
    ps = list(ps)
    while left and ps:
        p = ps[0]
        if isinstance(p, Lit):
            r = p.s.lstrip(cs)
            if r: ps[0] = Lit(r); break
            ps.pop(0); continue
        if isinstance(p, Tok):
            if p.left and p.right and not (len(ps) == 1 and right): return None
            if not (p.chars & set(cs)) or chars is None:
                if p.left: 
                    if chars is not None and ' ' not in chars: return None
                    ps[0] = bare(p)
                break
            return None
        if isinstance(p, Pad) and (chars is None or ' ' in chars): ps.pop(0); continue
        if isinstance(p, Any): 
            if T.ENG.decide(SymBool(z3.Function('blank!'+cs, S, z3.BoolSort())(p.t))): ps.pop(0); continue
            if len(ps) == 1 and right: return SymStr(z3.Function('strip' if chars is None else 'strip_'+repr((chars,)), S, S)(p.t))
            ps[0] = Any(z3.Function('lstrip_'+repr((chars,) if chars is not None else ()), S, S)(p.t)); break
        if isinstance(p, Rep): 
            b = pieces(p.body)
            if not b or not solid(b): return None
            if edge(b, 0, cs) is not False:
                if p.n >= 1 if isinstance(p.n, int) else T.ENG.decide(cmp('>=', p.n, 1)): ps[:1] = pieces(zs(rep_body(p, 0)))+tailrep(p, 1)
                else: ps.pop(0)
                continue
            if p.n >= 1 if isinstance(p.n, int) else T.ENG.decide(cmp('>=', p.n, 1)): break
            ps.pop(0); continue
        if isinstance(p, Word): break
        return None
    while right and ps:
        p = ps[-1]
        if isinstance(p, Lit):
            r = p.s.rstrip(cs)
            if r: ps[-1] = Lit(r); break
            ps.pop(); continue
        if isinstance(p, Tok):
            if p.chars & set(cs) and chars is not None: return None
            if p.right:
                if chars is not None and ' ' not in chars: return None
                ps[-1] = bare(p)
            break
        if isinstance(p, Pad) and (chars is None or ' ' in chars): ps.pop(); continue
        if isinstance(p, Any):
            if T.ENG.decide(SymBool(z3.Function('blank!'+cs, S, z3.BoolSort())(p.t))): ps.pop(); continue
            ps[-1] = Any(z3.Function('rstrip_'+repr((chars,) if chars is not None else ()), S, S)(p.t)); break
        if isinstance(p, Rep):
            b = pieces(p.body)
            if not b or not solid(b): return None
            if edge(b, -1, cs) is not False:
                if p.n >= 1 if isinstance(p.n, int) else T.ENG.decide(cmp('>=', p.n, 1)): ps[-1:] = tailrep(p, 0)+pieces(zs(rep_body(p, p.n-1)))
                else: ps.pop()
                continue
            if p.n >= 1 if isinstance(p.n, int) else T.ENG.decide(cmp('>=', p.n, 1)): break
            ps.pop(); continue
        if isinstance(p, Word): break
        return None
    return join(ps)
def solid(b): return any(isinstance(p, Tok) or isinstance(p, Lit) and p.s.strip() for p in b)
def tailrep(p, j):
    """the repetition without its first (j=1) or last (j=0) part"""
    body = SymStr(p.body) if not z3.is_string_value(p.body) else p.body.as_string()
    r = repeat(p.k, subst(body, [(p.k, mkint(p.k)+1)]) if j and isinstance(body, SymStr) else body, p.n-1)
    return [] if isinstance(r, str) and not r else pieces(zs(r))
def bare(p): return piece_of(T_STRIP(p.t)) if p.t.decl().name() != 'strip' else p
T_STRIP = z3.Function('strip', S, S)
def edge(b, j, cs):
    """is the first (j=0) / last (j=-1) character of these pieces surely in cs (True), surely not (False), or unknown (None)"""
    if not b: return None
    p = b[j]
    if isinstance(p, Lit): return p.s[j] in cs
    if isinstance(p, Tok):
        if (p.left if j == 0 else p.right): return None
        return False if not (p.chars & set(cs)) else None
    if isinstance(p, Word):
        r = {w[j] in cs if w else None for w in p.alts}
        return r.pop() if len(r) == 1 else None
    if isinstance(p, Rep):
        e = edge(pieces(p.body), j, cs)
        if p.n >= 1 if isinstance(p.n, int) else T.ENG.implied(zb(cmp('>=', p.n, 1))): return e
        return e if e is not None and edge(b[1:] if j == 0 else b[:-1], j, cs) == e else None
    return None

# ------------------------------------------------------------------ lines
def merge_lists(segs):
    out = []
    for s in segs:
        if isinstance(s, list):
            if not s: continue
            if out and isinstance(out[-1], list): out[-1] = out[-1]+s; continue
        out.append(s)
    return out or [[]]
def subst_list(row, pairs):
    from . import loops
    return loops.subst_val(row, pairs)
def repeated(n, k, segs):
    """the list segs (a function of k) repeated for k = 0..n-1, as list segments"""
    from .interp import SList, Seg
    segs = merge_lists(segs); row = SList(segs=segs); cnt = row.size()
    if isinstance(cnt, int) and cnt == 0: return []
    if isinstance(n, int):
        out = []
        for j in range(n): out += subst_list(row, [(k, j)]).segs
        return out
    def get(q):
        kk, j = (q, 0) if isinstance(cnt, int) and cnt == 1 else T.int_divmod(q, cnt)
        return subst_list(row, [(k, kk)]).get(j)
    from .loops import depends
    if isinstance(cnt, int) or not depends(cnt, k): return [Seg(n*cnt, get)]
    from . import ragged
    if row.concrete(): raise Unsupported('rows')
    return [ragged.RagSeg(n, k, row)]
def split_at(ps, sep, blanks=False):
    """pieces -> list segments of the parts between separators; with sep = '\n' the separator stays with its line (readlines)"""
    out = []; cur = []
    def flush(): out.append([join(cur)]); cur.clear()
    for p in ps:
        if isinstance(p, Lit):
            parts = p.s.split('\n')
            for x in parts[:-1]: cur.append(Lit(x+'\n')); flush()
            if parts[-1]: cur.append(Lit(parts[-1]))
        elif isinstance(p, (Tok, Word, Pad, Any)): cur.append(p)
        else:
            b = pieces(p.body)
            if not allp(b): return None
            if not may_contain(b, '\n'): cur.append(p); continue
            inner = split_at(b, sep)
            if inner is None: return None
            tail = edge(b, -1, '\n')
            if tail is True and not cur: out += repeated(p.n, p.k, inner); continue
            # body = first line end, whole lines, rest without line end
            if not T.ENG.decide(cmp('>=', p.n, 1)) if not isinstance(p.n, int) else p.n < 1: continue
            if not isinstance(inner[0], list): return None
            inner = [list(x) if isinstance(x, list) else x for x in inner]
            if not isinstance(inner[-1], list): return None
            first = inner[0].pop(0); last = inner[-1].pop() if tail is not True else ''
            if inner[0] == [] and len(inner) > 1: inner = inner[1:]
            from .interp import SList
            sub = lambda v, kk: subst_list(v, [(p.k, kk)]) if isinstance(v, (SymStr, SList)) else v
            cur.append(Lit('')); out.append([catstr(join([c for c in cur if not (isinstance(c, Lit) and not c.s)]), sub(first, 0))]); cur.clear()
            out += sub(SList(segs=inner), 0).segs
            K = mkint(p.k)
            nxt = [[catstr(sub(last, K-1), sub(first, K))]]+[x for x in inner]
            sh = subst_list(SList(segs=nxt), [(p.k, K+1)])
            m = p.n-1
            if isinstance(m, int) and m == 0: pass
            elif isinstance(m, int) or T.ENG.decide(cmp('>=', m, 1)): out += repeated(m, p.k, sh.segs)
            l = sub(last, p.n-1)
            if not (isinstance(l, str) and not l): cur += pieces(zs(l))
    if cur: flush()
    return merge_lists(out)
def lines(s):
    """the lines of a text, each with its line end, as an SList"""
    from .interp import SList
    if isinstance(s, str): return SList(s.splitlines(True) if '\r' not in s and '\x0b' not in s and '\x0c' not in s else io_lines(s))
    ps = known(s)
    if not allp(ps):
        if __import__('os').environ.get('PYVC_DEBUG'): print('LINES', [str(x)[:200] for x in ps if not allp([x])])
        raise Unsupported('lines of a text of unknown structure')
    r = split_at(ps, '\n')
    if r is None: raise Unsupported('lines of this text')
    return SList(segs=r)
def io_lines(s):
    import io
    return io.StringIO(s).readlines()

# ------------------------------------------------------------------ tokens
def tokens(s):
    """s.split() as an SList, or None"""
    from .interp import SList
    t = s.t
    while t.num_args() == 1 and t.decl().name() in ('strip', 'lstrip_()', 'rstrip_()') and piece_of(t) is None: t = t.arg(0)
    ps = pieces(t)
    if not allp(ps): return None
    r = tok_split(ps)
    return None if r is None else SList(segs=r)
def tok_split(ps):
    out = []; cur = []; sealed = False      # sealed: the next piece must begin with a blank
    def flush():
        if cur: out.append([join(cur)]); cur.clear()
    for p in ps:
        if isinstance(p, Lit):
            if sealed and p.s[0] not in WS: return None
            sealed = False
            parts = re.split('['+re.escape(WS)+']+', p.s)
            if parts[0]: cur.append(Lit(parts[0]))
            if len(parts) > 1:
                flush()
                for x in parts[1:-1]: out.append([x])
                if parts[-1]: cur.append(Lit(parts[-1]))
        elif isinstance(p, Tok):
            if sealed: return None
            if p.left:
                if cur: return None
                p = Tok(T_STRIP(p.t), False, p.right, p.chars, p.kind)
            if p.right: 
                cur.append(piece_of(T_STRIP(p.t) if p.t.decl().name() != 'strip' else p.t)); sealed = 'maybe'; 
                # right padding may be absent: what follows must begin with a blank
            else: cur.append(p)
        elif isinstance(p, Pad):
            if cur: sealed = True
        elif isinstance(p, Any):
            if cur: return None
            sealed = True
            out.append(words_of(p))
        elif isinstance(p, Word):
            if sealed or any(c in WS for w in p.alts for c in w) or not all(p.alts): return None
            cur.append(p)
        else:
            b = pieces(p.body); st, en = edge(b, 0, WS), edge(b, -1, WS)
            if not any(may_contain([p], c) for c in WS) and not sealed and solid(b) and (cur or (p.n >= 1 if isinstance(p.n, int) else T.ENG.implied(zb(cmp('>=', p.n, 1))))):
                cur.append(p); continue         # part of one word
            inner = tok_split(b)
            if inner is None: return None
            if en is True and (st is True or (not cur and not sealed)): 
                if cur: flush()
                sealed = False; out += repeated(p.n, p.k, inner); continue
            if st is True:
                flush(); out += repeated(p.n, p.k, inner); sealed = True; continue
            return None
    flush()
    return merge_lists(out)
OPQ['any!word'] = {}
def words_of(p):
    """the blank-separated words of an arbitrary text, as a list segment"""
    from .interp import Seg
    n = mkint(z3.Function('any!words', S, Z)(p.t)); T.ENG.bound(n, 0)
    t = p.t
    return Seg(n, lambda k: SymStr(z3.Function('any!word', S, Z, S)(t, zi(k))))
def marker(ps, sep):
    """a part of sep that occurs in the text only within the occurrences of sep in literals (then these are all occurrences of sep)"""
    if len(sep) == 1: return sep
    def hidden(ps):
        out = []
        for p in ps:
            if isinstance(p, Lit): out.append(Lit(p.s.replace(sep, '\ue000')))
            elif isinstance(p, Rep):
                h = join(hidden(pieces(p.body))); out.append(Rep(p.t, p.k, zs(h), p.n))
            else: out.append(p)
        return out
    hp = hidden(ps)
    for n in range(1, len(sep)+1):
        for i in range(len(sep)-n+1):
            sub = sep[i:i+n]
            # sub does not overlap sep but where it is part of it, once
            if any(all(not 0 <= d+j < len(sep) or sep[d+j] == sub[j] for j in range(n)) for d in range(1-n, len(sep)) if d != i): continue
            if not may_contain(hp, sub): return sub
    return None
def leaves(ps):
    for p in ps:
        if isinstance(p, Rep): yield from leaves(pieces(p.body))
        else: yield p
def count(s, x):
    """s.count(x) where the structure gives it"""
    ps = known(s)
    if not allp(ps) or not isinstance(x, str) or marker(ps, x) is None: return None
    if len(x) == 1 and any(may_contain([q], x) for q in leaves(ps) if not isinstance(q, Lit)): return None
    def cnt(ps):
        r = 0
        for p in ps:
            if isinstance(p, Lit): r = r+p.s.count(x)
            elif isinstance(p, Rep):
                c = cnt(pieces(p.body))
                if isinstance(c, Sym) and mkint(p.k).t.decl().name() in consts(c.t): return None
                if c is None: return None
                r = r+c*p.n
        return r
    return cnt(ps)
def cut(ps, sep):
    """pieces before and after the only occurrence of sep in ps, which is in a literal; None otherwise"""
    at = [(j, p.s.find(sep)) for j, p in enumerate(ps) if isinstance(p, Lit) and sep in p.s]
    if len(at) != 1 or ps[at[0][0]].s.count(sep) != 1: return None
    if any(isinstance(p, Rep) and may_contain([p], sep) for p in ps): return None
    j, i = at[0]; x = ps[j].s
    return ps[:j]+([Lit(x[:i])] if i else []), ([Lit(x[i+len(sep):])] if i+len(sep) < len(x) else [])+ps[j+1:]
def split_lit(s, sep):
    """s.split(sep) for a separator that occurs in literals only"""
    from .interp import SList
    ps = known(s)
    if not allp(ps): return None
    mk = marker(ps, sep)
    if mk is None: return None
    out = []; cur = []; segs = []
    for p in ps:
        if isinstance(p, Lit):
            parts = p.s.split(sep)
            for x in parts[:-1]: out.append(join(cur+([Lit(x)] if x else []))); cur = []
            if parts[-1]: cur.append(Lit(parts[-1]))
        elif not may_contain([p], mk): cur.append(p)
        elif isinstance(p, Rep) and sep != '\n' and lead_only(p, sep) and p is ps[-1]:
            from .interp import Seg
            out.append(join(cur)); inner = pieces(p.body)
            rest = join(([Lit(inner[0].s[1:])] if len(inner[0].s) > 1 else [])+inner[1:])
            if isinstance(p.n, int): return SList(segs=segs+[out+[subst(rest, [(p.k, j)]) if isinstance(rest, SymStr) else rest for j in range(p.n)]])
            return SList(segs=segs+[out, Seg(p.n, lambda q, k=p.k, rest=rest: subst(rest, [(k, q)]) if isinstance(rest, SymStr) else rest)])
        elif isinstance(p, Rep) and sep != '\n' and cut(pieces(p.body), sep) is not None:
            from .interp import Seg
            if not (p.n >= 1 if isinstance(p.n, int) else T.ENG.decide(cmp('>=', p.n, 1))): continue
            pre, post = [join(x) for x in cut(pieces(p.body), sep)]
            at = lambda v, kk, k=p.k: subst(v, [(k, kk)]) if isinstance(v, SymStr) else v
            def mid(q, pre=pre, post=post, at=at): return catstr(at(post, q), at(pre, q+1))
            out.append(join(cur+pieces(zs(at(pre, 0))))); last = at(post, p.n-1); cur = [] if isinstance(last, str) and not last else pieces(zs(last))
            if isinstance(p.n, int): out += [mid(j) for j in range(p.n-1)]
            elif T.ENG.decide(cmp('>=', p.n, 2)): segs.append(out); segs.append(Seg(p.n-1, mid)); out = []
        elif (isinstance(p, Any) or isinstance(p, Tok) and p.kind[0] == 'w') and p is ps[-1] and sep != '\n':
            from .interp import Seg
            nm = 'part!'+sep; n = mkint(z3.Function(nm+'n', S, Z)(p.t)); T.ENG.bound(n, 0)
            w = SymStr(z3.Function('text!', S, S)(p.t))
            return SList(segs=segs+[out+[join(cur+[Any(z3.Function('head!', S, S)(w.t))])], Seg(n, lambda q: SymStr(z3.Function(nm, S, Z, S)(w.t, zi(q))))])
        elif sep == '\n':
            r = split_at(ps, '\n')
            if r is None: return None
            # every line without its line end; the text after the last line end is the last part
            segs = [[chop(x) for x in g] if isinstance(g, list) else mapseg(g, chop) for g in r]
            tail = edge(ps, -1, '\n')
            if tail is True: segs = segs+[['']]
            elif tail is None: return None
            return SList(segs=merge_lists(segs))
        else: return None
    out.append(join(cur))
    return SList(segs=segs+[out]) if segs else SList(out)
def lead_only(p, sep):
    b = pieces(p.body)
    return bool(b) and isinstance(b[0], Lit) and b[0].s[0] == sep and not may_contain(([Lit(b[0].s[1:])] if len(b[0].s) > 1 else [])+b[1:], sep)
def mapseg(g, f):
    from .interp import Seg
    return Seg(g.n, lambda q: f(g.get(q)))
def chop(x):
    if isinstance(x, str): return x[:-1] if x.endswith('\n') else x
    ps = known(x)
    if ps and isinstance(ps[-1], Lit) and ps[-1].s.endswith('\n'): return join(ps[:-1]+([Lit(ps[-1].s[:-1])] if len(ps[-1].s) > 1 else []))
    return x
def replace(s, a, b):
    ps = known(s)
    if not allp(ps) or not isinstance(a, str) or not isinstance(b, str) or a == '': return None
    if not may_contain(ps, a): return s
    if len(a) != 1: return None
    out = []
    for p in ps:
        if isinstance(p, Lit): out.append(p.s.replace(a, b))
        elif not may_contain([p], a): out.append(SymStr(p.t))
        elif isinstance(p, Any): out.append(SymStr(z3.Function('replaceall', S, S, S, S)(p.t, zs(a), zs(b))))
        elif isinstance(p, Pad) and a == ' ': return None
        elif isinstance(p, Rep):
            r = replace(SymStr(p.body), a, b) if not z3.is_string_value(p.body) else p.body.as_string().replace(a, b)
            if r is None: return None
            out.append(repeat(p.k, r, p.n))
        else: return None
    return catstr(*out)

# ------------------------------------------------------------------ numbers
def number(s):
    """(conv, precision, value) when the text is exactly one formatted number, possibly with blanks around it"""
    r = strip(s)
    ps = known(r) if isinstance(r, SymStr) else None
    if not ps or len(ps) != 1 or not isinstance(ps[0], Tok): return None
    return ps[0].kind
def to_int(s):
    """int(s): value, ValueError (as a string), or None when unknown"""
    k = number(s)
    if k is None: return notnum(s)
    if k[0] == 'w': return 'ValueError' if k[1].get('notnum') else None
    if k[0] == 'd': return k[2]
    if k[0] in ('e', 'r') or k[0] == 'f' and k[1] > 0: return 'ValueError'
    return None
def sure_parts(ps):
    """the parts of a text that are certainly there"""
    for p in ps:
        if isinstance(p, Rep):
            if p.n >= 1 if isinstance(p.n, int) else T.ENG.implied(zb(cmp('>=', p.n, 1))): yield from sure_parts(pieces(p.body))
        else: yield p
def isalpha(s):
    ps = known(s)
    if not allp(ps) or not ps: return None
    for p in sure_parts(ps):
        if isinstance(p, Lit) and not p.s.isalpha(): return False
        if isinstance(p, Tok) and p.kind[0] == 'd': return False
    return None
def notnum(s):
    ps = known(s)
    if not allp(ps): return None
    # a letter other than those of numbers: neither an int nor a float literal (inf, nan, infinity, underscores aside)
    if any(isinstance(p, Lit) and re.search(r'[^0-9eEinftyaINFTYA+\-._\s]', p.s) for p in sure_parts(ps)): return 'ValueError'
    t = tokens(s)
    if t is not None and t.concrete() and len(t.items) > 1: return 'ValueError'
    return None
def to_float(s):
    k = number(s)
    return notnum(s) if k is None else float_of(k)
def float_of(k):
    c, p, v = k
    if c == 'w': return 'ValueError' if p.get('notnum') else None
    if c == 'ite':
        a, b = float_of(v[0]), float_of(v[1])
        return None if not isinstance(a, (float, int, Sym)) or not isinstance(b, (float, int, Sym)) else ite(mkbool(p), a, b)
    if c == 'd': return mkreal(zr(v))
    if c == 'r' or c == 'e' and p >= 16 or c in ('g', 'n') and p >= 17: return v if isinstance(v, SymReal) else mkreal(zr(v))
    nm = {'e': 'rt_e%d', 'f': 'rt_f%d', 'g': 'rt_g%d', 'n': 'rt_g%d'}[c] % p
    eng = T.ENG
    if nm not in eng.axiom_hooks:
        q = p-1 if c in 'gn' else p
        if c in 'gn': q = max(p, 1)-1
        half = z3.Q(1, 2*10**q)
        def hook(t, half=half, rel=c != 'f'):
            x = t.arg(0); ax = z3.If(x >= 0, x, -x); lim = half*ax if rel else half
            ex = [z3.Implies(z3.ToReal(z3.ToInt(x)) == x, t == x)] if nm.startswith('rt_f') else []     # an integer is written exactly
            return [t-x <= lim, x-t <= lim]+ex
        eng.axiom_hooks[nm] = hook
    return mkreal(z3.Function(nm, R, R)(zr(v)))

# ------------------------------------------------------------------ recurrences of loops: X ++ rest
def appended(X, e):
    """rest when e is X ++ rest with rest free of X, else None"""
    if isinstance(e, SymStr):
        ps = catparts(e.t)
        if ps and ps[0].eq(X.t):
            rest = catstr(*[SymStr(p) for p in ps[1:]]) if len(ps) > 1 else ''
            if isinstance(rest, str) or X.t.decl().name() not in consts(rest.t): return rest
    return None

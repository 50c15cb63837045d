"""Frame conditions ("assigns nothing that existed before the call") by ownership.

Every query function gets the contract: it and everything it calls writes only to objects it created itself.  The verifier
computes, for every expression, the set of objects it may denote (allocation sites of this call, or BORROWED for whatever was
reachable before the call: self, its items and attributes, arguments, module globals) together with what is reachable from each
site, flow-sensitively through the re-parsed source of the function and of every repository function it reaches, and generates
one obligation per store site (assignment to an element or attribute, in-place operator, deletion, mutating method, library
function that writes into an argument): none of the objects the base may denote is borrowed.  A site whose base is definitely
borrowed is refuted, one whose base may be borrowed (or calls something unknown) is undecided."""
import ast, os, time
I, B, A, N = ('I',), ('B',), ('A',), ('N',)       # immutable / borrowed / borrowed numeric array / None
IV = frozenset([I]); BV = frozenset([B]); AV = frozenset([A]); NONE = frozenset(); NV = frozenset([N])
def imm(v): return all(a == I or a == N for a in v)
def is_b(a): return a is B or a is A or a == B or a == A or (isinstance(a, tuple) and a[0] == 'S')

class Mod:
    def __init__(self, name, tree, path): self.name = name; self.tree = tree; self.path = path; self.syms = {}
class Cls:
    def __init__(self, mod, node): self.mod = mod; self.node = node; self.name = node.name; self.ns = {}; self.bases = node.bases
class Fn:
    def __init__(self, mod, node, cls=None, env=None): self.mod = mod; self.node = node; self.cls = cls; self.env = env; self.name = getattr(node, 'name', '<lambda>')
    def qual(self): return self.mod.name+':'+(self.cls.name+'.' if self.cls else '')+self.name

VIEWF = set('asarray asanyarray ascontiguousarray asfortranarray require ravel reshape transpose squeeze atleast_1d atleast_2d atleast_3d real imag swapaxes moveaxis rollaxis broadcast_to broadcast_arrays expand_dims split array_split hsplit vsplit dsplit diagonal diag flip fliplr flipud rot90 as_strided nditer ndenumerate array frombuffer ma masked_array masked_where masked_invalid meshgrid ix_ getdata'.split())
WRITEF = set('copyto put place putmask fill_diagonal shuffle put_along_axis heappush heappop heapify insort'.split())
MUT = set('append extend insert pop remove sort reverse clear update setdefault popitem add discard fill resize put itemset partition setflags byteswap difference_update intersection_update symmetric_difference_update appendleft popleft rotate __setitem__ __delitem__ __setattr__ setfield move_to_end add_annotation'.split())
VIEWM = set('reshape ravel transpose swapaxes view squeeze diagonal values items get to_numpy __getitem__ iterrows itertuples iteritems groupby head tail xs pipe tolist __iter__ __array__ setdefault next __next__ real flat as_matrix'.split())
PUREM = set('''copy astype mean std var min max sum prod cumsum cumprod any all argmin argmax argsort round clip dot flatten repeat nonzero conj trace searchsorted ptp take compress choose tobytes tostring
 strip lstrip rstrip split rsplit splitlines lower upper title capitalize replace format join startswith endswith find rfind index count encode decode zfill ljust rjust center partition rpartition isdigit isnumeric isalpha isspace isalnum swapcase casefold expandtabs translate
 keys has_key duplicated drop drop_duplicates rename reset_index set_index sort_values sort_index dropna fillna isna isnull notna notnull to_string to_csv to_dict describe apply map applymap corr merge interpolate equals unique nunique abs diff shift rolling quantile median mode select_dtypes agg filter
 group groups span match search findall sub finditer total_seconds strftime isoformat issubset union intersection difference issuperset isdisjoint get_dtype_counts item bit_length is_integer hex as_integer_ratio most_common write writelines flush close read readline readlines seek tell __repr__ __str__ __len__ __contains__ __eq__ info
 get_loc to_list reindex loc iloc as_posix fft'''.split())
BUILT_I = set('len str int float bool complex isinstance issubclass type repr print hasattr range any all ord chr format id hash callable round pow divmod sum abs hex bin oct input bytes slice exit quit'.split())
BUILT_C = set('list tuple dict set frozenset sorted reversed enumerate zip map filter iter bytearray'.split())
LIBS = set('numpy pandas scipy re os math struct copy itertools collections io sys datetime codecs csv glob shlex string warnings time functools xarray pickle yaml traceback platform pydatview builtins ctypes subprocess operator textwrap json numbers typing matplotlib nptdms openpyxl'.split())
SCHEMA = {'TurbSimFile': dict(u=AV, uTwr=AV, y=AV, z=AV, t=AV, zTwr=AV, dt=IV, ID=IV, info=IV, zRef=IV, uRef=IV, zHub=IV, uHub=IV),
          'MannBoxFile': dict(field=AV, dy=IV, dz=IV, y0=IV, z0=IV, zMid=IV), 'CactusFile': dict(dfTime=AV, dfElem=AV, dfDS=AV), 'ROSCOPerformanceFile': dict(CP=AV, CT=AV, CQ=AV, pitch=AV, TSR=AV, WS=AV)}
ATTRS = dict(filename=IV)
MODULAR = {'FASTInputFile.fixedfile': ('weio.fast_input_file', ('FASTInputFileBase', 'EDBladeFile', 'ADBladeFile', 'ADPolarFile', 'ExtPtfmFile'))}
CACHES = {'_fixedfile': 'lazily built view of the same data (FASTInputFile.fixedfile)'}
class Frame:
    def __init__(self, fn, key): self.fn = fn; self.key = key; self.ret = NONE; self.loops = []; self.tries = []

class Frames:
    def __init__(self, repo, pkg='weio'):
        self.repo = repo; self.pkg = pkg; self.mods = {}; self.methods = {}
        root = os.path.join(repo, pkg)
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ('tests', 'examples', '__pycache__', '_tests')]
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f); n = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                    if n.endswith('.__init__'): n = n[:-9]
                    try: t = ast.parse(open(p, 'rb').read())
                    except SyntaxError: continue
                    self.mods[n] = Mod(n, t, p)
        for m in self.mods.values(): self.scan(m, m.tree.body)
    # ------------------------------------------------------------ symbols
    def scan(self, m, body):
        for s in body:
            if isinstance(s, ast.FunctionDef): m.syms[s.name] = ('fn', Fn(m, s))
            elif isinstance(s, ast.ClassDef):
                c = Cls(m, s); m.syms[s.name] = ('cls', c)
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        deco = [d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '') for d in x.decorator_list]
                        if 'setter' in deco: c.ns[x.name+'='] = Fn(m, x, c); continue
                        c.ns[x.name] = Fn(m, x, c); c.ns[x.name].deco = deco
                        self.methods.setdefault(x.name, []).append(c.ns[x.name])
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name): c.ns[t.id] = x.value
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in self.imports(m, s): m.syms[k] = v
            elif isinstance(s, (ast.Try, ast.If, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'): self.scan(m, getattr(s, f, []))
                for h in getattr(s, 'handlers', []): self.scan(m, h.body) if not any(isinstance(x, (ast.ImportFrom, ast.Import)) for x in h.body) else None
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): m.syms.setdefault(t.id, ('glob', s.value))
    def imports(self, m, s):
        if isinstance(s, ast.Import):
            for a in s.names: yield (a.asname or a.name.split('.')[0]), ('lib', a.name if a.asname else a.name.split('.')[0])
            return
        pk = m.name.split('.')
        if not m.path.endswith('__init__.py'): pk = pk[:-1]
        if s.level: base = '.'.join(pk[:len(pk)-s.level+1] + ([s.module] if s.module else []))
        else: base = s.module if s.module in self.mods or self.pkg+'.'+s.module not in self.mods else self.pkg+'.'+s.module     # stand-alone import of a sibling
        for a in s.names:
            if a.name == '*':
                if base in self.mods:
                    for k, v in list(self.mods[base].syms.items()): yield k, v
                continue
            yield (a.asname or a.name), ('from', base, a.name)
    def resolve(self, v, n=0):
        """symbol table entry -> atoms"""
        if n > 8 or v is None: return BV
        k = v[0]
        if k == 'fn': return frozenset([('fn', v[1], None)])
        if k == 'cls': return frozenset([('cls', v[1])])
        if k == 'lib': return frozenset([('mod', v[1])]) if v[1] in self.mods else frozenset([('lib', v[1])])
        if k == 'from':
            if v[1] in self.mods:
                s = self.mods[v[1]].syms.get(v[2])
                if s is not None: return self.resolve(s, n+1)
                if v[1]+'.'+v[2] in self.mods: return frozenset([('mod', v[1]+'.'+v[2])])
                return BV
            if v[1]+'.'+v[2] in self.mods: return frozenset([('mod', v[1]+'.'+v[2])])
            return frozenset([('lib', v[1]+'.'+v[2])])
        if k == 'glob':
            if isinstance(v[1], (ast.Constant, ast.JoinedStr)) or isinstance(v[1], ast.BinOp) and isinstance(v[1].left, ast.Constant) or isinstance(v[1], ast.UnaryOp): return IV
            return BV
        return BV
    def mro(self, c, seen=None):
        out = [c]
        for b in c.bases:
            for a in self.static(c.mod, b):
                if isinstance(a, tuple) and a[0] == 'cls' and a[1] is not c: out += [x for x in self.mro(a[1]) if x not in out]
        return out
    def static(self, mod, e):
        if isinstance(e, ast.Name): return self.resolve(mod.syms.get(e.id)) if e.id in mod.syms else NONE
        if isinstance(e, ast.Attribute):
            r = NONE
            for a in self.static(mod, e.value):
                if isinstance(a, tuple) and a[0] == 'mod': r |= self.resolve(self.mods[a[1]].syms.get(e.attr))
            return r
        return NONE
    def lookup(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None: ms = ms[ms.index(after)+1:] if after in ms else []
        for k in ms:
            if name in k.ns: return k.ns[name]
        return None
    def cls(self, modname, name): return self.mods[modname].syms[name][1]
    # ------------------------------------------------------------ analysis of one root
    def check(self, fn, selfcls, params='B'):
        """obligations of a query: {site: (status, why)}"""
        self.inside = {}; self.kind = {}; self.ids = {}; self.memo = {}; self.funs = set(); self.ext = set()
        args = {}
        self.t0 = time.time()
        for rnd in range(30):
            self.obl = {}; self.changed = False; self.active = []; self.done = {}
            a = [frozenset([('S', selfcls)])]
            names = [x.arg for x in fn.node.args.args][1:]
            self.call_fn(fn, a+[IV if params == 'I' else self.param(n) for n in names], {}, None)
            if not self.changed: break
        else: self.obl[('?', 0, 0)] = ('undecided', 'no fixed point')
        return self.obl
    def param(self, n): return IV
    def site(self, node, kind, inside=NONE, tag=''):
        deep = len(self.active) > 7 or sum(f.fn.node is self.fr.fn.node for f in self.active) > 1
        k = (id(node), self.fr.key if not deep else 0, tag)
        if k not in self.ids: self.ids[k] = len(self.ids)+1; self.changed = True
        s = self.ids[k]; self.kind[s] = kind; self.add(s, inside)
        return frozenset([s])
    def add(self, s, vals):
        old = self.inside.get(s, NONE); new = old | frozenset(v for v in vals if v != I and v != N)
        if new != old: self.inside[s] = new; self.changed = True
    def ins(self, vals):
        r = NONE
        for a in vals:
            if isinstance(a, int): r |= self.inside.get(a, NONE)
            elif a == B or a == A: r |= frozenset([a])
            elif isinstance(a, tuple) and a[0] == 'S': r |= BV
        return r
    def reach(self, vals):
        """everything reachable"""
        seen = set(); st = list(vals)
        while st:
            a = st.pop()
            if a in seen: continue
            seen.add(a)
            if isinstance(a, int): st += list(self.inside.get(a, ()))
            elif isinstance(a, tuple) and a[0] == 'S': st.append(B)
        return frozenset(seen)
    def where(self, node): return (os.path.relpath(self.fr.fn.mod.path, self.repo), self.fr.fn.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
    def store(self, vals, node, what, soft=False):
        """obligation: none of the objects is borrowed"""
        w = self.where(node)
        bad = [a for a in vals if is_b(a)]
        if not bad: st, why = 'discharged', ''
        else:
            must = len(bad) == len([a for a in vals if a != I and a != N]) and not soft and not any(a[0] == 'S' for a in bad)
            src = ast.unparse(node)[:120] if isinstance(node, ast.AST) else ''
            if '._' in src or 'cache' in src.lower() or 'memo' in src.lower(): must = False
            st = 'refuted' if must else 'undecided'; why = '%s line %d: %s of an object that %s before the call: %s' % (w[0], w[2], what, 'existed' if must else 'may have existed', src)
        rank = dict(discharged=0, undecided=1, refuted=2)
        old = self.obl.get(w)
        if old is None or rank[st] > rank[old[0]]: self.obl[w] = (st, why)
    def unknown(self, node, why):
        w = self.where(node)+('call',)
        if self.obl.get(w, ('discharged',))[0] == 'discharged': self.obl[w] = ('undecided', '%s line %d: %s: %s' % (w[0], w[2], why, ast.unparse(node)[:120]))
    # ---- calls
    def call_fn(self, fn, args, kw, node, star=NONE):
        self.funs.add(fn.qual())
        a = fn.node.args; env = {}
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])+a.args]
        dec = getattr(fn, 'deco', [])
        for n, v in zip(pos, args): env[n] = v
        extra = args[len(pos):]
        nd = len(a.defaults)
        for j, n in enumerate(pos):
            if n in env: continue
            if n in kw: env[n] = kw[n]
            elif star: env[n] = star
            elif j >= len(pos)-nd:
                d = a.defaults[j-(len(pos)-nd)]
                env[n] = NV if isinstance(d, ast.Constant) and d.value is None else IV if isinstance(d, (ast.Constant, ast.UnaryOp, ast.Tuple, ast.Name, ast.Attribute)) else BV
            else: env[n] = BV
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            env[x.arg] = kw.get(x.arg, IV if d is None or isinstance(d, (ast.Constant, ast.UnaryOp)) else BV)
        allkw = NONE
        for v in kw.values(): allkw |= v
        key = (id(fn.node), tuple(sorted((k, v) for k, v in ((k, tuple(sorted(map(repr, v)))) for k, v in env.items()))))
        keyh = hash(key)
        if a.vararg: env[a.vararg.arg] = None
        if a.kwarg: env[a.kwarg.arg] = None
        if keyh in self.done: return self.memo.get(keyh, NONE)
        if len(self.active) > 40 or time.time()-self.t0 > 40: self.obl[('?', 0, 0)] = ('undecided', 'analysis too large'); return BV
        self.done[keyh] = True
        outer = getattr(self, 'fr', None)
        fr = Frame(fn, keyh); self.active.append(fr); self.fr = fr
        try:
            if a.vararg:
                u = star
                for v in extra: u |= v
                env[a.vararg.arg] = self.site(fn.node, 'tuple', u, 'va')
            if a.kwarg: env[a.kwarg.arg] = self.site(fn.node, 'dict', allkw | star, 'kw')
            fr.outer = fn.env
            if isinstance(fn.node, ast.Lambda): fr.ret = self.ev(fn.node.body, env)
            else:
                gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node))
                e = self.block(fn.node.body, env)
                if e is not None: fr.ret |= IV
                if gen: fr.ret = self.site(fn.node, 'list', fr.ret | getattr(fr, 'yields', NONE), 'gen')
        finally: self.active.pop(); self.fr = outer
        old = self.memo.get(keyh, NONE)
        if not fr.ret <= old: self.memo[keyh] = old | fr.ret; self.changed = True
        return self.memo.get(keyh, NONE)
    # ---- statements
    def join(self, *es):
        es = [e for e in es if e is not None]
        if not es: return None
        out = dict(es[0])
        for e in es[1:]:
            for k, v in e.items(): out[k] = out.get(k, NONE) | v
        return out
    def block(self, body, env):
        for s in body:
            for t in self.fr.tries: t.append(dict(env))
            env = self.stmt(s, env)
            if env is None: return None
        for t in self.fr.tries: t.append(dict(env))
        return env
    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            el = self.elem(v)
            for x in t.elts: self.assign(x.value if isinstance(x, ast.Starred) else x, el if not isinstance(x, ast.Starred) else el | v, env, node)
        elif isinstance(t, ast.Subscript): self.put(t, v, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            for a in b:
                c = a[1] if isinstance(a, tuple) and a[0] == 'S' else self.objcls(a)
                if c is not None:
                    f = self.lookup(c, t.attr+'=')
                    if isinstance(f, Fn): self.call_fn(f, [frozenset([a]), v], {}, node)
            if t.attr not in CACHES: self.store(b, t, 'assignment to an attribute', soft=True)
            for a in b:
                if isinstance(a, int): self.add(a, v)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, env, node)
    def objcls(self, a):
        if isinstance(a, int):
            k = self.kind.get(a)
            if isinstance(k, tuple) and k[0] == 'obj': return k[1]
        return None
    def put(self, t, v, env):
        b = self.ev(t.value, env); k = self.ev(t.slice, env) if not isinstance(t.slice, ast.Slice) else IV
        tgt = b
        loc = isinstance(t.value, ast.Attribute) and t.value.attr in ('loc', 'iloc', 'at', 'iat', 'flat', 'ix')
        for a in b:
            c = a[1] if isinstance(a, tuple) and a[0] == 'S' else self.objcls(a)
            if c is not None:
                f = self.lookup(c, '__setitem__')
                if isinstance(f, Fn): self.call_fn(f, [frozenset([a]), k, v], {}, t)
            if isinstance(a, int):
                kd = self.kind.get(a)
                mask = isinstance(t.slice, (ast.Compare, ast.UnaryOp)) or isinstance(t.slice, ast.BinOp) and isinstance(t.slice.op, (ast.BitAnd, ast.BitOr)) or any(isinstance(x, int) and self.kind.get(x) in ('arr', 'view') for x in k)
                if kd == 'view' or kd == 'df' and mask: tgt = tgt | self.ins(frozenset([a]))
                if kd in ('list', 'dict', 'set', 'unk') or isinstance(kd, tuple): self.add(a, v)      # keys are hashable, hence never written to
        self.store(tgt, t, 'assignment to an element')
    def stmt(self, s, env):
        if isinstance(s, ast.Expr): 
            if not isinstance(s.value, ast.Constant): self.ev(s.value, env)
            return env
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                if isinstance(t, ast.Tuple) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts+s.value.elts):
                    vs = [self.ev(x, env) for x in s.value.elts]
                    for x, y in zip(t.elts, vs): self.assign(x, y, env, s)
                else: self.assign(t, v, env, s)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None: self.assign(s.target, self.ev(s.value, env), env, s)
            return env
        if isinstance(s, ast.AugAssign): return self.aug(s, env)
        if isinstance(s, ast.Return):
            if s.value is not None: self.fr.ret |= self.ev(s.value, env)
            else: self.fr.ret |= IV
            return None
        if isinstance(s, ast.Raise):
            if s.exc is not None: self.ev(s.exc, env)
            return None
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            t = self.test(s.test, env)
            yes = self.narrow(s.test, dict(env), True); no = self.narrow(s.test, dict(env), False)
            return self.join(self.block(s.body, yes) if t is not False else None, self.block(s.orelse, no) if t is not True else None)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For): el = self.elem(self.ev(s.iter, env))
            out = [dict(env)]; e = dict(env)
            for _ in range(12):
                self.fr.loops.append(([], []))
                b = dict(e)
                if isinstance(s, ast.For): self.assign(s.target, el, b, s)
                else: self.ev(s.test, b)
                r = self.block(s.body, b)
                br, co = self.fr.loops.pop(); out += br
                n = self.join(e, r, *co)
                if n == e: break
                e = n
            r = self.block(s.orelse, dict(e)) if s.orelse else e
            return self.join(r, *out)
        if isinstance(s, ast.Break):
            if self.fr.loops: self.fr.loops[-1][0].append(dict(env))
            return None
        if isinstance(s, ast.Continue):
            if self.fr.loops: self.fr.loops[-1][1].append(dict(env))
            return None
        if isinstance(s, ast.Try):
            snaps = [dict(env)]; self.fr.tries.append(snaps)
            r = self.block(s.body, dict(env)); self.fr.tries.pop()
            j = self.join(*snaps); outs = []
            if r is not None and s.orelse: r = self.block(s.orelse, r)
            outs.append(r)
            for h in s.handlers:
                e = dict(j)
                if h.name: e[h.name] = self.site(h, 'obj')
                outs.append(self.block(h.body, e))
            r = self.join(*outs)
            if s.finalbody:
                e = self.block(s.finalbody, self.join(j, r) if r is None else r)
                return None if r is None else e
            return r
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.FunctionDef):
            k = ('def', id(s), self.fr.key)
            f = self.ids.get(k)
            if f is None: f = self.ids[k] = Fn(self.fr.fn.mod, s, None, None); self.changed = True
            f.env = env; f.frame = self.fr
            env[s.name] = frozenset([('fn', f, None)])
            return env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for k, v in self.imports(self.fr.fn.mod, s): env[k] = self.resolve(v)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript): self.store(self.ev(t.value, env), t, 'deletion of an element')
                elif isinstance(t, ast.Attribute): self.store(self.ev(t.value, env), t, 'deletion of an attribute', soft=True)
            return env
        if isinstance(s, ast.Assert): self.ev(s.test, env); return env
        if isinstance(s, (ast.Pass, ast.ClassDef)): return env
        if isinstance(s, (ast.Global, ast.Nonlocal)): self.unknown(s, 'assignment outside the function'); return env
        self.unknown(s, 'statement outside the checker'); return env
    def test(self, t, env):
        """value of a condition on None, when the value is known to be None or not"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand, env); return None if r is None else not r
        if isinstance(t, ast.Name):
            return False if t.id in env and env[t.id] == NV else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and t.left.id in env:
            v = env[t.left.id]
            isn = True if v == NV else False if v and N not in v and not any(is_b(a) or a == I for a in v) else None
            if isn is None: return None
            return isn if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not isn
        return None
    def narrow(self, t, env, val):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return self.narrow(t.operand, env, not val)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and isinstance(t.args[1], ast.Name) and t.args[1].id == 'dict' and t.args[0].id in env:
            n = t.args[0].id; own = ('list', 'dict', 'set', 'tuple', 'df')        # kinds of objects created here are known
            keep = frozenset(a for a in env[n] if not isinstance(a, int) or self.kind.get(a) not in own or (self.kind[a] == t.args[1].id) == val)
            if keep: env[n] = keep
            return env
        n = None
        if isinstance(t, ast.Name): n, isnone = t.id, False if val else None
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            n = t.left.id; isnone = val if isinstance(t.ops[0], (ast.Is, ast.Eq)) else not val
        if n in env and env[n]:
            if isnone is True: env[n] = NV
            elif isnone is False and len(env[n]-NV): env[n] = env[n]-NV
        return env
    def aug(self, s, env):
        v = self.ev(s.value, env); t = s.target
        cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, 'ctx': ast.Load()}), t), env)
        nums = imm(v) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)
        if not imm(cur) and not nums:
            tgt = cur
            for a in cur:
                if isinstance(a, int) and self.kind.get(a) in ('view', 'df'): tgt = tgt | self.ins(frozenset([a]))
            self.store(tgt, s, 'in-place operation')
            for a in cur:
                if isinstance(a, int) and self.kind.get(a) not in ('arr',): self.add(a, self.ins(v))
        r = cur if not imm(cur) else self.binop(s, s.op, cur, v)
        if isinstance(t, ast.Name): env[t.id] = r if not nums else IV
        elif isinstance(t, ast.Subscript): self.put(t, r, env)
        elif isinstance(t, ast.Attribute): self.store(self.ev(t.value, env), t, 'assignment to an attribute', soft=True)
        return env
    # ---- expressions
    def elem(self, v):
        """element of a container (or slice of an array)"""
        r = NONE
        for a in v:
            if isinstance(a, int): r |= self.inside.get(a, NONE) | (frozenset([a]) if self.kind.get(a) not in ('list', 'tuple', 'dict', 'set') else NONE)
            elif a == I or a == N: r |= IV
            elif isinstance(a, tuple) and a[0] == 'S': r |= self.item(a, None)
            elif is_b(a): r |= frozenset([a])
        return r or IV
    def item(self, a, key):
        f = self.lookup(a[1], '__getitem__')
        if isinstance(f, Fn): return self.call_fn(f, [frozenset([a]), IV], {}, f.node)
        for c in self.mro(a[1]):
            sc = SCHEMA.get(c.name)
            if sc and isinstance(key, str) and key in sc: return sc[key]
        return BV
    def binop(self, node, op, l, r):
        if imm(l) and imm(r): return IV
        if isinstance(op, ast.Mod) and imm(l): return IV
        ins = NONE
        if isinstance(op, (ast.Add, ast.Mult)):
            for a in l | r:
                if isinstance(a, int) and self.kind.get(a) in ('arr',): continue
                ins |= self.ins(frozenset([a])) - AV
            known = any(a == A or isinstance(a, int) and self.kind.get(a) == 'arr' for a in l | r)
            if known: ins = NONE
        return self.site(node, 'arr' if not ins else 'unk', ins)
    def name(self, n, env):
        if n in env: return env[n]
        f = self.fr.fn
        while f is not None and f.env is not None:
            if n in f.env: return f.env[n]
            f = getattr(f, 'frame', None); f = f.fn if f is not None else None
        s = self.fr.fn.mod.syms
        if n in s: return self.resolve(s[n])
        return frozenset([('bi', n)])
    def ev(self, e, env):
        m = getattr(self, 'ev_'+type(e).__name__, None)
        if m is None: self.unknown(e, 'expression outside the checker'); return BV
        return m(e, env)
    def ev_Constant(self, e, env): return NV if e.value is None else IV
    def ev_JoinedStr(self, e, env):
        for v in e.values: self.ev(v, env)
        return IV
    def ev_FormattedValue(self, e, env): self.text(self.ev(e.value, env), e); return IV
    def ev_Name(self, e, env): return self.name(e.id, env)
    def ev_Attribute(self, e, env): return self.attr(self.ev(e.value, env), e.attr, e)
    def attr(self, v, n, node):
        r = NONE
        for a in v:
            c = a[1] if isinstance(a, tuple) and a[0] == 'S' else self.objcls(a)
            if c is not None:
                f = self.lookup(c, n)
                if isinstance(f, Fn) and f.cls is not None and f.cls.name+'.'+n in MODULAR and isinstance(a, tuple):
                    m, cs = MODULAR[f.cls.name+'.'+n]      # its contract (proved separately): one of these classes, over the same data
                    r |= frozenset(('S', self.cls(m, k)) for k in cs if k in self.mods[m].syms); continue
                if isinstance(f, Fn):
                    d = getattr(f, 'deco', [])
                    if 'property' in d or 'cached_property' in d: r |= self.call_fn(f, [frozenset([a])], {}, node)
                    elif 'staticmethod' in d: r |= frozenset([('fn', f, None)])
                    elif 'classmethod' in d: r |= frozenset([('fn', f, frozenset([('cls', c)]))])
                    else: r |= frozenset([('fn', f, frozenset([a]))])
                    continue
                if f is not None: r |= IV if isinstance(f, ast.Constant) else BV; continue
                if isinstance(a, tuple):
                    r |= ATTRS.get(n) or (frozenset([('bm', frozenset([a]), n)]) | BV if n in ('keys', 'items', 'values', 'get', 'pop', 'update', 'copy', 'setdefault', 'clear', 'popitem') or n.startswith('__') else BV)
                else: r |= self.inside.get(a, NONE) | frozenset([('bm', frozenset([a]), n)])
                continue
            if isinstance(a, tuple) and a[0] in ('lib', 'mod', 'cls', 'super', 'bi'):
                if a[0] == 'lib': r |= frozenset([('lib', a[1]+'.'+n)])
                elif a[0] == 'mod': r |= self.resolve(self.mods[a[1]].syms.get(n)) if n in self.mods[a[1]].syms else (frozenset([('mod', a[1]+'.'+n)]) if a[1]+'.'+n in self.mods else BV)
                elif a[0] == 'cls':
                    f = self.lookup(a[1], n)
                    r |= frozenset([('fn', f, frozenset([a]) if 'classmethod' in getattr(f, 'deco', []) else None)]) if isinstance(f, Fn) else (IV if isinstance(f, ast.Constant) else IV if n in ('__name__', '__doc__') else BV)
                elif a[0] == 'super':
                    f = self.lookup(a[1], n, after=a[2])
                    r |= frozenset([('fn', f, a[3])]) if isinstance(f, Fn) else frozenset([('bm', a[3], n)])
                else: r |= IV if n in ('__name__',) else frozenset([('bi', a[1]+'.'+n)])
                continue
            if a == N: continue
            if a == I: r |= frozenset([('bm', IV, n)]); continue
            if isinstance(a, tuple) and a[0] in ('fn', 'bm'): r |= IV; continue
            # a library object: attribute or method
            if n == 'columns' or n == 'index': r |= self.site(node, 'list', NONE, 'cols') if isinstance(a, int) else frozenset([a])
            elif n in ('shape', 'size', 'ndim', 'dtype', 'name', 'nbytes', 'itemsize'): r |= IV
            elif n in ('T', 'values', 'real', 'imag', 'flat', 'loc', 'iloc', 'at', 'iat', 'str', 'base', 'data') : r |= frozenset([a]) | self.ins(frozenset([a])) | frozenset([('bm', frozenset([a]), n)])
            else: r |= frozenset([('bm', frozenset([a]), n)]) | (self.ins(frozenset([a])))
        return r or IV
    def ev_Subscript(self, e, env):
        v = self.ev(e.value, env)
        if not isinstance(e.slice, ast.Slice): self.ev(e.slice, env)
        if isinstance(e.value, ast.Attribute) and e.value.attr in ('loc', 'iloc'):
            return self.site(e, 'view', frozenset(x for x in v if not (isinstance(x, tuple) and x[0] == 'bm')) | self.ins(v))
        key = e.slice.value if isinstance(e.slice, ast.Constant) else None
        r = NONE
        for a in v:
            if isinstance(a, tuple) and a[0] == 'S': r |= self.item(a, key)
            elif isinstance(a, int) and self.objcls(a) is not None:
                f = self.lookup(self.objcls(a), '__getitem__')
                r |= self.call_fn(f, [frozenset([a]), IV], {}, e) if isinstance(f, Fn) else self.inside.get(a, NONE)
            elif isinstance(a, tuple) and a[0] == 'bm': continue
            elif isinstance(a, int) and isinstance(e.slice, ast.Slice) and self.kind.get(a) in ('list', 'tuple'): r |= self.site(e, 'list', self.inside.get(a, NONE))
            elif isinstance(a, int) and self.kind.get(a) == 'df': r |= self.site(e, 'view', self.inside.get(a, NONE))
            else: r |= self.elem(frozenset([a]))
        return r or IV
    def ev_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None: self.ev(x, env)
        return IV
    def ev_Starred(self, e, env): return self.elem(self.ev(e.value, env))
    def ev_BinOp(self, e, env): return self.binop(e, e.op, self.ev(e.left, env), self.ev(e.right, env))
    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return IV if imm(v) or isinstance(e.op, ast.Not) else self.site(e, 'arr')
    def ev_BoolOp(self, e, env):
        r = NONE
        for x in e.values: r |= self.ev(x, env)
        return r
    def ev_Compare(self, e, env):
        vs = [self.ev(x, env) for x in [e.left]+e.comparators]
        if all(imm(v) for v in vs) or all(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops): return IV
        return self.site(e, 'arr')
    def ev_IfExp(self, e, env): self.ev(e.test, env); return self.ev(e.body, env) | self.ev(e.orelse, env)
    def coll(self, e, env, kind):
        u = NONE
        for x in e.elts: u |= self.ev(x, env)
        if kind == 'tuple' and imm(u): return IV
        return self.site(e, kind, u)
    def ev_List(self, e, env): return self.coll(e, env, 'list')
    def ev_Tuple(self, e, env): return self.coll(e, env, 'tuple')
    def ev_Set(self, e, env): return self.coll(e, env, 'set')
    def ev_Dict(self, e, env):
        u = NONE
        for k, x in zip(e.keys, e.values): u |= self.ev(x, env) if k is not None else self.ins(self.ev(x, env)); k is not None and self.ev(k, env)
        return self.site(e, 'dict', u)
    def comp(self, e, env, elts, kind):
        env = dict(env)
        for _ in range(2):
            for g in e.generators:
                self.assign(g.target, self.elem(self.ev(g.iter, env)), env, e)
                for c in g.ifs: self.ev(c, env)
            u = NONE
            for x in elts: u |= self.ev(x, env)
        return self.site(e, kind, u)
    def ev_ListComp(self, e, env): return self.comp(e, env, [e.elt], 'list')
    def ev_SetComp(self, e, env): return self.comp(e, env, [e.elt], 'set')
    def ev_GeneratorExp(self, e, env): return self.comp(e, env, [e.elt], 'list')
    def ev_DictComp(self, e, env): return self.comp(e, env, [e.key, e.value], 'dict')
    def ev_Lambda(self, e, env):
        k = ('lam', id(e), self.fr.key); f = self.ids.get(k)
        if f is None: f = self.ids[k] = Fn(self.fr.fn.mod, e); self.changed = True
        f.env = env; f.frame = self.fr
        return frozenset([('fn', f, None)])
    def ev_Yield(self, e, env):
        if e.value is not None: self.fr.yields = getattr(self.fr, 'yields', NONE) | self.ev(e.value, env)
        return IV
    def ev_YieldFrom(self, e, env): self.fr.yields = getattr(self.fr, 'yields', NONE) | self.elem(self.ev(e.value, env)); return IV
    def ev_NamedExpr(self, e, env): v = self.ev(e.value, env); env[e.target.id] = v; return v
    def ev_Await(self, e, env): return self.ev(e.value, env)
    def text(self, v, node):
        """str()/repr()/format of a value: repository __repr__/__str__ are contracts of their own"""
    def callbacks(self, vals, node):
        for a in vals:
            if isinstance(a, tuple) and a[0] == 'fn': self.call_fn(a[1], ([a[2]] if a[2] is not None else [])+[BV]*4, {}, node)
    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []; star = NONE; kw = {}
        for x in e.args:
            if isinstance(x, ast.Starred): star |= self.elem(self.ev(x.value, env))
            else: args.append(self.ev(x, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None: star |= self.ins(v)
            else: kw[k.arg] = v
        allv = star
        for v in args+list(kw.values()): allv |= v
        r = NONE
        kwc = {k.arg: k.value.value for k in e.keywords if k.arg and isinstance(k.value, ast.Constant)}
        hasfn = any(isinstance(a, tuple) and a[0] in ('fn', 'bm', 'lib', 'cls', 'bi') for a in f)
        for a in f:
            if not isinstance(a, tuple): 
                if self.objcls(a) is not None:
                    g = self.lookup(self.objcls(a), '__call__')
                    if isinstance(g, Fn): r |= self.call_fn(g, [frozenset([a])]+args, kw, e, star)
                elif not hasfn: r |= self.site(e, 'unk', self.reach(allv)-IV-NV)
                continue
            k = a[0]
            if k == 'fn':
                g = a[1]; pre = [a[2]] if a[2] is not None else []
                r |= self.call_fn(g, pre+args, kw, e, star)
            elif k == 'cls':
                s = self.site(e, ('obj', a[1])); g = self.lookup(a[1], '__init__')
                if isinstance(g, Fn): self.call_fn(g, [s]+args, kw, e, star)
                else: self.add(next(iter(s)), allv)
                r |= s
            elif k == 'lib': r |= self.lib(a[1], e, args, kw, star, allv, kwc, env)
            elif k == 'bi': r |= self.builtin(a[1], e, args, kw, star, allv, env)
            elif k == 'bm': r |= self.method(a[1], a[2], e, args, kw, star, allv, kwc)
            elif is_b(a):
                if hasfn: continue
                self.unknown(e, 'call of an unknown function'); r |= BV
            elif a == I or a == N: r |= IV
        return r or IV
    def lib(self, name, e, args, kw, star, allv, kwc, env):
        top = name.split('.')[0]; n = name.split('.')[-1]
        if top not in LIBS:
            if any(is_b(x) for x in self.reach(allv)): self.unknown(e, 'call of external function '+name)
        else: self.ext.add(top)
        self.callbacks(allv, e)
        if 'out' in kw: self.store(kw['out'], e, 'write through out=')
        if n in WRITEF or name.endswith('.at') and top == 'numpy':
            if args: self.store(args[0], e, 'write by %s' % name)
        if n == 'nan_to_num' and kwc.get('copy') is False and args: self.store(args[0], e, 'write by '+name)
        if name in ('copy.deepcopy',): return self.site(e, 'unk')
        if name in ('copy.copy',): return self.site(e, 'unk', self.ins(args[0]) if args else NONE)
        if top in ('numpy', 'scipy'):
            if n == 'array' and kwc.get('copy') is not False: return self.site(e, 'arr')
            if n in VIEWF or n == 'nan_to_num' and kwc.get('copy') is False:
                fresh = self.site(e, 'arr')
                return fresh | frozenset(x for x in allv | self.ins(allv) if x != I and x != N and not (isinstance(x, tuple) and x[0] == 'fn'))
            return self.site(e, 'arr')
        if top == 'pandas':
            if n in ('DataFrame', 'Series', 'Index'):
                return self.site(e, 'df' if n == 'DataFrame' else 'view', frozenset(x for x in self.reach(allv) if x != I and x != N) if kwc.get('copy') is not True else NONE)
            return self.site(e, 'df')
        if top in ('itertools', 'collections', 'functools', 'operator'): return self.site(e, 'unk', self.reach(allv)-IV-NV)
        return self.site(e, 'unk')
    def builtin(self, n, e, args, kw, star, allv, env):
        if n == 'super':
            fr = self.fr; slf = args[1] if len(args) > 1 else env.get(fr.fn.node.args.args[0].arg if fr.fn.node.args.args else '', BV)
            r = NONE
            for s in slf:
                c = s[1] if isinstance(s, tuple) and s[0] == 'S' else self.objcls(s)
                if c is not None and fr.fn.cls is not None: r |= frozenset([('super', c, fr.fn.cls, frozenset([s]))])
            return r or BV
        if n in ('setattr', 'delattr'): self.store(args[0], e, n, soft=True); return IV
        if n == 'getattr':
            if len(e.args) > 1 and isinstance(e.args[1], ast.Constant): return self.attr(args[0], e.args[1].value, e) | (args[2] if len(args) > 2 else NONE)
            return self.ins(args[0]) | BV
        if n in ('vars',): return frozenset(allv)
        if n in ('min', 'max', 'next', 'sum'):
            self.callbacks(allv, e); return self.elem(allv) | (allv if len(args) > 1 else NONE)
        if n == 'open': return self.site(e, 'unk')
        if n in BUILT_C:
            self.callbacks(allv, e)
            ins = self.ins(allv)
            if n in ('map', 'filter'):
                ins = self.ins(frozenset(x for x in allv if not (isinstance(x, tuple) and x[0] in ('fn', 'bi', 'lib', 'cls'))))
            el = NONE
            for v in args+[star]: el |= self.elem(v) if v else NONE
            if n in ('enumerate', 'zip'): return self.site(e, 'list', self.site(e, 'tuple', el, 'pair'))
            return self.site(e, 'list' if n not in ('dict', 'set') else n, ins | el)
        if n in BUILT_I or n.split('.')[0] in ('str', 'float', 'int', 'bytes') or n[:1].isupper(): return IV
        if n.split('.')[0] in ('dict', 'list', 'set') and '.' in n:     # unbound method
            return self.method(args[0] if args else BV, n.split('.')[1], e, args[1:], kw, star, allv, {})
        if any(is_b(x) for x in self.reach(allv)): self.unknown(e, 'call of unknown function '+n); return BV
        return self.site(e, 'unk', self.reach(allv)-IV-NV)
    def method(self, recv, n, e, args, kw, star, allv, kwc):
        self.callbacks(allv, e)
        if imm(recv): return IV if n not in ('split', 'splitlines', 'rsplit', 'findall', 'partition') else self.site(e, 'list')
        kinds = {self.kind.get(a) for a in recv if isinstance(a, int)}
        objs = [a for a in recv if isinstance(a, int) and self.kind.get(a) == 'obj']
        if kwc.get('inplace') is True or 'inplace' in kw and kwc.get('inplace') is not False:
            self.store(recv | self.ins(recv), e, 'in-place method')
        if 'out' in kw: self.store(kw['out'], e, 'write through out=')
        r = NONE; known = False
        # repository classes with a method of that name (the receiver may be one of them)
        if any(a == B for a in recv) and n in self.methods and n not in ('keys', 'values', 'items', 'get', 'read', 'write', 'update', 'copy', 'append', 'pop', 'split', 'close', 'insert', 'add', 'index'):
            known = True
            if n in ('toDataFrame', '_toDataFrame', '__repr__', '__str__'): r |= self.site(e, 'unk', BV)      # a contract of its own
            else:
                for g in self.methods[n]:
                    d = getattr(g, 'deco', [])
                    if 'property' in d: continue
                    if len([x for x in g.node.args.args]) < len(args)+(0 if 'staticmethod' in d else 1) and not g.node.args.vararg: continue
                    r |= self.call_fn(g, ([] if 'staticmethod' in d else [frozenset([('S', g.cls)])])+args, kw, e, star)
        if n in MUT:
            if n not in ('put', 'partition') or not kinds <= {None}: pass
            self.store(recv, e, 'mutating method .%s()' % n)
            for a in recv:
                if isinstance(a, int) and self.kind.get(a) != 'arr':
                    self.add(a, (allv if n not in ('extend', 'update') else self.elem(allv) | self.ins(allv)))
            return r | self.elem(recv) | (allv-IV if n == 'setdefault' else NONE) if n in ('pop', 'popitem', 'popleft', 'setdefault') else IV
        if n in VIEWM:
            if n in ('items', 'iterrows', 'itertuples', 'values', 'tolist', 'groupby', 'iteritems') : 
                el = self.elem(recv) | (self.ins(recv) if n not in ('items', 'values') or not all(self.kind.get(a) == 'dict' for a in recv) else NONE)
                if n in ('items', 'iterrows', 'groupby', 'iteritems'): el = self.site(e, 'tuple', el, 'pair')
                return r | self.site(e, 'list', el) | (recv & AV if n not in ('items', 'iterrows', 'groupby', 'iteritems') else NONE)
            return r | recv | self.ins(recv) | (allv-IV if n == 'get' else NONE)
        if n == 'copy':
            if recv <= AV or all(isinstance(a, int) and self.kind.get(a) in ('arr', 'df', 'view') or a == A for a in recv): return r | self.site(e, 'arr' if kinds <= {'arr'} else 'df')
            return r | self.site(e, 'unk', self.ins(recv))
        if n == 'astype' and kwc.get('copy') is False: return r | recv | self.ins(recv) | self.site(e, 'arr')
        if n in PUREM:
            if any(k in ('df', 'view') for k in kinds): return r | self.site(e, 'view', self.ins(recv) if n in ('drop', 'rename', 'reset_index', 'set_index', 'filter', 'select_dtypes', 'reindex') else NONE)
            if n in ('apply', 'agg', 'map', 'merge', 'reindex', 'drop', 'rename', 'reset_index', 'set_index', 'sort_values', 'filter'): return r | self.site(e, 'view', self.ins(recv))
            return r | self.site(e, 'arr')
        if known: return r
        if all(isinstance(a, int) for a in recv) and not any(is_b(x) for x in self.reach(recv | allv)): return self.site(e, 'unk', self.reach(allv | recv)-IV-NV-recv)
        self.unknown(e, 'unknown method .%s()' % n); return BV

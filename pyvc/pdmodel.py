"""pandas.DataFrame as blocks of columns (2-D arrays with a list of labels each).

Facts modelled (checked against pandas 2.1.4 by the run-time layer): a frame built from a 2-D array shares its memory, one
built from a dictionary or list copies; `df[x].values` and `.values` of a single block are views; `df[x] = v` replaces the
column by a copy of v without writing through; unknown labels raise KeyError; wrong label counts raise ValueError."""
import z3
from . import terms as T, nd
from .terms import *
from .engine import PyRaise
from . import interp as I
from .interp import SList, Seg, Builtin, TypeModel, ModelModule, to_seq, truth, equal, cat

def labels_of(x):
    if isinstance(x, Index): return x.labels
    if isinstance(x, nd.Arr): return to_seq(x)
    return to_seq(x)
class Index:
    """column labels"""
    _vc_model = True
    def __init__(self, labels): self.labels = labels
    def vc_seq(self): return self.labels
    def vc_len(self): return self.labels.size()
    def vc_truth(self): raise PyRaise(ValueError('truth of an index'))
    def vc_getitem(self, i):
        r = I.INTERP.getitem(self.labels, i)
        return Index(r) if isinstance(i, slice) else r
    def vc_contains(self, a): return I.INTERP.contains(a, self.labels)
    def vc_getattr(self, n):
        if n == 'values': return self
        if n in ('tolist', 'to_list'): return Builtin(lambda: self.labels.copy(), n)
        if n == 'size': return self.labels.size()
        if n == 'shape': return (self.labels.size(),)
        if n == 'name': return None
        if n == 'duplicated': return Builtin(lambda keep='first': Dup(self, keep), n)
        if n == 'copy': return Builtin(lambda: Index(self.labels.copy()), n)
        raise Unsupported('Index.'+n)
    def vc_setattr(self, n, v):
        if n != 'name': raise Unsupported('Index.%s = ' % n)
    def vc_subst(self, f): return Index(f(self.labels))
class Dup:
    """columns.duplicated() as a mask; only its negation is used"""
    _vc_model = True
    def __init__(self, index, keep, neg=False): self.index = index; self.keep = keep; self.neg = neg
    def vc_unop(self, op):
        if op == 'Invert': return Dup(self.index, self.keep, not self.neg)
        raise Unsupported('unary %s of duplicated()' % op)
def distinct(labels):
    """the labels are provably pairwise different"""
    if labels.concrete():
        its = labels.items
        return all(tb_false(equal(its[a], its[b])) for a in range(len(its)) for b in range(a))
    h = getattr(I.INTERP, 'distinct_labels', None)
    return bool(h and h(labels))
def tb_false(e):
    if e is False: return True
    if e is True: return False
    return T.ENG.check(zb(e)) == z3.unsat

METHODS = {}      # trusted methods added by a contract
class DF:
    _vc_model = True
    def __init__(self, blocks, nrows): self.blocks = blocks; self.nrows = nrows
    def _set(self, blocks):
        old = self.blocks
        T.ENG.log(('df', id(self), self), lambda: setattr(self, 'blocks', old))
        self.blocks = blocks
    # ---------------------------------------------------------- structure
    def labels(self):
        r = SList([])
        for l, a in self.blocks: r = cat(r, l)
        return r
    @property
    def ncols(self):
        n = 0
        for l, a in self.blocks: n = n+a.shape[1]
        return n
    def values(self):
        if len(self.blocks) == 1: return self.blocks[0][1]
        if not self.blocks: return nd.np_zeros((self.nrows, 0))
        return nd.np_concat(SList([a for l, a in self.blocks]), 1)
    def vc_truth(self): raise PyRaise(ValueError('the truth value of a DataFrame is ambiguous'))
    def vc_len(self): return self.nrows
    def vc_seq(self): return self.labels()
    def vc_instance(self, t): return False
    def find(self, key, forks=True):
        """(block number, column) or None"""
        hits = []
        for b, (l, a) in enumerate(self.blocks):
            for seg in l.segs:
                if not isinstance(seg, list):
                    hit = getattr(I.INTERP, 'find_label', None)
                    r = hit(self, b, key) if hit else None
                    if r is None: raise Unsupported('look-up of a column among symbolic labels')
                    return r
        for b, (l, a) in enumerate(self.blocks):
            for j, x in enumerate(l.items):
                e = equal(x, key)
                if e is True: hits.append((b, j))
                elif e is not False:
                    if not forks: raise Unsupported('symbolic label')
                    if truth(e): hits.append((b, j))
        if len(hits) > 1: raise Unsupported('duplicate column label')
        return hits[0] if hits else None
    def vc_contains(self, key): return self.find(key) is not None
    def column(self, b, j):
        return self.blocks[b][1].view((slice(None), j), check=False)
    def vc_getitem(self, key):
        if isinstance(key, (str, SymStr)):
            p = self.find(key)
            if p is None: raise PyRaise(KeyError(key))
            return Series(self.column(*p))
        if isinstance(key, (SList, Index)):
            ks = labels_of(key).items; cols = []
            for k in ks:
                p = self.find(k)
                if p is None: raise PyRaise(KeyError(k))
                cols.append((SList([k]), self.column(*p).copy().reshape(self.nrows, 1)))
            return DF(cols, self.nrows)
        raise Unsupported('DataFrame[%s]' % type(key).__name__)
    def vc_setitem(self, key, val):
        if isinstance(key, (str, SymStr)): return self.put(key, val)
        if isinstance(key, (SList, Index)):
            ks = labels_of(key).items
            if isinstance(val, DF): val = val.values()
            v = nd.asarray(val)
            if v.ndim == 0:
                for k in ks: self.put(k, val)
                return
            if v.ndim == 1: raise Unsupported('1-d value for several columns')
            if not truth(I.tb(cmp('==', v.shape[1], len(ks)))): raise PyRaise(ValueError('Columns must be same length as key'))
            for j, k in enumerate(ks): self.put(k, v.view((slice(None), j)))
            return
        raise Unsupported('DataFrame[%s] = ' % type(key).__name__)
    def col_of(self, val):
        if isinstance(val, Series): val = val.arr
        v = nd.asarray(val)
        if v.ndim == 2:
            if not truth(I.tb(cmp('==', v.shape[1], 1))): raise PyRaise(ValueError('Expected a 1D array'))
            v = v.view((slice(None), 0))
        if v.ndim == 0:
            x = v.snap()(()); code = v.code
            return nd.new((self.nrows, 1), lambda idx: x, code)
        if v.ndim != 1: raise PyRaise(ValueError('Expected a 1D array'))
        if not self.blocks: self.nrows = v.shape[0]
        elif not truth(I.tb(cmp('==', v.shape[0], self.nrows))): raise PyRaise(ValueError('Length of values does not match length of index'))
        f = v.snap()
        return nd.new((self.nrows, 1), lambda idx: f((idx[0],)), v.code)
    def put(self, key, val):
        c = self.col_of(val)
        p = self.find(key)
        if p is None: self._set(self.blocks+[(SList([key]), c)]); return
        b, j = p; l, a = self.blocks[b]; its = l.items
        new = []
        if j > 0: new.append((SList(its[:j]), a.view((slice(None), slice(0, j)))))
        new.append((SList([its[j]]), c))
        if j < len(its)-1: new.append((SList(its[j+1:]), a.view((slice(None), slice(j+1, len(its))))))
        self._set(self.blocks[:b]+new+self.blocks[b+1:])
    def rename(self, columns=None, inplace=False, **k):
        if k or columns is None or isinstance(columns, dict): raise Unsupported('DataFrame.rename of this kind')
        from . import libs
        blocks = [(libs.b_map(columns, l), a) for l, a in self.blocks]
        if inplace: self._set(blocks); return None
        return DF([(l, a.copy()) for l, a in blocks], self.nrows)
    def insert(self, loc, column, value, allow_duplicates=False):
        c = self.col_of(value)
        if not distinct(cat(self.labels(), SList([column]))): raise Unsupported('insertion of a label that may exist')
        if loc == 0: self._set([(SList([column]), c)]+self.blocks); return
        raise Unsupported('DataFrame.insert inside the table')
    def vc_getattr(self, n):
        if n == 'values': return self.values()
        if n == 'columns': return Index(self.labels())
        if n == 'shape': return (self.nrows, self.ncols)
        if n == 'size': return self.nrows*self.ncols
        if n == 'index': return Index(to_seq(I.SRange(0, self.nrows, 1)))
        if n == 'loc': return Loc(self)
        if n == 'iloc': return ILoc(self)
        if n == 'copy': return Builtin(lambda deep=True: DF([(l.copy(), a.copy() if deep else a) for l, a in self.blocks], self.nrows), n)
        if n == 'keys': return Builtin(lambda: Index(self.labels()), n)
        if n == 'insert': return Builtin(self.insert, n)
        if n == 'rename': return Builtin(self.rename, n)
        if n in ('to_numpy',): return Builtin(lambda: self.values(), n)
        if n == 'empty': return orb(cmp('==', self.nrows, 0), cmp('==', self.ncols, 0))
        if n in METHODS: return Builtin(lambda *a, **k: METHODS[n](self, *a, **k), n)
        raise Unsupported('DataFrame.'+n)
    def vc_setattr(self, n, v):
        if n == 'columns':
            ls = labels_of(v)
            if not truth(I.tb(cmp('==', ls.size(), self.ncols))): raise PyRaise(ValueError('Length mismatch'))
            if len(self.blocks) == 1: self._set([(ls.copy(), self.blocks[0][1])]); return
            if ls.concrete():
                out = []; its = ls.items; o = 0
                for l, a in self.blocks:
                    m = a.shape[1]
                    if not isinstance(m, int): raise Unsupported('column labels')
                    out.append((SList(its[o:o+m]), a)); o += m
                self._set(out); return
            raise Unsupported('column labels of several blocks')
        if n == 'index': return
        raise Unsupported('DataFrame.%s = ' % n)
    def __repr__(self): return 'DF(%s x %s)' % (self.nrows, self.ncols)
class Series:
    """one column; only its values are modelled"""
    _vc_model = True
    def __init__(self, arr): self.arr = arr
    def vc_getattr(self, n):
        if n == 'values': return self.arr
        if n == 'to_numpy': return Builtin(lambda: self.arr, n)
        if n == 'tolist': return Builtin(lambda: to_seq(self.arr), n)
        if n == 'shape': return self.arr.shape
        if n == 'copy': return Builtin(lambda: Series(self.arr.copy()), n)
        raise Unsupported('Series.'+n)
    def vc_len(self): return self.arr.shape[0]
    def vc_seq(self): return self.arr.vc_seq()
    def vc_array(self): return self.arr
    def vc_getitem(self, i):
        if isinstance(i, (int, SymInt)) and not isinstance(i, bool):
            if truth(cmp('<', i, 0)): raise PyRaise(KeyError(i))
            if not truth(I.tb(cmp('<', i, self.arr.shape[0]))): raise PyRaise(KeyError(i))
            return self.arr.vc_getitem(i)
        raise Unsupported('Series[%s]' % type(i).__name__)
    def vc_binop(self, op, a, b):
        u = lambda x: x.arr if isinstance(x, Series) else x
        return Series(nd.binop(op, u(a), u(b)))
class Loc:
    _vc_model = True
    def __init__(self, df): self.df = df
    def vc_getitem(self, key):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None):
            k = key[1]
            if isinstance(k, Dup) and k.neg:
                if distinct(self.df.labels()): return DF([(l.copy(), a.copy()) for l, a in self.df.blocks], self.df.nrows)
                raise Unsupported('column labels that may repeat')
            if isinstance(k, (str, SymStr, SList, Index)): return self.df.vc_getitem(k)
        raise Unsupported('DataFrame.loc')
class ILoc:
    _vc_model = True
    def __init__(self, df): self.df = df
    def vc_getitem(self, key):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and not isinstance(key[1], slice) and isinstance(key[1], (int, SymInt)):
            return Series(self.df.values().view(key))
        raise Unsupported('DataFrame.iloc')

def make(data=None, columns=None, index=None, dtype=None, copy=None):
    if index is not None or dtype is not None: raise Unsupported('DataFrame with index or dtype')
    if isinstance(data, DF):
        if columns is not None: raise Unsupported('DataFrame of a DataFrame')
        return DF(list(data.blocks), data.nrows)
    if data is None:
        if columns is None: return DF([], 0)
        ls = labels_of(columns)
        return DF([(ls.copy(), nd.np_zeros((0, ls.size())))], 0)
    if isinstance(data, dict):
        if columns is not None: raise Unsupported('DataFrame of a dictionary with columns')
        df = DF([], 0)
        for k, v in data.items(): df.put(k, v)
        return df
    if isinstance(data, (Series,)): data = data.arr
    shared = isinstance(data, nd.Arr)
    a = nd.asarray(data)
    if a.ndim == 1:
        f = a.snap(); a = nd.new((a.shape[0], 1), lambda idx: f((idx[0],)), a.code)
    if a.ndim != 2: raise PyRaise(ValueError('Must pass 2-d input'))
    if copy: a = a.copy()
    if columns is None: ls = to_seq(I.SRange(0, a.shape[1], 1))
    else:
        ls = labels_of(columns)
        if not truth(I.tb(cmp('==', ls.size(), a.shape[1]))): raise PyRaise(ValueError('columns passed do not match the data'))
    return DF([(ls.copy(), a)], a.shape[0])

def install(it):
    t = TypeModel('DataFrame', make, lambda x: isinstance(x, DF))
    it.libs['pandas'] = ModelModule('pandas', dict(DataFrame=t, Index=Builtin(lambda x: Index(labels_of(x)), 'Index')))

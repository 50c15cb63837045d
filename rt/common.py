"""Run-time contract layer: shared helpers.

Runs under /opt/venv/bin/python (the interpreter the repository is installed in).  Every property module defines
    cases(rng, tier) -> iterator of JSON-able dicts
    run(case)        -> returns normally if the contract holds on that input, raises otherwise
Everything is written inside a scratch directory that run.py creates and removes."""
import os, sys, json, warnings, signal, traceback, hashlib
import numpy as np
warnings.simplefilter('ignore')

class Fail(Exception):
    """The observable contract does not hold on this input."""

class Skip(Exception):
    """The case is outside the contract's precondition."""

def check(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)

def raises(fn, *excs, msg=''):
    """fn() must raise one of excs (any Exception if none given)."""
    try:
        r = fn()
    except excs or (Exception,):
        return
    except BaseException as e:
        raise Fail('%s: expected %s, got %s: %s' % (msg, [x.__name__ for x in excs], type(e).__name__, str(e)[:200]))
    raise Fail('%s: expected an exception, returned %r' % (msg, type(r).__name__))

def same(a, b):
    """bit-identical arrays, NaN equal to NaN"""
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f' and b.dtype.kind == 'f')

def close(a, b, tol):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape: return False
    return bool(np.all(np.abs(a-b) <= tol))

def worst(a, b, tol):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape: return 'shape %s vs %s' % (a.shape, b.shape)
    d = np.abs(a-b)-tol
    d = np.where(np.isnan(d), np.inf, d)
    i = np.unravel_index(int(np.argmax(d)), d.shape) if d.size else ()
    return 'at %s: got %r expected %r tol %r' % (i, a[i], b[i], (np.broadcast_to(tol, a.shape)[i]))

_n = [0]
def scratch(name):
    """fresh path inside the scratch directory"""
    _n[0] += 1
    d = os.path.join(os.environ['RT_SCRATCH'], 'd%d' % _n[0])
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)

def rng_of(case):
    return np.random.default_rng(case['seed'])

def freeze(o, depth=0):
    """Deep, order-sensitive, type-aware snapshot of plain data / arrays / data frames / library objects."""
    import pandas as pd
    if depth > 12: return '...'
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('arrO', o.shape, tuple(freeze(x, depth+1) for x in o.ravel().tolist()))
        return ('arr', str(o.dtype), o.shape, hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest())
    if isinstance(o, pd.DataFrame):
        return ('df', tuple(map(str, o.columns)), freeze(np.asarray(o.index), depth+1), tuple(freeze(o.iloc[:, i].values, depth+1) for i in range(o.shape[1])))
    if isinstance(o, pd.Series):
        return ('series', freeze(o.values, depth+1))
    if isinstance(o, pd.Index):
        return ('index', tuple(map(str, o)))
    if isinstance(o, dict):
        body = tuple((str(k), freeze(v, depth+1)) for k, v in o.items())
        extra = tuple((k, freeze(v, depth+1)) for k, v in sorted(vars(o).items())) if hasattr(o, '__dict__') else ()
        return ('dict', type(o).__name__, body, extra)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(x, depth+1) for x in o))
    if isinstance(o, float):
        return 'nan' if o != o else repr(o)
    if isinstance(o, (int, str, bytes, bool, type(None), np.generic, complex)):
        return repr(o)
    if callable(o): return ('callable', getattr(o, '__name__', type(o).__name__))
    if hasattr(o, '__dict__'):
        return ('obj', type(o).__name__, tuple((k, freeze(v, depth+1)) for k, v in sorted(vars(o).items())))
    return ('opaque', type(o).__name__)

def fdiff(a, b, path=''):
    """first differing place between two frozen snapshots"""
    if a == b: return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return fdiff(x, y, path+'/'+(str(a[0]) if i and isinstance(a[0], str) and len(a) == 2 else str(i)))
    return '%s: %s -> %s' % (path, str(a)[:150], str(b)[:150])

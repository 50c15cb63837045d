"""C10: dictionary semantics of OpenFAST input file objects."""
import copy
import numpy as np
from common import *
LABS = ['Alpha', 'alpha', 'ALPHA', 'Beta', 'Gamma(1)', 'gamma(1)', 'x', 'X', 'Delta_2', 'DELTA_2', 'OutList', 'Eta', 'zeta', '-', '']

def mk(case):
    from weio.fast_input_file import FASTInputFileBase, FASTInputFile
    r = rng_of(case)
    o = FASTInputFileBase()
    data = []
    for i in range(case['n']):
        d = {'value': None, 'label': '', 'isComment': False, 'descr': 'd%d' % i, 'tabType': 0}
        if r.integers(4) == 0: d['isComment'] = True; d['value'] = '--- comment %d' % i; d['label'] = '' if r.integers(2) else LABS[int(r.integers(len(LABS)))]
        else:
            d['label'] = LABS[int(r.integers(len(LABS)))]
            d['value'] = [i*1.5, i, True, 'word%d' % i, '"q %d"' % i, [1, i]][int(r.integers(6))]
        data.append(d)
    o.data = copy.deepcopy(data)
    if case.get('wrap'):
        w = FASTInputFile(); w.basefile = o
        return w, o, data
    return o, o, data

def find(model, key): return [i for i, d in enumerate(model) if d['label'].lower() == key.lower()]

def run(case):
    r = rng_of(dict(seed=case['seed']+1))
    f, o, model = mk(case)
    new = lambda: {'value': None, 'label': '', 'isComment': False, 'descr': '', 'tabType': 0}
    if case['kind'] == 'nofile': o.filename = None
    else: o.filename = 'deck.dat'
    def agree(what):
        check(len(o.data) == len(model), '%s: %d entries, expected %d', what, len(o.data), len(model))
        for i, (a, b) in enumerate(zip(o.data, model)):
            check(freeze(a) == freeze(b), '%s: entry %d is %s, expected %s', what, i, a, b)
    for step in range(case['steps']):
        op = case['op'] if case.get('op') else ['get', 'set', 'add', 'iter', 'keys', 'getIDs', 'table', 'comment', 'partial'][int(r.integers(9))]
        key = (LABS+['Missing', 'eta ', 'al'])[int(r.integers(len(LABS)+3))]
        if r.integers(3) == 0: key = key.swapcase()
        I = find(model, key)
        if op == 'get':
            if I: check(freeze(f[key]) == freeze(model[I[0]]['value']), 'get %r', key)
            else: raises(lambda: f[key], KeyError, msg='get missing %r' % key)
        elif op == 'set':
            v = [step, 2.5*step, 'v%d' % step, False, [step], np.arange(3)][int(r.integers(6))]
            if I:
                f[key] = v
                for i in I: model[i]['value'] = v
            else: raises(lambda: f.__setitem__(key, v), KeyError, msg='set missing %r' % key)
        elif op == 'add':
            kw = {} if r.integers(2) else dict(descr='new descr %d' % step)
            if r.integers(2): o.addKeyVal(key, step, **kw)
            else: o.addValKey(step, key, **kw)
            d = model[I[0]] if I else new()
            d['label'] = key; d['value'] = step; d.update(kw)
            if not I: model.append(d)
        elif op == 'iter':
            got = []
            for d in f:
                got.append(d); check(len(got) <= len(model), 'iteration does not stop')
            check(len(got) == len(model), 'iteration visits %d of %d entries', len(got), len(model))
            check(all(g is d for g, d in zip(got, o.data)), 'iteration order')
        elif op == 'partial':
            for n, d in enumerate(f):
                if n >= 1: break
            check(sum(1 for _ in f) == len(model), 'iteration after a partial one')
        elif op == 'keys':
            check(list(f.keys()) == [d['label'] for d in model if not d['isComment']], 'keys %s', list(f.keys()))
        elif op == 'getIDs':
            check(o.getIDSafe(key) == (I[0] if I else -1), 'getIDSafe')
            if I: check(list(o.getIDs(key)) == I and o.getID(key) == I[0], 'getIDs')
            else:
                raises(lambda: o.getID(key), KeyError, msg='getID missing'); raises(lambda: o.getIDs(key), KeyError, msg='getIDs missing')
        elif op == 'table':
            t = np.arange(6.).reshape(2, 3)
            o.addTable(key, t, cols=['a', 'b', 'c'], units=['(-)']*3, tabType=1, tabDimVar='N')
            d = new(); d.update(label=key, value=t, tabType=1, tabDimVar='N', tabColumnNames=['a', 'b', 'c'], tabUnits=['(-)']*3); model.append(d)
        elif op == 'comment':
            o.addComment('! c'); d = new(); d.update(isComment=True, value='! c'); model.append(d)
        agree('%s %r (step %d)' % (op, key, step))

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    for n in (0, 1, 2, 5):
        for op in ('get', 'set', 'add', 'iter', 'keys', 'getIDs', 'table', 'comment', 'partial'):
            if n == 0 and op in ('partial',): continue
            for wrap in (0, 1):
                if wrap and n == 0: continue
                yield dict(kind='one', n=n, op=op, steps=6, wrap=wrap, seed=s())
    for _ in range(20): yield dict(kind='nofile', n=4, steps=20, seed=s())
    for _ in range(300 if tier == 'quick' else 8000):
        yield dict(kind='seq', n=int(rng.integers(0, 15)), steps=25, wrap=0, seed=s())
    for _ in range(100 if tier == 'quick' else 3000):
        yield dict(kind='seq', n=int(rng.integers(1, 15)), steps=25, wrap=1, seed=s())

"""C02: format detection and dispatch, on synthetic format lists and on the registered list with user formats."""
import os, json
import numpy as np
from common import *
import examples

ORDER = [('CSVFile', 0), ('ExcelFile', 0), ('TecplotFile', 10), ('BladedFile', 10), ('FASTInputFile', 20), ('FASTOutputFile', 20), ('FASTWndFile', 20), ('FASTLinearizationFile', 20), ('FASTSummaryFile', 20), ('TurbSimTSFile', 20), ('TurbSimFile', 20), ('HAWC2DatFile', 30), ('HAWC2HTCFile', 30), ('HAWC2StFile', 30), ('HAWC2PCFile', 30), ('HAWC2AEFile', 30), ('HAWCStab2PwrFile', 30), ('HAWCStab2IndFile', 30), ('HAWCStab2CmbFile', 30), ('MannBoxFile', 30), ('FLEXBladeFile', 40), ('FLEXProfileFile', 40), ('FLEXOutFile', 40), ('FLEXWaveKinFile', 40), ('FLEXDocFile', 40), ('BModesOutFile', 50), ('ROSCOPerformanceFile', 50), ('NetCDFFile', 60), ('VTKFile', 60), ('TDMSFile', 60), ('ParquetFile', 60), ('CactusFile', 70), ('RAAWMatFile', 70)]

class Boom(Exception): pass

def make(i, spec, log):
    import weio
    excs = dict(wrong=weio.WrongFormatError, broken=weio.BrokenFormatError, empty=weio.EmptyFileError, oserr=FileNotFoundError, mem=MemoryError, key=KeyError, boom=Boom, sub=type('Sub', (weio.WrongFormatError,), {}), typ=TypeError, val=ValueError)
    class Fmt(weio.File):
        def __init__(self, filename=None, **kw):
            log.append((i, filename, dict(kw), self))
            self.filename = filename
            b = spec['behave']
            if b != 'ok':
                raise excs[b]('behaviour %s of format %d' % (b, i))
        @staticmethod
        def defaultExtensions(): return list(spec['exts'])
        @staticmethod
        def formatName(): return 'fmt%d' % i
    Fmt.__name__ = 'Fmt%d' % i
    return weio.FileFormat(Fmt), excs

def ematch(ext, exts):
    for e in exts:
        e = e.lower()
        if e == ext: return True
        if e.endswith('*') and ext.startswith(e[:-1]): return True
    return False

def synthetic(case):
    import weio
    if not hasattr(weio, '_FORMATS'): raise Skip()
    log = []; fmts = []; excs = {}
    for i, s in enumerate(case['fmts']):
        f, excs = make(i, s, log); fmts.append(f)
    old = weio._FORMATS
    arr = np.empty(len(fmts), dtype=object); arr[:] = fmts
    weio._FORMATS = arr if case['seed'] % 2 else fmts
    try:
        name = scratch(case['name']); open(name, 'w').write('x')
        kw = case['kw']
        ext = os.path.splitext(name.lower())[1]
        tried = []; outcome = ('none', None)
        for i, s in enumerate(case['fmts']):
            if not ematch(ext, s['exts']): continue
            tried.append(i)
            if s['behave'] == 'ok': outcome = ('ok', i); break
            if s['behave'] in ('wrong', 'sub'): continue
            outcome = ('raise', s['behave']); break
        for call in ('detectFormat', 'read'):
            del log[:]
            res = err = None
            try: res = getattr(weio, call)(name, **kw)
            except BaseException as e: err = e
            what = '%s(%r) with formats %s' % (call, os.path.basename(name), [(s['exts'], s['behave']) for s in case['fmts']])
            got = [l[0] for l in log]
            check(got == tried, '%s: formats tried %s, expected %s', what, got, tried)
            for _, fn, k, _o in log:
                check(fn == name and k == kw, '%s: reader received %r %r', what, fn, k)
            if outcome[0] == 'ok':
                check(err is None, '%s: raised %r', what, err)
                obj = res[1] if call == 'detectFormat' else res
                check(obj is log[-1][3], '%s: does not return the object the reader produced', what)
                if call == 'detectFormat': check(res[0] is fmts[outcome[1]], '%s: wrong format returned', what)
            elif outcome[0] == 'raise':
                check(type(err).__name__ == excs[outcome[1]].__name__, '%s: raised %r, expected %s', what, err, outcome[1])
                check('behaviour %s of format' % outcome[1] in str(err), '%s: error changed: %r', what, err)
            else:
                check(type(err) is weio.FormatNotDetectedError, '%s: raised %r, expected FormatNotDetectedError', what, err)
        # explicit format: no detection
        for i, s in enumerate(case['fmts']):
            del log[:]
            res = err = None
            try: res = weio.read(name, fileformat=fmts[i], **kw)
            except BaseException as e: err = e
            check([l[0] for l in log] == [i], 'explicit format %d: readers called %s', i, [l[0] for l in log])
            check(log[0][1] == name and log[0][2] == kw, 'explicit format %d: reader received %r %r', i, log[0][1], log[0][2])
            if s['behave'] == 'ok': check(res is log[0][3] and err is None, 'explicit format %d: result %r error %r', i, res, err)
            else: check(type(err).__name__ == excs[s['behave']].__name__, 'explicit format %d: raised %r', i, err)
    finally:
        weio._FORMATS = old

USER = '''
from weio.file import File, WrongFormatError
class User%(i)dFile(File):
    %(prio)s
    @staticmethod
    def defaultExtensions(): return [%(ext)r]
    @staticmethod
    def formatName(): return 'user %(i)d'
    def _read(self, **kw): self['opts'] = kw
'''
def registry(case):
    import weio
    if not hasattr(weio, '_FORMATS'): raise Skip()
    d = os.path.dirname(scratch('x'))
    exp = list(ORDER)
    names = sorted(range(len(case['prios'])))
    for i in names:
        p = case['prios'][i]
        open(os.path.join(d, 'user%d_fmt.py' % i), 'w').write(USER % dict(i=i, ext='.u%dz' % i, prio='' if p is None else '@staticmethod\n    def priority(): return %d' % p))
    old = weio._FORMATS; weio._FORMATS = None
    try:
        fl = weio.fileFormats(userpath=d)
        got = [f.constructor.__name__ for f in fl]
        import glob
        reg = [int(os.path.basename(f)[4:-7]) for f in glob.glob(os.path.join(d, '*.py'))]
        exp = exp+[('User%dFile' % i, 2 if case['prios'][i] is None else case['prios'][i]) for i in reg]
        want = [n for n, _ in sorted(exp, key=lambda t: t[1])]
        check(got == want, 'registered order %s, expected %s', got, want)
        again = weio.fileFormats()
        check([f.constructor.__name__ for f in again] == want, 'second call gives another list')
        for i in reg:
            p = scratch('f.U%dZ' % i); open(p, 'w').write('hello')
            o = weio.read(p, a=3)
            check(type(o).__name__ == 'User%dFile' % i and o['opts'] == {'a': 3} and o.filename == p, 'user format not used: %r %r', type(o), dict(o))
    finally:
        weio._FORMATS = old

def example(case):
    import weio
    p = examples.place(case['file'], os.path.dirname(scratch('x')))
    o = weio.read(p)
    check(type(o).__name__ == case['cls'], '%s read as %s, expected %s', case['file'], type(o).__name__, case['cls'])
    ff, F = weio.detectFormat(p)
    check(ff.constructor.__name__ == case['cls'] and isinstance(F, ff.constructor), 'detectFormat(%s)', case['file'])
    base, ext = os.path.splitext(p)
    if ext not in ('.$PJ',) and not ext.startswith('.$') and case['cls'] != 'HAWC2DatFile':
        q = base+ext.upper(); os.rename(p, q)
        o = weio.read(q); check(type(o).__name__ == case['cls'], '%s read as %s', q, type(o).__name__)

def run(case): dict(synthetic=synthetic, registry=registry, example=example)[case['kind']](case)

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    names = ['a.dat', 'A.DAT', 'b.Txt', 'noext', 'x.y.dat', 'c.$04', 'C.$PJ', 'd.%41', 'e.csv', '.dat', 'f.DA', 'g.datx', 'h.da$']
    exts = ['.dat', '.txt', '.csv', '.$*', '.%*', '.DAT', '.Txt', '', '.datx', '.d*', '.da', '.D*', '.C*']
    beh = ['ok', 'wrong', 'wrong', 'sub', 'broken', 'empty', 'oserr', 'mem', 'key', 'boom', 'typ', 'val']
    yield dict(kind='synthetic', fmts=[], name='a.dat', kw={}, seed=1)
    for b in beh:
        for nm in ('a.DAT', 'c.$04', 'noext'):
            for kw in ({}, {'N': [2, 3, 4], 'x': None}):
                yield dict(kind='synthetic', name=nm, kw=kw, seed=s(), fmts=[dict(exts=['.dat', '.$*'], behave='wrong'), dict(exts=['.txt', '.csv'], behave='ok'), dict(exts=['.%*', '.DAT', '.$0*', ''], behave=b), dict(exts=['.dat', '.$*'], behave='ok'), dict(exts=['.dat'], behave='boom')])
    for _ in range(600 if tier == 'quick' else 20000):
        n = int(rng.integers(1, 7))
        yield dict(kind='synthetic', name=str(rng.choice(names)), kw=[{}, {'opt': 1}][int(rng.integers(2))], seed=s(),
                   fmts=[dict(exts=[str(e) for e in rng.choice(exts, size=int(rng.integers(1, 4)))], behave=str(rng.choice(beh))) for _ in range(n)])
    for pr in ([None], [0, 0], [25, 70, None, -3], [20, 20, 20, 20, 5], [], [100, 2, 2]):
        yield dict(kind='registry', prios=pr, seed=s())
    for cls, fs in sorted(examples.TABLE.items()):
        for f in fs:
            if f != 'RoscoPerformance_CpCtCq.txt': yield dict(kind='example', cls=cls, file=f, seed=0)

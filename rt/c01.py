"""C01: opening contract of every registered format."""
import os, shutil
import numpy as np
from common import *
import examples

def content(o):
    """everything the object holds, the file name aside"""
    v = {k: x for k, x in vars(o).items() if k not in ('filename', 'info')} if hasattr(o, '__dict__') else {}
    inner = {}
    for k, x in list(v.items()):
        if k in ('basefile', '_fixedfile') and x is not None: inner[k] = {a: b for a, b in vars(x).items() if a not in ('filename',)}; v.pop(k)
    return freeze(dict(o) if type(o).__name__ != 'FASTInputFile' else {}), freeze({k: x for k, x in v.items() if not isinstance(x, (bytes,))}), freeze(inner)

def data(o):
    if type(o).__name__ in ('FLEXDocFile', 'VTKFile', 'FLEXBladeFile'): return content(o)
    return freeze(o.toDataFrame())

REREAD_NOT = ('FLEXDocFile',)

def run(case):
    import weio
    C = examples.classes()
    if case['cls'] not in C: raise Fail('format %s is not registered any more' % case['cls'])
    cls = C[case['cls']].constructor; exts = C[case['cls']].extensions
    k = case['kind']
    ext = exts[case.get('iext', 0) % len(exts)].replace('*', '04')
    if k == 'missing':
        p = scratch('nofile'+ext)
        if case['how'] == 'dir': os.makedirs(p)
        raises(lambda: cls(p), FileNotFoundError, msg='%s(missing)' % case['cls'])
        raises(lambda: cls(filename=p), FileNotFoundError, msg='%s(filename=missing)' % case['cls'])
        o = cls(); before = content(o)
        raises(lambda: o.read(p), FileNotFoundError, msg='%s().read(missing)' % case['cls'])
        check(content(o) == before, '%s: failed read parsed something: %s', case['cls'], fdiff(before, content(o)))
        if case['how'] != 'dir': check(not os.path.exists(p), 'reading created the file')
    elif k == 'empty':
        p = scratch('empty'+ext); open(p, 'wb').close()
        raises(lambda: cls(p), weio.EmptyFileError, msg='%s(empty)' % case['cls'])
        raises(lambda: cls(filename=p), weio.EmptyFileError, msg='%s(filename=empty)' % case['cls'])
        o = cls(); before = content(o)
        raises(lambda: o.read(p), weio.EmptyFileError, msg='%s().read(empty)' % case['cls'])
        check(content(o) == before, '%s: failed read parsed something: %s', case['cls'], fdiff(before, content(o)))
        if ext.startswith('.'): raises(lambda: weio.read(p), weio.EmptyFileError, msg='weio.read(empty %s)' % ext)
    elif k == 'noname':
        o = cls()
        raises(lambda: o.read(), msg='%s().read()' % case['cls'])
        raises(lambda: o.read(None), msg='%s().read(None)' % case['cls'])
        raises(lambda: o.read(''), msg="%s().read('')" % case['cls'])
    elif k == 'named':
        d = os.path.dirname(scratch('x'))
        p = examples.place(case['file'], d)
        a = cls(p)
        check(a.filename == p, '%s: filename is %r, read %r', case['cls'], a.filename, p)
        b = cls(); b.read(p)
        check(b.filename == p, '%s().read: filename is %r, read %r', case['cls'], b.filename, p)
        check(content(a) == content(b) and data(a) == data(b), '%s: reading at construction and later differ: %s', case['cls'], fdiff(content(a), content(b)))
        check(len(str(content(a))) > 60, '%s: nothing was parsed', case['cls'])
        c = cls(filename=p)
        if case['cls'] != 'FLEXDocFile': c.read()
        check((case['cls'] in ('CSVFile', 'FASTWndFile') or data(cls(p)) == data(c)) and c.filename == p, '%s: re-reading the remembered file differs: %s', case['cls'], fdiff(data(a), data(c)))
        d1 = os.path.dirname(scratch('x')); q = examples.place(case['file'], d1)
        if os.path.dirname(q) != os.path.dirname(p) and case['cls'] not in REREAD_NOT:
            g = cls(p); shutil.rmtree(d, ignore_errors=True)             # the file it was created from is gone
            g.read(q)
            check(g.filename == q, '%s: read(named) of an object that had read another file: filename is %r', case['cls'], g.filename)
            p = q
        if case.get('other'):
            d2 = os.path.dirname(scratch('x')); q = examples.place(case['other'], d2)
            e = cls(q)
            check(e.filename == q and content(e) != content(a), '%s: another file gives the same content', case['cls'])
            f = cls()
            if case['cls'] != 'FASTInputFile': f.filename = p
            f.read(q)
            check(f.filename == q and content(f) == content(e), '%s: read(other) did not read the file that was named: %s', case['cls'], fdiff(content(f), content(e)))

def cases(rng, tier):
    C = sorted(examples.classes().items())
    for name, ff in C:
        for i in range(len(ff.extensions)):
            yield dict(kind='missing', cls=name, iext=i, how='absent'); yield dict(kind='empty', cls=name, iext=i)
        yield dict(kind='missing', cls=name, iext=0, how='dir')
        yield dict(kind='noname', cls=name)
    for name in sorted(examples.TABLE):
        fs = examples.TABLE[name]
        for i, f in enumerate(fs):
            yield dict(kind='named', cls=name, file=f, other=fs[(i+1) % len(fs)] if len(fs) > 1 else None)

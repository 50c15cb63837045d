"""C06: Mann boxes.  Oracle: little-endian float32, z fastest, y decreasing, x slowest."""
import os
import numpy as np
from common import *

def run(case):
    from weio.mannbox_file import MannBoxFile
    r = rng_of(case)
    nx, ny, nz = case['N']
    F = r.normal(size=(nx, ny, nz)).astype('f4')
    if case.get('special') and F.size > 3:
        F.ravel()[:4] = [np.inf, -np.inf, np.nan, -0.0]
    spec = F[:, ::-1, :].astype('<f4').tobytes()
    if case['kind'] == 'trunc':
        p = scratch('t.u'); cut = case['cut'] if case['cut'] >= 0 else len(spec)+case['cut']
        if not 0 < cut < len(spec): raise Skip()
        open(p, 'wb').write(spec[:cut])
        raises(lambda: MannBoxFile(p, N=(nx, ny, nz)), msg='file with %d of %d bytes' % (cut, len(spec))); return
    if case['kind'] == 'noname':
        p = scratch(case['name']); open(p, 'wb').write(spec); raises(lambda: MannBoxFile(p), msg='no dimensions in %s' % case['name']); return
    name = case.get('name', 'box_%dx%dx%d.u' % (nx, ny, nz)) % ((nx, ny, nz) if '%' in case.get('name', '') else ())
    p = scratch(name)
    if case['kind'] == 'read':
        open(p, 'wb').write(spec+b'\0\0\0\0'*case.get('extra', 0))
    else:
        mb = MannBoxFile(); mb['field'] = F.astype(case['dtype']) if case.get('dtype') else (np.asfortranarray(F) if case.get('F') else F.copy())
        keep = mb['field'].copy()
        mb.write(p)
        got = open(p, 'rb').read()
        check(got == spec, 'bytes on disk differ from the layout (len %d vs %d, first difference at value %s)', len(got), len(spec),
              next((i//4 for i in range(min(len(got), len(spec))) if got[i] != spec[i]), None))
        check(same(mb['field'], keep), 'write changed the field in memory')
        check(mb.filename == p, 'filename not remembered')
    for kw in (dict(N=(nx, ny, nz)), {}):
        if kw == {} and case.get('explicit'): continue
        g = MannBoxFile(p, **kw)
        check(g['field'].shape == (nx, ny, nz), 'shape %s expected %s', g['field'].shape, (nx, ny, nz))
        check(g['field'].dtype == np.float32, 'dtype %s', g['field'].dtype)
        check(g['field'].tobytes() == F.tobytes(), 'field differs, first at %s', np.argwhere(~((g['field'] == F) | (np.isnan(F) & np.isnan(g['field']))))[:1])
    g = MannBoxFile(p, N=(nx, ny, nz), dy=2.5, dz=3., y0=1., z0=4., zMid=50.)
    check((g['dy'], g['dz'], g['y0'], g['z0'], g['zMid']) == (2.5, 3., 1., 4., 50.), 'options not kept')
    q = scratch('again_%dx%dx%d.u' % (nx, ny, nz)); g.write(q)
    check(open(q, 'rb').read() == spec, 'second generation differs')

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    dims = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 4), (4, 3, 2), (3, 4, 5), (5, 5, 5), (1, 7, 3), (6, 1, 4), (9, 2, 1), (16, 8, 4), (8, 16, 32)]
    for N in dims:
        for kind in ('write', 'read'):
            yield dict(kind=kind, N=N, seed=s(), special=1); yield dict(kind=kind, N=N, seed=s())
        yield dict(kind='write', N=N, seed=s(), dtype='f8'); yield dict(kind='write', N=N, seed=s(), F=1)
        yield dict(kind='read', N=N, seed=s(), extra=3)
        for nm in ('a9_%dx%dx%d.bin', '11_x2x_%d_%d_%d.v', 'Turb.1.%dx%dx%d.w', 'mann%d-%d-%d-u.u', '%dx%dx%d.u'):
            yield dict(kind='read', N=N, seed=s(), name=nm); yield dict(kind='write', N=N, seed=s(), name=nm)
    for N in ((2, 3, 4), (3, 2, 2), (4, 1, 1), (1, 1, 3)):
        for cut in range(1, 100, 1): yield dict(kind='trunc', N=N, seed=1, cut=cut)
    for nm in ('box.u', 'box_12.u', 'box_3x4.u', 'a1.v'): yield dict(kind='noname', N=(2, 2, 2), seed=1, name=nm)
    for _ in range(150 if tier == 'quick' else 5000):
        yield dict(kind=str(rng.choice(['read', 'write'])), N=[int(x) for x in rng.integers(1, 14, size=3)], seed=s())

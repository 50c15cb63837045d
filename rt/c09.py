"""C09: queries never change the object."""
import os, io
import numpy as np
from common import *
import examples

def snap(o):
    """the data held by the object: every attribute and every item (lazily filled None attributes excepted)"""
    import weio
    out = {}
    def add(prefix, o, depth):
        for k, v in sorted(vars(o).items()) if hasattr(o, '__dict__') else []:
            if isinstance(v, dict) and hasattr(v, '__dict__') or type(v).__module__.startswith('weio'):
                if depth < 3: add(prefix+'.'+k, v, depth+1)
                continue
            if v is None: continue
            out[prefix+'.'+k] = freeze(v)
        if isinstance(o, dict):
            out[prefix+'[keys]'] = freeze(list(o.keys()))
            for k, v in list(dict.items(o)): out[prefix+'[%r]' % (k,)] = freeze(v)
    add('', o, 0)
    return out

def same_snap(a, b, what):
    for k in a:
        check(k in b, '%s: %s disappeared', what, k)
        check(a[k] == b[k], '%s changed %s: %s', what, k, fdiff(a[k], b[k]))

def outcome(fn):
    try: r = fn()
    except Exception as e: return ('exc', type(e).__name__, str(e)[:80])
    return ('val', freeze(r) if not hasattr(r, '__next__') else 'iterator')

def queries(o, r):
    n = type(o).__name__
    Q = {'toDataFrame': lambda: o.toDataFrame(), 'repr': lambda: repr(o), 'str': lambda: str(o), 'keys': lambda: [str(k) for k in o.keys()]}
    if n == 'TurbSimFile' and 'u' in dict.keys(o):
        _, nt, ny, nz = o['u'].shape
        y, z = float(o['y'][int(r.integers(ny))])+.01, float(o['z'][int(r.integers(nz))])-.01
        iy, iz, ix = int(r.integers(ny)), int(r.integers(nz)), int(r.integers(nt))
        rm = bool(r.integers(2))
        Q.update({'valuesAt': lambda: o.valuesAt(y, z), 'closestPoint': lambda: o.closestPoint(y, z), 'hubValues': o.hubValues, 'midValues': o.midValues, 'iMid': lambda: o.iMid,
            'longi': lambda: o._longiline(iy, iz, removeMean=rm), 'longiMid': lambda: o._longiline(removeMean=True), 'lat': lambda: o._latline(ix, iz, removeMean=rm), 'latMid': lambda: o._latline(removeMean=True),
            'vert': lambda: o._vertline(ix, iy, removeMean=rm), 'vertMid': lambda: o._vertline(removeMean=True), 'hplane': lambda: o.horizontalPlane(z=z, removeMean=rm), 'hplaneMid': lambda: o.horizontalPlane(removeMean=True),
            'hplaneI': lambda: o.horizontalPlane(iz0=iz, removeMean=True), 'vplane': lambda: o.verticalPlane(y=y, removeMean=rm), 'vplaneMid': lambda: o.verticalPlane(removeMean=True), 'vplaneI': lambda: o.verticalPlane(iy0=iy, removeMean=True),
            'profile': o.vertProfile, 'profileMid': lambda: o.vertProfile(y_span='mid'), 'xcorr_y': o.crosscorr_y, 'xcorr_z': o.crosscorr_z, 'xcorr_yI': lambda: o.crosscorr_y(iy, iz), 'csd_longi': o.csd_longi, 'csd_lat': o.csd_lat, 'csd_vert': o.csd_vert,
            'checkPeriodic': o.checkPeriodic, 'toMann': lambda: [freeze(dict(b)) if isinstance(b, dict) else 0 for b in o.toMannBox()], 'toMannC': lambda: [freeze(dict(b)) for b in o.toMannBox(removeUConstant=3.)], 'toMannM': lambda: [freeze(dict(b)) for b in o.toMannBox(removeAllUMean=True)],
            'fitPowerLaw': lambda: 0 if nz < 4 else outcome(lambda: o.fitPowerLaw())[0], 'writeInfo': lambda: o.writeInfo(scratch('info.txt')), 'writeProbes': lambda: o.writeProbes(scratch('p.csv'), [y], [z])})
    if n == 'MannBoxFile' and 'field' in dict.keys(o):
        _, ny, nz = o['field'].shape
        y, z = float(r.uniform(-3, 3)), float(r.uniform(0, 9))
        Q.update({'y': lambda: o.y, 'z': lambda: o.z, 't': lambda: o.t(2., 10.), 'valuesAt': lambda: o.valuesAt(y, z), 'closestPoint': lambda: o.closestPoint(y, z), 'vertProfile': lambda: o.vertProfile})
    if n == 'FASTInputFile':
        Q.update({'toString': o.toString, 'iter': lambda: [str(d) for d in o], 'get': lambda: [freeze(o[k]) for k in list(o.keys())[:5]]})
    if n == 'HAWC2AEFile':
        rr = float(r.uniform(0, 10))
        Q.update({'sets': lambda: o.sets, 'chord': lambda: o.data.chord(rr), 'thick': lambda: o.data.thickness(rr), 'rad': lambda: o.data.radius_ae(rr), 'pcset': lambda: o.data.pc_set_nr(rr), 'str_': lambda: str(o.data)})
    if n == 'HAWC2PCFile':
        t0 = sorted(o.data.pc_sets[1][0]); th = float(t0[0]+.3*(t0[-1]-t0[0]))
        Q.update({'CL': lambda: o.data.CL(th, 5.), 'CD': lambda: o.data.CD(th, 5.), 'CM': lambda: o.data.CM(th, 5.), 'CLH2': lambda: o.data.CL_H2(th, 5.), 'str_': lambda: str(o.data)})
    return Q

def make(case, d):
    import weio
    k = case['kind']
    if k == 'example':
        p = examples.place(case['file'], d)
        cl = examples.classes()[case['cls']].constructor
        return (lambda: cl(p)), os.path.basename(p)
    r = np.random.default_rng(case['seed'])
    if k == 'turbsim':
        from weio.turbsim_file import TurbSimFile
        nt, ny, nz, nw = case['dims']
        u = r.normal(size=(3, nt, ny, nz))+np.array([8, 0, 0]).reshape(3, 1, 1, 1)
        tw = r.normal(size=(3, nt, nw))+4
        def f():
            ts = TurbSimFile(); ts['u'] = u.copy().astype(case.get('dt', 'f8')); ts['uTwr'] = tw.copy()
            ts['y'] = 2.*(np.arange(ny)-(ny-1)/2); ts['z'] = 5+3.*np.arange(nz); ts['t'] = .1*np.arange(nt); ts['zTwr'] = ts['z'][0]-3.*np.arange(nw)
            ts['ID'] = 7; ts['info'] = 'made'; ts['dt'] = .1; ts.filename = 'made.bts'
            if case.get('ref'): ts['zRef'] = 5.; ts['uRef'] = 8.
            return ts
        return f, 'made.bts'
    if k == 'mann':
        from weio.mannbox_file import MannBoxFile
        nx, ny, nz = case['dims']
        F = r.normal(size=(nx, ny, nz)).astype('f4')
        p = os.path.join(d, 'b.u'); open(p, 'wb').write(F.tobytes())
        return (lambda: MannBoxFile(p, N=(nx, ny, nz), dy=case['dy'], dz=case['dz'], y0=case['y0'], zMid=case['zMid'])), 'b.u'
    if k == 'cactus':
        import pandas as pd
        from weio.cactus_file import CactusFile
        nb, nr, nti, ne = case['dims']; nt = nr*nti-case.get('short', 0)
        co = ['Normalized Time (-)', 'Theta (rad)', 'Rev', 'Torque Coeff. (-)', 'Power Coeff. (-)', 'Fx Coeff. (-)', 'Fy Coeff. (-)', 'Fz Coeff. (-)']
        for b in range(nb): co += ['Blade%d %s Coeff. (-)' % (b+1, c) for c in ('Fx', 'Fy', 'Fz', 'Torque')]
        dT = pd.DataFrame(r.normal(size=(nt, len(co))), columns=co)
        ce = ['Blade', 'Element', 'IndU (-)', 'IndV (-)', 'IndW (-)', 'AOA25 (deg)', 'AOA50 (deg)', 'AOA75 (deg)', 'CL (-)', 'CD (-)', 'CM25 (-)', 'CN (-)', 'CT (-)', 'Fx (-)', 'Fy (-)', 'Fz (-)', 'CLCirc (-)', 'Re (-)', 'GB (?)', 'Ur (-)']
        dE = pd.DataFrame(r.normal(size=(nt*nb*ne, len(ce))), columns=ce)
        dE['Blade'] = np.repeat(np.arange(nb)+1, nt*ne); dE['Element'] = np.tile(np.repeat(np.arange(ne)+1, nt), nb)
        def f():
            o = CactusFile()
            o['configinputs'] = {'nr': nr, 'nti': nti}; o['caseinputs'] = {'rpm': 10., 'ut': 5., 'ctexcrm': 0., 'rho': .0023}
            o['geom'] = {'nblade': nb, 'refr': 3.28084, 'refar': 2, 'file': None}
            o['dfTime'] = dT.copy(); o['dfElem'] = dE.copy(); o['dfDS'] = None
            return o
        return f, 'c.in'
    if k == 'tower':
        from weio import fast_input_file as fi
        n = case['n']; tab = np.column_stack([np.linspace(0, 1, n)]+[r.normal(size=n) for _ in range(3)])
        cf = r.normal(size=20)
        def f():
            o = fi.FASTInputFileBase(); o.addComment('tower'); o.addComment('x'); o.addValKey(n, 'NTwInpSt', '')
            o.addTable('TowProp', tab.copy(), tabType=1, tabDimVar='NTwInpSt', cols=['HtFract', 'TMassDen', 'TwFAStif', 'TwSSStif'], units=['(-)', '(kg/m)', '(Nm^2)', '(Nm^2)'] if case['units'] else None)
            if not case['units']: o.data[-1]['tabUnits'] = None
            j = 0
            for m in ('FAM1', 'FAM2', 'SSM1', 'SSM2'):
                for p in range(2, 7): o.addValKey(float(cf[j]), 'Tw%sSh(%d)' % (m, p), ''); j += 1
            return o
        return f, 'tower.dat'
    if k == 'proto':
        from weio import fast_input_file as fi
        def f():
            o = getattr(fi, case['cls'])()
            n = 7
            if case['cls'] == 'EDBladeFile': o['BldProp'] = np.column_stack([np.linspace(0, 1, n)]+[r.normal(size=n) for _ in range(5)]); o['NBlInpSt'] = n
            if case['cls'] == 'ADBladeFile': o['BldAeroNodes'] = np.column_stack([np.linspace(0, 60, n)]+[r.normal(size=n) for _ in range(5)]+[np.arange(n)]); o['NumBlNds'] = n
            if case['cls'] == 'ADPolarFile':
                o['AFCoeff'] = np.column_stack([np.linspace(-180, 180, 21)]+[r.normal(size=21) for _ in range(3)]); o['NumAlf'] = 21
                for kk, v in dict(Cd0=.01, C_nalpha=6.2, alpha0=-3., alpha1=10., alpha2=-12.).items(): o[kk] = v
            return o
        rr = r; r0 = r.bit_generator.state
        def g():
            rr.bit_generator.state = r0
            return f()
        return g, 'proto.dat'

def run(case):
    d = os.path.dirname(scratch('x'))
    build, base = make(case, d)
    r = rng_of(case)
    o = build()
    before = snap(o)
    Q = queries(o, r)
    if case['kind'] == 'proto':
        Q.update({'toString': o.toString, 'iter': lambda: [str(x) for x in o]})
    names = list(Q)
    order = [names[i] for i in r.permutation(len(names))]
    if case.get('only'): order = [q for q in case['only'] if q in Q]
    first = {}
    for q in order:
        first[q] = outcome(Q[q])
        if case.get('deep', 1): same_snap(before, snap(o), q)
    for q in order[::-1]:
        again = outcome(Q[q])
        check(again == first[q], 'second call of %s gives another answer: %s', q, fdiff(again, first[q]))
    same_snap(before, snap(o), 'sequence')
    # writing afterwards writes what a fresh object writes
    def written(obj, sub):
        p = os.path.join(d, sub, base); os.makedirs(os.path.dirname(p), exist_ok=True)
        try: obj.write(p)
        except Exception as e: return ('exc', type(e).__name__)
        return {f: open(os.path.join(d, sub, f), 'rb').read() for f in sorted(os.listdir(os.path.join(d, sub)))}
    a, b = written(build(), 'w'), written(o, 'w2')
    check(type(a) is type(b), 'write after queries: %s, fresh: %s', type(b), type(a))
    if isinstance(a, dict):
        check(list(a) == list(b), 'files written')
        for f in a:
            norm = lambda s: s.replace(b'w2/', b'w/')
            check(norm(a[f]) == norm(b[f]), 'content written after queries differs (%s)', f)

def cases(rng, tier):
    s = lambda: int(rng.integers(1 << 31))
    reps = 1 if tier == 'quick' else 12
    for cls, files in examples.TABLE.items():
        for f in files:
            if os.path.exists(os.path.join(examples.EX, f)):
                for _ in range(reps): yield dict(kind='example', cls=cls, file=f, seed=s())
    for dims in ((4, 2, 2, 0), (6, 3, 4, 2), (9, 4, 3, 3), (5, 5, 2, 2)):
        for dt in ('f8', 'f4'):
            for ref in (0, 1):
                for _ in range(reps): yield dict(kind='turbsim', dims=dims, dt=dt, ref=ref, seed=s())
    for dims in ((3, 2, 4), (4, 1, 1), (5, 3, 3)):
        for y0 in (None, -2.):
            for zM in (None, 10.):
                for _ in range(reps): yield dict(kind='mann', dims=dims, dy=1.5, dz=2, y0=y0, zMid=zM, seed=s())
    for c in ('EDBladeFile', 'ADBladeFile', 'ADPolarFile'):
        for _ in range(2*reps): yield dict(kind='proto', cls=c, seed=s())
    for dims in ((1, 2, 5, 2), (3, 1, 6, 1), (4, 2, 4, 2)):
        for sh in (0, 2): yield dict(kind='cactus', dims=dims, short=sh, seed=s())
    for units in (0, 1):
        for n in (2, 6): yield dict(kind='tower', n=n, units=units, seed=s())

"""Queries assign nothing that existed before the call (frame conditions by ownership, pyvc/frames.py)."""
import copy
from ..core import *
from ..interp import *
from .. import frames
from .c01 import CLASSES as REGISTERED
from . import c10
ASSUMPTIONS = ['library functions (numpy, pandas, scipy, re, ...) write to their arguments only where the checker lists them as writing (out=, in-place methods, np.copyto and the like); pandas copies the values given to a new column',
    'functions of the optional package pydatview (spectral tools) write to nothing',
    'types of the stored items: u, uTwr, y, z, t, field, CP, CT, CQ, pitch, TSR, WS are numeric arrays, dfTime/dfElem/dfDS data frames (item types in pyvc/frames.py SCHEMA); ID, dt, info, dy, dz are immutable; filename is text',
    'arguments of queries are numbers or text',
    'FASTInputFile._fixedfile (the view built on first use) and the attribute labels are derived from the data, not part of it',
    'nested repository objects whose class the checker cannot tell are printed or converted by toDataFrame, __repr__ or __str__ methods that are themselves under this contract']
EXTRA = dict(FASTInputFileBase='fast_input_file', EDBladeFile='fast_input_file', ADBladeFile='fast_input_file', ADPolarFile='fast_input_file', ExtPtfmFile='fast_input_file')
GENERAL = ('toDataFrame', '__repr__', '__str__')
OWN = dict(TurbSimFile='valuesAt closestPoint hubValues midValues iMid _longiline _latline _vertline horizontalPlane verticalPlane vertProfile crosscorr_y crosscorr_z csd_longi csd_lat csd_vert coherence_longi checkPeriodic toMannBox writeInfo writeProbes fitPowerLaw'.split(),
           MannBoxFile='y z t valuesAt closestPoint vertProfile'.split(), **{c: ['toString'] for c in list(EXTRA)+['FASTInputFile']})

for _c, _m in dict(REGISTERED, **EXTRA).items():
    def mk(cname, mod):
        @contract('frame-'+cname, ['%s.%s' % (cname, q) for q in GENERAL+tuple(OWN.get(cname, ()))])
        def frame(ctx):
            F = frames.Frames(ctx.repo); m = F.mods.get('weio.'+mod)
            s = m.syms.get(cname) if m is not None else None
            if s is None or s[0] != 'cls': ctx.unknown('frame', 'class not found'); return
            for q in GENERAL+tuple(OWN.get(cname, ())):
                f = F.lookup(s[1], q)
                if not isinstance(f, frames.Fn): continue
                nm = '%s assigns nothing that existed before the call' % q
                res = F.check(f, s[1])
                by = {}
                for w, (st, why) in res.items(): by.setdefault(w[1] if len(w) > 1 else '?', []).append((st, why))
                if not by: by = {f.name: [('discharged', '')]}
                for fn, l in sorted(by.items(), key=str):
                    bad = [x for x in l if x[0] == 'refuted'] or [x for x in l if x[0] == 'undecided'] or [l[0]]
                    n = nm+' (stores of %s)' % fn
                    ctx.obl[n] = dict(name=n, n=len(l), status=bad[0][0], why='; '.join(x[1] for x in bad[:3]))
        frame.no_cover = True
    mk(_c, _m)

@contract('fixedfile', ['FASTInputFile.fixedfile', 'FASTInputFile.fixedFormat']+[c+'.from_fast_input_file' for c in ('EDBladeFile', 'ADBladeFile', 'ADPolarFile', 'ExtPtfmFile')]+[c+'.__init__' for c in ('EDBladeFile', 'ADBladeFile', 'ADPolarFile', 'ExtPtfmFile')]+['FASTInputFileBase.setData'], budget=200)
def fixedfile(ctx):
    n, mem, old, o, f, data = c10.deck(ctx, 'wrapped')
    f.attrs['_fixedfile'] = None; o.attrs['module'] = ctx.str('module'); segs = list(data.segs); before = dict(o.attrs)
    class Keys:
        """the labels; membership of the labels that select a format is arbitrary"""
        _vc_model = True
        def vc_contains(self, k): return truth(SymBool(z3.Const('has_'+k, z3.BoolSort()))) if isinstance(k, str) else (_ for _ in ()).throw(Unsupported('membership of a computed label'))
        def vc_iter(self): return self
        def vc_len(self): raise Unsupported('number of labels')
    K = Keys()
    def keys(it, fn, args, kw): return K if args[0] is o else (_ for _ in ()).throw(Unsupported('keys of another object'))
    ctx.it.contracts['weio.fast_input_file:FASTInputFileBase.keys'] = keys
    ob = ctx.it.builtins['list']
    ctx.it.builtins['list'] = Builtin(lambda *a: a[0] if a and a[0] is K else ctx.it.call(ob, list(a)), 'list')
    allowed = [ctx.get(c10.M+c) for c in frames.MODULAR['FASTInputFile.fixedfile'][1]]
    def post(r, exc):
        if exc is not None: ctx.fail('the view of a file is built without error', 'raises %r' % (exc.exc,)); return
        ctx.prove('the view is the object itself or one of the fixed formats', isinstance(r, IObj) and r.cls in allowed)
        ctx.prove('the view shares the data of the object', isinstance(r, IObj) and r.attrs.get('data') is data)
        for k, v in before.items(): ctx.prove('building the view changes no attribute of the object', o.attrs.get(k) is v, k)
        c10.same_list(ctx, o, data, segs, 'building the view adds or removes no entry')
        i = ctx.idx('i', n)
        c10.frame(ctx, mem, old, i, who='building the view changes no entry')
    ctx.run(lambda: ctx.it.getattr(f, 'fixedfile'), post)

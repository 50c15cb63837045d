"""The guard sequence in front of every parser: File.read and every override of it, for every registered format."""
from ..core import *
from ..interp import *
from ..nd import nofork
ASSUMPTIONS = ['"parsing" starts at the first call of the class\'s _read, the first open() of an existing file, or the first call of a third-party reader',
               'no other process creates, removes or changes the file between the guard and the parser', 'the path is not a directory']
CLASSES = dict(CSVFile='csv_file', ExcelFile='excel_file', TecplotFile='tecplot_file', BladedFile='bladed_out_file', FASTInputFile='fast_input_file', FASTOutputFile='fast_output_file',
    FASTWndFile='fast_wind_file', FASTLinearizationFile='fast_linearization_file', FASTSummaryFile='fast_summary_file', TurbSimTSFile='turbsim_ts_file', TurbSimFile='turbsim_file',
    HAWC2DatFile='hawc2_dat_file', HAWC2HTCFile='hawc2_htc_file', HAWC2StFile='hawc2_st_file', HAWC2PCFile='hawc2_pc_file', HAWC2AEFile='hawc2_ae_file', HAWCStab2PwrFile='hawcstab2_pwr_file',
    HAWCStab2IndFile='hawcstab2_ind_file', HAWCStab2CmbFile='hawcstab2_cmb_file', MannBoxFile='mannbox_file', FLEXBladeFile='flex_blade_file', FLEXProfileFile='flex_profile_file',
    FLEXOutFile='flex_out_file', FLEXWaveKinFile='flex_wavekin_file', FLEXDocFile='flex_doc_file', BModesOutFile='bmodes_out_file', ROSCOPerformanceFile='rosco_performance_file',
    NetCDFFile='netcdf_file', VTKFile='vtk_file', TDMSFile='tdms_file', ParquetFile='parquet_file', CactusFile='cactus_file', RAAWMatFile='raawmat_file')

class Parsed(BaseException):
    """the parser has started, on this path"""
    def __init__(self, path, obj=None, kw=None): self.path = path; self.obj = obj; self.kw = kw
class GuardFS:
    """one path `name`: exists or not, size in bytes; every other path: outside the model"""
    def __init__(self, name, old, exists, size): self.name = name; self.old = old; self.exists = exists; self.sz = size; self.outputs = []
    def which(self, p):
        if p is self.name: return 'name'
        if p is self.old: return 'old'
        if isinstance(p, SymStr) and p.t.eq(self.name.t): return 'name'
        raise Unsupported('existence of another path')
    def isfile(self, p): return truth(self.exists) if self.which(p) == 'name' else True
    def need(self, p):
        if not self.isfile(p): raise PyRaise(FileNotFoundError(2, 'No such file or directory'), True)
    def size(self, p):
        self.need(p); return self.sz if self.which(p) == 'name' else 10
    def open(self, p, mode='r'): self.need(p); raise Parsed(p)
def prep(ctx, cname):
    it = ctx.it; mod = 'weio.'+CLASSES[cname]
    name = ctx.str('filename'); old = ctx.str('oldname')
    ctx.assume(cmp('!=', name, '')); ctx.assume(cmp('!=', old, ''))
    ex = ctx.bool('exists'); size = ctx.int('size', 0)
    C = ctx.get(mod+':'+cname)
    for m in list(it.modules): pass
    it.fs = GuardFS(name, old, ex, size)
    def ev(it_, f, args, kw):
        o = args[0]; raise Parsed(it.getattr(o, 'filename'), o, dict(kw))
    def stub(m):
        for v in list(m.vars.values()):
            if isinstance(v, IClass):
                for c in v.mro:
                    if isinstance(c, IClass) and '_read' in c.ns and isinstance(c.ns['_read'], IFunction):
                        it.contracts[c.module.name+':'+c.name+'._read'] = ev
    for m in list(it.modules.values()): stub(m)
    oc = it.call
    def call(f, args, kw=None):
        if isinstance(f, Missing):
            for a in list(args)+list((kw or {}).values()):
                if a is name or a is old: raise Parsed(a)
        return oc(f, args, kw)
    it.call = call
    d = it.libs['numpy'].d
    def reader(p, *a, **k): it.fs.need(p); raise Parsed(p)
    for n in ('fromfile', 'loadtxt', 'genfromtxt'): d[n] = Builtin(reader, 'np.'+n)
    it.libs['io'].d['open'] = it.builtins['open'] = Builtin(lambda p, mode='r', *a, **k: it.fs.open(p, mode), 'open')
    return C, name, old, ex, size
def isempty(ctx, e): return isinstance(e, IObj) and any(isinstance(c, IClass) and c.name == 'EmptyFileError' and c.module.name == 'weio.file' for c in e.cls.mro)
def body(f):
    def g():
        try: return ('returned', f())
        except Parsed as p: return ('parsed', p)
    return g
def guard_contract(cname):
    def fn(ctx):
        C, name, old, ex, size = prep(ctx, cname); it = ctx.it
        K = dict(N=(3, 4, 5)) if cname == 'MannBoxFile' else {}     # otherwise the name itself must hold the dimensions
        def post(how):
            def p(r, exc):
                if exc is None and r[0] == 'parsed':
                    ctx.prove('nothing is parsed when the file is missing', ex, how)
                    ctx.prove('nothing is parsed when the file is empty', cmp('>', size, 0), how)
                    path = r[1].path
                    ctx.prove('the parser runs on exactly the file that was named', path is name or (isinstance(path, SymStr) and path.t.eq(name.t)), '%s: parses %r' % (how, path))
                    o = r[1].obj
                    if o is not None: 
                        fnm = it.getattr(o, 'filename')
                        ctx.prove('the object remembers the name', fnm is name or (isinstance(fnm, SymStr) and fnm.t.eq(name.t)), how)
                    return
                if exc is None:
                    ctx.fail('the parser runs when there is something to parse', '%s: returns without parsing' % how); return
                e = exc.exc
                ctx.prove('a missing file raises the standard file-not-found error', orb(ex, isinstance(e, FileNotFoundError)), '%s: raises %r' % (how, e))
                ctx.prove('an empty file raises EmptyFileError', orb(notb(ex), cmp('>', size, 0), isempty(ctx, e)), '%s: raises %r' % (how, e))
                ctx.prove('the parser runs when there is something to parse', orb(notb(ex), cmp('==', size, 0)), '%s: raises %r' % (how, e))
            return p
        ctx.run(body(lambda: it.call(C, [name], K)), post('%s(filename)' % cname))
        ctx.run(body(lambda: it.call(C, [], dict(filename=name, **K))), post('%s(filename=...)' % cname))
        if cname != 'FASTInputFile':
            ctx.run(body(lambda: it.call(it.getattr(it.call(C, [], {}), 'read'), [name], K)), post('%s().read(filename)' % cname))
            def reread():
                o = it.call(C, [], {}); it.setattr(o, 'filename', old); return it.call(it.getattr(o, 'read'), [name], K)
            ctx.run(body(reread), post('re-read of another file'))
            def again():
                o = it.call(C, [], {}); it.setattr(o, 'filename', name); return it.call(it.getattr(o, 'read'), [], K)
            ctx.run(body(again), post('read() of the remembered name'))
        def nop(r, exc): ctx.prove('reading without a file name raises an exception and parses nothing', exc is not None and (isinstance(exc.exc, Exception) or (isinstance(exc.exc, IObj) and exc.exc.cls.is_exc())), 'returns %r' % (r,))
        ctx.run(body(lambda: it.call(it.getattr(it.call(C, [], {}), 'read'), [], {})), nop)
        ctx.run(body(lambda: it.call(it.getattr(it.call(C, [], {}), 'read'), [''], {})), nop)
        ctx.covers[ctx.name] = True
    return fn
for c in CLASSES:
    contract(c, ['%s.read' % c, '%s.__init__' % c], budget=60)(guard_contract(c))
@contract('File', ['File.read', 'File.__init__'])
def base(ctx):
    """the base class hands the reader options to the parser"""
    C, name, old, ex, size = prep(ctx, 'MannBoxFile'); it = ctx.it; x = ctx.real('option')
    F = ctx.get('weio.file:File')
    def post(r, exc):
        if exc is None and r[0] == 'parsed': ctx.prove('options given to the constructor reach the parser', r[1].kw is not None and set(r[1].kw) == {'opt'} and r[1].kw['opt'] is x)
    ctx.run(body(lambda: it.call(F, [name], dict(opt=x))), post)
    ctx.run(body(lambda: it.call(it.getattr(it.call(F, [], {}), 'read'), [name], dict(opt=x))), post)

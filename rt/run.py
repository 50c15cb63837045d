"""run.py PROP --tier T --seed N --budget S --out FILE [--case FILE]
Executes the run-time contracts of one property on generated inputs (or on the one case of a replay file)."""
import sys, os, json, time, argparse, importlib, tempfile, shutil, signal, traceback, io, contextlib
sys.dont_write_bytecode = True
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=120); ap.add_argument('--out'); ap.add_argument('--case')
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, a.repo)
    scr = tempfile.mkdtemp(prefix='rtc_')
    os.environ['RT_SCRATCH'] = scr
    os.environ['RT_REPO'] = a.repo
    os.environ['HOME'] = scr          # user formats directory is looked up under HOME
    res = dict(prop=a.prop, evaluations=0, kinds={}, failures=[], samples=[], skipped=0, error=None)
    t0 = time.time()
    try:
        os.chdir(scr)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            import common, numpy as np
            import weio
            assert os.path.realpath(weio.__file__).startswith(os.path.realpath(a.repo)), weio.__file__
            mod = importlib.import_module(a.prop.lower())
        def alarm(*_): raise TimeoutError('did not return within 100 s')
        signal.signal(signal.SIGALRM, alarm)
        if a.case:
            c = json.load(open(a.case)); its = [c.get('case', c)]
        else:
            its = mod.cases(np.random.default_rng(a.seed), a.tier)
        distinct = set()
        for case in its:
            if time.time()-t0 > a.budget: res['budget_hit'] = True; break
            key = json.dumps(case, sort_keys=True)
            for f in os.listdir(scr): 
                p = os.path.join(scr, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            res['evaluations'] += 1
            distinct.add(key)
            k = case.get('kind', '?'); res['kinds'][k] = res['kinds'].get(k, 0)+1
            if len(res['samples']) < 3 and res['kinds'][k] == 1: res['samples'].append(case)
            try:
                signal.alarm(100)
                with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                    mod.run(case)
            except common.Skip:
                res['skipped'] += 1
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt): raise
                tb = traceback.format_exc()[-1800:]
                res['failures'].append(dict(case=case, message='%s: %s' % (type(e).__name__, str(e)[:600]), traceback=tb))
                if len(res['failures']) >= 3: break
            finally:
                signal.alarm(0)
            buf.seek(0); buf.truncate()
        res['distinct'] = len(distinct)
    except BaseException as e:
        res['error'] = traceback.format_exc()[-3000:]
    finally:
        os.chdir('/')
        shutil.rmtree(scr, ignore_errors=True)
    res['wall_s'] = time.time()-t0
    s = json.dumps(res, indent=1, default=str)
    if a.out: open(a.out, 'w').write(s)
    else: print(s)
    return 2 if res['error'] else (1 if res['failures'] else 0)
sys.exit(main())

#!/usr/bin/env python3-vt
"""check.py PROP [quick|thorough]

Decides one property on /repo's current working tree.
 1. deductive part  (pyvc): re-parses the functions under contract from /repo, generates and discharges the obligations.
 2. run-time part (rt/): executes the same contracts on the real code over generated inputs; it is the replay
    harness for counterexamples, the differential test of pyvc's library models and the bounded stand-in for
    functions outside pyvc's reach.
Exit 0: held.  Exit 1 + "VIOLATION property=<id> replay=<path> [no-failing-input-found]": broken.  Other: error."""
import sys, os, json, time, subprocess, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
RTPY = '/opt/venv/bin/python'
EV = os.path.join(HERE, 'evidence')

def run_rt(prop, tier, seed, case=None):
    out = os.path.join(EV, 'rt_%s_%s.json' % (prop, seed))
    budget = 240 if tier == 'quick' else 3000
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    cmd = [RTPY, os.path.join(HERE, 'rt', 'run.py'), prop, '--tier', tier, '--seed', str(seed), '--budget', str(budget), '--out', out, '--repo', REPO]
    if case: cmd += ['--case', case]
    if os.path.exists(out): os.remove(out)
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget+200)
        rc = p.returncode; txt = p.stdout.decode(errors='replace')[-3000:]
    except subprocess.TimeoutExpired:
        rc = 2; txt = 'run-time contract run timed out'
    try: res = json.load(open(out))
    except Exception: res = dict(evaluations=0, failures=[], error=txt, kinds={}, samples=[], distinct=0, skipped=0)
    finally:
        if os.path.exists(out): os.remove(out)
    return rc, res

def write_replay(prop, name, d):
    p = os.path.join(EV, 'replay'); os.makedirs(p, exist_ok=True)
    f = os.path.join(p, '%s_%s.json' % (prop, name))
    json.dump(d, open(f, 'w'), indent=1, default=str)
    return f

def known():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else dict(findings=[], fixed=[])

def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2])); prop = d['property']
        if 'case' in d:
            rc, res = run_rt(prop, 'quick', 1, case=sys.argv[2])
            print(json.dumps(res['failures'], indent=1)); return rc
        print(json.dumps(d, indent=1)); return 0
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); os.makedirs(EV, exist_ok=True)
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'other')
    # ---- deductive part
    proof = None; perr = None
    try:
        from pyvc import runner
        proof = runner.prove(prop, REPO, tier)
    except Exception:
        perr = traceback.format_exc()
    # ---- run-time part
    rc, rt = run_rt(prop, tier, seed)
    kf = [k for k in known().get('findings', []) if k['property'] == prop]
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    fails = [f for f in rt['failures'] if not any(k.get('match') and k['match'] in json.dumps(f['case'], sort_keys=True) for k in kf)]
    viol = []
    for i, f in enumerate(fails):
        viol.append((write_replay(prop, 'input%d' % i, dict(property=prop, how='check.py --replay FILE, or rt/run.py %s --case FILE' % prop, **f)), ''))
    refuted = list(proof['refuted']) if proof else []
    undecided = proof['undecided'] if proof else ([dict(name='all', why=perr)] if perr else [])
    if (refuted or undecided) and not viol and not rt.get('error'):
        # an obligation is not discharged: the generators of the run-time layer with further seeds look for a concrete failing input
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: more = list(ex.map(lambda s: run_rt(prop, 'quick', s), range(seed+1, seed+9)))
        for rc2, rt2 in more:
            rt['evaluations'] += rt2['evaluations']
            new = [f for f in rt2['failures'] if not any(k.get('match') and k['match'] in json.dumps(f['case'], sort_keys=True) for k in kf)]
            if new and not viol: viol.append((write_replay(prop, 'input0', dict(property=prop, failed_obligations=refuted, **new[0])), ''))
    if refuted:
        if not viol:
            viol.append((write_replay(prop, 'obligation', dict(property=prop, failed_obligations=refuted,
                        note='no failing input found; the verifier output is attached to each obligation')), ' no-failing-input-found'))
    nob = proof['obligations'] if proof else 0; nd = proof['discharged'] if proof else 0
    wall = time.time()-t0
    cov = dict(obligations=nob, discharged=nd,
               checker_cmd='python3-vt check.py %s %s' % (prop, tier),
               trusted_base=(proof['trusted'] if proof else []) + ['z3 %s (back end of every obligation)' % zver()],
               proof_complete=bool(proof and nob and nob == nd and not undecided),
               functions_under_contract=proof['functions'] if proof else [],
               obligation_list=proof['list'] if proof else [],
               undecided=undecided, refuted=refuted,
               vacuity_checks=proof['vacuity'] if proof else 0,
               solver_time_s=round(proof['solver_s'], 2) if proof else 0,
               backend='z3 %s' % zver(),
               evaluations=rt['evaluations'], distinct_nontrivial=max(0, rt.get('distinct', 0)-rt.get('skipped', 0)),
               rule='run-time contracts (bounded, never counted as proved): cases drawn by rt/%s.py from VERIF_SEED; '
                    'a case is non-trivial when it is distinct and inside the contract precondition' % prop.lower(),
               samples=rt['samples'], runtime_kinds=rt.get('kinds'), bounded_only=proof['bounded'] if proof else ['the whole property'])
    if perr: cov['proof_error'] = perr
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=(proof['assumptions'] if proof else []), wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(EV, prop+'.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d obligations discharged (%d undecided, %d refuted), %d run-time evaluations, %d violations, %.1f s' % (
        prop, tier, nd, nob, len(undecided), len(refuted), rt['evaluations'], len(viol), wall))
    for u in undecided: print('  undecided: %s: %s' % (u.get('name'), str(u.get('why')).strip().splitlines()[-1][:300] if u.get('why') else ''))
    for u in refuted: print('  refuted: %s' % u.get('name'))
    if viol:
        for f, sfx in viol[:1]: print('VIOLATION property=%s replay=%s%s' % (prop, f, sfx))
        return 1
    if rt.get('error'):
        print('ERROR run-time part: %s' % rt['error']); return 2
    if rt['evaluations'] == 0 or (proof is not None and nob == 0 and not undecided and proof.get('expected')):
        print('ERROR: nothing was checked'); return 2
    return 0

def zver():
    import z3
    return z3.get_version_string()
if __name__ == '__main__': sys.exit(main())

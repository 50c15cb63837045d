"""Writes MANIFEST.json (run by hand when a check changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the real functions, obligations generated from the re-parsed source, discharged by z3 (pyvc)'
NOTE = {}
BND = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read())
checks = []
for i in range(1, 18):
    p = 'C%02d' % i
    lv, note = LEVELS[p]
    checks.append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
        technique=TECHS.get(lv), level=lv, level_note=note))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
   notes='check.py PROP TIER; DESIGN.md explains what is proved and what is only bounded.  No hooks are needed in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a check is claimed, every other is listed under not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from vlib import chart_checks
MODEL = 'property-based testing: generated charts and operation histories against a reference model, with shrinking'
NOTE = ('Holds for every generated case only: random charts (up to 40 states, 14 levels, 12 regions), random hook behaviour, histories of up to 40 operations; '
        'the reference model and the chart emitter are trusted. Never establishes absence.')
OTHER = {}
try: OTHER = json.load(open(V + '/tools/others.json'))
except OSError: pass
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in chart_checks.P: t, lev, note = MODEL, 'exploration', NOTE
    elif p in OTHER: t, lev, note = OTHER[p]
    else: na.append(dict(property=p, reason='the check is not built yet')); continue
    checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p, technique=t, level=lev, level_note=note))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

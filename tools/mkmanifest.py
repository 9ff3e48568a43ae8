#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property module in sim/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'sim', 'props')) if f.endswith('.py') and f[0] == 'c'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run_check.py %s --tier quick' % i,
                           thorough_cmd='/opt/venv/bin/python run_check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='deterministic simulation with fault injection: ' + TECH[i],
                           level='exploration', level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, numba"',
         hooks=dict(guard='LOP_SIM_HOOKS', enable='no hook exists: every seam is installed from outside /repo before lop is imported', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])

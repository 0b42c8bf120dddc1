#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks = []
for p in props:
    i = p['id']
    if i not in CHECKS:
        NA.setdefault(i, 'check under construction')
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=c['technique'], level='exploration', level_note=c['note']))
m = dict(version=1, setup_cmd='python3 check.py --build', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(NA), 'not applicable')

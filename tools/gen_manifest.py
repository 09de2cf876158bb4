#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plan  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in plan.CHECKS:
        na.append({'property': i, 'reason': plan.NOT_APPLICABLE.get(i, 'no check is registered for it yet')})
        continue
    c = plan.CHECKS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': c['technique'],
        'level': c['level'],
        'level_note': c['note'],
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the engines replace the synchronisation, time and system-call layers '
              'below the unmodified sources.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

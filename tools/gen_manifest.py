#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    c = CHECKS.get(i)
    if not c or 'technique' not in c:
        na.append({'property': i, 'reason': 'monitor not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 run.py %s --tier quick' % i,
        'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': c.get('technique', 'run-time monitoring'),
        'level': 'exploration',
        'level_note': c.get('note', 'Holds on every execution observed; nothing is claimed beyond the workloads described in DESIGN.md.'),
    })
m = {'version': 1,
     'setup_cmd': 'python3 run.py --setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the monitors use the public interface of the unmodified sources', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles /repo\'s current sources with the harness in /verif/harness (clang, sanitizers) and runs seeded cases; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')

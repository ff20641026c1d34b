"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PLAN:
        na.append({'property': i, 'reason': 'not claimed yet: its specification is written down in DESIGN.md but not bound to the code'})
        continue
    checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                   'technique': 'TLA+ specification, model-checked with TLC and bound to the code by trace validation (%s)' % ', '.join(
                       sorted({r['spec'] for r in PLAN[i]['runs']} | {m[0] for m in PLAN[i].get('mc', []) + PLAN[i].get('gen', [])})),
                   'level': 'model_checking', 'level_note': NOTES.get(i, NOTES['*'])})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ with TLC. No hooks in /repo: the checks observe public calls.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')

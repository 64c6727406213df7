#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
CLAIMED = json.load(open(f'{V}/bin/claimed.json'))
checks, na = [], []
for p in props:
    c = CLAIMED['claimed'].get(p['id'])
    if c:
        checks.append({'property': p['id'],
                       'quick_cmd': f"python3 bin/check.py --property {p['id']} --tier quick",
                       'thorough_cmd': f"python3 bin/check.py --property {p['id']} --tier thorough",
                       'technique': c['technique'], 'level': 'model_checking', 'level_note': c['note']})
    else:
        na.append({'property': p['id'], 'reason': CLAIMED['not_applicable'][p['id']]})
json.dump({'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specification in spec/, checked with TLC; the code is bound to it by replaying generated behaviours and validating the recorded traces with TLC. No hooks in /repo.'},
          open(f'{V}/MANIFEST.json', 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json
T = json.load(open('checks.json'))
checks = []
for c in T['checks']:
    cmd = 'bash run.sh ' + c['property']
    checks.append({'property': c['property'], 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
                   'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
json.dump({'version': 1, 'setup_cmd': 'bash run.sh build', 'checks': checks, 'not_applicable': T['not_applicable']},
          open('MANIFEST.json', 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/groups.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from groups import PROPS, TECH, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': TECH.get(i, 'property-based testing: generated inputs against a reference model'),
                       'level': 'exploration',
                       'level_note': 'Generated-input search over the real code (choice-sequence property testing with coverage-guided '
                                     'mutation, shrinking and replay files); see DESIGN.md section ' + i + '.'})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were needed in /repo. Every check rebuilds the code under test from /repo with ASan, bounds checks and '
              'coverage counters, linked with the stand-ins for libswiftnav and libsbp in shim/.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

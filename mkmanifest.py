#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables here."""
import json
import os
import sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
import lints

TECH = 'abstract interpretation of MIR, traces partitioned by the format grammar'
NOTE = ('Every path of every function that consumes input is compared with the grammar rule it implements: what it accepts, '
        'what it rejects, how much it consumes and the value it returns. Parts that the abstraction cannot decide are counted '
        'as undecided in the evidence and never reported. Trusts rustc\'s MIR, the models of std functions and the grammar file.')
T = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in lints.GRAMMAR or 'lint_' + i in vars(lints):
        t, n = getattr(lints, 'NOTES', {}).get(i, (TECH, NOTE))
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: /repo is compiled to MIR, never executed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  Run after the units of a property exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> (what is proved for all inputs, what is bounded or assumed)
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
TECH = ('contract-based deductive verification of the real Python code '
        '(PyVC: symbolic execution by CPython, callee contracts, loop '
        'invariants, z3)')
PENDING = 'no units yet (in progress)'
NA = {}
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in NA or i not in NOTES:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
        continue
    lvl, note = NOTES[i]
    checks.append({
        'property': i, 'quick_cmd': f'./check {i}',
        'thorough_cmd': f'./check {i} --thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH if lvl == 'proof' else
        TECH + '; the deciding unit is a bounded stand-in',
        'level': lvl, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo: the checks instrument the imported '
                    'modules in the process of the check.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1,
          ensure_ascii=False)

#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the reasons for those that do not."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
T = {'default': 'symbolic execution of the instrumented LLVM IR and NumPy loops, residues decided by z3'}
exec(open(R + '/tools/manifest_notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(R + '/checks/%s.py' % i.lower()): na.append({'property': i, 'reason': 'check under construction'}); continue
    checks.append({'property': i, 'quick_cmd': 'python3 checks/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, TECH['*']), 'level': 'other', 'level_note': NOTE.get(i, NOTE['*'])})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check rebuilds the native module from /repo (instrumented, and plain for replay) in a scratch directory it removes.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

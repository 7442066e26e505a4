#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, cases.py and the reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import cases
NA = cases.NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in cases.P:
        P = cases.P[i]
        c = {'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough',
             'technique': 'symbolic execution of the LLVM IR of the current sources, bit-vector SMT queries (z3), counterexamples and sampled paths replayed natively' + P.get('technique', ''),
             'level': 'model_checking', 'level_note': ('Bounded: ' + P['bounds'] + ('. Outside: ' + P['outside'] if P.get('outside') else ''))[:1500]}
        checks.append(c)
    else: na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Known and repaired defects: known_findings.txt. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

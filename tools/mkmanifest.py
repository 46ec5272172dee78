#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when harness/props holds harnesses for it."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not (glob.glob(V + '/harness/props/%s.cpp' % i) or glob.glob(V + '/harness/props/%s_*.cpp' % i)):
        na.append({'property': i, 'reason': 'not yet encoded: no harness has been written for it so far'}); continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the LLVM bitcode of the real headers, every branch and assertion decided by Z3', 'level': 'model_checking',
        'level_note': 'All values of all symbolic inputs within the stated bounds (container sizes, operand counts; see bounds in the evidence). Trusts: clang-18 front end, the executor (cross-checked natively on one model per path), Z3, a plain search tree standing in for libstdc++ rebalancing.'})
json.dump({'version': 1, 'setup_cmd': 'make -s -C engine B=/verif/build 2>/dev/null || make -s -C engine B=$PWD/build',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile /repo/include as it is', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
    'notes': 'check.py PROP [quick|thorough] compiles harness/props/PROP*.cpp against /repo/include to LLVM bitcode and runs engine/sx on every entry. known_findings.json lists defects found (fixed ones suppress nothing).'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')

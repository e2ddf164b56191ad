#!/usr/bin/env python3
"""MANIFEST.json from the contracts that exist"""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
checks, na = [], []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)['id']
    f = HERE + '/contracts/%s.py' % p.lower()
    if not os.path.exists(f):
        na.append({'property': p, 'reason': NA.get(p, 'no contract built yet')})
        continue
    m = importlib.import_module('contracts.' + p.lower())
    level = getattr(m, 'LEVEL', 'proof')
    checks.append({
        'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
        'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification: verification conditions generated from the LLVM IR of the real templates, discharged by z3'),
        'level': level,
        'level_note': getattr(m, 'NOTE', 'all inputs and iterations; arithmetic on values is treated as real arithmetic and sizes are assumed not to overflow; '
                                         'the LLVM front end, the allocator, the C++ library exceptions and the verification-condition generator are trusted; concrete runs under sanitizers cross-check the contracts')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks in /repo: the entry functions in harness/ include the unmodified headers.'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

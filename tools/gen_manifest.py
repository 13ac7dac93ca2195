#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import checks
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in sorted(checks.PROPS):
    m['checks'].append({
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': checks.TECHNIQUE.get(p, checks.TECHNIQUE['default']),
        'level': checks.LEVEL.get(p, 'exploration'),
        'level_note': checks.NOTE.get(p, checks.NOTE['default']),
    })
m['not_applicable'].append({
    'property': 'C22',
    'reason': 'data-race freedom of whole programs quantifies over the schedules of arbitrary client threads; the contracts '
              'here are sequential, and the parts a contract can express (atomic counts, the lock discipline of atom) are C16 and C17'})
m['notes'] = 'deductive contracts over the LLVM IR of the real headers; see DESIGN.md'
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks_table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_table import CHECKS  # noqa

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': 'Not claimed yet: the check is being built.'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
        'technique': c.get('technique', 'property-based testing: seeded choice-tape generators, reference model oracle, sanitizers, shrinking'
                           + ('; libFuzzer in the thorough tier' if c.get('fuzz', True) else '')),
        'level': 'exploration',
        'level_note': c.get('note', 'Generated-input search against an explicit oracle, never a proof of absence. Trusts the compiler, the '
                            'sanitizers and the models in lib/nd.h and the check source; bounded sizes as stated in DESIGN.md.'),
    })
m = {'version': 1, 'setup_cmd': 'python3 run.py --self-test', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the library is header-only and is observed through its public API, its allocator and its element types.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

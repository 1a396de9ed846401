#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 /verif/run.py --setup',
    'checks': [],
    'not_applicable': [],
    'notes': 'All checks are property-based tests (pgregory.net/rapid) driven by run.py; checks.py lists the tests and case counts. '
             'No hooks in /repo: black-box tests use the public API, in-package tests are added by an overlay at build time.',
}
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        m['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': 'python3 /verif/run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 /verif/run.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c.get('technique', 'stateful property-based testing (rapid) against an independent reference implementation'),
        'level': 'exploration',
        'level_note': c.get('note', 'Randomised search over generated histories with shrinking; no exhaustiveness. Trusts the reference implementation in ref/, rapid and the Go standard library.'),
    })
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

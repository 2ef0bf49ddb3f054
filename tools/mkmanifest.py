#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({
            'property': p, 'quick_cmd': 'python3 check.py ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
            'evidence_file': 'evidence/%s.json' % p, 'technique': c['technique'],
            'level': c['level'], 'level_note': c['level_note']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(
            p, 'The check of this property is not built yet.')})
for p in CHECKS:
    assert p in props, p
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')

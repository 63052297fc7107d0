#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property files that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE)
from config import CONFIG
T = {}
checks, na = [], []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    c = CONFIG.get(i, {})
    if os.path.exists('%s/harness/props/%s.cpp' % (HERE, i)) or c.get('runner'):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique=c.get('technique', 'property-based testing: rapidcheck generators with shrinking + exhaustive enumeration + libFuzzer, against an independent reference model'),
            level='exploration',
            level_note=c.get('level_note', 'Generated-input search: no violation among the cases explored (counts in the evidence); finite sub-spaces named there are enumerated completely. Trusts the reference model, compilers and sanitizers.')))
    else:
        na.append(dict(property=i, reason='no check has been built yet'))
json.dump(dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
    notes='No hooks are needed: the checks use the public API of /repo/src only.'), open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

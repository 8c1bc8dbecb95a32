#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/props.py's list of claimed properties (claims.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
claims = json.load(open(V + '/tools/claims.json'))
checks = []
for i in ids:
    c = claims['claimed'].get(i)
    if c is None:
        continue
    checks.append({
        'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': claims['techniques'][c[0]], 'level': c[1], 'level_note': claims['notes'][c[2]] + (' ' + c[3] if len(c) > 3 else '')})
na = [{'property': i, 'reason': claims['na'].get(i, 'the check is under construction')} for i in ids if i not in claims['claimed']]
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the verifier reads the unmodified sources. ./check PROPERTY --replay FILE replays a violation.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

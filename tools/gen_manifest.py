#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the specifications present."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'na.json')))
LV = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, 'specs', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'no check yet'})
        continue
    lv = LV.get(i, {})
    checks.append({
        'property': i,
        'quick_cmd': '/usr/bin/python3 check.py %s quick' % i,
        'thorough_cmd': '/usr/bin/python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': lv.get('technique', 'abstract interpretation of the compiled source (path-sensitive value analysis)'),
        'level': 'other',
        'level_note': lv.get('note', LV['default']['note']),
    })
json.dump({'version': 1, 'setup_cmd': '/usr/bin/python3 -c "import sys; assert sys.version_info[:2] == (3, 12)"',
           'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: the checks parse and abstractly interpret /repo; they never import or run it.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

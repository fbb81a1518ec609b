#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. Claimed properties and how they are decided.
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
claims = json.load(open(os.path.join(here, 'tools', 'claims.json')))
checks = []
for i in ids:
    if i in claims:
        t, n = claims[i]
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
            technique=t, level='exploration', level_note=n))
m = dict(version=1, setup_cmd='bash setup.sh',
    hooks=dict(guard='none', enable='no hooks: the checks use the public API only', source_commits=[]),
    checks=checks,
    not_applicable=[dict(property=i, reason='not claimed yet: the check is being built') for i in ids if i not in claims],
    notes='see DESIGN.md')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

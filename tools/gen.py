#!/usr/bin/env python3
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPERTIES, NOT_APPLICABLE  # noqa: E402
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPERTIES + [n['prop'] for n in NOT_APPLICABLE]:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
for p in PROPERTIES:
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                   'technique': 'deterministic simulation with fault injection (seeded schedule and fault search)', 'level': 'exploration',
                   'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks,
     'not_applicable': [{'property': n['prop']['id'], 'reason': n['reason']} for n in NOT_APPLICABLE]}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPERTIES), 'properties', len(NOT_APPLICABLE), 'not applicable')

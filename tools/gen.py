#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/spec.py (a property is claimed when checks/<id>.py exists)"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from spec import P  # noqa: E402

with open(os.path.join(H, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'],
                                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    elif os.path.exists(os.path.join(H, 'checks', p['id'].lower() + '.py')):
        cmd = 'python3-vt check.py --property %s' % p['id']
        checks.append({'property': p['id'], 'quick_cmd': cmd + ' --tier quick', 'thorough_cmd': cmd + ' --tier thorough',
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else:
        print('no check for', p['id'])
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import ast, json"', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: the checks read /repo and never import or run it.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w', encoding='utf8'), indent=1, ensure_ascii=False)

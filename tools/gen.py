#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS, NA

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        if p.get('state'):
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    c = {'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
         'technique': p['tech'], 'level': p.get('level', 'other'), 'level_note': p['note']}
    checks.append(c)
man = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py sa/*.py checks/*.py', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')

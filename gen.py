#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json, os
from meta import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='true',
  checks=[dict(property=p['id'], quick_cmd='python3 vf.py %s --tier quick' % p['id'], thorough_cmd='python3 vf.py %s --tier thorough' % p['id'],
               technique=p['technique'], level=p['level'], level_note=p['note']) for p in PROPS if not p['na']],
  not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p['na']],
  notes='No hooks: the contracts are redeclarations kept in /verif/specs, compiled together with the real /repo sources by #include. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

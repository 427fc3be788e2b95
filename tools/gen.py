#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Generates properties.jsonl and MANIFEST.json from tools/props.py (and validates them when jsonschema is there)."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props

order = sorted(props.PROPS, key=lambda p: p['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as F:
    for p in order:
        F.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['q']),
            why_tests_cant=p['why'],
            anchors=dict(
                files=p['files'],
                mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                observe_at=p.get('observe', []),
                hook_needed=None,
            ))) + '\n')
checks = []
na = []
for p in order:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd='./check.sh {0} quick'.format(p['id']),
        thorough_cmd='./check.sh {0} thorough'.format(p['id']),
        evidence_file='evidence/{0}.json'.format(p['id']),
        technique=p['tech'],
        level=p.get('level', 'model_checking'),
        level_note=p['note'],
    ))
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
           hooks=dict(guard='PHASOR_VERIF', enable='no hooks are needed: the checks drive the public interfaces of the unmodified package', source_commits=[]),
           notes='Python engine in mc/, one module of families per property in checks/. See DESIGN.md.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as F:
    F.write(json.dumps(man, indent=1) + '\n')
try:
    import jsonschema
    S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(root, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), S)
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(order), 'properties')
except ImportError:
    print('not validated')
for p in order:
    assert len(p['title']) <= 80, p['id']
    if not p.get('na') and not os.path.exists(os.path.join(root, 'checks', p['id'] + '.py')):
        print('no check for', p['id'])

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties_src.py (the single source)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties_src import PROPS, NOT_APPLICABLE  # noqa

props, checks = [], []
for p in PROPS:
    d = dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['quant']),
        why_tests_cant=p['why'],
        anchors=dict(files=p['files'],
                     mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                     hook_needed=None))
    assert len(d['title']) <= 80, d['title']
    props.append(d)
    if os.path.exists(os.path.join(VERIF, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(
            property=p['id'], quick_cmd=f"./run {p['id']} --tier quick",
            thorough_cmd=f"./run {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p['technique'], level='model_checking', level_note=p['note']))
    else:
        assert p['id'] in NOT_APPLICABLE, p['id'] + ' has neither check nor reason'
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for d in props:
        f.write(json.dumps(d) + '\n')
man = dict(
    version=1, setup_cmd='./run setup', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
    notes='No hooks in /repo: every check drives the public API of the code in /repo from /verif.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(props), 'properties,', len(checks), 'checks')

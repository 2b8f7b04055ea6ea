#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, tools/properties_src.py, the SYSTEMS of the checks (names and
bounds), known_findings.jsonl, seeded/*/meta.json and tools/detection.json.

Run with the venv python:  JAX_PLATFORMS=cpu PYTHONPATH=/repo /opt/venv/bin/python tools/design.py
"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
from properties_src import PROPS, NOT_APPLICABLE  # noqa
from design_text import HEAD, ORACLE, COST, NOTES  # noqa


def main():
    out = [HEAD.strip(), '', '## The properties and how each is decided', '']
    for p in PROPS:
        m = importlib.import_module('checks.' + p['id'].lower())
        out += [f"### {p['id']} {p['title']}", '']
        out += [f"*Quantifier*: {p['quant']}.", '']
        out += ['*Explored* (system: bound; all of it is executed on the real code):', '']
        for s in m.SYSTEMS:
            b = getattr(s, 'bound', '') or 'all listed cases (finite list in the module)'
            out.append(f'- `{s.name}`: {b}')
        out += ['', '*Oracle*: ' + ORACLE[p['id']], '']
        out += [f"*Why tests cannot settle it*: {p['why']}", '']
        a = '; '.join(m.ASSUMPTIONS) if getattr(m, 'ASSUMPTIONS', None) else 'none beyond the bounds'
        out += [f'*Assumes*: {a}. *Cost* (quick tier, idle sandbox): {COST[p["id"]]}.', '']
    if NOT_APPLICABLE:
        out += ['## Not applicable', '']
        out += [f'- {k}: {v}' for k, v in NOT_APPLICABLE.items()] + ['']
    else:
        out += ['No property is listed under `not_applicable`.', '']
    out += ['## Genuine defects found and repaired', '',
            'Every entry is one `fix:` commit in /repo, also listed in `known_findings.jsonl` as `fixed:` (which suppresses nothing:',
            'the check that found it reports it again if it returns).  There are no open findings.', '']
    for line in open(os.path.join(VERIF, 'known_findings.jsonl')):
        d = json.loads(line)
        out.append('- ' + d['property'] + ' `' + d['commit'] + '`: ' + d['what'].split(d['commit'], 1)[1].strip())
    out += ['', NOTES.strip(), '']
    det = json.load(open(os.path.join(HERE, 'detection.json')))
    out += ['## Planted bugs and which check catches them', '',
            '| planted bug | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*'))):
        i = os.path.basename(d)
        m = json.load(open(os.path.join(d, 'meta.json')))
        out.append(f"| {i} | {m['property']} | {m['needs']} | {det.get(i, 'not run')} |")
    out.append('')
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()

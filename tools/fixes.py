#!/usr/bin/env python3
"""Writes the 'fixed' entries of known_findings.jsonl from the fix: commits of /repo (dev-time tool, never run by a check)."""
import json, subprocess, sys, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # first words of the commit subject -> property
    ('TransitionBatch', 'C03'), ('PrioritizedReplayBuffer', 'C05'), ('batched SegmentTree', 'C07'), ('SegmentTree', 'C07'),
    ('SumTree', 'C08'), ('ConnectFourEnv', 'C10'), ('TrainMonitor', 'C12'), ('BoxActionsTo', 'C14'), ('MetaPolicyEnv', 'C13'),
    ('TD updates', 'C17'), ('TD targets', 'C16'), ('StochasticQ/StochasticV', 'C20'), ('Q and TransitionModel', 'C20'),
    ('EmpiricalQuantileDist.sample', 'C22'), ('PolicyObjective', 'C19'), ('value-based', 'C21'), ('log-propensity', 'C21'),
    ('RandomPolicy', 'C21'), ('NormalDist.affine', 'C22'), ('NormalDist/Squashed', 'C23'), ('SquashedNormalDist.log', 'C22'),
    ('DiscretizedIntervalDist.pre', 'C22'),
]
EXTRA = os.path.join(VERIF, 'tools', 'fixmap.json')
if os.path.exists(EXTRA):
    MAP = [tuple(x) for x in json.load(open(EXTRA))] + MAP
old = [json.loads(l) for l in open(os.path.join(VERIF, 'known_findings.jsonl')) if l.strip()]
out = [o for o in old if o['kind'] != 'fixed']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    prop = next((p for k, p in MAP if s.startswith(k)), None)
    assert prop, s
    out.append(dict(property=prop, kind='fixed', commit=h, match='', what=f'fixed: property={prop} {h} {s}'))
with open(os.path.join(VERIF, 'known_findings.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
print(len(out))

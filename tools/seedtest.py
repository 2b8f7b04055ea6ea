#!/usr/bin/env python3
"""seedtest.py [--no-tests] [--all-checks] ID...: validates planted bugs in a scratch worktree and runs the checks on them."""
import json
import os
import subprocess
import sys
import tempfile
import time
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
args = [a for a in sys.argv[1:] if not a.startswith('--')]
tests = '--no-tests' not in sys.argv
ids = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
for id in ids:
    d = os.path.join(VERIF, 'seeded', id)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    with tempfile.TemporaryDirectory() as t:
        wt = os.path.join(t, 'wt')
        subprocess.run(['git', '-C', REPO, 'worktree', 'add', '-q', '--detach', wt, 'HEAD'], check=True)
        try:
            demo = lambda: subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=wt, capture_output=True, text=True, timeout=300)  # noqa
            r0 = demo()
            ap = subprocess.run(['git', '-C', wt, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
            if ap.returncode:
                print(id, 'PATCH DOES NOT APPLY', ap.stderr)
                continue
            r1 = demo()
            tres = 'skipped'
            if tests:
                x = os.path.join(t, 'j.xml')
                subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + x,
                                '-o', 'python_files=test_*.py *_test.py *_test_*.py', 'coax'],
                               cwd=wt, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=wt, JAX_PLATFORMS='cpu'))
                ok = {c.get('classname') + '::' + c.get('name') for c in ET.parse(x).getroot().iter('testcase') if not len([e for e in c if e.tag in ('failure', 'error', 'skipped')])}
                bad = sorted(base - ok)
                tres = 'ok' if not bad else 'TESTS FAIL ' + ' '.join(bad[:3])
            t0 = time.time()
            c = subprocess.run(['./run', meta['property'], '--tier', 'quick'], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick'))
            caught = c.returncode == 1 and ('VIOLATION property=' + meta['property']) in c.stdout
            print(f"{id} {meta['property']} demo clean={r0.returncode} patched={r1.returncode} tests={tres} check={'CAUGHT' if caught else 'missed rc=%d' % c.returncode} {time.time()-t0:.0f}s", flush=True)
            if r0.returncode:
                print(r0.stdout[-800:], r0.stderr[-1500:])
            if '-v' in sys.argv or c.returncode not in (0, 1):
                print(c.stdout[-1500:], c.stderr[-1500:])
        finally:
            subprocess.run(['git', '-C', REPO, 'worktree', 'remove', '--force', wt], check=True)

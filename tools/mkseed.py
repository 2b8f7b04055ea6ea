"""Helper for planting bugs: seed(id, prop, [(file, old, new)...], needs, breaks, demo) writes seeded/<id>/."""
import json
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')
SH = '''#!/bin/bash
# cwd: the repository under test
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(VERIF, 'seeded', id)
    with tempfile.TemporaryDirectory() as t:
        wt = os.path.join(t, 'wt')
        subprocess.run(['git', '-C', REPO, 'worktree', 'add', '-q', '--detach', wt, 'HEAD'], check=True)
        try:
            for f, old, new in edits:
                p = os.path.join(wt, f)
                s = open(p).read()
                assert s.count(old) == 1, (id, f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True, check=True).stdout
        finally:
            subprocess.run(['git', '-C', REPO, 'worktree', 'remove', '--force', wt], check=True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', id)

"""Entry point: python -m mc.run <property-id> [--tier quick|thorough] [--replay FILE] [--only SYS]"""
import argparse
import importlib
import json
import os
import sys
import time
import warnings

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('JAX_PLATFORM_NAME', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('SDL_VIDEODRIVER', 'dummy')
os.environ.setdefault('RAY_USAGE_STATS_ENABLED', '0')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from mc import core  # noqa: E402

sys.path.insert(0, core.REPO)

LEVEL = 'model_checking'
GRACE = 20      # s that the other processes get once one has found a violation
HANG = 750      # s after which code that does not return counts as a violation (quick checks take 20 .. 90 s)


def write_replay(prop, system, case, msg):
    d = os.path.join(core.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}.json')
    with open(path, 'w') as f:
        json.dump(core.jsonable({
            'property': prop, 'system': system, 'case': case, 'message': msg,
            'replay_cmd': f'cd /verif && ./run {prop} --replay {path}'}), f, indent=1)
    return path


def load_systems(prop):
    """Import the check (and with it the code under test)."""
    mod = importlib.import_module(f'checks.{prop.lower()}')
    return mod, (mod.SYSTEMS() if callable(mod.SYSTEMS) else mod.SYSTEMS)


def run_jobs(prop, tier, seed, jobs, only, st_out):
    """Parallel driver: shards of the enumerated case list, each in its own process."""
    import subprocess
    import tempfile
    procs = []
    tmp = tempfile.mkdtemp(prefix='mcshard')
    try:
        for i in range(jobs):
            out = os.path.join(tmp, f'{i}.json')
            cmd = [sys.executable, '-m', 'mc.run', prop, '--tier', tier,
                   '--shard', f'{i}/{jobs}', '--shard-out', out]
            if only:
                cmd += ['--only', only]
            procs.append((subprocess.Popen(cmd, cwd=core.VERIF), out))
        results, left, deadline, t0 = {}, list(procs), None, time.time()
        while left:
            for p, out in list(left):
                rc = p.poll()
                if rc is None:
                    continue
                left.remove((p, out))
                if not os.path.exists(out):
                    r = {'crash': f'died (rc={rc})'}
                else:
                    r = json.load(open(out))
                results[out] = r
                if deadline is None and ('crash' in r or r['violation']):
                    deadline = time.time() + GRACE     # the verdict is settled: do not wait for the rest for ever
            if tier == 'quick' and deadline is None and time.time() - t0 > HANG:
                for p, out in left:
                    results[out] = {'crash': f'did not finish within {HANG} s'}
                break
            if deadline is not None and time.time() > deadline:
                break
            time.sleep(.05)
        return [results[out] for _, out in procs if out in results]
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def explore(prop, tier, seed, only, shard, budget):
    """-> dict(result of this shard)"""
    st = core.Stats()
    st.tier, st.seed = tier, seed
    res = {'violation': None, 'known': []}
    findings = core.known_findings(prop)
    t0 = time.time()
    try:
        mod, systems = load_systems(prop)
    except Exception as e:
        import traceback
        traceback.print_exc()
        res['violation'] = ['<import>', None, core.describe(e)]
        systems = []
    idx = 0
    for s in systems:
        if only and s.name != only:
            continue
        before = (st.states, st.transitions, st.traces)
        n = 0
        gen = s.cases(tier)
        while True:
            try:
                case = next(gen)
            except StopIteration:
                break
            except Exception as e:
                import traceback
                traceback.print_exc()
                res['violation'] = [s.name, None, core.describe(e)]
                break
            idx += 1
            if shard and idx % shard[1] != shard[0]:
                continue
            n += 1
            st.evaluations += 1
            try:
                s.run(case, st)
            except Exception as e:
                c = getattr(e, 'case', case)
                msg = core.describe(e)
                key = json.dumps([s.name, core.jsonable(c)])
                hit = [f for f in findings if f['match'] in key + ' ' + msg]
                if hit:
                    res['known'].append(hit[0]['what'])
                    continue
                if not isinstance(e, core.Violation):
                    import traceback
                    traceback.print_exc()
                res['violation'] = [s.name, core.jsonable(c), msg]
                break
        st.per_system[s.name] = {
            'cases': n, 'states': st.states - before[0],
            'transitions': st.transitions - before[1], 'traces': st.traces - before[2],
            'bound': s.bound}
        if res['violation']:
            break
    res.update(states=st.states, transitions=st.transitions, traces=st.traces,
               evaluations=st.evaluations, outcomes=len(st.outcomes),
               samples=core.jsonable(st.samples), per_system=st.per_system, caps=st.caps,
               wall=time.time() - t0)
    return res


def merge(results):
    out = {'violation': None, 'known': [], 'states': 0, 'transitions': 0, 'traces': 0,
           'evaluations': 0, 'outcomes': 0, 'samples': [], 'per_system': {}, 'caps': []}
    for r in results:
        if 'crash' in r:
            out['violation'] = out['violation'] or [
                '<process>', None, f"a checker process {r['crash']} while running the code"]
            continue
        out['violation'] = out['violation'] or r['violation']
        out['known'] += r['known']
        for k in ('states', 'transitions', 'traces', 'evaluations', 'outcomes'):
            out[k] += r[k]
        out['samples'] += r['samples'][:3]
        out['caps'] += r['caps']
        for name, d in r['per_system'].items():
            e = out['per_system'].setdefault(
                name, {'cases': 0, 'states': 0, 'transitions': 0, 'traces': 0, 'bound': d['bound']})
            for k in ('cases', 'states', 'transitions', 'traces'):
                e[k] += d[k]
    out['samples'] = out['samples'][:10]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--shard')
    ap.add_argument('--shard-out')
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    if prop == 'setup':
        import coax  # noqa: F401  (nothing to build: the checks import /repo directly)
        print('coax imported from', coax.__file__)
        return 0
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1

    if args.replay:
        d = json.load(open(args.replay))
        st = core.Stats()
        st.tier, st.seed = tier, seed
        try:
            mod, systems = load_systems(prop)
            s = {s.name: s for s in systems}[d['system']]
            s.run(core._tuplify(d['case']) if d['case'] is not None else None, st)
        except Exception as e:
            print('reproduced:', core.describe(e))
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        print('not reproduced')
        return 0

    if args.shard:
        i, n = map(int, args.shard.split('/'))
        r = explore(prop, tier, seed, args.only, (i, n), None)
        with open(args.shard_out, 'w') as f:
            json.dump(r, f)
        return 0

    t0 = time.time()
    jobs = args.jobs or JOBS.get(prop, 2)
    if jobs > 1:
        res = merge(run_jobs(prop, tier, seed, jobs, args.only, None))
    else:
        res = merge([explore(prop, tier, seed, args.only, None, None)])
    wall = time.time() - t0
    v = res['violation']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': {
            'states': res['states'], 'transitions': res['transitions'],
            'traces_validated_against_impl': res['traces'],
            'cases_enumerated': res['evaluations'],
            'distinct_outcomes': res['outcomes'],
            'samples': res['samples'] or ['(none)'],
            'systems': res['per_system'],
            'exhaustive': not res['caps'] and v is None,
            'caps_hit': res['caps'],
        },
        'assumptions': getattr(sys.modules.get(f'checks.{prop.lower()}'), 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': 0 if v is None else 1,
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for what in sorted(set(res['known'])):
        print(f'KNOWN-FINDING: property={prop} {what}')
    print(f"{prop} tier={tier}: cases={res['evaluations']} states={res['states']} "
          f"transitions={res['transitions']} traces={res['traces']} "
          f"distinct_outcomes={res['outcomes']} wall={wall:.1f}s")
    if v is not None:
        path = write_replay(prop, *v)
        print(f'[{v[0]}] {v[2]}')
        print(f'case: {json.dumps(v[1])[:2000]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


JOBS = {}
_jobs_file = os.path.join(core.VERIF, 'mc', 'jobs.json')
if os.path.exists(_jobs_file):
    JOBS = json.load(open(_jobs_file))

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

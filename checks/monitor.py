"""TrainMonitor: bookkeeping (C11), metrics / periods / checkpoints (C12)."""
import copy
import math
import os
import shutil
import tempfile
import time

import numpy as np
import tensorboardX

EVENTS = []      # (dir, kind, tag, value, step)
_real_time = time.time
CLOCK = [None]   # owned clock


def _time():
    return _real_time() if CLOCK[0] is None else CLOCK[0]


class Recorder:
    """stand-in for the tensorboard writer: records, writes no file"""

    def __init__(self, logdir=None, *a, **k):
        self.logdir = logdir

    def add_scalar(self, tag, scalar_value, global_step=None, *a, **k):
        EVENTS.append((self.logdir, 'scalar', tag, float(scalar_value), global_step))

    def add_histogram(self, tag, values, global_step=None, bins=None, *a, **k):
        EVENTS.append((self.logdir, 'hist', tag, [float(np.sum(v)) for v in values], global_step))

    def flush(self):
        EVENTS.append((self.logdir, 'flush', None, None, None))

    def close(self):
        pass

    def __deepcopy__(self, memo):
        raise TypeError('a live writer was copied')

    def __reduce__(self):
        raise TypeError('a live writer was pickled')


tensorboardX.SummaryWriter = Recorder
time.time = _time

import gymnasium                                   # noqa: E402
import cloudpickle                                 # noqa: E402
from coax.wrappers import TrainMonitor             # noqa: E402
from mc.core import BFS, check                     # noqa: E402
from mc.util import snapshot, expect_raises        # noqa: E402

DIRS = ['/nonexistent/tb/20200101_000000', '/nonexistent/tb/20210101_000000']


INFO = {'TimeLimit.truncated': True, 'monitor': 'old', 'a': 7, 'T': 3, 'episode': {'r': 1.0}}


class Env(gymnasium.Env):
    """outcome of the next call is dictated by the harness"""
    observation_space = gymnasium.spaces.Discrete(100)
    action_space = gymnasium.spaces.Discrete(4)

    def __init__(self):
        self.nxt = None
        self.got = []

    def reset(self, **kw):
        self.got.append(('reset', kw))
        return self.nxt

    def step(self, a):
        self.got.append(a)
        return self.nxt


class M:
    """reference"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.dir = DIRS[0] if cfg['tb'] else None
        self.clock = 1000.0
        self.n = 0
        self.slots = {}
        self.touched = set()   # slots that were restored (the monitor must not go on to share state with them)
        self.zero()

    def zero(self):
        self.T = self.ep = self.t = 0
        self.G = self.avg_G = 0.0
        self.n_avg = 0
        self.start = self.clock
        self.metrics = {}
        self.actions = []
        self.fired = {}

    FIELDS = ('T', 'ep', 't', 'G', 'avg_G', 'n_avg', 'start', 'metrics', 'actions', 'fired', 'dir')

    def save(self):
        return copy.deepcopy({k: getattr(self, k) for k in self.FIELDS})

    def load(self, d):
        for k, v in copy.deepcopy(d).items():
            setattr(self, k, v)

    def key(self):
        return repr((self.save(), self.clock, self.n, sorted(self.slots.items()), sorted(self.touched)))


def feq(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def eventset(evs):
    return sorted(repr((d, k, t, [round(x, 6) for x in v] if isinstance(v, list) else round(float(v), 6) if not math.isnan(v) else 'nan', s))
                  for d, k, t, v, s in evs if k != 'flush')


class Monitor(BFS):
    split = 8

    def __init__(self, name, alphabet, configs, bound):
        self.name, self.alphabet, self._configs, self.bound = name, alphabet, configs, bound

    def configs(self, tier):
        return self._configs(tier)

    def depth(self, cfg, tier):
        return cfg['depth']

    def build(self, cfg):
        m = M(cfg)
        CLOCK[0] = m.clock
        try:
            env = TrainMonitor(Env(), tensorboard_dir=m.dir, tensorboard_write_all=cfg.get('all', False),
                               smoothing=cfg['smoothing'], level=50)
        finally:
            CLOCK[0] = None
        m.snap = {}
        m.frozen = {}
        m.arrays = {}
        return env, m

    def clone(self, env, m):
        CLOCK[0] = m.clock
        try:
            out = copy.deepcopy((env, m))   # jointly: whatever a snapshot shares with the monitor it shares in the copy, too
            for k, v in vars(env).items():  # a live writer (stateless here) stays live: copying drops it
                if isinstance(v, Recorder):
                    out[0].__dict__[k] = v
            return out
        finally:
            CLOCK[0] = None

    def ops(self, cfg, tier, m):
        return self.alphabet(cfg, m)

    def apply(self, env, m, op):
        del EVENTS[:]
        expect = []
        CLOCK[0] = m.clock
        try:
            if m.cfg.get('repickle'):
                env2 = cloudpickle.loads(cloudpickle.dumps(env))
                env.__dict__.clear()
                env.__dict__.update(env2.__dict__)
            getattr(self, 'op_' + op[0])(env, m, expect, *op[1:])
        finally:
            CLOCK[0] = None
        got, want = eventset(EVENTS), eventset(expect)
        check(got == want, 'logged after %s: %s\nexpected %s', op, got, want)

    # ---- operations
    def op_reset(self, env, m, expect):
        if m.ep and m.dir:
            avg_r = m.G / m.t if m.t else float('nan')
            dt = 1000 * (m.clock - m.start) / m.t if m.t else float('nan')
            for k, v in (('episode/episode', m.ep), ('episode/avg_reward', avg_r), ('episode/return', m.G),
                         ('episode/steps', m.t), ('episode/avg_step_duration_ms', dt)):
                expect.append((m.dir, 'scalar', k, v, m.T))
            if m.actions:
                expect.append((m.dir, 'hist', 'actions', [float(a) for a in m.actions], m.T))
            if not m.cfg.get('all'):
                for k, vs in m.metrics.items():
                    expect.append((m.dir, 'scalar', k, sum(vs) / len(vs), m.T))
        m.n += 1
        env.unwrapped.nxt = ('obs', m.n), {'info': m.n}
        kw = {} if m.n % 2 else {'seed': m.n, 'options': {'q': m.n}}
        out = env.reset(**kw)
        check(out == (('obs', m.n), {'info': m.n}), 'reset returned %s', out)
        check(env.unwrapped.got[-1] == ('reset', kw), 'reset with %s reached the env as %s', kw, env.unwrapped.got[-1])
        m.T += 1
        m.ep += 1
        m.t, m.G, m.start, m.metrics, m.actions = 0, 0.0, m.clock, {}, []

    def op_step(self, env, m, expect, r, done, truncated, info):
        m.n += 1
        a = m.n % 4
        env.unwrapped.nxt = (('obs', m.n), r, done, truncated, dict(INFO, x=m.n) if info else None)
        m.clock += 0.25
        CLOCK[0] = m.clock
        out = env.step(a)
        want_info = dict(dict(INFO, x=m.n) if info else {}, monitor={'T': m.T, 'ep': m.ep})
        check(len(out) == 5 and out[0] == ('obs', m.n) and out[1] == r and out[2] == done and out[3] == truncated
              and out[4] == want_info, 'step returned %s, expected info %s', out, want_info)
        check(env.unwrapped.got[-1] == a, 'action passed on as %s', env.unwrapped.got[-1])
        m.t += 1
        m.T += 1
        m.G += r
        m.actions.append(a)
        if done or truncated:
            m.n_avg = min(m.cfg['smoothing'], m.n_avg + 1)
            m.avg_G += (m.G - m.avg_G) / m.n_avg

    def op_metric(self, env, m, expect, *kv):
        d = dict(zip(kv[::2], kv[1::2]))
        mine = dict(d)
        if m.cfg.get('arrays'):   # the same array objects are recorded again and again
            for k, v in d.items():
                d[k] = m.arrays.setdefault((k, v), np.array(v))
        env.record_metrics(d)
        check(d == mine, 'the recorded metrics were changed')
        d.clear()
        for k, v in mine.items():
            m.metrics.setdefault(k, []).append(v)
            if m.dir and m.cfg.get('all'):
                expect.append((m.dir, 'scalar', k, v, m.T))

    def op_period(self, env, m, expect, name, what, p):
        n = m.fired.get((name, what), 0)
        due = getattr(m, what) >= (n + 1) * p
        got = env.period(name, **{what + '_period': p})
        check(bool(got) == due, 'period(%s, %s_period=%s) is %s at T=%s ep=%s after firing %s times',
              name, what, p, got, m.T, m.ep, n)
        if due:
            m.fired[name, what] = n + 1

    def op_global(self, env, m, expect):
        env.reset_global()
        m.zero()

    def op_save(self, env, m, expect, slot):
        m.snap[slot] = env.get_counters()
        m.frozen[slot] = snapshot(m.snap[slot])
        m.slots[slot] = m.save()
        m.touched.discard(slot)

    def op_restore(self, env, m, expect, slot):
        """restore a snapshot taken earlier (of this monitor)"""
        env.set_counters(m.snap[slot])
        m.load(m.slots[slot])
        m.touched.add(slot)

    def op_file(self, env, m, expect):
        """through a file, into another monitor with a different history"""
        d = tempfile.mkdtemp(prefix='mcmon')
        try:
            path = os.path.join(d, 'sub', 'counters.pkl.lz4')
            env.save_counters(path)
            other = TrainMonitor(Env(), tensorboard_dir=DIRS[1], tensorboard_write_all=m.cfg.get('all', False),
                                 smoothing=m.cfg['smoothing'], level=50)
            other.env.nxt = (0, {})
            other.reset()
            other.env.nxt = (0, 5.0, True, False, {})
            other.step(1)
            other.reset()   # creates the writer of the other directory
            other.record_metrics({'zzz': 1.0})
            other.period('p', T_period=1)
            del EVENTS[:]
            other.load_counters(path)
            env.__dict__.clear()
            env.__dict__.update(other.__dict__)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def op_bad(self, env, m, expect, kind):
        c = env.get_counters()
        if kind == 'missing':
            c.pop('T')
        elif kind == 'extra':
            c['zzz'] = 1
        else:
            c = None
        expect_raises(f'{kind} counters', TypeError, lambda: env.set_counters(c))

    def op_badmetric(self, env, m, expect):
        expect_raises('metrics that are no mapping', TypeError, lambda: env.record_metrics([('a', 1.0)]))

    def invariant(self, env, m, hist):
        CLOCK[0] = m.clock
        try:
            for k in ('T', 'ep', 't', 'G', 'avg_G'):
                check(feq(getattr(env, k), getattr(m, k)), '%s is %s, expected %s', k, getattr(env, k), getattr(m, k))
            check(feq(env.avg_r, m.G / m.t if m.t else float('nan')), 'avg_r is %s', env.avg_r)
            check(feq(env.dt_ms, 1000 * (m.clock - m.start) / m.t if m.t else float('nan')), 'dt_ms is %s', env.dt_ms)
            got = env.get_metrics()
            want = {k: sum(v) / len(v) for k, v in m.metrics.items()}
            check(set(got) == set(want) and all(feq(got[k], want[k]) for k in want),
                  'metrics are %s, expected %s', got, want)
        finally:
            CLOCK[0] = None

    def canon(self, env, m):
        for slot in m.snap:
            check(snapshot(m.snap[slot]) == m.frozen[slot], 'counters taken earlier have changed: %s', m.snap[slot])
        # the whole state of the monitor (hidden counters included) together with the model's
        state = {k: v.logdir if isinstance(v, Recorder) else v for k, v in vars(env).items()
                 if not isinstance(v, gymnasium.Env)}
        return snapshot((state, m.key()))


def book_ops(cfg, m):
    out = [('reset',)]
    for r in (0.0, 1.0, -2.5, 0.1 + 2 ** 30):
        out.append(('step', r, False, False, True))
    out += [('step', 4, True, False, True), ('step', 3.0, False, True, False), ('step', -1.5, True, True, False),
            ('metric', 'a/loss', 2.0), ('global',)]
    return out


def book_configs(tier):
    d = 5 if tier == 'quick' else 6
    for smoothing in (1, 2, 10):
        yield dict(tb=smoothing != 2, smoothing=smoothing, depth=d - (smoothing == 2), repickle=smoothing == 2)


def long_ops(cfg, m):
    """long runs: many episodes"""
    if m.t == 0 or m.T % 5 == 4:
        return [('step', 1.0 + m.n, True, False, True), ('step', -2.0 * m.n, False, True, True)] if m.ep else [('reset',)]
    return [('reset',)] if m.actions and m.T % 5 != 4 else [('step', 2.0, False, False, True)]


def long_configs(tier):
    for smoothing in (1, 3, 10):
        yield dict(tb=True, smoothing=smoothing, depth=14 if tier == 'quick' else 24)


def met_ops(cfg, m):
    out = [('reset',), ('step', 1.0, False, False, True),
           ('metric', 'x/loss', 2.0, 'y', -1.0), ('metric', 'x/loss', 5.0), ('metric', 'y', 0.0), ('badmetric',)]
    out += [('save', s) for s in ('A', 'B')[:cfg.get('slots', 1)]]
    out += [('restore', s) for s in sorted(m.slots)]
    out += [('file',), ('global',)]
    return out


def met_configs(tier):
    d = 5 if tier == 'quick' else 6
    yield dict(tb=True, smoothing=10, depth=d)
    yield dict(tb=True, all=True, smoothing=2, depth=d - 1, repickle=True)
    yield dict(tb=False, smoothing=2, depth=d - 1)
    yield dict(tb=False, smoothing=2, depth=4, arrays=True)


def per_ops(cfg, m):
    out = [('reset',), ('step', 1.0, m.T % 3 == 2, False, True)]
    out += [('period', n, w, p) for n in ('p', 'q') for w, p in (('T', 2), ('ep', 2))]
    out += [('period', 'r', 'T', 1), ('period', 's', 'T', 3)]
    if cfg.get('ckpt'):
        out += [('save', 'A')] + [('restore', s) for s in sorted(m.slots)] + [('file',), ('bad', 'missing'), ('bad', 'extra'), ('bad', 'none')]
    return out


def per_configs(tier):
    yield dict(tb=False, smoothing=10, depth=6 if tier == 'quick' else 7)
    yield dict(tb=False, smoothing=10, depth=5 if tier == 'quick' else 6, ckpt=True)


BOOK = [Monitor('bookkeeping', book_ops, book_configs, 'all reset/step/metric histories to the stated depth, rewards x termination x info alphabets'),
        Monitor('long-runs', long_ops, long_configs, 'all terminated/truncated patterns over long runs')]
METRICS = [Monitor('metrics-checkpoints', met_ops, met_configs, 'all record/save/restore/file/pickle histories to the stated depth'),
           Monitor('periods', per_ops, per_configs, 'all step/reset/poll histories to the stated depth')]

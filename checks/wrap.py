"""Environment wrappers: frame stacking, meta-policy env (C13), box-action wrappers (C14)."""
import copy
import itertools
import math

import gymnasium
import numpy as np
from gymnasium.spaces import Box, Discrete, MultiDiscrete, Tuple

from mc import rng
rng.install()
from mc.core import BFS, FuncSystem, check     # noqa: E402
from mc.util import snapshot, expect_raises, tree_close, expect_close    # noqa: E402
from coax.wrappers import FrameStacking, MetaPolicyEnv, BoxActionsToReals, BoxActionsToDiscrete  # noqa: E402


class Env(gymnasium.Env):
    def __init__(self, observation_space, action_space):
        self.observation_space, self.action_space = observation_space, action_space
        self.calls, self.nxt = [], None

    def reset(self, **kw):
        self.calls.append(('reset', kw))
        return self.nxt

    def step(self, a):
        self.calls.append(('step', a))
        return self.nxt


OBS = {
    'int': (Discrete(1000), lambda i: i),
    'vec': (Box(-1e3, 1e3, (2,), 'float32'), lambda i: np.array([i, -i], 'float32')),
    'dict': (gymnasium.spaces.Dict({'a': Discrete(1000), 'b': Box(-1e3, 1e3, (1, 2), 'float32')}),
             lambda i: {'a': i, 'b': np.array([[i, 2 * i]], 'float32')}),
}


def teq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(teq(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(teq(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


class Frames(BFS):
    name = 'frame-stacking'
    bound = 'num_frames 1..4, all reset / step / terminate / truncate histories to depth 7 (9)'

    def configs(self, tier):
        for n in (1, 2, 3, 4):
            for o in OBS:
                yield dict(n=n, obs=o, depth=(7 if o == 'int' else 5) + 2 * (tier != 'quick'))

    def depth(self, cfg, tier):
        return cfg['depth']

    def build(self, cfg):
        env = FrameStacking(Env(OBS[cfg['obs']][0], Discrete(3)), cfg['n'])
        check(env.observation_space == Tuple((OBS[cfg['obs']][0],) * cfg['n']), 'observation space %s', env.observation_space)
        check(env.action_space == Discrete(3), 'action space')
        return env, dict(cfg=cfg, i=0, frames=None, handed=[])

    def ops(self, cfg, tier, m):
        return ['reset', 'reset-kw'] + ([] if m['frames'] is None else ['step', 'done', 'trunc'])

    def apply(self, env, m, op):
        m['i'] += 1
        i, n = m['i'], m['cfg']['n']
        ob = OBS[m['cfg']['obs']][1](i)
        inner = env.unwrapped
        if op.startswith('reset'):
            inner.nxt = (ob, {'i': i})
            kw = {} if op == 'reset' else {'seed': i, 'options': {'q': i}}
            out = env.reset(**kw)
            check(len(out) == 2 and out[1] == {'i': i}, 'reset returned %s', out)
            check(inner.calls[-1][0] == 'reset' and inner.calls[-1][1] == kw, 'reset arguments %s', inner.calls[-1])
            m['frames'] = [i] * n
        else:
            inner.nxt = (ob, float(i), op == 'done', op == 'trunc', {'i': i})
            out = env.step(i % 3)
            check(len(out) == 5 and out[1:] == (float(i), op == 'done', op == 'trunc', {'i': i}), 'step returned %s', out)
            check(inner.calls[-1] == ('step', i % 3), 'action')
            m['frames'] = (m['frames'] + [i])[-n:]
        want = tuple(OBS[m['cfg']['obs']][1](j) for j in m['frames'])
        check(teq(out[0], want), 'observation %s, expected %s', out[0], want)
        check(env.observation_space.contains(out[0]), 'observation outside the observation space')
        for got, exp in m['handed']:
            check(teq(got, exp), 'a stack handed out earlier changed to %s, was %s', got, exp)
        m['handed'].append((out[0], want))

    def canon(self, env, m):
        return snapshot((vars(env), m['frames'], m['i']))


def bad_frames(case, st):
    expect_raises(f'num_frames={case!r}', TypeError, lambda: FrameStacking(Env(Discrete(2), Discrete(2)), case))
    st.states += 1
    st.transitions += 1
    st.traces += 1
    st.outcome(repr(case))


# ---------------------------------------------------------------- meta policy

class Arms:
    """three kinds of arms: plain function, function with log-propensity, policy-like object"""

    def __init__(self):
        self.seen = []

    def plain(self, s):
        self.seen.append(('plain', s))
        return 0

    def with_logp(self, s, return_logp=False):
        self.seen.append(('with_logp', s))
        return (1, -0.5) if return_logp else 1

    def __call__(self, s, return_logp=False):
        self.seen.append(('call', s))
        return (2, -1.5) if return_logp else 2


class Meta(BFS):
    name = 'meta-policy'
    bound = 'all reset / step(arm, outcome) histories to depth 5 (7)'

    def configs(self, tier):
        yield {'depth': 5 if tier == 'quick' else 6}

    def depth(self, cfg, tier):
        return cfg['depth']

    def build(self, cfg):
        arms = Arms()
        env = MetaPolicyEnv(Env(Discrete(1000), Discrete(5)), arms.plain, arms.with_logp, arms)
        check(env.action_space == Discrete(3), 'action space')
        return env, dict(arms=arms, i=0, s=None)

    def ops(self, cfg, tier, m):
        return ['reset', 'reset-kw'] + [(a, o) for a in (0, 1, 2) for o in ('go', 'end', 'trunc', 'noinfo', 'nested')[:5 if m['i'] < 4 else 3]] + ['bad']

    def apply(self, env, m, op):
        m['i'] += 1
        i, inner, arms = m['i'], env.unwrapped, m['arms']
        del arms.seen[:]
        n = len(inner.calls)
        if op in ('reset', 'reset-kw'):
            inner.nxt = (100 + i, {'i': i})
            kw = {} if op == 'reset' else {'seed': i, 'options': {'q': i}}
            check(env.reset(**kw) == (100 + i, {'i': i}), 'reset')
            m['s'] = 100 + i
            check(inner.calls[n:] == [('reset', kw)], 'calls %s', inner.calls[n:])
        elif op == 'bad' or m['s'] is None:
            a = {'bad': 3}.get(op, 0)
            expect_raises('meta step before reset / with an unknown arm', AssertionError, lambda: env.step(a))
            check(len(inner.calls) == n, 'the environment was stepped')
        else:
            a, o = op
            # 'nested': the environment itself reports an action, as another meta-policy wrapper would
            sub = {'noinfo': {}, 'nested': {'i': i, 'a': 44, 'logp': -44.0}}.get(o, {'i': i})
            inner.nxt = (200 + i, float(i), o == 'end', o == 'trunc', None if o == 'noinfo' else dict(sub))
            out = env.step(a)
            logp = (0.0, -0.5, -1.5)[a]
            info = dict(sub, a=a, logp=logp)
            check(out == (200 + i, float(i), o == 'end', o == 'trunc', info), 'step returned %s, expected info %s', out, info)
            check(arms.seen == [(('plain', 'with_logp', 'call')[a], m['s'])], 'the arm saw %s in state %s', arms.seen, m['s'])
            check(inner.calls[n:] == [('step', a)], 'calls %s', inner.calls[n:])
            m['s'] = 200 + i

    def canon(self, env, m):
        return snapshot((m['i'], m['s'], {k: v for k, v in vars(env).items() if k not in ('env', 'arms')}))


# ---------------------------------------------------------------- box actions

SPACES = [
    ('unit', [-1.0], [1.0]), ('pos', [0.0], [2.0]), ('wide', [-1e4], [1e6]), ('odd', [0.7], [1.9]),
    ('odd2', [-0.1], [0.3]), ('tiny', [1.0], [1.0001]), ('asym2', [-3.0, 0.5], [-1.0, 0.75]),
    ('asym3', [-0.1, 0.7, -1.9], [0.3, 1.9, -0.7]),
    ('mat', [[-1.0, 0.0], [2.0, -5.0]], [[1.0, 3.0], [2.5, 5.0]]), ('col', [[-1.0], [0.2]], [[0.3], [1.3]])]
Z = [-1e15, -1e6, -100.0, -5.0, -1.0, -1e-3, 0.0, 1e-3, 0.5, 2.0, 20.0, 100.0, 1e6, 1e15]


def sig(z):
    return 1 / (1 + math.exp(-z)) if z >= 0 else math.exp(max(z, -700)) / (1 + math.exp(max(z, -700)))


def real_cases(tier):
    for i, (name, lo, hi) in enumerate(SPACES):
        for dt in ('float32', 'float64'):
            yield [i, dt, 2 if tier == 'quick' else 3]


def reals(case, st):
    i, dt, full = case
    name, lo, hi = SPACES[i]
    lo, hi = np.array(lo, dt), np.array(hi, dt)
    space = Box(lo, hi, dtype=dt)
    inner = Env(Discrete(100), space)
    env = BoxActionsToReals(inner)
    n = lo.size
    check(isinstance(env.action_space, Box) and env.action_space.shape == (n,),
          'action space %s', env.action_space)
    inner.nxt = (1, {})
    env.reset()
    grid = Z if n < 3 else (Z[::3] if full == 2 else Z[::2])
    for k, z in enumerate(itertools.product(grid, repeat=n)):
        a = np.array(z, env.action_space.dtype)
        a = np.clip(a, env.action_space.low, env.action_space.high)
        kept = a.copy()
        inner.nxt = (k % 100, 1.5, bool(k % 2), bool(k % 3 == 0), {'k': k})
        out = env.step(a)
        got = inner.calls[-1][1]
        want = lo.astype(float) + (hi.astype(float) - lo) * np.array([sig(x) for x in z]).reshape(lo.shape)
        scale = np.maximum(1e-9, np.max(np.abs(hi) + np.abs(lo)))
        check(np.all(np.abs(np.asarray(got, float) - want) <= 2e-6 * scale) and np.shape(got) == lo.shape,
              'action %s of %s became %s, expected %s', z, name, got, want)
        check(space.contains(got), 'action %s became %r, which is not in %s', z, got, space)
        check(np.array_equal(a, kept), 'the action passed in was changed')
        check(out[:4] == (k % 100, 1.5, bool(k % 2), bool(k % 3 == 0)), 'step returned %s', out)
        check(set(out[4]) == {'k', 'a_orig'} and out[4]['k'] == k and len(out[4]['a_orig']) == 1
              and np.array_equal(out[4]['a_orig'][0], got), 'info %s', out[4])
        st.transitions += 1
        st.outcome((name, dt, z))
    st.states += len(grid) ** n
    st.traces += 1
    for bad in (np.zeros(n + 1, 'float32'), np.full(n, np.nan, 'float32')):
        expect_raises('action outside the space', AssertionError, lambda: env.step(bad))
    expect_raises('non-box', NotImplementedError, lambda: BoxActionsToReals(Env(Discrete(2), Discrete(2))))


DRAWS = [0.0, 1e-9, 0.25, 0.5, 0.875, 1 - 1e-9, 1 - 2.0 ** -53]


def disc_cases(tier):
    for i, (name, lo, hi) in enumerate(SPACES):
        n = np.size(lo)
        for dt in ('float32', 'float64'):
            bins = [1, 2, 3, 5] if n < 3 else [2, 3]
            if tier != 'quick':
                bins += [7, 10, 16] if n < 3 else [4]
            for b in bins:
                yield [i, dt, b]
            if n > 1:
                yield [i, dt, list(range(1, n + 1))]
                yield [i, dt, list(range(n + 1, 1, -1))]


def disc(case, st):
    i, dt, bins = case
    name, lo, hi = SPACES[i]
    lo, hi = np.array(lo, dt), np.array(hi, dt)
    space = Box(lo, hi, dtype=dt)
    n = lo.size
    inner = Env(Discrete(100), space)
    env = BoxActionsToDiscrete(inner, bins if isinstance(bins, int) else tuple(bins), random_seed=1)
    nvec = [bins] * n if isinstance(bins, int) else list(bins)
    if n == 1:
        check(isinstance(env.action_space, Discrete) and env.action_space.n == nvec[0], 'space %s', env.action_space)
    else:
        check(isinstance(env.action_space, MultiDiscrete) and list(env.action_space.nvec) == nvec, 'space %s', env.action_space)
    inner.nxt = (1, {})
    env.reset()
    lo64, hi64 = lo.astype(float).ravel(), hi.astype(float).ravel()
    scale = np.maximum(1e-9, np.max(np.abs(hi64) + np.abs(lo64)))
    k = 0
    for a in itertools.product(*map(range, nvec)):
        for d in range(len(DRAWS)):
            u = [DRAWS[(d + 3 * j) % len(DRAWS)] for j in range(n)]
            k += 1
            inner.nxt = (k % 100, 2.5, bool(k % 2), False, {'k': k})
            with rng.dictate(u):
                out = env.step(a[0] if n == 1 else np.array(a))
            got = inner.calls[-1][1]
            check(np.shape(got) == lo.shape, 'shape %s', np.shape(got))
            g = np.asarray(got, float).ravel()
            left = lo64 + (hi64 - lo64) * np.array(a) / nvec
            right = lo64 + (hi64 - lo64) * (np.array(a) + 1) / nvec
            check(np.all(g >= left - 2e-7 * scale) and np.all(g <= right + 2e-7 * scale),
                  'bin %s of %s became %s, outside [%s, %s]', a, nvec, g, left, right)
            # the draw positions the action inside its bin, component by component
            want = lo64 + (hi64 - lo64) * (np.array(a) + u) / nvec
            check(np.all(np.abs(g - want) <= 2e-6 * scale), 'bin %s draw %s became %s, expected %s', a, u, g, want)
            check(space.contains(got), 'action %s became %r, which is not in %s', a, got, space)
            check(out[:4] == (k % 100, 2.5, bool(k % 2), False), 'step returned %s', out)
            check(set(out[4]) == {'k', 'a_orig'} and np.array_equal(out[4]['a_orig'][0], got), 'info %s', out[4])
            st.transitions += 1
        st.states += 1
        st.outcome((name, dt, tuple(nvec), a))
    st.traces += 1
    bad = nvec[0] if n == 1 else np.array(nvec)
    expect_raises('bin out of range', AssertionError, lambda: env.step(bad))


def badbins_cases(tier):
    yield 'len'
    yield 'float'
    yield 'list'
    yield 'nonbox'


def badbins(case, st):
    sp = Box(-1, 1, (2,), 'float32')
    mk = {'len': (ValueError, lambda: BoxActionsToDiscrete(Env(Discrete(2), sp), (3,))),
          'float': (TypeError, lambda: BoxActionsToDiscrete(Env(Discrete(2), sp), 2.5)),
          'list': (TypeError, lambda: BoxActionsToDiscrete(Env(Discrete(2), sp), [2, 2])),
          'nonbox': (NotImplementedError, lambda: BoxActionsToDiscrete(Env(Discrete(2), Discrete(2)), 2))}[case]
    expect_raises(case, *mk)
    st.states += 1
    st.transitions += 1
    st.traces += 1


def nest_cases(tier):
    for order in ('discrete', 'frames'):
        yield order


def nested(case, st):
    """wrappers compose: each layer records its own original action, inner first"""
    sp = Box(np.array([-1.0, 0.0], 'float32'), np.array([1.0, 4.0], 'float32'))
    inner = Env(Discrete(100), sp)
    env = BoxActionsToReals(inner)
    if case == 'discrete':
        mid = Box(-2, 2, (2,), 'float32')
        env.action_space = mid
        env = BoxActionsToDiscrete(env, 4, random_seed=0)
    else:
        env = FrameStacking(env, 2)
    inner.nxt = (5, {})
    env.reset()
    for a in itertools.product(range(4), repeat=2):
        inner.nxt = (7, 1.0, False, False, {})
        act = np.array(a) if case == 'discrete' else np.array(a, 'float32') - 2
        with rng.dictate([0.5, 0.25]):
            s, r, d, t, info = env.step(act)
        z = -2 + 4 * (np.array(a) + [0.5, 0.25]) / 4 if case == 'discrete' else act
        want = np.array([-1 + 2 * sig(z[0]), 4 * sig(z[1])])
        expect_close('environment action', inner.calls[-1][1], want)
        orig = info['a_orig']
        check(len(orig) == (2 if case == 'discrete' else 1), 'a_orig %s', orig)
        expect_close('inner original action', orig[0], want)
        if case == 'discrete':
            expect_close('outer original action', orig[1], z)
        st.transitions += 1
        st.states += 1
    st.traces += 1

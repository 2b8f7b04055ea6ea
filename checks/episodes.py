"""Showing episodes and introspection (C31); DeepMind-control environments (C32)."""
import itertools
import os
import shutil
import tempfile
import warnings

import gymnasium
import gymnasium.spaces as sp
import numpy as np
from PIL import Image, ImageSequence

import coax
from mc.core import check, FuncSystem
from mc.util import expect_raises
from checks import tabular as T
from checks.models import env as menv, tmodel, rmodel, VR, K

warnings.filterwarnings('ignore')
U = coax.utils
COL = [(0, 0, 0), (250, 0, 0), (0, 250, 0), (0, 0, 250), (250, 250, 0), (250, 0, 250), (0, 250, 250), (250, 250, 250)]


class Show(gymnasium.Env):
    """episode of L steps ending in the given way; records everything that is done to it"""
    observation_space = sp.Discrete(100)
    action_space = sp.Discrete(7)
    metadata = {'render_modes': ['rgb_array']}

    def __init__(self, L, end, render_mode='rgb_array', shared=False):
        self.L, self.end, self.render_mode, self.shared = L, end, render_mode, shared
        self.log, self.t, self.over = [], None, None
        self.buf = np.zeros((4, 6, 3), np.uint8)

    def reset(self, **kw):
        self.log.append(('reset',))
        self.t, self.over = 0, False
        return 10, {}

    def step(self, a):
        check(self.t is not None, 'step before reset')
        check(not self.over, 'step after the end of the episode')
        self.t += 1
        last = self.t == self.L
        self.over = last
        self.log.append(('step', int(a)))
        return 10 + self.t, 1., last and self.end in ('term', 'both'), last and self.end in ('trunc', 'both'), {}

    def render(self):
        check(self.t is not None, 'render before reset')
        self.log.append(('render', self.t))
        if self.render_mode != 'rgb_array':
            return None
        b = self.buf if self.shared else self.buf.copy()
        b[:] = COL[self.t % len(COL)]
        return b


def wrap(e, kind):
    if kind == 'monitor':
        return coax.wrappers.TrainMonitor(e)
    if kind == 'limit':
        return gymnasium.wrappers.TimeLimit(e, max_episode_steps=3)
    if kind == 'monitor-limit':
        return coax.wrappers.TrainMonitor(gymnasium.wrappers.TimeLimit(e, max_episode_steps=3))
    return e


def show_cases(tier):
    for L, end, w, pol in itertools.product((1, 2, 3, 4, 6), ('term', 'trunc', 'both'), ('plain', 'monitor', 'limit', 'monitor-limit'), (0, 1)):
        yield [L, end, w, pol]


class Asked:
    def __init__(self):
        self.states = []

    def __call__(self, s):
        self.states.append(int(s))
        return int(s) % 7


def show(case, st):
    L, end, w, pol = case
    for rm in ('rgb_array', None):
        base = Show(L, end, rm)
        env = wrap(base, w)
        p = Asked() if pol else None
        U.render_episode(env, policy=p)
        n = min(L, 3) if 'limit' in w else L
        steps = [x for x in base.log if x[0] == 'step']
        check(base.log[0] == ('reset',) and sum(x[0] == 'reset' for x in base.log) == 1, '%s: the environment was not reset exactly once: %s', case, base.log)
        check(len(steps) == n, '%s: %s steps were taken', case, len(steps))
        check([x[1] for x in base.log if x[0] == 'render'] == list(range(n + 1)), '%s: rendered after steps %s', case, [x[1] for x in base.log if x[0] == 'render'])
        if pol:
            check(p.states == [10 + k for k in range(n)], '%s: the policy was asked about states %s', case, p.states)
            check([x[1] for x in steps] == [s % 7 for s in p.states], '%s: actions %s', case, steps)
        if 'monitor' in w:
            check(env.T == 0, '%s: showing an episode counted %s steps of training', case, env.T)
        st.transitions += n
    st.states += 1
    st.outcome(tuple(case))


def gif_cases(tier):
    for L, end, w, lim in itertools.product((1, 2, 3, 5), ('term', 'trunc'), ('plain', 'monitor', 'limit', 'spec'), (None, 1, 2, 5, 40)):
        yield [L, end, w, lim]


def gif(case, st):
    L, end, w, lim = case
    tmp = tempfile.mkdtemp(prefix='verif-gif-')
    try:
        for k, (size, dur, pol, shared) in enumerate(((None, 50, 1, False), ((9, 5), 200, 0, True))):
            base = Show(L, end, shared=shared)
            if w == 'spec':
                base.spec = gymnasium.envs.registration.EnvSpec(id='Show-v0', entry_point=lambda: None, max_episode_steps=2)
                env = base
            else:
                env = wrap(base, w)
            n = min([L] + ([lim] if lim else [2] if w == 'spec' else []) + ([3] if w == 'limit' else []))
            path = os.path.join(tmp, 'a', str(k), 'x.gif') if k == 0 else os.path.join(tmp, 'y.gif')
            p = Asked() if pol else None
            U.generate_gif(env, path, policy=p, resize_to=size, duration=dur, max_episode_steps=lim)
            steps = [x for x in base.log if x[0] == 'step']
            check(len(steps) == n and sum(x[0] == 'reset' for x in base.log) == 1, '%s: the episode was played as %s', case, base.log)
            if pol:
                check(p.states == [10 + j for j in range(n)] and [x[1] for x in steps] == [s % 7 for s in p.states], '%s: states shown to the policy: %s', case, p.states)
            if w == 'monitor':
                check(env.T == 0, '%s: recording an episode counted %s steps of training', case, env.T)
            img = Image.open(path)
            seq = []
            for f in ImageSequence.Iterator(img):
                check(f.size == (size or (6, 4)), '%s: frame size %s', case, f.size)
                check(f.info.get('duration', dur) % dur == 0, '%s: frame duration %s', case, f.info.get('duration'))
                px = np.asarray(f.convert('RGB'))
                check((px == px[0, 0]).all(), '%s: mixed frame', case)
                d = [int(np.abs(px[0, 0].astype(int) - c).sum()) for c in COL]
                check(min(d) < 40, '%s: frame colour %s', case, px[0, 0])
                j = int(np.argmin(d))
                if not seq or seq[-1] != j:
                    seq.append(j)
            check(seq in ([*range(1, n + 1)], [*range(n + 1)]), '%s: the file shows frames %s of an episode of %s steps', case, seq, n)
            st.transitions += n
        base = Show(L, end, render_mode=None)
        path = os.path.join(tmp, 'z.gif')
        expect_raises(f'{case} without rgb_array', RuntimeError, lambda: U.generate_gif(base, path))
        check(not os.path.exists(path), '%s: a file was written', case)
        expect_raises(f'{case} bad size', TypeError, lambda: U.generate_gif(Show(L, end), path, resize_to=[3, 4]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    st.states += 1
    st.outcome(tuple(case))


class Layer:
    """a wrapper that does not forward attributes"""

    def __init__(self, env, **kw):
        if env is not None:
            self.env = env
        self.__dict__.update(kw)


def attr_cases(tier):
    for depth in range(5):
        for mask in range(2 ** (depth + 1)):
            for v in range(4):
                yield [depth, mask, v]


def attrs(case, st):
    depth, mask, v = case
    val = lambda lv: ((0, lv), lv, None if lv % 2 == 0 else lv, lv or None)[v]     # falsy values are values # noqa: E731
    e = None
    for lv in range(depth, -1, -1):           # level 0 is the outermost
        e = Layer(e, **({'x': val(lv)} if mask >> lv & 1 else {}))
    levels = [lv for lv in range(depth + 1) if mask >> lv & 1]
    for md in (100, 1, 2, 3):
        vis = [lv for lv in levels if lv < md]
        check(U.has_env_attr(e, 'x', max_depth=md) == bool(vis), '%s max_depth=%s: has_env_attr', case, md)
        if vis:
            check(U.get_env_attr(e, 'x', max_depth=md) == val(vis[0]), '%s: not the outermost value: %s', case, U.get_env_attr(e, 'x', max_depth=md))
            check(U.get_env_attr(e, 'x', 5, md) == val(vis[0]), '%s: default wins over the attribute', case)
        else:
            expect_raises(f'{case} missing attribute', AttributeError, lambda: U.get_env_attr(e, 'x', max_depth=md))
            for d in (None, 0, 'x'):
                check(U.get_env_attr(e, 'x', default=d, max_depth=md) == d, '%s: default %s', case, d)
        st.transitions += 1
    st.states += 1
    st.outcome(tuple(case))


def kinds():
    e = menv()
    b = T.env_b(3)
    out = {'V': T.V(e), 'Q1': T.Q1(e), 'Q2': T.Q2(e), 'Policy': T.Pi(e), 'PolicyBox': T.PiBox(b), 'StochasticV': T.SV(e, VR, K), 'StochasticQ': T.SQ2(e, VR, K)}
    for t in (1, 2):
        out[f'TransitionModel{t}'] = tmodel(e, t, 0)
        out[f'StochasticTransitionModel{t}'] = tmodel(e, t, 1)
        out[f'RewardFunction{t}'] = rmodel(e, t, 0)
        out[f'StochasticRewardFunction{t}'] = rmodel(e, t, 1)
    out['SuccessorStateQ'] = coax.SuccessorStateQ(out['V'], out['TransitionModel1'], out['RewardFunction1'])
    out['EpsilonGreedy'] = coax.EpsilonGreedy(out['Q2'])
    out['Boltzmann'] = coax.BoltzmannPolicy(out['Q2'])
    return out


def preds(case, st):
    """classification of every kind of function approximator"""
    ks = kinds()
    want = {
        'is_policy': lambda k: k in ('Policy', 'PolicyBox', 'EpsilonGreedy', 'Boltzmann'),
        'is_vfunction': lambda k: k in ('V', 'StochasticV'),
        'is_transition_model': lambda k: 'TransitionModel' in k,
        'is_reward_function': lambda k: 'RewardFunction' in k,
        'is_stochastic': lambda k: k.startswith('Stochastic') or k in ('Policy', 'PolicyBox'),
    }
    for name, w in want.items():
        for k, f in ks.items():
            check(bool(getattr(U, name)(f)) == w(k), '%s(%s) is %s', name, k, getattr(U, name)(f))
            st.transitions += 1
        for x in (None, 3, object(), e_like()):
            check(not getattr(U, name)(x), '%s(%s)', name, x)
    for k in ('Q1', 'Q2', 'StochasticQ', 'SuccessorStateQ'):
        check(U.is_qfunction(ks[k]), 'is_qfunction(%s)', k)
    for k in ('V', 'Policy', 'StochasticV', 'TransitionModel1', 'StochasticTransitionModel2', 'EpsilonGreedy'):
        check(not U.is_qfunction(ks[k]), 'is_qfunction(%s)', k)
    st.states += len(ks)
    st.outcome(1)


def e_like():
    return lambda S, is_training: S


C31 = [FuncSystem('render-episode', show_cases, show, 'episode length 1..6 x way of ending x wrapping x policy x render mode'),
       FuncSystem('gif', gif_cases, gif, 'episode length x way of ending x wrapping x step limit x size x reused frame buffer'),
       FuncSystem('wrapped-attributes', attr_cases, attrs, 'up to 5 nested wrappers, the attribute on every subset of them (also with falsy values), 4 depths'),
       FuncSystem('predicates', lambda tier: iter([0]), preds, 'every kind of function approximator x 6 predicates')]


# ---------------------------------------------------------------- C32: DeepMind control

def tasks():
    from dm_control import suite
    return [t for t in suite.ALL_TASKS if t != ('quadruped', 'escape')]     # that one needs an OpenGL context


def flat(obs):
    return np.concatenate([np.ravel(np.asarray(v, float)) for v in obs.values()])


def acts(spec, no):
    lo, hi = np.broadcast_to(spec.minimum, spec.shape), np.broadcast_to(spec.maximum, spec.shape)
    lo, hi = np.where(np.isfinite(lo), lo, -1.), np.where(np.isfinite(hi), hi, 1.)
    return (lo, hi, (lo + hi) / 2, lo + .25 * (hi - lo))[no % 4].astype(np.float32)


def dmc_cases(tier):
    for d, t in tasks():
        for seed in (0, 5) if tier == 'quick' else (0, 1, 5, 12):
            yield [d, t, seed]


def dmc(case, st):
    """the gym environment shows exactly what the control-suite environment with that seed does"""
    from dm_control import suite
    d, t, seed = case
    ref = suite.load(d, t, task_kwargs=dict(random=seed))
    env = U.make_dmc(d, t, seed=seed, max_episode_steps=6)
    spec = ref.action_spec()
    a = env.action_space
    check(a.shape == tuple(spec.shape) and np.allclose(a.low, np.broadcast_to(spec.minimum, spec.shape)) and np.allclose(a.high, np.broadcast_to(spec.maximum, spec.shape)), '%s: action space %s for %s', case, a, spec)
    for ep in range(4):
        if ep >= 2:
            new = (seed + 1, 0)[ep - 2]
            ref = suite.load(d, t, task_kwargs=dict(random=new))
            s, info = env.reset(seed=new)
        else:
            s, info = env.reset()
        ts = ref.reset()
        same_obs(case, env, s, ts)
        for k in range(6):
            act = acts(spec, k + ep)
            s, r, term, trunc, _ = env.step(act)
            ts = ref.step(act)
            same_obs(case, env, s, ts)
            check(abs(float(r) - float(ts.reward)) < 1e-6, '%s: reward %s, expected %s', case, r, ts.reward)
            check(bool(term or trunc) == (ts.last() or k == 5), '%s: step %s terminated=%s truncated=%s', case, k, term, trunc)
            st.transitions += 1
            if term or trunc:
                break
        st.states += 1
    st.outcome(tuple(case))


def same_obs(case, env, s, ts):
    want = flat(ts.observation)
    check(env.observation_space.contains(s), '%s: the observation is not an element of the observation space', case)
    check(s.shape == want.shape and np.allclose(s, want, rtol=1e-5, atol=1e-5, equal_nan=True), '%s: observation %s, expected %s', case, s, want)


MAKE = [dict(), dict(seed=3), dict(seed=4, max_episode_steps=3), dict(max_episode_steps=2, height=32, width=48, camera_id=1)]


def make_cases(tier):
    n = len(MAKE)
    return ([list(h), k] for k in (1, 2, 3) for h in itertools.product(range(n), repeat=k))


def makes(case, st):
    """any sequence of make_dmc calls: each environment has the arguments it was asked for"""
    from dm_control import suite, mujoco
    from gymnasium.envs.registration import registry
    hist, _ = case
    for k in [k for k in registry if k.startswith('pendulum_swingup')]:
        del registry[k]
    asked = []
    orig = mujoco.Physics.render

    def fake(self, height=240, width=320, camera_id=-1, *a, **k):
        asked.append((height, width, camera_id))
        return np.zeros((height, width, 3), np.uint8)
    mujoco.Physics.render = fake
    try:
        envs = [(U.make_dmc('pendulum', 'swingup', **MAKE[m]), MAKE[m]) for m in hist]
        for e, kw in envs:
            ref = suite.load('pendulum', 'swingup', task_kwargs=dict(random=kw.get('seed', 0)))
            s, _ = e.reset()
            same_obs(f'{case} {kw}', e, s, ref.reset())
            lim, n = kw.get('max_episode_steps', 1000), 0
            while True:
                _, _, term, trunc, _ = e.step(np.zeros(1, np.float32))
                n += 1
                if term or trunc or n > 5:
                    break
            check(n == min(lim, 6), '%s %s: the episode took %s steps', case, kw, n)
            e.render()
            check(asked[-1] == (kw.get('height', 84), kw.get('width', 84), kw.get('camera_id', 0)), '%s %s: rendered with %s', case, kw, asked[-1])
            st.transitions += n
    finally:
        mujoco.Physics.render = orig
    st.states += 1
    st.outcome(repr(case))


def inter_cases(tier):
    n = 3 if tier == 'quick' else 4
    return (list(c) for c in itertools.combinations(range(2 * n), n))


def inter(case, st):
    """two environments driven in every interleaving do not influence each other"""
    n = len(case)
    runs = []
    for who in (0, 1, None):
        envs = [U.make_dmc('cartpole', 'balance', seed=2, max_episode_steps=50), U.make_dmc('cartpole', 'balance', seed=2, max_episode_steps=50)]
        cnt, log = [0, 0], [[], []]
        for k in range(2 * n):
            i = 0 if k in case else 1
            if who is not None and i != who:
                continue
            if cnt[i] == 0:
                log[i].append(envs[i].reset()[0])
            else:
                o = envs[i].step(acts(_Spec(envs[i].action_space), cnt[i] + i))
                log[i].append(np.append(o[0], o[1]))
            cnt[i] += 1
        runs.append(log)
    for i in (0, 1):
        a, b = runs[i][i], runs[2][i]
        check(len(a) == len(b) == n and all(np.array_equal(x, y) for x, y in zip(a, b)), '%s: environment %s behaves differently next to the other one', case, i)
    st.states += 1
    st.transitions += 2 * n
    st.outcome(tuple(case))


class _Spec:
    def __init__(self, box):
        self.shape, self.minimum, self.maximum = box.shape, box.low, box.high


C32 = [FuncSystem('make-histories', make_cases, makes, 'every sequence of up to 3 make_dmc calls with 4 argument sets for the same task'),
       FuncSystem('control-suite', dmc_cases, dmc, '50 of the 51 tasks of the control suite x 2 (thorough 4) seeds, 4 episodes of 6 steps (two re-seeded) with extreme actions, compared step by step'),
       FuncSystem('interleavings', inter_cases, inter, 'all interleavings of two environments, 3 (thorough 4) operations each')]

"""Saving and restoring (C24): restored objects carry on as the original would have; a save is all-or-nothing."""
import copy
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

import gymnasium.spaces as sp
import jax
import jax.numpy as jnp
import numpy as np
import optax

import coax
from coax.envs import ConnectFourEnv
from mc.core import check, FuncSystem, REPO, VERIF
from mc.util import tree_close, brief
from checks import tabular as T

warnings.filterwarnings('ignore')
U = coax.utils
PD = coax.proba_dists


def host(x):
    return jax.tree_util.tree_map(lambda l: np.array(l) if isinstance(l, (np.ndarray, jax.Array)) else l, x)


# ---- restoring by every route

def via_bytes(x):
    return U.loads(U.dumps(x))


def via_file(x):
    d = tempfile.mkdtemp(prefix='verif_c24_')
    try:
        p = os.path.join(d, 'sub', 'x.pkl.lz4')
        U.dump(x, p)
        y = U.load(p)
        U.dump(x, p)       # over an existing file
        return (y, U.load(p))[1]
    finally:
        shutil.rmtree(d)


ROUTES = dict(bytes=via_bytes, file=via_file, deepcopy=copy.deepcopy)


# ---- kinds: make() -> bundle (dict of objects that are saved together), ops: bundle, i -> comparable output

def btc(nS=3, nA=2, W=None):
    S = np.arange(4) % nS
    return T.batch(S, np.arange(4) % nA, np.full(4, -.7), [1., -1., .5, 0.], [.9, .9, 0., .9], (S + 1) % nS, (np.arange(4) + 1) % nA, np.full(4, -.7), W=W)


def btb(nS=3):
    S = np.arange(4) % nS
    A = np.array([[-1.], [.5], [1.5], [0.]], np.float32)
    return T.batch(S, A, np.full(4, -.7), [1., -1., .5, 0.], [.9, .9, 0., .9], (S + 1) % nS, A[::-1], np.full(4, -.7))


def kinds():
    d, b = T.env_d(3, 2), T.env_b(3)
    tab = lambda *s: np.cos(np.arange(int(np.prod(s))) * 1.7).reshape(s)     # noqa: E731

    def fn(make, shape, ops):
        def go():
            f = make()
            T.setp(f, tab(*shape))
            return dict(f=f)
        return go, ops
    S = (0, 2, 1, 0, 1, 2)
    call = lambda o, i: o['f'](S[i % 6])                     # noqa: E731
    callp = lambda o, i: o['f'](S[i % 6], return_logp=True)      # noqa: E731
    mode = lambda o, i: o['f'].mode(S[i % 6])               # noqa: E731
    calla = lambda o, i: o['f'](S[i % 6], i % 2)             # noqa: E731
    par = lambda o, i: host(o['f'].params)            # noqa: E731

    def shift(o, i):
        o['f'].params = jax.tree_util.tree_map(lambda x: x * .5 + .1 * i, o['f'].params)
        return host(o['f'].params)

    def soft(o, i):
        o['f'].soft_update(o['f'].copy(), .3)
        return host(o['f'].params)
    out = {}
    out['V'] = fn(lambda: T.V(d), (3,), [call, shift, call])
    out['V counting'] = fn(lambda: T.V(d, counting=True), (3,), [call, shift, soft])
    out['Q1'] = fn(lambda: T.Q1(d), (3, 2), [calla, shift, call])
    out['Q2'] = fn(lambda: T.Q2(d, value_transform=coax.value_transforms.LogTransform(2.)), (3, 2), [calla, shift, call])
    out['Policy'] = fn(lambda: T.Pi(d), (3, 2), [callp, callp, shift, call, mode])
    out['Policy box'] = fn(lambda: T.PiBox(b), (3, 1, 2), [callp, callp, shift, call, mode])
    out['StochasticQ'] = fn(lambda: T.SQ1(d, (-2, 2), 5), (3, 2, 5), [calla, calla, shift, lambda o, i: o['f'].mean(S[i % 6], 1)])
    out['StochasticV'] = fn(lambda: T.SV(d, (-2, 2), 5), (3, 5), [call, call, shift, lambda o, i: o['f'].mean(S[i % 6])])
    out['quantile Q'] = fn(lambda: T.QQ(d, 4, 2), (3, 2, 4), [calla, calla, shift])

    def tm():
        return coax.StochasticTransitionModel(lambda S, A, is_training: {'logits': jnp.einsum('bs,ba,sak->bk', S, A, T._tab('t', (3, 2, 3)))}, d, random_seed=4)
    out['transition model'] = fn(tm, (3, 2, 3), [calla, calla, shift, lambda o, i: o['f'].dist_params(S[i % 6], 0)])

    def derived(cls, **kw):
        def go():
            q = T.Q2(d)
            T.setp(q, tab(3, 2))
            return dict(q=q, f=cls(q, **kw))

        def qshift(o, i):
            T.setp(o['q'], T.getp(o['q']) * -1.3)
            return o['f'].dist_params(S[i % 6])
        return go, [callp, callp, qshift, call]
    out['epsilon greedy'] = derived(coax.EpsilonGreedy, epsilon=.4)
    out['boltzmann'] = derived(coax.BoltzmannPolicy, temperature=.6)
    out['random policy'] = (lambda: dict(f=coax.RandomPolicy(d, random_seed=1)), [call, callp, call])

    def learner(make, batch, extra=()):
        def upd(o, i):
            m = o['l'].update(batch(), *extra)
            return host((o['q'].params, m))

        def see(o, i):
            return host(o['pi'](S[i % 6], return_logp=True)) if 'pi' in o else host(o['q'](S[i % 6]))
        return make, [upd, upd, see, upd]

    def ql():
        q = T.Q2(d)
        T.setp(q, tab(3, 2))
        return dict(q=q, q_targ=q.copy(), pi=coax.EpsilonGreedy(q, .3))

    def with_l(f, mk):
        def go():
            o = f()
            o['l'] = mk(o)
            return o
        return go

    def sync(o, i):
        o['q_targ'].soft_update(o['q'], .5)
        return host(o['q_targ'].params)
    g, ops = learner(with_l(ql, lambda o: coax.td_learning.QLearning(o['q'], q_targ=o['q_targ'], optimizer=optax.adam(.1))), btc)
    out['q-learning, adam, target network'] = (g, ops + [sync, ops[0]])
    out['double q-learning, momentum'] = learner(with_l(ql, lambda o: coax.td_learning.DoubleQLearning(o['q'], q_targ=o['q_targ'], optimizer=optax.sgd(.1, momentum=.9))), btc)

    def sv():
        q = T.SQ2(d, (-2, 2), 5)
        T.setp(q, tab(3, 2, 5))
        return dict(q=q, pi=coax.BoltzmannPolicy(q, .7))
    out['distributional sarsa'] = learner(with_l(sv, lambda o: coax.td_learning.Sarsa(o['q'], optimizer=optax.adam(.1))), btc)

    def pg():
        pi = T.Pi(d)
        T.setp(pi, tab(3, 2))
        return dict(q=pi, pi=pi)
    out['policy gradient with entropy'] = learner(with_l(pg, lambda o: coax.policy_objectives.VanillaPG(o['q'], optimizer=optax.adam(.1), regularizer=coax.regularizers.EntropyRegularizer(o['q'], beta=.1))),
                                                  btc, (jnp.array([1., -1., .5, 2.]),))

    def pgb():
        pi = T.PiBox(b)
        T.setp(pi, tab(3, 1, 2))
        return dict(q=pi, pi=pi)
    out['ppo box'] = learner(with_l(pgb, lambda o: coax.policy_objectives.PPOClip(o['q'], optimizer=optax.adam(.1))), btb, (jnp.array([1., -1., .5, 2.]),))
    return out


def cheap():
    """objects without compiled parts: all histories"""
    out = {}

    def add(o, i):
        o['f'].add(i % 3, i % 2, float(i) - 1.5, i % 4 == 3, -.1 * i)
        return len(o['f'])

    def pop(o, i):
        if not o['f']:
            return None
        t = o['f'].pop()
        return (t.S.tolist(), t.A.tolist(), t.logP.tolist(), t.Rn.tolist(), t.In.tolist(), t.S_next.tolist())

    def guarded(fn):
        def go(o, i):
            try:
                return fn(o, i)
            except Exception as e:
                return type(e).__name__
        return go
    reset = lambda o, i: o['f'].reset()    # noqa: E731
    out['n-step'] = (lambda: dict(f=coax.reward_tracing.NStep(2, .9)), [guarded(add), guarded(pop), reset])
    out['monte carlo'] = (lambda: dict(f=coax.reward_tracing.MonteCarlo(.9)), [guarded(add), guarded(pop), reset])

    def tb(i):
        return coax.reward_tracing.TransitionBatch.from_single(s=i, a=i % 2, logp=-.5, r=float(i), done=False, gamma=.9, s_next=i + 1, a_next=0, logp_next=-.2, w=1.)

    def badd(o, i):
        o['f'].add(tb(i))
        return len(o['f'])

    def padd(o, i):
        o['f'].add(tb(i), Adv=np.array([.3 * i + .1]))
        return len(o['f'])

    def smp(o, i):
        if len(o['f']) < 2:
            return len(o['f'])
        t = o['f'].sample(batch_size=2)
        return t.S.tolist(), t.Rn.tolist(), np.round(t.W, 5).tolist()

    def pupd(o, i):
        if len(o['f']) < 2:
            return None
        t = o['f'].sample(batch_size=2)
        o['f'].update(t.idx, Adv=np.array([2., .1]))
        return t.idx.tolist()
    out['uniform buffer'] = (lambda: dict(f=coax.experience_replay.SimpleReplayBuffer(3, random_seed=5)), [badd, smp, lambda o, i: o['f'].clear()])
    out['prioritized buffer'] = (lambda: dict(f=coax.experience_replay.PrioritizedReplayBuffer(3, alpha=.7, beta=.5, random_seed=5)), [padd, smp, pupd])
    out['noise'] = (lambda: dict(f=U.OrnsteinUhlenbeckNoise(random_seed=5)), [lambda o, i: o['f'](np.ones(2)).tolist(), lambda o, i: o['f'].reset()])

    def c4(o, i):
        f = o['f']
        a = (3 * i + 1) % 7
        if f.done or not f.available_actions_mask[a]:
            return None
        return [np.asarray(x, float).tolist() if not isinstance(x, dict) else None for x in f.step(a)], f.state_id

    def c4make():
        f = ConnectFourEnv()
        f.reset()
        return dict(f=f)

    def c4reset(o, i):
        r = o['f'].reset()
        return np.asarray(r[0] if isinstance(r, tuple) else r).tolist()
    out['connect four'] = (c4make, [c4, c4reset])

    def sset(o, i):
        o['f'].set_values(i % 5, float(i % 4))
        return o['f'].partial_reduce(0, 5), o['f'].root_value
    out['sum tree'] = (lambda: dict(f=U.SumTree(5, random_seed=2) if 'random_seed' in str(__import__('inspect').signature(U.SumTree)) else U.SumTree(5)), [sset, lambda o, i: o['f'].sample(3).tolist() if o['f'].root_value > 0 else None])
    out['schedule'] = (lambda: dict(f=U.StepwiseLinearFunction((0, 1.), (4, 2.), (6, 0.))), [lambda o, i: float(o['f'](i))])
    return out


def norm(x):
    return jax.tree_util.tree_map(lambda l: np.asarray(l, float) if isinstance(l, (int, float, np.ndarray, np.generic, jax.Array)) else l, x)


def agree(a, b):
    a, b = norm(a), norm(b)
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
        return False
    return all((x == y) if isinstance(x, str) or isinstance(y, str) else tree_close(x, y, 1e-5) for x, y in zip(la, lb))


def func_cases(tier):
    for k, (mk, ops) in kinds().items():
        n = len(ops)
        for p in range(n + 1):
            for r in ROUTES:
                if tier == 'quick' and dict(bytes=p == n // 2 or p == 1, file=p != n // 2, deepcopy=p != 1)[r]:
                    continue
                yield [k, p, r]


def run_history(bundle, ops, lo, hi):
    return [host(ops[i % len(ops)](bundle, i)) for i in range(lo, hi)]


def functions(case, st):
    k, p, route = case
    make, ops = kinds()[k]
    L = len(ops) + 2
    ref = run_history(make(), ops, 0, L)          # never saved
    orig = make()
    head = run_history(orig, ops, 0, p)
    back = ROUTES[route](orig)
    check(set(back) == set(orig) and all(type(back[n]).__name__ == type(orig[n]).__name__ for n in orig), '%s: restored as %s', k, {n: type(v) for n, v in back.items()})
    for a in itertools.combinations(orig, 2):      # references among the saved objects
        check((orig[a[0]] is orig[a[1]]) == (back[a[0]] is back[a[1]]), '%s: %s and %s were the same object', k, *a)
    tail = run_history(back, ops, p, L)            # the copy goes first: whatever it does must not touch the original
    tail0 = run_history(orig, ops, p, L)
    for i in range(L):
        want = ref[i]
        got = (head + tail)[i]
        check(agree(got, want), '%s restored (%s) after %s operations: operation %s gives %s instead of %s', k, route, p, i, brief(got), brief(want))
        got = (head + tail0)[i]
        check(agree(got, want), '%s saved after %s operations: operation %s on the original gives %s instead of %s', k, p, i, brief(got), brief(want))
        st.transitions += 2
    st.states += 1
    st.traces += 1
    st.outcome(tuple(case))
    st.sample({'kind': k, 'saved after': p, 'route': route}, 4)


def cheap_cases(tier):
    D = 4 if tier == 'quick' else 6
    for k, (mk, ops) in cheap().items():
        for h in itertools.product(range(len(ops)), repeat=D):
            yield [k, list(h)]


def cheap_run(case, st):
    k, h = case
    make, ops = cheap()[k]
    h = h + [0, len(ops) - 1, 1 % len(ops), 0]

    def go(o, lo, hi):
        return [ops[h[i]](o, i) for i in range(lo, hi)]
    ref = go(make(), 0, len(h))
    for p in range(len(h)):
        orig = make()
        head = go(orig, 0, p)
        back = (via_file if p == 2 else via_bytes)(orig)
        check(type(back['f']) is type(orig['f']), '%s: restored as %s', k, type(back['f']))
        tail = go(back, p, len(h))
        tail0 = go(orig, p, len(h))
        check(agree(head + tail, ref), '%s, operations %s: restored after %s operations it gives %s instead of %s', k, h, p, head + tail, ref)
        check(agree(head + tail0, ref), '%s, operations %s: saved after %s operations the original gives %s instead of %s', k, h, p, head + tail0, ref)
        st.states += 1
        st.transitions += 2 * len(h)
    st.traces += 1
    st.outcome((k, tuple(h)))


def dist_cases(tier):
    return iter(['normal', 'squashed', 'categorical', 'interval', 'quantile', 'composite', 'log'])


def dist(name, st):
    """distributions and transforms"""
    key = jax.random.PRNGKey(1)
    mk = {'normal': lambda: PD.NormalDist(sp.Box(-1., 2., (2,), dtype=np.float32)), 'squashed': lambda: PD.SquashedNormalDist(sp.Box(-1., 2., (2,), dtype=np.float32)),
          'categorical': lambda: PD.CategoricalDist(sp.Discrete(3)), 'interval': lambda: PD.DiscretizedIntervalDist(sp.Box(-1., 1., (), dtype=np.float32), num_bins=5),
          'quantile': lambda: PD.EmpiricalQuantileDist(4), 'composite': lambda: PD.ProbaDist(sp.Dict({'a': sp.Discrete(2), 'b': sp.Box(-1., 1., (1,), dtype=np.float32)})),
          'log': lambda: coax.value_transforms.LogTransform(3.)}[name]
    d = mk()
    for route in ROUTES.values():
        e = route(d)
        check(type(e).__name__ == type(d).__name__, 'restored as %s', type(e))
        if name == 'log':
            x = jnp.linspace(-5, 5, 11)
            check(tree_close(d.transform_func(x), e.transform_func(x), 0) and tree_close(d.inverse_func(x), e.inverse_func(x), 0), 'restored transform differs')
        else:
            p = {'normal': {'mu': jnp.ones((3, 2)) * .3, 'logvar': jnp.zeros((3, 2))}, 'categorical': {'logits': jnp.arange(9.).reshape(3, 3)}, 'interval': {'logits': jnp.arange(15.).reshape(3, 5) / 7},
                 'quantile': {'values': jnp.arange(12.).reshape(3, 4), 'quantile_fractions': jnp.tile(jnp.arange(4) / 4, (3, 1))}}.get('normal' if name == 'squashed' else name)
            if name == 'composite':
                p = jax.tree_util.tree_map(lambda x: x + .2, d.default_priors)
            for f in (lambda o: o.sample(p, key), lambda o: o.mean(p), lambda o: o.mode(p))[:2 if name == 'quantile' else 3]:
                check(tree_close(host(f(d)), host(f(e)), 1e-6), '%s: restored distribution gives %s instead of %s', name, brief(f(e)), brief(f(d)))
                st.transitions += 1
    st.states += 1
    st.outcome(name)


def refs_cases(tier):
    return iter(ROUTES)


def refs(route, st):
    """the documented example, and values of every builtin type"""
    a = [13]
    b = {'a': a}
    a2, b2 = ROUTES[route]((a, b))
    b2['a'].append(7)
    check(a2 == [13, 7] and b2 == {'a': [13, 7]} and a == [13], 'references within one object are not preserved: %s %s', a2, b2)
    for x in [None, 0, -1.5, 'text \u2713', b'', b'\x00\xff' * 500, (), [], {}, {1: (2, [3])}, {3, 4}, np.zeros((0, 3)), np.arange(5, dtype=np.int8), np.float32(2.), list(range(5000)), lambda z: z + 1, float('inf')]:
        y = ROUTES[route](x)
        if callable(x):
            check(y(4) == 5, 'restored function')
        elif isinstance(x, np.ndarray):
            check(isinstance(y, np.ndarray) and y.dtype == x.dtype and np.array_equal(x, y), 'restored array %r', y)
        else:
            check(type(y) is type(x) and y == x, 'restored %r as %r', x, y)
        st.transitions += 1
    st.states += 1
    st.outcome(route)


def crash_cases(tier):
    for kind in ('line', 'kill', 'full', 'unpicklable'):
        for ex in ('over', 'fresh'):
            for sub in ('flat', 'sub') if tier == 'thorough' or kind == 'line' else (('flat',) if ex == 'over' else ('sub',)):
                yield f'{kind}-{ex}-{sub}'


def crash(scenario, st):
    d = tempfile.mkdtemp(prefix='verif_c24_')
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(VERIF, 'checks', 'crash_dump.py'), d, scenario, REPO], capture_output=True, text=True, timeout=600)
    finally:
        shutil.rmtree(d)
    last = (r.stdout.strip().splitlines() or [''])[-1]
    if r.returncode == 1 and last.startswith('BAD '):
        check(False, '%s: %s', scenario, last[4:])
    check(r.returncode == 0, 'saving failed: %s %s', last, r.stderr[-600:])
    res = json.loads(last)
    st.states += res['points']
    st.transitions += res['points']
    st.traces += 1
    st.outcome(last)
    st.sample({'scenario': scenario, **res}, 8)


C24 = [FuncSystem('crash', crash_cases, crash, 'every Python-level event of a save, every byte count at which the process is killed or the disk is full, unpicklable objects; over an existing file or a new one'),
       FuncSystem('histories', cheap_cases, cheap_run, 'all histories of length 4 (6) x all save points, nine kinds of object'),
       FuncSystem('functions', func_cases, functions, '20 kinds of function and learner x all save points of a history'),
       FuncSystem('distributions', dist_cases, dist), FuncSystem('references', refs_cases, refs)]

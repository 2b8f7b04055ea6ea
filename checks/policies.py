"""Policies derived from q-functions, random policies, and what policies report about their actions (C21)."""
import itertools
import math
import warnings

import gymnasium.spaces as sp
import jax
import jax.numpy as jnp
import numpy as np

import coax
from mc.core import check, FuncSystem
from mc.util import expect_close, expect_raises
from checks import tabular as T

warnings.filterwarnings('ignore')


def greedy_probs(q, eps):
    k = q >= q.max(-1, keepdims=True)
    return (1 - eps) * k / k.sum(-1, keepdims=True) + eps / q.shape[-1]


def vb_cases(tier):
    for nA in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for kind in ('Q1', 'Q2', 'SQ1', 'SQ2', 'QQ1', 'QQ2'):
            if nA > 2 and kind[0] != 'Q' and tier == 'quick':
                continue
            yield ['eps', kind, nA]
            yield ['boltzmann', kind, nA]
            if nA == 2:         # actions need not be numbered from zero
                yield ['eps', kind, nA, 3]
                yield ['boltzmann', kind, nA, -1]


def make_q(kind, nA, start=0):
    """a q-function whose values q(s, .) run through all rows over an alphabet, one per state"""
    rows = np.array(list(itertools.product((-1., 0., 2.), repeat=nA)))
    env = T.Env(sp.Discrete(len(rows)), sp.Discrete(nA, start=start))
    if kind in ('Q1', 'Q2'):
        q = getattr(T, kind)(env)
        T.setp(q, rows)
        return q, rows
    if kind in ('SQ1', 'SQ2'):
        # the mean is the value: all mass (up to 1e-26) on one atom of {-1,0,1,2,3}
        q = getattr(T, kind)(env, (-1.5, 3.5), 5)
        t = np.zeros(rows.shape + (5,))
        for i, v in enumerate((-1., 0., 1., 2., 3.)):
            t[..., i][rows == v] = 60.
        T.setp(q, t)
        return q, rows
    q = T.QQ(env, 4, int(kind[-1]))
    T.setp(q, rows[..., None] + np.array([-1., 1., -.5, .5]))
    return q, rows


def tie_tol(kind):
    return 1e-4 if kind[0] == 'S' else 2e-5


def valuebased(case, st):
    alg, kind, nA = case[:3]
    start = case[3] if len(case) > 3 else 0
    q, rows = make_q(kind, nA, start)
    nS = len(rows)
    S = jnp.eye(nS)
    key = jax.random.PRNGKey(0)
    hs = (0., .1, .5, 1.) if alg == 'eps' else (.02, .5, 1., 20.)
    pi = coax.EpsilonGreedy(q, epsilon=hs[1]) if alg == 'eps' else coax.BoltzmannPolicy(q, temperature=hs[1])
    attr = 'epsilon' if alg == 'eps' else 'temperature'

    def want(rows, h):
        return greedy_probs(rows, h) if alg == 'eps' else T.softmax(rows / h)

    def verify(pi, rows, h, what):
        d, _ = pi.function(pi.params, pi.function_state, key, S, False)
        expect_close(f'{alg} {kind} {what}: probabilities with {attr}={h}', T.softmax(d['logits']), want(rows, h), 1e-3)
        st.transitions += nS
    verify(pi, rows, hs[1], 'as constructed')
    for h in hs:
        setattr(pi, attr, h)
        if not (alg == 'boltzmann' and h < .1 and kind[0] == 'S'):   # atoms carry 1e-6 rounding, blown up by 1/temperature
            verify(pi, rows, h, 'after setting the parameter')
        w = want(rows, h)
        for s in range(0, nS, max(1, nS // 9)):
            p = T.softmax(pi.dist_params(s)['logits'])
            expect_close(f'{alg} {kind}: dist_params({s})', p, w[s], 1e-3)
            a, logp = pi(s, return_logp=True)
            check(type(a) is int and q.action_space.contains(a), 'action %r', a)
            a -= start
            check(w[s][a] > 1e-9, '%s %s=%s: sampled action %s has probability %s (q: %s)', alg, attr, h, a, w[s][a], rows[s])
            if w[s][a] > 1e-6:
                expect_close(f'{alg} {kind} {attr}={h}: log-probability of the sampled action {a}', float(logp), math.log(w[s][a]), 2e-3)
            m = pi.mode(s) - start
            if not (alg == 'eps' and h == 1.):
                check(type(m) is int and rows[s][m] >= rows[s].max() - 1e-6, '%s %s=%s: mode(%s) = %s, q: %s', alg, attr, h, s, m, rows[s])
            a = pi(s)
            check(type(a) is int and w[s][a - start] > 1e-9, 'action %r', a)
            st.transitions += 3
    # the policy follows its q-function, and copies of parameters can be put in
    if kind in ('Q1', 'Q2'):
        T.setp(q, -rows)
        setattr(pi, attr, hs[2])
        verify(pi, -rows, hs[2], 'after the q-function changed')
        keep = pi.params
        T.setp(q, rows)
        setattr(pi, attr, hs[3])
        pi.params = keep
        verify(pi, -rows, hs[2], 'after restoring parameters')
        expect_raises('parameters of another structure', TypeError, lambda: setattr(pi, 'params', {'x': 1}))
        verify(pi, -rows, hs[2], 'after a refused assignment')
        expect_close('parameters given explicitly', T.softmax(pi.function({attr: hs[3], 'q': jax.tree_util.tree_map(lambda x: -x, q.params)}, pi.function_state, key, S, False)[0]['logits']), want(rows, hs[3]), 1e-3)
        for scale in (1e-3, 300., 1e5):              # the law does not depend on the unit of the values
            T.setp(q, scale * rows)
            for h in ((0., .3) if alg == 'eps' else (.5 * scale, 20. * scale)):
                setattr(pi, attr, h)
                verify(pi, scale * rows, h, f'for values of order {scale}')
        for base, scale in ((1e4, 2. ** -4), (0., 2. ** -30)):      # ... and values that are close to each other are not the same
            T.setp(q, base + scale * rows)
            for h in ((0., .3) if alg == 'eps' else (.5 * scale, 20. * scale)):
                setattr(pi, attr, h)
                verify(pi, base + scale * rows, h, f'for values {base} + {scale} x')
    st.states += nS * len(hs)
    st.traces += 1
    st.outcome(tuple(case))


def vbm_cases(tier):
    for alg in ('eps', 'boltzmann'):
        for kind in ('Q1', 'Q2', 'SQ1', 'SQ2', 'QQ1', 'QQ2'):
            for mode in ([1.5, 0.], [0., 2.5], [-1.5, 4.]):
                yield [alg, kind, mode]


def vb_modes(case, st):
    """q-functions whose preferences depend on their function state and on the evaluation mode: policies act on values in inference mode"""
    alg, kind, mode = case
    rows = np.array(list(itertools.product((-1., 0., 2.), repeat=3)))
    nS, nA, typ = len(rows), 3, int(kind[-1])
    e = T.env_d(nS, nA)
    n = {'Q': 1, 'S': 2}[kind[0]] if kind[:2] != 'QQ' else 2
    at = np.array([-8., 8.])

    def out(v):       # v: (..., ) values, tabulated for all actions
        if kind in ('Q1', 'Q2'):
            return v
        if kind[0] == 'S':       # two atoms; the mean is v
            p = (v + 8.) / 16.
            return {'logits': jnp.stack([jnp.log(1 - p), jnp.log(p)], -1)}
        x = jnp.stack([v - 1., v + 1.], -1)
        return {'values': x, 'quantile_fractions': jnp.broadcast_to(jnp.array([.25, .75]), x.shape)}

    def f2(S, is_training):
        return out(jnp.dot(S, T._tab('q', (nS, nA))) + T._mode(is_training, mode) * jnp.arange(nA))

    def f1(S, A, is_training):
        return out(jnp.einsum('bs,ba,sa->b', S, A, T._tab('q', (nS, nA))) + T._mode(is_training, mode) * jnp.dot(A, jnp.arange(nA)))
    f = f2 if typ == 2 else f1
    if kind[:2] == 'QQ':
        q = coax.StochasticQ(f, e, num_bins=2, random_seed=7)
    elif kind[0] == 'S':
        q = coax.StochasticQ(f, e, value_range=(-16., 16.), num_bins=2, random_seed=7)
        check(np.allclose(q.proba_dist.atoms, at), 'harness: atoms %s', q.proba_dist.atoms)
    else:
        q = coax.Q(f, e, random_seed=7)
    T.setp(q, rows)
    h = .25 if alg == 'eps' else .5
    pi = coax.EpsilonGreedy(q, epsilon=h) if alg == 'eps' else coax.BoltzmannPolicy(q, temperature=h)
    key = jax.random.PRNGKey(0)
    for b in (mode[0], .5, -2.25):
        pi.function_state = jax.tree_util.tree_map(lambda x: jnp.full_like(x, b), q.function_state)
        check(float(jax.tree_util.tree_leaves(q.function_state)[0]) == b, 'the state of the policy is that of its q-function')
        eff = rows + b * np.arange(nA)
        eff = np.round(eff * 64) / 64
        want = greedy_probs(eff, h) if alg == 'eps' else T.softmax(eff / h)
        d = pi.function(pi.params, pi.function_state, key, jnp.eye(nS), False)[0]['logits']
        near = np.sort(eff, -1)
        clear = (near[:, -1] - near[:, -2] > 1e-3) if alg == 'eps' and kind[0] == 'S' else np.ones(nS, bool)   # ties do not survive the logarithms
        expect_close(f'{case} probabilities with state {b}', T.softmax(d)[clear], want[clear], 2e-3)
        for s in np.flatnonzero(clear)[::2]:
            s = int(s)
            expect_close(f'{case} dist_params({s})', T.softmax(pi.dist_params(s)['logits']), want[s], 2e-3)
            a, lp = pi(s, return_logp=True)
            if want[s][a] > 1e-4:
                expect_close(f'{case} log-probability in state {s}', lp, np.log(want[s][a]), 2e-2)
            check(eff[s][pi.mode(s)] >= eff[s].max() - 1e-4, '%s: mode(%s) is %s, values %s', case, s, pi.mode(s), eff[s])
            st.transitions += 3
        st.states += 1
    st.outcome(repr(case))
    st.traces += 1


SPACES = {
    'discrete': sp.Discrete(3),
    'shifted': sp.Discrete(3, start=-1),
    'box': sp.Box(np.array([-1., 0.], np.float32), np.array([1., 5.], np.float32)),
    'matrix': sp.Box(-1., 3., (2, 2), dtype=np.float32),
    'multi': sp.MultiDiscrete([2, 3]),
    'binary': sp.MultiBinary(3),
    'tuple': sp.Tuple((sp.Discrete(2), sp.Box(-1., 1., (1,), dtype=np.float32))),
    'dict': sp.Dict({'a': sp.Discrete(3, start=5), 'b': sp.Tuple((sp.MultiBinary(2), sp.Discrete(2)))}),
}


def width(space):
    if isinstance(space, sp.Discrete):
        return space.n
    if isinstance(space, sp.Box):
        return 2 * int(np.prod(space.shape))
    if isinstance(space, sp.MultiDiscrete):
        return int(sum(space.nvec))
    if isinstance(space, sp.MultiBinary):
        return 2 * space.n
    if isinstance(space, sp.Tuple):
        return sum(width(s) for s in space.spaces)
    return sum(width(s) for s in space.spaces.values())


def unpack(space, v, at=0):
    """distribution parameters from a (batch, width) array -> (params, next offset)"""
    if isinstance(space, sp.Discrete):
        return {'logits': v[:, at:at + space.n]}, at + space.n
    if isinstance(space, sp.Box):
        n = int(np.prod(space.shape))
        return {'mu': v[:, at:at + n].reshape(-1, *space.shape), 'logvar': v[:, at + n:at + 2 * n].reshape(-1, *space.shape)}, at + 2 * n
    if isinstance(space, (sp.MultiDiscrete, sp.MultiBinary)):
        ns = list(space.nvec) if isinstance(space, sp.MultiDiscrete) else [2] * space.n
        out = []
        for n in ns:
            out.append({'logits': v[:, at:at + int(n)]})
            at += int(n)
        return tuple(out), at
    if isinstance(space, sp.Tuple):
        out = []
        for s in space.spaces:
            x, at = unpack(s, v, at)
            out.append(x)
        return tuple(out), at
    out = {}
    for k in space.spaces:
        out[k], at = unpack(space.spaces[k], v, at)
    return out, at


def ref_logp(space, v, a, at=0):
    """log-probability (density in the unconstrained coordinates for boxes) of the action under one parameter vector"""
    if isinstance(space, sp.Discrete):
        x = v[at:at + space.n]
        return x[int(a) - space.start] - T.lse(x), at + space.n
    if isinstance(space, sp.Box):
        n = int(np.prod(space.shape))
        mu, lv = v[at:at + n], v[at + n:at + 2 * n]
        u = ((np.asarray(a, float) - space.low) / (space.high.astype(float) - space.low)).ravel()
        z = np.log(u) - np.log1p(-u)
        return float(np.sum(-.5 * (np.log(2 * np.pi) + lv + (z - mu) ** 2 * np.exp(-lv)))), at + 2 * n
    if isinstance(space, (sp.MultiDiscrete, sp.MultiBinary)):
        ns = list(space.nvec) if isinstance(space, sp.MultiDiscrete) else [2] * space.n
        tot = 0.
        for n, i in zip(ns, a):
            p, at = ref_logp(sp.Discrete(int(n)), v, i, at)
            tot += p
        return tot, at
    tot = 0.
    for k, s in (enumerate(space.spaces) if isinstance(space, sp.Tuple) else space.spaces.items()):
        p, at = ref_logp(s, v, a[k], at)
        tot += p
    return tot, at


def ref_mode_ok(space, v, a, at=0):
    if isinstance(space, sp.Discrete):
        x = v[at:at + space.n]
        return x[int(a) - space.start] >= x.max() - 1e-6, at + space.n
    if isinstance(space, sp.Box):
        n = int(np.prod(space.shape))
        want = space.low + (space.high - space.low) / (1 + np.exp(-v[at:at + n].reshape(space.shape)))
        return bool(np.allclose(a, want, atol=1e-4)), at + 2 * n
    if isinstance(space, (sp.MultiDiscrete, sp.MultiBinary)):
        ns = list(space.nvec) if isinstance(space, sp.MultiDiscrete) else [2] * space.n
        ok = True
        for n, i in zip(ns, a):
            o, at = ref_mode_ok(sp.Discrete(int(n)), v, i, at)
            ok &= bool(o)
        return ok, at
    ok = True
    for k, s in (enumerate(space.spaces) if isinstance(space, sp.Tuple) else space.spaces.items()):
        o, at = ref_mode_ok(s, v, a[k], at)
        ok &= bool(o)
    return ok, at


def member(space, a):
    """membership up to the integer width of the entries (the library hands out its own integer types)"""
    if isinstance(space, (sp.MultiDiscrete, sp.MultiBinary)):
        a = np.asarray(a)
        return a.dtype.kind in 'iu' and space.contains(a.astype(space.dtype))
    if isinstance(space, sp.Box):
        return isinstance(a, np.ndarray) and space.contains(a)
    if isinstance(space, sp.Discrete):
        return space.contains(a)
    if isinstance(space, sp.Tuple):
        return isinstance(a, tuple) and len(a) == len(space.spaces) and all(member(s, x) for s, x in zip(space.spaces, a))
    return isinstance(a, dict) and set(a) == set(space.spaces) and all(member(s, a[k]) for k, s in space.spaces.items())


def pol_cases(tier):
    for k in SPACES:
        for spread in (0., .7, 2.):
            yield [k, spread, 24 if tier == 'quick' else 100]
        if np.isin(1., log_variances(SPACES[k])):
            yield [k, .7, 24 if tier == 'quick' else 100, -6.]   # densities above one


def log_variances(space):
    """one for every position of the parameter vector that is a log-variance"""
    w = width(space)
    params = unpack(space, np.arange(w, dtype=float)[None])[0]
    out = np.zeros(w)
    for path, leaf in jax.tree_util.tree_flatten_with_path(params)[0]:
        if getattr(path[-1], 'key', None) == 'logvar':
            out[leaf.ravel().astype(int)] = 1.
    return out


def policy(case, st):
    name, spread, seeds = case[:3]
    space = SPACES[name]
    nS = 3
    w = width(space)
    table = spread * np.array([np.cos(np.arange(w) * (s + 1.) + s) for s in range(nS)])
    if len(case) > 3:
        table = table + case[3] * log_variances(space)
    env = T.Env(sp.Discrete(nS), space)

    def f(S, is_training):
        return unpack(space, jnp.dot(S, T._tab('w', (nS, w))))[0]
    try:
        pi = coax.Policy(f, env, random_seed=0)
    except TypeError:
        def f(S, is_training):       # noqa: F811
            d = unpack(space, jnp.dot(S, T._tab('w', (nS, w))))[0]
            return jax.tree_util.tree_unflatten(coax.proba_dists.ProbaDist(space).dist_params_structure, jax.tree_util.tree_leaves(d))
        pi = coax.Policy(f, env, random_seed=0)
    T.setp(pi, table)
    seen = set()
    for seed in range(seeds):
        pi.random_seed = seed
        for s in range(nS):
            a, logp = pi(s, return_logp=True)
            check(member(space, a), '%s: sampled action %r is not in %s', name, a, space)
            want, _ = ref_logp(space, table[s], a)
            check(abs(float(logp) - want) < 2e-3 * (1 + abs(want)), '%s: action %r in state %s was reported with log-probability %s, but the policy gives it %s', name, a, s, float(logp), want)
            seen.add(repr(a))
            st.transitions += 1
        pi.random_seed = seed
        check(repr(pi(0)) == repr((pi.__class__.__call__(pi, 0), setattr(pi, 'random_seed', seed), pi(0))[2]), '%s: the same seed gives another action', name)
    for s in range(nS):
        m = pi.mode(s)
        check(member(space, m), '%s: mode %r is not in the space', name, m)
        ok, _ = ref_mode_ok(space, table[s], m)
        check(ok, '%s: mode in state %s is %r for parameters %s', name, s, m, table[s])
    check(len(seen) > 1, '%s: only one action in %s draws', name, seeds)
    st.states += seeds * nS
    st.traces += 1
    st.outcome((name, spread, len(seen)))


def law_cases(tier):
    N = 20000 if tier == 'quick' else 200000
    for n in (2, 3):
        for r in itertools.product((-1., 0., 2.), repeat=n):
            yield ['cat', list(r), N]
    for r in ([-12., 0., 1.], [0., -9.], [3., -35., 3.]):      # (almost) never
        yield ['cat', r, N]
    for mu in (-1., 0., 2.):
        for lv in (-2., 0., 1.):
            yield ['normal', [mu, lv], N]


def law(case, st):
    """the samples of a batch of equal distributions are spread as that distribution says"""
    kind, r, N = case
    key = jax.random.PRNGKey(11)
    if kind == 'cat':
        d = coax.proba_dists.CategoricalDist(sp.Discrete(len(r)))
        X = d.sample({'logits': jnp.tile(jnp.asarray(r), (N, 1))}, key)
        a = np.asarray(d.postprocess_variate(key, X, batch_mode=True))
        freq = np.bincount(a, minlength=len(r)) / N
        p = T.softmax(r)
        bad = np.abs(freq - p) > 7 * np.sqrt(p * (1 - p) / N) + 1e-3
        check(not bad.any(), 'frequencies %s of %s samples, probabilities %s', freq, N, p)
    else:
        d = coax.proba_dists.NormalDist(sp.Box(-1., 1., (1,), dtype=np.float32))
        X = np.asarray(d.sample({'mu': jnp.full((N, 1), r[0]), 'logvar': jnp.full((N, 1), r[1])}, key), float).ravel()
        sd = math.exp(r[1] / 2)
        for q in (-1.5, -.5, 0., .7, 2.):
            p = .5 * (1 + math.erf(q / math.sqrt(2)))
            f = float(np.mean(X <= r[0] + q * sd))
            check(abs(f - p) <= 7 * math.sqrt(p * (1 - p) / N) + 1e-3, 'fraction of samples below mu%+gsigma is %s, expected %s', q, f, p)
    st.states += 1
    st.transitions += N
    st.outcome((kind, tuple(r)))


def rnd_cases(tier):
    return iter(list(SPACES))


def rnd(name, st):
    space = SPACES[name]
    env = T.Env(sp.Discrete(2), space)
    runs = []
    for seed in (0, 1, 0):
        pi = coax.RandomPolicy(env, random_seed=seed)
        runs.append([repr(pi(0)) for _ in range(5)])
        for s in range(2):
            a = pi(s)
            check(space.contains(a), 'random action %r', a)
            check(space.contains(pi.mode(s)), 'mode')
            if isinstance(space, sp.Discrete):
                a, logp = pi(s, return_logp=True)
                check(space.contains(a), 'random action')
                expect_close('log-probability of a random discrete action', float(logp), -math.log(space.n), 1e-6)
                expect_close('dist_params', T.softmax(pi.dist_params(s)['logits']), np.full(space.n, 1 / space.n), 1e-6)
            elif isinstance(space, sp.Box):
                a, logp = pi(s, return_logp=True)
                check(space.contains(a), 'random action')
                expect_close('log-density of a random box action', float(logp), -float(np.sum(np.log(space.high - space.low))), 1e-5)
            else:
                expect_raises('log-probability in a composite space', NotImplementedError, lambda: pi(s, return_logp=True))
            st.transitions += 3
    check(runs[0] == runs[2], 'the same seed gives other random actions: %s %s', runs[0], runs[2])
    st.states += 3
    st.traces += 3
    st.outcome(name)


def refuse_cases(tier):
    return iter(range(4))


def refuse(k, st):
    d, b = T.env_d(2, 2), T.env_b(2)
    pb = T.PiBox(b)
    fn = [lambda: coax.EpsilonGreedy(T.V(d)), lambda: coax.BoltzmannPolicy(T.Pi(d)), lambda: coax.EpsilonGreedy(T.Qbox(b, pb.proba_dist)), lambda: coax.BoltzmannPolicy(T.Qbox(b, pb.proba_dist))][k]
    expect_raises(f'case {k}', TypeError, fn)
    st.states += 1
    st.outcome(k)


C21 = [FuncSystem('value-based', vb_cases, valuebased, 'all q-rows over {-1,0,2}^n (every tie), n<=3, six kinds of q-function, several epsilons/temperatures'),
       FuncSystem('value-based-modes', vbm_cases, vb_modes, 'all q-rows over {-1,0,2}^3; six kinds of q-function that depend on function state and evaluation mode'),
       FuncSystem('log-probability', pol_cases, policy, 'seven action spaces x three spreads x 3 states x 24 (100) seeds'),
       FuncSystem('sampling-law', law_cases, law, 'batch of 20000 (200000) draws per distribution, seven-sigma bound'),
       FuncSystem('random', rnd_cases, rnd), FuncSystem('refusals', refuse_cases, refuse)]

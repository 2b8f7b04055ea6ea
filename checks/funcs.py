"""Function approximators: copies and soft updates (C18), consistent views (C20)."""
import itertools
import warnings

import gymnasium.spaces as sp
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

import coax
from mc.core import check, CaseViolation, FuncSystem, System, describe
from mc.util import expect_close, expect_raises, expect_tree
from checks import tabular as T

warnings.filterwarnings('ignore')
NS, NA, K = 2, 2, 3


def tm(env, typ):
    """deterministic transition model on a Discrete observation space"""
    n, a = env.observation_space.n, env.action_space.n

    def f2(S, is_training):
        return jnp.einsum('bs,sak->bak', S, T._tab('p', (n, a, n)))

    def f1(S, A, is_training):
        return jnp.einsum('bs,ba,sak->bk', S, A, T._tab('p', (n, a, n)))
    return coax.TransitionModel(f2 if typ == 2 else f1, env, random_seed=7)


def stm(env, typ):
    n, a = env.observation_space.n, env.action_space.n

    def f2(S, is_training):
        return {'logits': jnp.einsum('bs,sak->bak', S, T._tab('p', (n, a, n)))}

    def f1(S, A, is_training):
        return {'logits': jnp.einsum('bs,ba,sak->bk', S, A, T._tab('p', (n, a, n)))}
    return coax.StochasticTransitionModel(f2 if typ == 2 else f1, env, random_seed=7)


def rew(env, typ):
    n, a = env.observation_space.n, env.action_space.n

    def f2(S, is_training):
        return jnp.dot(S, T._tab('r', (n, a)))

    def f1(S, A, is_training):
        return jnp.einsum('bs,ba,sa->b', S, A, T._tab('r', (n, a)))
    return coax.RewardFunction(f2 if typ == 2 else f1, env, random_seed=7)


E = T.env_d(NS, NA)
KINDS = {
    'V': (lambda: T.V(E, counting=True), (NS,), lambda f, s: f(s)),
    'Q1': (lambda: T.Q1(E, counting=True), (NS, NA), lambda f, s: f(s)),
    'Q2': (lambda: T.Q2(E, counting=True), (NS, NA), lambda f, s: f(s)),
    'Policy': (lambda: T.Pi(E, counting=True), (NS, NA), lambda f, s: f.dist_params(s)['logits']),
    'StochasticV': (lambda: T.SV(E, (-1., 1.), K), (NS, K), lambda f, s: f.dist_params(s)['logits']),
    'StochasticQ': (lambda: T.SQ2(E, (-1., 1.), K), (NS, NA, K), lambda f, s: np.array([d['logits'] for d in f.dist_params(s)])),
    'StochasticTransitionModel': (lambda: stm(E, 2), (NS, NA, NS), lambda f, s: np.array([d['logits'] for d in f.dist_params(s)])),
    'TransitionModel': (lambda: tm(E, 2), (NS, NA, NS), None),
    'RewardFunction': (lambda: rew(E, 1), (NS, NA), lambda f, s: f(s)),
}
_cache = {}


def masters(kind):
    if kind not in _cache:
        mk, shape, call = KINDS[kind]
        a, b = mk(), mk()
        _cache[kind] = (a, b)
    return _cache[kind]


def state_of(f):
    l = jax.tree_util.tree_leaves(f.function_state)
    return float(l[0]) if l else None


def set_state(f, x):
    l, t = jax.tree_util.tree_flatten(f.function_state)
    if l:
        f.function_state = jax.tree_util.tree_unflatten(t, [jnp.asarray(x, l[0].dtype)])


def ops_alphabet(deep_ok):
    ops = []
    for i, k in ((0, 1), (1, 0), (0, 2), (1, 2)):
        ops.append(('copy', i, k, False))
    ops.append(('copy', 0, 2, True))
    ops.append(('copy', 1, 0, True))
    for i, j in ((0, 1), (1, 0), (2, 0), (0, 2)):
        ops.append(('soft', i, j, .25))
    ops += [('soft', 0, 1, 0.), ('soft', 1, 0, 1.), ('soft', 0, 0, .5), ('soft', 2, 1, 1)]
    ops += [('set', 0), ('set', 1), ('set', 2), ('badset', 0)]
    return ops


class Copies(System):
    name = 'copy-and-soft-update'
    bound = 'every sequence of up to 3 (thorough 4) of 18 operations on three functions, for 9 kinds of function'

    def cases(self, tier):
        n = len(ops_alphabet(True))
        for kind in KINDS:
            for a in range(n):
                yield ['tree', kind, a, 3 if tier == 'quick' else 4]

    def run(self, case, st):
        if case[0] == 'seq':
            return self.play(case[1], [tuple(o) for o in case[2]], st)
        _, kind, a, depth = case
        ops = ops_alphabet(True)
        for n in range(0, depth):
            for rest in itertools.product(ops, repeat=n):
                seq = (ops[a],) + rest
                if any(o[0] == 'copy' and o[3] for o in seq[:-1]) and n == depth - 1 and depth > 2 and sum(o[0] == 'copy' and o[3] for o in seq) > 1:
                    continue   # deep copies are slow: at most one per longest sequence
                try:
                    self.play(kind, seq, st)
                except Exception as e:
                    raise CaseViolation(['seq', kind, [list(o) for o in seq]], describe(e)) from e

    def play(self, kind, seq, st):
        mk, shape, call = KINDS[kind]
        m0, m1 = masters(kind)
        n = int(np.prod(shape))
        base = [np.arange(n, dtype=float).reshape(shape), -.5 * np.arange(n, dtype=float).reshape(shape) + 3]
        T.setp(m0, base[0])
        T.setp(m1, base[1])
        set_state(m0, 3.)
        set_state(m1, 11.)
        f = [m0.copy(), m1.copy(), None]
        model = [(base[0], 3.), (base[1], 11.), None]
        cnt = 0
        for op in seq:
            if op[0] == 'copy':
                _, i, k, deep = op
                if model[i] is None:
                    return
                f[k] = f[i].copy(deep=deep) if deep else f[i].copy()
                model[k] = model[i]
            elif op[0] == 'soft':
                _, i, j, tau = op
                if model[i] is None or model[j] is None:
                    return
                f[i].soft_update(f[j], tau)
                model[i] = tuple((1 - tau) * x + tau * y for x, y in zip(model[i], model[j]))
            elif op[0] == 'set':
                if model[op[1]] is None:
                    return
                cnt += 1
                t = np.cos(np.arange(n) * cnt).reshape(shape)
                T.setp(f[op[1]], t)
                set_state(f[op[1]], 20. + cnt)
                model[op[1]] = (t, 20. + cnt)
            else:
                expect_raises('parameters of another structure', TypeError, lambda: setattr(f[0], 'params', {'x': 1}))
                expect_raises('function state of another structure', TypeError, lambda: setattr(f[0], 'function_state', {'x': {'y': {'z': 1}}}))
            st.transitions += 1
        fs = [m0, m1] + f
        ms = [(base[0], 3.), (base[1], 11.)] + model
        for no, (g, m) in enumerate(zip(fs, ms)):
            if m is None:
                continue
            who = f'{kind}, function {no - 2}' if no > 1 else f'{kind}, an uninvolved function'
            expect_close(f'{who}: parameters', T.getp(g), m[0])
            if state_of(g) is not None:
                expect_close(f'{who}: function state', state_of(g), m[1])
            if call is not None and len(seq) < 3:
                for s in range(NS):
                    expect_close(f'{who}: value in state {s}', call(g, s), m[0][s])
        st.states += 1
        st.traces += 1
        st.outcome((kind, tuple(seq)))
        if len(seq) == 3:
            st.sample({'kind': kind, 'ops': list(seq)}, 4)


def _vf(names, states):
    """a value function with the given parameters and function-state entries"""
    def f(S, is_training):
        out = jnp.zeros(S.shape[0])
        for n in names:
            out = out + S @ T._tab(n, (NS,))
        for n in states:
            hk.set_state(n, hk.get_state(n, (), init=jnp.ones) + 1. * is_training)
        return out
    return coax.V(f, E, random_seed=3)


LAYOUTS = [(('w',), ()), (('w', 'u'), ()), (('x',), ()), (('w',), ('n',)), (('w',), ('n', 'm')), (('w', 'u'), ('n',)), (('w',), ('k',))]


def foreign_cases(tier):
    for c in itertools.permutations(['V', 'Q2', 'Policy', 'StochasticV', 'StochasticQ'], 2):
        yield ['kinds', *c]
    for i, j in itertools.permutations(range(len(LAYOUTS)), 2):
        yield ['layouts', i, j]


def foreign(case, st):
    """soft updates between different kinds or structures are refused and change nothing"""
    if case[0] == 'kinds':
        a, b = KINDS[case[1]][0](), KINDS[case[2]][0]()
    else:
        a, b = _vf(*LAYOUTS[case[1]]), _vf(*LAYOUTS[case[2]])
        for no, f in enumerate((a, b)):
            f.params = jax.tree_util.tree_map(lambda x: x + 1 + no, f.params)
            f.function_state = jax.tree_util.tree_map(lambda x: x + 5 + no, f.function_state)

    def both():
        return jax.tree_util.tree_map(np.array, [(f.params, f.function_state) for f in (a, b)])
    before = both()
    for tau in (.5, 1.):
        expect_raises(f'soft update between {case}', (TypeError, ValueError), lambda: a.soft_update(b, tau))
        expect_tree('parameters and function state after a refused soft update', both(), before)
        st.transitions += 1
    st.states += 1
    st.outcome(tuple(case))


def stream_cases(tier):
    n = 5 if tier == 'quick' else 7
    for kind in ('Policy', 'StochasticV'):
        for deep in (False, True):
            for seq in itertools.product('abc', repeat=n):
                s = ''.join(seq)
                if s.count('c') == 1 and 'b' not in s[:s.index('c')]:
                    yield [kind, deep, s]


def streams(case, st):
    """what the copy does never changes what the original samples"""
    kind, deep, seq = case
    key = ('stream', kind)
    if key not in _cache:
        f = KINDS[kind][0]()
        T.setp(f, np.zeros(KINDS[kind][1]))
        f.random_seed = 5
        _cache[key] = (f, [float(f(0)) for _ in range(10)])
    f, want = _cache[key]
    f.random_seed = 5
    got, g = [], None
    for o in seq:
        if o == 'a':
            got.append(float(f(0)))
        elif o == 'c':
            g = f.copy(deep=deep)
        else:
            g(1)
        st.transitions += 1
    expect_close(f'{kind}: samples drawn while a copy is sampled too ({seq})', got, want[:len(got)])
    st.states += 1
    st.traces += 1
    st.outcome((kind, deep, seq))


C18 = [Copies(), FuncSystem('foreign', foreign_cases, foreign), FuncSystem('sample-streams', stream_cases, streams)]


# ---------------------------------------------------------------- C20: consistent views

SPACES = {
    'discrete': sp.Discrete(3),
    'shifted': sp.Discrete(3, start=2),
    'box': sp.Box(-1., 1., (2,), dtype=np.float32),
    'matrix': sp.Box(-1., 1., (2, 2), dtype=np.float32),
    'multi': sp.MultiDiscrete([2, 3]),
    'binary': sp.MultiBinary(2),
    'tuple': sp.Tuple((sp.Discrete(2), sp.Box(-1., 1., (1,), dtype=np.float32))),
    'dict': sp.Dict({'a': sp.Discrete(2, start=-1), 'b': sp.Tuple((sp.MultiBinary(2), sp.Discrete(2)))}),
}


def elements(space):
    """a finite, distinct-valued grid of elements"""
    if isinstance(space, sp.Discrete):
        return list(range(space.start, space.start + space.n))
    if isinstance(space, sp.Box):
        n = int(np.prod(space.shape))
        return [np.array(v, np.float32).reshape(space.shape) for v in itertools.islice(itertools.product((-1., .25, .5), repeat=n), 0, 27, 4 if n > 2 else 1)]
    if isinstance(space, sp.MultiDiscrete):
        return [np.array(v) for v in itertools.product(*(range(k) for k in space.nvec))]
    if isinstance(space, sp.MultiBinary):
        return [np.array(v, np.int8) for v in itertools.product((0, 1), repeat=space.n)]
    if isinstance(space, sp.Tuple):
        return list(itertools.product(*(elements(s) for s in space.spaces)))
    if isinstance(space, sp.Dict):
        return [dict(zip(space.spaces, v)) for v in itertools.product(*(elements(s) for s in space.spaces.values()))]
    raise AssertionError


def flat(space, x):
    """reference encoding of one element as a vector of floats"""
    if isinstance(space, sp.Discrete):
        v = np.zeros(space.n)
        v[int(x) - space.start] = 1
        return v
    if isinstance(space, (sp.Box, sp.MultiBinary)):
        return np.asarray(x, float).ravel()
    if isinstance(space, sp.MultiDiscrete):
        return np.concatenate([flat(sp.Discrete(int(n)), int(i)) for n, i in zip(space.nvec, x)])
    if isinstance(space, sp.Tuple):
        return np.concatenate([flat(s, i) for s, i in zip(space.spaces, x)])
    if isinstance(space, sp.Dict):
        return np.concatenate([flat(space.spaces[k], x[k]) for k in sorted(space.spaces)])


def cat(S):
    return jnp.concatenate([jnp.reshape(l, (l.shape[0], -1)).astype(jnp.float32) for l in jax.tree_util.tree_leaves(S)], axis=-1)


def collate(xs):
    """a batch of observations as the replay buffers and tracers build it"""
    return jax.tree_util.tree_map(lambda *l: np.stack([np.asarray(i) for i in l]), *xs)


def view_cases(tier):
    for o in SPACES:
        for act in ('discrete', 'shifted', 'box', 'tuple', 'multi'):
            if act == 'shifted' and o not in ('shifted', 'dict'):
                continue
            for typ in (1, 2):
                if typ == 2 and act not in ('discrete', 'shifted'):
                    continue
                for log in (0, 1):
                    for pre in ('default', 'custom'):
                        for kind in ('Q', 'RewardFunction'):
                            if kind == 'RewardFunction' and (log or pre == 'custom' or o not in ('discrete', 'dict')):
                                continue
                            yield dict(obs=o, act=act, type=typ, log=log, pre=pre, kind=kind)


def views(cfg, st):
    """q(s,a) is the function of the encoded s and a; all ways of evaluating it agree"""
    so, sa = SPACES[cfg['obs']], SPACES[cfg['act']]
    env = T.Env(so, sa)
    fl = so if cfg['pre'] == 'default' else None
    enc = (lambda s: flat(so, s)) if fl is not None else (lambda s: np.concatenate([flat(so, s) * 2, [1.]]))
    d_o, d_a = len(enc(elements(so)[0])), len(flat(sa, elements(sa)[0]))
    tf = coax.value_transforms.LogTransform() if cfg['log'] else None
    finv = T.signexp if tf else (lambda x: np.asarray(x, float))
    kw = dict(value_transform=tf, random_seed=3)
    if cfg['pre'] == 'custom':
        base = coax.utils.default_preprocessor(so)

        def pre(rng, s):
            x = cat(base(rng, s))
            return jnp.concatenate([2 * x, jnp.ones((x.shape[0], 1))], axis=-1)
        kw['observation_preprocessor'] = pre
    wo = np.cos(np.arange(d_o * d_a)).reshape(d_o, d_a)
    if cfg['type'] == 1:
        def f(S, A, is_training):
            return jnp.einsum('bi,bj,ij->b', cat(S), cat(A), T._tab('w', (d_o, d_a)))
    else:
        def f(S, is_training):
            return jnp.dot(cat(S), T._tab('w', (d_o, d_a)))
    q = getattr(coax, cfg['kind'])(f, env, **kw)
    T.setp(q, wo)
    S, A = elements(so), elements(sa)
    ref = np.array([[enc(s) @ wo @ flat(sa, a) for a in A] for s in S])
    for i, s in enumerate(S):
        for j, a in enumerate(A):
            got = q(s, a)
            check(np.shape(got) == (), 'q(s,a) has shape %s', np.shape(got))
            expect_close(f'q({s}, {a})', got, finv(ref[i, j]), 3e-5)
            st.transitions += 1
        if isinstance(sa, sp.Discrete):
            got = q(s)
            expect_close(f'q({s})', got, finv(ref[i]), 3e-5)
    # batches
    key = jax.random.PRNGKey(0)
    pairs = [(i, j) for i in range(len(S)) for j in range(len(A))]
    for lot in (pairs, pairs[:1], pairs[::-1][:3]):
        SB = q.observation_preprocessor(key, collate([S[i] for i, j in lot]))
        AB = q.action_preprocessor(key, collate([A[j] for i, j in lot]))
        got, _ = q.function_type1(q.params, q.function_state, key, SB, AB, False)
        expect_close('batch of (s,a)', got, [ref[i, j] for i, j in lot], 3e-5)
        if isinstance(sa, sp.Discrete):
            got, _ = q.function_type2(q.params, q.function_state, key, SB, False)
            expect_close('batch of s', got, [ref[i] for i, j in lot], 3e-5)
        st.transitions += len(lot)
    if not isinstance(sa, sp.Discrete):
        expect_raises('q(s) with non-discrete actions', ValueError, lambda: q(S[0]))
    st.states += len(pairs)
    st.traces += 1
    st.outcome(repr(cfg))
    st.sample(cfg, 3)


def vp_cases(tier):
    for o in SPACES:
        for log in (0, 1):
            for pre in ('default', 'custom'):
                yield dict(obs=o, log=log, pre=pre)


def vps(cfg, st):
    """state-value functions and policies: single and batched evaluation, encoding, transform"""
    so = SPACES[cfg['obs']]
    env = T.Env(so, sp.Discrete(3))
    enc = (lambda s: flat(so, s)) if cfg['pre'] == 'default' else (lambda s: np.concatenate([flat(so, s) * 2, [1.]]))
    S = elements(so)
    d = len(enc(S[0]))
    tf = coax.value_transforms.LogTransform() if cfg['log'] else None
    finv = T.signexp if tf else (lambda x: np.asarray(x, float))
    kw = {}
    if cfg['pre'] == 'custom':
        base = coax.utils.default_preprocessor(so)

        def pre(rng, s):
            x = cat(base(rng, s))
            return jnp.concatenate([2 * x, jnp.ones((x.shape[0], 1))], axis=-1)
        kw['observation_preprocessor'] = pre

    def fv(S, is_training):
        return jnp.dot(cat(S), T._tab('w', (d,)))

    def fp(S, is_training):
        return {'logits': jnp.dot(cat(S), T._tab('w', (d, 3)))}
    v = coax.V(fv, env, value_transform=tf, random_seed=3, **kw)
    w = np.cos(np.arange(d))
    T.setp(v, w)
    pi = coax.Policy(fp, env, random_seed=3, **kw)
    wp = 3 * np.cos(np.arange(3 * d)).reshape(d, 3)
    T.setp(pi, wp)
    X = np.array([enc(s) for s in S])
    for s, x in zip(S, X):
        expect_close(f'v({s})', v(s), finv(x @ w), 3e-5)
        logits = np.asarray(pi.dist_params(s)['logits'], float)
        expect_close(f'logits of pi({s})', logits, x @ wp, 3e-5)
        a = pi.mode(s)
        best = (x @ wp)
        check(isinstance(a, int) and best[a] > best.max() - 1e-4, 'mode of pi(%s) is %s, logits %s', s, a, best)
        for _ in range(2):
            a, logp = pi(s, return_logp=True)
            check(env.action_space.contains(a), 'action %r', a)
        check(env.action_space.contains(pi(s)), 'action')
        st.transitions += 5
    key = jax.random.PRNGKey(0)
    for lot in (list(range(len(S))), [len(S) - 1], [1, 0]):
        SB = v.observation_preprocessor(key, collate([S[i] for i in lot]))
        got, _ = v.function(v.params, v.function_state, key, SB, False)
        expect_close('batch of v(s)', got, X[lot] @ w, 3e-5)
        got, _ = pi.function(pi.params, pi.function_state, key, SB, False)
        expect_close('batch of pi(s)', got['logits'], X[lot] @ wp, 3e-5)
    st.states += len(S)
    st.traces += 1
    st.outcome(repr(cfg))


def dview_cases(tier):
    for kind in ('StochasticQ', 'StochasticV', 'StochasticTransitionModel', 'TransitionModel', 'quantiles'):
        for typ in ((1, 2) if kind != 'StochasticV' else (2,)):
            for log in ((0, 1) if kind in ('StochasticQ', 'StochasticV', 'quantiles') else (0,)):
                yield dict(kind=kind, type=typ, log=log)


def dbatch(cfg, st, g, t, kind, nS, nA, z, f, finv):
    """batched accessors row by row, and the log-probability of what was sampled"""
    import jax
    leaf = 'values' if kind == 'quantiles' else 'logits'
    flat = np.roll(np.linspace(0, 2, t.shape[-1]), 1) + .2 * (np.arange(t[..., 0].size).reshape(t.shape[:-1] + (1,)) % 5)
    flat = flat + 1.5 * np.cos(1.7 * np.arange(t.size).reshape(t.shape))
    lsm = flat - np.log(np.exp(flat).sum(-1, keepdims=True))
    rows = np.array([4, 0, 4, 8, 1])
    S = g.observation_preprocessor(g.rng, rows)
    if kind == 'StochasticV':
        T.setp(g, t)
        expect_close('batch of dist_params', g.function(g.params, g.function_state, g.rng, S, False)[0][leaf], t[rows], 1e-5)
        T.setp(g, flat)
        for s in range(nS):
            x, lp = g(s, return_logp=True)
            check(mixture(z, lsm[s], float(f(x)), float(lp)), 'the value %s with log-probability %s is no mixture of the atoms %s of state %s: %s', x, lp, finv(z), s, lsm[s])
            st.transitions += 1
        return
    for tab in (t, flat) if kind != 'quantiles' else (t,):
        T.setp(g, tab)
        ps, fs = g.params, g.function_state
        expect_close('batch of dist_params for all actions', g.function_type2(ps, fs, g.rng, S, False)[0][leaf], tab[rows], 1e-5)
        for acts in ([0, 1, 2, 1, 0], [2, 2, 1, 0, 1]):
            A = g.action_preprocessor(g.rng, np.array(acts))
            expect_close('batch of dist_params', g.function_type1(ps, fs, g.rng, S, A, False)[0][leaf], tab[rows, acts], 1e-5)
            names = ('mean',) if kind == 'quantiles' or tab is flat else ('mean', 'mode')   # a mode is relaxed, too
            for nm in names:
                two = np.asarray(jax.tree_util.tree_leaves(getattr(g, f'{nm}_func_type2')(ps, fs, g.rng, S))[0])
                one = np.asarray(jax.tree_util.tree_leaves(getattr(g, f'{nm}_func_type1')(ps, fs, g.rng, S, A))[0])
                check(two.shape[:2] == (5, nA) and one.shape[:1] == (5,), '%s: batched %s has shapes %s, %s', cfg, nm, two.shape, one.shape)
                for b, s in enumerate(rows):
                    for a in range(nA):
                        w = np.ravel(exact(kind, nm, tab[s, a], z, f))
                        expect_close(f'{kind}: {nm} of all actions, row {b} action {a}', np.ravel(two[b, a]), w, 1e-3)
                        if a == acts[b]:
                            expect_close(f'{kind}: {nm} of one action, row {b}', np.ravel(one[b]), w, 1e-3)
                st.transitions += 5 * nA
            if kind != 'quantiles' and tab is t:
                for X, P in (g.sample_func_type2(ps, fs, g.rng, S), g.sample_func_type1(ps, fs, g.rng, S, A)):
                    check(np.shape(P) in ((5, nA), (5,)), 'log-probabilities of shape %s', np.shape(P))
                    expect_close('log-probabilities of point masses', P, np.zeros(np.shape(P)), 1e-3)
                    X = np.asarray(X)
                    for b, s in enumerate(rows):
                        got = X[b] if X.shape[1:2] == (nA,) and np.ndim(P) == 2 else X[b][None]
                        for a, x in zip(range(nA) if np.ndim(P) == 2 else [acts[b]], got):
                            expect_close(f'{kind}: batched sample, row {b} action {a}', np.ravel(x), np.ravel(exact(kind, 'mode', tab[s, a], z, f)), 2e-2)
    if kind == 'quantiles':
        return
    for s in range(nS):
        xs, lps = g(s, return_logp=True)
        for a in range(nA):
            for x, lp in ((xs[a], lps[a]), g(s, a, return_logp=True)):
                if kind == 'StochasticQ':            # the sample itself is relaxed: which atom it is cannot be told
                    check(mixture(z, lsm[s, a], float(f(x)), float(lp)), 'the value %s with log-probability %s is no mixture of the atoms %s of (%s,%s): %s', x, lp, finv(z), s, a, lsm[s, a])
                else:
                    expect_close(f'log-probability of the sample of ({s},{a})', float(lp), lsm[s, a, int(x)], 1e-3)
                st.transitions += 1


def mixture(z, l, x, lp):
    """whether (x, lp) is a convex combination of the three points (z_i, l_i)"""
    P = np.stack([np.asarray(z, float), np.asarray(l, float)], -1)
    q = np.array([x, lp])
    cross = [float(np.cross(P[(i + 1) % 3] - P[i], q - P[i])) for i in range(3)]
    lo, hi = P.min(0) - 1e-2, P.max(0) + 1e-2          # the three points may lie on a line
    eps = 2e-2 * (1 + np.abs(P).max())
    return (min(cross) > -eps or max(cross) < eps) and (lo <= q).all() and (q <= hi).all()


def exact(kind, what, row, z, f):
    """the batched (not post-processed) mean or mode of one table row"""
    p = T.softmax(row)
    if kind == 'quantiles':
        return row.mean()
    return p if what == 'mean' else np.eye(len(row))[row.argmax()]


def dviews(cfg, st):
    """distributions: dist_params/mean/mode/sample of (s,a) and of all actions agree with the table"""
    kind, typ = cfg['kind'], cfg['type']
    nS, nA = 9, 3
    env = T.env_d(nS, nA)
    tf = coax.value_transforms.LogTransform() if cfg['log'] else None
    f, finv = (T.signlog, T.signexp) if tf else (lambda x: np.asarray(x, float),) * 2
    lo, hi = float(f(-4.)), float(f(4.))
    z = lo + (np.arange(K) + .5) * (hi - lo) / K
    if kind == 'StochasticV':
        nA = 1
        g = T.SV(env, (-4., 4.), K, value_transform=tf)
        shape = (nS, K)
    elif kind == 'StochasticQ':
        g = (T.SQ1 if typ == 1 else T.SQ2)(env, (-4., 4.), K, value_transform=tf)
        shape = (nS, nA, K)
    elif kind == 'quantiles':
        g = T.QQ(env, K, typ, value_transform=tf)
        shape = (nS, nA, K)
    elif kind == 'StochasticTransitionModel':
        g, shape = stm(env, typ), (nS, nA, nS)
    else:
        g, shape = tm(env, typ), (nS, nA, nS)
    n = int(np.prod(shape[:-1]))
    k = shape[-1]
    # every (s,a) gets its own peaked distribution, so that mode and samples are determined
    t = np.zeros((n, k))
    for i in range(n):
        t[i] = np.roll(np.linspace(0, 3, k), i + i // 3)
        if kind != 'quantiles':
            t[i, (i * 2 + i // 3) % k] += 60.
        else:
            t[i] += .1 * i                     # no two actions share a value, or a mean
    t = t.reshape(shape)
    T.setp(g, t)
    if kind in ('StochasticQ', 'StochasticV', 'quantiles'):
        check(g.num_bins == K, '%s: num_bins is %s', cfg, g.num_bins)
    for s in range(nS):
        if kind == 'StochasticV':
            expect_close('dist_params', g.dist_params(s)['logits'], t[s], 1e-5)
            best = z[t[s].argmax()]
            expect_close(f'mode({s})', g.mode(s), finv(best), 1e-4)
            expect_close(f'mean({s})', g.mean(s), finv((T.softmax(t[s]) * z).sum()), 1e-4)
            x, logp = g(s, return_logp=True)
            expect_close(f'sample({s})', x, finv(best), 1e-3)
            expect_close(f'log-probability of the sample ({s})', logp, 0., 1e-3)
            st.transitions += 4
            continue
        if kind != 'TransitionModel':
            ds = g.dist_params(s)
            check(isinstance(ds, list) and len(ds) == nA, 'dist_params(s) must be one per action')
            leaf = 'values' if kind == 'quantiles' else 'logits'
            for a in range(nA):
                expect_close(f'dist_params({s})[{a}]', ds[a][leaf], t[s, a], 1e-5)
                expect_close(f'dist_params({s},{a})', g.dist_params(s, a)[leaf], t[s, a], 1e-5)
        if kind == 'quantiles':
            ms = g.mean(s)
            for a in range(nA):
                expect_close(f'mean({s})[{a}]', ms[a], finv(t[s, a].mean()), 1e-4)
                expect_close(f'mean({s},{a})', g.mean(s, a), finv(t[s, a].mean()), 1e-4)
                x = g(s, a)
                check(np.shape(x) == () and np.min(np.abs(finv(t[s, a]) - float(x))) < 1e-4, 'a sample of (%s,%s) is %r, not one of the values %s', s, a, x, finv(t[s, a]))
            xs, lps = g(s, return_logp=True)
            check(len(xs) == nA and len(lps) == nA, 'samples for all actions')
            for a in range(nA):
                check(np.min(np.abs(finv(t[s, a]) - float(xs[a]))) < 1e-4, 'sample')
                expect_close('log-probability of a quantile sample', lps[a], -np.log(K), 1e-4)
            st.transitions += 4 * nA
            continue
        if kind == 'StochasticQ':
            exp = [finv(z[t[s, a].argmax()]) for a in range(nA)]
            alls = [('mean', g.mean(s)), ('mode', g.mode(s)), ('sample', g(s)), ('sample', g(s, return_logp=True)[0])]
            one = lambda a: [('mean', g.mean(s, a)), ('mode', g.mode(s, a)), ('sample', g(s, a))]  # noqa: E731
        else:
            exp = [int(t[s, a].argmax()) for a in range(nA)]
            if kind == 'TransitionModel':
                alls = [('next state', g(s))]
                one = lambda a: [('next state', g(s, a))]  # noqa: E731
            else:
                alls = [('mean', g.mean(s)), ('mode', g.mode(s)), ('sample', g(s)), ('sample', g(s, return_logp=True)[0])]
                one = lambda a: [('mean', g.mean(s, a)), ('mode', g.mode(s, a)), ('sample', g(s, a))]  # noqa: E731
        for what, xs in alls:
            check(len(xs) == nA, '%s(s) returned %s values', what, len(xs))
            expect_close(f'{kind}: {what} for every action in state {s}', [float(x) for x in xs], [float(e) for e in exp], 1e-3)
        for a in range(nA):
            for what, x in one(a):
                expect_close(f'{kind}: {what} of ({s},{a})', float(x), float(exp[a]), 1e-3)
            st.transitions += 3
        if kind != 'TransitionModel':
            expect_close('log-probabilities', [float(x) for x in g(s, return_logp=True)[1]], [0.] * nA, 1e-3)
            expect_close('log-probability', float(g(s, 1, return_logp=True)[1]), 0., 1e-3)
    if kind != 'TransitionModel':
        dbatch(cfg, st, g, t, kind, nS, nA, z, f, finv)
    st.states += nS * nA
    st.traces += 1
    st.outcome(repr(cfg))


def sig_cases(tier):
    return iter(range(14))


def sigs(i, st):
    """functions with a wrong signature, output shape, dtype or structure are refused on construction"""
    d, b = T.env_d(2, 3), T.env_b(2)
    p = lambda *s: T._tab('x', s)  # noqa: E731

    def mk(cls, fn, env=d, **k):
        return lambda: cls(fn, env, **k)
    cases = [
        mk(coax.V, lambda S: S[:, 0]), mk(coax.V, lambda S, is_training: S), mk(coax.V, lambda S, is_training: (S[:, 0] * 2).astype(jnp.int32)),
        mk(coax.Q, lambda S, is_training: S[:, :2]), mk(coax.Q, lambda S, A, is_training: A), mk(coax.Q, lambda S, X, is_training: S[:, 0]),
        mk(coax.Q, lambda S, is_training: S, env=b), mk(coax.Policy, lambda S, is_training: {'logits': S}),
        mk(coax.Policy, lambda S, is_training: {'foo': jnp.zeros((S.shape[0], 3))}), mk(coax.Policy, lambda S, A, is_training: {'logits': A}),
        mk(coax.StochasticQ, lambda S, is_training: {'logits': jnp.zeros((S.shape[0], 5))}, value_range=(0, 1), num_bins=5),
        mk(coax.StochasticV, lambda S, is_training: {'logits': jnp.zeros((S.shape[0], 4))}, value_range=(0, 1), num_bins=5),
        mk(coax.StochasticV, lambda S, is_training: {'logits': jnp.zeros((S.shape[0], 5))}, value_range=(1, 0), num_bins=5),
        mk(coax.TransitionModel, lambda S, A, is_training: A),
    ]
    expect_raises(f'case {i}', TypeError, cases[i])
    st.states += 1
    st.outcome(i)


C20 = [FuncSystem('action-values', view_cases, views, '7 observation spaces x 4 action spaces x type x transform x preprocessor, all elements of a grid of each space, three batch shapes'),
       FuncSystem('values-and-policies', vp_cases, vps, '7 observation spaces x transform x preprocessor, all elements'),
       FuncSystem('distributions', dview_cases, dviews, '9 states x 3 actions, one peaked distribution each, every accessor'),
       FuncSystem('refusals', sig_cases, sigs)]


# ---- models over structured observation spaces

MSPACES = {
    'matrix': sp.Box(-1., 2., (2, 3), dtype=np.float32),
    'cube': sp.Box(0., 1., (2, 1, 3), dtype=np.float32),
    'vector': sp.Box(-3., 1., (2,), dtype=np.float32),
    'tuple': sp.Tuple((sp.Discrete(3, start=1), sp.Box(-1., 2., (3, 2), dtype=np.float32))),
    'dict': sp.Dict({'b': sp.Discrete(2), 'a': sp.Box(0., 4., (1,), dtype=np.float32), 'c': sp.MultiDiscrete([2, 3])}),
}


def mleaves(space):
    """elementary components in the order in which jax lists the leaves of an encoded observation"""
    if isinstance(space, (sp.Discrete, sp.Box)):
        return [space]
    if isinstance(space, sp.MultiDiscrete):
        return [sp.Discrete(int(n)) for n in space.nvec]
    return [y for x in (space.spaces if isinstance(space, sp.Tuple) else [space.spaces[k] for k in sorted(space.spaces)]) for y in mleaves(x)]


def mvalues(space, x):
    """the values of the elementary components of an element, in that order"""
    if isinstance(space, (sp.Discrete, sp.Box)):
        return [np.asarray(x)]
    if isinstance(space, sp.MultiDiscrete):
        return list(np.asarray(x))
    it = zip(space.spaces, x) if isinstance(space, sp.Tuple) else [(space.spaces[k], x[k]) for k in sorted(space.spaces)]
    return [y for s, v in it for y in mvalues(s, v)]


def mel(space, i):
    """the i-th test element"""
    if isinstance(space, sp.Discrete):
        return space.start + i % space.n
    if isinstance(space, sp.Box):
        u = .5 + .45 * np.sin(i * 1.3 + np.arange(int(np.prod(space.shape)))).reshape(space.shape)
        return (space.low + (space.high - space.low) * u).astype(np.float32)
    if isinstance(space, sp.MultiDiscrete):
        return np.array([(i + j) % n for j, n in enumerate(space.nvec)])
    if isinstance(space, sp.Tuple):
        return tuple(mel(s, i + j) for j, s in enumerate(space.spaces))
    return {k: mel(s, i + j) for j, (k, s) in enumerate(space.spaces.items())}


def model_cases(tier):
    for o in MSPACES:
        for typ in (1, 2):
            for stoch in (0, 1):
                yield dict(obs=o, type=typ, stochastic=stoch)


def model_spaces(cfg, st):
    import jax
    so, nA = MSPACES[cfg['obs']], 3
    env = T.Env(so, sp.Discrete(nA))
    parts = mleaves(so)
    sizes = [p.n if isinstance(p, sp.Discrete) else int(np.prod(p.shape)) for p in parts]
    D = sum(sizes)
    Ws = [np.cos(1 + .7 * np.arange(D * nA * k) + 2 * j).reshape(D, nA, k) for j, k in enumerate(sizes)]
    dist = coax.proba_dists.ProbaDist(so)
    struct = jax.tree_util.tree_structure(dist.preprocess_variate(jax.random.PRNGKey(0), mel(so, 0)))
    dstruct = jax.tree_util.tree_structure(dist.default_priors)
    dleaves = [x.shape[1:] for x in jax.tree_util.tree_leaves(dist.default_priors)]

    def enc(s):
        out = []
        for p, x in zip(parts, mvalues(so, s)):
            u = np.eye(p.n)[int(x) - p.start] if isinstance(p, sp.Discrete) else (lambda v: np.log(v) - np.log1p(-v))((np.asarray(x, float) - p.low) / (np.asarray(p.high, float) - p.low))
            out.append(np.ravel(u))
        return np.concatenate(out)

    def out_tree(e, axes, A=None):
        """prediction of all actions (or of the given ones), as variate or as distribution parameters"""
        one = hk.get_parameter('one', (), init=jnp.ones)
        leaves = [one * jnp.einsum('be,eak->bak', e, jnp.asarray(W, jnp.float32)) for W in Ws]
        if A is not None:
            leaves = [jnp.einsum('ba,bak->bk', A, x) for x in leaves]
        shape = lambda x, p: x if isinstance(p, sp.Discrete) else x.reshape(x.shape[:-1] + p.shape)    # noqa: E731
        leaves = [shape(x, p) for x, p in zip(leaves, parts)]
        if not cfg['stochastic']:
            return jax.tree_util.tree_unflatten(struct, leaves)
        flat = []
        for x, p in zip(leaves, parts):      # leaves of the parameters: logits, or logvar and mu
            flat += [2000. * x] if isinstance(p, sp.Discrete) else [jnp.full_like(x, -18.), x]
        assert [f.shape[axes:] for f in flat] == dleaves
        return jax.tree_util.tree_unflatten(dstruct, flat)
    if cfg['type'] == 1:
        def f(S, A, is_training):
            return out_tree(cat(S), 1, A)
    else:
        def f(S, is_training):
            return out_tree(cat(S), 2)
    m = (coax.StochasticTransitionModel if cfg['stochastic'] else coax.TransitionModel)(f, env, random_seed=1)

    def close(what, got, s, a):
        check(so.contains(got) or isinstance(so, sp.Dict) and set(got) == set(so.spaces), '%s: %r is not an element of the observation space', what, got)
        e = enc(s)
        for p, W, x in zip(parts, Ws, mvalues(so, got)):
            z = e @ W[:, a]
            if isinstance(p, sp.Discrete):
                top = np.sort(z)[::-1]
                check(top[0] - top[1] < .02 or int(x) - p.start == int(np.argmax(z)), '%s: predicted component %s, logits %s', what, x, z)
            else:
                u = 1 / (1 + np.exp(-z.reshape(p.shape)))
                expect_close(what, x, p.low + (p.high.astype(float) - p.low) * u, 2e-3 if cfg['stochastic'] else 2e-4)
    els = [mel(so, i) for i in range(5)]
    for i, s in enumerate(els):
        calls = dict(predict=m) if not cfg['stochastic'] else dict(sample=m, mode=m.mode, mean=m.mean)
        for what, fn in calls.items():
            every = fn(s)
            check(len(every) == nA, '%s(s) returns %s predictions', what, len(every))
            for a in range(nA):
                close(f'{cfg} {what}(s)[{a}]', every[a], s, a)
                close(f'{cfg} {what}(s, {a})', fn(s, a), s, a)
                st.transitions += 2
    # batches: the two forms agree with one another and with the single evaluations
    S = m.observation_preprocessor(m.rng, collate(els)) if not isinstance(so, sp.Dict) else m.observation_preprocessor(m.rng, {k: np.stack([np.asarray(e[k]) for e in els]) for k in so.spaces})
    t2 = jax.tree_util.tree_leaves(m.function_type2(m.params, m.function_state, m.rng, S, False)[0])
    E_ = np.stack([enc(s) for s in els])
    first = [np.einsum('be,eak->bak', E_, W) for W in Ws]
    for a in range(nA):
        A = jnp.tile(jnp.eye(nA)[a], (len(els), 1))
        t1 = jax.tree_util.tree_leaves(m.function_type1(m.params, m.function_state, m.rng, S, A, False)[0])
        for x, y in zip(t1, t2):
            expect_close(f'{cfg} batch over all actions and of action {a}', np.asarray(y)[:, a], x, 1e-4)
        if not cfg['stochastic']:
            for x, w in zip(t1, first):
                expect_close(f'{cfg} batch of action {a}', np.asarray(x).reshape(len(els), -1), w[:, a], 2e-3)
    st.states += len(els) * nA
    st.traces += 1
    st.outcome(repr(cfg))


C20.append(FuncSystem('model-spaces', model_cases, model_spaces, 'transition models over five structured observation spaces x type x deterministic/stochastic, five states x all actions, every accessor'))


# ---------------------------------------------------------------- evaluation mode and function state

def emode_cases(tier):
    for kind in ('V', 'Q1', 'Q2', 'SV', 'SQ1', 'SQ2', 'QQ1', 'QQ2', 'Pi', 'PiBox', 'TM1', 'TM2', 'STM1', 'STM2', 'RF1', 'RF2', 'SRF1', 'SRF2'):
        for mode in ([.5, 0.], [0., .75], [-.5, 1.25]):
            yield [kind, mode]


def emodes(case, st):
    """calls evaluate the function in inference mode and with its own state; the batch functions take both as arguments"""
    from checks import models as MO
    kind, mode = case
    e = MO.env()
    nS, nA = MO.NS, MO.NA
    VR = (-2., 3.)
    mk = {'V': lambda: T.V(e, mode=mode), 'Q1': lambda: T.Q1(e, mode=mode), 'Q2': lambda: T.Q2(e, mode=mode),
          'SV': lambda: T.SV(e, VR, K, mode=mode), 'SQ1': lambda: T.SQ1(e, VR, K, mode=mode), 'SQ2': lambda: T.SQ2(e, VR, K, mode=mode),
          'QQ1': lambda: T.QQ(e, K, 1, mode=mode), 'QQ2': lambda: T.QQ(e, K, 2, mode=mode), 'Pi': lambda: T.Pi(e, mode=mode), 'PiBox': lambda: T.PiBox(T.env_b(nS, dim=2), mode=mode),
          'TM1': lambda: MO.tmodel(e, 1, 0, mode=mode), 'TM2': lambda: MO.tmodel(e, 2, 0, mode=mode), 'STM1': lambda: MO.tmodel(e, 1, 1, mode=mode), 'STM2': lambda: MO.tmodel(e, 2, 1, mode=mode),
          'RF1': lambda: MO.rmodel(e, 1, 0, mode=mode), 'RF2': lambda: MO.rmodel(e, 2, 0, mode=mode), 'SRF1': lambda: MO.rmodel(e, 1, 1, bins=K, vr=VR, mode=mode), 'SRF2': lambda: MO.rmodel(e, 2, 1, bins=K, vr=VR, mode=mode)}[kind]
    f = mk()
    stoch = kind[0] == 'S' or kind in ('QQ1', 'QQ2', 'Pi', 'PiBox')
    per_action = kind not in ('V', 'SV', 'Pi', 'PiBox')
    width = {'V': 0, 'Q': 0, 'R': 0}.get(kind[0], K)
    width = K if kind[:2] == 'QQ' else nS if 'TM' in kind else {'Pi': nA, 'PiBox': 2}.get(kind, width)
    shape = (nS,) + ((nA,) if per_action else ()) + ((width,) if width else ())
    n = int(np.prod(shape))
    ramp = np.arange(width) if width and kind != 'PiBox' else 1.
    leaf = 'values' if kind[:2] == 'QQ' else 'mu' if kind == 'PiBox' else 'logits'
    at = -2. + (np.arange(K) + .5) * 5. / K
    for rep in range(3):
        tab = np.array([((3 * i + i * i * rep) % 7) / 2. - 1 for i in range(n)]).reshape(shape)
        if kind == 'PiBox':
            T.setp(f, np.stack([tab, -.5 + 0 * tab], -1))
        else:
            T.setp(f, tab)
        g = f.copy(deep=True)
        other = 5. + rep
        l, tree = jax.tree_util.tree_flatten(g.function_state)
        check(len(l) == 1, 'harness: state of %s', kind)
        g.function_state = jax.tree_util.tree_unflatten(tree, [jnp.asarray(other, l[0].dtype)])
        for h, b in ((f, mode[0]), (g, other)):
            inf, trn = tab + b * ramp, tab + (b + mode[1]) * ramp
            for s in range(nS):
                what = f'{kind} with (state, training) offsets {mode}, state {b}, s={s}'
                if not stoch and 'TM' not in kind:
                    expect_close(what + ': value', h(s), inf[s], 1e-4)
                    if per_action:
                        for a in range(nA):
                            expect_close(what + f', a={a}: value', h(s, a), inf[s, a], 1e-4)
                elif stoch:
                    d = h.dist_params(s)
                    expect_close(what + ': dist_params', [x[leaf] for x in d] if per_action else d[leaf], inf[s], 1e-4)
                    if per_action:
                        for a in range(nA):
                            expect_close(what + f', a={a}: dist_params', h.dist_params(s, a)[leaf], inf[s, a], 1e-4)
                    if kind not in ('Pi', 'PiBox'):          # samples
                        ls = inf[s] - T.lse(inf[s])[..., None]
                        xs = list(zip(*h(s, return_logp=True))) if per_action else [h(s, return_logp=True)]
                        got = [(a, x, lp) for a, (x, lp) in enumerate(xs)] + ([(a,) + h(s, a, return_logp=True) for a in range(nA)] if per_action else [])
                        for a, x, lp in got:
                            row, r = (ls[a], inf[s, a]) if per_action else (ls, inf[s])
                            if 'TM' in kind:
                                expect_close(what + f', a={a}: log-probability of the sample', lp, row[int(x)], 1e-3)
                            elif kind[:2] == 'QQ':
                                check(np.min(np.abs(r - float(x))) < 1e-4, '%s, a=%s: the sample %s is none of %s', what, a, x, r)
                            else:
                                check(mixture(at, row, float(x), float(lp)), '%s, a=%s: the value %s with log-probability %s is no mixture of the atoms %s: %s', what, a, x, lp, at, row)
                    if kind[:2] in ('SV', 'SQ', 'SR'):
                        m = (T.softmax(inf) * at).sum(-1)
                        expect_close(what + ': mean', h.mean(s), m[s], 1e-4)
                        if per_action:
                            expect_close(what + ': mean', h.mean(s, 1), m[s, 1], 1e-4)
                    elif kind[:2] == 'QQ':
                        expect_close(what + ': mean', h.mean(s), inf[s].mean(-1), 1e-4)
                    elif kind == 'Pi':
                        a, lp = h(s, return_logp=True)
                        lps = inf[s] - T.lse(inf[s])
                        expect_close(what + ': log-probability of the sampled action', lp, lps[int(a)], 1e-4)
                        top = np.flatnonzero(inf[s] >= inf[s].max() - 1e-6)
                        check(int(h.mode(s)) in top, '%s: the mode is %s, the most probable actions are %s', what, h.mode(s), top)
                    elif kind == 'PiBox':
                        expect_close(what + ': mode', h.mode(s), -2. + 4. / (1 + np.exp(-inf[s])), 1e-3)
                        a, lp = h(s, return_logp=True)
                        u = np.clip((np.asarray(a, float) + 2) / 4, 1e-9, 1 - 1e-9)
                        z = np.log(u) - np.log1p(-u)
                        if (np.abs(z) < 3.5).all():       # further out the bounded action does not determine z in single precision
                            expect_close(what + ': log-probability of the sampled action', lp, np.sum(-.5 * (np.log(2 * np.pi) - .5 + (z - inf[s]) ** 2 * np.exp(.5))), 1e-2)
                    elif 'TM' in kind:
                        top = inf[s].argmax(-1)
                        for a in range(nA):
                            srt = np.sort(inf[s, a])
                            if srt[-1] - srt[-2] > 1e-3:
                                check(int(h.mode(s, a)) == top[a], '%s: mode %s, expected %s', what, h.mode(s, a), top[a])
                st.transitions += 1
            S = h.observation_preprocessor(h.rng, np.arange(nS))
            for tr, want in ((False, inf), (True, trn)):
                what = f'{kind} offsets {mode}, state {b}, is_training={tr}'
                pick = lambda d: d[leaf] if stoch else d  # noqa: E731
                if not per_action:
                    y, s1 = h.function(h.params, h.function_state, h.rng, S, tr)
                    expect_close(what + ': function', pick(y), want, 1e-4)
                else:
                    y, s1 = h.function_type2(h.params, h.function_state, h.rng, S, tr)
                    expect_close(what + ': function_type2', pick(y), want, 1e-4)
                    A = h.action_preprocessor(h.rng, np.arange(nS) % nA)
                    y, s2 = h.function_type1(h.params, h.function_state, h.rng, S, A, tr)
                    expect_close(what + ': function_type1', pick(y), want[np.arange(nS), np.arange(nS) % nA], 1e-4)
                    expect_tree(what + ': function state', s2, h.function_state)
                expect_tree(what + ': function state', s1, h.function_state)
                st.transitions += nS
        st.states += 1
        st.outcome((kind, tuple(mode), rep))
    st.traces += 1


C20.append(FuncSystem('evaluation-mode', emode_cases, emodes, '18 kinds of function whose output depends on the function state and the evaluation mode x 3 offsets x 3 tables x 2 states, every accessor'))

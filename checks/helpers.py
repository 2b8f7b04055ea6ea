"""Schedules, running averages and noise (C26), array helpers (C27), losses and value transforms (C28)."""
import itertools
import math
import warnings

import gymnasium.spaces as sp
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

import coax
from mc.core import check, BFS, FuncSystem
from mc.util import expect_close, expect_raises, expect_tree, close, brief
from checks import tabular as T

U = coax.utils
f32 = np.float32
KEY = jax.random.PRNGKey(3)


# ---------------------------------------------------------------- C26

def sched_cases(tier):
    ts = (0, 1, 3, 4, 9)
    vs = (0., 1., -2., 1)
    for k in (2, 3) if tier == 'quick' else (2, 3, 4):
        for t in itertools.combinations(ts, k):
            for v in itertools.product(vs if k < 4 else vs[:3], repeat=k):
                yield [list(t), list(v)]


def sched(case, st):
    t, v = case
    f = U.StepwiseLinearFunction(*zip(t, v))
    for x in [-3, -1, 0, .5, 1, 1.5, 2, 3, 3.25, 4, 5, 6, 8.99, 9, 10, 1000]:
        want = float(np.interp(x, t, v))
        got = f(x)
        check(np.ndim(got) == 0 and abs(float(got) - want) < 1e-6, 'schedule %s at %s gives %s, expected %s', list(zip(t, v)), x, got, want)
        check(np.ndim(f(np.int64(x))) == 0, 'numpy timestep')
        st.transitions += 1
    st.states += 1
    st.outcome((tuple(t), tuple(v)))


def sched_bad(case, st):
    bad = {'one': (TypeError, [(0, 1.)]), 'none': (TypeError, []), 'float time': (TypeError, [(0., 1.), (1., 2.)]), 'not a pair': (TypeError, [(0, 1., 2.), (1, 1., 2.)]),
           'list': (TypeError, [[0, 1.], [1, 2.]]), 'descending': (ValueError, [(2, 1.), (1, 2.)]), 'equal': (ValueError, [(1, 1.), (1, 2.)]),
           'descending end': (ValueError, [(0, 1.), (2, 1.), (1, 2.)]), 'string': (TypeError, [(0, '1'), (1, '2')])}
    exc, steps = bad[case]
    expect_raises(f'schedule {steps}', exc, lambda: U.StepwiseLinearFunction(*steps))
    st.states += 1
    st.outcome(case)


def sched_bad_cases(tier):
    return iter(['one', 'none', 'float time', 'not a pair', 'list', 'descending', 'equal', 'descending end', 'string'])


def avg_cases(tier):
    L = 7 if tier == 'quick' else 9
    for n in (1, 2, 3, 4, 100):
        for first in itertools.product((0., 1., -3.5), repeat=2):
            yield [n, L, list(first)]


def avg(case, st):
    from coax.utils._rolling import RollingAverage, ExponentialAverage
    n, L, first = case
    for rest in itertools.product((0., 1., -3.5), repeat=L - 2):
        h = list(first) + list(rest)
        r, e = RollingAverage(n), ExponentialAverage(n)
        ref = None
        for k, x in enumerate(h, 1):
            a, b = r.update(x), e.update(x)
            w = h[max(0, k - n):k]
            want = sum(w) / len(w)
            check(abs(a - want) < 1e-9 and abs(r.value - want) < 1e-9, 'rolling average (n=%s) of %s is %s / %s', n, h[:k], a, r.value)
            ref = x if ref is None else ref + (x - ref) / min(k, n)
            check(abs(b - ref) < 1e-9 and abs(e.value - ref) < 1e-9, 'exponential average (n=%s) of %s is %s / %s, expected %s', n, h[:k], b, e.value, ref)
            st.transitions += 2
        st.states += 1
    st.traces += 1
    st.outcome(tuple(map(str, case)))


class OU(BFS):
    """Ornstein-Uhlenbeck noise: recurrence, clipping, reset, seed"""
    name = 'noise'
    bound = 'all sequences of {act on 3 shapes, reset} up to depth 6 (7), three parameter sets'

    def configs(self, tier):
        for dtype in ('float32', 'float64'):
            for shape in ([], [2], [2, 2]):
                for kw in (dict(), dict(mu=.5, sigma=.3, theta=.15), dict(mu=-1., sigma=2., theta=.5, min_value=-1.5, max_value=.2), dict(sigma=0., mu=2., theta=1.)):
                    yield dict(dtype=dtype, shape=shape, kw=kw)

    def depth(self, config, tier):
        return 6 if tier == 'quick' else 8

    def build(self, c):
        return U.OrnsteinUhlenbeckNoise(random_seed=5, **c['kw']), dict(x=None, rnd=np.random.RandomState(5), n=0, c=c)

    def ops(self, config, tier, model):
        return ['zero', 'some', 'reset']

    def apply(self, real, m, op):
        if op == 'reset':
            real.reset()
            m['x'] = None
            return
        c = m['c']
        kw = dict(dict(mu=0., sigma=1., theta=.15, min_value=-np.inf, max_value=np.inf), **c['kw'])
        a = np.full(c['shape'], 0. if op == 'zero' else .75, dtype=c['dtype'])
        a0 = a.copy()
        out = real(a)
        check(np.array_equal(a, a0), 'the action handed in was changed')
        w = np.asarray(m['rnd'].randn(*a.shape))
        x = np.full(a.shape, kw['mu']) if m['x'] is None else m['x']
        x = x + kw['theta'] * (kw['mu'] - x) + kw['sigma'] * w
        m['x'] = np.clip(x, kw['min_value'], kw['max_value'])
        m['n'] += 1
        check(np.shape(out) == a.shape, 'noisy action has shape %s', np.shape(out))
        expect_close(f'noisy action after {m["n"]} draws', out, a + m['x'], 1e-4)

    def canon(self, real, m):
        return (m['n'], None if m['x'] is None else m['x'].tobytes())


C26 = [FuncSystem('schedule', sched_cases, sched, 'all step functions over 5 times and 4 values with 2-3 (4) steps x 16 time steps'),
       FuncSystem('schedule-refusals', sched_bad_cases, sched_bad),
       FuncSystem('averages', avg_cases, avg, 'all value sequences over 3 values of length 7 (9), windows 1-4 and 100'), OU()]


# ---------------------------------------------------------------- C27

def am_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for axis in (-1, 0):
            yield [n, axis]
    yield ['3d', 1]
    yield ['large', -1]
    yield ['large', 0]


def am(case, st):
    n, axis = case
    if n == 'large':              # the unique best of 300 candidates, wherever it is
        X = np.tile((np.arange(300) * 7 % 11).astype(f32), (300, 1))
        X[np.arange(300), np.arange(300)] = 11.5
        for s in range(8):
            a = U.argmax(jax.random.PRNGKey(s), X if axis == -1 else X.T, axis=axis)
            b = U.argmin(jax.random.PRNGKey(s), -X if axis == -1 else -X.T, axis=axis)
            check(np.array_equal(a, np.arange(300)) and np.array_equal(b, np.arange(300)), 'argmax/argmin of 300 rows misses the only maximum')
            st.transitions += 600
        st.states += 300
        st.outcome(tuple(case))
        return
    if n == '3d':
        X = np.array(list(itertools.product((0., 1.), repeat=3)), f32).reshape(2, 4, 3).transpose(0, 2, 1)   # candidates along axis 1
        rows = X.transpose(0, 2, 1).reshape(-1, 3)
    else:
        rows = np.array(list(itertools.product((-1e6, -1., 0., 1e-6, 3.), repeat=n)), f32)
        X = rows if axis == -1 else rows.T
    hits_max = [set() for _ in rows]
    hits_min = [set() for _ in rows]
    seeds = 60
    for s in range(seeds):
        a = np.asarray(U.argmax(jax.random.PRNGKey(s), X, axis=axis)).reshape(-1)
        b = np.asarray(U.argmin(jax.random.PRNGKey(s), X, axis=axis)).reshape(-1)
        check(len(a) == len(rows) and len(b) == len(rows), 'shape of argmax')
        for i, r in enumerate(rows):
            check(0 <= a[i] < rows.shape[1] and r[a[i]] == r.max(), 'argmax of %s is %s', r, a[i])
            check(0 <= b[i] < rows.shape[1] and r[b[i]] == r.min(), 'argmin of %s is %s', r, b[i])
            hits_max[i].add(int(a[i]))
            hits_min[i].add(int(b[i]))
        st.transitions += 2 * len(rows)
    for i, r in enumerate(rows):   # a tie of k is missed with probability (1-1/k)^60; the keys are fixed
        check(hits_max[i] == set(np.flatnonzero(r == r.max())), 'ties of %s: argmax only ever gives %s', r, hits_max[i])
        check(hits_min[i] == set(np.flatnonzero(r == r.min())), 'ties of %s: argmin only ever gives %s', r, hits_min[i])
    st.states += len(rows)
    st.outcome(tuple(case))


def sync_cases(tier):
    keys = ('a', 'b', 'c')
    subsets = [s for k in range(4) for s in itertools.combinations(keys, k)]
    for k in (0, 1, 2, 3):
        for combo in itertools.product(subsets, repeat=k):
            if k == 3 and tier == 'quick' and len(set(combo)) < 3:
                continue
            for weights in (None, 'some'):
                if k >= 2 or weights is None:
                    yield [[list(c) for c in combo], weights]


def sync(case, st):
    combo, weights = case
    val = lambda i, k: {'w': np.array([[i + 1., -2. * i], [.5, i * i]], f32) * (1 + 'abc'.index(k)), 'b': np.array([i - .5], f32)}   # noqa: E731
    ps = [hk.data_structures.to_haiku_dict({k: val(i, k) for k in ks}) for i, ks in enumerate(combo)]
    before = [jax.tree_util.tree_map(np.array, p) for p in ps]
    w = None if weights is None else [2., .5, 3.][:len(ps)]
    out = U.sync_shared_params(*ps, weights=w)
    check(len(out) == len(ps), 'number of results')
    ww = w or [1.] * len(ps)
    for i, (p, q) in enumerate(zip(ps, out)):
        check(set(q) == set(p), 'keys of the synchronized params: %s instead of %s', set(q), set(p))
        for k in p:
            owners = [j for j, ks in enumerate(combo) if k in ks]
            tot = sum(ww[j] for j in owners)
            want = {n: sum(ww[j] * val(j, k)[n] for j in owners) / tot for n in ('w', 'b')}
            expect_tree(f'params {i} key {k} (shared by {owners}, weights {w})', dict(q[k]), want, 1e-5)
            st.transitions += 1
    for p, b in zip(ps, before):
        expect_tree('the params handed in', jax.tree_util.tree_map(np.array, p), b, 0)
    if len(ps) >= 2:
        expect_raises('wrong number of weights', ValueError, lambda: U.sync_shared_params(*ps, weights=[1.]))
    st.states += 1
    st.outcome((repr(combo), weights))


def uv_cases(tier):
    for ax in (0, 1, -1, None, 'mixed', 'none-first'):
        for out in ('single', 'tuple', 'dict', 'none'):
            yield [ax, out]


def uv(case, st):
    ax, out = case
    a = np.array([1., -2., .5], f32)
    b = {'u': np.array([3., 4., 5.], f32), 'v': np.array([-1., 0., 1.], f32)}
    axes = {'mixed': (0, 1), 'none-first': (None, 1)}.get(ax, ax)
    seen = {}

    def f(x, y):
        seen['x'], seen['y'] = np.shape(x), np.shape(y['u'])
        z = jnp.sum(jnp.asarray(x)) * jnp.ones((1, 3)) + jnp.reshape(y['u'], (1, 3))
        if out == 'single':
            return z
        if out == 'none':
            return z
        if out == 'tuple':
            return z, jnp.swapaxes(z, 0, 1)
        return {'z': z, 'w': 2 * z}
    oa = {'tuple': (0, 1), 'none': None}.get(out, 0)
    g = U.unvectorize(f, in_axes=axes, out_axes=oa)
    r = g(a, b)
    per = axes if isinstance(axes, tuple) else (axes, axes)
    for what, got, axis in (('x', seen['x'], per[0]), ('y', seen['y'], per[1])):
        want = (3,) if axis is None else np.expand_dims(a, axis).shape
        check(got == want, 'input %s reached the function with shape %s, expected %s', what, got, want)
    z = a.sum() + b['u']
    if out == 'single':
        expect_close('output', r, z, 1e-5)
    elif out == 'none':
        expect_close('output', r, z[None], 1e-5)
    elif out == 'tuple':
        expect_close('output 0', r[0], z, 1e-5)
        expect_close('output 1', r[1], z, 1e-5)
    else:
        expect_close('output z', r['z'], z, 1e-5)
        expect_close('output w', r['w'], 2 * z, 1e-5)
    expect_raises('wrong number of in_axes', ValueError, lambda: U.unvectorize(f, in_axes=(0, 0, 0))(a, b))
    if out == 'tuple':
        expect_raises('wrong number of out_axes', ValueError, lambda: U.unvectorize(f, in_axes=axes, out_axes=(0, 0, 0))(a, b))
    if out == 'single':
        expect_raises('several out_axes for one output', TypeError, lambda: U.unvectorize(f, in_axes=axes, out_axes=(0, 0))(a, b))
    st.states += 1
    st.transitions += 1
    st.outcome(tuple(map(str, case)))


def misc_cases(tier):
    return iter(['diff', 'relu', 'logit', 'ravel', 'grads', 'quantiles', 'merge', 'stack', 'single', 'scalar', 'idx', 'check_array', 'fractions', 'cos', 'tree_sample', 'transition_batch', 'preprocessors', 'chunks'])


def misc(case, st):
    if case == 'diff':
        for n in range(1, 7):
            for seq in itertools.product((0., 1., -2.), repeat=n) if n <= 5 else [tuple(range(6)), (1, 1, 2, 3, 5, 8)]:
                x = np.array(seq, f32)
                got = np.asarray(U.diff_transform(np.tile(x, (2, 3, 1))))
                want = [0.] * n
                d = np.array(seq, float)
                for order in range(n):       # position, velocity, acceleration, ... of the last frame, in reverse order
                    want[n - 1 - order] = d[-1]
                    d = np.diff(d)
                expect_close(f'differences of {seq}', got, np.tile(want, (2, 3, 1)), 1e-4)
                st.transitions += 1
            check(np.asarray(U.diff_transform_matrix(n)).shape == (n, n), 'shape')
    elif case == 'relu':
        x = np.array([[-2., 0., 3.], [1., -1., .5]], f32)
        expect_close('double relu', U.double_relu(x), np.concatenate((np.minimum(x, 0), np.maximum(x, 0)), -1))
    elif case == 'logit':
        p = np.array([1e-6, .01, .2, .5, .9, .999], f32)
        expect_close('logit', U.clipped_logit(p), np.log(p.astype(float)) - np.log1p(-p.astype(float)), 1e-4)
        for eps in (1e-15, 1e-3):
            ends = np.asarray(U.clipped_logit(np.array([0., 1.], f32), eps))
            expect_close('logit of 0 and 1', ends, [math.log(eps), -math.log(eps)], 1e-4)
    elif case in ('ravel', 'grads'):
        for k, tree in enumerate([{'b': np.array([[1., -7.], [3., 4.]], f32), 'a': {'x': np.array([-2.], f32)}}, [np.array(3., f32), (np.zeros((2, 0), f32), np.array([-5., 1.], f32))]]):
            flat = np.concatenate([np.ravel(x) for x in jax.tree_util.tree_leaves(tree)])
            if case == 'ravel':
                expect_close('ravel', U.tree_ravel(tree), flat)
                continue
            d = U.get_grads_diagnostics(tree, 'p/')
            check(set(d) == {'p/max', 'p/norm'}, 'keys %s', set(d))
            expect_close('max', d['p/max'], np.abs(flat).max(), 1e-5)
            expect_close('norm', d['p/norm'], np.sqrt((flat.astype(float) ** 2).sum()), 1e-5)
            q = U.get_magnitude_quantiles(tree, 'q/')
            expect_close('quantiles', [q['q/' + n] for n in ('min', 'p25', 'p50', 'p75', 'max')], np.quantile(np.abs(flat), [0, .25, .5, .75, 1]), 1e-5)
            if k == 0:
                d = U.get_grads_diagnostics(tree, 'p/', keep_tree_structure=True)
                expect_close('max per leaf', d['b']['p/max'], 7.)
                expect_close('norm per leaf', d['a']['x']['p/norm'], 2.)
            st.transitions += 1
    elif case == 'quantiles':
        for b in (1, 3):
            for n in (1, 2, 5, 32):
                q = np.asarray(U.quantiles(b, n))
                check(q.shape == (b, n) and (q >= 0).all() and (q <= 1).all(), 'quantile fractions %s', q)
                if n > 1:
                    expect_close('spacing of the fractions', np.diff(q, axis=1), np.full((b, n - 1), 1 / n), 1e-5)
    elif case == 'fractions':
        for s in range(10):
            for n in (1, 2, 5, 32):
                q = np.asarray(U.quantiles_uniform(jax.random.PRNGKey(s), 3, n))
                check(q.shape == (3, n) and (q > 0).all() and (q <= 1 + 1e-5).all() and (np.diff(q, axis=1) >= 0).all(), 'random quantile fractions %s', q)
                check(np.allclose(q[:, -1], 1., atol=1e-5), 'the last fraction is %s', q[:, -1])
                if n > 1:
                    check(not np.allclose(q[0], q[1]), 'rows of random fractions agree')
                st.transitions += 1
    elif case == 'cos':
        t = np.array([[0., .25, .5], [.1, .9, 1.]], f32)
        e = np.asarray(U.quantile_cos_embedding(t, n=4))
        check(e.shape == (2, 3, 4), 'shape %s', e.shape)
        check(np.abs(e).max() <= 1 + 1e-6, 'cosine embedding exceeds 1')
        for i, j in itertools.product(range(2), range(3)):
            w0, w1 = np.cos(np.pi * t[i, j] * np.arange(4)), np.cos(np.pi * t[i, j] * np.arange(1, 5))
            check(close(e[i, j], w0, 1e-4) or close(e[i, j], w1, 1e-4), 'embedding of %s is %s', t[i, j], e[i, j])
    elif case == 'merge':
        for a, b, c in itertools.product([{}, {'x': 1}, {'y': 2}], [{}, {'x': 3}, {'z': 4}], [{}, {'z': 5}]):
            keep = (dict(a), dict(b), dict(c))
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got = U.merge_dicts(a, b, c)
            want = {**a, **b, **c}
            check(got == want, 'merge_dicts gives %s instead of %s', got, want)
            check((a, b, c) == keep, 'merge_dicts changed its arguments')
            check(bool(w) == (len(want) < len(a) + len(b) + len(c)), 'warning about overlapping keys: %s', [str(x.message) for x in w])
            st.transitions += 1
    elif case == 'stack':
        p = [{'w': np.array([1., 2.], f32) * k, 'b': np.array(k, f32)} for k in range(3)]
        s = [{'n': np.array([k, -k], f32)} for k in range(3)]
        for n in (1, 2, 3):
            P, S = U.stack_trees(p[:n], s[:n])
            expect_close('stacked w', P['w'], np.stack([x['w'] for x in p[:n]]))
            expect_close('stacked b', P['b'], np.stack([x['b'] for x in p[:n]]))
            expect_close('stacked n', S['n'], np.stack([x['n'] for x in s[:n]]))
    elif case == 'single':
        tree = {'a': np.arange(66., dtype=f32).reshape(33, 2), 'b': (np.arange(33),)}
        for i in range(33):
            one = U.batch_to_single(tree, index=i)
            expect_close('row', one['a'], tree['a'][i])
            expect_close('row', one['b'][0], tree['b'][0][i])
            back = U.single_to_batch(one)
            expect_close('batch of one', back['a'], tree['a'][i:i + 1])
            expect_close('batch of one', back['b'][0], tree['b'][0][i:i + 1])
    elif case == 'scalar':
        for x, w in [(1, True), (1.5, True), (np.float32(2), True), (np.array(3.), True), (np.array([3.]), True), (jnp.array([[1.]]), True), (np.array([1., 2.]), False), (jnp.zeros((0,)), False)]:
            check(bool(U.isscalar(x)) == w, 'isscalar(%r)', x)
    elif case == 'idx':
        x = jnp.zeros((3, 2))
        expect_close('idx', U.idx(x), [0, 1, 2])
        expect_close('idx', U.idx(x, axis=1), [0, 1])
    elif case == 'check_array':
        x = jnp.zeros((3, 2), jnp.float32)
        ok = [dict(), dict(ndim=2), dict(ndim=[1, 2]), dict(ndim_min=2), dict(ndim_max=2), dict(dtype='float32'), dict(dtype=('int32', 'float32')), dict(shape=(3, 2)), dict(axis_size=3, axis=0), dict(axis_size=[2, 5], axis=1)]
        bad = [dict(ndim=1), dict(ndim=[1, 3]), dict(ndim_min=3), dict(ndim_max=1), dict(dtype='int32'), dict(dtype=('int32', 'bool')), dict(shape=(2, 3)), dict(axis_size=3, axis=1), dict(axis_size=2, axis=0), dict(axis_size=[1, 2], axis=0), dict(axis_size=3, axis=-1), dict(axis_size=[3, 5], axis=1)]
        for kw in ok:
            U.check_array(x, **kw)
        for kw in bad:
            expect_raises(f'check_array {kw}', TypeError, lambda: U.check_array(x, **kw))
            expect_raises(f'check_array {kw}', TypeError, lambda: U.check_array(np.asarray(x), except_np=True, **kw))
        U.check_array(np.zeros(3), except_np=True)
        expect_raises('numpy array', TypeError, lambda: U.check_array(np.zeros(3)))
        expect_raises('list', TypeError, lambda: U.check_array([1.], except_np=True))
    elif case == 'tree_sample':
        from coax.utils._array import tree_sample
        x = np.arange(24.).reshape(4, 3, 2).astype(f32)
        tree = {'a': x, 'b': (x[:, :, 0] * 10, -x)}
        for axis, n, rep in itertools.product((0, 1, None), (1, 2, 3, 4, 7), (False, True)):
            kw = {} if axis is None else dict(axis=axis)
            size = (4, 3)[axis or 0]
            if n > size and not rep:
                expect_raises('sample larger than the batch', ValueError, lambda: tree_sample(tree, KEY, n=n, replace=rep, **kw))
                continue
            seen = set()
            for s in range(12):
                key = jax.random.PRNGKey(s)
                out = tree_sample(tree, key, n=n, replace=rep, **kw)
                ref = np.moveaxis(x, axis or 0, 0)
                got = np.moveaxis(np.asarray(out['a']), axis or 0, 0)
                check(got.shape == (n,) + ref.shape[1:], 'sample of %s along axis %s has shape %s', n, axis, np.asarray(out['a']).shape)
                ix = [next((j for j in range(size) if np.array_equal(g, ref[j])), None) for g in got]
                check(None not in ix, 'a sampled slice does not occur in the tree')
                check(rep or len(set(ix)) == n, 'sampling without replacement repeated %s', ix)
                expect_close('leaves sampled alike', out['b'][1], -np.asarray(out['a']))
                expect_close('leaves sampled alike', out['b'][0], np.asarray(out['a'])[:, :, 0] * 10)
                seen.add(tuple(ix))
                again = tree_sample(tree, key, n=n, replace=rep, **kw)
                expect_close('same key', again['a'], out['a'])
                st.transitions += 1
            check(len(seen) > 1, 'all keys give the same sample')
        for j in range(4):
            out = tree_sample(tree, KEY, n=3, replace=True, p=jnp.eye(4)[j])
            expect_close('propensities', out['a'], np.stack([x[j]] * 3))
        for s, n in itertools.product(range(12), (2, 3, 4)):
            out = np.asarray(tree_sample(tree, jax.random.PRNGKey(s), n=n, p=jnp.array([.7, .1, .1, .1]))['a'])
            check(len({o.tobytes() for o in out}) == n, 'sampling without replacement, with propensities, repeated a slice')
        expect_raises('different batch sizes', TypeError, lambda: tree_sample([np.zeros(2), np.zeros(3)], KEY))
    elif case == 'transition_batch':
        for osp, asp in itertools.product((sp.Discrete(3), sp.Box(5., 6., (2,), dtype=np.float32), sp.Dict({'x': sp.MultiBinary(2), 'y': sp.Discrete(2)})), (sp.Discrete(4), sp.Box(-2., -1., (1,), dtype=np.float32))):
            env = T.Env(osp, asp)
            for bs, g in itertools.product((1, 2, 5), (0., .9, 1)):
                b = U.get_transition_batch(env, batch_size=bs, gamma=g, random_seed=bs)
                b2 = U.get_transition_batch(env, batch_size=bs, gamma=g, random_seed=bs)
                check(b == b2, 'get_transition_batch is not reproducible from its seed')
                check(b.batch_size == bs, 'batch size %s', b.batch_size)
                for X, space in ((b.S, osp), (b.S_next, osp), (b.A, asp), (b.A_next, asp)):
                    for k in range(bs):
                        el = jax.tree_util.tree_map(lambda l: l[k], X)
                        check(space.contains(el), '%r is not an element of %s', el, space)
                for f in (b.logP, b.logP_next, b.Rn, b.In, b.W):
                    check(np.shape(f) == (bs,) and np.isfinite(f).all(), 'bad field %s', f)
                check((b.logP <= 0).all() and (b.logP_next <= 0).all() and set(np.unique(b.In).tolist()) <= {0., float(g)} and (b.W > 0).all(), 'bad values')
                st.transitions += bs
        b = U.get_transition_batch(T.Env(sp.Discrete(1000), sp.Box(-1., 1., (), dtype=np.float32)), batch_size=8, random_seed=3)
        for f in (b.S, b.A, b.logP, b.Rn, b.S_next, b.A_next, b.logP_next, b.W):
            check(len(set(np.asarray(f).tolist())) > 1, 'all transitions of a random batch are alike: %s', f)
        check(not np.array_equal(b.S, b.S_next) and not np.array_equal(b.A, b.A_next), 'a random batch repeats its states')
    elif case == 'preprocessors':
        spaces = [sp.Discrete(3), sp.Box(-1., 1., (2,), dtype=np.float32), sp.Tuple((sp.Discrete(2), sp.MultiBinary(2)))]
        for space in spaces:
            d = U.default_preprocessor(space)
            d2 = U.default_preprocessor(space)
            twice = lambda rng, x: jax.tree_util.tree_map(lambda l: 2 * l + 1, d(rng, x))       # noqa: E731
            other = lambda rng, x: (d(rng, x), 1)                                              # noqa: E731
            for ps, want in (((d, d), True), ((d, d2), True), ((d, d2, d), True), ((d, twice), False), ((d, d2, twice), False), ((twice, d, d), False), ((d, other), False), ((d, twice, d), False)):
                check(bool(U.check_preprocessors(space, *ps)) == want, 'check_preprocessors on %s: %s', space, [p is d for p in ps])
                st.transitions += 1
            expect_raises('a single preprocessor', ValueError, lambda: U.check_preprocessors(space, d))
    elif case == 'chunks':
        env = T.Env(sp.Discrete(3), sp.Discrete(2))
        for n in range(1, 40):
            b = U.get_transition_batch(env, batch_size=n, random_seed=n)
            parts = list(U.chunks_pow2(b))
            sizes = [p.batch_size for p in parts]
            check(sum(sizes) == n and all(z & (z - 1) == 0 for z in sizes) and len(set(sizes)) == len(sizes), 'chunks of a batch of %s: %s', n, sizes)
            for f in ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W'):
                expect_close(f'chunks of {n}: {f}', np.concatenate([np.asarray(getattr(p, f)) for p in parts]), np.asarray(getattr(b, f)))
            st.transitions += 1
    st.states += 1
    st.outcome(case)


SS = {
    'discrete': sp.Discrete(3), 'shifted': sp.Discrete(3, start=-7), 'unit': sp.Box(-1., 1., (2,), dtype=np.float32), 'far': sp.Box(5., 10., (2, 2), dtype=np.float32), 'neg': sp.Box(-10., -5., (3,), dtype=np.float32),
    'tiny': sp.Box(.001, .002, (1,), dtype=np.float64), 'unbounded': sp.Box(-np.inf, np.inf, (2,), dtype=np.float32), 'half': sp.Box(3., np.inf, (2,), dtype=np.float32),
    'halfneg': sp.Box(-np.inf, -3., (2,), dtype=np.float32), 'image': sp.Box(0, 255, (2, 2), dtype=np.uint8), 'ints': sp.Box(10, 20, (2,), dtype=np.int32),
    'scalar': sp.Box(-1., 1., (), dtype=np.float32), 'mixed': sp.Box(np.array([-1., 7., -np.inf], f32), np.array([1., 8., 0.], f32)),
    'huge': sp.Box(-3e38, 3e38, (2,), dtype=np.float32),
    'multi': sp.MultiDiscrete([2, 3]), 'binary': sp.MultiBinary(3), 'tuple': sp.Tuple((sp.Discrete(2), sp.Box(5., 6., (1,), dtype=np.float32))),
    'dict': sp.Dict({'b': sp.Tuple((sp.MultiBinary(2), sp.Discrete(2, start=1))), 'a': sp.Box(2., 3., (2,), dtype=np.float64)}),
}


def ss_cases(tier):
    return iter(list(SS))


def ss(name, st):
    space = SS[name]
    got = []
    for seed in list(range(60)) + [0]:
        x = coax.safe_sample(space, seed=seed)
        check(space.contains(x), '%s: safe_sample gives %r (%s), which is not in %s', name, x, getattr(x, 'dtype', type(x)), space)
        got.append(brief(x))
        st.transitions += 1
    check(got[0] == got[-1], 'the same seed gives another sample')
    check(len(set(got)) > 1, '%s: all samples are the same: %s', name, got[0])
    rnd = np.random.RandomState(0)
    check(brief(coax.safe_sample(space, seed=rnd)) == got[0], 'a RandomState is not used as given')
    env = T.Env(space, SS['tuple'])
    for B in (1, 3):
        b = U.get_transition_batch(env, batch_size=B, gamma=.5, random_seed=1)
        check(b.batch_size == B, 'batch size')
        for i in range(B):
            for t, s_ in ((b.S, space), (b.S_next, space), (b.A, SS['tuple']), (b.A_next, SS['tuple'])):
                x = jax.tree_util.tree_map(lambda l: l[i], t)
                x = jax.tree_util.tree_map(lambda l: int(l) if np.ndim(l) == 0 and np.asarray(l).dtype.kind in 'iu' else np.asarray(l), x)
                check(s_.contains(x), '%s: batch element %r is not in %s', name, x, s_)
        check(set(np.asarray(b.In)) <= {0., .5} and (b.logP < 0).all() and (b.W > 0).all(), 'fields of the batch')
    st.states += 1
    st.outcome(name)


C27 = [FuncSystem('argmax', am_cases, am, 'all rows over 5 values up to length 3 (4) x 60 keys'), FuncSystem('sync', sync_cases, sync, 'all assignments of 3 modules to up to 3 functions x weights'),
       FuncSystem('unvectorize', uv_cases, uv), FuncSystem('misc', misc_cases, misc), FuncSystem('safe-sample', ss_cases, ss, '18 spaces x 60 seeds')]


# ---------------------------------------------------------------- C28

VL = coax.value_losses
YS = (-200., -1.5, -1., -.3, 0., .2, 1., 1.0001, 7., 200.)


def loss_cases(tier):
    for name in ('mse', 'huber', 'logloss', 'logloss_sign', 'quantile_huber'):
        for delta in (.5, 1., 3.) if 'huber' in name else (None,):
            for w in (None, 'w'):
                yield [name, delta, w]


def huber_ref(e, d):
    e = np.abs(e)
    return np.where(e <= d, .5 * e ** 2, d * e - .5 * d * d)


def loss(case, st):
    name, delta, w = case
    if name == 'quantile_huber':
        return qhuber(case, st)
    if name == 'logloss':
        pairs = [(a, b) for a in (0., 1., .3) for b in (.001, .2, .5, .9, .999)]
    elif name == 'logloss_sign':
        pairs = [(a, b) for a in (-1., 1.) for b in YS]
    else:
        pairs = list(itertools.product(YS, YS))
    f = getattr(VL, name)
    kw = {} if delta is None else dict(delta=delta)
    Y, Z = np.array(pairs, float).T

    def ref(y, z):
        if name == 'mse':
            return .5 * (y - z) ** 2
        if name == 'huber':
            return huber_ref(y - z, delta)
        if name == 'logloss':
            return -y * np.log(z) - (1 - y) * np.log1p(-z)
        return np.logaddexp(0., -y * z)
    W = (.5, 2., 0., 1.)
    for i, (y, z) in enumerate(pairs):     # one by one: value and slope
        ww = None if w is None else jnp.array([W[i % 4]])
        k = 1. if w is None else W[i % 4]
        got = float(f(jnp.array([y], jnp.float32), jnp.array([z], jnp.float32), ww, **kw))
        want = k * float(ref(y, z))
        check(abs(got - want) <= 1e-4 * (1 + abs(want)), '%s(%s, %s, weight %s, %s) = %s, expected %s', name, y, z, k, kw, got, want)
        g = float(jax.grad(lambda p: f(jnp.array([y], jnp.float32), p, ww, **kw))(jnp.array([z], jnp.float32))[0])
        slope = {'mse': lambda: z - y, 'huber': lambda: np.clip(z - y, -(delta or 0), delta or 0), 'logloss': lambda: -y / z + (1 - y) / (1 - z), 'logloss_sign': lambda: -y / (1 + np.exp(y * z))}[name]()
        kink = name == 'huber' and (abs(abs(z - y) - delta) < 1e-6 or y == z)
        check(kink or abs(g - k * slope) <= 1e-3 * (1 + abs(slope)), '%s: derivative at (%s, %s), weight %s, is %s, expected %s', name, y, z, k, g, k * slope)
        st.transitions += 2
    # batches of all sizes average over the batch, with or without trailing axes
    for n in (2, 3, len(pairs)):
        ww = None if w is None else np.array([W[i % 4] for i in range(n)])
        v = ref(Y[:n], Z[:n]) * (1. if ww is None else ww)
        expect_close(f'{name} of a batch of {n}', f(jnp.asarray(Y[:n], jnp.float32), jnp.asarray(Z[:n], jnp.float32), None if ww is None else jnp.asarray(ww, jnp.float32), **kw), v.mean(), 1e-4)
        y2, z2 = np.stack([Y[:n], Y[:n][::-1]], 1), np.stack([Z[:n], Z[:n][::-1]], 1)
        v = ref(y2, z2) * (1. if ww is None else ww[:, None])
        expect_close(f'{name} of a batch of {n} x 2', f(jnp.asarray(y2, jnp.float32), jnp.asarray(z2, jnp.float32), None if ww is None else jnp.asarray(ww, jnp.float32), **kw), v.mean(), 1e-4)
        if w:
            expect_raises('weights of another length', (AssertionError, TypeError, ValueError), lambda: f(jnp.zeros(n), jnp.ones(n) * .5, jnp.ones(n + 1), **kw))
    st.states += len(pairs)
    st.outcome(tuple(map(str, case)))


def qhuber(case, st):
    _, delta, w = case
    from coax.value_losses import quantile_huber as f
    for n, m in itertools.product((1, 2, 3), (1, 2, 3)):
        rows = list(itertools.product((-2., 0., .4), repeat=m))
        preds = list(itertools.product((-1., 0., 3.), repeat=n))
        tau = (np.arange(n) + .5) / n
        combos = list(itertools.product(rows, preds))
        Y, P = np.array([c[0] for c in combos]), np.array([c[1] for c in combos])
        Q = np.tile(tau, (len(combos), 1))
        W = None if w is None else np.array([(.5, 2., 0., 1.)[i % 4] for i in range(len(combos))])
        d = Y[:, None, :] - P[:, :, None]
        L = (np.abs(Q[:, :, None] - (d < 0)) * huber_ref(d, delta) / delta).sum(-1)
        if W is not None:
            L = L * W[:, None]
        j = lambda x: None if x is None else jnp.asarray(x, jnp.float32)    # noqa: E731
        expect_close(f'quantile huber loss {n} x {m}', f(j(Y), j(P), j(Q), j(W), delta=delta), L.mean(), 1e-4)
        for i in range(0, len(combos), max(1, len(combos) // 25)):
            one = slice(i, i + 1)
            expect_close(f'quantile huber loss of targets {Y[i]}, predictions {P[i]}', f(j(Y[one]), j(P[one]), j(Q[one]), None if W is None else j(W[one]), delta=delta), L[i].mean(), 1e-4)
            st.transitions += 1
        st.states += len(combos)
    st.outcome(tuple(map(str, case)))


def tf_cases(tier):
    for scale in (.1, 1., 7., 100.):
        yield scale


def tf(scale, st):
    f = coax.value_transforms.LogTransform(scale)
    t, inv = f
    check(f.transform_func is t and f.inverse_func is inv, 'unpacking')
    hi = min(1e6, scale * math.exp(15))
    xs = np.concatenate([-np.geomspace(1e-4, hi, 60)[::-1], [0.], np.geomspace(1e-4, hi, 60)])
    y = np.asarray(t(jnp.asarray(xs, jnp.float32)), float)
    want = np.sign(xs) * scale * np.log1p(np.abs(xs) / scale)
    check(np.abs(y - want).max() <= 1e-5 * max(scale, 1) * 20, 'transform: %s', np.abs(y - want).max())
    check((np.diff(y) >= 0).all(), 'the transform is not monotone')
    back = np.asarray(inv(jnp.asarray(y, jnp.float32)), float)
    tol = 2e-5 * np.abs(xs) * (1 + np.abs(y) / scale) + 2e-6 * max(1., scale)
    check((np.abs(back - xs) <= tol).all(), 'inverse of the transform: worst at %s', xs[np.argmax(np.abs(back - xs) / tol)])
    ys = np.linspace(-10 * scale, 10 * scale, 81)
    z = np.asarray(inv(jnp.asarray(ys, jnp.float32)), float)
    expect_close('inverse', z / scale, np.sign(ys) * np.expm1(np.abs(ys) / scale), 1e-3)
    expect_close('transform of the inverse', np.asarray(t(jnp.asarray(z, jnp.float32)), float) / scale, ys / scale, 1e-4)
    st.states += len(xs) + len(ys)
    big = np.geomspace(hi, 1e37, 40)                # the rest of the floating-point range
    yb = np.asarray(t(jnp.asarray(big, jnp.float32)), float)
    expect_close('transform of large values', yb / scale, np.log1p(big / scale), 1e-3)
    check((np.diff(yb) > 0).all(), 'the transform is not monotone on large values')
    zb = np.asarray(inv(jnp.asarray(yb, jnp.float32)), float)
    expect_close('transform of the inverse of large values', np.asarray(t(jnp.asarray(zb, jnp.float32)), float) / scale, yb / scale, 1e-3)
    expect_close('log of the inverse of large values', np.log(np.abs(zb)), np.log(big), 1e-3)
    expect_close('symmetry', np.asarray(inv(jnp.asarray(-yb, jnp.float32)), float) / zb, -np.ones(40), 1e-5)
    st.transitions += 3
    expect_raises('non-positive scale', AssertionError, lambda: coax.value_transforms.LogTransform(0.))
    st.outcome(scale)


C28 = [FuncSystem('losses', loss_cases, loss, 'all pairs over 10 values x weights x delta; value, derivative, batches'), FuncSystem('log-transform', tf_cases, tf)]

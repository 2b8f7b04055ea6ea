"""Probability distributions (C22) and the encoding of variates (C23)."""
import itertools
import warnings

import gymnasium.spaces as sp
import jax
import jax.numpy as jnp
import numpy as np

import coax
from mc.core import check, FuncSystem
from mc.util import expect_close, expect_raises
from checks import tabular as T
from checks.policies import member, unpack, width

warnings.filterwarnings('ignore')
PD = coax.proba_dists
KEY = jax.random.PRNGKey(0)
L2PI = np.log(2 * np.pi)
f32 = np.float32


def logsm(x):
    x = np.asarray(x, float)
    return x - T.lse(x)[..., None]


# ---------------------------------------------------------------- C22

def cat_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield ['cat', n]
        yield ['composite', n]


def cat(case, st):
    n = case[1]
    rows = np.array(list(itertools.product((-2., 0., .5, 30.), repeat=n)))
    d = PD.CategoricalDist(sp.Discrete(n)) if case[0] == 'cat' else PD.ProbaDist(sp.Discrete(n))
    P = jnp.asarray(rows, f32)
    lp = logsm(rows)
    p = np.exp(lp)
    expect_close('mean', d.mean({'logits': P}), p, 1e-5)
    expect_close('entropy', d.entropy({'logits': P}), -(p * lp).sum(-1), 1e-4)
    for k in range(n):
        X = jnp.tile(jnp.eye(n)[k], (len(rows), 1))
        expect_close(f'log-probability of {k}', d.log_proba({'logits': P}, X), lp[:, k], 1e-5)
    i, j = (x.ravel() for x in np.meshgrid(range(len(rows)), range(len(rows))))
    a, b = {'logits': P[i]}, {'logits': P[j]}
    ce = -(p[i] * lp[j]).sum(-1)
    kl = (p[i] * (lp[i] - lp[j])).sum(-1)
    expect_close('cross-entropy', d.cross_entropy(a, b), ce, 1e-4)
    expect_close('KL divergence', d.kl_divergence(a, b), kl, 1e-4)
    m = np.asarray(d.postprocess_variate(KEY, d.mode({'logits': P}), batch_mode=True))
    check(np.all(rows[np.arange(len(rows)), m] == rows.max(-1)), 'mode: %s', m)
    expect_close('default prior', T.softmax(d.default_priors['logits']), np.full((1, n), 1 / n), 1e-6)
    st.states += len(rows)
    st.transitions += len(i)
    st.traces += 1
    st.outcome(tuple(case))


def norm_cases(tier):
    for shape in ((1,), (2,), (2, 1), ()):
        for kind in ('normal', 'composite', 'squashed'):
            for box in ((-1., 1.), (0., 5.), (-3., -1.)) + (([-1., -3.], [1., 5.]),) * (shape == (2,)):
                yield dict(kind=kind, shape=list(shape), box=list(box))


def norm(cfg, st):
    shape, (lo, hi) = tuple(cfg['shape']), cfg['box']
    n = int(np.prod(shape))
    if isinstance(lo, list):
        lo, hi = np.array(lo), np.array(hi)
        space = sp.Box(lo.astype(f32), hi.astype(f32), dtype=np.float32)
    else:
        space = sp.Box(f32(lo), f32(hi), shape, dtype=np.float32)
    cls = {'normal': PD.NormalDist, 'composite': PD.ProbaDist, 'squashed': PD.SquashedNormalDist}[cfg['kind']]
    d = cls(space)
    per = list(itertools.product((-1., 0., 2.), (-3., 0., 1.5)))
    rows = [r for r in itertools.product(per, repeat=n)]
    rows = np.array(rows)                      # (R, n, 2)
    R = len(rows)
    mu, lv = rows[..., 0], rows[..., 1]
    params = {'mu': jnp.asarray(mu, f32).reshape((R,) + shape), 'logvar': jnp.asarray(lv, f32).reshape((R,) + shape)}
    zs = np.array(list(itertools.product((-1.3, 0., .4, 2., 5.) if cfg['kind'] == 'squashed' else (-1.3, 0., .4, 2., -40.), repeat=n)))
    i, k = (x.ravel() for x in np.meshgrid(range(R), range(len(zs))))
    z = zs[k]
    base = np.sum(-.5 * (L2PI + lv[i] + (z - mu[i]) ** 2 * np.exp(-lv[i])), -1)
    pi_ = jax.tree_util.tree_map(lambda x: x[i], params)
    if cfg['kind'] == 'squashed':
        half, mid = (hi - lo) / 2, (hi + lo) / 2
        X = np.tanh(z) * half + mid
        # density of X = mid + half*tanh(Z)
        want = base - np.sum(np.log(half * (1 - np.tanh(z) ** 2)), -1)
        got = np.asarray(d.log_proba(pi_, jnp.asarray(X, f32).reshape((-1,) + shape)), float)
        # rounding of X in single precision, as it is felt by arctanh
        dz = 6e-8 * (4 + (abs(lo) + abs(hi)) / half) / (1 - np.tanh(z) ** 2)
        tol = 3e-4 * (1 + np.abs(want)) + np.sum(np.abs((z - mu[i]) * np.exp(-lv[i]) - 2 * np.tanh(z)) * dz + dz * dz * np.exp(-lv[i]), -1)
        bad = np.abs(got - want) > tol
        check(not bad.any(), 'squashed normal: log-density at z=%s is %s, expected %s', z[bad][:1], got[bad][:1], want[bad][:1])
        m = mid + half * np.tanh(mu)
        expect_close('squashed normal: mode', np.asarray(d.mode(params)).reshape(R, n), m, 1e-5)
        X = np.asarray(d.sample(jax.tree_util.tree_map(lambda x: x[i], params), KEY))
        check(np.all((X >= lo - 1e-5) & (X <= hi + 1e-5)), 'squashed normal: sample outside of the interval')
    else:
        got = d.log_proba(pi_, jnp.asarray(z, f32).reshape((-1,) + shape))
        expect_close('normal: log-density', got, base, 1e-4)
        expect_close('normal: mean', np.asarray(d.mean(params)).reshape(R, n), mu, 1e-6)
        expect_close('normal: mode', np.asarray(d.mode(params)).reshape(R, n), mu, 1e-6)
        expect_close('normal: entropy', d.entropy(params), .5 * (n * (L2PI + 1) + lv.sum(-1)), 1e-5)
        a, b = (x.ravel() for x in np.meshgrid(range(R), range(R)))
        pa, pb = (jax.tree_util.tree_map(lambda x: x[w], params) for w in (a, b))
        quad = ((np.exp(lv[a]) + (mu[a] - mu[b]) ** 2) * np.exp(-lv[b])).sum(-1)
        expect_close('normal: cross-entropy', d.cross_entropy(pa, pb), .5 * (n * L2PI + lv[b].sum(-1) + quad), 1e-4)
        expect_close('normal: KL divergence', d.kl_divergence(pa, pb), .5 * (lv[b].sum(-1) - lv[a].sum(-1) + quad - n), 1e-4)
        for scale in (.5, 1., -2.):
            for shift in (0., 3.):
                out = d.affine_transform(params, scale, shift) if cfg['kind'] == 'normal' else d.affine_transform(params, scale, shift, None)
                expect_close(f'normal: mean of {scale}*X+{shift}', np.asarray(out['mu']).reshape(R, n), scale * mu + shift, 1e-5)
                expect_close(f'normal: log-variance of {scale}*X+{shift}', np.asarray(out['logvar']).reshape(R, n), lv + 2 * np.log(abs(scale)), 1e-4)
                st.transitions += R
        expect_close('default prior mu', np.asarray(d.default_priors['mu']), np.zeros((1,) + shape), 1e-9)
        expect_close('default prior logvar', np.asarray(d.default_priors['logvar']), np.zeros((1,) + shape), 1e-9)
        if cfg['kind'] == 'normal' and n:
            big = {'mu': params['mu'], 'logvar': params['logvar'] + 100.}
            expect_close('entropy with clipped log-variance', d.entropy(big), np.full(R, .5 * n * (L2PI + 1 + 20.)), 1e-5)
            for far in (100., -100.):
                out, edge = ({'mu': params['mu'], 'logvar': jnp.full_like(params['logvar'], np.sign(far) * v)} for v in (100., 20.))
                for f in (d.cross_entropy, d.kl_divergence):
                    expect_close('divergence from clipped log-variance', f(out, params), f(edge, params), 1e-5)
                    expect_close('divergence to clipped log-variance', f(params, out), f(params, edge), 1e-5)
                Z = params['mu'] + 1.
                expect_close('log-density with clipped log-variance', d.log_proba(out, Z), d.log_proba(edge, Z), 1e-5)
    st.states += R
    st.transitions += len(i)
    st.traces += 1
    st.outcome(repr(cfg))


COMP = {
    'multi': sp.MultiDiscrete([2, 3]),
    'binary': sp.MultiBinary(2),
    'tuple': sp.Tuple((sp.Discrete(2), sp.Box(-1., 1., (2,), dtype=np.float32))),
    'dict': sp.Dict({'a': sp.Discrete(3), 'b': sp.Tuple((sp.MultiBinary(2), sp.Discrete(2))), 'c': sp.Box(0., 1., (1,), dtype=np.float32)}),
    'long': sp.MultiDiscrete([2, 2, 2, 2, 2]),
    'wide': sp.Dict({'z': sp.Discrete(2), 'y': sp.MultiBinary(1), 'a': sp.Box(-1., 1., (1,), dtype=np.float32), 'k': sp.Discrete(2), 'b': sp.MultiDiscrete([2])}),
    'twins': sp.Dict({'a': sp.Discrete(3), 'b': sp.Discrete(3), 'x': sp.Box(-1., 1., (1,), dtype=np.float32), 'y': sp.Box(-1., 1., (1,), dtype=np.float32)}),
    'pair': sp.Tuple((sp.Box(-1., 1., (1,), dtype=np.float32), sp.Box(-1., 1., (1,), dtype=np.float32), sp.Discrete(2), sp.Discrete(2))),
}


def leaves_of(space, v, at=0):
    """reference: (kind, parameter columns) of every elementary component"""
    if isinstance(space, sp.Discrete):
        return [('cat', v[:, at:at + space.n])], at + space.n
    if isinstance(space, sp.Box):
        n = int(np.prod(space.shape))
        return [('normal', v[:, at:at + n], v[:, at + n:at + 2 * n])], at + 2 * n
    if isinstance(space, (sp.MultiDiscrete, sp.MultiBinary)):
        ns = list(space.nvec) if isinstance(space, sp.MultiDiscrete) else [2] * space.n
        out = []
        for n in ns:
            x, at = leaves_of(sp.Discrete(int(n)), v, at)
            out += x
        return out, at
    out = []
    for s in (space.spaces if isinstance(space, sp.Tuple) else space.spaces.values()):
        x, at = leaves_of(s, v, at)
        out += x
    return out, at


def comp_cases(tier):
    for k in COMP:
        yield k


def structured(d, space, v):
    p = unpack(space, jnp.asarray(v, f32))[0]
    flat = {id(x): x for x in jax.tree_util.tree_leaves(p)}
    del flat
    return jax.tree_util.tree_unflatten(d.dist_params_structure, jax.tree_util.tree_leaves(p))


def comp(name, st):
    space = COMP[name]
    d = PD.ProbaDist(space)
    w = width(space)
    R = 60
    a = 1.5 * np.cos(np.outer(np.arange(R), np.arange(1, w + 1)) + 1)
    b = 1.5 * np.sin(np.outer(np.arange(R), np.arange(2, w + 2)) + 2)
    pa, pb = structured(d, space, a), structured(d, space, b)
    la, lb = leaves_of(space, a)[0], leaves_of(space, b)[0]
    H = CE = KL = 0.
    for x, y in zip(la, lb):
        if x[0] == 'cat':
            lp, lq = logsm(x[1]), logsm(y[1])
            p = np.exp(lp)
            H, CE, KL = H - (p * lp).sum(-1), CE - (p * lq).sum(-1), KL + (p * (lp - lq)).sum(-1)
        else:
            _, m1, l1 = x
            _, m2, l2 = y
            quad = (np.exp(l1) + (m1 - m2) ** 2) * np.exp(-l2)
            H, CE, KL = H + .5 * (L2PI + 1 + l1).sum(-1), CE + .5 * (L2PI + l2 + quad).sum(-1), KL + .5 * (l2 - l1 + quad - 1).sum(-1)
    expect_close(f'{name}: entropy', d.entropy(pa), H, 1e-4)
    expect_close(f'{name}: cross-entropy', d.cross_entropy(pa, pb), CE, 1e-4)
    expect_close(f'{name}: KL divergence', d.kl_divergence(pa, pb), KL, 1e-4)
    X = d.sample(pa, KEY)
    elems = d.postprocess_variate(KEY, X, batch_mode=True)
    # each row of a sampled batch, one at a time
    for i in range(0, R, 7):
        e = d.postprocess_variate(KEY, X, index=i)
        check(member(space, e), '%s: sample %r is not an element of the space', name, e)
        st.transitions += 1
    check(len(jax.tree_util.tree_leaves(elems)[0]) == R, 'batch of samples')
    st.states += R
    st.traces += 1
    st.outcome(name)


def iv_cases(tier):
    for lo, hi in ((-1., 1.), (0., 10.), (-7., -2.)):
        for bins in (2, 3, 5) if tier == 'quick' else (2, 3, 4, 5, 8):
            yield [lo, hi, bins]


def project(p, x, z):
    x = np.clip(x, z[0], z[-1])
    dz = z[1] - z[0]
    k = np.maximum(0., 1. - np.abs(x[..., :, None] - z) / dz)
    return np.einsum('bk,bkj->bj', p, k)


def interval(case, st):
    lo, hi, bins = case
    d = PD.DiscretizedIntervalDist(sp.Box(f32(lo), f32(hi), (), dtype=np.float32), num_bins=bins)
    z = lo + (np.arange(bins) + .5) * (hi - lo) / bins
    expect_close('atoms', d.atoms, z, 1e-5)
    check((d.low, d.high, d.num_bins) == (lo, hi, bins), 'attributes: %s', (d.low, d.high, d.num_bins))
    rows = np.array(list(itertools.product((0., 2., 40.), repeat=min(bins, 3))))
    rows = np.concatenate([rows, np.zeros((len(rows), bins - rows.shape[1]))], 1) if bins > 3 else rows
    p = T.softmax(rows)
    P = {'logits': jnp.asarray(rows, f32)}
    expect_close('mean value', d.postprocess_variate(KEY, d.mean(P), batch_mode=True), p @ z, 1e-4)
    for f in (None, coax.value_transforms.LogTransform()):
        g, gi = (T.signlog, T.signexp) if f else (lambda x: x, lambda x: x)
        for scale in (0., .5, 1., -1.):
            for shift in (0., .3, -2., 100.):
                out = d.affine_transform(P, jnp.asarray(scale), jnp.asarray(shift), f)
                want = project(p, np.broadcast_to(g(scale * gi(z) + shift), p.shape), z)
                expect_close(f'projection of {scale}*X+{shift}', T.softmax(out['logits']), want, 2e-4)
                st.transitions += len(rows)
        B = len(rows)
        sc, sh = np.cos(np.arange(B)), 2 * np.sin(np.arange(B))
        out = d.affine_transform(P, jnp.asarray(sc, f32), jnp.asarray(sh, f32), f)
        want = project(p, g(np.outer(sc, gi(z)) + sh[:, None]), z)
        expect_close('projection with a scale and shift per row', T.softmax(out['logits']), want, 2e-4)
    # values are encoded as their bin
    for i in range(bins):
        for u in (.001, .3, .5, .999):
            x = lo + (i + u) * (hi - lo) / bins
            e = np.asarray(d.preprocess_variate(KEY, jnp.asarray([x], f32)))
            check(e.shape == (1, bins) and e[0].argmax() == i and abs(e.sum() - 1) < 1e-6, 'value %s is encoded as %s with %s bins on [%s,%s]', x, e, bins, lo, hi)
    for x, i in ((lo, 0), (hi, bins - 1)):
        e = np.asarray(d.preprocess_variate(KEY, jnp.asarray([x], f32)))
        check(e.shape == (1, bins) and e[0].argmax() == i and e.sum() == 1, 'end point %s is encoded as %s', x, e)
    st.states += len(rows)
    st.traces += 1
    st.outcome(tuple(case))


def qt_cases(tier):
    return iter([1, 2, 3, 5])


def quant(n, st):
    d = PD.EmpiricalQuantileDist(n)
    rows = np.array(list(itertools.product((-2., .3, 1.), repeat=min(n, 3))))
    if n > 3:
        rows = np.concatenate([rows, np.ones((len(rows), n - 3)) * np.arange(3, n)], 1)
    B = len(rows)
    P = {'values': jnp.asarray(rows, f32), 'quantile_fractions': jnp.tile((jnp.arange(n) + .5) / n, (B, 1))}
    expect_close('mean', d.mean(P), rows.mean(-1), 1e-5)
    for seed in range(8):
        X = np.asarray(d.sample(P, jax.random.PRNGKey(seed)))
        check(X.shape == (B,), 'sample has shape %s', X.shape)
        check(np.all(np.min(np.abs(X[:, None] - rows), -1) < 1e-6), 'sample is not one of the values')
        want = np.log((np.abs(X[:, None] - rows) < 1e-6).mean(-1))
        expect_close('log-probability of a sample', d.log_proba(P, jnp.asarray(X)), want, 1e-5)
        st.transitions += B
    for f in (None, coax.value_transforms.LogTransform()):
        g, gi = (T.signlog, T.signexp) if f else (lambda x: x, lambda x: x)
        sc, sh = np.cos(np.arange(B)), 2 * np.sin(np.arange(B))
        for a, b in ((jnp.asarray(sc, f32), jnp.asarray(sh, f32)), (jnp.asarray(.5), jnp.asarray(-1.))):
            out = d.affine_transform(P, a, b, f)
            A, Bb = np.broadcast_to(a, (B,))[:, None], np.broadcast_to(b, (B,))[:, None]
            expect_close('transformed quantiles', out['values'], g(A * gi(rows) + Bb), 1e-4)
            expect_close('quantile fractions', out['quantile_fractions'], P['quantile_fractions'], 1e-6)
    st.states += B
    st.traces += 1
    st.outcome(n)


def spread_cases(tier):
    N = 20000 if tier == 'quick' else 100000
    for n in (2, 3, 5):
        yield ['quantile', n, N]
        yield ['categorical', n, N]
        yield ['interval', n, N]
    for shape in ((), (2,)):
        yield ['normal', list(shape), N]
        yield ['squashed', list(shape), N]
    for name in COMP:
        yield ['composite', name, N]


def near(what, freq, p, N):
    bad = np.abs(freq - p) > 7 * np.sqrt(p * (1 - p) / N) + 2e-3
    check(not np.any(bad), '%s: frequencies %s of %s samples, probabilities %s', what, freq, N, p)


def spread(case, st):
    """rows of a sampled batch follow the law, independently of one another (one fixed batch of draws)"""
    kind, n, N = case
    key = jax.random.PRNGKey(5)

    def labels(what, a, p):
        near(what, np.bincount(a, minlength=len(p)) / N, p, N)
        near(what + ' (neighbouring rows)', np.bincount(a[:-1] * len(p) + a[1:], minlength=len(p) ** 2) / (N - 1), np.outer(p, p).ravel(), N - 1)

    def gauss(what, Z):
        Z = np.asarray(Z, float)
        a = np.digitize(Z, (-.6744898, 0., .6744898))
        labels(what, a, np.full(4, .25))
        for q, p in ((-2., .0227501), (1.5, .9331928)):
            near(what, np.mean(Z <= q), np.asarray(p), N)
        return a
    if kind == 'quantile':
        d = PD.EmpiricalQuantileDist(n)
        v = np.arange(n) * 2. - 1
        X = np.asarray(d.sample({'values': jnp.tile(jnp.asarray(v, f32), (N, 1)), 'quantile_fractions': jnp.tile((jnp.arange(n) + .5) / n, (N, 1))}, key))
        labels('quantiles', np.rint((X + 1) / 2).astype(int), np.full(n, 1 / n))
    elif kind in ('categorical', 'interval'):
        d = PD.CategoricalDist(sp.Discrete(n)) if kind == 'categorical' else PD.DiscretizedIntervalDist(sp.Box(f32(-1), f32(1), (), dtype=np.float32), num_bins=n)
        for row in (np.zeros(n), np.arange(n) * .7):
            X = np.asarray(d.sample({'logits': jnp.tile(jnp.asarray(row, f32), (N, 1))}, key))
            labels(kind, X.argmax(-1), T.softmax(row))
    elif kind in ('normal', 'squashed'):
        shape = tuple(n)
        box = sp.Box(f32(-1), f32(1), shape, dtype=np.float32)
        d = PD.NormalDist(box) if kind == 'normal' else PD.SquashedNormalDist(box)
        mu, lv = .3, -1.
        X = np.asarray(d.sample({'mu': jnp.full((N,) + shape, mu), 'logvar': jnp.full((N,) + shape, lv)}, key), float).reshape(N, -1)
        X = np.arctanh(X) if kind == 'squashed' else X
        cols = [gauss(kind, (X[:, j] - mu) / np.exp(lv / 2)) for j in range(X.shape[1])]
        if len(cols) > 1:
            near(kind + ' (components)', np.bincount(cols[0] * 4 + cols[1], minlength=16) / N, np.full(16, 1 / 16), N)
    else:
        space = COMP[n]
        d = PD.ProbaDist(space)
        v = np.tile(.8 * np.cos(np.arange(1, width(space) + 1)), (N, 1))
        X = structured_leaves(space, d.sample(structured(d, space, v), key))
        prev = None
        for x, (k, *par) in zip(X, leaves_of(space, v)[0]):
            x = np.asarray(x).reshape(N, -1)
            if k == 'cat':
                cols, ps = [x.argmax(-1)], [T.softmax(par[0][0])]
                labels(f'{n}: component', cols[0], ps[0])
            else:
                cols = [gauss(f'{n}: component', (x[:, j] - par[0][0, j]) / np.exp(par[1][0, j] / 2)) for j in range(x.shape[1])]
                ps = [np.full(4, .25)] * len(cols)
            for a, p in zip(cols, ps):
                if prev is not None:
                    b, q = prev
                    near(f'{n}: two components', np.bincount(b * len(p) + a, minlength=len(p) * len(q)) / N, np.outer(q, p).ravel(), N)
                prev = a, p
    st.states += 1
    st.transitions += N
    st.outcome(repr(case[:2]))


def structured_leaves(space, X):
    """variates of the elementary components, in the order of leaves_of"""
    if isinstance(space, (sp.Discrete, sp.Box)):
        return [X]
    if isinstance(space, sp.Dict):
        return [y for k, s in space.spaces.items() for y in structured_leaves(s, X[k])]
    if isinstance(space, sp.Tuple):
        return [y for s, x in zip(space.spaces, X) for y in structured_leaves(s, x)]
    return list(X)


C22 = [FuncSystem('categorical', cat_cases, cat, 'all logit rows over {-2,0,.5,30}^n, n<=3 (4), all pairs'),
       FuncSystem('normal', norm_cases, norm, 'normal and squashed normal: shapes x intervals x all (mean, log-variance) rows, all pairs, grid of variates'),
       FuncSystem('composite', comp_cases, comp, 'eight composite spaces x 60 parameter pairs'),
       FuncSystem('interval', iv_cases, interval, 'intervals x numbers of bins x all logit rows x scales and shifts, plain and transformed'),
       FuncSystem('quantiles', qt_cases, quant, 'all value rows'),
       FuncSystem('spread', spread_cases, spread, 'one batch of 20000 (100000) draws per distribution: marginals, neighbouring rows and components within seven sigma')]


# ---------------------------------------------------------------- C23

BOXES = sorted((-7.3, -2., -1., -.3, -.1, 0., .1, .2, .3, .7, 1., 3.3, 1e-3, 100.1))


def box_cases(tier):
    for k, (lo, hi) in enumerate(itertools.combinations(BOXES, 2)):
        yield [lo, hi]


def box(case, st):
    lo, hi = case
    space = sp.Box(f32(lo), f32(hi), (1,), dtype=np.float32)
    for cls in (PD.NormalDist, PD.SquashedNormalDist, PD.ProbaDist):
        d = cls(space)
        raw = np.array([-200., -40., -30., -17., -9., -5., -1., 0., .4, 3., 9., 16.5, 17., 40., 200.], f32)[:, None]
        X = d.mode({'mu': jnp.asarray(raw), 'logvar': jnp.zeros_like(jnp.asarray(raw))})
        vals = []
        for i in range(len(raw)):
            y = d.postprocess_variate(KEY, X, index=i)
            check(isinstance(y, np.ndarray) and space.contains(y), '%s: raw variate %s gives %r, which is not in Box(%r, %r)', cls.__name__, raw[i], y, space.low, space.high)
            vals.append(float(y[0]))
            st.transitions += 1
        check(np.all(np.diff(vals) >= 0), '%s: postprocessing is not monotone: %s', cls.__name__, vals)
        check(vals[0] <= lo + 1e-3 * (hi - lo) and vals[-1] >= hi - 1e-3 * (hi - lo), '%s: saturated variates give %s', cls.__name__, vals)
        xs = np.array([lo, lo + .01 * (hi - lo), lo + .3 * (hi - lo), .5 * (lo + hi), lo + .9 * (hi - lo), hi], f32)[:, None]
        e = d.preprocess_variate(KEY, jnp.asarray(xs))
        back = np.asarray(d.postprocess_variate(KEY, e, batch_mode=True))
        check(np.max(np.abs(back - xs)) <= 2e-5 * (hi - lo) + 1e-6, '%s on [%s,%s]: encoding and decoding %s gives %s', cls.__name__, lo, hi, xs.ravel(), back.ravel())
        for i in range(len(xs)):
            e1 = d.preprocess_variate(KEY, xs[i])
            expect_close('encoding one element', e1, e[i:i + 1], 1e-6)
    st.states += 1
    st.traces += 1
    st.outcome(tuple(case))


RT = dict(COMP, discrete=sp.Discrete(4), shifted=sp.Discrete(3, start=2), negative=sp.Discrete(4, start=-2), one=sp.Discrete(1), box2=sp.Box(np.array([-1., 0.], f32), np.array([1., 5.], f32)),
          mat=sp.Box(-1., 3., (2, 2), dtype=np.float32), scalar=sp.Box(-1., 3., (), dtype=np.float32),
          nested=sp.Tuple((sp.Dict({'x': sp.MultiDiscrete([2, 2]), 'y': sp.Box(-1., 1., (1,), dtype=np.float32)}), sp.Tuple((sp.Discrete(2, start=1), sp.MultiBinary(1))))),
          mixed=sp.Box(np.array([[-3., -1., .5], [0., 2., -.25]], f32), np.array([[-1., 4., .75], [9., 2.5, 100.]], f32)),
          double=sp.Box(np.array([-1., 0.]), np.array([1., 5.]), dtype=np.float64),
          mixdict=sp.Dict({'p': sp.Box(np.array([-1., 0.], f32), np.array([1., 5.], f32)), 'q': sp.Discrete(3, start=4)}))


def elements(space):
    if isinstance(space, sp.Discrete):
        return list(range(space.start, space.start + space.n))
    if isinstance(space, sp.Box):
        n = int(np.prod(space.shape))
        return [(space.low + np.array(v, f32).reshape(space.shape) * (space.high - space.low)).astype(f32) for v in itertools.product((0., .3, 1.), repeat=min(n, 2)) for v in [tuple(itertools.islice(itertools.cycle(v), n))]]
    if isinstance(space, sp.MultiDiscrete):
        return [np.array(v) for v in itertools.product(*(range(k) for k in space.nvec))]
    if isinstance(space, sp.MultiBinary):
        return [np.array(v, np.int8) for v in itertools.product((0, 1), repeat=space.n)]
    if isinstance(space, sp.Tuple):
        return list(itertools.product(*(elements(s) for s in space.spaces)))
    return [dict(zip(space.spaces, v)) for v in itertools.product(*(elements(s) for s in space.spaces.values()))]


def eq(space, a, b):
    if isinstance(space, sp.Box):
        return bool(np.all(np.abs(np.asarray(a) - b) <= 2e-5 * (space.high - space.low) + 1e-6))
    if isinstance(space, sp.Tuple):
        return len(a) == len(b) and all(eq(s, x, y) for s, x, y in zip(space.spaces, a, b))
    if isinstance(space, sp.Dict):
        return set(a) == set(b) and all(eq(s, a[k], b[k]) for k, s in space.spaces.items())
    return bool(np.array_equal(a, b))


def rt_cases(tier):
    return iter(list(RT))


def collate(xs):
    return jax.tree_util.tree_map(lambda *l: np.stack([np.asarray(i) for i in l]), *xs)


def roundtrip(name, st):
    space = RT[name]
    if isinstance(space, sp.Box):
        for cls in (PD.NormalDist, PD.SquashedNormalDist):
            roundtrip_of(name, space, cls(space), st)
    roundtrip_of(name, space, PD.ProbaDist(space), st)


def roundtrip_of(name, space, d, st):
    E = elements(space)
    for e in E:
        X = d.preprocess_variate(KEY, jax.tree_util.tree_map(np.asarray, e))
        back = d.postprocess_variate(KEY, X)
        check(member(space, back), '%s: %r decodes to %r, not an element', name, e, back)
        check(eq(space, back, e), '%s: %r decodes to %r', name, e, back)
        st.transitions += 1
    B = collate(E)
    X = d.preprocess_variate(KEY, B)
    for i, e in enumerate(E):
        back = d.postprocess_variate(KEY, X, index=i)
        check(eq(space, back, e), '%s: row %s of a batch, %r, decodes to %r', name, i, e, back)
    BB = d.postprocess_variate(KEY, X, batch_mode=True)
    for i, e in enumerate(E):
        row = jax.tree_util.tree_map(lambda x: np.asarray(x)[i], BB)
        check(eq(space, row, e), '%s: row %s of a decoded batch is %r instead of %r', name, i, row, e)
        st.transitions += 2
    # encodings look like samples
    R = len(E)
    w = width(space)
    smp = d.sample(structured(d, space, np.zeros((R, w))), KEY)
    sx, sy = jax.tree_util.tree_leaves(smp), jax.tree_util.tree_leaves(X)
    check([x.shape for x in sx] == [y.shape for y in sy], '%s: samples have shapes %s, encodings %s', name, [x.shape for x in sx], [y.shape for y in sy])
    st.states += R
    st.traces += 1
    st.outcome(name)


RAW = (-200., -17., -3., -.4, 0., .4, 3., 17., 200.)


def any_cases(tier):
    for name in RT:
        yield name


def decode_any(name, st):
    """whatever the variate, what it decodes to is an element of the space, alone or in a batch"""
    space = RT[name]
    for cls in (PD.ProbaDist,) + ((PD.NormalDist, PD.SquashedNormalDist) if isinstance(space, sp.Box) else ()):
        d = cls(space)
        smp = d.sample(structured(d, space, np.zeros((1, width(space)))), KEY)
        ls, td = jax.tree_util.tree_flatten(smp)
        n = len(RAW)
        # (one leaf runs over the raw values, shifted from entry to entry, all others at any one of them)
        for lead in range(len(ls)):
            for rest in RAW[::2]:
                new = []
                for j, x in enumerate(ls):
                    size = int(np.prod(x.shape[1:]))
                    v = np.array([[RAW[(i + k * (1 + i // 2)) % n] if j == lead else rest for k in range(size)] for i in range(n)], f32)
                    new.append(jnp.asarray(v.reshape(n, *x.shape[1:])))
                X = jax.tree_util.tree_unflatten(td, new)
                BB = d.postprocess_variate(KEY, X, batch_mode=True)
                for i in range(n):
                    y = d.postprocess_variate(KEY, X, index=i)
                    check(member(space, y), '%s: %s decodes the variate %s to %r, which is not an element', name, cls.__name__, [np.asarray(x[i]).tolist() for x in new], y)
                    if isinstance(space, sp.Box):
                        check(y.shape == space.shape, '%s: shape %s', name, y.shape)
                    # ties between equal entries may be broken differently; boxes have none
                    row = jax.tree_util.tree_map(lambda x: np.asarray(x)[i], BB)
                    if isinstance(space, sp.Box):
                        expect_close(f'{name}: row {i} of the decoded batch', row, y, 1e-6)
                    st.transitions += 1
        st.traces += 1
    st.states += 1
    st.outcome(name)


def pre_cases(tier):
    for name in RT:
        yield name


def ref_enc(space, x):
    if isinstance(space, sp.Discrete):
        return [np.eye(space.n)[x - space.start]]
    if isinstance(space, (sp.Box, sp.MultiBinary)):
        return [np.asarray(x, float)]
    if isinstance(space, sp.MultiDiscrete):
        return [np.eye(int(n))[i] for n, i in zip(space.nvec, x)]
    if isinstance(space, sp.Tuple):
        return sum((ref_enc(s, i) for s, i in zip(space.spaces, x)), [])
    return sum((ref_enc(space.spaces[k], x[k]) for k in sorted(space.spaces)), [])


def pre(name, st):
    """default preprocessor: one-hot / clipped encoding per component, single or batched"""
    space = RT[name]
    f = coax.utils.default_preprocessor(space)
    E = elements(space)
    refs = [ref_enc(space, e) for e in E]
    for e, r in zip(E, refs):
        got = jax.tree_util.tree_leaves(f(KEY, jax.tree_util.tree_map(np.asarray, e)))
        check(len(got) == len(r), '%s: %s components', name, len(got))
        for g, w in zip(got, r):
            expect_close(f'{name}: encoding of {e}', g, w[None], 1e-6)
        st.transitions += 1
    got = jax.tree_util.tree_leaves(f(KEY, collate(E)))
    for j, g in enumerate(got):
        expect_close(f'{name}: encoding of a batch', g, np.stack([r[j] for r in refs]), 1e-6)
    check(coax.utils.check_preprocessors(space, f, coax.utils.default_preprocessor(space)), '%s: equal preprocessors found different', name)
    if isinstance(space, sp.Box):
        far = space.high + 7.
        expect_close('clipped', f(KEY, far), space.high[None], 1e-6)
        expect_close('clipped', f(KEY, space.low - 3.), space.low[None], 1e-6)
        check(not coax.utils.check_preprocessors(space, f, lambda rng, x: 2 * f(rng, x)), 'different preprocessors found equal')
        check(not coax.utils.check_preprocessors(space, f, lambda rng, x: (f(rng, x),)), 'preprocessors of different structure found equal')
    if name == 'scalar':      # integer observations keep their exact value
        for dt, hi in ((np.uint8, 255), (np.int32, 2 ** 24 + 9), (np.int16, 3000)):
            g = coax.utils.default_preprocessor(sp.Box(0, hi, (2,), dtype=dt))
            for a in (0, 1, 127, 128, hi - 2, hi - 1, hi):
                got = np.asarray(g(KEY, np.array([a, hi - a], dt))).astype(np.int64)
                check(got.tolist() == [[a, hi - a]], '%s: %s is encoded as %s', np.dtype(dt), [a, hi - a], got)
    st.states += len(E)
    st.traces += 1
    st.outcome(name)


C23 = [FuncSystem('boxes', box_cases, box, 'all 91 intervals between 14 end points x 15 raw variates incl. saturated x 3 distributions'),
       FuncSystem('round-trip', rt_cases, roundtrip, '21 spaces, all elements of a grid incl. bounds'),
       FuncSystem('decode-any', any_cases, decode_any, '21 spaces x every leaf over 9 raw values incl. saturated ones x the others at 5'),
       FuncSystem('preprocessor', pre_cases, pre, '21 spaces, all elements of a grid')]

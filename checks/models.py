"""Learned dynamics: model updates and successor-state q-functions (C29)."""
import itertools
import warnings
from collections import namedtuple

import gymnasium.spaces as sp
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax

import coax
from mc.core import check, FuncSystem
from mc.util import expect_close, expect_raises
from checks import tabular as T
from checks.td import RefOpt, frozen, mkopt, same

warnings.filterwarnings('ignore')
VL = coax.value_losses
REnv = namedtuple('REnv', 'observation_space action_space reward_range')
NS, NA, K = 3, 2, 5
VR = (-2., 3.)
LOG = coax.value_transforms.LogTransform()


def env(nS=NS, nA=NA):
    return REnv(sp.Discrete(nS), sp.Discrete(nA), (-4., 4.))


def tmodel(e, typ, stoch, counting=False, mode=None):
    n, a = e.observation_space.n, e.action_space.n
    out = (lambda x: {'logits': x}) if stoch else (lambda x: x)

    def f2(S, is_training):
        T._count(is_training, counting)
        return out(jnp.einsum('bs,sak->bak', S, T._tab('p', (n, a, n))) + T._mode(is_training, mode) * jnp.arange(n))

    def f1(S, A, is_training):
        T._count(is_training, counting)
        return out(jnp.einsum('bs,ba,sak->bk', S, A, T._tab('p', (n, a, n))) + T._mode(is_training, mode) * jnp.arange(n))
    cls = coax.StochasticTransitionModel if stoch else coax.TransitionModel
    return cls(f2 if typ == 2 else f1, e, random_seed=7)


def rmodel(e, typ, stoch, log=False, counting=False, bins=K, vr=VR, mode=None):
    n, a = e.observation_space.n, e.action_space.n
    sh = (n, a, bins) if stoch else (n, a)
    ramp = np.arange(bins) if stoch else 1.
    out = (lambda x: {'logits': x}) if stoch else (lambda x: x)

    def f2(S, is_training):
        T._count(is_training, counting)
        return out(jnp.einsum('bs,s...->b...', S, T._tab('r', sh)) + T._mode(is_training, mode) * ramp)

    def f1(S, A, is_training):
        T._count(is_training, counting)
        return out(jnp.einsum('bs,ba,sa...->b...', S, A, T._tab('r', sh)) + T._mode(is_training, mode) * ramp)
    kw = dict(value_transform=LOG if log else None, random_seed=7)
    f = f2 if typ == 2 else f1
    return coax.StochasticRewardFunction(f, e, value_range=vr, num_bins=bins, **kw) if stoch else coax.RewardFunction(f, e, **kw)


def atoms(log, bins=K, vr=VR):
    lo, hi = (float(T.signlog(x)) for x in vr) if log else vr
    return lo + (np.arange(bins) + .5) * (hi - lo) / bins


def peaked(idx, n, h=60.):
    return h * np.eye(n)[np.asarray(idx)]


# ---------------------------------------------------------------- q(s,a) = r(s,a) + gamma E v(s')

def succ_cases(tier):
    for pt, ps, rt, rs, rlog, vs, vlog in itertools.product((1, 2), (0, 1), (1, 2), (0, 1), (0, 1), (0, 1), (0, 1)):
        if tier == 'quick' and pt != rt and (ps + rs + rlog + vs + vlog) % 2:
            continue
        yield dict(pt=pt, ps=ps, rt=rt, rs=rs, rlog=rlog, vs=vs, vlog=vlog)


def succ(c, st):
    e = env()
    p, r = tmodel(e, c['pt'], c['ps']), rmodel(e, c['rt'], c['rs'], c['rlog'])
    v = T.SV(e, VR, K, value_transform=LOG if c['vlog'] else None) if c['vs'] else T.V(e, value_transform=LOG if c['vlog'] else None)
    q = coax.SuccessorStateQ(v, p, r, gamma=.9)
    check(coax.utils.is_qfunction(q), 'a SuccessorStateQ must count as a q-function')
    f, fi = (T.signlog, T.signexp) if c['vlog'] else (np.asarray, np.asarray)
    rfi = T.signexp if c['rlog'] else np.asarray
    linear_v = not c['vs'] and not c['vlog']
    for nxt in itertools.product(range(NS), repeat=NA):            # successor of (s, a), shifted by s
        nx = np.array([[(nxt[a] + s) % NS for a in range(NA)] for s in range(NS)])
        for variant in (0, 1, 2):
            # rewards
            if c['rs']:
                at = atoms(c['rlog'])
                if variant == 2 and not c['rlog']:                 # spread reward distribution: q uses its mean
                    lg = np.array([[[((i + 2 * a + s) % 3) - 1. for i in range(K)] for a in range(NA)] for s in range(NS)])
                    R = (T.softmax(lg) * at).sum(-1)
                else:
                    idx = np.array([[(2 * s + a + variant) % K for a in range(NA)] for s in range(NS)])
                    lg, R = peaked(idx, K), rfi(at[idx])
                T.setp(r, lg)
            else:
                R = np.array([[(-1.) ** (s + a) * (s + .5 * a + variant) for a in range(NA)] for s in range(NS)])
                T.setp(r, T.signlog(R) if c['rlog'] else R)
            # transitions
            if variant == 1 and linear_v:                          # spread transition distribution: expectation of v
                lg = np.array([[[((i + s) * (a + 1) + nxt[a]) % 3 - 1. for i in range(NS)] for a in range(NA)] for s in range(NS)])
                P = T.softmax(lg) if c['ps'] else lg
                T.setp(p, lg)
            else:
                P = np.eye(NS)[nx]
                T.setp(p, 60. * P if c['ps'] else P)
            # values
            if c['vs']:
                at = atoms(c['vlog'])
                if variant == 2 and not c['vlog']:
                    tv = np.array([[((i * 2 + s) % 4) - 1. for i in range(K)] for s in range(NS)])
                    Vs = (T.softmax(tv) * at).sum(-1)
                else:
                    idx = [(s * 2 + variant) % K for s in range(NS)]
                    tv, Vs = peaked(idx, K), fi(at[idx])
                T.setp(v, tv)
            else:
                Vs = np.array([-1.5, 0., 4.]) * (1 if variant else -1)
                T.setp(v, f(Vs))
            for g in ((.9,) if variant else (.9, 0., 1.)):
                q.gamma = g
                want = f(R + g * (P @ Vs))
                for s in range(NS):
                    # calling q undoes the value transform, as it does for every q-function
                    expect_close(f'{c} q(s={s}) with gamma={g}', q(s), fi(want)[s], 2e-4)
                    if s == 1:
                        for a in range(NA):
                            expect_close(f'{c} q(s={s}, a={a})', q(s, a), fi(want)[s, a], 2e-4)
                S = q.observation_preprocessor(q.rng, np.arange(NS).repeat(NA))
                A = q.action_preprocessor(q.rng, np.tile(np.arange(NA), NS))
                Q1, s1 = q.function_type1(q.params, q.function_state, q.rng, S, A, True)
                expect_close(f'{c} function_type1 on a batch', Q1, want.ravel(), 2e-4)
                Q2, s2 = q.function_type2(q.params, q.function_state, q.rng, S[::NA], True)
                expect_close(f'{c} function_type2 on a batch', Q2, want, 2e-4)
                st.transitions += 2 * NS * NA
            st.states += 1
    # a greedy policy on top of it
    pi = coax.EpsilonGreedy(q, epsilon=0.)
    for s in range(NS):
        row = want[s]
        check(row[int(pi(s))] >= row.max() - 1e-3, 'greedy action %s on %s', pi(s), row)
    st.outcome(repr(c))
    st.traces += 1


def mode_cases(tier):
    for pt, ps, rt, rs, vs in itertools.product((1, 2), (0, 1), (1, 2), (0, 1), (0, 1)):
        for mv, mp, mr in itertools.product((None, [.7, -.4]), (None, [.2, .5]), (None, [-.3, .9])):
            if vs and (not ps or mp):
                continue
            if mv is None and mp is None and mr is None:
                continue
            if tier == 'quick' and pt != rt and sum(x is not None for x in (mv, mp, mr)) != 2:
                continue
            yield dict(pt=pt, ps=ps, rt=rt, rs=rs, vs=vs, mv=mv, mp=mp, mr=mr)


def succ_mode(c, st):
    """functions that depend on their function state and on whether they are evaluated in training mode"""
    e = env()
    p, r = tmodel(e, c['pt'], c['ps'], mode=c['mp']), rmodel(e, c['rt'], c['rs'], mode=c['mr'])
    v = T.SV(e, VR, K, mode=c['mv']) if c['vs'] else T.V(e, mode=c['mv'])
    q = coax.SuccessorStateQ(v, p, r, gamma=.9)
    off = lambda m, tr: 0. if m is None else m[0] + (m[1] if tr else 0.)  # noqa: E731
    for k in range(3):
        lp = np.array([[[((i + s) * (a + 1) + k) % 3 - 1. for i in range(NS)] for a in range(NA)] for s in range(NS)])
        if c['vs']:
            lp = 60. * np.eye(NS)[np.array([[(a + s + k) % NS for a in range(NA)] for s in range(NS)])]
        lr = np.array([[[((i + 2 * a + s + k) % 3) - 1. for i in range(K)] for a in range(NA)] for s in range(NS)])
        lr = lr if c['rs'] else lr[..., 0]
        tv = np.array([[((i * 2 + s + k) % 4) - 1. for i in range(K)] for s in range(NS)]) if c['vs'] else np.array([-1.5, k, 4.])
        for f, t in ((p, lp), (r, lr), (v, tv)):
            T.setp(f, t)

        def want(tr):
            P = lp + off(c['mp'], tr) * np.arange(NS)
            P = T.softmax(P) if c['ps'] else P
            R = (T.softmax(lr + off(c['mr'], tr) * np.arange(K)) * atoms(0)).sum(-1) if c['rs'] else lr + off(c['mr'], tr)
            if c['vs']:
                V = P @ (T.softmax(tv + off(c['mv'], tr) * np.arange(K)) * atoms(0)).sum(-1)
            else:
                V = P @ tv + off(c['mv'], tr)
            return R + .9 * V
        for s in range(NS):
            expect_close(f'{c} q(s={s}) evaluates in inference mode, with the functions\' own states', q(s), want(False)[s], 3e-4)
            expect_close(f'{c} q(s={s}, 1)', q(s, 1), want(False)[s, 1], 3e-4)
        S = q.observation_preprocessor(q.rng, np.arange(NS).repeat(NA))
        A = q.action_preprocessor(q.rng, np.tile(np.arange(NA), NS))
        for tr in (False, True):
            s0 = frozen(q.function_state)
            Q1, s1 = q.function_type1(q.params, q.function_state, q.rng, S, A, tr)
            expect_close(f'{c} function_type1, is_training={tr}', Q1, want(tr).ravel(), 3e-4)
            Q2, s2 = q.function_type2(q.params, q.function_state, q.rng, S[::NA], tr)
            expect_close(f'{c} function_type2, is_training={tr}', Q2, want(tr), 3e-4)
            check(same(s0, frozen(s1)) and same(s0, frozen(s2)), '%s: the function state changed from %s to %s / %s', c, s0, frozen(s1), frozen(s2))
            st.transitions += 2 * NS * NA
        st.states += 1
    st.outcome(repr(c))
    st.traces += 1


def succ_bad(case, st):
    e = env()
    v, p, r = T.V(e), tmodel(e, 1, 0), rmodel(e, 1, 0)
    for args in ((r, p, r), (v, v, r), (v, p, v), (v, p, p), (p, p, r), (T.Q2(e), p, r)):
        expect_raises('SuccessorStateQ of wrong functions', TypeError, lambda: coax.SuccessorStateQ(*args))
        st.states += 1
    for m in (v, T.Q2(e), T.Pi(e), 3):
        expect_raises('ModelUpdater of something that is not a dynamics model', TypeError, lambda: coax.model_updaters.ModelUpdater(m))
    expect_raises('ModelUpdater with a bad regularizer', TypeError, lambda: coax.model_updaters.ModelUpdater(p, regularizer=.1))
    st.outcome(1)


# ---------------------------------------------------------------- constructor arguments

def args_cases(tier):
    return iter([dict(vr=vr, bins=b, log=l, typ=t, pre=p) for vr in (None, [-2., 3.], [0., 8.]) for b in (2, 5, 51) for l in (0, 1) for t in (1, 2) for p in (0, 1)])


def srf_args(c, st):
    """a stochastic reward function takes values within value_range (default: the env's reward range), spread over num_bins bins"""
    e = env()
    bins, vr = c['bins'], tuple(c['vr'] or e.reward_range)
    calls = []

    def pre(rng, s):
        calls.append(1)
        return jax.nn.one_hot((jnp.asarray(s) + 1) % NS, NS).reshape(-1, NS)

    def f2(S, is_training):
        return {'logits': jnp.einsum('bs,sak->bak', S, T._tab('r', (NS, NA, bins)))}

    def f1(S, A, is_training):
        return {'logits': jnp.einsum('bs,ba,sak->bk', S, A, T._tab('r', (NS, NA, bins)))}
    kw = {} if c['vr'] is None else dict(value_range=tuple(c['vr']))
    if c['pre']:
        kw['observation_preprocessor'] = pre
    if bins != 51:
        kw['num_bins'] = bins
    mk = lambda seed: coax.StochasticRewardFunction(f2 if c['typ'] == 2 else f1, e, value_transform=LOG if c['log'] else None, random_seed=seed, **kw)  # noqa: E731
    r, r2 = mk(11), mk(11)
    at = atoms(c['log'], bins, vr)
    check(r.num_bins == bins, '%s: num_bins is %s', c, r.num_bins)
    fi = T.signexp if c['log'] else np.asarray
    for idx in (0, bins - 1, bins // 2):
        T.setp(r, peaked(np.array([[(idx + s) % bins for a in range(NA)] for s in range(NS)]), bins))
        for s in range(NS):
            want = fi(at[(idx + (s + 1) % NS) % bins] if c['pre'] else at[(idx + s) % bins])
            expect_close(f'{c} mean of a peaked reward distribution', np.asarray(r.mean(s)).ravel(), [want] * NA, 3e-4)
            expect_close(f'{c} sample of a peaked reward distribution', r(s, 1), want, 3e-4)
            st.transitions += 2
    if c['vr'] is None or bins == 5:
        T.setp(r, np.zeros((NS, NA, bins)))
        T.setp(r2, np.zeros((NS, NA, bins)))
        a = [float(r(0, 1)) for _ in range(5)]
        r2 = mk(11)
        for _ in range(3):
            r = mk(11)
            T.setp(r, np.zeros((NS, NA, bins)))
            T.setp(r2, np.zeros((NS, NA, bins)))
            check([float(r(0, 1)) for _ in range(4)] == [float(r2(0, 1)) for _ in range(4)], '%s: the random seed is not honoured', c)
            r2 = mk(11)
        lo, hi = (fi(x) for x in ((T.signlog(vr[0]), T.signlog(vr[1])) if c['log'] else vr))
        check(all(lo - 1e-3 <= x <= hi + 1e-3 for x in a), '%s: sampled reward outside the value range: %s', c, a)
    st.states += 1
    st.outcome(repr(c))


# ---------------------------------------------------------------- model updates

PSI = {'mse': lambda x: .5 * x * x, 'huber': lambda x: jnp.where(jnp.abs(x) <= 1, .5 * x * x, jnp.abs(x) - .5)}
WS = (.01, .4, 1., 3., 50.)
RS = (-1., 0., 2.5)


def IN(n):
    """bootstrap factors, which a model update must not depend on"""
    return np.array([(.9, 0., .5, 1., 0.)[i % 5] for i in range(n)])


def upd_cases(tier):
    k = 0
    for kind in ('p', 'r'):
        for typ in (1, 2):
            for loss in ('mse', 'huber'):
                for opt in ('sgd', 'momentum', 'adam', 'decay'):
                    for log in ((0, 1) if kind == 'r' else (0,)):
                        k += 1
                        yield dict(kind=kind, typ=typ, loss=loss, opt=opt, log=log, counting=k % 2)


def W_all(n, off):
    return np.array([WS[(i + off) % len(WS)] for i in range(n)], np.float32)


def all_rows(nxt):
    """every (s, a, s' or r) once"""
    return list(itertools.product(range(NS), range(NA), nxt))


def mean_loss(y, yp, w, loss):
    d = PSI[loss](jnp.asarray(yp) - jnp.asarray(y))
    return jnp.mean(w * (d.mean(-1) if d.ndim > 1 else d))


def updates(c, st):
    e = env()
    kind, log = c['kind'], c['log']
    mode = None if c['counting'] else (.2, .5)      # predictions of the model under training are in training mode
    m = tmodel(e, c['typ'], 0, c['counting'], mode=mode) if kind == 'p' else rmodel(e, c['typ'], 0, log, c['counting'], mode=mode)
    off = (0. if mode is None else .7) * (np.arange(NS) if kind == 'p' else 1.)
    shape = (NS, NA, NS) if kind == 'p' else (NS, NA)
    n = int(np.prod(shape))
    lf = None if c['loss'] == 'huber' else VL.mse
    for start in range(3):
        up = coax.model_updaters.ModelUpdater(m, optimizer=mkopt(c['opt']), loss_function=lf)
        ref = RefOpt(c['opt'])
        table = np.array([((5 * i + 3 * start) % 7) / 2. - 1.5 for i in range(n)]).reshape(shape)
        T.setp(m, table)
        rows = all_rows(range(NS) if kind == 'p' else RS)
        cnt0 = [float(x) for x in jax.tree_util.tree_leaves(m.function_state)]
        for step in range(4):
            sub = [rows, rows[step::3], rows[:1], list(reversed(rows))[::2]][(step + start) % 4]
            S, A, Y = (np.array(x) for x in zip(*sub))
            w = W_all(len(sub), step)
            b = T.batch(S, A, None, Y if kind == 'r' else np.full(len(sub), 9.), IN(len(sub)), Y if kind == 'p' else (S + 1) % NS, A, None, W=w)
            wc = np.clip(w, .1, 10.)
            target = np.eye(NS)[Y] if kind == 'p' else (T.signlog(Y) if log else Y)

            def ref_loss(t):
                return mean_loss(target, t[S, A] + off, wc, c['loss'])
            want_loss, g = jax.value_and_grad(ref_loss)(jnp.asarray(table, jnp.float32))
            before = frozen(m.params)
            grads, fs, metrics = up.grads_and_metrics(b)
            check(same(before, frozen(m.params)), '%s: computing gradients must not change the model', c)
            expect_close(f'{c} gradient', T.np.asarray(jax.tree_util.tree_leaves(grads)[0]), g, 1e-4)
            mt = up.update(b)
            for d in (metrics, mt):
                expect_close(f'{c} loss', d['ModelUpdater/loss'], want_loss, 1e-4)
                expect_close(f'{c} bare loss', d['ModelUpdater/loss_bare'], want_loss, 1e-4)
            table = table + ref.step(np.asarray(g, float), table)
            expect_close(f'{c} parameters after update {step}', T.getp(m), table, 2e-3 if c['opt'] == 'adam' else 2e-4)
            table = T.getp(m)
            if c['counting']:
                cnt = [float(x) for x in jax.tree_util.tree_leaves(m.function_state)]
                check(cnt == [x + step + 1 for x in cnt0], '%s: function state after %s updates: %s (was %s)', c, step + 1, cnt, cnt0)
            st.transitions += len(sub)
        st.states += 1
        st.outcome((repr(c), start))
    # a nan in the data must not reach the parameters
    before, opt0 = frozen(m.params), frozen(up.optimizer_state)
    bad = T.batch([0, 1], [0, 1], None, [np.nan, 1.], [.9, .9], [0, 1], [0, 1], None, W=[1., np.nan])
    expect_raises(f'{c} update with nan', RuntimeError, lambda: up.update(bad))
    check(same(before, frozen(m.params)) and same(opt0, frozen(up.optimizer_state)), '%s: a rejected update changed the model', c)
    other = 'adam' if c['opt'] != 'adam' else 'sgd'
    expect_raises(f'{c} optimizer with another kind of state', AttributeError, lambda: setattr(up, 'optimizer', mkopt(other)))
    expect_raises(f'{c} optimizer state of another kind', AttributeError, lambda: setattr(up, 'optimizer_state', mkopt(other).init(m.params)))
    check(same(opt0, frozen(up.optimizer_state)), '%s: a refused optimizer changed its state', c)
    st.traces += 1


def supd_cases(tier):
    for typ in (1, 2):
        for loss in ('mse', 'huber'):
            for beta in (0, .3):
                yield dict(kind='p', typ=typ, loss=loss, beta=beta)
                for log in (0, 1):
                    yield dict(kind='r', typ=typ, loss=loss, beta=beta, log=log)
                yield dict(kind='box', typ=typ, loss=loss, beta=beta)


def supdates(c, st):
    """stochastic models: the prediction is a sample; on a peaked distribution the loss is determined"""
    e = env()
    kind, log, beta = c['kind'], c.get('log', 0), c['beta']
    if kind == 'box':
        return supdates_box(c, st)
    m = tmodel(e, c['typ'], 1) if kind == 'p' else rmodel(e, c['typ'], 1, log)
    reg = coax.regularizers.EntropyRegularizer(m, beta=beta) if beta else None
    up = coax.model_updaters.ModelUpdater(m, optimizer=optax.sgd(.5), loss_function=None if c['loss'] == 'huber' else VL.mse, regularizer=reg)
    nout = NS if kind == 'p' else K
    at = atoms(log)
    rows = all_rows(range(NS) if kind == 'p' else RS)
    for k, idx in enumerate(itertools.product(range(nout), repeat=NA)):
        pick = np.array([[(idx[a] + s) % nout for a in range(NA)] for s in range(NS)])
        T.setp(m, peaked(pick, nout))
        for sub in (rows, rows[k % 5::5]):
            S, A, Y = (np.array(x) for x in zip(*sub))
            w = W_all(len(sub), k)
            b = T.batch(S, A, None, Y if kind == 'r' else np.full(len(sub), 9.), IN(len(sub)), Y if kind == 'p' else (S + 1) % NS, A, None, W=w)
            yp = np.eye(NS)[pick[S, A]] if kind == 'p' else at[pick[S, A]]
            y = np.eye(NS)[Y] if kind == 'p' else (T.signlog(Y) if log else Y)
            want = float(mean_loss(y, yp, np.clip(w, .1, 10.), c['loss']))
            _, _, mt = up.grads_and_metrics(b)
            expect_close(f'{c} bare loss of a peaked model', mt['ModelUpdater/loss_bare'], want, 1e-3)
            expect_close(f'{c} loss of a peaked model', mt['ModelUpdater/loss'], want, 1e-3)
            st.transitions += len(sub)
        st.states += 1
        st.outcome((repr(c), k))
    if beta:                                                       # uniform distribution: the entropy is log(n)
        T.setp(m, np.zeros((NS, NA, nout)))
        _, _, mt = up.grads_and_metrics(b)
        expect_close(f'{c} regularized loss', float(mt['ModelUpdater/loss']) - float(mt['ModelUpdater/loss_bare']), -beta * np.log(nout) * np.mean(np.clip(w, .1, 10.)), 1e-3)
        expect_close(f'{c} entropy', mt['EntropyRegularizer/entropy'], np.log(nout), 1e-3)
    up.update(b)
    check(all(np.isfinite(x).all() for x in frozen(m.params)), '%s: non-finite parameters', c)
    st.traces += 1


def supdates_box(c, st):
    e = REnv(sp.Box(-2., 2., (2,), dtype=np.float32), sp.Discrete(NA), (-4., 4.))
    beta = c['beta']

    def f2(S, is_training):
        t = T._tab('p', (NA, 2, 3))
        z = jnp.einsum('bd,adk->bak', S, t[..., :2])
        return {'mu': z, 'logvar': jnp.broadcast_to(t[..., 2], z.shape)}

    def f1(S, A, is_training):
        t = jnp.einsum('ba,adk->bdk', A, T._tab('p', (NA, 2, 3)))
        z = jnp.einsum('bd,bdk->bk', S, t[..., :2])
        return {'mu': z, 'logvar': t[..., 2]}
    m = coax.StochasticTransitionModel(f2 if c['typ'] == 2 else f1, e, random_seed=7)
    reg = coax.regularizers.EntropyRegularizer(m, beta=beta) if beta else None
    up = coax.model_updaters.ModelUpdater(m, optimizer=optax.sgd(.5), loss_function=None if c['loss'] == 'huber' else VL.mse, regularizer=reg)
    pts = np.array(list(itertools.product((-1.5, .3, 1.), repeat=2)), np.float32)

    def z(x):
        u = (np.asarray(x, float) + 2) / 4
        return np.log(u) - np.log1p(-u)
    rows = [(s, a, t) for s in range(9) for a in range(NA) for t in range(9)]
    for k in range(6):
        table = np.zeros((NA, 2, 3))
        table[..., :2] = np.array([((3 * i + 2 * k) % 5) / 2. - 1 for i in range(NA * 4)]).reshape(NA, 2, 2)
        table[..., 2] = -18.
        T.setp(m, table)
        sub = rows if k % 2 else rows[k::7]
        S, A, Y = (np.array(x) for x in zip(*sub))
        w = W_all(len(sub), k)
        wc = np.clip(w, .1, 10.)
        b = T.batch(pts[S], A, None, np.full(len(sub), 9.), np.full(len(sub), .9), pts[Y], A, None, W=w)

        def ref(t):
            mu = jnp.einsum('bd,bdk->bk', jnp.asarray(z(pts[S]), jnp.float32), t[A][..., :2])
            bare = mean_loss(z(pts[Y]), mu, wc, c['loss'])
            ent = jnp.sum(.5 * (jnp.log(2 * jnp.pi) + 1 + t[A][..., 2]), axis=-1)
            return bare - beta * jnp.mean(wc * ent), bare
        (want, bare), g = jax.value_and_grad(ref, has_aux=True)(jnp.asarray(table, jnp.float32))
        mt = up.update(b)
        expect_close(f'{c} bare loss', mt['ModelUpdater/loss_bare'], bare, 1e-3)
        expect_close(f'{c} loss', mt['ModelUpdater/loss'], want, 1e-3)
        expect_close(f'{c} parameters', T.getp(m), table - .5 * np.asarray(g), 1e-3)
        st.transitions += len(sub)
        st.states += 1
        st.outcome((repr(c), k))
    st.traces += 1


C29 = [FuncSystem('successor-state-q', succ_cases, succ, 'transition model x reward function x value function (deterministic / stochastic, type 1 / 2, with and without value transform); every successor function on 3 states x 2 actions; gamma in {0, .9, 1}'),
       FuncSystem('successor-state-q-modes', mode_cases, succ_mode, 'as above for functions whose output depends on their function state and on the evaluation mode; every subset of the three functions'),
       FuncSystem('type-errors', lambda tier: iter([0]), succ_bad, 'wrong kinds of function'),
       FuncSystem('reward-function-arguments', args_cases, srf_args, 'value_range x num_bins x value_transform x type x preprocessor'),
       FuncSystem('deterministic-updates', upd_cases, updates, 'model kind x type x loss x optimizer x transform, 3 tables x 4 consecutive updates on batches over every (s, a, outcome)'),
       FuncSystem('stochastic-updates', supd_cases, supdates, 'stochastic model kind x type x loss x regularizer x transform; every peaked distribution')]

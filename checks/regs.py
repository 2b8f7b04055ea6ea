"""Regularizers (C30): entropy, KL and n-step entropy against their formulas."""
import itertools
import warnings

import jax
import jax.numpy as jnp
import numpy as np

import coax
from mc.core import check, FuncSystem
from mc.util import expect_close, expect_raises
from checks import tabular as T
from checks.models import env as menv, tmodel, rmodel, VR, K, NS, NA
from checks.pg import ref_entropy, ref_kl, rows_of

warnings.filterwarnings('ignore')
RG = coax.regularizers
BETAS = (.001, .3, 2., 0.)


def tables(cfg):
    return np.stack(rows_of(cfg))


def params_of(cfg, t):
    t = jnp.asarray(t, jnp.float32)
    return {'logits': t} if cfg['dist'] == 'cat' else {'mu': t[..., 0], 'logvar': t[..., 1]}


def policy(cfg, nS, mode=None):
    return T.Pi(T.env_d(nS, cfg['n']), mode=mode) if cfg['dist'] == 'cat' else T.PiBox(T.env_b(nS, dim=cfg['n']), mode=mode)


def shifted(cfg, t, o):
    """the distribution parameters of a policy with offset o (see tabular._mode)"""
    return t + o * (np.arange(cfg['n']) if cfg['dist'] == 'cat' else np.array([1., 0.]))


def priors(cfg):
    if cfg['dist'] == 'cat':
        out = [np.array(p) for p in itertools.product((-1., 0., 1.5), repeat=cfg['n'])]
    else:
        out = [np.array(p) for p in itertools.product([(0., 0.), (.5, -.4), (-1., .8)], repeat=cfg['n'])]
    return [None] + out


def fn_cases(tier):
    for dist, n in (('cat', 2), ('cat', 3), ('normal', 1), ('normal', 2)):
        for reg in ('entropy', 'kl'):
            for mode in (None, [.4, .7]):
                yield dict(dist=dist, n=n, reg=reg, mode=mode)


def metric(m, what):
    ks = [k for k in m if k.endswith('/' + what)]
    check(len(ks) == 1, 'no metric %s in %s', what, list(m))
    return m[ks[0]]


def functions(c, st):
    """function / metrics_func / batch_eval of the entropy and KL regularizers on every row of the parameter table"""
    t = tables(c)
    nS = len(t)
    pi = policy(c, nS, c['mode'])
    T.setp(pi, t)
    te = shifted(c, t, c['mode'][0] if c['mode'] else 0.)      # evaluated in inference mode, with the given function state
    He = np.asarray(ref_entropy(c, te))
    tr = T.batch(np.arange(nS), np.zeros(nS, int) if c['dist'] == 'cat' else np.zeros((nS, c['n']), np.float32), None, np.zeros(nS), np.zeros(nS), np.arange(nS), np.zeros(nS, int), None)
    H = np.asarray(ref_entropy(c, t))
    for prior in ([None] if c['reg'] == 'entropy' else priors(c)):
        if c['reg'] == 'entropy':
            reg = RG.EntropyRegularizer(pi)
            want, name, wante = -H, 'entropy', -He
        else:
            pp = np.zeros_like(t[0]) if prior is None else prior
            reg = RG.KLDivRegularizer(pi) if prior is None else RG.KLDivRegularizer(pi, priors=params_of(c, pp[None]))
            want, name = np.asarray(ref_kl(c, t, pp)), 'kl_div'
            wante = np.asarray(ref_kl(c, te, pp))
            check((want > -1e-4).all(), 'harness: negative KL')
        check(abs(reg.beta - .001) < 1e-12, 'default beta is %s', reg.beta)
        for beta in BETAS:
            reg.beta = beta
            hp = reg.hyperparams
            check(hp['beta'] == beta, 'hyperparams do not follow beta')
            got = reg.function(params_of(c, t), **hp)
            expect_close(f'{c} prior={prior} beta={beta} regularization term', got, beta * want, 2e-4)
            m = reg.metrics_func(params_of(c, t), **hp)
            expect_close(f'{c} {name} metric', metric(m, name), np.mean(np.abs(want) if name == 'kl_div' else H), 2e-4)
            expect_close(f'{c} beta metric', metric(m, 'beta'), beta)
            g2, m2 = reg.batch_eval(pi.params, hp, pi.function_state, pi.rng, tr)
            expect_close(f'{c} batch_eval', g2, beta * wante, 2e-4)
            expect_close(f'{c} batch_eval metric', metric(m2, name), np.mean(np.abs(wante) if name == 'kl_div' else He), 2e-4)
            st.transitions += 2 * nS
        st.states += 1
        st.outcome((repr(c), str(prior)))
    # sign: adding the term to a loss rewards entropy / punishes divergence
    st.traces += 1


def f_cases(tier):
    kinds = ['StochasticV', 'StochasticQ1', 'StochasticQ2', 'StochasticTransitionModel1', 'StochasticTransitionModel2', 'StochasticRewardFunction1', 'StochasticRewardFunction2']
    return iter([[k, m] for k in kinds for m in (None, [.4, .7])])


def other_functions(case, st):
    """batch_eval evaluates the regularized function on the states (and actions) of the batch"""
    e = menv()
    kind, mode = case
    off = mode[0] if mode else 0.
    typ = int(kind[-1]) if kind[-1] in '12' else None
    if kind == 'StochasticV':
        f, k, sh = T.SV(e, VR, K, mode=mode), K, (NS, K)
    elif kind.startswith('StochasticQ'):
        f, k, sh = (T.SQ1 if typ == 1 else T.SQ2)(e, VR, K, mode=mode), K, (NS, NA, K)
    elif kind.startswith('StochasticT'):
        f, k, sh = tmodel(e, typ, 1, mode=mode), NS, (NS, NA, NS)
    else:
        f, k, sh = rmodel(e, typ, 1, mode=mode), K, (NS, NA, K)
    cfg = dict(dist='cat', n=k)
    SA = np.array(list(itertools.product(range(NS), range(NA))))
    for shift in range(4):
        t = np.array([((3 * i + i * i * shift) % 7) / 2. - 1 for i in range(int(np.prod(sh)))]).reshape(sh)
        T.setp(f, t)
        for sub in (SA, SA[::-1], SA[1:2], SA[[0, 0, 3, 5]]):
            S, A = sub[:, 0], sub[:, 1]
            B = len(S)
            tr = T.batch(S, A, None, np.zeros(B), np.zeros(B), (S + 1) % NS, (A + 1) % NA, None)
            lg = (t[S] if t.ndim == 2 else t[S, A]) + off * np.arange(k)
            for reg, want in ((RG.EntropyRegularizer(f, beta=.3), -.3 * np.asarray(ref_entropy(cfg, lg))), (RG.KLDivRegularizer(f, beta=.3), .3 * np.asarray(ref_kl(cfg, lg, np.zeros(k))))):
                got, _ = reg.batch_eval(f.params, reg.hyperparams, f.function_state, f.rng, tr)
                expect_close(f'{kind} {type(reg).__name__}.batch_eval', got, want, 2e-4)
            st.transitions += 2 * B
        st.states += 1
        st.outcome((kind, bool(mode), shift))
    st.traces += 1


# ---------------------------------------------------------------- n-step entropy

H = 4     # n + 1: the number of recorded steps


def n_cases(tier):
    ns = [list(p) for k in (1, 2, 3, 4) for p in itertools.permutations(range(H), k)]
    for dist, dim in (('cat', 2), ('cat', 3), ('normal', 1), ('normal', 2)):
        for n in ns:
            if tier == 'quick' and (dist, dim) != ('cat', 3) and n != sorted(n) and (sum(n) + len(n)) % 2:
                continue
            yield dict(dist=dist, n=dim, steps=n, deep=int(tier != 'quick' or len(n) == 2), state=[0, .6][(n[0] + len(n)) % 2])


def nstep(c, st):
    """H[pi(.|s_{t+k})] discounted by gamma^k, over the requested k whose state lies within the episode"""
    cfg = dict(dist=c['dist'], n=c['n'])
    t = tables(cfg)
    nS = len(t)
    pi = policy(cfg, nS, [c['state'], 0.] if c['state'] else None)
    T.setp(pi, t)
    ent = np.asarray(ref_entropy(cfg, shifted(cfg, t, c['state'])))
    # the tracer's records: T steps left in the episode, T = 1 .. H (T > H means the episode goes on)
    rows = [(left, [(3 * k * (j + 1) + left + j) % nS for k in range(H)]) for left in range(1, H + 2) for j in range(4)]
    B = len(rows)
    states = [[r[1][min(k, r[0] - 1)] for k in range(H)] for r in rows]      # the last state is repeated
    # the mask filters everything after the first done signal, whether or not the signal is repeated
    dones = [[k == r[0] - 1 if i % 4 == 3 else k >= r[0] - 1 for k in range(H)] for i, r in enumerate(rows)]
    for i in range(3, len(rows), 4):
        states[i] = rows[i][1]                                               # whatever is recorded after the end
    col = lambda x, k: np.array([y[k] for y in x])  # noqa: E731
    act = np.zeros(B, int) if c['dist'] == 'cat' else np.zeros((B, c['n']), np.float32)
    for sel in (list(range(B)), list(range(B))[::-3], [2])[:3 if c['deep'] else 1]:
        S = [states[i] for i in sel]
        D = [dones[i] for i in sel]
        tr = T.batch(col(S, 0), act[:len(sel)], None, np.zeros(len(sel)), np.zeros(len(sel)), col(S, 0), act[:len(sel)], None,
                     extra_info={'states': tuple(col(S, k) for k in range(H)), 'dones': tuple(col(D, k) for k in range(H))})
        for gamma in (.9, .5, 1.)[:1 if not c['deep'] or len(sel) < B else 3]:
            for as_type in (list, tuple, jnp.array)[:3 if c['deep'] and len(sel) == B else 1]:
                reg = RG.NStepEntropyRegularizer(pi, n=as_type(c['steps']), beta=.3, gamma=gamma)
                if gamma != .9 and as_type is not list:
                    continue
                for beta in (.3, 2.):
                    reg.beta = beta
                    want = np.array([-beta * sum(gamma ** k * ent[S[i][k]] for k in c['steps'] if k < rows[sel[i]][0]) for i in range(len(sel))])
                    got, m = reg.batch_eval(pi.params, reg.hyperparams, pi.function_state, pi.rng, tr)
                    expect_close(f'{c} gamma={gamma} beta={beta}, steps left in the episode {[rows[i][0] for i in sel]}', got, want, 3e-4)
                    check(np.isfinite(np.asarray(metric(m, 'entropy'))).all(), '%s: entropy metric is %s', c, metric(m, 'entropy'))
                    st.transitions += len(sel)
        st.states += 1
    st.outcome(repr(c))
    st.traces += 1


def tracer_cases(tier):
    for n in (1, 2, 3):
        for T_ in range(1, 6):
            yield [n, T_]


def tracer(case, st):
    """end to end: NStep tracer with extra_info -> regularizer, for every episode length"""
    n, T_ = case
    cfg = dict(dist='cat', n=2)
    t = tables(cfg)
    nS = len(t)
    pi = policy(cfg, nS)
    T.setp(pi, t)
    ent = np.asarray(ref_entropy(cfg, t))
    for truncated_view in (False, True):
        tr = coax.reward_tracing.NStep(n=n, gamma=.9, record_extra_info=True)
        ep = [(2 * k + T_) % nS for k in range(T_)]
        got = []
        for rep in range(2):
            for k, s in enumerate(ep):
                tr.add(s, k % 2, 1., k == T_ - 1)
                while tr:
                    got.append(tr.pop())
        check(len(got) == 2 * T_, 'tracer returned %s transitions', len(got))
        for steps in itertools.chain(*(itertools.combinations(range(n + 1), k) for k in range(1, n + 2))):
            reg = RG.NStepEntropyRegularizer(pi, n=list(steps), beta=1., gamma=.9)
            for i, b in enumerate(got):
                i %= T_
                want = -sum(.9 ** k * ent[ep[i + k]] for k in steps if i + k < T_)
                val, _ = reg.batch_eval(pi.params, reg.hyperparams, pi.function_state, pi.rng, b)
                expect_close(f'{n}-step tracer, episode of {T_}, transition {i}, n={steps}', val, [want], 3e-4)
                st.transitions += 1
        st.states += 1
    st.outcome(tuple(case))
    st.traces += 1


def bad(case, st):
    pi = T.Pi(T.env_d(2, 2))
    v = T.V(T.env_d(2, 2))
    for cls in (RG.EntropyRegularizer, RG.KLDivRegularizer):
        expect_raises(f'{cls.__name__} of a deterministic function', TypeError, lambda: cls(v))
    expect_raises('n-step entropy without n', (TypeError, ValueError), lambda: RG.NStepEntropyRegularizer(pi, n=[]))
    expect_raises('n-step entropy with an int', TypeError, lambda: RG.NStepEntropyRegularizer(pi, n=2))
    reg = RG.NStepEntropyRegularizer(pi, n=[0, 1])
    b = T.batch([0], [0], None, [0.], [0.], [1], [0], None)
    expect_raises('n-step entropy without extra_info', TypeError, lambda: reg.batch_eval(pi.params, reg.hyperparams, pi.function_state, pi.rng, b))
    st.states += 1
    st.outcome(1)


C30 = [FuncSystem('terms', fn_cases, functions, 'distribution x regularizer; all table rows over a 2-3 letter alphabet, 9-27 priors, 4 betas'),
       FuncSystem('other-functions', f_cases, other_functions, '7 kinds of stochastic function, 4 tables x 4 batches'),
       FuncSystem('n-step-entropy', n_cases, nstep, 'all ordered selections of steps out of 4, all positions of the episode end, 3 discounts, 2 betas, 4 distributions'),
       FuncSystem('tracer-to-regularizer', tracer_cases, tracer, 'n in 1..3, episode length 1..5, all subsets of steps'),
       FuncSystem('errors', lambda tier: iter([0]), bad, 'bad arguments')]

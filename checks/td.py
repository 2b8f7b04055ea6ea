"""TD learners on tabular functions: targets (C16) and updates (C17)."""
import itertools
import warnings

import jax
import numpy as np
import optax

import coax
from mc.core import check, FuncSystem
from mc.util import expect_close, expect_raises
from checks import tabular as T

warnings.filterwarnings('ignore')
L = coax.td_learning
VL = coax.value_losses
ALPHA = (-1., 0., 2.)
RI = [(-1., 0.), (.5, .9), (0., 1.), (3., .5)]
BQ, BT, BP, BR, D = .25, (-.5, .75, 1.5), (.3, -.4, .6), -.35, 5.   # function states and the effect of the training mode (cfg 'mode')
PSI = {'mse': lambda e: e, 'huber': lambda e: np.clip(e, -1, 1)}
LOSS = {'mse': lambda e: .5 * e * e, 'huber': lambda e: np.where(np.abs(e) <= 1, .5 * e * e, np.abs(e) - .5)}


def hull(picks, q):
    """all values q may take on the picked (tied) actions, as an interval"""
    lo = np.where(picks, q, np.inf).min(-1)
    hi = np.where(picks, q, -np.inf).max(-1)
    return lo, hi


def greedy(q):
    return q >= q.max(-1, keepdims=True) - 1e-9


def ident(x):
    return np.asarray(x, float)


class Setup:
    """One learner together with its functions and the reference for its target."""

    def __init__(self, cfg, optimizer=None):
        self.cfg = cfg
        algo, typ, nA = cfg['algo'], cfg.get('type', 2), cfg.get('nA', 2)
        self.algo, self.typ, self.nA = algo, typ, nA
        self.box = typ == 'box'
        self.shared = cfg.get('shared', False)     # no separate target network
        loss = cfg.get('loss', 'mse')
        self.loss = loss
        tf = coax.value_transforms.LogTransform() if cfg.get('log') else None
        # value transforms of the updated function and of its targets (mixed: only one of the two has one)
        mixed = cfg.get('mixed')
        tft = coax.value_transforms.LogTransform() if mixed == 'targ' or (tf and mixed != 'own') else None
        self.f = T.signlog if tf else ident
        self.finv = T.signexp if tft else ident
        self.finv_own = T.signexp if tf else ident
        counting = cfg.get('counting', False)
        # functions whose output depends on their state and on whether they are evaluated in training mode
        self.mode = cfg.get('mode', False)
        modes = (lambda b: dict(mode=(b, D))) if self.mode else (lambda b: {})
        kw, kwt = dict(value_transform=tf), dict(value_transform=tft)
        self.reg = self.regpi = None
        lkw = dict(optimizer=optimizer, loss_function={'mse': VL.mse, 'huber': VL.huber}[loss])
        if loss == 'huber':
            lkw['loss_function'] = None   # the documented default
        self.build_tables(cfg)
        nS = self.nS
        self.pis = []
        if algo == 'SimpleTD':
            env = T.env_d(nS, 2)
            mk = lambda c, b, kw=kw: T.V(env, counting=c, **modes(b), **kw)  # noqa: E731
        elif self.box:
            env = T.env_b(nS)
            self.pis = [T.PiBox(env, **modes(BP[k])) for k in range(cfg.get('npi', 1))]
            self.dist = self.pis[0].proba_dist
            mk = lambda c, b, kw=kw: T.Qbox(env, self.dist, counting=c, **modes(b), **kw)  # noqa: E731
        else:
            env = T.env_d(nS, nA)
            mk = lambda c, b, kw=kw: (T.Q2 if typ == 2 else T.Q1)(env, counting=c, **modes(b), **kw)  # noqa: E731
            if algo == 'ExpectedSarsa':
                self.piq = None
                kind = cfg.get('pi', 'table')
                if kind == 'table':
                    self.pis = [T.Pi(env, **modes(BP[0]))]
                else:   # a policy derived from a q-function
                    self.piq = T.Q2(env, **modes(BP[0]))
                    self.pis = [coax.EpsilonGreedy(self.piq, epsilon=.5) if kind == 'epsilon' else coax.BoltzmannPolicy(self.piq, temperature=.5)]
        if cfg.get('reg'):
            self.regpi = T.Pi(T.env_d(nS, 2), **modes(BR)) if not self.box else T.PiBox(env, **modes(BR))
            lkw['policy_regularizer'] = coax.regularizers.EntropyRegularizer(self.regpi, beta=cfg['reg'])
        self.env = env
        self.q = mk(counting, BQ)
        multi = algo in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning')
        if multi:
            self.targs = [mk(counting, BT[k], kwt) for k in range(cfg.get('nq', 2))]
            self.learner = getattr(L, algo)(self.q, q_targ_list=self.targs, pi_targ_list=self.pis or None, **lkw)
        else:
            self.targs = [] if self.shared else [mk(counting, BT[0], kwt)]
            t = None if self.shared else self.targs[0]
            if algo == 'SoftQLearning':
                lkw['temperature'] = cfg.get('tau', 1.)
            if algo == 'SimpleTD':
                self.learner = L.SimpleTD(self.q, v_targ=t, **lkw)
            elif algo in ('Sarsa', 'SoftQLearning'):
                self.learner = getattr(L, algo)(self.q, q_targ=t, **lkw)
            else:
                self.learner = getattr(L, algo)(self.q, pi_targ=self.pis[0] if self.pis else None, q_targ=t, **lkw)

    def build_tables(self, cfg):
        """tables such that the states range over the full product of the rows of all tables"""
        algo, nA = self.algo, self.nA
        small = cfg.get('small', False)
        ALPHA = (-1., 2.) if small else globals()['ALPHA']
        if algo == 'SimpleTD':
            r = [[(x,) for x in ALPHA]] * 2
        elif self.box:
            coef = [(0., 1., 0.), (1., -1., .5), (-1., .5, -1.), (0., 0., 1.)][:2 if small else 4]
            mus = [(m, -20.) for m in ALPHA[:2 if small else 3]]
            r = [coef] * (1 + cfg.get('nq', 1)) + [mus] * cfg.get('npi', 1)
        else:
            rows = list(itertools.product(ALPHA, repeat=nA))
            # q itself only matters to the target in double q-learning or when it is its own target
            r = [rows] * ((1 if 'Clipped' in algo else 2) if not self.shared else 1) + [rows] * ((cfg.get('nq', 2)) if 'Clipped' in algo else (1 if algo == 'ExpectedSarsa' else 0))
        self.prod = list(itertools.product(*r))
        if cfg.get('reg'):
            self.prod = self.prod[:16]
        self.nS = len(self.prod)

    def load(self, perm):
        """distribute the product of rows over the states (perm permutes the states)"""
        prod = [self.prod[i] for i in perm]
        col = lambda k: np.array([p[k] for p in prod], float)  # noqa: E731
        own = np.array([[((3 * s + 2 * a) % 5) - 2. for a in range(3 if self.box else self.nA)] for s in perm])
        if self.algo == 'SimpleTD':
            self.tq, self.tt = col(0)[:, 0], [col(1)[:, 0]]
            if self.shared:
                self.tt = [self.tq]
        elif self.box:
            nq, npi = self.cfg.get('nq', 1), self.cfg.get('npi', 1)
            self.tq, self.tt = col(0), [col(1 + i) for i in range(nq)]
            self.tpi = [col(1 + nq + i) for i in range(npi)]
            if self.shared:
                self.tt = [self.tq]
            for pi, t in zip(self.pis, self.tpi):
                T.setp(pi, t[:, None, :])
        else:
            k = 0
            if 'Clipped' in self.algo:
                self.tq = own
            else:
                self.tq, k = col(0), 1
            if self.shared:
                self.tt = [self.tq]
            else:
                n = self.cfg.get('nq', 2) if 'Clipped' in self.algo else 1
                self.tt = [col(k + i) for i in range(n)]
                k += n
            if self.algo == 'ExpectedSarsa':
                self.tpi = [col(k)]
                if cfg_scale := self.cfg.get('scale'):
                    self.tpi[0] = self.tpi[0] * cfg_scale
                T.setp(self.piq or self.pis[0], self.tpi[0])
        T.setp(self.q, self.tq)
        for q, t in zip(self.targs, self.tt):
            T.setp(q, t)
        if self.regpi is not None:
            if self.box:
                lv = np.linspace(-2, 2, self.nS)
                T.setp(self.regpi, np.stack([0 * lv, lv], -1)[:, None, :])
                self.ent = .5 * (np.log(2 * np.pi) + lv + 1)
            else:
                t = np.array([[s % 3 - 1., (s // 3) % 3 - 1.] for s in range(self.nS)])
                T.setp(self.regpi, t)
                p = T.softmax(t + self.mode * BR * np.arange(2))
                self.ent = -(p * np.log(p)).sum(-1)

    def batch(self, W=None, subset=None):
        nS, nA = self.nS, self.nA
        rows = []
        acts = [-1., 0.5] if self.box else (range(nA) if self.algo == 'Sarsa' else range(1))
        n = 0
        for s2 in range(nS):
            for r, i in RI:
                for a2 in acts:
                    s = (5 * s2 + 3 + n) % nS
                    a = [-1.5, 0., 1.][n % 3] if self.box else n % nA
                    rows.append((s, a, r, i, s2, a2))
                    n += 1
        if subset is not None:
            rows = [rows[k % len(rows)] for k in subset]
        self.rows = rows
        S, A, R, I, S2, A2 = (np.array(x) for x in zip(*rows))
        if self.box:
            A, A2 = A.astype(np.float32)[:, None], A2.astype(np.float32)[:, None]
        self.S, self.A, self.R, self.I, self.S2, self.A2 = S, A, R, I, S2, A2
        return T.batch(S, A, None, R, I, S2, A2, None, W=W)

    # ---- reference: tables as seen in training mode (current value) and in inference mode (anything else)

    def eff(self, t, b, training=False):
        if not self.mode:
            return t
        o, t = b + training * D, np.array(t, float)
        if self.box:
            t[:, 0] += o
            return t
        return t + o

    @property
    def tqT(self):
        return self.eff(self.tq, BQ, True)

    @property
    def tqI(self):
        return self.eff(self.tq, BQ)

    @property
    def ttI(self):
        return [self.tqI] if self.shared else [self.eff(t, b) for t, b in zip(self.tt, BT)]

    def pi_probs(self, s2):
        t = self.tpi[0][s2] + self.mode * BP[0] * (np.arange(self.nA) if self.piq is None else 1.)
        kind = self.cfg.get('pi', 'table')
        if kind == 'epsilon':
            g = greedy(t)
            return .5 * g / g.sum(-1, keepdims=True) + .5 / self.nA
        return T.softmax(t / (.5 if kind == 'boltzmann' else 1.))

    def z(self, a):
        u = (np.asarray(a, float)[:, 0] + 2.) / 4.
        return np.log(u) - np.log1p(-u)

    def qbox(self, table, s, z):
        c = table[s]
        return c[:, 0] + c[:, 1] * z + c[:, 2] * z * z

    def current(self):
        if self.algo == 'SimpleTD':
            return self.tqT[self.S]
        if self.box:
            return self.qbox(self.tqT, self.S, self.z(self.A))
        return self.tqT[self.S, self.A]

    def target(self):
        """interval [lo, hi] of documented targets per row (a point unless there are ties)"""
        s2, algo = self.S2, self.algo
        if algo == 'SimpleTD':
            lo = hi = self.finv(self.ttI[0][s2])
        elif algo == 'Sarsa':
            lo = hi = self.finv(self.qbox(self.ttI[0], s2, self.z(self.A2)) if self.box else self.ttI[0][s2, self.A2])
        elif self.box:
            vals = []
            for t in ([self.tqI] if algo == 'DoubleQLearning' else self.ttI):
                for p in [self.eff(p, b) for p, b in zip(self.tpi, BP)]:
                    vals.append((self.finv_own if algo == 'DoubleQLearning' else self.finv)(self.qbox(t, s2, p[s2, 0])))
            lo = hi = np.min(vals, axis=0)
        elif algo == 'ExpectedSarsa':
            p = self.pi_probs(s2)
            lo = hi = self.finv((p * self.ttI[0][s2]).sum(-1))
        elif algo == 'QLearning':
            lo = hi = self.finv(self.ttI[0][s2].max(-1))
        elif algo == 'DoubleQLearning':
            lo, hi = (self.finv_own(x) for x in hull(greedy(self.ttI[0][s2]), self.tqI[s2]))
        elif algo == 'SoftQLearning':
            tau = self.cfg.get('tau', 1.)
            lo = hi = self.finv(tau * T.lse(self.ttI[0][s2] / tau))
        else:
            los, his = zip(*(hull(greedy(ti[s2]), tj[s2]) for ti in self.ttI for tj in self.ttI))
            lo, hi = self.finv(np.min(los, axis=0)), self.finv(np.min(his, axis=0))
        lo, hi = self.f(self.R + self.I * lo), self.f(self.R + self.I * hi)
        if self.regpi is not None:
            b = self.cfg['reg'] * self.ent[self.S]
            lo, hi = lo + b, hi + b
        return lo, hi

    def psi(self, e):
        return PSI[self.loss](e)

    def tol(self):
        return 2e-3 if self.algo == 'SoftClippedDoubleQLearning' and self.box else 3e-5


def verify_errors(su, got, what):
    got = np.asarray(got, float)
    cur = su.current()
    lo, hi = su.target()
    elo, ehi = su.psi(lo - cur), su.psi(hi - cur)
    check(got.shape == elo.shape, '%s: shape %s', what, got.shape)
    t = su.tol() * (1 + np.abs(elo) + np.abs(cur))
    bad = ~((got >= elo - t) & (got <= ehi + t))
    if bad.any():
        k = int(np.argmax(bad))
        s, a, r, i, s2, a2 = su.rows[k]
        tabs = dict(q=su.tq[s2].tolist(), targ=[t_[s2].tolist() for t_ in su.tt], pi=[p[s2].tolist() for p in getattr(su, 'tpi', [])])
        check(False, '%s %s: td-error %r for transition (s=%s a=%s R=%s I=%s s\'=%s a\'=%s), expected in [%r, %r]; value of (s,a) is %r, values at s\': %s',
              su.algo, what, float(got[k]), s, a, r, i, s2, a2, float(elo[k]), float(ehi[k]), float(cur[k]), tabs)


def target_cfgs(tier):
    out = []

    def add(**k):
        out.append(k)
    for loss in ('mse', 'huber'):
        for shared in (False, True):
            add(algo='SimpleTD', loss=loss, shared=shared)
    add(algo='SimpleTD', log=1)
    add(algo='SimpleTD', reg=.7)
    for typ in (1, 2):
        for algo in ('Sarsa', 'ExpectedSarsa', 'QLearning', 'DoubleQLearning', 'SoftQLearning'):
            add(algo=algo, type=typ)
            add(algo=algo, type=typ, shared=True, loss='huber')
            add(algo=algo, type=typ, reg=.7)
            if algo in ('ExpectedSarsa', 'SoftQLearning'):
                add(algo=algo, type=typ, log=1, nA=1)   # with one action there is nothing to average
            else:
                add(algo=algo, type=typ, log=1)
            if tier != 'quick' or typ == 2:
                add(algo=algo, type=typ, nA=3, small=tier == 'quick' or algo == 'ExpectedSarsa')
        for tau in (.1, .5, 4., 30.):
            add(algo='SoftQLearning', type=typ, tau=tau)
        for algo in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
            add(algo=algo, type=typ)
            add(algo=algo, type=typ, nq=3, small=True)
            add(algo=algo, type=typ, log=1)
            add(algo=algo, type=typ, reg=.7, loss='huber')
            if tier != 'quick':
                add(algo=algo, type=typ, nq=3)
                add(algo=algo, type=typ, nA=3)
    for algo in ('Sarsa', 'QLearning', 'DoubleQLearning'):
        add(algo=algo, type='box')
        add(algo=algo, type='box', log=1)
        add(algo=algo, type='box', shared=True, loss='huber')
        add(algo=algo, type='box', reg=.7)
    for algo in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
        for nq, npi in ((2, 1), (1, 2), (2, 2), (3, 2)):
            add(algo=algo, type='box', nq=nq, npi=npi, small=nq * npi > 2)
        add(algo=algo, type='box', nq=2, npi=1, log=1)
    for typ in (1, 2):
        for algo in ('Sarsa', 'ExpectedSarsa', 'QLearning', 'DoubleQLearning', 'SoftQLearning', 'ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
            add(algo=algo, type=typ, mode=True, reg=.7 if typ == 1 else 0)
        for pi in ('epsilon', 'boltzmann'):
            add(algo='ExpectedSarsa', type=typ, pi=pi, mode=typ == 2)
        add(algo='ExpectedSarsa', type=typ, scale=15.)
        add(algo='QLearning', type=typ, mode=True, shared=True)
    add(algo='SimpleTD', mode=True)
    add(algo='SimpleTD', mode=True, shared=True, reg=.7)
    for algo in ('Sarsa', 'QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
        add(algo=algo, type='box', mode=True, small=True, **(dict(nq=2, npi=2) if 'Clipped' in algo else {}))
    for mixed in ('own', 'targ'):   # only one of the updated function and its target uses a value transform
        for algo in ('SimpleTD', 'Sarsa', 'QLearning', 'DoubleQLearning', 'ExpectedSarsa', 'SoftQLearning', 'ClippedDoubleQLearning',
                     'SoftClippedDoubleQLearning'):
            k = dict(algo=algo, mixed=mixed, log=int(mixed == 'own'), small=True)
            add(**k, **(dict(nA=1) if algo in ('ExpectedSarsa', 'SoftQLearning') else {}))
            if algo in ('Sarsa', 'QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
                add(**k, type='box', **(dict(nq=2) if 'Clipped' in algo else {}))
    return out


def target_cases(tier):
    return iter(target_cfgs(tier))


def targets(cfg, st):
    su = Setup(cfg)
    n = su.nS
    for no, perm in enumerate((list(range(n)), [(7 * k + 1) % n for k in range(n)] if n % 7 else list(reversed(range(n))))):
        su.load(perm)
        b = su.batch()
        verify_errors(su, su.learner.td_error(b), 'td_error')
        st.states += n
        st.transitions += len(su.rows)
        st.outcome((repr(cfg), no))
        st.sample({'config': cfg, 'rows': len(su.rows)}, 4)
    # one row at a time and in odd batch sizes, with weights: a row's error depends on that row only
    for size in (1, 3):
        k = 0
        for start in range(0, min(4 * n, 24)):
            sub = [start * 11 + j * 5 for j in range(size)]
            b = su.batch(W=[(.05, 1., 30.)[(start + j) % 3] for j in range(size)], subset=sub)
            verify_errors(su, su.learner.td_error(b), f'td_error of a batch of {size}')
            st.transitions += size
            k += 1
    st.traces += 1


# ---------------------------------------------------------------- updates

WEIGHTS = [.01, .1, .5, 1., 3., 10., 100.]


def update_cfgs(tier):
    base = [dict(algo='SimpleTD'), dict(algo='SimpleTD', shared=True)]
    for typ in (1, 2):
        base += [dict(algo='Sarsa', type=typ), dict(algo='ExpectedSarsa', type=typ), dict(algo='QLearning', type=typ, shared=True),
                 dict(algo='QLearning', type=typ), dict(algo='SoftQLearning', type=typ)]
    base += [dict(algo='ClippedDoubleQLearning', nq=2), dict(algo='SoftClippedDoubleQLearning', nq=2, type=1), dict(algo='DoubleQLearning'),
             dict(algo='QLearning', type='box'), dict(algo='ClippedDoubleQLearning', type='box', nq=2, npi=1)]
    out = []
    for k, b in enumerate(base):
        for j, opt in enumerate(('sgd', 'momentum', 'adam', 'decay')):
            for loss in ('mse', 'huber'):
                if tier == 'quick' and (k + j) % 3 and opt != 'sgd':
                    continue
                if tier == 'quick' and opt == 'sgd' and loss == 'huber' and k % 2:
                    continue
                out.append(dict(b, opt=opt, loss=loss, counting=(k + j) % 2 == 0, mode=(k + j) % 2 == 1))
    return out


def update_cases(tier):
    return iter(update_cfgs(tier))


class RefOpt:
    def __init__(self, kind):
        self.kind, self.m, self.v, self.t, self.lr = kind, 0., 0., 0, .5

    def step(self, g, p=None):
        self.t += 1
        if self.kind == 'decay':
            return -self.lr * (g + .1 * p)
        if self.kind == 'sgd':
            return -self.lr * g
        if self.kind == 'momentum':
            self.m = g + .9 * self.m
            return -self.lr * self.m
        self.m = .9 * self.m + .1 * g
        self.v = .999 * self.v + .001 * g * g
        return -1e-3 * (self.m / (1 - .9 ** self.t)) / (np.sqrt(self.v / (1 - .999 ** self.t)) + 1e-8)


def mkopt(kind, lr=.5):
    return {'sgd': optax.sgd(lr), 'momentum': optax.sgd(lr, momentum=.9), 'adam': None,
            'decay': optax.chain(optax.add_decayed_weights(.1), optax.sgd(lr))}[kind]


def ref_grad(su, W):
    """gradient of mean_i w_i loss(G_i, value_i) with the targets held fixed, w clipped to [0.1, 10]"""
    lo, hi = su.target()
    check(np.allclose(lo, hi), 'harness: ties in an update case')
    e = lo - su.current()
    w = np.clip(np.asarray(W, float), .1, 10.)
    B = len(su.rows)
    c = -w * su.psi(e) / B
    g = np.zeros(np.shape(su.tq))
    if su.algo == 'SimpleTD':
        np.add.at(g, su.S, c)
    elif su.box:
        z = su.z(su.A)
        for k in range(3):
            np.add.at(g[:, k], su.S, c * z ** k)
    else:
        np.add.at(g, (su.S, su.A), c)
    loss = float(np.mean(w * LOSS[su.loss](e)))
    return g, loss, e


def frozen(tree):
    return [np.array(x) for x in jax.tree_util.tree_leaves(tree)]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def untie(su):
    """perturb tables so that no ties remain (updates are compared with an exact gradient)"""
    def bump(t, k):
        t = np.array(t, float)
        return t + .01 * (k + 1) * np.arange(t.size).reshape(t.shape) % .37
    su.tq = bump(su.tq, 0)
    T.setp(su.q, su.tq)
    if su.shared:
        su.tt = [su.tq]
    else:
        su.tt = [bump(t, k + 1) for k, t in enumerate(su.tt)]
        for q, t in zip(su.targs, su.tt):
            T.setp(q, t)


def updates(cfg, st):
    su = Setup(dict(cfg, small=True), optimizer=mkopt(cfg['opt']))
    learner = su.learner
    name = cfg['algo']
    n = su.nS
    su.load(list(range(n)))
    untie(su)
    ref = RefOpt(cfg['opt'])
    sizes = [1, 5, len(RI) * n, 2]
    for step, size in enumerate(sizes):
        W = [WEIGHTS[(k * 3 + step) % len(WEIGHTS)] for k in range(size)]
        b = su.batch(W=W, subset=[(13 * k + 5 * step) for k in range(size)])
        others = [x for x in su.targs + su.pis if x is not su.q]
        keep = [frozen((x.params, x.function_state)) for x in others]
        keepb = frozen(b)
        count0 = frozen(su.q.function_state)
        p0, o0 = frozen(su.q.params), frozen(learner.optimizer_state)
        g, loss, e = ref_grad(su, W)
        # pure queries first
        err = learner.td_error(b)
        grads, fstate, metrics, err2 = learner.grads_and_metrics(b)
        check(same(frozen(su.q.params), p0) and same(frozen(learner.optimizer_state), o0) and same(frozen(su.q.function_state), count0),
              '%s: td_error or grads_and_metrics changed the learner', name)
        gl = jax.tree_util.tree_leaves(grads)
        check(len(gl) == 1, 'gradient structure')
        expect_close(f'{name}: gradient (batch of {size})', gl[0], g, 2 * su.tol())
        expect_close(f'{name}: td errors returned with the gradient', err2, err, 1e-5)
        expect_close(f'{name}: loss metric', metrics[f'{name}/loss'], loss, 2 * su.tol())
        expect_close(f'{name}: td_error metric', metrics[f'{name}/td_error'], np.mean(np.clip(W, .1, 10.) * su.psi(e)), 2 * su.tol())
        qt = [su.qbox(t, su.S, su.z(su.A)) if su.box else t[su.S] if name == 'SimpleTD' else t[su.S, su.A] for t in su.ttI]
        et = np.mean(np.clip(W, .1, 10.) * su.psi(su.current() - np.min(qt, axis=0)))
        mt, tt_ = float(metrics[f'{name}/td_error_targ']), 2 * su.tol() * (1 + abs(et))
        check(min(abs(mt - et), abs(mt - et / size)) <= tt_, '%s: td_error_targ metric is %s, expected %s (or that per row, %s)', name, mt, et, et / size)
        if step % 2:
            out = learner.update(b, return_td_error=True)
            check(isinstance(out, tuple) and len(out) == 2, 'update(return_td_error=True) returned %s', type(out))
            m, err3 = out
            expect_close(f'{name}: td errors returned by update', err3, err, 1e-5)
        else:
            m = learner.update(b)
        check(isinstance(m, dict), 'update returned %s', type(m))
        expect_close(f'{name}: loss reported by update', m[f'{name}/loss'], loss, 2 * su.tol())
        want = su.tq + ref.step(g, su.tq)
        expect_close(f'{name}: parameters after update {step} ({cfg["opt"]})', T.getp(su.q), want, 2e-3 if cfg['opt'] == 'adam' else 3 * su.tol())
        if cfg['opt'] == 'adam':   # adam normalises the gradient: compare the step itself where it is well conditioned
            ok = np.abs(g) > 1e-3
            d = (T.getp(su.q) - su.tq)[ok]
            expect_close(f'{name}: adam step {step}', d / 1e-3, (want - su.tq)[ok] / 1e-3, 2e-2)
        for x, k in zip(others, keep):
            check(same(frozen((x.params, x.function_state)), k), '%s: update changed a target function or policy', name)
        check(same(frozen(b), keepb), '%s: update changed the transition batch', name)
        if cfg['counting']:
            check(np.array_equal(frozen(su.q.function_state)[0], count0[0] + 1), '%s: function state went from %s to %s in one update', name, count0, frozen(su.q.function_state))
        su.tq = T.getp(su.q)
        if su.shared:
            su.tt = [su.tq]
        st.states += 1
        st.transitions += size
        st.outcome((repr(cfg), step))
    st.traces += 1
    # targets are read at the time of the update, not when the learner was made
    if su.targs:
        su.tt = [t[::-1].copy() for t in su.tt]
        for q, t in zip(su.targs, su.tt):
            T.setp(q, t)
        b = su.batch(W=None, subset=range(7))
        verify_errors(su, learner.td_error(b), 'after the target parameters changed')
    # nan gradients
    b = su.batch(W=[1., 1.], subset=[0, 3])
    b.Rn = np.array([np.nan, 1.], np.float32)
    p0, o0 = frozen((su.q.params, su.q.function_state)), frozen(learner.optimizer_state)
    expect_raises(f'{name}: update with nan gradient', RuntimeError, lambda: learner.update(b))
    check(same(frozen((su.q.params, su.q.function_state)), p0) and same(frozen(learner.optimizer_state), o0), '%s: an update refused because of nans changed the parameters', name)


def hyper_cases(tier):
    return iter(['SimpleTD', 'QLearning', 'ClippedDoubleQLearning'])


def hyper(case, st):
    """the optimizer can be replaced by one with the same kind of state, and only by such"""
    su = Setup(dict(algo=case, small=True), optimizer=optax.sgd(.5))
    su.load(list(range(su.nS)))
    untie(su)
    le = su.learner
    expect_raises('incompatible optimizer', AttributeError, lambda: setattr(le, 'optimizer', optax.adam(.1)))
    expect_raises('incompatible optimizer state', AttributeError, lambda: setattr(le, 'optimizer_state', {'a': 1}))
    for lr in (.25, .5, 0.):
        le.optimizer = optax.sgd(lr)
        b = su.batch(W=[1., 2., 1.], subset=[0, 1, 2])
        g, loss, e = ref_grad(su, [1., 2., 1.])
        le.update(b)
        expect_close(f'{case}: parameters with learning rate {lr}', T.getp(su.q), su.tq - lr * g, 5e-5)
        su.tq = T.getp(su.q)
        st.transitions += 1
    for loss in ('mse', 'huber'):
        grads, fs, m, err = le.grads_and_metrics(b)
        before = T.getp(su.q)
        le.optimizer = optax.sgd(1.)
        le.apply_grads(grads, fs)
        expect_close(f'{case}: apply_grads', T.getp(su.q), before - np.asarray(jax.tree_util.tree_leaves(grads)[0]), 5e-5)
    # exchanging the optimizer for one of another rate keeps its state
    su3 = Setup(dict(algo=case, small=True), optimizer=optax.sgd(.5, momentum=.9))
    su3.load(list(range(su3.nS)))
    untie(su3)
    le, m = su3.learner, 0.
    for lr in (.5, .25, 1.):
        le.optimizer = optax.sgd(lr, momentum=.9)
        b = su3.batch(W=[1., 2., 1.], subset=[0, 1, 2])
        g, loss, e = ref_grad(su3, [1., 2., 1.])
        m = g + .9 * m
        le.update(b)
        expect_close(f'{case}: parameters with momentum, after the learning rate was set to {lr}', T.getp(su3.q), su3.tq - lr * m, 5e-5)
        su3.tq = T.getp(su3.q)
        st.transitions += 1
    # momentum state can be saved and put back
    su2 = Setup(dict(algo=case, small=True), optimizer=optax.sgd(.5, momentum=.9))
    su2.load(list(range(su2.nS)))
    untie(su2)
    le = su2.learner
    b = su2.batch(W=None, subset=range(6))
    p0, o0 = su2.q.params, le.optimizer_state
    le.update(b)
    one = T.getp(su2.q)
    le.update(b)
    su2.q.params, le.optimizer_state = p0, o0
    le.update(b)
    expect_close(f'{case}: replay after restoring parameters and optimizer state', T.getp(su2.q), one, 1e-6)
    st.states += 6
    st.traces += 1
    st.outcome(case)


def bad_cases(tier):
    return iter(range(16))


def badargs(k, st):
    d, bx = T.env_d(2, 2), T.env_b(2)
    v, q, pi = T.V(d), T.Q2(d), T.Pi(d)
    pb = T.PiBox(bx)
    qb = T.Qbox(bx, pb.proba_dist)
    cases = [
        (TypeError, lambda: L.SimpleTD(q)), (TypeError, lambda: L.SimpleTD(v, v_targ=q)),
        (TypeError, lambda: L.QLearning(v)), (TypeError, lambda: L.QLearning(q, q_targ=v)),
        (TypeError, lambda: L.QLearning(q, pi_targ=q)), (TypeError, lambda: L.ExpectedSarsa(q, None)),
        (NotImplementedError, lambda: L.ExpectedSarsa(qb, pb)), (NotImplementedError, lambda: L.SoftQLearning(qb)),
        (TypeError, lambda: L.QLearning(qb)), (TypeError, lambda: L.DoubleQLearning(qb)),
        (TypeError, lambda: L.ClippedDoubleQLearning(qb, q_targ_list=[qb, qb])),
        (ValueError, lambda: L.ClippedDoubleQLearning(q, q_targ_list=[q])),
        (ValueError, lambda: L.ClippedDoubleQLearning(qb, q_targ_list=[qb], pi_targ_list=[pb])),
        (TypeError, lambda: L.ClippedDoubleQLearning(q, q_targ_list=q)),
        (TypeError, lambda: L.ClippedDoubleQLearning(q, q_targ_list=[q, v])),
        (TypeError, lambda: L.Sarsa(q, policy_regularizer=pi)),
    ]
    exc, fn = cases[k]
    expect_raises(f'case {k}', exc, fn)
    st.states += 1
    st.outcome(k)


# ---------------------------------------------------------------- distributional

def dist_cfgs(tier):
    out = [dict(algo='SimpleTD', log=lg, reg=rg, mode=bool(rg)) for lg in (0, 1) for rg in (0, .7) if not (lg and rg)]
    for fam in ('bins', 'quantiles'):
        for typ in (1, 2):
            for algo in ('Sarsa', 'ExpectedSarsa', 'QLearning', 'DoubleQLearning', 'ClippedDoubleQLearning'):
                out.append(dict(algo=algo, type=typ, fam=fam))
                if typ == 2 and algo not in ('ExpectedSarsa',):
                    out.append(dict(algo=algo, type=typ, fam=fam, log=1))
                if algo == 'QLearning':
                    out.append(dict(algo=algo, type=typ, fam=fam, shared=True))
                if algo == 'QLearning' or typ == 2:
                    out.append(dict(algo=algo, type=typ, fam=fam, reg=.7, mode=typ == 1))
                if typ == 1 or algo == 'QLearning':
                    out.append(dict(algo=algo, type=typ, fam=fam, mode=True))
            out.append(dict(algo='SoftClippedDoubleQLearning', type=typ, fam=fam, reg=.7 * (typ == 1), mode=typ == 2))
        out.append(dict(algo='ClippedDoubleQLearning', type=2, fam=fam, nq=3))
        for algo in ('Sarsa', 'QLearning', 'DoubleQLearning'):
            out.append(dict(algo=algo, type='box', fam=fam, mode=fam == 'bins'))
        for algo in ('ClippedDoubleQLearning', 'SoftClippedDoubleQLearning'):
            for nq, npi in ((2, 1), (1, 2), (2, 3)):
                if tier != 'quick' or algo[0] == 'C':
                    out.append(dict(algo=algo, type='box', fam=fam, nq=nq, npi=npi))
    return out


def dist_cases(tier):
    return iter(dist_cfgs(tier))


K = 5
RANGE = (-4., 4.)


def project(p, x, z):
    """distribute the mass p at points x linearly over the two neighbouring grid points z"""
    x = np.clip(x, z[0], z[-1])
    dz = z[1] - z[0]
    k = np.maximum(0., 1. - np.abs(x[..., :, None] - z) / dz)   # (B, K points, K atoms)
    return np.einsum('bk,bkj->bj', p, k)


def dist_targets(cfg, st):
    dist_learner(cfg, st, updating=False)


def dist_learner(cfg, st, updating=True):
    algo, fam, typ = cfg['algo'], cfg.get('fam', 'bins'), cfg.get('type', 2)
    tf = coax.value_transforms.LogTransform() if cfg.get('log') else None
    f, finv = (T.signlog, T.signexp) if tf else (ident, ident)
    nA = 2
    if fam == 'bins':
        lo, hi = float(f(RANGE[0])), float(f(RANGE[1]))
        z = lo + (np.arange(K) + .5) * (hi - lo) / K
        logit_rows = [r for r in itertools.product((0., 2., 5.), repeat=K) if sum(r) and (sum(r) % 3 or len(set(r)) == 3)]
        logit_rows = logit_rows[::11]
    else:
        z = None
        logit_rows = [r for r in itertools.product((-2., .3, 1.), repeat=3)][::2]
    kk = len(logit_rows[0])
    nS = 24
    box = typ == 'box'
    env = T.env_b(nS) if box else T.env_d(nS, nA)
    mode = cfg.get('mode', False)
    modes = (lambda b: dict(mode=(b, 1.))) if mode else (lambda b: {})
    pis = []
    if box:
        pis = [T.PiBox(env, **modes(BP[k])) for k in range(cfg.get('npi', 1))]
        mus = [np.array([((2 * s + 3 * k + s * k) % 5 - 2) / 2. + .07 * k + .05 * np.sin(7. * s + 3. * k) for s in range(nS)]) for k in range(len(pis))]
        for x, mu in zip(pis, mus):
            T.setp(x, np.stack([mu, 0 * mu - 20.], -1)[:, None, :])
        mus = [mu + mode * b for mu, b in zip(mus, BP)]
        dist = pis[0].proba_dist

    def table(seed, shape):
        n = int(np.prod(shape[:-1]))
        rows = [logit_rows[(seed * 17 + 5 * i + i * i) % len(logit_rows)] for i in range(n)]
        t = np.array(rows, float).reshape(shape) + .013 * np.arange(int(np.prod(shape))).reshape(shape) % .29
        if box:   # no near ties between the candidates
            t = t + .2 * np.sin(1. + 11. * seed + 2.7 * np.arange(t.size)).reshape(shape)
        return t
    mk = {('bins', 1): lambda **k: T.SQ1(env, RANGE, K, value_transform=tf, **k), ('bins', 2): lambda **k: T.SQ2(env, RANGE, K, value_transform=tf, **k),
          ('bins', 'box'): lambda **k: T.SQbox(env, dist, RANGE, K, **k), ('quantiles', 'box'): lambda **k: T.SQbox(env, dist, None, kk, **k),
          ('quantiles', 1): lambda **k: T.QQ(env, kk, 1, value_transform=tf, **k), ('quantiles', 2): lambda **k: T.QQ(env, kk, 2, value_transform=tf, **k)}[(fam, typ)]
    isv = algo == 'SimpleTD'
    if isv:
        mk = lambda **k: T.SV(env, RANGE, K, value_transform=tf, **k)  # noqa: E731
    shape = (nS, K) if isv else (nS, nA, kk)
    q = mk(**modes(BQ))
    opt = optax.sgd(.5)
    lkw = dict(optimizer=opt, loss_function=VL.mse)
    regpi = None
    if cfg.get('reg'):
        regpi = T.Pi(env, **modes(BR))
        rt = np.array([[s % 3 - 1., (s // 3) % 3 - 1.] for s in range(nS)])
        T.setp(regpi, rt)
        p = T.softmax(rt + mode * BR * np.arange(2))
        ent = -(p * np.log(p)).sum(-1)
        lkw['policy_regularizer'] = coax.regularizers.EntropyRegularizer(regpi, beta=cfg['reg'])
    pi = None
    shared = cfg.get('shared')
    clipped = 'Clipped' in algo
    if isv:
        targs = [mk(**modes(BT[0]))]
        le = L.SimpleTD(q, v_targ=targs[0], **lkw)
    elif clipped:
        targs = [mk(**modes(BT[k])) for k in range(cfg.get('nq', 2))]
        le = getattr(L, algo)(q, q_targ_list=targs, pi_targ_list=pis or None, **lkw)
    else:
        targs = [] if shared else [mk(**modes(BT[0]))]
        kw = dict(q_targ=targs[0] if targs else None, **lkw)
        if algo == 'ExpectedSarsa':
            pi = T.Pi(env, **modes(BP[0]))
            tpi = np.array([[s % 3 - 1., (s // 3) % 3 - 1.] for s in range(nS)]) * 1.5
            T.setp(pi, tpi)
            kw['pi_targ'] = pi
        elif box and algo != 'Sarsa':
            kw['pi_targ'] = pis[0]
        le = getattr(L, algo)(q, **kw)
    tq = table(1, shape)
    T.setp(q, tq)
    tt = []
    for k, x in enumerate(targs):
        tt.append(table(3 + 2 * k, shape))
        T.setp(x, tt[-1])
    if shared:
        tt = [tq]

    if fam == 'bins':
        prob = T.softmax
        raw = lambda t: (prob(t) * z).sum(-1)     # mean in transformed space  # noqa: E731
    else:
        raw = lambda t: t.mean(-1)  # noqa: E731
    ramp = mode * np.arange(kk)

    def eff(t, b):   # the table as the function shows it
        if not box:
            return t + b * ramp
        t = np.array(t)
        t[:, 0] += b * ramp
        return t
    raw_tq, raw_tt = tq, tt
    for rep, size in enumerate((1, 4, 2 * nS, 3)):
        tq, tt = eff(raw_tq, BQ), [eff(raw_tq, BQ)] if shared else [eff(t, b) for t, b in zip(raw_tt, BT)]
        tqT = eff(raw_tq, BQ + 1.)
        idx = [(7 * k + 3 * rep) for k in range(size)]
        S = np.array([(5 * i + 2) % nS for i in idx])
        A = np.array([i % nA for i in idx])
        S2 = np.array([(i // 2) % nS for i in idx])
        A2 = np.array([(i // 3) % nA for i in idx])
        if box:
            A, A2 = (np.array([(-1.5, .25, 1.)[(i // j) % 3] for i in idx], np.float32)[:, None] for j in (1, 3))
            za, za2 = (np.log(u) - np.log1p(-u) for u in ((x[:, 0].astype(float) + 2.) / 4. for x in (A, A2)))
        at = lambda t, s, z_: t[s, 0] + t[s, 1] * z_[:, None]  # noqa: E731
        R = np.array([RI[i % 4][0] for i in idx])
        I = np.array([RI[i % 4][1] for i in idx])
        W = np.array([WEIGHTS[(3 * i + rep) % len(WEIGHTS)] for i in idx])
        b = T.batch(S, A, None, R, I, S2, A2, None, W=W)
        # distribution over next values: weights (B, nA) and the table to use
        if isv:
            nxt = [(np.ones(size), tt[0][S2])]
        elif algo == 'Sarsa':
            nxt = [(np.ones(size), at(tt[0], S2, za2) if box else tt[0][S2, A2])]
        elif box:
            cand = [at(t, S2, mu[S2]) for mu in mus for t in ([tq] if algo == 'DoubleQLearning' else tt)]
            vals = np.array([raw(c) for c in cand])
            check(len(cand) < 2 or np.diff(np.sort(vals, axis=0)[:2], axis=0).min() > 2e-4, 'harness: near tie')
            pick = np.argmin(vals, axis=0)
            nxt = [(np.ones(size), np.array(cand)[pick, np.arange(size)])]
        elif algo == 'ExpectedSarsa':
            w = T.softmax(tpi[S2] + mode * BP[0] * np.arange(nA))
            nxt = [(w[:, a], tt[0][S2, a]) for a in range(nA)]
        elif algo in ('QLearning', 'DoubleQLearning'):
            best = raw(tt[0][S2]).argmax(-1)
            src = tq if algo == 'DoubleQLearning' else tt[0]
            nxt = [(np.ones(size), src[S2, best])]
        else:
            cand, vals = [], []
            for ti in tt:
                best = raw(ti[S2]).argmax(-1)
                for tj in tt:
                    cand.append(tj[S2, best])
                    vals.append(raw(tj[S2, best]))
            pick = np.argmin(vals, axis=0)
            nxt = [(np.ones(size), np.array(cand)[pick, np.arange(size)])]
        shift = 0. if regpi is None else cfg['reg'] * ent[S]
        cur = tqT[S] if isv else at(tqT, S, za) if box else tqT[S, A]
        w = np.clip(W, .1, 10.)
        B = size
        if fam == 'bins':
            m = 0.
            for wt, t in nxt:
                m = m + wt[:, None] * project(prob(t), f(R[:, None] + I[:, None] * finv(z)[None, :]), z)
            if regpi is not None:
                m = project(m, f(finv(z)[None, :] + np.asarray(shift)[:, None]), z)
            p = prob(cur)
            G, Q = (m * z).sum(-1), (p * z).sum(-1)
            loss = np.mean(w * -(m * np.log(p)).sum(-1))
            c = (w / B)[:, None] * (p - m)
        else:
            y = 0.
            for wt, t in nxt:
                y = y + wt[:, None] * t
            y = f(R[:, None] + I[:, None] * finv(y))
            if regpi is not None:
                y = f(finv(y) + np.asarray(shift)[:, None])
            G, Q = y.mean(-1), cur.mean(-1)
            tau = (np.arange(kk) + .5) / kk
            d = y[:, None, :] - cur[:, :, None]           # (B, pred i, true j)
            hub = np.where(np.abs(d) <= 1, .5 * d * d, np.abs(d) - .5)
            coef = np.abs(tau[None, :, None] - (d < 0))
            loss = np.mean(w[:, None] * (coef * hub).sum(-1))
            c = -(w / (B * kk))[:, None] * (coef * np.clip(d, -1, 1)).sum(-1)
        g = np.zeros(shape)
        if box:
            np.add.at(g[:, 0], S, c)
            np.add.at(g[:, 1], S, c * za[:, None])
        else:
            np.add.at(g, S if isv else (S, A), c)
        err = np.asarray(le.td_error(b))
        tol = 2e-3 if box and algo[0] == 'S' else 2e-4
        expect_close(f'{algo} ({fam}): td-error', err, G - Q, tol)
        if not updating:
            st.states += 1
            st.transitions += size
            st.outcome((repr(cfg), rep))
            continue
        before = [frozen(x.params) for x in targs]
        metrics = le.update(b)
        expect_close(f'{algo} ({fam}): loss', metrics[f'{algo}/loss'], loss, tol)
        expect_close(f'{algo} ({fam}): parameters after the update, batch of {size}', T.getp(q), raw_tq - .5 * g, tol)
        check(all(same(frozen(x.params), y_) for x, y_ in zip(targs, before)), '%s: update changed a target function', algo)
        raw_tq = T.getp(q)
        st.states += 1
        st.transitions += size
        st.outcome((repr(cfg), rep))
    st.traces += 1
    st.sample(dict(config=cfg), 4)


C16 = [FuncSystem('targets', target_cases, targets,
                  'each learner x type-1/type-2/continuous x shared target x transform x loss x regularizer; all rows of the value (and policy) tables over a 2-3 letter alphabet; 4 (R, I) pairs; batches of 1, 3 and all rows'),
       FuncSystem('distributional', dist_cases, dist_targets, 'value distribution family x learner x type-1/type-2/continuous x transform x regularizer; batches of 1, 4, 48 and 3'),
       FuncSystem('arguments', bad_cases, badargs)]
C17 = [FuncSystem('updates', update_cases, updates, 'learner x optimizer x loss, 4 consecutive updates with batches of different size and weights from 0.01 to 100, nan batch'),
       FuncSystem('distributional', dist_cases, dist_learner, 'value distribution family x learner x type x transform x regularizer, 4 consecutive updates'),
       FuncSystem('optimizer', hyper_cases, hyper)]

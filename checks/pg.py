"""Policy objectives (C19) and regularizers (C30) on tabular policies."""
import itertools
import warnings

import jax
import jax.numpy as jnp
import numpy as np
import optax

import coax
from mc.core import check, FuncSystem
from mc.util import expect_close, expect_raises
from checks import tabular as T
from checks.td import RefOpt, frozen, mkopt, same

warnings.filterwarnings('ignore')
PO = coax.policy_objectives
RG = coax.regularizers
LO, HI = -2., 2.
ADV = (-2., -.5, 0., 1.5)
WS = (.01, .7, 30.)
DLOG = (-.6, -.1, .05, .4)      # log of the ratio between the current and the behaviour policy


def ref_logp(cfg, table, A, Z):
    """log-probability of row i's action under the policy parametrized by table[i] (jnp, differentiable)"""
    if cfg['dist'] == 'cat':
        lp = table - jax.scipy.special.logsumexp(table, axis=-1, keepdims=True)
        return jnp.take_along_axis(lp, jnp.asarray(A)[:, None], axis=-1)[:, 0]
    mu, lv = table[..., 0], table[..., 1]
    return jnp.sum(-.5 * (jnp.log(2 * jnp.pi) + lv + (Z - mu) ** 2 * jnp.exp(-lv)), axis=-1)


def ref_entropy(cfg, table):
    if cfg['dist'] == 'cat':
        lp = table - jax.scipy.special.logsumexp(table, axis=-1, keepdims=True)
        return -jnp.sum(jnp.exp(lp) * lp, axis=-1)
    return jnp.sum(.5 * (jnp.log(2 * jnp.pi) + 1 + table[..., 1]), axis=-1)


def ref_kl(cfg, table, prior):
    if cfg['dist'] == 'cat':
        lp = table - jax.scipy.special.logsumexp(table, axis=-1, keepdims=True)
        lq = prior - jax.scipy.special.logsumexp(prior, axis=-1, keepdims=True)
        return jnp.sum(jnp.exp(lp) * (lp - lq), axis=-1)
    m1, l1, m2, l2 = table[..., 0], table[..., 1], prior[..., 0], prior[..., 1]
    return jnp.sum(.5 * (l2 - l1 + (jnp.exp(l1) + (m1 - m2) ** 2) * jnp.exp(-l2) - 1), axis=-1)


def rows_of(cfg):
    if cfg['dist'] == 'cat':
        return [np.array(r) for r in itertools.product((-1., 0., 2.), repeat=cfg['n'])]
    per = list(itertools.product((-1., .5), (-1., .3)))
    return [np.array(r) for r in itertools.product(per, repeat=cfg['n'])]


def actions_of(cfg):
    if cfg['dist'] == 'cat':
        return list(range(cfg['n']))
    zs = (-1.2, .1, 2.)
    return [np.array(z) for z in itertools.product(zs, repeat=cfg['n'])]


def prior_of(cfg):
    if cfg.get('prior') == 'custom':
        return np.array([.5, -1., 2.][:cfg['n']]) if cfg['dist'] == 'cat' else np.array([[.5, -.4], [-1., .8]][:cfg['n']])
    return np.zeros(cfg['n']) if cfg['dist'] == 'cat' else np.zeros((cfg['n'], 2))


def make_reg(cfg, pi):
    kind, beta = cfg['reg'], cfg.get('beta', .3)
    if kind == 'entropy':
        return RG.EntropyRegularizer(pi, beta=beta)
    if kind == 'kl':
        if cfg.get('prior') == 'custom':
            p = jnp.asarray(prior_of(cfg), jnp.float32)[None]
            return RG.KLDivRegularizer(pi, beta=beta, priors={'logits': p} if cfg['dist'] == 'cat' else {'mu': p[..., 0], 'logvar': p[..., 1]})
        return RG.KLDivRegularizer(pi, beta=beta)
    return None


def reg_ref(cfg, table):
    beta = cfg.get('beta', .3)
    if cfg.get('reg') == 'entropy':
        return -beta * ref_entropy(cfg, table)
    if cfg.get('reg') == 'kl':
        return beta * ref_kl(cfg, table, prior_of(cfg))
    return jnp.zeros(table.shape[0])


class Setup:
    """every row of the batch sits in its own state, so that its contribution shows up separately in the gradient"""

    def __init__(self, cfg, small=False, opt=None):
        self.cfg, self.obj = cfg, cfg['objective']
        trows, acts = rows_of(cfg), actions_of(cfg)
        if self.obj in ('SoftPG', 'DeterministicPG'):
            combos = [(r, w) for r in trows for w in WS]
            acts = acts[:1]
            full = [(r, acts[0], 0., w, 0.) for r, w in combos]
        elif self.obj == 'VanillaPG':
            full = [(r, a, v, w, 0.) for r in trows for a in acts for v in ADV for w in WS]
        else:
            full = [(r, a, v, w, d) for r in trows for a in acts for v in ADV for d in DLOG for w in WS]
        if len(full) > 1500:
            full = full[::len(full) // 1500 + 1 | 1]
        if small:
            full = full[::max(1, len(full) // 12)][:12]
        self.full = full
        n = self.n = len(full)
        self.env = T.env_d(n, cfg['n']) if cfg['dist'] == 'cat' else T.env_b(n, LO, HI, cfg['n'])
        mode = cfg.get('mode')      # the policy is evaluated in training mode, its regularizer in inference mode
        self.pi = (T.Pi if cfg['dist'] == 'cat' else T.PiBox)(self.env, counting=cfg.get('counting', False), mode=mode)
        ramp = np.arange(cfg['n']) if cfg['dist'] == 'cat' else np.array([1., 0.])
        self.off, self.off_reg = ((mode[0] + mode[1]) * ramp, mode[0] * ramp) if mode else (0., 0.)
        self.table = np.array([f[0] for f in full])
        if cfg['objective'] in ('SoftPG', 'DeterministicPG'):
            if cfg['dist'] == 'cat':      # determined policies: their sample and mode are the same action
                self.table = self.table + 60. * (self.table == self.table.max(-1, keepdims=True)) * np.linspace(1, 2, cfg['n'])
            elif self.obj == 'SoftPG':
                self.table[..., 1] = -20.
        T.setp(self.pi, self.table)
        reg = make_reg(cfg, self.pi) if cfg.get('reg') else None
        kw = dict(optimizer=opt, regularizer=reg)
        self.qs = []
        if self.obj in ('SoftPG', 'DeterministicPG'):
            nq = cfg.get('nq', 1)
            self.coef, self.qoff = [], []
            for k in range(nq):
                if cfg['dist'] == 'cat':
                    q = T.Q1(self.env, mode=mode and (.4 - k, 0.))
                    c = np.cos(1. + np.arange(n * cfg['n']) * (k + 1.3)).reshape(n, cfg['n'])
                else:
                    q = T.Qbox(self.env, self.pi.proba_dist, mode=mode and (.4 - k, 0.))
                    c = np.stack([np.cos(np.arange(n) * (k + 1.3)), np.sin(np.arange(n) * (k + .7)), -.3 * np.ones(n)], -1)
                T.setp(q, c)
                self.qs.append(q)
                qoff = np.array([1., 0., 0.]) if cfg['dist'] == 'box' else 1.
                self.qoff.append((.4 - k) * qoff if mode else 0.)
                self.coef.append(c + self.qoff[-1])
        if self.obj == 'SoftPG':
            self.po = PO.SoftPG(self.pi, self.qs, **kw)
        elif self.obj == 'DeterministicPG':
            self.po = PO.DeterministicPG(self.pi, self.qs[0], **kw)
        elif self.obj == 'PPOClip':
            self.po = PO.PPOClip(self.pi, epsilon=cfg.get('eps', .2), **kw)
        else:
            self.po = PO.VanillaPG(self.pi, **kw)

    def batch(self, sel, table):
        """rows sel; the behaviour policy's log-probability is relative to the given (current) table"""
        cfg = self.cfg
        self.sel = sel = list(sel)
        acts = [self.full[i][1] for i in sel]
        if cfg['dist'] == 'cat':
            self.A, self.Z = np.array(acts), None
            A = self.A
        else:
            self.A, self.Z = None, np.array(acts)
            A = (LO + (HI - LO) / (1 + np.exp(-self.Z))).astype(np.float32)
        self.Adv = np.array([self.full[i][2] for i in sel], np.float32)
        self.W = np.array([self.full[i][3] for i in sel], np.float32)
        d = np.array([self.full[i][4] for i in sel])
        lp = np.asarray(ref_logp(cfg, jnp.asarray(table[sel] + self.off, jnp.float32), self.A, self.Z))
        self.logP = np.minimum(lp - d, -1e-3).astype(np.float32)
        S = np.array(sel)
        z = np.zeros(len(sel), np.float32)
        return T.batch(S, A, self.logP, z, z, S, A, self.logP, W=self.W)

    def losses(self, sub):
        """reference: bare loss and regularized loss as functions of the table rows of the batch"""
        cfg = self.cfg
        W = jnp.clip(self.W, .1, 10.)

        def bare(t):
            t = t + self.off
            if self.obj in ('VanillaPG', 'PPOClip'):
                lp = ref_logp(cfg, t, self.A, self.Z)
                if self.obj == 'VanillaPG':
                    return -jnp.mean(W * self.Adv * lp)
                e = cfg.get('eps', .2)
                ratio = jnp.exp(lp - self.logP)
                return -jnp.mean(W * jnp.minimum(self.Adv * ratio, self.Adv * jnp.clip(ratio, 1 - e, 1 + e)))
            if cfg['dist'] == 'cat':
                a = np.asarray(t).argmax(-1)
                vals = jnp.stack([jnp.asarray(c[self.sel, a]) for c in self.coef])
            else:
                z = t[:, 0, 0]
                vals = jnp.stack([c[self.sel, 0] + c[self.sel, 1] * z + c[self.sel, 2] * z * z for c in self.coef])
            return -jnp.mean(W * vals.min(0))
        return bare, lambda t: bare(t) + jnp.mean(W * reg_ref(cfg, t + self.off_reg))

    def grad(self, table):
        t = jnp.asarray(table[self.sel], jnp.float32)
        bare, full = self.losses(None)
        lb, lf = float(bare(t)), float(full(t))
        if self.obj in ('SoftPG', 'DeterministicPG') and self.cfg['dist'] == 'cat':
            return lb, lf, None
        g = np.zeros(table.shape)
        np.add.at(g, self.sel, np.asarray(jax.grad(full)(t), float))
        return lb, lf, g


def cfgs(tier):
    out = []
    for dist, n in (('cat', 2), ('cat', 3), ('box', 1), ('box', 2)):
        for obj in ('VanillaPG', 'PPOClip', 'SoftPG', 'DeterministicPG'):
            if obj in ('SoftPG', 'DeterministicPG') and dist == 'cat' and n == 3 and tier == 'quick':
                continue
            if obj == 'PPOClip':
                for e in (.2, .45):
                    out.append(dict(objective=obj, dist=dist, n=n, eps=e))
            elif obj == 'SoftPG':
                for nq in (1, 2, 3):
                    out.append(dict(objective=obj, dist=dist, n=n, nq=nq))
            else:
                out.append(dict(objective=obj, dist=dist, n=n))
            for reg in ('entropy', 'kl'):
                for prior in (('default', 'custom') if reg == 'kl' else ('default',)):
                    if dist == 'cat' and obj in ('SoftPG', 'DeterministicPG'):
                        continue
                    out.append(dict(objective=obj, dist=dist, n=n, reg=reg, prior=prior))
    for c in list(out):
        if c.get('prior') != 'default' and c.get('eps') != .2 and c.get('nq') != 3:
            out.append(dict(c, mode=[.3, -.8]))
    return out


def grad_cases(tier):
    return iter(cfgs(tier))


def gradients(cfg, st):
    su = Setup(cfg)
    name = cfg['objective']
    n = su.n
    half = n // 2 + 1
    for no, sel in enumerate((range(n), range(0, n, 3), [n - 1], [half % n, 0], [0, 0, 1 % n])):
        b = su.batch(sel, su.table)
        lb, lf, g = su.grad(su.table)
        p0 = frozen(su.pi.params)
        adv = () if name in ('SoftPG', 'DeterministicPG') else (jnp.asarray(su.Adv),)
        grads, fstate, metrics = su.po.grads_and_metrics(b, *adv)
        check(same(frozen(su.pi.params), p0), '%s: computing the gradient changed the policy', name)
        got = jax.tree_util.tree_leaves(grads)
        check(len(got) == 1, 'gradient structure')
        B = len(su.sel)
        # SoftPG evaluates a policy that is sharply peaked but still random
        tol = 3e-3 if name == 'SoftPG' else 1e-4
        expect_close(f'{name}: bare loss', metrics[f'{name}/loss_bare'], lb, tol)
        expect_close(f'{name}: loss', metrics[f'{name}/loss'], lf, tol)
        if g is not None:
            gg = np.asarray(got[0], float)
            if name == 'SoftPG':      # the spread contributes (vanishing) noise only
                gg, g = gg[..., 0], g[..., 0]
            ok = np.abs(gg - g) * B <= tol * (1 + np.abs(g) * B)
            if not ok.all():
                k = int(np.argmin(ok.reshape(n, -1).all(-1)))
                row = su.full[k]
                check(False, '%s %s: gradient in state %s is %s, expected %s (policy row %s, action %s, advantage %s, weight %s, log-ratio %s; batch of %s)',
                      name, cfg, k, gg[k] * B, g[k] * B, row[0].tolist(), np.asarray(row[1]).tolist(), row[2], row[3], row[4], B)
        st.states += B
        st.transitions += B
        st.outcome((repr(cfg), no))
    st.traces += 1
    st.sample({'config': cfg, 'rows': n}, 3)


def upd_cases(tier):
    k = 0
    for dist, n in (('cat', 2), ('box', 1), ('box', 2)):
        for obj in ('VanillaPG', 'PPOClip', 'DeterministicPG', 'SoftPG'):
            if dist == 'cat' and obj in ('DeterministicPG', 'SoftPG'):
                continue
            for opt in ('sgd', 'momentum', 'adam', 'decay'):
                if opt == 'decay' and obj == 'SoftPG':   # would move the policy onto ties of the two q-functions
                    continue
                for reg in (None, 'entropy', 'kl'):
                    k += 1
                    if tier == 'quick' and k % 2 and opt != 'sgd':
                        continue
                    yield dict(objective=obj, dist=dist, n=n, opt=opt, reg=reg, counting=k % 3 == 0, nq=2 if obj == 'SoftPG' else 1, mode=[.3, -.8] if k % 3 == 1 else None)


def updates(cfg, st):
    su = Setup(cfg, small=True, opt=mkopt(cfg['opt']))
    name, po, pi = cfg['objective'], su.po, su.pi
    ref = RefOpt(cfg['opt'])
    table = su.table.copy()
    noadv = name in ('SoftPG', 'DeterministicPG')
    for step, sel in enumerate(([0, 5, 7], [3], list(range(su.n)), [1, 1, 2])):
        b = su.batch([i % su.n for i in sel], table)
        lb, lf, g = su.grad(table)
        keepq = [frozen((q.params, q.function_state)) for q in su.qs]
        keepb = frozen(b)
        c0 = frozen(pi.function_state)
        m = po.update(b) if noadv else po.update(b, jnp.asarray(su.Adv))
        tol = 3e-3 if name == 'SoftPG' else 1e-4
        check(isinstance(m, dict), 'update returned %s', type(m))
        expect_close(f'{name}: loss reported by update', m[f'{name}/loss'], lf, tol)
        want = table + ref.step(g, table)
        got = T.getp(pi)
        if name == 'SoftPG':
            expect_close(f'{name}: means after update {step}', got[..., 0], want[..., 0], tol)
        else:
            expect_close(f'{name}: parameters after update {step} ({cfg["opt"]})', got, want, 2e-3 if cfg['opt'] == 'adam' else tol)
            if cfg['opt'] == 'adam':
                ok = np.abs(g) > 1e-3
                expect_close(f'{name}: adam step', ((got - table) / 1e-3)[ok], ((want - table) / 1e-3)[ok], 3e-2)
        for q, k in zip(su.qs, keepq):
            check(same(frozen((q.params, q.function_state)), k), '%s: update changed the q-function', name)
        check(same(frozen(b), keepb), '%s: update changed the batch', name)
        if cfg['counting']:
            check(np.array_equal(frozen(pi.function_state)[0], c0[0] + 1), '%s: function state went from %s to %s in one update', name, c0, frozen(pi.function_state))
        table = got
        st.states += 1
        st.transitions += len(sel)
        st.outcome((repr(cfg), step))
    st.traces += 1
    if not noadv:
        p0, o0 = frozen(pi.params), frozen(po.optimizer_state)
        b = su.batch([0, 1], table)
        expect_raises('update with a nan advantage', RuntimeError, lambda: po.update(b, jnp.array([np.nan, 1.])))
        check(same(frozen(pi.params), p0) and same(frozen(po.optimizer_state), o0), '%s: an update refused because of nans changed the policy', name)
    elif su.qs:   # q-functions are read when the update happens
        for q, c, o in zip(su.qs, su.coef, su.qoff):
            T.setp(q, o - c)
        su.coef = [2 * o - c for c, o in zip(su.coef, su.qoff)]
        b = su.batch([0, 1, 2], table)
        lb, lf, g = su.grad(table)
        expect_close(f'{name}: bare loss after the q-function changed', po.grads_and_metrics(b)[2][f'{name}/loss_bare'], lb, 3e-3)


def hyper_cases(tier):
    return iter(['optimizer', 'epsilon', 'beta', 'refusals', 'warning'])


def hyper(case, st):
    cfg = dict(objective='PPOClip', dist='cat', n=2, reg='entropy')
    su = Setup(cfg, small=True, opt=optax.sgd(.5))
    po, table = su.po, su.table.copy()
    b = su.batch(range(su.n), table)
    adv = jnp.asarray(su.Adv)
    if case == 'optimizer':
        expect_raises('incompatible optimizer', AttributeError, lambda: setattr(po, 'optimizer', optax.adam(.1)))
        for lr in (.25, 2., 0.):
            po.optimizer = optax.sgd(lr)
            b = su.batch(range(su.n), table)
            lb, lf, g = su.grad(table)
            po.update(b, jnp.asarray(su.Adv))
            expect_close(f'parameters with learning rate {lr}', T.getp(su.pi), table - lr * g, 1e-4)
            table = T.getp(su.pi)
        grads, fs, m = po.grads_and_metrics(b, adv)
        po.optimizer = optax.sgd(1.)
        po.apply_grads(grads, fs)
        expect_close('apply_grads', T.getp(su.pi), table - np.asarray(jax.tree_util.tree_leaves(grads)[0]), 1e-5)
    elif case == 'epsilon':
        for e in (.01, .2, .9, .2):
            po.epsilon = e
            su.cfg['eps'] = e
            lb, lf, g = su.grad(table)
            gr, _, m = po.grads_and_metrics(b, adv)
            expect_close(f'PPO loss with epsilon={e}', m['PPOClip/loss'], lf, 1e-4)
            expect_close(f'PPO gradient with epsilon={e}', jax.tree_util.tree_leaves(gr)[0], g, 1e-4)
            st.transitions += 1
    elif case == 'beta':
        for beta in (0., .1, 2.):
            po.regularizer.beta = beta
            su.cfg['beta'] = beta
            lb, lf, g = su.grad(table)
            gr, _, m = po.grads_and_metrics(b, adv)
            expect_close(f'regularized loss with beta={beta}', m['PPOClip/loss'], lf, 1e-4)
            expect_close(f'gradient with beta={beta}', jax.tree_util.tree_leaves(gr)[0], g, 1e-4)
            st.transitions += 1
    elif case == 'refusals':
        d, bx = T.env_d(2, 2), T.env_b(2)
        pi, v, q2, q1 = T.Pi(d), T.V(d), T.Q2(d), T.Q1(d)
        for exc, fn in [(TypeError, lambda: PO.VanillaPG(v)), (TypeError, lambda: PO.PPOClip(q2)), (TypeError, lambda: PO.VanillaPG(pi, regularizer=.1)),
                        (TypeError, lambda: PO.DeterministicPG(pi, v)), (TypeError, lambda: PO.DeterministicPG(pi, q2)),
                        (TypeError, lambda: PO.SoftPG(pi, q1)), (ValueError, lambda: PO.SoftPG(pi, [])), (TypeError, lambda: PO.SoftPG(pi, [v]))]:
            expect_raises('bad arguments', exc, fn)
            st.transitions += 1
    else:
        def warned(o, bb, *a):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                o.grads_and_metrics(bb, *a)
            return any('logP' in str(x.message) for x in w)
        check(not warned(po, b, adv), 'PPO warned although the propensities are there')
        b.logP = np.zeros_like(b.logP)
        check(warned(po, b, adv), 'PPO did not warn about missing propensities')
    st.states += 1
    st.traces += 1
    st.outcome(case)


C19 = [FuncSystem('gradients', grad_cases, gradients, 'every combination of policy row, action, advantage, importance weight and old/new ratio, each in its own state; five batches'),
       FuncSystem('updates', upd_cases, updates, 'four-step update sequences x objective x distribution x optimizer x regularizer'),
       FuncSystem('hyperparameters', hyper_cases, hyper)]

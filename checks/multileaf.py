"""Updaters of functions with several parameter arrays: a nan in any subset of the gradients is refused without effect, and every array takes its step."""
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import optax

import coax
from mc.core import check, FuncSystem
from mc.util import expect_close, expect_raises
from checks import tabular as T

NL = 3


def extra(n):
    """zero at p = 0, where its derivative is nan; derivative 1 for p > 0"""
    out = 0.
    for i in range(NL):
        p = hk.get_parameter(f'x{i}', (n,), init=jnp.ones)
        out = out + jnp.sqrt(jnp.square(p))
    return out


def make(kind):
    d = T.env_d(3, 2)
    opt = optax.sgd(.5, momentum=.9)
    S = np.array([0, 1, 2, 1])
    b = T.batch(S, [0, 1, 0, 0], np.full(4, -.7), [1., -1., .5, 0.], [.9, .9, 0., .9], (S + 1) % 3, [1, 0, 1, 1], np.full(4, -.7))
    V = lambda: coax.V(lambda S, is_training: jnp.dot(S, extra(3)), d, random_seed=7)      # noqa: E731
    Q = lambda: coax.Q(lambda S, is_training: jnp.dot(S, extra(3))[:, None] + jnp.zeros((S.shape[0], 2)), d, random_seed=7)   # noqa: E731
    Pi = lambda: coax.Policy(lambda S, is_training: {'logits': jnp.dot(S, extra(3))[:, None] * jnp.array([.05, -.05])}, d, random_seed=7)      # noqa: E731
    adv = (jnp.array([1., -1., .5, 2.]),)
    TD, PO = coax.td_learning, coax.policy_objectives
    if kind in ('SimpleTD',):
        f = V()
        return f, TD.SimpleTD(f, optimizer=opt), lambda u: u.update(b)
    if kind in ('QLearning', 'Sarsa', 'DoubleQLearning'):
        f = Q()
        return f, getattr(TD, kind)(f, q_targ=Q(), optimizer=opt), lambda u: u.update(b)
    if kind in ('VanillaPG', 'PPOClip'):
        f = Pi()
        return f, getattr(PO, kind)(f, optimizer=opt), lambda u: u.update(b, *adv)
    if kind == 'transition':
        f = coax.TransitionModel(lambda S, A, is_training: jnp.dot(S, extra(3))[:, None] * jnp.ones((S.shape[0], 3)), d, random_seed=7)
    else:
        f = coax.RewardFunction(lambda S, A, is_training: jnp.dot(S, extra(3)), d, random_seed=7)
    return f, coax.model_updaters.ModelUpdater(f, optimizer=opt), lambda u: u.update(b)


def cases(kinds):
    return lambda tier: iter([[k, list(z)] for k in kinds for z in itertools.product((0, 1), repeat=NL)])


def run(case, st):
    kind, zero = case
    f, u, go = make(kind)
    flat, tree = jax.tree_util.tree_flatten(f.params)
    f.params = jax.tree_util.tree_unflatten(tree, [x * (0. if z else .3 + .2 * i) for i, (x, z) in enumerate(zip(flat, zero))])
    shot = lambda: [np.array(x) for x in jax.tree_util.tree_leaves((f.params, u.optimizer_state))]      # noqa: E731
    before = shot()
    if any(zero):
        expect_raises(f'{kind}: update with nans in the gradient of parameter arrays {zero}', RuntimeError, lambda: go(u))
        check(all(np.array_equal(x, y) for x, y in zip(before, shot())), '%s: the refused update changed something', kind)
        # the updater goes on working once the function is well again
        f.params = jax.tree_util.tree_unflatten(tree, [x * .4 for x in flat])
        before = shot()
    go(u)
    after = shot()
    steps = [b - a for a, b in zip(before[:NL], after[:NL])]
    check(any(np.any(s != 0) for s in steps), '%s: the update did nothing', kind)
    for s in steps[1:]:                 # the function depends on the sum of the arrays: all take the same step
        expect_close(f'{kind}: step of parameter arrays', s, steps[0], 1e-5)
    st.states += 1
    st.transitions += 2
    st.outcome(repr(case))


def system(kinds):
    return FuncSystem('several-arrays', cases(kinds), run, 'every subset of three parameter arrays has nan gradients')

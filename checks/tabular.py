"""Tabular function approximators: every value a function can take is a parameter the harness sets.

States are indices; the tables are haiku parameters, so a batch whose rows range over all states
exercises every combination of table rows in one call of the (jitted) code under test.
"""
import itertools
from collections import namedtuple

import gymnasium.spaces as sp
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

import coax

Env = namedtuple('Env', 'observation_space action_space')


def env_d(nS, nA):
    return Env(sp.Discrete(nS), sp.Discrete(nA))


def env_b(nS, low=-2., high=2., dim=1):
    return Env(sp.Discrete(nS), sp.Box(low, high, (dim,), dtype=np.float32))


def setp(f, table):
    """set the one-leaf parameter tree of f"""
    leaves, tree = jax.tree_util.tree_flatten(f.params)
    table = [table] if len(leaves) == 1 and not isinstance(table, list) else table
    f.params = jax.tree_util.tree_unflatten(tree, [jnp.asarray(t, dtype=l.dtype).reshape(l.shape) for t, l in zip(table, leaves)])


def getp(f):
    leaves = jax.tree_util.tree_leaves(f.params)
    return np.asarray(leaves[0], dtype=float) if len(leaves) == 1 else [np.asarray(x, dtype=float) for x in leaves]


def _tab(name, shape):
    return hk.get_parameter(name, shape, init=jnp.zeros)


def _count(is_training, counting):
    """optional function state: number of training-mode evaluations"""
    if counting:
        n = hk.get_state('n', (), init=jnp.zeros)
        hk.set_state('n', n + (1. if is_training else 100.) * 1.0)


def _mode(is_training, mode):
    """optional dependence on the function state and on the mode of evaluation: (b, d) adds b, kept in the function state, and d in training mode"""
    if mode is None:
        return 0.
    b = hk.get_state('b', (), init=hk.initializers.Constant(mode[0]))
    return b + (mode[1] if is_training else 0.)


def V(env, counting=False, mode=None, **kw):
    nS = env.observation_space.n

    def f(S, is_training):
        _count(is_training, counting)
        return jnp.dot(S, _tab('v', (nS,))) + _mode(is_training, mode)
    return coax.V(f, env, random_seed=7, **kw)


def Q2(env, counting=False, mode=None, **kw):
    nS, nA = env.observation_space.n, env.action_space.n

    def f(S, is_training):
        _count(is_training, counting)
        return jnp.dot(S, _tab('q', (nS, nA))) + _mode(is_training, mode)
    return coax.Q(f, env, random_seed=7, **kw)


def Q1(env, counting=False, mode=None, **kw):
    """type-1, deliberately not linear in A except on one-hot vectors"""
    nS, nA = env.observation_space.n, env.action_space.n

    def f(S, A, is_training):
        _count(is_training, counting)
        q = jnp.einsum('bs,ba,sa->b', S, A, _tab('q', (nS, nA)))
        return q + 5. * (1. - jnp.sum(A * A, axis=-1)) + _mode(is_training, mode)
    return coax.Q(f, env, random_seed=7, **kw)


def Qbox(env, dist, counting=False, mode=None, **kw):
    """q(s,a) = q0[s] + q1[s] z + q2[s] z^2 for the preprocessed action z"""
    nS = env.observation_space.n

    def f(S, A, is_training):
        _count(is_training, counting)
        c = jnp.dot(S, _tab('q', (nS, 3)))
        z = A.reshape(A.shape[0], -1)[:, 0]
        return c[:, 0] + c[:, 1] * z + c[:, 2] * z * z + _mode(is_training, mode)
    return coax.Q(f, env, random_seed=7, action_preprocessor=dist.preprocess_variate, **kw)


def Pi(env, counting=False, mode=None, **kw):
    nS, nA = env.observation_space.n, env.action_space.n

    def f(S, is_training):
        _count(is_training, counting)
        return {'logits': jnp.dot(S, _tab('pi', (nS, nA))) + _mode(is_training, mode) * jnp.arange(nA)}
    return coax.Policy(f, env, random_seed=7, **kw)


def PiBox(env, counting=False, mode=None, **kw):
    nS = env.observation_space.n
    d = env.action_space.shape[0]

    def f(S, is_training):
        _count(is_training, counting)
        t = jnp.einsum('bs,sdk->bdk', S, _tab('pi', (nS, d, 2)))
        return {'mu': t[..., 0] + _mode(is_training, mode), 'logvar': t[..., 1]}
    return coax.Policy(f, env, random_seed=7, **kw)


def SV(env, value_range, bins, mode=None, **kw):
    nS = env.observation_space.n

    def f(S, is_training):
        return {'logits': jnp.einsum('bs,sk->bk', S, _tab('v', (nS, bins))) + _mode(is_training, mode) * jnp.arange(bins)}
    return coax.StochasticV(f, env, value_range=value_range, num_bins=bins, random_seed=7, **kw)


def SQ2(env, value_range, bins, mode=None, **kw):
    nS, nA = env.observation_space.n, env.action_space.n

    def f(S, is_training):
        return {'logits': jnp.einsum('bs,sak->bak', S, _tab('q', (nS, nA, bins))) + _mode(is_training, mode) * jnp.arange(bins)}
    return coax.StochasticQ(f, env, value_range=value_range, num_bins=bins, random_seed=7, **kw)


def SQ1(env, value_range, bins, mode=None, **kw):
    nS, nA = env.observation_space.n, env.action_space.n

    def f(S, A, is_training):
        x = jnp.einsum('bs,ba,sak->bk', S, A, _tab('q', (nS, nA, bins))) + _mode(is_training, mode) * jnp.arange(bins)
        return {'logits': x + 5. * (1. - jnp.sum(A * A, axis=-1, keepdims=True)) * jnp.arange(bins)}
    return coax.StochasticQ(f, env, value_range=value_range, num_bins=bins, random_seed=7, **kw)


def QQ(env, n, typ, mode=None, **kw):
    """quantile q-function"""
    nS, nA = env.observation_space.n, env.action_space.n
    tau = (np.arange(n) + .5) / n

    def f2(S, is_training):
        v = jnp.einsum('bs,sak->bak', S, _tab('q', (nS, nA, n))) + _mode(is_training, mode) * jnp.arange(n)
        return {'values': v, 'quantile_fractions': jnp.broadcast_to(jnp.asarray(tau, jnp.float32), v.shape)}

    def f1(S, A, is_training):
        v = jnp.einsum('bs,ba,sak->bk', S, A, _tab('q', (nS, nA, n))) + _mode(is_training, mode) * jnp.arange(n)
        v = v + 5. * (1. - jnp.sum(A * A, axis=-1, keepdims=True)) * jnp.arange(n)
        return {'values': v, 'quantile_fractions': jnp.broadcast_to(jnp.asarray(tau, jnp.float32), v.shape)}
    return coax.StochasticQ(f2 if typ == 2 else f1, env, num_bins=n, random_seed=7, **kw)


def SQbox(env, dist, value_range, n, mode=None, **kw):
    """stochastic q-function of a continuous action: the distribution parameters are c0[s] + c1[s] z"""
    nS = env.observation_space.n
    tau = (np.arange(n) + .5) / n

    def f(S, A, is_training):
        c = jnp.einsum('bs,sak->bak', S, _tab('q', (nS, 2, n)))
        x = c[:, 0] + c[:, 1] * A.reshape(A.shape[0], -1)[:, :1] + _mode(is_training, mode) * jnp.arange(n)
        if value_range is None:
            return {'values': x, 'quantile_fractions': jnp.broadcast_to(jnp.asarray(tau, jnp.float32), x.shape)}
        return {'logits': x}
    return coax.StochasticQ(f, env, value_range=value_range, num_bins=n, random_seed=7, action_preprocessor=dist.preprocess_variate, **kw)


def batch(S, A, logP, Rn, In, S_next, A_next, logP_next, W=None, extra_info=None):
    f32 = np.float32
    B = len(S)
    return coax.reward_tracing.TransitionBatch(
        S=np.asarray(S), A=np.asarray(A), logP=np.zeros(B, f32) if logP is None else np.asarray(logP, f32),
        Rn=np.asarray(Rn, f32), In=np.asarray(In, f32), S_next=np.asarray(S_next), A_next=np.asarray(A_next),
        logP_next=np.zeros(B, f32) if logP_next is None else np.asarray(logP_next, f32),
        W=None if W is None else np.asarray(W, f32), extra_info=extra_info)


def rows(alphabet, n):
    """all vectors over the alphabet, one per state"""
    return np.array(list(itertools.product(alphabet, repeat=n)), dtype=float)


def softmax(x, axis=-1):
    x = np.asarray(x, float)
    e = np.exp(x - x.max(axis=axis, keepdims=True))
    return e / e.sum(axis=axis, keepdims=True)


def lse(x, axis=-1):
    x = np.asarray(x, float)
    m = x.max(axis=axis, keepdims=True)
    return (m + np.log(np.exp(x - m).sum(axis=axis, keepdims=True))).squeeze(axis)


def signlog(x):
    x = np.asarray(x, float)
    return np.sign(x) * np.log1p(np.abs(x))


def signexp(x):
    x = np.asarray(x, float)
    return np.sign(x) * np.expm1(np.abs(x))

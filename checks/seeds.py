"""Reproducibility (C25): all randomness comes from an object's own seed, whatever else happens in the program."""
import itertools
import random
import warnings

import gymnasium
import gymnasium.spaces as sp
import jax
import jax.numpy as jnp
import numpy as np
import optax

import coax
from mc.core import check, FuncSystem
from mc.util import brief
from checks import tabular as T

warnings.filterwarnings('ignore')
U = coax.utils


def tab(*s):
    return np.cos(np.arange(int(np.prod(s))) * 1.7).reshape(s) * .3


def tb(i):
    return coax.reward_tracing.TransitionBatch.from_single(s=i, a=i % 2, logp=-.5, r=float(i), done=False, gamma=.9, s_next=i + 1, a_next=0, logp_next=-.2, w=1.)


class Env0(gymnasium.Env):
    observation_space = sp.Discrete(3)
    action_space = sp.Box(-1., 1., (2,), dtype=np.float32)

    def reset(self, seed=None, options=None):
        return 0, {}

    def step(self, a):
        self.last = np.array(a)
        return 0, 0., False, False, {}


ENV_D, ENV_B = T.env_d(3, 4), T.env_b(3)
ENV_C = T.Env(sp.Discrete(3), sp.Tuple((sp.Discrete(5), sp.Box(-1., 1., (1,), dtype=np.float32), sp.MultiBinary(3))))


def kinds():
    """name -> (make(seed), reseed(obj, seed) or None, draw(obj) -> comparable)"""
    out = {}

    def setseed(o, s):
        o.random_seed = s

    def fn(make, shape, draw):
        def go(seed):
            f = make(seed)
            T.setp(f, tab(*shape))
            return f
        return go, setseed, draw
    rd = lambda x: jax.tree_util.tree_map(lambda l: np.asarray(l).tolist(), x)    # noqa: E731

    def seeded(builder):
        def go(seed):
            f = builder()
            f.random_seed = seed
            return f
        return go
    out['policy'] = fn(seeded(lambda: T.Pi(ENV_D)), (3, 4), lambda o: rd(o(1, return_logp=True)))
    out['box policy'] = fn(seeded(lambda: T.PiBox(ENV_B)), (3, 1, 2), lambda o: rd(o(2)))
    out['stochastic q'] = fn(seeded(lambda: T.SQ1(ENV_D, (-2, 2), 7)), (3, 4, 7), lambda o: rd(o(1, 2)))
    out['stochastic v'] = fn(seeded(lambda: T.SV(ENV_D, (-2, 2), 7)), (3, 7), lambda o: rd(o(1)))

    def tm():
        return coax.StochasticTransitionModel(lambda S, A, is_training: {'logits': jnp.einsum('bs,ba,sak->bk', S, A, T._tab('t', (3, 4, 3)))}, ENV_D, random_seed=4)
    out['transition model'] = fn(seeded(tm), (3, 4, 3), lambda o: [rd(o(0, a)) for a in range(4)])

    def derived(cls, **kw):
        def go(seed):
            q = T.Q2(ENV_D)
            T.setp(q, tab(3, 4))
            q.random_seed = seed
            return cls(q, **kw)

        def re(o, s):
            o.q.random_seed = s
        return go, re, lambda o: rd(o(0, return_logp=True))
    out['epsilon greedy'] = derived(coax.EpsilonGreedy, epsilon=.9)
    out['boltzmann'] = derived(coax.BoltzmannPolicy, temperature=3.)

    def noisy():
        """a function that is itself random while it is evaluated"""
        import haiku as hk
        return coax.V(lambda S, is_training: jnp.dot(S, T._tab('v', (3,))) + jax.random.normal(hk.next_rng_key(), (S.shape[0],)), ENV_D)
    out['noisy value function'] = fn(seeded(noisy), (3,), lambda o: rd(o(1)))
    out['random policy'] = (lambda s: coax.RandomPolicy(ENV_D, random_seed=s), None, lambda o: rd(o(0)))
    out['random box policy'] = (lambda s: coax.RandomPolicy(ENV_B, random_seed=s), None, lambda o: rd(o(0)))
    out['random composite policy'] = (lambda s: coax.RandomPolicy(ENV_C, random_seed=s), None, lambda o: rd(o(0)))

    def buf(s):
        b = coax.experience_replay.SimpleReplayBuffer(9, random_seed=s)
        for i in range(9):
            b.add(tb(i))
        return b

    def pbuf(s):
        b = coax.experience_replay.PrioritizedReplayBuffer(9, random_seed=s)
        for i in range(9):
            b.add(tb(i), Adv=np.array([1.]))
        return b
    out['uniform buffer'] = (buf, None, lambda o: o.sample(batch_size=3).S.tolist())
    out['prioritized buffer'] = (pbuf, None, lambda o: o.sample(batch_size=3).S.tolist())

    def tree(s):
        t = U.SumTree(9, random_seed=s)
        t.set_values(np.arange(9), np.ones(9))
        return t
    out['sum tree'] = (tree, setseed, lambda o: o.sample(3).tolist())
    out['noise'] = (lambda s: U.OrnsteinUhlenbeckNoise(random_seed=s), None, lambda o: o(np.zeros(2)).tolist())

    def wrapped(s):
        w = coax.wrappers.BoxActionsToDiscrete(Env0(), (3, 4), random_seed=s)
        w.reset()
        return w

    def act(o):
        o.step(np.array([1, 2]))
        return o.unwrapped.last.tolist()
    out['discretized actions'] = (wrapped, None, act)
    return out


JIT = {'policy', 'box policy', 'stochastic q', 'stochastic v', 'transition model', 'epsilon greedy', 'boltzmann', 'noisy value function'}
OPS = ('A', 'B', 'global', 'other', 'reseed')


def cases(tier):
    n = 5 if tier == 'quick' else 6
    for k in kinds():
        for first in itertools.product(OPS, repeat=1 if k in JIT else 2):
            yield [k, n, list(first)]


def perturb(i):
    np.random.seed(i)
    random.seed(i)
    np.random.rand(3)
    jax.random.normal(jax.random.PRNGKey(i))
    ENV_D.action_space.seed(i)
    ENV_B.action_space.sample()
    ENV_C.action_space.seed(i + 1)


def interleave(case, st):
    k, n, first = case
    make, reseed, draw = kinds()[k]
    # what a seed gives, undisturbed; two fresh objects agree, another seed differs
    solo = {}
    for seed in (11, 12):
        o = make(seed)
        solo[seed] = [draw(o) for _ in range(n + 1)]
    perturb(1)
    o = make(11)
    check([draw(o) for _ in range(n + 1)] == solo[11], '%s: two runs from the same seed differ', k)
    check(solo[11] != solo[12], '%s: different seeds give the same draws %s', k, solo[11])
    check(len({repr(x) for x in solo[11]}) > 1, '%s: all draws are the same', k)
    heavy = k in JIT
    A, B, C = (make(11), make(12), make(99)) if heavy else (None, None, None)
    for rest in itertools.product(OPS, repeat=n - len(first)):
        h = list(first) + list(rest)
        if reseed is None and 'reseed' in h:
            continue
        if heavy:
            reseed(A, 11)
            reseed(B, 12)
            a = b = 0
        else:
            A, B, a, b = make(11), make(12), 0, 0
        for i, op in enumerate(h):
            if op == 'A':
                got, want = draw(A), solo[11][a]
                a += 1
                check(got == want, '%s: after %s, draw number %s from seed 11 is %s instead of %s', k, h[:i], a, brief(got), brief(want))
            elif op == 'B':
                got, want = draw(B), solo[12][b]
                b += 1
                check(got == want, '%s: after %s, draw number %s from seed 12 is %s instead of %s', k, h[:i], b, brief(got), brief(want))
            elif op == 'global':
                perturb(i)
            elif op == 'other':    # somebody else constructs or copies an object and draws from it
                draw(C if heavy else make(99))
                if heavy and rest == ('A',) * len(rest) and hasattr(A, 'copy'):
                    draw(A.copy())
            else:
                reseed(A, 11)
                a = 0
            st.transitions += 1
        st.states += 1
    st.traces += 1
    st.outcome((k, tuple(first)))


def init_cases(tier):
    return iter(['V', 'Q', 'Policy', 'StochasticQ', 'StochasticV', 'model', 'reward'])


def init(name, st):
    """initial parameters are determined by the seed alone"""
    import haiku as hk

    def make(seed):
        lin = lambda n: (lambda S, is_training: hk.Linear(n)(S))    # noqa: E731
        lin1 = lambda n: (lambda S, A, is_training: hk.Linear(n)(jnp.concatenate((S, A), -1)))    # noqa: E731
        if name == 'V':
            return coax.V(lambda S, is_training: hk.Linear(1)(S)[:, 0], ENV_D, random_seed=seed)
        if name == 'Q':
            return coax.Q(lin(4), ENV_D, random_seed=seed)
        if name == 'Policy':
            return coax.Policy(lambda S, is_training: {'logits': hk.Linear(4)(S)}, ENV_D, random_seed=seed)
        if name == 'StochasticV':
            return coax.StochasticV(lambda S, is_training: {'logits': hk.Linear(5)(S)}, ENV_D, (-1, 1), num_bins=5, random_seed=seed)
        if name == 'StochasticQ':
            return coax.StochasticQ(lambda S, A, is_training: {'logits': lin1(5)(S, A, is_training)}, ENV_D, (-1, 1), num_bins=5, random_seed=seed)
        if name == 'reward':
            return coax.RewardFunction(lambda S, A, is_training: lin1(1)(S, A, is_training)[:, 0], ENV_D, random_seed=seed)
        return coax.StochasticTransitionModel(lambda S, A, is_training: {'logits': lin1(3)(S, A, is_training)}, ENV_D, random_seed=seed)
    flat = {}
    for seed in (0, 1, 2, 0, 1):
        perturb(st.states)
        p = np.concatenate([np.ravel(x) for x in jax.tree_util.tree_leaves(make(seed).params)])
        if seed in flat:
            check(np.array_equal(flat[seed], p), '%s: seed %s initializes to %s and to %s', name, seed, flat[seed], p)
        flat[seed] = p
        st.states += 1
        st.transitions += 1
    free = [np.concatenate([np.ravel(x) for x in jax.tree_util.tree_leaves(make(None).params)]) for _ in range(4)]
    check(any(not np.array_equal(free[0], f) for f in free[1:]), '%s: all objects made without a seed are alike', name)
    check(not np.array_equal(flat[0], flat[1]) and not np.array_equal(flat[1], flat[2]), '%s: different seeds initialize alike', name)
    st.outcome(name)


def train_cases(tier):
    return iter(['q', 'sac', 'dist', 'ppo', 'prio'])


def train(name, st):
    """whole training runs: two with the same seeds are identical, with and without disturbance"""
    def run(disturb, base=0):
        log = []
        if name in ('q', 'dist', 'prio'):
            q = T.Q2(ENV_D) if name != 'dist' else T.SQ2(ENV_D, (-2, 2), 5)
            q.random_seed = base + 1
            pi = coax.EpsilonGreedy(q, .5)
            l = coax.td_learning.QLearning(q, optimizer=optax.adam(.05))
            tracer = coax.reward_tracing.NStep(1, .9)
            buf = coax.experience_replay.PrioritizedReplayBuffer(6, random_seed=base + 3) if name == 'prio' else coax.experience_replay.SimpleReplayBuffer(6, random_seed=base + 3)
        else:
            pi = T.PiBox(ENV_B) if name == 'sac' else T.Pi(ENV_D)
            pi.random_seed = base + 1
            if name == 'sac':
                q = T.Qbox(ENV_B, pi.proba_dist)
                T.setp(q, tab(3, 3))
                l = coax.policy_objectives.SoftPG(pi, [q], optimizer=optax.adam(.05))
            else:
                l = coax.policy_objectives.PPOClip(pi, optimizer=optax.adam(.05))
            tracer = coax.reward_tracing.NStep(1, .9)
            buf = coax.experience_replay.SimpleReplayBuffer(6, random_seed=base + 3)
        s = 0
        for t in range(9):
            if disturb:
                perturb(t)
            a, logp = pi(s, return_logp=True)
            s_next = (s + 1) % 3
            tracer.add(s, a, float(s == 1) - .3 * float(np.sum(a) > 1), t == 8, logp)
            while tracer:
                tr = tracer.pop()
                if name == 'prio':
                    buf.add(tr, Adv=l.td_error(tr))
                else:
                    buf.add(tr)
            if len(buf) >= 3:
                b = buf.sample(batch_size=2)
                l.update(b, jnp.array([1., -1.])) if name == 'ppo' else l.update(b)
                if name == 'prio':
                    buf.update(b.idx, Adv=l.td_error(b))
            log.append((s, np.asarray(a).tolist(), float(logp)))
            s = s_next
        f = pi if name in ('sac', 'ppo') else q
        return log, [np.asarray(x).tolist() for x in jax.tree_util.tree_leaves(f.params)]
    r = [run(False), run(True), run(False, base=50)]
    check(r[0] == r[1], '%s: two training runs from the same seeds differ: %s / %s', name, brief(r[0]), brief(r[1]))
    check(r[0] != r[2], '%s: training runs from different seeds are identical', name)
    st.states += 18
    st.transitions += 18
    st.traces += 2
    st.outcome(name)


C25 = [FuncSystem('interleavings', cases, interleave, 'all sequences of length 5 (6) of {draw from A, draw from B, disturb the global generators, use another object, reseed} for 16 kinds of object'),
       FuncSystem('initialization', init_cases, init), FuncSystem('training', train_cases, train, 'five whole training loops, disturbed and undisturbed')]

"""Shared driver for the reward tracers (C01 n-step, C02 Monte Carlo)."""
import numpy as np

from mc.core import BFS, FuncSystem, check
from mc.util import snapshot, expect_close, expect_tree, expect_raises

from coax.reward_tracing import NStep, MonteCarlo
from coax._base.errors import InsufficientCacheError, EpisodeDoneError

M = 16  # period of the value tables (longer than any queue we let build up)

REWARDS = {
    'distinct': [1.0, 3.0, 7.0, 11.0, 17.0, 23.0, 31.0, 41.0, 53.0, 61.0, 71.0, 83.0, 97.0, 103.0, 113.0, 127.0],
    'signed': [-1.0, 0.0, 2.5, -4.0, 0.0, 8.0, -16.0, 0.0, 1.5, -0.5, 32.0, 0.0, -3.0, 5.0, -7.0, 0.25],
    'ints': [1, 0, -2, 5, 7, 0, 3, -11, 13, 2, 4, -6, 8, 10, -12, 9],
}
LOGP = [-0.1 * (1 + (3 * i) % 7) if i % 5 else 0.0 for i in range(M)]
W = [0.5 + 0.25 * ((5 * i) % 8) for i in range(M)]


def obs(kind, i):
    if kind == 'int':
        return 100 + i
    if kind == 'vec':
        return np.array([i, -i, 0.5], dtype='float32')
    if kind == 'dict':
        return {'a': np.array([i, 2. * i]), 'b': (np.array(7 * i), np.array([[i]]))}
    raise ValueError(kind)


def act(kind, i):
    return (i * 7) % 5 if kind == 'int' else np.array([i % 3, 0.5 * i], dtype='float32')


class Model:
    def __init__(self, cfg):
        self.cfg = cfg
        self.items = []   # indices into the value tables, oldest first
        self.done = False
        self.ctr = 0
        self.g = 0.0

    def step(self, i):
        c = self.cfg
        return dict(s=obs(c['obs'], i), a=act(c['act'], i), r=REWARDS[c['rew']][i],
                    logp=LOGP[i] if c['logp'] else 0.0, w=W[i] if c['logp'] else 1.0)


class TracerBFS(BFS):
    kind = None

    def build(self, cfg):
        real = self.make(cfg)
        return real, Model(cfg)

    def clone(self, real, model):
        import copy
        m = Model(model.cfg)
        m.items, m.done, m.ctr, m.g = list(model.items), model.done, model.ctr, model.g
        return copy.deepcopy(real), m

    def ops(self, cfg, tier, model):
        out = [('pop',), ('flush',), ('reset',)]
        if len(model.items) < cfg['maxlen']:
            out += [('add', False), ('add', True)]
        return out

    def canon(self, real, model):
        return snapshot(real), tuple(model.items), model.done, model.ctr

    def depth(self, cfg, tier):
        return cfg['depth']

    def add(self, real, m, done):
        st = m.step(m.ctr)
        args = (st['s'], st['a'], st['r'], done)
        kw = dict(logp=st['logp'], w=st['w']) if m.cfg['logp'] else {}
        if m.done and m.items:
            expect_raises('adding to a finished, undrained episode', EpisodeDoneError,
                          lambda: real.add(*args, **kw))
            return
        real.add(*args, **kw)
        if not m.items:
            m.ctr = 0 if m.cfg.get('rewind', False) else m.ctr
        m.items.append(m.ctr)
        m.ctr = (m.ctr + 1) % M
        m.done = done

    def apply(self, real, m, op):
        if op[0] == 'add':
            self.add(real, m, op[1])
        elif op[0] == 'reset':
            real.reset()
            m.items, m.done, m.ctr = [], False, 0
        elif op[0] == 'pop':
            if not self.ready(m):
                expect_raises('popping from a tracer that is not ready', InsufficientCacheError,
                              real.pop)
            else:
                want = self.model_pop(m)
                self.compare(m, real.pop(), [want])
        elif op[0] == 'flush':
            if not self.ready(m):
                expect_raises('flushing a tracer that is not ready', InsufficientCacheError,
                              real.flush)
            else:
                want = []
                while self.ready(m):
                    want.append(self.model_pop(m))
                self.compare(m, real.flush(), want)
        if not m.items:
            m.ctr = 0

    def invariant(self, real, m, hist):
        check(len(real) == len(m.items), 'len() is %d, expected %d', len(real), len(m.items))
        check(bool(real) is self.ready(m), 'bool() is %s, expected %s', bool(real), self.ready(m))

    def compare(self, m, tb, want):
        import jax
        check(tb.batch_size == len(want), 'batch_size %d, expected %d', tb.batch_size, len(want))

        def stack(key):
            return jax.tree_util.tree_map(lambda *x: np.stack([np.asarray(i) for i in x]),
                                          *[w[key] for w in want])
        for k in ('S', 'A', 'logP', 'Rn', 'In', 'W'):
            expect_tree(k, getattr(tb, k), stack(k), 1e-9)
        boot = [i for i, w in enumerate(want) if w['next'] is not None]
        for k in ('S_next', 'A_next', 'logP_next'):
            got = getattr(tb, k)
            gl, wl = jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(
                tb.S if k == 'S_next' else tb.A if k == 'A_next' else tb.logP)
            check([np.shape(x) for x in gl] == [np.shape(x) for x in wl], 'bad shape of %s', k)
            for i in boot:
                expect_tree(f'{k}[{i}]', jax.tree_util.tree_map(lambda x: x[i], got),
                            want[i]['next'][k])
        if m.cfg.get('extra'):
            e = tb.extra_info
            for key in ('states', 'actions', 'rewards', 'dones', 'log_props', 'weights'):
                ws = [w['extra'][key] for w in want]          # per transition: list of n+1
                seq = e[key]
                check(len(seq) == m.cfg['n'] + 1, 'extra_info[%s] has %d entries', key, len(seq))
                for k in range(m.cfg['n'] + 1):
                    exp = jax.tree_util.tree_map(
                        lambda *x: np.stack([np.asarray(i) for i in x]), *[w[k] for w in ws])
                    expect_tree(f'extra_info[{key}][{k}]', seq[k], exp)


class NStepBFS(TracerBFS):
    name = 'nstep'
    bound = ('all add/pop/flush/reset histories; closure of the reachable states with at most '
             'maxlen pending steps')

    def make(self, cfg):
        return NStep(cfg['n'], cfg['gamma'], record_extra_info=cfg.get('extra', False))

    def configs(self, tier):
        ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
        depth = 40
        for n in ns:
            for gamma in (0.9, 0.0, 1.0) + ((0.5, 0.99) if tier == 'thorough' else ()):
                for rew in ('distinct', 'signed') + (('ints',) if tier == 'thorough' else ()):
                    yield dict(n=n, gamma=gamma, rew=rew, obs='int', act='int', logp=True,
                               maxlen=n + 3 if tier == 'quick' else n + 5, depth=depth)
        for n in ns:
            yield dict(n=n, gamma=0.9, rew='distinct', obs='dict', act='vec', logp=True,
                       maxlen=n + 2, depth=depth)
            yield dict(n=n, gamma=0.9, rew='ints', obs='vec', act='int', logp=False,
                       maxlen=n + 2, depth=depth)
            yield dict(n=n, gamma=0.9, rew='distinct', obs='int', act='int', logp=True, extra=True,
                       maxlen=n + 3, depth=depth)
        yield dict(n=2, gamma=0.5, rew='distinct', obs='dict', act='vec', logp=True, extra=True,
                   maxlen=4, depth=depth)
        # long look-ahead against short episodes
        for n in (5, 8):
            yield dict(n=n, gamma=0.9, rew='distinct', obs='int', act='int', logp=True,
                       maxlen=n + 2, depth=depth)

    def ready(self, m):
        return bool(m.items) and (m.done or len(m.items) > m.cfg['n'])

    def model_pop(self, m):
        n, gamma = m.cfg['n'], m.cfg['gamma']
        it = [m.step(i) for i in m.items]
        rn = sum((gamma ** k) * it[k]['r'] for k in range(min(n, len(it))))
        out = dict(S=it[0]['s'], A=it[0]['a'], logP=it[0]['logp'], W=it[0]['w'], Rn=float(rn))
        if len(it) > n:
            out['In'] = float(gamma ** n)
            out['next'] = dict(S_next=it[n]['s'], A_next=it[n]['a'], logP_next=it[n]['logp'])
        else:
            out['In'] = 0.0
            out['next'] = None
        if m.cfg.get('extra'):
            last = len(it) - 1
            seq = [it[min(k, last)] for k in range(n + 1)]
            out['extra'] = {
                'states': [x['s'] for x in seq], 'actions': [x['a'] for x in seq],
                'rewards': [x['r'] for x in seq], 'log_props': [x['logp'] for x in seq],
                'weights': [x['w'] for x in seq],
                'dones': [m.done and k >= last for k in range(n + 1)]}
        m.items.pop(0)
        return out


class MonteCarloBFS(TracerBFS):
    name = 'montecarlo'
    bound = ('all add/pop/flush/reset histories; closure of the reachable states with at most '
             'maxlen pending steps')

    def make(self, cfg):
        return MonteCarlo(cfg['gamma'])

    def configs(self, tier):
        for gamma in (0.9, 0.0, 1.0, 0.5):
            for rew in ('distinct', 'signed', 'ints'):
                for o, a in (('int', 'int'), ('vec', 'int'), ('dict', 'vec')):
                    for logp in (True, False):
                        yield dict(gamma=gamma, rew=rew, obs=o, act=a, logp=logp,
                                   maxlen=5 if tier == 'quick' else 9, depth=60)

    def clone(self, real, model):
        r, m = super().clone(real, model)
        return r, m

    def canon(self, real, model):
        return super().canon(real, model) + (model.g,)

    def ready(self, m):
        return bool(m.items) and m.done

    def apply(self, real, m, op):
        super().apply(real, m, op)
        if not m.items or not m.done:
            m.g = 0.0

    def model_pop(self, m):
        st = m.step(m.items.pop())
        m.g = st['r'] + m.cfg['gamma'] * m.g
        return dict(S=st['s'], A=st['a'], logP=st['logp'], W=st['w'], Rn=float(m.g), In=0.0,
                    next=None)


# ---------------------------------------------------------------- long episodes, real-valued rewards

def ep_cases(tier):
    lens = list(range(1, 41)) + [63, 64, 65, 100, 257] + ([1000, 3000] if tier == 'thorough' else [])
    for ns in ((1, 2, 5, 20, 64, 100), (None,)):
        for n in ns:
            for gamma in (.9, .997, 1.) if n is not None else (.9, .997, 1., .3):
                for drain in ('eager', 'end', 'flush'):
                    yield dict(n=n, gamma=gamma, drain=drain, lens=lens)


def episodes(c, st):
    """one tracer through many episodes of every length, drained as soon as possible, at the end, or by flush"""
    n, gamma = c['n'], c['gamma']
    real = MonteCarlo(gamma) if n is None else NStep(n, gamma)
    out_of = lambda k: dict(s=k, a=k % 7, r=(k * 37 % 101) / 3. - 15. + 1e5 * (k % 29 == 0), logp=-(k % 13) / 7., w=1. + (k % 5) / 3.)  # noqa: E731
    off = 0
    for T in c['lens']:
        steps = [out_of(off + k) for k in range(T)]
        off += T
        got = []
        for k, x in enumerate(steps):
            real.add(x['s'], x['a'], x['r'], k == T - 1, x['logp'], x['w'])
            check(len(real) == (k + 1 - len(got)), '%s: %s pending after %s additions and %s removals', c, len(real), k + 1, len(got))
            if c['drain'] == 'eager':
                while real:
                    got.append(real.pop())
            else:
                want = k == T - 1 or (n is not None and k >= n)
                check(bool(real) is want, '%s: ready is %s after %s of %s steps', c, bool(real), k + 1, T)
        if c['drain'] == 'end':
            while real:
                got.append(real.pop())
        elif c['drain'] == 'flush':
            got = list(real.flush().to_singles())
        check(len(got) == T and len(real) == 0 and not real, '%s: %s transitions from an episode of %s steps', c, len(got), T)
        if n is None:
            got = got[::-1]
        H = T if n is None else n
        r = np.array([x['r'] for x in steps])
        pw = gamma ** np.arange(min(H, T) + 1.)
        for k, t in enumerate(got):
            x = steps[k]
            seg = r[k:k + H]
            rn = float((pw[:len(seg)] * seg).sum())
            check(abs(float(t.Rn[0]) - rn) <= 1e-9 * max(1., abs(rn), np.abs(seg).max()), '%s: return of step %s of %s is %r, expected %r', c, k, T, float(t.Rn[0]), rn)
            boot = n is not None and k + n < T
            check(abs(float(t.In[0]) - (gamma ** n if boot else 0.)) < 1e-12, '%s: bootstrap factor of step %s of %s is %s', c, k, T, t.In[0])
            check((int(t.S[0]), int(t.A[0])) == (x['s'], x['a']) and abs(t.logP[0] - x['logp']) < 1e-12 and abs(t.W[0] - x['w']) < 1e-12, '%s: step %s of %s is returned as %s', c, k, T, t)
            if boot:
                y = steps[k + n]
                check((int(t.S_next[0]), int(t.A_next[0])) == (y['s'], y['a']) and abs(t.logP_next[0] - y['logp']) < 1e-12, '%s: successor of step %s of %s is %s', c, k, T, t)
            st.transitions += 1
        st.states += 1
    st.traces += 1
    st.outcome(repr(c))


NSTEP_EP = FuncSystem('long-episodes', lambda tier: (c for c in ep_cases(tier) if c['n']), episodes, 'one tracer through episodes of length 1..40 and up to 257 (thorough 3000), n up to 100, 3 ways of draining')
MC_EP = FuncSystem('long-episodes', lambda tier: (c for c in ep_cases(tier) if not c['n']), episodes, NSTEP_EP.bound)

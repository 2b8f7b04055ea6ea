"""Prioritized replay (C05 contents/updates, C06 probabilities/weights)."""
import itertools

import numpy as np

from mc import rng
rng.install()

from mc.core import BFS, FuncSystem, check, Violation   # noqa: E402
from mc.util import snapshot, expect_raises             # noqa: E402
from checks.replay_common import batch, row_is, item, scribble    # noqa: E402
from coax.experience_replay import PrioritizedReplayBuffer  # noqa: E402

ADV = [0.0, 3.3, -0.7, 8.1, -2.0, 1.0, 0.25, -613.7, 0.0, 5.003]
GRID = 40


class Model:
    """slot-free reference: the retained transitions, newest last, each with |Adv|+eps at its last update"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.items = []          # (id, key, base)
        self.n = 0
        self.key = 0
        self.alpha, self.beta, self.eps = cfg['alpha'], cfg['beta'], cfg['eps']

    def prios(self):
        return {i: b ** self.alpha for i, _, b in self.items}


def probe(real, m, tol=1e-6):
    """Sample on a dictated grid of uniforms: the frequencies and weights reveal the priorities."""
    pr = m.prios()
    tot = sum(pr.values())
    us = (np.arange(GRID) + 0.5) / GRID
    with rng.dictate(us) as used:
        tb = real.sample(batch_size=GRID)
        owned = used() == GRID
    ids = [int(i) for i in tb.idx]
    keys = {i: k for i, k, _ in m.items}
    cnt = {}
    for i in ids:
        if i not in keys:
            raise Violation(f'sampled id {i} is not retained ({sorted(keys)})')
        cnt[i] = cnt.get(i, 0) + 1
    for i, p in pr.items():
        want = GRID * p / tot
        slack = 2.01 if owned else 6 * np.sqrt(GRID * p / tot) + 2
        if abs(cnt.get(i, 0) - want) > slack:
            raise Violation(f'transition {i}: drawn {cnt.get(i, 0)} of {GRID} times on a uniform grid, '
                            f'expected {want:.2f} (priorities {pr})')
    lo = min(pr[i] for i in cnt)
    seen = set()
    for j, i in enumerate(ids):
        if i in seen:
            continue
        seen.add(i)
        err = row_is(tb, j, keys[i], w=False)
        if err:
            raise Violation('sample: ' + err)
        w = item(keys[i])['W'] * (pr[i] / lo) ** (-m.beta)
        if not np.isclose(tb.W[j], w, rtol=tol * 10, atol=1e-7):
            raise Violation(f'importance weight of transition {i}: got {tb.W[j]}, expected {w} (priorities {pr}, beta {m.beta})')


class PrioBFS(BFS):
    name = 'histories'
    bound = 'all add/update/re-add/alpha/beta/epsilon/clear sequences to the stated depth'
    split = 4

    def build(self, cfg):
        return PrioritizedReplayBuffer(cfg['cap'], alpha=cfg['alpha'], beta=cfg['beta'], epsilon=cfg['eps'],
                                       random_seed=3), Model(cfg)

    def clone(self, real, model):
        import copy
        m = Model(model.cfg)
        m.__dict__.update(model.__dict__)
        m.items = list(model.items)
        return copy.deepcopy(real), m

    def canon(self, real, m):
        return snapshot(real), tuple(m.items), m.n, m.key, m.alpha, m.beta, m.eps

    def depth(self, cfg, tier):
        return cfg['depth']

    def push(self, m, ks, advs):
        for k, a in zip(ks, advs):
            m.items.append((m.n, k, abs(a) + m.eps))
            m.n += 1
        del m.items[:-m.cfg['cap']]

    def upd(self, m, ids, advs):
        for i, a in zip(ids, advs):
            m.items = [(j, k, abs(a) + m.eps if j == i else b) for j, k, b in m.items]

    def apply(self, real, m, op):
        if op[0] == 'add':
            ks = list(range(m.key, m.key + op[1]))
            m.key += op[1]
            advs = [ADV[k % len(ADV)] for k in ks]
            real.add(batch(ks), np.array(advs))
            self.push(m, ks, advs)
        elif op[0] == 'again':
            k = m.key
            m.key += 1
            tb = batch([k])
            other = PrioritizedReplayBuffer(2, random_seed=0)
            for a in (2.0, 4.0):
                real.add(tb, np.array([a]))
                self.push(m, [k], [a])
                other.add(tb, np.array([a]))
        elif op[0] == 'update':
            ids, advs = list(op[1]), list(op[2])
            real.update(np.array(ids), np.array(advs))
            self.upd(m, ids, advs)
        elif op[0] == 'upd_sampled':     # the usual loop: sample a batch, write its TD errors back
            us = (np.arange(3) + 0.5) / 3
            with rng.dictate(us):
                tb = real.sample(batch_size=3)
            advs = [1.7 + float(r) % 4 for r in tb.Rn]
            real.update(tb.idx, np.array(advs))
            self.upd(m, [int(i) for i in tb.idx], advs)
            scribble(tb)
            with rng.dictate(np.array([.3])):
                scribble(real.sample(batch_size=1))
        elif op[0] == 'alpha':
            real.alpha = op[1]
            near = abs(op[1] / m.alpha - 1) < .0102
            check(abs(real.alpha / op[1] - 1) < (.0102 if near else 1e-9), 'alpha was set to %s but reads %s', op[1], real.alpha)
            m.alpha = real.alpha
        elif op[0] == 'anneal':          # many small steps; a step of less than 1% may be left out
            a = float(m.alpha)
            f = .994 if op[1] < a else 1.006
            while (a > op[1]) == (f < 1):
                a *= f
                real.alpha = a
                check(abs(real.alpha / a - 1) < .0102, 'alpha was set to %s but reads %s', a, real.alpha)
            m.alpha = real.alpha
        elif op[0] == 'beta':
            real.beta = op[1]
            check(real.beta == op[1], 'beta was set to %s but reads %s', op[1], real.beta)
            m.beta = op[1]
        elif op[0] == 'eps':
            real.epsilon = op[1]
            check(real.epsilon == op[1], 'epsilon was set to %s but reads %s', op[1], real.epsilon)
            m.eps = op[1]
        elif op[0] == 'clear':
            real.clear()
            m.items, m.n = [], 0
        elif op[0] == 'bad':
            expect_raises('adding a non-batch', TypeError, lambda: real.add((1, 2), np.array([1.0])))
            for attr in ('alpha', 'beta', 'epsilon'):
                for v in (0, -1.0, 'x', None):
                    expect_raises(f'{attr}={v!r}', TypeError, lambda: setattr(real, attr, v))

    def invariant(self, real, m, hist):
        check(len(real) == len(m.items), 'len() = %d, expected %d', len(real), len(m.items))
        check(bool(real) is bool(m.items), 'bool()')
        check(real.capacity == m.cfg['cap'], 'capacity')
        got = list(real)
        check(sorted(int(t.idx[0]) for t in got) == [i for i, _, _ in m.items],
              'retained ids %s, expected %s', sorted(int(t.idx[0]) for t in got), [i for i, _, _ in m.items])
        keys = {i: k for i, k, _ in m.items}
        for t in got:
            check(t.batch_size == 1, 'stored batch_size')
            err = row_is(t, 0, keys[int(t.idx[0])])
            check(err is None, 'stored: %s', err)
        if m.items:
            probe(real, m)


class Contents(PrioBFS):
    def configs(self, tier):
        for cap in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            yield dict(cap=cap, alpha=1.0, beta=1.0, eps=0.5, depth=4 if tier == 'quick' else 5)
        yield dict(cap=3, alpha=0.6, beta=0.4, eps=0.01, depth=4)

    def ops(self, cfg, tier, m):
        cap = cfg['cap']
        out = [('add', b) for b in sorted({1, 2, cap, cap + 1, 2 * cap + 1})] + [('again',), ('clear',), ('bad',)]
        n = m.n
        live = [i for i, _, _ in m.items]
        if live:
            out.append(('upd_sampled',))
        ups = set()
        if n:
            ups.add(((n - 1,), (7.0,)))                                # newest
            ups.add(((live[0],), (-4.7003,)))                             # oldest retained
        if n > cap:
            stale, fresh = n - 1 - cap, n - 1                           # same slot, evicted vs retained
            ups.add(((stale,), (9.0,)))
            ups.add(((stale, fresh), (9.0, 2.5)))
            ups.add(((fresh, stale), (2.5, 9.0)))
            ups.add(((fresh, live[0], stale), (6501.3, 0.0, 9.0)))
        ups.add(((n,), (9.0,)))                                         # not added yet
        ups.add(((n + cap - 1,), (9.0,)))
        if len(live) >= 2:
            ups.add(((live[1], live[0]), (0.0, -7.0011)))
            ups.add(((live[0], live[0]), (1.0, 3.3)))                   # repeated: last one counts
        out += [('update',) + u for u in sorted(ups)]
        return out


class Weights(PrioBFS):
    name = 'retuning'

    def configs(self, tier):
        d = 5 if tier == 'quick' else 6
        for cap in (2, 3) if tier == 'quick' else (2, 3, 4, 5):
            yield dict(cap=cap, alpha=1.0, beta=1.0, eps=1e-4, depth=d)
            yield dict(cap=cap, alpha=0.6, beta=0.4, eps=0.1, depth=d)

    def ops(self, cfg, tier, m):
        cap = cfg['cap']
        out = [('add', 1), ('add', cap + 1), ('clear',)]
        out += [('alpha', a) for a in (0.5, 2.0) if a != m.alpha]
        if .55 < m.alpha < 1.9:
            out.append(('anneal', .5))
        out += [('beta', b) for b in (0.5, 1.0) if b != m.beta]
        out += [('eps', e) for e in (0.25,) if e != m.eps]
        if m.n:
            out.append(('update', (m.n - 1,), (3.6,)))
        return out


def grid_cases(tier):
    for cap in (1, 2, 3, 4, 5, 7, 8) + ((6, 9, 12, 16) if tier == 'thorough' else ()):
        for fill in sorted({1, cap - 1, cap, cap + 1, 2 * cap + 1} - {0}):
            for alpha in (0.3, 1.0, 2.0, 4.0):
                for beta in (0.4, 1.0, 2.0):
                    for eps in (1e-4, 1.0):
                        yield dict(cap=cap, fill=fill, alpha=alpha, beta=beta, eps=eps)


def grid(cfg, st):
    real = PrioritizedReplayBuffer(cfg['cap'], alpha=cfg['alpha'], beta=cfg['beta'], epsilon=cfg['eps'], random_seed=1)
    m = Model(cfg)
    b = PrioBFS()
    for start in range(0, cfg['fill'], 3):
        b.apply(real, m, ('add', min(3, cfg['fill'] - start)))
        probe(real, m)
        st.transitions += 1
    # retune and compare with a buffer that was tuned like that from the start
    b.apply(real, m, ('alpha', cfg['alpha'] * 1.7))
    probe(real, m)
    b.apply(real, m, ('beta', cfg['beta'] * 0.5))
    probe(real, m)
    for a in (.5, cfg['alpha'] * 1.7):
        b.apply(real, m, ('alpha', a))
        probe(real, m)
    live = [i for i, _, _ in m.items]
    b.apply(real, m, ('update', tuple(live), tuple(float(3 * i % 7) for i in live)))
    probe(real, m)
    for size in (1, 2, 5):
        pr = m.prios()
        for u0 in (0.0, 0.25, 0.5, 0.75, 0.999999):
            us = [(u0 + j / size) % 1.0 for j in range(size)]
            with rng.dictate(us):
                tb = real.sample(batch_size=size)
            check(tb.batch_size == size, 'sample size')
            ids = [int(i) for i in tb.idx]
            check(set(ids) <= set(live), 'sampled ids %s not retained', ids)
            lo = min(pr[i] for i in ids)
            keys = {i: k for i, k, _ in m.items}
            for j, i in enumerate(ids):
                check(np.isclose(tb.W[j], item(keys[i])['W'] * (pr[i] / lo) ** (-m.beta), rtol=1e-3),
                      'importance weights %s for ids %s with priorities %s', tb.W, ids, pr)
            st.transitions += 1
    st.states += 1
    st.traces += 1
    st.outcome(repr(cfg))
    st.sample(cfg, 3)


def long_cases(tier):
    for cap in (1, 2, 3, 5, 8, 16, 60, 64, 100, 128):
        for total in (cap + 1, 2 * cap, 130, 257, 300):
            yield [cap, total, 7]
    yield [1000, 34000, 1000]
    yield [999, 66000, 1500]


def long(case, st):
    """ids that were handed out long ago: updating any of them changes nothing, updating a current one changes that one only"""
    cap, total, step = case
    real = PrioritizedReplayBuffer(cap, alpha=1., beta=1., epsilon=.5, random_seed=1)
    n = 0
    while n < total:
        k = min(step, total - n)
        real.add(batch(np.arange(n, n + k) % 40 if step < 1000 else list(range(k))), np.ones(k))
        n += k
    live = set(range(max(0, n - cap), n))
    check({int(t.idx[0]) for t in real} == live, '%s: the retained ids are not the last %s', case, cap)
    stale = np.array(sorted(set(range(n)) - live))
    if len(stale) > 2000:
        stale = np.concatenate([stale[:300], stale[::137], stale[-1100:]])
    if len(stale):
        real.update(stale, np.full(len(stale), 99.))
    real.update(np.arange(n, n + 2 * cap), np.full(2 * cap, 99.))
    weigh(case, real, {i: 1.5 for i in live})
    pick = sorted(live)[:: max(1, cap // 7)]
    real.update(np.array(pick), np.array([3. + j for j in range(len(pick))]))
    weigh(case, real, {**{i: 1.5 for i in live}, **{i: 3.5 + j for j, i in enumerate(pick)}})
    st.states += 1
    st.transitions += n
    st.outcome(repr(case))


def weigh(case, real, pr):
    """the priorities of everything that can be sampled, read off the importance weights"""
    N = 4 * len(pr)
    with rng.dictate((np.arange(N) + .5) / N):
        tb = real.sample(batch_size=N)
    ids = [int(i) for i in tb.idx]
    check(set(ids) <= set(pr), '%s: sampled ids that are not retained: %s', case, sorted(set(ids) - set(pr))[:5])
    lo = min(pr[i] for i in ids)
    base = {int(t.idx[0]): float(t.W[0]) for t in real}
    got = np.array([float(w) / base[i] for w, i in zip(tb.W, ids)])
    want = np.array([lo / pr[i] for i in ids])
    bad = np.flatnonzero(np.abs(got / want - 1) > 1e-3)
    check(len(bad) == 0, '%s: weight of transition %s is %s, expected %s', case, *((ids[bad[0]], got[bad[0]], want[bad[0]]) if len(bad) else (0, 0, 0)))

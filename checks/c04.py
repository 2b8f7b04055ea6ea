"""C04: the uniform replay buffer retains exactly the most recent transitions and samples them fairly."""
import itertools
import random

import numpy as np

from mc.core import BFS, FuncSystem, check
from mc.util import snapshot, expect_raises
from checks.replay_common import batch, row_is, scribble
from coax.experience_replay import SimpleReplayBuffer


class Model:
    def __init__(self, cfg):
        self.cfg, self.items, self.n, self.key = cfg, [], 0, 0   # items: list of (id, key)


class BufBFS(BFS):
    name = 'histories'
    bound = 'all add/re-add/sample/clear/tamper sequences to the stated depth'

    def configs(self, tier):
        for cap in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
            for seed in (0, 7):
                yield dict(cap=cap, seed=seed, extra=False, depth=4 if tier == 'quick' else 5)
        yield dict(cap=3, seed=1, extra=True, depth=4)

    def build(self, cfg):
        return SimpleReplayBuffer(cfg['cap'], random_seed=cfg['seed']), Model(cfg)

    def clone(self, real, model):
        import copy
        m = Model(model.cfg)
        m.items, m.n, m.key = list(model.items), model.n, model.key
        return copy.deepcopy(real), m

    def ops(self, cfg, tier, m):
        cap = cfg['cap']
        adds = sorted({1, 2, cap, cap + 1, 2 * cap + 1})
        out = [('add', b) for b in adds] + [('again', 2), ('clear',)]
        out += [('sample', k) for k in sorted({1, 2, len(m.items), len(m.items) + 1})]
        out += [('bad',)]
        return out

    def canon(self, real, m):
        return snapshot(real), tuple(m.items), m.n, m.key

    def depth(self, cfg, tier):
        return cfg['depth']

    def push(self, m, ks):
        for k in ks:
            m.items.append((m.n, k))
            m.n += 1
        del m.items[:-m.cfg['cap']]

    def apply(self, real, m, op):
        if op[0] == 'add':
            ks = list(range(m.key, m.key + op[1]))
            m.key += op[1]
            real.add(batch(ks, m.cfg['extra']))
            self.push(m, ks)
        elif op[0] == 'again':      # the very same object is added repeatedly
            k = m.key
            m.key += 1
            tb = batch([k], m.cfg['extra'])
            other = SimpleReplayBuffer(3, random_seed=0)
            for _ in range(op[1]):
                real.add(tb)
                self.push(m, [k])
                other.add(tb)       # and to a second buffer: must not disturb the first
        elif op[0] == 'clear':
            real.clear()
            m.items, m.n = [], 0
        elif op[0] == 'bad':
            expect_raises('adding a non-batch', TypeError, lambda: real.add((1, 2, 3)))
        elif op[0] == 'sample':
            k = op[1]
            random.seed(12345)      # somebody else uses the global generator
            if k > len(m.items):
                expect_raises('sampling more than is stored', ValueError, lambda: real.sample(batch_size=k))
                return
            if k == 0:
                return
            tb = real.sample(batch_size=k)
            check(tb.batch_size == k, 'sample of %d has size %d', k, tb.batch_size)
            ids = [int(i) for i in tb.idx]
            lookup = dict(m.items)
            check(len(set(ids)) == k, 'sample repeats a transition: ids %s', ids)
            for i, id_ in enumerate(ids):
                check(id_ in lookup, 'sampled id %d is not retained (%s)', id_, sorted(lookup))
                err = row_is(tb, i, lookup[id_])
                check(err is None, 'sample: %s', err)
            scribble(tb)            # (the contents must not change with it: see invariant)

    def invariant(self, real, m, hist):
        check(len(real) == len(m.items), 'len() = %d, expected %d', len(real), len(m.items))
        check(bool(real) is bool(m.items), 'bool()')
        check(real.capacity == m.cfg['cap'], 'capacity')
        got = list(real)
        check(len(got) == len(m.items), 'iteration gives %d transitions, expected %d', len(got), len(m.items))
        for t, (id_, key) in zip(got, m.items):
            check(t.batch_size == 1, 'stored batch_size')
            check(int(t.idx[0]) == id_, 'ids in storage order: got %s, expected %s',
                  [int(x.idx[0]) for x in got], [i for i, _ in m.items])
            err = row_is(t, 0, key)
            check(err is None, 'stored: %s', err)


def dist_cases(tier):
    for cap in (1, 2, 3, 4):
        for fill in range(1, cap + 3):
            for k in range(1, min(fill, cap) + 1):
                yield [cap, fill, k]


def dist(case, st):
    """Every k-subset of the retained transitions is drawn, equally often over all enumerated seeds."""
    cap, fill, k = case
    n = min(cap, fill)
    subsets = list(itertools.combinations(range(fill - n, fill), k))
    draws = 60 * len(subsets)
    counts = dict.fromkeys(subsets, 0)
    first = dict.fromkeys(range(fill - n, fill), 0)
    for seed in range(draws):
        buf = SimpleReplayBuffer(cap, random_seed=seed)
        buf.add(batch(list(range(fill))))
        ids = [int(i) for i in buf.sample(batch_size=k).idx]
        counts[tuple(sorted(ids))] += 1
        first[ids[0]] += 1
        st.transitions += 1
    for name, c in (('subset', counts), ('position', first)):
        p = 1 / len(c)
        sd = (draws * p * (1 - p)) ** 0.5
        for key, cnt in c.items():
            check(abs(cnt - draws * p) <= 6 * sd + 1e-9, 'uniform sampling is skewed: %s %s drawn %d of %d times',
                  name, key, cnt, draws)
    st.states += len(subsets)
    st.traces += 1
    st.outcome(repr(case))


def repro_cases(tier):
    progs = list(itertools.product(('a', 'b', 'r', 'c'), repeat=5 if tier == 'quick' else 6))
    for seed in (0, 3):
        for p in progs:
            if p.count('a') >= 2:
                yield [seed, ''.join(p)]


def repro(case, st):
    """The samples of a seeded buffer do not depend on what else uses randomness in between."""
    seed, prog = case

    def mk(s):
        b = SimpleReplayBuffer(6, random_seed=s)
        b.add(batch(list(range(8))))
        return b
    ref = mk(seed)
    want = []
    for c in prog:
        if c == 'a':
            want.append(ref.sample(3).idx.tolist())
        elif c == 'c':
            ref.clear()
            ref.add(batch(list(range(7))))
    a = mk(seed)
    b = mk(seed + 1)
    got = []
    for c in prog:
        if c == 'a':
            got.append(a.sample(3).idx.tolist())
        elif c == 'b':
            b.sample(2)
        elif c == 'c':
            a.clear()
            a.add(batch(list(range(7))))
        else:
            random.seed(99)
            random.random()
        st.transitions += 1
    check(got == want, 'seeded samples depend on other users of randomness: %s vs %s', got, want)
    st.states += 1
    st.traces += 1
    st.outcome(repr(got))


def stream_cases(tier):
    for n, k in [(2, 1), (3, 1), (3, 2), (4, 2), (5, 2), (5, 4)] + [(40, 1), (40, 3), (40, 30)]:
        yield [n, k]
    yield ['whole', 0]


def stream(case, st):
    """successive samples of one buffer: every transition equally often, and every pair of consecutive draws"""
    n, k = case
    if n == 'whole':
        for n in list(range(1, 24)) + [63, 64, 65, 100]:
            buf = SimpleReplayBuffer(n, random_seed=n)
            buf.add(batch(list(range(n))))
            for _ in range(6):
                ids = buf.sample(batch_size=n).idx.tolist()
                check(sorted(ids) == list(range(n)), 'a sample of all %s transitions has ids %s', n, sorted(ids))
                st.transitions += 1
            st.states += 1
        st.outcome('whole')
        return
    buf = SimpleReplayBuffer(n, random_seed=5)
    for start in range(0, n + 7, 5):
        buf.add(batch(list(range(start, start + 5))))
    live = sorted(int(t.idx[0]) for t in buf)
    draws = 1500 if n < 10 else 400
    cnt, pairs, old = dict.fromkeys(live, 0), {}, None
    for _ in range(draws):
        ids = buf.sample(batch_size=k).idx.tolist()
        for i in ids:
            cnt[i] += 1
        if old is not None:
            pairs[old, ids[0]] = pairs.get((old, ids[0]), 0) + 1
        old = ids[0]
        st.transitions += 1
    p = k / n
    for i, c in cnt.items():
        check(abs(c - draws * p) <= 6 * (draws * p * (1 - p)) ** .5 + 1e-9, 'successive samples are skewed: transition %s of %s drawn %s of %s times', i, n, c, draws)
    if n < 10:
        p = 1 / n ** 2
        for i in itertools.product(live, repeat=2):
            c = pairs.get(i, 0)
            check(abs(c - draws * p) <= 6 * (draws * p * (1 - p)) ** .5 + 1, 'successive samples depend on each other: %s followed by %s %s of %s times', *i, c, draws)
    st.states += n
    st.traces += 1
    st.outcome(repr(case))


SYSTEMS = [BufBFS(), FuncSystem('succession', stream_cases, stream, 'streams of 400-1500 successive samples, up to 100 transitions'), FuncSystem('uniformity', dist_cases, dist, 'capacity<=4, all fills, all sample sizes'),
           FuncSystem('seed-isolation', repro_cases, repro, 'all interleavings of two buffers, clears and the global generator')]
ASSUMPTIONS = ['capacity <= 4 (quick) / 5 (thorough), histories up to the stated depth',
               'uniformity is judged by exact counts over an enumerated range of seeds (6 sigma band)']

"""Segment trees (C07 reductions, C08 inverse CDF / weighted sampling)."""
import functools
import itertools

import numpy as np

from mc import rng
rng.install()
from mc.core import BFS, FuncSystem, check, Violation   # noqa: E402
from mc.util import snapshot, expect_raises, expect_close  # noqa: E402
from coax.utils import SegmentTree, SumTree, MinTree, MaxTree  # noqa: E402

KINDS = {
    'sum': (lambda c: SumTree(c, random_seed=0), lambda a, b: a + b, 0.0, (0.0, 1.0, 5.0)),
    'min': (lambda c: MinTree(c), min, float('inf'), (-2.0, 1.0, 5.0)),
    'max': (lambda c: MaxTree(c), max, -float('inf'), (-2.0, 1.0, 5.0)),
    'prod': (lambda c: SegmentTree(c, np.multiply, 1.0), lambda a, b: a * b, 1.0, (0.5, 3.0, -1.0)),
    # associative but not commutative: left-most finite value (checks ordering of the reduction)
    'first': (lambda c: SegmentTree(c, lambda a, b: np.where(np.isnan(a), b, a), float('nan')),
              lambda a, b: b if a != a else a, float('nan'), (1.0, 2.0, 5.0)),
}


class TreeBFS(BFS):
    name = 'set-reduce'
    split = 1
    bound = 'closure of all set_values histories over a 3-letter (large capacities: 2-letter) value alphabet'

    def configs(self, tier):
        for kind in KINDS:
            for cap in (1, 2, 3, 4, 5):
                yield dict(kind=kind, cap=cap, letters=3 if cap <= (4 if tier == 'quick' else 5) else 2, depth=40)
            for cap in (6, 7, 8) + ((9, 10) if tier == 'thorough' else ()):
                # deep closure is large: bound the number of updates
                yield dict(kind=kind, cap=cap, letters=2, depth=2 if tier == 'quick' else 3)
        for cap in (9, 13, 17) if tier == 'quick' else (12, 13, 15, 16, 17, 31, 32, 33):
            yield dict(kind='sum', cap=cap, letters=1, depth=2)
            yield dict(kind='min', cap=cap, letters=1, depth=2)

    def build(self, cfg):
        make, f, unit, alphabet = KINDS[cfg['kind']]
        return make(cfg['cap']), [unit] * cfg['cap']

    def clone(self, real, model):
        import copy
        return copy.deepcopy(real), list(model)

    def canon(self, real, model):
        return snapshot(np.concatenate([np.ravel(real[l]) for l in range(real.height)])), tuple(map(repr, model))

    def depth(self, cfg, tier):
        return cfg['depth']

    def ops(self, cfg, tier, m):
        cap = cfg['cap']
        al = KINDS[cfg['kind']][3][:cfg['letters']]
        al = al if cfg['letters'] > 1 else KINDS[cfg['kind']][3][2:]
        out = [('one', i, v) for i in range(cap) for v in al]
        a, b = al[-1], al[0]
        out += [('neg', -1, a), ('neg', -cap, b), ('npint', cap - 1, a)]
        out += [('batch', (0, cap - 1), (a, b)), ('batch', (cap - 1, 0), (a, b)),
                ('batch', (cap // 2, cap // 2), (b, a)),                 # repeated index: last one counts
                ('list', tuple(range(0, cap, 2)), tuple((a, b)[i % 2] for i in range((cap + 1) // 2))),
                ('all', tuple((a, b)[(i * i) % 2] for i in range(cap))),
                ('none', tuple((b, a)[i % 2] for i in range(cap))),
                ('scalar', tuple(range(cap)), a), ('empty',), ('bad',)]
        return out

    def apply(self, real, m, op):
        cap = len(m)
        k = op[0]
        if k == 'one':
            real.set_values(op[1], op[2])
            m[op[1]] = op[2]
        elif k == 'npint':
            real.set_values(np.array(op[1]), np.array(op[2]))
            m[op[1]] = op[2]
        elif k == 'neg':
            real.set_values(np.array([op[1]]), np.array([op[2]]))
            m[op[1]] = op[2]
        elif k == 'batch':
            real.set_values(np.array(op[1]), np.array(op[2]))
            for i, v in zip(op[1], op[2]):
                m[i] = v
        elif k == 'list':
            real.set_values(list(op[1]), list(op[2]))
            for i, v in zip(op[1], op[2]):
                m[i] = v
        elif k == 'all':
            real.set_values(..., np.array(op[1]))
            m[:] = op[1]
        elif k == 'none':
            real.set_values(None, np.array(op[1]))
            m[:] = op[1]
        elif k == 'scalar':
            real.set_values(np.array(op[1]), op[2])
            m[:] = [op[2]] * cap
        elif k == 'empty':
            real.set_values(np.array([], dtype='int32'), np.array([]))
        elif k == 'bad':
            for bad in (cap, -cap - 1, np.array([0, cap]), np.array([0.5]), 'x', np.array([[0]])):
                expect_raises(f'set_values({bad!r})', IndexError, lambda: real.set_values(bad, 1.0))
            for bad in (real.height, -real.height - 1, (0, 0, 0), 'x'):
                expect_raises(f'tree[{bad!r}]', IndexError, lambda: real[bad])

    def invariant(self, real, m, hist):
        # which tree is this?  (the op alphabet does not say; find the reducer by type)
        f, unit = self.reducer(real)
        cap = len(m)
        expect_close('values', real.values, np.array(m))

        def red(a, b):
            return functools.reduce(f, m[a:b], unit)
        expect_close('root value', real.root_value, red(0, cap))
        # levels
        check(2 ** (real.height - 1) >= cap > (2 ** (real.height - 2) if real.height > 1 else 0), 'height')
        for lvl in range(real.height):
            span = 2 ** (real.height - 1 - lvl)
            got = np.asarray(real[lvl])
            check(got.ndim == 1 and got.size >= -(-cap // span), 'level %d has %s nodes', lvl, got.shape)
            want = [red(i * span, min(cap, (i + 1) * span)) for i in range(got.size)]
            expect_close(f'level {lvl}', got, np.array(want))
            expect_close(f'level {lvl} (negative lookup)', real[lvl - real.height], got)
            expect_close(f'tree[{lvl}, 0]', real[lvl, 0], got[0])
        # all ranges, one batched call and scalar calls
        pairs = [(a, b) for a in range(cap) for b in range(a + 1, cap + 1)]
        want = np.array([red(a, b) for a, b in pairs])
        starts, stops = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
        expect_close('partial_reduce (batch of all ranges)', real.partial_reduce(starts, stops), want)
        if len(hist) <= 1:
            for (a, b), w in zip(pairs, want):
                expect_close(f'partial_reduce({a}, {b})', real.partial_reduce(a, b), np.array([w]))
                expect_close(f'partial_reduce([{a}], {b})', real.partial_reduce(np.array([a]), b), np.array([w]))
            expect_close('partial_reduce()', real.partial_reduce(), np.array([red(0, cap)]))
            for a in range(cap):
                expect_close(f'partial_reduce({a})', real.partial_reduce(a), np.array([red(a, cap)]))
                expect_close(f'partial_reduce(-{a + 1})', real.partial_reduce(-a - 1), np.array([red(cap - 1 - a, cap)]))
            ends = np.arange(1, cap + 1)
            expect_close('partial_reduce(0, [1..cap])', real.partial_reduce(0, ends),
                         np.array([red(0, int(e)) for e in ends]))
            beg = np.arange(cap)
            expect_close('partial_reduce([0..cap-1])', real.partial_reduce(beg),
                         np.array([red(int(e), cap) for e in beg]))
            for a, b in [(c, c) for c in range(cap + 1)] + [(0, cap + 1), (cap, cap + 1), (1, cap + 2)] + (
                    [(1, 0), (cap - 1, 1)] if cap > 2 else []):
                expect_raises(f'partial_reduce({a}, {b}) (empty, reversed or out of range)', IndexError,
                              lambda: real.partial_reduce(a, b))

    @staticmethod
    def reducer(real):
        if isinstance(real, SumTree):
            return KINDS['sum'][1:3]
        if isinstance(real, MinTree):
            return KINDS['min'][1:3]
        if isinstance(real, MaxTree):
            return KINDS['max'][1:3]
        return KINDS['prod' if real.init_value == 1.0 else 'first'][1:3]


# ------------------------------------------------------------------------------------------- C08

def icdf_cases(tier):
    for cap in (1, 2, 3, 4, 5) + ((6,) if tier == 'thorough' else ()):
        for vals in itertools.product((0.0, 1.0, 3.0), repeat=cap):
            if sum(vals):
                yield [list(vals)]
    for cap in (7, 8, 9, 16, 17):
        for i in range(cap):
            for j in range(cap):
                v = [0.0] * cap
                v[i] = 1.0
                v[j] += 2.0
                yield [v]
    for base in (0.1, 1 / 3, 1e-8, 1e8, 0.7):
        for cap in (1, 2, 3, 5, 7, 11):
            yield [[base * (1 + (i * 7) % 3) for i in range(cap)]]
            yield [[base * ((i * 7) % 3) + (1e-12 if i == 0 else 0) for i in range(cap)]]
    for big in (1e6, 1e12):
        for cap in (2, 3, 4):
            yield [[big] + [1.0] * (cap - 1)]
            yield [[1.0] * (cap - 1) + [big]]


def icdf(case, st):
    vals = np.array(case[0])
    cap = len(vals)
    t = SumTree(cap, random_seed=5)
    t.set_values(..., vals)
    cum = np.concatenate([[0.0], np.cumsum(vals)])
    tot = cum[-1]
    pos = [i for i in range(cap) if vals[i] > 0]
    us = {0.0, 1.0, np.nextafter(1, 0), 1 - 2**-53, np.nextafter(0, 1), 0.5}
    for i in range(cap):
        for f in (0.0, 1e-9, 0.25, 0.5, 0.75, 1 - 1e-9, 1.0):
            us.add(min(1.0, max(0.0, (cum[i] + f * vals[i]) / tot)))
    for k in range(33):
        us.add(k / 32)
    us = np.array(sorted(us))
    idx = t.inverse_cdf(us)
    check(np.shape(idx) == us.shape, 'shape of inverse_cdf')
    tol = 1e-9 * tot
    last = -1
    for u, i in zip(us, idx):
        check(0 <= i < cap, 'inverse_cdf(%r) = %d lies outside the tree (values %s)', u, i, vals.tolist())
        check(vals[i] > 0, 'inverse_cdf(%r) = %d has zero weight (values %s)', u, i, vals.tolist())
        check(cum[i] - tol <= u * tot <= cum[i + 1] + tol,
              'inverse_cdf(%r) = %d, but its share of [0,1] is [%r, %r]', u, i, cum[i] / tot, cum[i + 1] / tot)
        check(i >= last, 'inverse_cdf is not monotone at %r', u)
        last = i
        st.transitions += 1
    for u in us[:: max(1, len(us) // 6)]:
        one = t.inverse_cdf(float(u))
        check(np.ndim(one) == 0 and one == idx[list(us).index(u)], 'scalar and batched inverse_cdf differ at %r', u)
    check(list(t.inverse_cdf([0.0, 1.0])) == [idx[0], idx[-1]], 'list input')
    for bad in (-1e-9, 1 + 1e-9, [0.5, 2.0]):
        expect_raises(f'inverse_cdf({bad})', ValueError, lambda: t.inverse_cdf(bad))
    # sampling draws through the inverse CDF: dictate the uniforms
    grid = (np.arange(64) + 0.5) / 64
    with rng.dictate(grid) as used:
        s = t.sample(64)
        owned = used() == 64
    check(s.shape == (64,), 'sample shape')
    cnt = np.bincount(s, minlength=cap)
    check(len(cnt) == cap, 'sample outside the tree')
    for i in range(cap):
        w = 64 * vals[i] / tot
        check((vals[i] > 0 or cnt[i] == 0) and abs(cnt[i] - w) <= (2.01 if owned else 6 * w ** .5 + 2),
              'index %d drawn %d of 64 times on a uniform grid, expected %.2f', i, cnt[i], w)
    # same seed, same draws; setting the seed restarts the stream
    a, b = SumTree(cap, random_seed=11), SumTree(cap, random_seed=11)
    a.set_values(..., vals)
    b.set_values(..., vals)
    x = a.sample(5).tolist()
    check(x == b.sample(5).tolist(), 'equal seeds give different samples')
    a.random_seed = 11
    check(a.random_seed == 11 and x == a.sample(5).tolist(), 're-seeding does not restart the stream')
    # after an update the distribution follows
    t.set_values(np.array([0]), np.array([0.0 if cap > 1 and len(pos) > 1 else 2.0]))
    v2 = np.array(t.values)
    for u in (0.0, 0.3, 0.7, 1.0):
        i = t.inverse_cdf(u)
        c2 = np.concatenate([[0], np.cumsum(v2)])
        check(v2[i] > 0 and c2[i] - 1e-9 * c2[-1] <= u * c2[-1] <= c2[i + 1] + 1e-9 * c2[-1],
              'after an update inverse_cdf(%r) = %d (values %s)', u, i, v2.tolist())
    st.states += 1
    st.traces += 1
    st.outcome(tuple(idx.tolist()))
    st.sample({'values': case[0]}, 3)


def empty_cases(tier):
    for cap in (1, 2, 3, 4, 5, 8):
        yield [cap]


def empty(case, st):
    t = SumTree(case[0], random_seed=0)
    expect_raises('inverse_cdf on an all-zero tree', RuntimeError, lambda: t.inverse_cdf(0.5))
    expect_raises('sample on an all-zero tree', RuntimeError, lambda: t.sample(3))
    for bad in (0, -1, 1.5, None):
        expect_raises(f'sample({bad})', TypeError, lambda: t.sample(bad))
    st.states += 1
    st.transitions += 6
    st.traces += 1
    st.outcome(case[0])

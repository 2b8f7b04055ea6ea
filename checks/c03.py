"""C03: a batch of transitions can be split, re-assembled, copied and compared without loss."""
import copy
import itertools

import jax
import numpy as np
import cloudpickle

from mc.core import FuncSystem, check
from mc.util import expect_tree, expect_raises, tree_close
from coax.reward_tracing import TransitionBatch
from coax.utils import chunks_pow2, dumps, loads

FIELDS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W', 'idx', 'extra_info')


def obs(kind, b, salt):
    base = np.arange(b) * 10 + salt
    if kind == 'int':
        return base
    if kind == 'vec':
        return np.stack([base, -base, base * 0.5], axis=1).astype('float32')
    return {'x': base.astype('float64'), 'y': (np.stack([base, base + 1], 1), base[:, None, None])}


def fields(cfg):
    b = cfg['b']
    r = np.arange(b)
    f = dict(
        S=obs(cfg['obs'], b, 1), A=(r * 3) % 5 if cfg['act'] == 'int' else np.stack([r, r * .5], 1),
        logP=-0.1 * r - 0.5, Rn=np.sin(r + 1.0), In=np.where(r % 2, 0.9, 0.0),
        S_next=obs(cfg['obs'], b, 4))
    if cfg['next']:
        f.update(A_next=((r * 3) % 5 + 1) if cfg['act'] == 'int' else np.stack([r + 7, r * .25], 1),
                 logP_next=-0.2 * r - 0.1)
    if cfg['w']:
        f['W'] = 0.5 + 0.1 * r
    if cfg['idx']:
        f['idx'] = 100 + 2 * r
    if cfg['extra']:
        f['extra_info'] = {'states': (r + 1, r + 2), 'dones': (r % 2 == 0, r % 2 == 1)}
    return f


def full(cfg):
    f = fields(cfg)
    for k in FIELDS:
        f.setdefault(k, None)
    if f['W'] is None:
        f['W'] = np.ones(cfg['b'])
    if f['idx'] is None:
        f['idx'] = np.arange(cfg['b'])
    return f


def cases(tier):
    top = 9 if tier == 'quick' else 33
    for b in range(1, top + 1):
        for o, a in (('int', 'int'), ('vec', 'vec'), ('dict', 'int')):
            for nxt, w, idx, extra in itertools.product((True, False), repeat=4):
                yield dict(b=b, obs=o, act=a, next=nxt, w=w, idx=idx, extra=extra)


def row(tree, i):
    return jax.tree_util.tree_map(lambda x: x[i:i + 1], tree)


def same(tb, want, what):
    check(isinstance(tb, TransitionBatch), '%s is not a TransitionBatch', what)
    for k in FIELDS:
        expect_tree(f'{what}.{k}', getattr(tb, k), want[k])


def split(cfg, st):
    f, want, b = fields(cfg), full(cfg), cfg['b']
    tb = TransitionBatch(**f)
    same(tb, want, 'batch')
    check(tb.batch_size == b, 'batch_size')
    rows = [{k: row(want[k], i) for k in FIELDS} for i in range(b)]
    singles = list(tb.to_singles())
    check(len(singles) == b, 'to_singles gave %d transitions, expected %d', len(singles), b)
    rev = b > 1 and not tree_close(singles[0].idx, rows[0]['idx'])
    for i, s in enumerate(reversed(singles) if rev else singles):
        same(s, rows[i], f'single[{i}]')
        check(s.batch_size == 1, 'single batch_size')
        st.transitions += 1
    ordered = list(reversed(singles)) if rev else singles
    cat = jax.tree_util.tree_map(lambda *l: np.concatenate(l, axis=0), *ordered)
    same(cat, want, 'concatenated singles')
    check(cat == tb and tb == cat, 'concatenated singles != original')
    # identity of a single: relabelling the original must not relabel a transition split off before
    tb2 = TransitionBatch(**fields(cfg))
    parts = list(tb2.to_singles())
    tb2.idx = tb2.idx + 1000
    tb2.W = tb2.W * 7
    for i, s in enumerate(reversed(parts) if rev else parts):
        same(s, rows[i], f'single[{i}] after the source batch was relabelled')
    same(TransitionBatch(**fields(cfg)), want, 'rebuilt')
    # chunks
    chunks = list(chunks_pow2(tb))
    sizes = [c.batch_size for c in chunks]
    check(sum(sizes) == b and sizes == sorted(sizes, reverse=True)
          and len(set(sizes)) == len(sizes) and all(s & (s - 1) == 0 for s in sizes),
          'bad chunk sizes %s for batch size %d', sizes, b)
    pos = 0
    for c in chunks:
        same(c, {k: jax.tree_util.tree_map(lambda x: x[pos:pos + c.batch_size], want[k])
                 for k in FIELDS}, f'chunk at {pos}')
        pos += c.batch_size
        st.transitions += 1
    same(tb, want, 'batch after splitting')
    # pytree / pickle / copy / mapping views
    flat, treedef = jax.tree_util.tree_flatten(tb)
    same(jax.tree_util.tree_unflatten(treedef, flat), want, 'unflattened')
    same(jax.tree_util.tree_map(lambda x: x, tb), want, 'tree_mapped')
    for what, c in (('pickled', cloudpickle.loads(cloudpickle.dumps(tb))), ('dumped', loads(dumps(tb))),
                    ('deepcopy', copy.deepcopy(tb)), ('copy', tb.copy()), ('copy(deep)', tb.copy(deep=True))):
        same(c, want, what)
        check(c == tb, '%s != original', what)
    deep = tb.copy(deep=True)
    for leaf in jax.tree_util.tree_leaves(deep):
        leaf[...] = 0
    same(tb, want, 'original after its deep copy was overwritten')
    shallow = tb.copy()
    shallow.W, shallow.idx = tb.W * 3, tb.idx + 5
    same(tb, want, 'original after fields of its copy were replaced')
    check(tuple(tb._asdict()) == FIELDS and len(tuple(tb)) == len(FIELDS), 'field listing')
    for k, v in tb.items():
        expect_tree(f'items()[{k}]', v, want[k])
    for i, k in enumerate(FIELDS):
        expect_tree(f'batch[{i}]', tb[i], want[k])
    st.states += 1
    st.traces += 1
    st.outcome(repr(cfg))
    st.sample(cfg, 3)


def eq_cases(tier):
    for b in (1, 2, 3):
        for o, a in (('int', 'int'), ('vec', 'vec'), ('dict', 'int')):
            for nxt, extra in itertools.product((True, False), repeat=2):
                yield dict(b=b, obs=o, act=a, next=nxt, w=True, idx=True, extra=extra)


def eq(cfg, st):
    a = TransitionBatch(**fields(cfg))
    b = TransitionBatch(**copy.deepcopy(fields(cfg)))
    check(a == b and b == a, 'equal batches compare unequal')
    check(not (a != b), 'equal batches compare !=')
    check(a != 3 and not (a == None), 'batch equals a non-batch')  # noqa: E711
    for k in FIELDS:
        v = getattr(a, k)
        ls, td = jax.tree_util.tree_flatten(v)
        for j in range(len(ls)):
            for i in np.ndindex(np.shape(ls[j])):
                new = [np.array(x, copy=True) for x in ls]
                new[j][i] = (not new[j][i]) if new[j].dtype == bool else new[j][i] + 1
                c = b.copy()
                setattr(c, k, jax.tree_util.tree_unflatten(td, new))
                check(not (a == c) and not (c == a), 'batches that differ in %s%s compare equal', k, list(i))
                st.transitions += 1
        if v is not None and k in ('A_next', 'logP_next', 'extra_info'):
            c = b.copy()
            setattr(c, k, None)
            check(not (a == c) and not (c == a), 'batches compare equal although %s is missing in one', k)
            st.transitions += 1
    # same leaves in the same order, different structure
    r = np.arange(cfg['b']) * 1.0
    shapes = [r, {'x': r}, {'y': r}, [r], (r,), (r, None), (None, r), {'x': [r]}, {'x': (r,)}, {'x': r, 'y': None}]
    for k in ('S', 'A', 'S_next', 'extra_info'):
        variants = []
        for v in shapes:
            c = b.copy()
            setattr(c, k, v)
            variants.append(c)
        for i, j in itertools.product(range(len(shapes)), repeat=2):
            check((variants[i] == variants[j]) is (i == j), 'batches with %s=%r and %s=%r compare %s',
                  k, shapes[i], k, shapes[j], 'unequal' if i == j else 'equal')
            st.transitions += 1
    moved = []
    for k in ('S_next', 'A_next', 'logP_next', 'extra_info'):
        c = b.copy()
        for k2 in ('S_next', 'A_next', 'logP_next', 'extra_info'):
            setattr(c, k2, -r if k2 == k else None)
        c.W, c.idx = r + 1, r + 1
        moved.append(c)
    for i, j in itertools.product(range(len(moved)), repeat=2):
        check((moved[i] == moved[j]) is (i == j), 'a batch with one optional field set compares %s to one with '
              'another field set', 'unequal' if i == j else 'equal')
        st.transitions += 1
    # different batch sizes are different, also when all rows are identical
    const = jax.tree_util.tree_map(lambda x: np.repeat(x[:1], 3, axis=0), a)
    one = jax.tree_util.tree_map(lambda x: x[:1], a)
    two = jax.tree_util.tree_map(lambda x: x[:2], const)
    for x, y in itertools.permutations((const, one, two), 2):
        check(not (x == y), 'batches of different sizes compare equal')
        st.transitions += 1
    st.states += 1
    st.traces += 1
    st.outcome(repr(cfg))


def single_cases(tier):
    for s in ('int', 'vec', 'dict'):
        for done in (False, True):
            for gamma in (0.0, 0.9, 1.0, 1, 0):
                for nxt in (False, True):
                    for r, w in ((1.5, 2.), (2, .5), (-1, 3), (0., 1e-3), (2 ** 30 + 1, .25)):
                        yield ['ok', s, done, gamma, nxt, r, w]
    for bad in (dict(logp=0.1), dict(logp='x'), dict(r='x'), dict(done=1), dict(done=0.0), dict(gamma=1.1),
                dict(gamma=-0.1), dict(logp_next=0.5), dict(w=0), dict(w=-1.0), dict(gamma=None), dict(w='1')):
        yield ['bad', bad]


def from_single(case, st):
    if case[0] == 'bad':
        kw = dict(s=1, a=2, logp=-0.5, r=1.0, done=False, gamma=0.9, s_next=2, a_next=1, logp_next=-0.1, w=1.0)
        kw.update(case[1])
        expect_raises(f'from_single({case[1]})', TypeError, lambda: TransitionBatch.from_single(**kw))
    else:
        _, o, done, gamma, nxt, r, w = case
        s = jax.tree_util.tree_map(lambda x: x[1], obs(o, 2, 3))
        s2 = jax.tree_util.tree_map(lambda x: x[1], obs(o, 2, 8))
        kw = dict(s_next=s2, a_next=4, logp_next=-0.25) if nxt else {}
        t = TransitionBatch.from_single(s=s, a=3, logp=-0.5, r=r, done=done, gamma=gamma, w=w,
                                        idx=17, extra_info={'k': np.array([1, 2])}, **kw)

        def up(x):
            return jax.tree_util.tree_map(lambda y: np.asarray(y)[None], x)
        same(t, dict(S=up(s), A=np.array([3]), logP=np.array([-0.5]), Rn=np.array([r]),
                     In=np.array([0.0 if done else float(gamma)]), S_next=up(s2) if nxt else None,
                     A_next=np.array([4]) if nxt else None,
                     logP_next=np.array([-0.25]) if nxt else None, W=np.array([float(w)]),
                     idx=np.array([17]), extra_info={'k': np.array([[1, 2]])}), 'from_single')
        check(t.batch_size == 1, 'batch_size')
    st.states += 1
    st.transitions += 1
    st.traces += 1
    st.outcome(repr(case))


SYSTEMS = [
    FuncSystem('split-concat', cases, split, 'batch sizes 1..9 (33) x field-presence x pytree shapes'),
    FuncSystem('equality', eq_cases, eq, 'every single-entry change of every field, all pairs of structures'),
    FuncSystem('from-single', single_cases, from_single),
]
ASSUMPTIONS = ['batch sizes up to 9 (quick) / 33 (thorough); three observation layouts']

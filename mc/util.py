"""Helpers for harnesses: canonical snapshots, numeric comparison, value alphabets."""
import hashlib
import io
import pickle

import numpy as np

from .core import Violation, check


def snapshot(obj):
    """Canonical digest of *all* state reachable from a plain-Python object.

    Generic (pickles ``__dict__`` / slots), so it names no private attribute and survives
    refactoring; it only has to be no coarser than behaviour, over-fine merely costs time.
    """
    buf = io.BytesIO()
    p = pickle.Pickler(buf, protocol=4)
    p.fast = True  # no memo: equal values give equal bytes, whatever their object identity
    p.dump(_plain(obj))
    return hashlib.blake2b(buf.getvalue(), digest_size=16).digest()


def _plain(o, d=0):
    if d > 60:
        return repr(o)
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return o
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('oarr', o.shape, [_plain(x, d + 1) for x in o.ravel().tolist()])
        return ('arr', o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, np.generic):
        return ('np', str(o.dtype), o.item())
    if isinstance(o, dict):
        return ('dict', [(_plain(k, d + 1), _plain(v, d + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [_plain(x, d + 1) for x in o])
    if isinstance(o, (set, frozenset)):
        return ('set', sorted(repr(_plain(x, d + 1)) for x in o))
    if isinstance(o, np.random.RandomState):
        return ('rnd', _plain(o.get_state(legacy=True), d + 1))
    import collections
    if isinstance(o, collections.deque):
        return ('deque', o.maxlen, [_plain(x, d + 1) for x in o])
    if callable(o) and not hasattr(o, '__dict__'):
        return ('fn', getattr(o, '__name__', repr(type(o))))
    st = {}
    if hasattr(o, '__dict__'):
        st.update(vars(o))
    for c in type(o).__mro__:
        for s in getattr(c, '__slots__', ()) or ():
            if isinstance(s, str) and hasattr(o, s):
                st[s] = getattr(o, s)
    if callable(o) and not st:
        return ('fn', getattr(o, '__name__', repr(type(o))))
    if hasattr(o, '__jax_array__') or type(o).__module__.startswith('jax'):
        return ('arr', np.asarray(o).shape, str(np.asarray(o).dtype), np.asarray(o).tobytes())
    return (type(o).__name__, [(k, _plain(v, d + 1)) for k, v in sorted(st.items())])


def leaves(tree):
    import jax
    return jax.tree_util.tree_leaves(tree)


def close(a, b, tol=1e-5):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return bool(np.all(a == b))
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol, equal_nan=True))
    return bool(np.array_equal(a, b))


def tree_close(a, b, tol=1e-5):
    import jax
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return len(la) == len(lb) and ta == tb and all(close(x, y, tol) for x, y in zip(la, lb))


def expect_close(what, got, want, tol=1e-5):
    if not close(got, want, tol):
        raise Violation(f"{what}: got {np.asarray(got).tolist()!r}, "
                        f"expected {np.asarray(want).tolist()!r}")


def expect_tree(what, got, want, tol=1e-5):
    if not tree_close(got, want, tol):
        raise Violation(f"{what}: got {brief(got)}, expected {brief(want)}")


def brief(x, n=400):
    import jax
    try:
        s = repr(jax.tree_util.tree_map(lambda l: np.asarray(l).tolist(), x))
    except Exception:
        s = repr(x)
    return s if len(s) < n else s[:n] + '...'


def expect_raises(what, exc, fn):
    """exc: exception class or tuple of classes"""
    try:
        out = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: expected {exc}, got {type(e).__name__}: {e}")
    raise Violation(f"{what}: expected {exc}, but the call returned {brief(out)}")

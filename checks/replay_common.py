import jax
import numpy as np
from coax.reward_tracing import TransitionBatch

M = 64


def item(k):
    """k-th transition: a dict of row values that identify it uniquely."""
    return dict(S=np.array([k, -k, 0.5], dtype='float32'), A=k % 5, logP=-0.25 * (k % 3), Rn=float(k * k) - 3.0,
                In=0.9 if k % 3 else 0.0, S_next=np.array([k + 1, 7, k], dtype='float32'),
                A_next=(k + 1) % 5, logP_next=-0.5 * (k % 2), W=0.5 + (k % 4) * 0.5)


def batch(ks, extra=False):
    rows = [item(k) for k in ks]
    f = {n: np.stack([np.asarray(r[n]) for r in rows]) for n in rows[0]}
    if extra:
        f['extra_info'] = {'states': (np.array(ks) + 1, np.array(ks) + 2)}
    return TransitionBatch(**f)


FIELDS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next')


def row_is(tb, i, k, w=True):
    """None when row i of tb is exactly transition k, else a description"""
    want = item(k)
    for n in FIELDS + (('W',) if w else ()):
        got = getattr(tb, n)[i]
        if not (np.shape(got) == np.shape(want[n]) and np.allclose(got, want[n])):
            return f'field {n} of transition {k}: got {np.asarray(got).tolist()}, expected {np.asarray(want[n]).tolist()}'
    if tb.extra_info is not None:
        if not (tb.extra_info['states'][0][i] == k + 1 and tb.extra_info['states'][1][i] == k + 2):
            return f'extra_info of transition {k}'
    return None


def scribble(tb):
    """overwrite everything in a batch that was handed out"""
    for leaf in jax.tree_util.tree_leaves(tb):
        if isinstance(leaf, np.ndarray) and leaf.flags.writeable:
            leaf[...] = 0 if leaf.dtype == bool else -77
    tb.idx = tb.idx + 1000
    tb.W = tb.W * 0

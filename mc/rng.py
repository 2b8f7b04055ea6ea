"""Own numpy's RandomState: a subclass whose uniform draws can be dictated by the harness.

`install()` replaces numpy.random.RandomState for the process, before coax creates any generator.
While `dictate(values)` is active, draws of uniforms on [0, 1) return exactly those values, in order;
`consumed()` tells whether the code under test really drew them.  With nothing dictated the class
behaves as the original.
"""
import contextlib

import numpy as np

_Orig = np.random.RandomState
_queue = None
_used = 0


class ControlledRandomState(_Orig):
    def _take(self, size):
        global _used
        n = 1 if size is None else int(np.prod(size))
        if _queue is None or len(_queue) < n:
            return None
        out = [_queue.pop(0) for _ in range(n)]
        _used += n
        return out[0] if size is None else np.array(out, dtype=float).reshape(size)

    def rand(self, *dims):
        x = self._take(dims if dims else None)
        return super().rand(*dims) if x is None else x

    def random_sample(self, size=None):
        x = self._take(size)
        return super().random_sample(size) if x is None else x

    def random(self, size=None):
        x = self._take(size)
        return super().random_sample(size) if x is None else x

    def uniform(self, low=0.0, high=1.0, size=None):
        x = self._take(size)
        return super().uniform(low, high, size) if x is None else low + (high - low) * x

    def __deepcopy__(self, memo):
        c = type(self)()
        c.set_state(self.get_state())
        return c

    def __reduce__(self):
        return _rebuild, (self.get_state(),)


def _rebuild(state):
    c = ControlledRandomState()
    c.set_state(state)
    return c


def install():
    import coax, scipy.stats  # noqa: F401  (import everything that subclasses or inspects it first)
    np.random.RandomState = ControlledRandomState


@contextlib.contextmanager
def dictate(values):
    global _queue, _used
    old, _queue, _used = _queue, list(map(float, values)), 0
    try:
        yield lambda: _used
    finally:
        _queue = old

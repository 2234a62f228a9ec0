"""Stand-in for numpy's random numbers, in the symbolic and in the real runs alike: the harness supplies the standard normal and
uniform deviates (any values), whatever function of numpy.random asks for them."""
import contextlib
import numpy as np


class Source(object):
    def __init__(self, t, normal=None, uniform=None):
        self.t, self._n, self._u = t, normal, uniform
        self.count = 0

    def _shape(self, shape):
        if shape is None or shape == ():
            return None
        return (int(shape),) if not isinstance(shape, (tuple, list)) else tuple(int(s) for s in shape)

    def _draw(self, f, shape):
        s = self._shape(shape)
        n = 1
        for d in s or ():
            n *= d
        v = []
        for _ in range(n):
            v.append(f(self.count))
            self.count += 1
        if s is None:
            return v[0]
        return self.t.arr(v).reshape(s)

    # numpy.random and numpy.random.Generator
    def randn(self, *shape):
        return self._draw(self._n, shape)

    def standard_normal(self, size=None):
        return self._draw(self._n, size)

    def normal(self, loc=0., scale=1., size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc, dtype=object), np.asarray(scale, dtype=object)).shape or None
        return loc + scale * self._draw(self._n, size)

    def rand(self, *shape):
        return self._draw(self._u, shape)

    def random_sample(self, size=None):
        return self._draw(self._u, size)
    random = ranf = sample = random_sample

    def uniform(self, low=0., high=1., size=None):
        if size is None:
            size = np.broadcast(np.asarray(low, dtype=object), np.asarray(high, dtype=object)).shape or None
        return low + (high - low) * self._draw(self._u, size)

    def seed(self, *a, **k):
        pass


NAMES = ('randn', 'standard_normal', 'normal', 'rand', 'random_sample', 'random', 'ranf', 'sample', 'uniform', 'seed')


@contextlib.contextmanager
def numbers(t, normal=None, uniform=None):
    """normal(k), uniform(k): the k-th deviate drawn"""
    s = Source(t, normal, uniform)
    old = {k: getattr(np.random, k) for k in NAMES + ('default_rng', 'RandomState')}
    try:
        for k in NAMES:
            setattr(np.random, k, getattr(s, k))
        np.random.default_rng = np.random.RandomState = lambda *a, **k: s
        yield s
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)

"""Control over numpy's random numbers."""
import contextlib
import random

import numpy as np

NAMES = ('randn', 'standard_normal', 'normal', 'rand', 'random', 'uniform',
         'random_sample', 'randint', 'integers', 'choice', 'permutation')


class Controlled:
    """gauss(shape), uniform(shape), integer(low, high, shape) decide every
    draw."""

    def __init__(self, gauss=None, uniform=None, integer=None):
        self.gauss, self.unif, self.integer_ = gauss, uniform, integer
        self.log = []

    @staticmethod
    def _shape(size):
        if size is None:
            return ()
        return (size,) if np.isscalar(size) else tuple(size)

    def _g(self, shape):
        self.log.append(('gauss', shape))
        out = self.gauss(shape)
        return out if shape else float(out)

    def _u(self, shape):
        self.log.append(('uniform', shape))
        out = self.unif(shape)
        return out if shape else float(out)

    def randn(self, *shape):
        return self._g(tuple(int(x) for x in shape))

    def standard_normal(self, size=None):
        return self._g(self._shape(size))

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self._g(self._shape(size))

    def rand(self, *shape):
        return self._u(tuple(int(x) for x in shape))

    def random(self, size=None):
        return self._u(self._shape(size))

    random_sample = random

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self._u(self._shape(size))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        shape = self._shape(size)
        self.log.append(('integer', low, high, shape))
        out = self.integer_(low, high, shape)
        return out if shape else int(out)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + bool(endpoint), size)

    @contextlib.contextmanager
    def installed(self, python=False):
        saved = {}
        for n in ('randn', 'standard_normal', 'normal', 'rand', 'random',
                  'uniform', 'random_sample', 'randint'):
            saved[n] = getattr(np.random, n)
            setattr(np.random, n, getattr(self, n))
        saved['default_rng'] = np.random.default_rng
        np.random.default_rng = lambda *a, **k: self
        py = random.random
        if python:
            random.random = lambda: self._u(())
        try:
            yield self
        finally:
            for n, v in saved.items():
                setattr(np.random, n, v)
            random.random = py


def impulse(pos):
    """All draws are 0 except the pos-th number drawn, which is 1."""
    count = [0]

    def gauss(shape):
        out = np.zeros(shape)
        start, n = count[0], out.size
        count[0] += n
        if start <= pos < start + n:
            out.reshape(-1)[pos - start] = 1.
        return out
    return gauss

"""Model of private random generators: a seeded one is a function of its seed and of how often it was used, an unseeded one draws like the global generator."""
import numpy as np
import _rng


class Generator:
    def __init__(self, seed=None):
        self._seed = seed
        self._k = 0

    def _next(self, one, size):
        if size is None:
            self._k += 1
            return one(self._k)
        n = 1
        for d in (size if isinstance(size, (tuple, list)) else (size,)):
            n *= d
        out = []
        for j in range(n):
            self._k += 1
            out.append(one(self._k))
        return np.array(out).reshape(size)

    def random(self, size=None):
        if self._seed is None:
            return np.random.random(size)
        return self._next(lambda k: _rng.seeded(self._seed, k), size)

    random_sample = random

    def rand(self, *dims):
        return self.random(dims if dims else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def standard_normal(self, size=None):
        if self._seed is None:
            return np.random.normal(0, 1, size)
        return self._next(lambda k: _rng.seeded_normal(self._seed, k), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def randn(self, *dims):
        return self.standard_normal(dims if dims else None)

    def gauss(self, mu, sigma):
        return self.normal(mu, sigma)

    def randint(self, low, high=None, size=None):
        if self._seed is None:
            return np.random.randint(low, high, size)
        return _rng.unknown()

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if self._seed is None:
            return np.random.choice(a, size)
        return _rng.unknown()

    def seed(self, seed=None):
        self._seed = seed
        self._k = 0


def default_rng(seed=None):
    return seed if isinstance(seed, Generator) else Generator(seed)

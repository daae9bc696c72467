"""Random numbers owned by the explorer: a fixed, well mixed stream in which the harness may replace draws."""
import random
from statistics import NormalDist

import numpy as np

_N = NormalDist()
_M = (1 << 64) - 1


def mix(i):
    z = (i * 0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019) & _M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & _M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & _M
    return (z ^ (z >> 31)) / 2.0 ** 64


class Stream:
    """Replaces the generators of numpy.random and random while it is active.

    special: function (number of the draw) -> None or a value in [0, 1) that is used instead of the stream's"""

    def __init__(self, special=None, start=1):
        self.n = 0
        self.start = start
        self.special = special
        self.uniforms = []
        self.normals = []

    def u(self):
        i = self.n
        self.n += 1
        v = self.special(i) if self.special else None
        if v is None:
            v = min(mix(self.start + i), 1 - 2.0 ** -53)
        self.uniforms.append(v)
        return v

    def z(self):
        v = _N.inv_cdf(min(max(self.u(), 1e-12), 1 - 1e-12))
        self.uniforms.pop()
        self.normals.append(v)
        return v

    def many(self, f, size):
        if size is None or size == ():
            return f()
        n = int(np.prod(size))
        return np.array([f() for _ in range(n)]).reshape(size)

    def __enter__(self):
        r = np.random
        self.saved = [(r, k, getattr(r, k)) for k in ("uniform", "normal", "random", "rand", "randn", "random_sample",
                                                       "standard_normal")]
        self.saved += [(random, k, getattr(random, k)) for k in ("random", "uniform", "gauss", "normalvariate")]
        r.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * self.many(self.u, size)
        r.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * self.many(self.z, size)
        r.random = r.random_sample = lambda size=None: self.many(self.u, size)
        r.rand = lambda *d: self.many(self.u, d)
        r.randn = lambda *d: self.many(self.z, d)
        r.standard_normal = lambda size=None: self.many(self.z, size)
        random.random = self.u
        random.uniform = lambda a, b: a + (b - a) * self.u()
        random.gauss = random.normalvariate = lambda mu=0.0, sigma=1.0: mu + sigma * self.z()
        return self

    def __exit__(self, *exc):
        for m, k, v in self.saved:
            setattr(m, k, v)

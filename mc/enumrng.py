"""A random generator whose every outcome is enumerated: stateless depth-first exploration of draws."""
import itertools

import numpy as np


class Prune(Exception):
    """More draws than the bound."""


class EnumRNG(np.random.Generator):
    """Replays a list of choices; continuous draws take one of a few representative fractions."""

    def __new__(cls, script, us, zs=(-1.3, 0.4, 6.0), cap=60):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, script, us, zs=(-1.3, 0.4, 6.0), cap=60):
        super().__init__(np.random.PCG64(0))
        self.script, self.us, self.zs, self.cap = script, us, zs, cap
        self.pos = 0
        self.counts = []

    def pick(self, n):
        if self.pos >= self.cap:
            raise Prune()
        k = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        self.counts.append(n)
        return k

    def _many(self, size, one, dtype=float):
        if size is None:
            return one()
        shape = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        return np.array([one() for _ in range(int(np.prod(shape)))], dtype=dtype).reshape(shape)

    def _u(self):
        return self.us[self.pick(len(self.us))]

    def random(self, size=None, dtype=np.float64, out=None):
        return self._many(size, self._u)

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        if size is None and lo.ndim == 0 and hi.ndim == 0:
            return float(lo + self._u() * (hi - lo))
        shape = np.broadcast_shapes(lo.shape, hi.shape) if size is None else size
        return lo + self._many(shape, self._u) * (hi - lo)

    def _z(self):
        return self.zs[self.pick(len(self.zs))]

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self._many(size, self._z)

    def normal(self, loc=0.0, scale=1.0, size=None):
        lo, sc = np.asarray(loc, dtype=float), np.asarray(scale, dtype=float)
        if size is None and lo.ndim == 0 and sc.ndim == 0:
            return float(lo + self._z() * sc)
        shape = np.broadcast_shapes(lo.shape, sc.shape) if size is None else size
        return lo + self._many(shape, self._z) * sc

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        lo, hi = (0, low) if high is None else (low, high)
        if np.ndim(lo) or np.ndim(hi):
            lo_, hi_ = np.broadcast_arrays(lo, hi)
            return np.array([int(a) + self.pick(int(b) - int(a) + bool(endpoint)) for a, b in zip(lo_.ravel(), hi_.ravel())]).reshape(lo_.shape)
        n = int(hi) - int(lo) + bool(endpoint)
        if n <= 0:
            raise ValueError('low >= high')
        return self._many(size, lambda: np.int64(int(lo) + self.pick(n)), dtype=np.int64)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if np.ndim(a) == 0 else len(a)
        idx = list(range(n))
        if p is not None:
            p = np.asarray(p, dtype=float)
            if len(p) != n or abs(p.sum() - 1) > 1e-8 or (p < 0).any():
                raise ValueError('probabilities')
            idx = [i for i in idx if p[i] > 0]
        k = 1 if size is None else int(np.prod(size))
        if not replace and k > len(idx):
            raise ValueError('Cannot take a larger sample than population when replace is False')
        got = []
        for _ in range(k):
            j = self.pick(len(idx))
            got.append(idx[j])
            if not replace:
                idx = idx[:j] + idx[j + 1:]
        if size is None:
            return np.int64(got[0]) if np.ndim(a) == 0 else a[got[0]]
        got = np.array(got, dtype=np.int64).reshape(size)
        return got if np.ndim(a) == 0 else np.asarray(a)[got]

    def _perm(self, n):
        idx, out = list(range(n)), []
        while idx:
            out.append(idx.pop(self.pick(len(idx))))
        return out

    def permutation(self, x, axis=0):
        base = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return base[self._perm(len(base))]

    def permuted(self, x, axis=None, out=None):
        return self.permutation(x)

    def shuffle(self, x, axis=0):
        pr = self._perm(len(x))
        c = [x[i] for i in pr]
        for i, v in enumerate(c):
            x[i] = v


def explore(fn, us, cap=60, limit=2000000):
    """Runs fn(rng) for every outcome of its draws; yields (script, result or exception)."""
    script = []
    n = 0
    while True:
        rng = EnumRNG(script, us, cap=cap)
        try:
            yield tuple(script), fn(rng), len(rng.counts)
        except Prune:
            yield tuple(script), Prune, len(rng.counts)
        n += 1
        full = list(script[:rng.pos]) + [0] * (rng.pos - len(script))
        i = rng.pos - 1
        while i >= 0 and full[i] + 1 >= rng.counts[i]:
            i -= 1
        if i < 0:
            return
        script = full[:i] + [full[i] + 1]
        if n >= limit:
            raise RuntimeError('more than %d outcomes' % limit)

"""Answer numpy.random's global functions from a Choices object.

Every call becomes a choice point, so that all random outcomes (on a finite
grid for reals) are enumerated instead of sampled.  `prob` is the exact
probability of the execution so far (product of fractions), which lets a case
compute exact output distributions.  Functions that are not covered are left
alone.
"""
import contextlib
from fractions import Fraction

import numpy as np

COVERED = ('randint', 'choice', 'permutation', 'shuffle', 'rand', 'random',
           'random_sample', 'sample', 'ranf', 'uniform', 'binomial',
           'random_integers')


class RandomShim(object):

    def __init__(self, ch, grid=4, uniform_grid=None, edges=False):
        self.ch = ch
        self.grid = grid
        self.uniform_grid = uniform_grid
        self.edges = edges
        self.prob = Fraction(1)
        self.calls = []

    # -- primitive
    def _pick(self, n, label):
        self.prob *= Fraction(1, n)
        return self.ch.choose(n, label)

    def _unit(self, g=None):
        """A representative of one of g equal cells of [0, 1)."""
        g = g or self.grid
        if self.edges:
            # cell boundaries: 0, 1/g, ..., and the largest double below 1
            k = self._pick(g + 1, 'unit')
            return k / g if k < g else np.nextafter(1.0, 0.0)
        k = self._pick(g, 'unit')
        return (k + 0.5) / g

    def _fill(self, size, f):
        if size is None or size == ():
            return f()
        out = np.empty(size, dtype=object)
        flat = out.ravel()
        for i in range(flat.size):
            flat[i] = f()
        out = flat.reshape(out.shape)
        return np.array(out.tolist())

    # -- numpy.random API
    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        self.calls.append(('randint', low, high))
        return self._fill(size, lambda: int(low) + self._pick(
            int(high) - int(low), 'randint'))

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        if n == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        self.calls.append(('choice', n, size, replace))
        if p is not None:
            ps = [Fraction(float(x)).limit_denominator(10 ** 9) for x in p]
            pos = [i for i in range(n) if ps[i] > 0]

            def one():
                k = pos[self.ch.choose(len(pos), 'choice_p')]
                self.prob *= ps[k]
                return arr[k]
            if not replace and size not in (None, 1):
                raise NotImplementedError
            return self._fill(size, one)
        if replace:
            return self._fill(size, lambda: arr[self._pick(n, 'choice')])
        k = 1 if size is None else int(np.prod(size))
        if k > n:
            raise ValueError('Cannot take a larger sample than population '
                             'when replace is False')
        left = list(range(n))
        got = []
        for _ in range(k):
            got.append(left.pop(self._pick(len(left), 'choice_wo')))
        res = arr[got]
        return res[0] if size is None else res.reshape(size)

    def permutation(self, x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        left = list(range(len(arr)))
        order = []
        while left:
            order.append(left.pop(self._pick(len(left), 'perm')))
        return arr[order]

    def shuffle(self, x):
        left = list(x)
        for i in range(len(x)):
            x[i] = left.pop(self._pick(len(left), 'shuffle'))

    def rand(self, *dims):
        return self._fill(dims if dims else None, self._unit)

    def random_sample(self, size=None):
        return self._fill(size, self._unit)

    random = sample = ranf = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls.append(('uniform', low, high))

        def one():
            g = self.uniform_grid
            if g == 'int':
                w = high - low
                g = int(round(w))
                if g < 1 or abs(w - g) > 1e-9:
                    g = self.grid
            return low + (high - low) * self._unit(g)
        if np.ndim(low) or np.ndim(high):
            shape = np.broadcast(low, high).shape
            return np.asarray(low) + (
                np.asarray(high) - np.asarray(low)) * self._fill(
                    size or shape, self._unit)
        return self._fill(size, one)

    def binomial(self, n, p, size=None):
        from math import comb
        if np.ndim(n) or np.ndim(p):
            raise NotImplementedError

        def one():
            pf = Fraction(p).limit_denominator(10 ** 6)
            ks = [k for k in range(n + 1)
                  if comb(n, k) * pf ** k * (1 - pf) ** (n - k) > 0]
            k = ks[self.ch.choose(len(ks), 'binomial')]
            self.prob *= comb(n, k) * pf ** k * (1 - pf) ** (n - k)
            return k
        return self._fill(size, one)

    @contextlib.contextmanager
    def patched(self):
        saved = {name: getattr(np.random, name) for name in COVERED
                 if hasattr(np.random, name)}
        try:
            for name in saved:
                setattr(np.random, name, getattr(self, name))
            yield self
        finally:
            for name, f in saved.items():
                setattr(np.random, name, f)

"""Controlled randomness: every random primitive the code may call is resolved by a choice tree, and all its branches are explored
(depth-first, re-executing the real code for each leaf), each with its exact probability.

Choices among finitely many values branch on those of positive probability.  Real-valued draws branch on a finite grid of values,
each standing for an interval of equal length (exact for thresholds that are multiples of 1/len(grid))."""
import random as pyrandom
import numpy as np

PTS8 = [(i + .5) / 8 for i in range(8)]


class TooMany(Exception):
    pass


class Draws:
    def __init__(self, grid=PTS8, limit=200000):
        self.grid, self.limit = list(grid), limit
        self.used = self.real = False

    # -- the tree
    def explore(self, fn):
        """(result, probability, number of decisions) of every leaf"""
        stack, n = [], 0
        while True:
            self.path, self.pos, self.prob = stack, 0, 1.0
            with self: res = fn()
            n += 1
            if n > self.limit: raise TooMany(n)
            yield res, self.prob, self.pos
            stack = stack[:self.pos]
            while stack and stack[-1][0] + 1 >= len(stack[-1][1]): stack.pop()
            if not stack: return
            stack = stack[:-1] + [(stack[-1][0] + 1, stack[-1][1])]

    def decide(self, options):
        """options: list of (value, probability > 0)"""
        self.used = True
        if len(options) == 1:
            return options[0][0]
        if self.pos == len(self.path): self.path.append((0, options))
        i, opts = self.path[self.pos]
        assert len(opts) == len(options), "the code is not deterministic given its random draws"
        self.path[self.pos] = (i, options)
        self.pos += 1
        self.prob *= options[i][1]
        return options[i][0]

    def pick(self, p):
        p = np.asarray(p, dtype=float)
        if (p < 0).any() or np.isnan(p).any(): raise ValueError("probabilities are not non-negative")
        if abs(p.sum() - 1) > 1e-7: raise ValueError("probabilities do not sum to 1")
        return self.decide([(i, x) for i, x in enumerate(p) if x > 0])

    def _arr(self, f, size):
        if size is None or size == (): return f()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([f() for _ in range(int(np.prod(shape)))]).reshape(shape)

    # -- primitives
    def choice(self, a, size=None, replace=True, p=None, **kw):
        arr = np.arange(a) if np.isscalar(a) and not isinstance(a, str) else np.array(a)
        if arr.ndim != 1: raise ValueError("a must be 1-dimensional")
        if not len(arr): raise ValueError("a cannot be empty")
        if p is not None and len(p) != len(arr): raise ValueError("a and p must have same size")
        if not replace:
            idx = list(range(len(arr))); out = []
            for _ in range(1 if size is None else int(np.prod(size))):
                q = np.array([1.0 if p is None else p[i] for i in idx]); out.append(idx.pop(self.pick(q / q.sum())))
            return arr[out[0]] if size is None else arr[np.array(out)].reshape(size)
        q = np.ones(len(arr)) / len(arr) if p is None else p
        i = self._arr(lambda: self.pick(q), size)
        return arr[i]

    def unit(self):
        return self.decide([(g, 1.0 / len(self.grid)) for g in self.grid])

    def random(self, size=None, **kw):
        return self._arr(self.unit, size)

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        low, high = (0, low) if high is None else (low, high)
        return self._arr(lambda: low + self.pick(np.ones(high - low) / (high - low)), size)

    def multinomial(self, n, pvals, size=None):
        def one():
            out = np.zeros(len(pvals), dtype=int)
            for _ in range(n): out[self.pick(pvals)] += 1
            return out
        if size is None: return one()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape + (len(pvals),))

    def permutation(self, x):
        arr = np.arange(x) if np.isscalar(x) else np.array(x)
        return self.choice(arr, size=len(arr), replace=False)

    def py_choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        if cum_weights is not None: weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        w = np.ones(len(pop)) if weights is None else np.asarray(weights, dtype=float)
        return [pop[self.pick(w / w.sum())] for _ in range(k)]

    def py_choice(self, seq):
        return seq[self.pick(np.ones(len(seq)) / len(seq))]

    def py_randint(self, a, b):
        return self.randint(a, b + 1)

    def generator(self, *a, **k):
        return _Gen(self)

    def __enter__(self):
        N, P = np.random, pyrandom
        self.saved = []
        for mod, names in ((N, dict(choice=self.choice, random=self.random, random_sample=self.random, ranf=self.random, rand=self.rand, uniform=self.uniform,
                                    randint=self.randint, multinomial=self.multinomial, permutation=self.permutation,
                                    default_rng=self.generator, RandomState=self.generator)),
                           (P, dict(choices=self.py_choices, choice=self.py_choice, random=self.unit, uniform=self.uniform, randint=self.py_randint,
                                    randrange=lambda a, b=None: self.randint(a, b)))):
            for n, f in names.items():
                self.saved.append((mod, n, getattr(mod, n))); setattr(mod, n, f)
        self.before = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], pyrandom.getstate())
        return self

    def __exit__(self, *a):
        for mod, n, f in self.saved: setattr(mod, n, f)
        if (np.random.get_state()[1].tobytes(), np.random.get_state()[2], pyrandom.getstate()) != self.before: self.real = True
        return False


class _Gen:
    def __init__(self, d):
        self.d = d

    def __getattr__(self, n):
        n = {"integers": "randint", "random_sample": "random"}.get(n, n)
        if n.startswith("_") or not hasattr(Draws, n): raise AttributeError(n)
        return getattr(self.d, n)

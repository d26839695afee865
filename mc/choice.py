"""
Stateless exhaustive exploration: an execution is a function of the answers given at its choice points, and all sequences
of answers are enumerated in depth-first order. Randomness of the code under test is one of the sources of choice points.
"""
import contextlib
import itertools
import math

import numpy as np


class Diverged(Exception):
    pass


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # (number of options, chosen option)

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Diverged('choice {} of {} options while replaying {}'.format(c, n, self.prefix))
        self.trace.append((n, c))
        return c

    def pick(self, options):
        options = list(options)
        return options[self.choose(len(options))]

    @property
    def choices(self):
        return [c for _, c in self.trace]


def explore(run, stats=None, limit=None):
    """
    Calls run(chooser) for all sequences of choices.
    :return: number of executions
    """
    prefix, count = [], 0
    while True:
        ch = Chooser(prefix)
        if stats is not None:
            stats.current = {'choices': prefix}
        run(ch)
        count += 1
        if stats is not None:
            stats.executions += 1
            stats.transitions += len(ch.trace)
        trace = ch.trace
        i = len(trace) - 1
        while i >= 0 and trace[i][1] + 1 >= trace[i][0]:
            i -= 1
        if i < 0:
            return count
        if limit is not None and count >= limit:
            if stats is not None:
                stats.capped += 1
            return count
        prefix = [c for _, c in trace[:i]] + [trace[i][1] + 1]


class ControlledRandom:
    """
    Replacement of numpy's random functions in which all outcomes are decided by a chooser, over a finite menu of outcomes
    """
    def __init__(self, chooser, unit=(0.0, 0.5, 0.999999), directions=None, max_perm=4, log=None, fractions=(0.0, 0.5, 0.999999)):
        self.ch = chooser
        self.unit = unit
        self.fractions = fractions
        self.directions = directions
        self.max_perm = max_perm
        self.log = log if log is not None else []

    def _fill(self, size, f):
        if size is None:
            return f()
        shape = (size,) if np.isscalar(size) else tuple(size)
        res = np.array([f() for _ in range(int(np.prod(shape)))])
        return res.reshape(shape)

    # uniform on [0, 1)
    def random_sample(self, size=None):
        self.log.append(('rand', size))
        return self._fill(size, lambda: self.ch.pick(self.unit))

    random = ranf = sample = random_sample

    def rand(self, *shape):
        return self.random_sample(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.log.append(('uniform', float(np.min(low)), float(np.max(high))))
        return self._fill(size, lambda: low + (high - low) * self.ch.pick(self.fractions))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        self.log.append(('randint', low, high, size))
        res = self._fill(size, lambda: int(low) + self.ch.choose(int(high) - int(low)))
        return res if size is None else res.astype(int).reshape(np.shape(res))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + bool(endpoint), size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        self.log.append(('choice', n, size, replace))
        if n == 0 and (size is None or np.prod(size) > 0):
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if size is None:
            return arr[self.ch.choose(n)]
        shape = (size,) if np.isscalar(size) else tuple(size)
        k = int(np.prod(shape))
        if not replace:
            if k > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            remaining, rows = list(range(n)), []
            for _ in range(k):
                rows.append(remaining.pop(self.ch.choose(len(remaining))))
        else:
            rows = [self.ch.choose(n) for _ in range(k)]
        return arr[np.array(rows, dtype=int)].reshape(shape + arr.shape[1:])

    def _normal_vector(self, n):
        self.log.append(('normal', n))
        menu = self.directions(n) if self.directions is not None else default_directions(n)
        return np.array(self.ch.pick(menu), dtype=float)

    def standard_normal(self, size=None):
        if size is None:
            return float(self._normal_vector(1)[0])
        shape = (size,) if np.isscalar(size) else tuple(size)
        return self._normal_vector(int(np.prod(shape))).reshape(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def permutation(self, x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return arr[self._perm(len(arr))]

    def shuffle(self, x):
        p = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p]
        else:
            x[:] = [x[i] for i in p]

    def _perm(self, n):
        self.log.append(('perm', n))
        if self.max_perm == 0:  # permutations are irrelevant (e.g. inside of a library)
            return list(range(n))
        if n <= self.max_perm:
            remaining, res = list(range(n)), []
            while remaining:
                res.append(remaining.pop(self.ch.choose(len(remaining))))
            return res
        return self.ch.pick([list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]])

    def seed(self, *args, **kwargs):
        self.log.append(('seed', args))

    NAMES = ['random_sample', 'random', 'ranf', 'sample', 'rand', 'uniform', 'randint', 'choice', 'standard_normal', 'normal',
             'randn', 'permutation', 'shuffle', 'seed']


def default_directions(n):
    eye = np.eye(n)
    return [e for e in eye] + [-e for e in eye]


@contextlib.contextmanager
def controlled(chooser, **options):
    rnd = ControlledRandom(chooser, **options)
    saved = {name: getattr(np.random, name) for name in ControlledRandom.NAMES}
    saved_rng = np.random.default_rng
    try:
        for name in saved:
            setattr(np.random, name, getattr(rnd, name))
        np.random.default_rng = lambda *a, **k: rnd
        yield rnd
    finally:
        for name, f in saved.items():
            setattr(np.random, name, f)
        np.random.default_rng = saved_rng


def subsets(items, min_size=0, max_size=None):
    items = list(items)
    max_size = len(items) if max_size is None else max_size
    for k in range(min_size, max_size + 1):
        yield from itertools.combinations(items, k)

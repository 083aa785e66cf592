"""Stateless exhaustive exploration of choice sequences (depth-first, with replay)."""
from __future__ import annotations

import contextlib
import itertools
import random as _random

import numpy as np


class Divergence(BaseException):
    """A replayed prefix met a choice point of a different width."""


class Horizon(BaseException):
    """One execution made more choices than the horizon allows."""


class Chooser:
    def __init__(self, prefix=(), horizon=100000):
        self.prefix = list(prefix)
        self.widths_expected = None
        self.trace = []           # (choice, width, label)
        self.horizon = horizon

    def choose(self, n, label=None):
        i = len(self.trace)
        if i >= self.horizon:
            raise Horizon(f"{i} choices")
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise Divergence(f"choice {i}: {c} not in range({n}) [{label}]")
        self.trace.append((c, n, label))
        return c

    def pick(self, seq, label=None):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    @property
    def choices(self):
        return [c for c, _, _ in self.trace]


def explore(body, max_runs=None, deviations=None, horizon=100000, on_horizon="raise"):
    """Yield (chooser, result) for every execution of body(chooser).

    With `deviations=k` only executions with at most k non-default choices are
    explored (exhaustively).  Returns through StopIteration whether the space
    was completed: use `Explorer` when that matters.
    """
    ex = Explorer(body, max_runs, deviations, horizon, on_horizon)
    yield from ex.runs()


class Explorer:
    def __init__(self, body, max_runs=None, deviations=None, horizon=100000, on_horizon="raise"):
        self.body, self.max_runs, self.dev = body, max_runs, deviations
        self.horizon, self.on_horizon = horizon, on_horizon
        self.count = 0
        self.points = 0
        self.cut = 0
        self.complete = False

    def runs(self):
        prefix = []
        while True:
            if self.max_runs is not None and self.count >= self.max_runs:
                return
            ch = Chooser(prefix, self.horizon)
            try:
                res = self.body(ch)
                self.count += 1
                self.points += len(ch.trace)
                yield ch, res
            except Horizon:
                if self.on_horizon == "raise":
                    raise
                self.cut += 1
                self.count += 1
            tr = ch.trace
            i = len(tr) - 1
            used = [0]
            for c, _, _ in tr:
                used.append(used[-1] + (1 if c else 0))
            while i >= 0:
                c, n, _ = tr[i]
                if c + 1 < n and (self.dev is None or used[i] + 1 <= self.dev):
                    break
                i -= 1
            if i < 0:
                self.complete = True
                return
            prefix = [c for c, _, _ in tr[:i]] + [tr[i][0] + 1]


class ControlledRandom:
    """Replaces the global random sources by explored choices.

    np.random.random()/rand() -> one of `floats`; randint/choice/permutation/
    shuffle/sample -> every possible answer.
    """

    def __init__(self, chooser, floats=(0.0, 0.999999), normals=(0.0,), free=None):
        self.ch, self.floats, self.normals = chooser, floats, normals
        self.free = free

    # ------- numpy
    def np_random(self, size=None):
        return self._fill(size, lambda: self.ch.pick(self.floats, "random"))

    def np_rand(self, *shape):
        return self.np_random(shape if shape else None)

    def _fill(self, size, one):
        if size is None or size == ():
            return one()
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)]).reshape(size)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError("low >= high")
        return self._fill(size, lambda: int(low) + self.ch.choose(int(high) - int(low), "randint"))

    def np_choice(self, a, size=None, replace=True, p=None):
        pop = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if not pop:
            raise ValueError("a must be non-empty")
        idx = list(range(len(pop)))
        if p is not None:
            p = np.asarray(p, float)
            if p.shape != (len(pop),) or (p < 0).any() or abs(p.sum() - 1) > 1e-8:
                raise ValueError("probabilities do not sum to 1")
            idx = [i for i in idx if p[i] > 0]

        def one(ix):
            return ix[self.ch.choose(len(ix), "choice")]
        if size is None:
            r = pop[one(idx)]
            return np.asarray(a)[pop.index(r)] if isinstance(a, np.ndarray) and a.ndim > 1 else r
        n = int(np.prod(size))
        if replace:
            out = [pop[one(idx)] for _ in range(n)]
        else:
            if n > len(idx):
                raise ValueError("Cannot take a larger sample than population when replace=False")
            left, out = list(idx), []
            for _ in range(n):
                i = one(left)
                left.remove(i)
                out.append(pop[i])
        return np.array(out, dtype=np.asarray(pop).dtype).reshape(size)

    def np_permutation(self, x):
        seq = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array(self._perm(seq))

    def _perm(self, seq):
        left, out = list(seq), []
        while left:
            out.append(left.pop(self.ch.choose(len(left), "perm") if len(left) > 1 else 0))
        return out

    def np_shuffle(self, x):
        idx = self._perm(list(range(len(x))))
        if isinstance(x, np.ndarray):
            x[...] = x[idx]
        else:
            x[:] = [x[i] for i in idx]

    def np_normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: loc + scale * self.ch.pick(self.normals, "normal"))

    def np_uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self.ch.pick(self.floats, "uniform"))

    # ------- random module
    def py_randint(self, a, b):
        return a + self.ch.choose(b - a + 1, "randint")

    def py_choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.ch.choose(len(seq), "choice")]

    def py_sample(self, population, k, **kw):
        left, out = list(population), []
        if k > len(left):
            raise ValueError("Sample larger than population")
        for _ in range(k):
            out.append(left.pop(self.ch.choose(len(left), "sample")))
        return out

    def py_uniform(self, a, b):
        return a + (b - a) * self.ch.pick(self.floats, "uniform")

    @contextlib.contextmanager
    def installed(self):
        nop = lambda *a, **k: None  # noqa: E731
        nps = {"random": self.np_random, "random_sample": self.np_random, "rand": self.np_rand,
               "randint": self.np_randint, "choice": self.np_choice,
               "permutation": self.np_permutation, "shuffle": self.np_shuffle,
               "normal": self.np_normal, "uniform": self.np_uniform, "seed": nop}
        pys = {"random": lambda: self.ch.pick(self.floats, "random"), "randint": self.py_randint,
               "randrange": lambda a, b=None: self.py_randint(0, a - 1) if b is None
               else self.py_randint(a, b - 1),
               "choice": self.py_choice, "sample": self.py_sample, "shuffle": self.np_shuffle,
               "uniform": self.py_uniform, "seed": nop}
        old_np = {k: getattr(np.random, k) for k in nps}
        old_py = {k: getattr(_random, k) for k in pys}
        try:
            for k, v in nps.items():
                setattr(np.random, k, v)
            for k, v in pys.items():
                setattr(_random, k, v)
            yield self
        finally:
            for k, v in old_np.items():
                setattr(np.random, k, v)
            for k, v in old_py.items():
                setattr(_random, k, v)


def sequences(alphabet, depth):
    """All words over alphabet of length 0..depth, shortest first."""
    alphabet = list(alphabet)
    for d in range(depth + 1):
        yield from itertools.product(alphabet, repeat=d)

"""environment stand-ins shared by checks (used in symbolic runs and in replays alike)"""
import contextlib
from unittest import mock

import numpy as np


class FakeRng:
    """numpy Generator/RandomState look-alike: every draw is an arbitrary value of its range"""

    def __init__(self, I, tag="rng"):
        self.I, self.n, self.tag = I, 0, tag
        self.log = []

    def _name(self, k):
        self.n += 1
        return f"{self.tag}.{k}{self.n}"

    # -- integers ---------------------------------------------------------
    def _int(self, lo, hi, k):
        v = self.I.int(self._name(k), int(lo), int(hi) - 1)
        return v

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if size is None:
            return self._int(low, high, "randint")
        n = int(np.prod(size))
        return np.array([self._int(low, high, "randint") for _ in range(n)],
                        dtype=object if self.I.symbolic else int).reshape(size)

    integers = randint

    def random(self, size=None):
        if size is None:
            return self.I.real(self._name("u"), 0, 1 - 2 ** -20)
        n = int(np.prod(size))
        return np.array([self.I.real(self._name("u"), 0, 1 - 2 ** -20) for _ in range(n)],
                        dtype=object if self.I.symbolic else float).reshape(size)

    random_sample = random

    def rand(self, *shape):
        return self.random(shape) if shape else self.random()

    def uniform(self, low=0.0, high=1.0, size=None):
        def one():
            u = self.I.real(self._name("u"), 0, 1 - 2 ** -20)
            return low + (high - low) * u
        if size is None:
            return one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)], dtype=object if self.I.symbolic else float).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        def one():
            return loc + scale * self.I.real(self._name("z"), -4, 4)
        if size is None:
            return one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)], dtype=object if self.I.symbolic else float).reshape(size)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def choice(self, a, size=None, replace=True, p=None, **k):
        pool = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        n = len(pool)
        if n == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if size is None:
            i = self._int(0, n, "choice")
            if p is not None:
                self.I.require(self.I.any([self.I.all([self.I.same(i, j)]) for j in range(n) if p[j] > 0]))
            return pool[int(i)]
        m = int(np.prod(size))
        if not replace and m > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        idx, left = [], list(range(n))
        for _ in range(m):
            j = int(self._int(0, len(left), "choice"))
            idx.append(left[j])
            if not replace:
                left.pop(j)
        out = np.array([pool[i] for i in idx]) if idx else np.array([], dtype=int)
        return out.reshape(size)

    def permutation(self, x):
        n = int(x) if np.ndim(x) == 0 else len(x)
        p = self.choice(n, n, replace=False)
        return p if np.ndim(x) == 0 else np.asarray(x)[p]

    def shuffle(self, x):
        p = self.choice(len(x), len(x), replace=False)
        c = [x[int(i)].copy() if hasattr(x[int(i)], "copy") else x[int(i)] for i in p]
        for i, v in enumerate(c):
            x[i] = v

    def seed(self, *a):
        pass

    def get_state(self, *a, **k):
        return None

    def set_state(self, *a, **k):
        pass


class FakePyRandom(FakeRng):
    """the `random` module"""

    def randint(self, a, b):
        return self._int(a, int(b) + 1, "randint")

    def randrange(self, a, b=None):
        return self._int(0, a, "randrange") if b is None else self._int(a, b, "randrange")

    def choice(self, seq):
        return seq[int(self._int(0, len(seq), "choice"))]

    def sample(self, pop, k):
        return list(FakeRng.choice(self, list(pop), k, replace=False))

    def choices(self, pop, weights=None, k=1):
        return [self.choice(pop) for _ in range(k)]

    def gauss(self, m, s):
        return self.normal(m, s)


NPFUNCS = ["choice", "randint", "rand", "random", "random_sample", "uniform", "normal", "randn",
           "permutation", "shuffle"]


@contextlib.contextmanager
def fake_numpy_random(I, tag="np"):
    rng = FakeRng(I, tag)
    with contextlib.ExitStack() as st:
        for f in NPFUNCS:
            st.enter_context(mock.patch.object(np.random, f, getattr(rng, f)))
        st.enter_context(mock.patch.object(np.random, "default_rng", lambda *a, **k: rng))
        yield rng


@contextlib.contextmanager
def fake_py_random(I, tag="py"):
    import random
    rng = FakePyRandom(I, tag)
    with contextlib.ExitStack() as st:
        for f in ["randint", "randrange", "choice", "sample", "shuffle", "random", "uniform", "choices"]:
            st.enter_context(mock.patch.object(random, f, getattr(rng, f)))
        yield rng


@contextlib.contextmanager
def quiet():
    import io
    import warnings
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def obj(I, lst):
    """array of possibly symbolic numbers"""
    return np.array(lst, dtype=object if I.symbolic else float)


def grid1(I, n, name, uniform=False):
    """strictly increasing coordinates; uniform: o + i*h"""
    if uniform:
        h = I.real("h_" + name, 0)
        I.require(h > 0)
        o = I.real("o_" + name)
        return obj(I, [o + i * h for i in range(n)])
    xs = [I.real(f"{name}{i}") for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        I.require(a < b)
    return obj(I, xs)

"""C15: the SGA population keeps its size, its score pairing and its best candidate through every generation"""
import contextlib
from unittest import mock

import numpy as np

from symx import core
from symx.runner import H
from . import sgaenv
from .env import FakeRng, quiet

ASSUMPTIONS = ["a candidate's score is an arbitrary function of its terms; term generation and mutation are arbitrary "
               "(decided separately by C13)", "at most one rejected candidate per initial slot is followed"]


def load():
    return sgaenv.load_sga()


class World:
    """scores, term names and the log of everything evaluated"""

    def __init__(self, I, alphabet, mutants, reject, ordered=False):
        self.I, self.alphabet, self.mutants, self.reject = I, alphabet, mutants, reject
        self.score, self.log, self.n, self.init = {}, [], 0, True
        self.rejected = 0
        self.ordered = ordered
        W = self

        class Leaf:
            def __init__(s, ctx, depth, p_var):
                W.n += 1
                s.inorder = W.alphabet[I.choose(f"term{W.n}", range(len(W.alphabet)))] if len(W.alphabet) > 1 else f"n{W.n}"

            def mutate(s, ctx, p):
                W.n += 1
                m = W.mutants
                k = I.choose(f"mut{W.n}", range(len(m))) if len(m) > 1 else 0
                if m[k] is not None:
                    s.inorder = m[k] if m[k] != "*" else f"m{W.n}"
        self.Leaf = Leaf

    def value(self, text):
        if text not in self.score:
            self.score[text] = self.I.real("score:" + text, -150, 50)
        return self.score[text]

    def evaluate(self, pde, ctx, is_term=False, **k):
        I = self.I
        terms = list(pde.elements)
        pde.elements[:] = [t for t in terms if t.inorder != "zero"]
        pde.W = len(pde.elements)
        text = pde.visualize()
        if not pde.elements:
            v = np.inf
        else:
            v = self.value(text)
        if self.init and not self.reject:
            I.require(v >= (self.log[-1][1] if self.log and self.ordered else -100))
        if self.init and self.reject:
            bad = bool(v < -100) or not pde.elements
            if bad:
                self.rejected += 1
                I.require(self.rejected <= 1)
        self.log.append((text, v, [t.inorder for t in terms]))
        return v, 0


def audit(I, sga, w, num, what):
    I.check(len(sga.eqs) == num and len(sga.mses) == num, what + ": population size")
    for e, m in zip(sga.eqs, sga.mses):
        I.check(e.elements and e.W == len(e.elements), what + ": candidate has terms")
        I.check(I.same(m, w.value(e.visualize())), what + ": every candidate carries its own score")
    for a, b in zip(sga.mses, sga.mses[1:]):
        I.check(a <= b, what + ": best first")
    ids = [id(t) for e in sga.eqs for t in e.elements]
    I.check(len(set(ids)) == len(ids), what + ": candidates do not share terms")
    be, bm = sga.the_best()
    I.check(I.all([bm <= m for m in sga.mses]), what + ": reported best is the best")
    I.check(I.same(bm, w.value(be.visualize())), what + ": reported score belongs to the reported equation")


def survivors(I, sga, before, new, what):
    """the kept ones are the best of the previous population and the newly evaluated ones"""
    kept = [(e.visualize(), m) for e, m in zip(sga.eqs, sga.mses)]
    pool = list(before) + [(t, v) for t, v, _ in new if not (isinstance(v, float) and v == np.inf)]
    worst = kept[-1][1]
    texts = [t for t, _ in kept]
    for t, v in pool:
        if t not in texts:
            I.check(worst <= v, what + ": nothing better is thrown away")
    for t in texts:
        I.check(t in [q for q, _ in pool], what + ": only evaluated candidates survive")
    for t in set(texts):
        I.check(texts.count(t) <= [q for q, _ in pool].count(t), what + ": no candidate is multiplied")
    I.check(I.all([kept[0][1] <= v for _, v in pool]), what + ": best candidate never lost")


def make(I, M, w, num, width):
    ctx = sgaenv.mkctx(M, ["+", "d"], ["*"], ["u", "x"], ["x"])
    pl, el = [], []
    s = M.solver.SGA(ctx, num, 2, width, 0.5, 0.3, 0.3, 0.5, pl, el)
    w.init = False
    I.check(len(pl) == len(el) == len(w.log), "every evaluated candidate is recorded")
    return s


class Stack(contextlib.ExitStack):
    def __enter__(self):
        return self.rng


def patches(I, M, w):
    import random
    rng = FakeRng(I, "np")
    rng.full = False
    randint = rng.randint
    rng.cap = None

    def draw(lo, hi=None, *a, **k):
        if rng.full:
            return (lo if hi is None else hi) - 1
        if rng.cap is not None:
            rng.cap -= 1
            if rng.cap < 0:
                return 0 if hi is None else lo
        return randint(lo, hi, *a, **k)
    rng.randint = draw
    pyr = FakeRng(I, "py")
    st = Stack()
    st.rng = rng
    st.enter_context(quiet())
    for f in ("choice", "randint", "random", "rand"):
        st.enter_context(mock.patch.object(np.random, f, getattr(rng, f)))
    perm = {}

    def shuffle(x):
        n = len(x)
        k = sum(1 for q in perm if q[0] == n)
        p = pyr.choice(n, n, replace=False) if rng.cap is None else range(n)[::-1]
        perm[(n, k)] = p
        x[:] = [x[int(i)] for i in p]
    st.enter_context(mock.patch.object(random, "shuffle", shuffle))
    st.enter_context(mock.patch.object(M.pde, "Tree", w.Leaf))
    st.enter_context(mock.patch.object(M.pde, "evaluate_mse", w.evaluate))
    st.enter_context(mock.patch.object(M.solver, "evaluate_mse", w.evaluate))
    return st


def create(I, M, num, width, alphabet):
    """initial population"""
    w = World(I, alphabet, [None], True)
    with patches(I, M, w):
        s = make(I, M, w, num, width)
    audit(I, s, w, num, "start")
    ok = [(t, v) for t, v, _ in w.log if not (isinstance(v, float) and v == np.inf)]
    for e, m in zip(s.eqs, s.mses):
        I.check(m >= -100, "start: no degenerate candidate is admitted")
    I.check(sorted(e.visualize() for e in s.eqs) == sorted(t for t, v in ok if bool(v >= -100)), "start: every admitted candidate is kept")


def cross(I, M, num, width, alphabet, frac=1.0, ordered=False):
    """crossover keeps the best, scores belong to candidates"""
    w = World(I, alphabet, [None], False, ordered)
    with patches(I, M, w) as rng:
        rng.full = ordered
        s = make(I, M, w, num, width)
        rng.full = False
        rng.cap = 2 if ordered else None
        before = [(e.visualize(), m) for e, m in zip(s.eqs, s.mses)]
        terms = [[t.inorder for t in e.elements] for e in s.eqs]
        n0 = len(w.log)
        s.cross_over(frac)
    audit(I, s, w, num, "crossover")
    new = w.log[n0:]
    survivors(I, s, before, new, "crossover")
    k = int(num * frac)
    I.check(len(new) <= 2 * k, "crossover: two offspring per pair at most")
    for t, v, el in new:
        ok = any(len(p) == len(el) and any(
            sum(a != b for a, b in zip(p, el)) <= 1 and all(b in q or a == b for a, b in zip(p, el)) for q in terms[:k])
            for p in terms[:k])
        I.check(ok, "crossover: offspring is a parent with one term taken from another parent of the selected best")


def change(I, M, num, width, alphabet, mutants, ordered=False):
    """mutation of the population, elites kept"""
    w = World(I, alphabet, mutants, False, ordered)
    with patches(I, M, w):
        s = make(I, M, w, num, width)
        before = [(e.visualize(), m) for e, m in zip(s.eqs, s.mses)]
        n0 = len(w.log)
        s.change(0.3, I.choose("p_rep", [0.0, 0.3, 1.0]))
    audit(I, s, w, num, "mutation")
    survivors(I, s, before, w.log[n0:], "mutation")
    I.check(len(w.log) - n0 <= num - 1, "mutation: at most one new candidate per member, the best one untouched")


def run(I, M, num, width, gens, alphabet):
    """whole runs: best never gets worse and is the one reported"""
    w = World(I, alphabet, [None, "*"], False)
    shown = []
    with patches(I, M, w), mock.patch.object(M.pde.PDE, "concise_visualize", lambda s, c: shown.append(s.visualize()) or ""):
        s = make(I, M, w, num, width)
        if core.CUR is not None:
            core.CUR.str_hook = lambda v, spec: "<score>"      # printed only
        e, m = s.run(gens)
    audit(I, s, w, num, "run")
    I.check(I.same(m, w.value(e.visualize())), "returned score belongs to the returned equation")
    I.check(I.all([m <= v for t, v, _ in w.log if not (isinstance(v, float) and v == np.inf)]),
            "returned equation is the best ever scored")
    I.check(len(shown) == gens, "one report per generation")


def solver(I, M):
    """SGAPDE_Solver passes its settings on and reports the best equation with its own score"""
    import types
    w = World(I, ["a"], [None], False)
    cfg = types.SimpleNamespace(seed=0, num=3, depth=4, width=2, p_var=.1, p_mute=.2, p_rep=.3, p_cro=.4, sga_run=5)
    got = {}
    best = types.SimpleNamespace(visualize=lambda: "EQ")
    sc = I.real("best", -50, 50)
    fails = I.bool("details_fail")

    class FakeSGA:
        def __init__(s, **k):
            got.update(k)

        def run(s, gen):
            got["gen"] = gen
            return best, sc

    def details(eq, ctx):
        I.check(eq is best, "details describe the best equation")
        if fails:
            raise ValueError
        return "details"
    with mock.patch.object(M.solver, "SGA", FakeSGA), mock.patch.object(M.solver, "extract_equation_details", details), \
            mock.patch.object(np.random, "seed", lambda *a: None), quiet():
        s = M.solver.SGAPDE_Solver(cfg)
        out = s.run("ctx")
    I.check(out[0] == "EQ" and I.same(out[1], sc), "best equation and its score are returned")
    I.check(all(got[k] == getattr(cfg, k) for k in ("num", "depth", "width", "p_var", "p_mute", "p_rep", "p_cro")), "settings")
    I.check(got["gen"] == 5 and got["context"] == "ctx", "settings")
    I.check(s.best_equation_details_ == (None if fails else "details"), "details recorded")


HARNESSES = [
    H(create, [dict(num=2, width=1, alphabet=["a", "zero"]), dict(num=2, width=2, alphabet=["n"]),
               dict(num=3, width=1, alphabet=["n"])],
      thorough=[dict(num=2, width=2, alphabet=["a", "b", "zero"]), dict(num=3, width=1, alphabet=["a", "b", "zero"])],
      bounds="2-3 candidates of 1-2 terms, every score, one rejection per run", limit=200, thorough_limit=800),
    H(cross, [dict(num=2, width=1, alphabet=["a", "b"]), dict(num=2, width=2, alphabet=["n"], ordered=True),
              dict(num=3, width=1, alphabet=["n"], frac=0.7), dict(num=2, width=1, alphabet=["n"], frac=0.5),
              dict(num=3, width=2, alphabet=["n"], frac=0.4, ordered=True)],
      thorough=[dict(num=2, width=2, alphabet=["n"]), dict(num=3, width=2, alphabet=["n"], frac=0.4),
                dict(num=3, width=1, alphabet=["a", "b"]), dict(num=2, width=2, alphabet=["a", "b", "zero"]),
                dict(num=3, width=2, alphabet=["n"], frac=0.7)],
      bounds="2-3 candidates, 1-2 terms each, all scores, pairings and crossover points", limit=200, thorough_limit=800),
    H(change, [dict(num=2, width=1, alphabet=["a", "b"], mutants=[None, "c", "zero"]),
               dict(num=2, width=2, alphabet=["n"], mutants=[None, "*"]),
               dict(num=3, width=1, alphabet=["n"], mutants=["*"], ordered=True)],
      thorough=[dict(num=3, width=1, alphabet=["n"], mutants=["*"]), dict(num=3, width=1, alphabet=["a", "b"], mutants=[None, "c"]),
                dict(num=2, width=2, alphabet=["a", "b"], mutants=[None, "c", "zero"])],
      bounds="2-3 candidates, 1-2 terms, all scores and mutations, replacement probability 0, 0.3 or 1",
      limit=200, thorough_limit=800),
    H(run, [dict(num=2, width=1, gens=1, alphabet=["n"])], thorough=[dict(num=2, width=1, gens=2, alphabet=["n"])],
      bounds="1-2 generations of 2 candidates", limit=250, thorough_limit=800),
    H(solver, [{}]),
]

"""C21: the DLGA population keeps its size, its score pairing and its best equation through every generation"""
import contextlib
import importlib
import os
import tempfile
from types import SimpleNamespace
from unittest import mock

import numpy as np

from symx.runner import H
from .c16 import Marks
from .env import quiet

ASSUMPTIONS = ["in the search harnesses the score of an equation is an arbitrary number per set of terms",
               "the singular vectors used for the fit are arbitrary numbers (the fit itself is numpy's)", "float rounding is outside the claim"]


def load():
    M = SimpleNamespace()
    M.base = importlib.import_module("kd.model.dlga")
    M.kd = importlib.import_module("kd.model.kd_dlga")
    return M


def key(genome):
    return tuple(sorted(tuple(sorted(m)) for m in genome))


class Rnd:
    """every draw is an arbitrary value of its range (integers one by one, probabilities one per side of the threshold)"""

    def __init__(self, I, probs):
        self.I, self.n, self.probs = I, 0, probs

    def _c(self, lo, hi):
        self.n += 1
        if hi < lo:
            raise ValueError("empty range for randint")
        return self.I.choose(f"d{self.n}", list(range(int(lo), int(hi) + 1))) if hi > lo else int(lo)

    def uniform(self, a=0, b=1, size=None):
        self.n += 1
        return self.I.real(f"p{self.n}", 0, 1) if self.probs is None else self.probs

    def random(self, size=None):
        return self.uniform()

    rand = random


class Py(Rnd):
    def randint(self, a, b):
        return self._c(a, b)

    def randrange(self, a, b=None):
        return self._c(0, a - 1) if b is None else self._c(a, b - 1)

    def choice(self, s):
        return s[self._c(0, len(s) - 1)]


class Npr(Rnd):
    def randint(self, low, high=None, size=None):
        return self._c(0, low - 1) if high is None else self._c(low, high - 1)

    def shuffle(self, x):
        raise NotImplementedError


@contextlib.contextmanager
def world(I, M, kind, pop, lib=2, probs=None, scored=True, fresh=None, free=99, **attrs):
    D = M.base.DLGA
    import random
    Marks(I)
    score, log = {}, []
    with contextlib.ExitStack() as st:
        st.enter_context(quiet())
        if kind == "kd":
            m = M.kd.KD_DLGA(operators=["u", "u_x", "u_xx", "u_xxx"][:lib], epi=0.1, input_dim=2, max_iter=1)
        else:
            m = D(0.1, 2, max_iter=1)
            lib = 4
        m.pop_size = pop
        for k, v in attrs.items():
            setattr(m, k, v)
        if scored:
            def translate(self, gene):
                return SimpleNamespace(gene=key(gene), real=gene), 7

            def fitness(self, t, pen):
                I.check(pen == 7, "length penalty handed on")
                if t.gene not in score:
                    score[t.gene] = I.real("score" + repr(t.gene), 0, 100)
                log.append((t.gene, score[t.gene]))
                return ("coef", t.gene), score[t.gene], None, ("lhs", t.gene)
            st.enter_context(mock.patch.object(D, "translate_DNA", translate))
            st.enter_context(mock.patch.object(D, "get_fitness", fitness))
        py, npr = Py(I, probs), Npr(I, probs)
        npr.n = 10000
        for f in ("randint", "uniform", "random", "randrange", "choice"):
            st.enter_context(mock.patch.object(random, f, getattr(py, f)))
        for f in ("randint", "uniform", "rand", "random"):
            st.enter_context(mock.patch.object(np.random, f, getattr(npr, f)))
        if fresh:
            seq = []

            def random_genome(self):
                seq.append(1)
                return [list(t) for t in I.choose(f"new{len(seq)}", fresh) ] if len(seq) <= free else [list(t) for t in fresh[-1]]
            for C in {D, type(m)}:
                st.enter_context(mock.patch.object(C, "random_genome", random_genome))
        for mod in (M.base, M.kd):
            if hasattr(mod, "tqdm"):
                st.enter_context(mock.patch.object(mod, "tqdm", lambda x, *a, **k: x))
        tmp = st.enter_context(tempfile.TemporaryDirectory())
        old = os.getcwd()
        st.callback(os.chdir, old)
        os.chdir(tmp)
        yield m, score, log, lib


def valid(I, pop, lib, n, what):
    I.check(len(pop) == n, what + ": population size")
    for g in pop:
        I.check(len(g) > 0 and all(len(m) > 0 for m in g), what + ": no empty terms")
        I.check(all(0 <= i < lib for m in g for i in m), what + ": only library entries")
    ids = [id(g) for g in pop] + [id(m) for g in pop for m in g]
    I.check(len(set(ids)) == len(ids), what + ": individuals share nothing")


POOL = [[[0]], [[0], [1]], [[1, 1]], [[0, 1], [1]]]


def draw_pop(I, n, pool):
    return [[list(m) for m in I.choose(f"g{i}", pool)] for i in range(n)]


def cross(I, M, kind, pop, gens):
    """crossover exchanges one term in every consecutive pair"""
    with world(I, M, kind, pop, n_generations=gens) as (m, score, log, lib):
        m.Chrom = draw_pop(I, pop, POOL)
        before = [[list(t) for t in g] for g in m.Chrom]
        m.cross_over()
        valid(I, m.Chrom, lib, pop, "crossover")
        for k in range(0, pop - 1, 2):
            a, b, c, d = before[k], before[k + 1], m.Chrom[k], m.Chrom[k + 1]
            ok = any(c == a[:i] + [b[j]] + a[i + 1:] and d == b[:j] + [a[i]] + b[j + 1:] for i in range(len(a)) for j in range(len(b)))
            I.check(ok, "one term exchanged in every pair")
        if pop % 2:
            I.check(m.Chrom[-1] == before[-1], "odd one out stays")
        I.reach("crossed")


def mutate(I, M, kind, pop, lib):
    """mutation edits each individual on its own: at most one term added, one removed, one library entry replaced"""
    with world(I, M, kind, pop, lib=lib, max_length=2) as (m, score, log, lib):
        m.Chrom = draw_pop(I, pop, POOL[:3])
        before = [[list(t) for t in g] for g in m.Chrom]
        m.mutation()
        valid(I, m.Chrom, lib, pop, "mutation")
        for a, c in zip(before, m.Chrom):
            I.check(abs(len(c) - len(a)) <= 1, "at most one term more or less")
            rest = [list(t) for t in a]
            fresh = []
            for t in c:
                if t in rest:
                    rest.remove(t)
                else:
                    fresh.append(t)
            I.check(len(fresh) <= 2 and all(len(t) <= 2 for t in fresh), "at most one new and one changed term")
        m.delete_duplicates()
        valid(I, m.Chrom, lib, pop, "deduplication")
        for g in m.Chrom:
            I.check(len({tuple(t) for t in g}) == len(g) and all(t == sorted(t) for t in g), "terms distinct and ordered")
        I.reach("mutated")


def dedup(I, M, kind, k):
    """removing duplicate terms keeps one of each, in order"""
    with world(I, M, kind, 1) as (m, score, log, lib):
        g = [I.choose(f"m{i}", [[0], [1], [0, 1], [1, 0], [0, 0]]) for i in range(k)]
        m.Chrom = [[list(t) for t in g]]
        m.delete_duplicates()
        want = []
        for t in g:
            if sorted(t) not in want:
                want.append(sorted(t))
        I.check(m.Chrom == [want], "one of each term, first occurrence first")


def genome(I, M, kind, lib):
    """random individuals use only the library, with at least one and at most max_length terms"""
    with world(I, M, kind, 1, lib=lib, max_length=2) as (m, score, log, lib):
        g = m.random_genome()
        I.check(1 <= len(g) <= 2 and all(1 <= len(t) <= 2 for t in g), "sizes")
        valid(I, [g], lib, 1, "random individual")
        I.check(all(t == sorted(t) for t in g), "terms ordered")


def select(I, M, kind, pop):
    """selection keeps the better half, best first, each with its own fit"""
    with world(I, M, kind, pop, probs=0.99) as (m, score, log, lib):
        m.Chrom = draw_pop(I, pop, POOL[:3])
        before = [key(g) for g in m.Chrom]
        m.select()
        k = pop // 2
        valid(I, m.Chrom, lib, pop, "selection")
        I.check(len(m.Fitness) == len(m.coef) == len(m.name) == k, "half is kept")
        for g, f, c, nm in zip(m.Chrom, m.Fitness, m.coef, m.name):
            I.check(I.same(f, score[key(g)]) and c == ("coef", key(g)) and nm == ("lhs", key(g)), "kept with its own fitness, coefficients and left-hand side")
        for a, b in zip(m.Fitness, m.Fitness[1:]):
            I.check(a <= b, "best first")
        kept = [key(g) for g in m.Chrom[:k]]
        left = list(before)
        for g in kept:
            I.check(g in left, "kept from the population, each once")
            left.remove(g)
        for g in left:
            I.check(I.all([score[g] >= f for f in m.Fitness]), "nothing better is dropped")
        I.eq(m.fitness_history[-1], m.Fitness[0], "history holds the best fitness")
        e = m.evolution_history[-1]
        I.eq(e["fitness"], m.Fitness[0], "recorded best")
        I.check(e["complexity"] == len(m.Chrom[0]) and e["population_size"] == pop and e["generation"] == 1, "recorded numbers")
        I.check(e["unique_modules"] == len({tuple(sorted(t)) for g in m.Chrom for t in g}), "recorded diversity")


def evolve(I, M, kind, pop, gens, **attrs):
    """a whole search: the reported equation is the best of all selected generations and its fit belongs to it"""
    with world(I, M, kind, pop, n_generations=gens, **attrs) as (m, score, log, lib):
        seen = []
        sel = type(m).select

        def spy(self):
            best = key(self.Chrom[0])
            valid(I, self.Chrom, lib, pop, "before selection")
            cand = [key(g) for g in self.Chrom]
            r = sel(self)
            seen.append((cand, best))
            return r
        with mock.patch.object(type(m), "select", spy):
            if kind == "base":
                with mock.patch.object(M.base.DLGA, "select", spy):
                    out = m.evolution()
            else:
                out = m.evolution()
        chrom, coef, fit, name = out
        I.check(len(seen) == gens, "number of generations")
        valid(I, m.Chrom, lib, pop, "final")
        k = key(chrom)
        I.check(coef == ("coef", k) and name == ("lhs", k) and I.same(fit, score[k]), "reported fit belongs to the reported equation")
        I.check(len(m.fitness_history) == gens == len(m.evolution_history), "one entry per generation")
        for a, b in zip(m.fitness_history, m.fitness_history[1:]):
            I.check(b <= a, "the best never gets worse")
        for cand, _ in seen:
            I.check(I.all([fit <= score[c] for c in cand]), "nothing better was seen in any generation")
        I.eq(m.fitness_history[-1], fit, "last entry is the reported fitness")
        I.check(m.Chrom[0] == chrom, "reported equation is the first of the population")


def fitness(I, M, kind, rows, genome, sym):
    """the fit: products of the library columns, the better of the two left-hand sides, residual plus length penalty"""
    with world(I, M, kind, 1, lib=3, scored=False, epi=0.25) as (m, score, log, lib):
        lib = 3
        n = len(genome)
        o = lambda a: np.array(a, dtype=object if I.symbolic else float)
        ut, utt = I.array("ut", (rows, 1), -2, 2), I.array("utt", (rows, 1), -2, 2)
        if sym == "library":
            Th = I.array("Th", (rows, lib), -2, 2)
            V = [[1.0] + [0.5, -0.25][:n], [-0.5] + [0.5, 0.125][:n]]
            utt = o([[0.5], [-1.0]][:rows])
        else:
            Th = o([[0.5, -1.5, 2.0], [1.5, 0.25, -1.0]][:rows])
            V = [[I.choose(f"first{k}", [1.0, -0.5])] + list(I.array(f"v{k}", (n,), -1, 1)) for k in range(2)]
            ut = o([[0.5], [-1.0]][:rows])
        mats = []

        def svd(A, full_matrices=True, **k):
            A = np.asarray(A)
            I.check(A.shape == (rows, n + 1), "one column per term and one for the left-hand side")
            mats.append(np.array(A))
            k = len(mats) - 1
            I.check(k < 2, "one fit per left-hand side")
            vt = np.zeros((min(A.shape) if not full_matrices else n + 1, n + 1), dtype=object if I.symbolic else float)
            for j in range(n + 1):
                vt[-1, j] = V[k][j]
            return None, None, vt
        m.u_t, m.u_tt = np.array(ut), np.array(utt)
        with contextlib.ExitStack() as st:
            if I.symbolic:
                from symx import torchshim
                m.Theta = torchshim.T(Th)
                st.enter_context(mock.patch.object(M.base.np.linalg, "svd", svd))
            else:
                import torch
                m.Theta = torch.tensor(np.array(Th, dtype=float))
                st.enter_context(mock.patch.object(np.linalg, "svd", svd))
            g, pen = m.translate_DNA([list(t) for t in genome])
            coef, mse, true, name = m.get_fitness(g, pen)
        I.check(pen == sum(len(t) for t in genome), "length of the equation")
        P = [[1] * rows for _ in genome]
        for j, t in enumerate(genome):
            for i in t:
                P[j] = [P[j][r] * Th[r, i] for r in range(rows)]
        I.check(np.shape(g) == (rows, n), "one column per term")
        for j in range(n):
            for r in range(rows):
                I.eq(g[r, j], P[j][r], "term values are the products of its library columns")
                for A in mats:
                    I.eq(A[r, j + 1], P[j][r], "fitted terms")
        for A, L in zip(mats, (ut, utt)):
            for r in range(rows):
                I.eq(A[r, 0], L[r, 0], "fitted left-hand side")
        I.check(len(mats) == 2 and name in ("u_t", "u_tt") and np.shape(coef) == (n, 1), "both left-hand sides are tried")
        C = [[-v[j + 1] / (v[0] + 1e-8) for j in range(n)] for v in V]
        E = [sum([(L[r, 0] - sum([P[j][r] * C[k][j] for j in range(n)])) ** 2 for r in range(rows)]) / rows for k, L in enumerate((ut, utt))]
        k = 0 if name == "u_t" else 1
        for j in range(n):
            I.eq(coef[j, 0], C[k][j], "coefficients of the chosen left-hand side")
        I.eq(true, E[k], "mean squared residual of the reported equation")
        I.eq(mse, E[k] + 0.25 * pen, "fitness is residual plus length penalty")
        I.check(I.le(E[k], E[1 - k]), "the better left-hand side is reported")


F1 = [[[0]], [[1]]]
F2 = [[[0]], [[1], [0, 1]]]
HARNESSES = [
    H(cross, [dict(kind=k, pop=p, gens=g) for k in ("kd", "base") for p, g in ((2, 1), (3, 5), (4, 2))],
      thorough=[dict(kind="kd", pop=6, gens=2)], bounds="every population of 2-4 individuals drawn from four genomes, all exchange points"),
    H(mutate, [dict(kind="kd", pop=1, lib=2), dict(kind="base", pop=1, lib=4)],
      thorough=[dict(kind="kd", pop=1, lib=3), dict(kind="kd", pop=2, lib=2)], bounds="1 (2) individuals, all draws"),
    H(dedup, [dict(kind="kd", k=3), dict(kind="base", k=3)], bounds="every list of three terms out of five"),
    H(genome, [dict(kind="kd", lib=1), dict(kind="kd", lib=3), dict(kind="base", lib=4)], bounds="all draws, up to 2 terms of up to 2 entries"),
    H(select, [dict(kind="kd", pop=4), dict(kind="base", pop=2), dict(kind="kd", pop=3)], thorough=[dict(kind="base", pop=4), dict(kind="kd", pop=5), dict(kind="kd", pop=6)],
      bounds="populations of 2-4 (6) from three genomes, all scores including ties"),
    H(evolve, [dict(kind="kd", pop=2, gens=2, fresh=F1, free=3, mutate_rate=-1, add_rate=-1),
               dict(kind="kd", pop=3, gens=1, fresh=F1, free=3, delete_rate=-1, add_rate=-1),
               dict(kind="base", pop=2, gens=1, fresh=F1, free=2, partial_prob=-1, mutate_rate=-1),
               dict(kind="base", pop=2, gens=2, fresh=F1, free=3, mutate_rate=-1, add_rate=-1),
               dict(kind="base", pop=2, gens=2, fresh=F2, free=2, mutate_rate=-1, add_rate=-1),
               dict(kind="kd", pop=2, gens=2, fresh=F2, free=2, mutate_rate=-1, add_rate=-1),
               dict(kind="kd", pop=4, gens=1, fresh=F1, free=4, delete_rate=-1, add_rate=-1, mutate_rate=-1)],
      thorough=[dict(kind="kd", pop=2, gens=3, fresh=F1, free=4, mutate_rate=-1, add_rate=-1),
                dict(kind="kd", pop=4, gens=2, fresh=F1, free=5, delete_rate=-1, add_rate=-1, mutate_rate=-1),
                dict(kind="kd", pop=2, gens=2, fresh=F2, free=3, partial_prob=-1, delete_rate=-1)],
      bounds="1-2 (3) generations of 2-4 individuals, all scores and the draws of the stated operations"),
    H(fitness, [dict(kind=k, rows=r, genome=g, sym=s) for k in ("kd", "base") for r, g, s in (
        (1, [[0], [1]], "library"), (1, [[0, 1]], "library"), (2, [[0]], "fit"), (2, [[0, 1], [2]], "fit"))],
      bounds="all library values for 4 fits, all singular vectors and left-hand sides for one library; 1-2 rows, 1-2 terms"),
]

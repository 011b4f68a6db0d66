"""C05: the tree context the policy observes (parent, sibling, ancestors, open slots) is the real one"""
import types

import numpy as np

from symx.runner import H
from . import disco
from .disco import Tree, int_objects, tok_array

ASSUMPTIONS = ["numba is switched off in the symbolic run (same Python source); replays run it compiled"]


def load():
    return disco.load_disco()


def _lib(I, L, maxar=2):
    """an arbitrary library: L tokens with arbitrary arities, arbitrary parent codes"""
    from symx.core import SymTable
    ar = [I.int(f"ar{k}", 0, maxar) for k in range(L)]
    pa = [I.int(f"pa{k}", 0, 9) for k in range(L)]
    if I.symbolic:
        return SymTable(ar), SymTable(pa)
    return np.array(ar, dtype=np.int32), np.array(pa, dtype=np.int32)


def _seq(I, L, n, ar, incomplete=True):
    toks = [I.int(f"t{i}", 0, L - 1) for i in range(n)]
    ars = []
    d = 1
    for t in toks:
        a = int(ar[t])
        ars.append(a)
        d += a - 1
        I.require(d > 0 if (incomplete or t is not toks[-1]) else d == 0)
    return toks, ars


def parents(I, M, L, n):
    """parent, sibling at every step equal those of the finished tree"""
    ar, pa = _lib(I, L)
    toks, ars = _seq(I, L, n, ar)
    tr = Tree(ars)
    A = tok_array(I, toks, (1, n))
    with int_objects(I):
        p, s = M.subs.parents_siblings(A, ar, pa, 77, 88)
    I.eq(p[0], pa[toks[tr.next_parent]], "parent of the next element")
    sib = tr.next_sibling()
    I.eq(s[0], 88 if sib is None else toks[sib], "sibling of the next element")


def parents_batch(I, M, L, n):
    """rows of a batch do not influence each other"""
    ar, pa = _lib(I, L)
    toks, ars = _seq(I, L, n, ar)
    other = [I.int(f"o{i}", 0, L - 1) for i in range(n)]
    with int_objects(I):
        p1, s1 = M.subs.parents_siblings(tok_array(I, toks, (1, n)), ar, pa, 77, 88)
        p2, s2 = M.subs.parents_siblings(tok_array(I, [other, toks]), ar, pa, 77, 88)
    I.eq(p2[1], p1[0], "batch parent")
    I.eq(s2[1], s1[0], "batch sibling")


def at_once(I, M, L, n):
    """batch computation equals the step-by-step one"""
    ar, pa = _lib(I, L)
    toks, ars = _seq(I, L, n, ar, incomplete=False)
    mx = 9
    if I.symbolic:
        from symx import core
        mx = core.smax(*pa.v[:2])
        for v in pa.v[2:]:
            mx = core.smax(mx, v)
    else:
        mx = max(pa)
    with int_objects(I):
        P, S = M.subs.jit_parents_siblings_at_once(tok_array(I, toks, (1, n)), ar, pa)
    for b in range(n):
        tr = Tree(ars[:b])
        if b == 0:
            I.eq(P[0, 0], mx + 1, "root has no parent")
            I.eq(S[0, 0], L, "root has no sibling")
            continue
        I.eq(P[0, b], pa[toks[tr.next_parent]], f"parent[{b}]")
        sib = tr.next_sibling()
        I.eq(S[0, b], L if sib is None else toks[sib], f"sibling[{b}]")


def ancestor_mask(I, M, L, n, k):
    """positions below a given family"""
    ar, pa = _lib(I, L)
    toks, ars = _seq(I, L, n, ar)
    eff = list(range(k))
    for e in eff:
        I.require(ar[e] > 0)
    tr = Tree(ars)
    got = M.subs.ancestors(tok_array(I, toks, (1, n)), ar, np.array(eff, dtype=np.int32))
    ref = I.any([I.same(toks[a], e) for a in tr.next_ancestors() for e in eff])
    g = bool(got[0])
    I.check(I.same(ref, g) if I.concrete else (ref if g else I.not_(ref)), "an ancestor is one of the given tokens")


def observation(I, M, names, n):
    """step-by-step observations of the task along an arbitrary expression"""
    lib = disco.mklib(M, names, sym=I.symbolic)
    L = lib.L

    class T(M.task.HierarchicalTask):
        def reward_function(self, p): pass
        def evaluate(self, p): pass
    calls = []

    def prior(actions, parent, sibling, dangling):
        calls.append((actions, np.array(parent), np.array(sibling), np.array(dangling)))
        return np.zeros((1, L))
    t = T()
    t.library = lib
    obs0 = t.reset_task(prior)
    I.check(list(np.asarray(obs0)) == [lib.EMPTY_ACTION, lib.EMPTY_PARENT, lib.EMPTY_SIBLING, 1], "initial observation")
    obs = np.array(obs0).reshape(1, 4)
    if I.symbolic:
        obs = obs.astype(object)
    toks, ars = _seq(I, L, n, lib.arities)
    for i in range(n):
        before = np.array(obs)
        with int_objects(I), disco.program_ctx(M, lib):
            nobs, pr = t.get_next_obs(tok_array(I, toks[:i + 1], (1, i + 1)), obs)
        I.eq_all(obs, before, "previous observation untouched")
        tr = Tree(ars[:i + 1])
        I.eq(nobs[0, 0], toks[i], "observed action")
        I.eq(nobs[0, 1], lib.parent_adjust[toks[tr.next_parent]], "observed parent")
        sib = tr.next_sibling()
        I.eq(nobs[0, 2], lib.EMPTY_SIBLING if sib is None else toks[sib], "observed sibling")
        I.eq(nobs[0, 3], tr.dangling(), "observed open slots")
        I.eq(calls[-1][1][0], nobs[0, 1], "prior sees the same parent")
        I.eq(calls[-1][2][0], nobs[0, 2], "prior sees the same sibling")
        I.eq(calls[-1][3][0], nobs[0, 3], "prior sees the same open slots")
        obs = np.array(nobs)
        if not I.symbolic:
            obs = obs.astype(np.float32)


def vocab(I, M, names):
    """library index tables: parent codes are a bijection onto the non-terminals, empty codes are free"""
    lib = disco.mklib(M, names)
    toks = lib.tokens
    i = int(I.int("i", 0, lib.L - 1))
    j = int(I.int("j", 0, lib.L - 1))
    t = toks[i]
    I.check(int(lib.arities[i]) == t.arity, "arity table")
    I.check((i in list(lib.tokens_of_arity[t.arity])), "arity group")
    if t.arity:
        I.check(0 <= lib.parent_adjust[i] < lib.n_parent_inputs - 1, "parent code in range")
        I.check(lib.parent_adjust[i] != lib.EMPTY_PARENT, "parent code not empty")
        if toks[j].arity and i != j:
            I.check(lib.parent_adjust[i] != lib.parent_adjust[j], "parent codes distinct")
    I.check(lib.EMPTY_ACTION == lib.L and lib.EMPTY_SIBLING == lib.L, "empty codes")
    I.check((i in list(lib.state_tokens)) == (t.state_var is not None), "state tokens")
    I.check((i in list(lib.param_tokens)) == (t.param_var is not None), "param tokens")
    if any(q.input_var is not None for q in toks):
        I.check((i in list(lib.input_tokens)) == (t.input_var is not None), "input tokens")
    I.check(lib[t.name] is t and lib[i] is t and int(lib.actionize(t.name)[0]) == i, "name lookup")
    I.check((i in list(lib.terminal_tokens)) == (t.arity == 0) and (i in list(lib.unary_tokens)) == (t.arity == 1)
            and (i in list(lib.binary_tokens)) == (t.arity == 2), "arity classes")
    I.check((i in list(lib.diff_tokens)) == ("diff" in t.name.lower()), "derivative tokens")


N1 = ["add", "mul", "n2", "diff", "x1", "u1", "const"]
N2 = ["x1", "x2", "u1", "u2", "p1", "sub", "div", "Diff", "Diff2", "n3", "sin", "lap"]
HARNESSES = [
    H(parents, [{"L": 4, "n": n} for n in (1, 2, 3, 4, 5, 6)], thorough=[{"L": 6, "n": 6}, {"L": 4, "n": 8}],
      bounds="arbitrary library of L tokens with arities 0..2, every open prefix of length n"),
    H(parents_batch, [{"L": 3, "n": 3}], thorough=[{"L": 3, "n": 4}], bounds="two rows"),
    H(at_once, [{"L": 4, "n": n} for n in (1, 3, 5, 6)], thorough=[{"L": 5, "n": 7}], bounds="complete sequences of length n"),
    H(ancestor_mask, [{"L": 4, "n": n, "k": k} for n in (1, 3, 5, 6) for k in (1, 2)], thorough=[{"L": 4, "n": 7, "k": 2}],
      bounds="every open prefix of length n, k effector tokens of any positive arity"),
    H(observation, [{"names": N1, "n": 4}, {"names": N2, "n": 3}], thorough=[{"names": N1, "n": 6}],
      bounds="every open prefix of n tokens over the named library"),
    H(vocab, [{"names": N1}, {"names": N2}, {"names": ["u1", "add", "mul", "diff"]}], bounds="every token pair"),
]

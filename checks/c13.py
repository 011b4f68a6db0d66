"""C13: every candidate term SGA generates or mutates is a well-formed expression tree"""
import copy
from unittest import mock

import numpy as np

from symx.runner import H
from . import sgaenv
from .env import FakeRng, fake_numpy_random
from .sgaenv import T

ASSUMPTIONS = ["np.random draws replaced by arbitrary choices; redraws inside one mutation step eventually produce every "
               "candidate (a repeated rejected draw changes nothing)"]
CFG = {
    "one": dict(ops=["+", "d", "^2"], root=["*", "d", "^2"], vars_=["u", "x"], den=["x"], alt=["+", "*", "d"]),
    "two": dict(ops=["/", "d^2", "^3"], root=["d", "/"], vars_=["u", "x", "y", "0"], den=["x", "y"], alt=["/", "-", "d^2"]),
    "noX": dict(ops=["*", "d", "^2"], root=["d", "*"], vars_=["u", "y"], den=["y"], alt=["*", "+", "d"]),
    "strict": dict(ops=["*", "d", "^2"], root=["d", "*"], vars_=["u", "x"], den=["x"], simple=False, alt=["*", "-", "d", "d^2"]),
    "param": dict(ops=["-", "d", "^2", "^3"], root=["d", "^3"], vars_=["u", "x", "k"], den=["x"], alt=["-", "+", "d", "d^2"]),
}


def load():
    return sgaenv.load_sga()


class Redraw(FakeRng):
    """randint redraws between two np.random.choice calls never repeat a value (they would be rejected again)"""

    def __init__(self, I):
        super().__init__(I, "np")
        self.left = {}

    def choice(self, a, size=None, replace=True, p=None, **k):
        self.left = {}
        return super().choice(a, size, replace, p, **k)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        pool = self.left.setdefault((low, high), list(range(low, high)))
        if not pool:
            self.I.fail("mutation redraws forever: no admissible candidate exists")
        return pool.pop(int(self._int(0, len(pool), "randint")))


def wellformed(I, tree, ctx, max_depth):
    """returns the nested view"""
    L = tree.tree
    I.check(len(L) == max_depth and len(L[0]) == 1, "one root, declared number of levels")
    arity = {r[0]: int(r[1]) for r in list(ctx.OPS) + list(ctx.ROOT) + list(ctx.OP1) + list(ctx.OP2)}
    leaves = {r[0] for r in ctx.VARS} | {r[0] for r in ctx.den}
    den = {r[0] for r in ctx.den}
    for d in range(max_depth):
        nxt = 0
        for n in L[d]:
            I.check(n.depth == d, "node knows its level")
            if n.name in arity:
                I.check(n.child_num == arity[n.name], "operator has its own number of operands")
                I.check(n.child_st == nxt, "operands follow one another without gap or overlap")
                nxt += n.child_num
            else:
                I.check(n.name in leaves and n.child_num == 0, "leaf is a declared variable")
            I.check(n.name == n.full[0], "name belongs to the payload")
        if d + 1 < max_depth:
            I.check(len(L[d + 1]) == nxt, "every node of the next level is the operand of exactly one operator")
            for i, n in enumerate(L[d]):
                for k in range(n.child_num):
                    I.check(L[d + 1][n.child_st + k].parent_idx == i, "operand knows its operator")
        else:
            I.check(nxt == 0, "lowest level holds variables only")
    t = T(L)
    for n, p, j, depth in t.walk():
        if p is not None and p.name in ("d", "d^2") and j == 1:
            I.check(n.name in den, "derivative is taken along an allowed axis")
    I.check(t.name in {r[0] for r in list(ctx.ROOT) + list(ctx.OPS)}, "root is an operator")
    I.check(tree.preorder == " ".join(t.preorder()), "prefix text is the tree")
    I.check(tree.inorder == t.inorder(), "infix text is the tree")
    src = {r[0]: r[2] for r in list(ctx.VARS) + list(ctx.den) + list(ctx.OPS) + list(ctx.ROOT) + list(ctx.OP1) + list(ctx.OP2)}
    for n, *_ in t.walk():
        I.check(n.node.var is src[n.name], "node refers to the variable/operator it is named after")
        if isinstance(n.node.var, np.ndarray):
            I.check(n.node.cache is not n.node.var, "working copy of the data")
            I.eq_all(n.node.cache, n.node.var, "working copy starts from the data")
        else:
            I.check(n.node.cache is n.node.var, "operator kept")
        I.check(n.node.status == n.node.child_num, "traversal status untouched by printing")
    return t


def context(I, M, cfg):
    vals = {"u": I.array("u", (2, 1)), "x": np.array([[0.0], [1.0]]), "y": np.array([[2.0], [3.0]]),
            "k": np.array([[5.0], [7.0]]), "0": np.zeros((2, 1))}
    c = dict(CFG[cfg])
    alt = c.pop("alt")
    ctx = sgaenv.mkctx(M, values=vals, **c)
    ctx.OP1 = sgaenv.rows([[o, 1, sgaenv.fn(M, o)] for o in ("^2", "^3")])
    ctx.OP2 = sgaenv.rows([[o, 2, sgaenv.fn(M, o)] for o in alt])
    return ctx


def generate(I, M, cfg, depth):
    """generated trees are well formed, derivatives by coordinates only, depth bounded"""
    ctx = context(I, M, cfg)
    with fake_numpy_random(I):
        t = M.tree.Tree(ctx, depth, I.choose("p_var", [0, 0.5, 1]))
    wellformed(I, t, ctx, depth)


def patched(I):
    rng = Redraw(I)
    return mock.patch.multiple(np.random, choice=rng.choice, randint=rng.randint, random=rng.random)


def build(M, ctx, depth, spec):
    """tree of a given nested spec through the real constructor, with scripted draws"""
    idx = {k: {r[0]: i for i, r in enumerate(getattr(ctx, k))} for k in ("ROOT", "OPS", "VARS", "den")}
    script = [("i", idx["ROOT"][spec[0]])]
    level, d = [spec], 1
    while d < depth:
        nxt = []
        for node in level:
            for j, k in enumerate(node[1:]):
                k = k if isinstance(k, tuple) else (k,)
                if node[0] in ("d", "d^2") and j == 1:
                    script.append(("i", idx["den"][k[0]]))
                elif d == depth - 1:
                    script.append(("i", idx["VARS"][k[0]]))
                elif len(k) == 1:
                    script += [("r", 0.0), ("i", idx["VARS"][k[0]])]
                else:
                    script += [("r", 0.9), ("i", idx["OPS"][k[0]])]
                nxt.append(k)
        level, d = nxt, d + 1
    it = iter(script)

    def take(kind):
        k, v = next(it)
        assert k == kind
        return v
    with mock.patch.object(np.random, "randint", lambda *a, **k: take("i")), \
            mock.patch.object(np.random, "random", lambda *a, **k: take("r")):
        return M.tree.Tree(ctx, depth, 0.5)


SPECS = {
    "one": [("d", ("+", "u", "x"), "x"), ("*", ("d", "u", "x"), ("^2", "u")), ("d", ("d", "u", "x"), "x"), ("^2", ("+", "u", "x"))],
    "two": [("d", ("d^2", "u", "y"), "x"), ("/", ("^3", "u"), ("/", "u", "0"))],
    "noX": [("d", "u", "y"), ("*", "u", ("d", "u", "y"))],
    "strict": [("d", "u", "x"), ("d", ("*", "x", "u"), "x"), ("*", ("d", "x", "x"), "u")],
    "param": [("d", ("-", "u", "k"), "x"), ("^3", ("d", "k", "x"))],
}


def mutate(I, M, cfg, depth, k, gen=False):
    """mutation keeps the tree well formed and changes labels within their arity"""
    ctx = context(I, M, cfg)
    rowsnap = {n: [list(r) for r in getattr(ctx, n)] for n in ("OPS", "ROOT", "OP1", "OP2", "VARS", "den")}
    if gen:
        with fake_numpy_random(I, "gen"):
            t = M.tree.Tree(ctx, depth, 0.5)
    else:
        t = build(M, ctx, depth, SPECS[cfg][k])
    before = T(copy.deepcopy(t.tree))
    with patched(I):
        t.mutate(ctx, I.choose("p_mute", [0, 0.5, 1]))
    after = wellformed(I, t, ctx, depth)
    I.check(after.shape() == before.shape(), "mutation keeps the shape of the tree")
    I.check(after.name == before.name, "the root operator is not mutated")
    for n, rs in rowsnap.items():
        now = [list(r) for r in getattr(ctx, n)]
        I.check(len(now) == len(rs) and all(a[0] == b[0] and a[1] == b[1] and a[2] is b[2] for a, b in zip(now, rs)),
                "operator and variable tables unchanged")


def pde(I, M, width, depth):
    """a candidate equation: width, mutation of every term, replacement of exactly one term"""
    ctx = context(I, M, "one")
    with fake_numpy_random(I):
        p = M.pde.PDE(ctx, depth, width, 0.5)
    I.check(1 <= p.W <= width and len(p.elements) == p.W, "number of terms within the declared width")
    for e in p.elements:
        wellformed(I, e, ctx, depth)
    I.check(len({id(e) for e in p.elements}) == p.W, "terms are separate trees")
    I.check(p.visualize() == "+".join(T(e.tree).inorder() for e in p.elements), "text lists the terms in order")
    old = list(p.elements)
    with fake_numpy_random(I, "rep"):
        p.replace()
    I.check(len(p.elements) == p.W == len(old), "replacement keeps the number of terms")
    new = [i for i in range(p.W) if p.elements[i] is not old[i]]
    I.check(len(new) == 1, "exactly one term is replaced")
    wellformed(I, p.elements[new[0]], ctx, depth)


HARNESSES = [
    H(generate, [dict(cfg=c, depth=2) for c in CFG] + [dict(cfg=c, depth=3) for c in ("noX", "strict")],
      thorough=[dict(cfg=c, depth=3) for c in ("one", "param")],
      bounds="2-4 operators, 2-4 variables, depth 2-3 (thorough: more operator sets), p_var in {0, 0.5, 1}, all draws",
      limit=200, thorough_limit=800),
    H(mutate, [dict(cfg=c, depth=3, k=k) for c in CFG for k in range(len(SPECS[c])) if (c, k) != ("two", 1)] +
      [dict(cfg=c, depth=2, k=0, gen=True) for c in CFG],
      thorough=[dict(cfg="two", depth=3, k=1)] + [dict(cfg=c, depth=3, k=0, gen=True) for c in ("noX", "strict")],
      bounds="every mutation of 13 starting trees of depth 3 and of every generated tree of depth 2; all draws, "
             "p_mute in {0, 0.5, 1}", limit=200, thorough_limit=800),
    H(pde, [dict(width=2, depth=2)], thorough=[dict(width=3, depth=2)], bounds="up to 2 (3) terms of depth 2", limit=200),
]

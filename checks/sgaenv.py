"""stand-in problem context for the SGA tree / PDE code (same row layout as ProblemContext)"""
import importlib
import types

import numpy as np

ARITY = {"+": 2, "-": 2, "*": 2, "/": 2, "d": 2, "d^2": 2, "^2": 1, "^3": 1}


def load_sga():
    M = types.SimpleNamespace()
    for n in ("tree", "pde", "PDE_find", "solver", "equation", "config", "context", "naming"):
        setattr(M, n, importlib.import_module("kd.model.sga.sgapde." + n))
    return M


def rows(lst):
    a = np.empty((len(lst), 3), dtype=object)
    for i, r in enumerate(lst):
        a[i, 0], a[i, 1], a[i, 2] = r
    return a


def fn(M, n):
    return {"+": np.add, "-": np.subtract, "*": np.multiply, "/": M.config.SolverConfig.divide, "d": M.PDE_find.Diff,
            "d^2": M.PDE_find.Diff2, "^2": np.square, "^3": M.context.ProblemContext._cubic}[n]


def mkctx(M, ops, root, vars_, den, values=None, simple=True, **kw):
    val = values or {}
    ops_ = [[o, ARITY[o], fn(M, o)] for o in ops]
    c = types.SimpleNamespace(
        OPS=rows(ops_), ROOT=rows([[o, ARITY[o], fn(M, o)] for o in root]),
        OP1=rows([r for r in ops_ if r[1] == 1]), OP2=rows([r for r in ops_ if r[1] == 2]),
        VARS=rows([[v, 0, val.get(v)] for v in vars_]), den=rows([[v, 0, val.get(v)] for v in den]),
        simple_mode=simple, lhs_axis="t")
    for k, v in kw.items():
        setattr(c, k, v)
    return c


class T:
    """plain nested view of a kd tree, built from the child pointers"""

    def __init__(self, tree, depth=0, idx=0):
        n = tree[depth][idx]
        self.name, self.node = n.name, n
        self.kids = [T(tree, depth + 1, n.child_st + k) for k in range(n.child_num)]

    def preorder(self):
        return [self.name] + [x for k in self.kids for x in k.preorder()]

    def inorder(self):
        if not self.kids:
            return self.name
        if len(self.kids) == 1:
            return f"( {self.name} {self.kids[0].inorder()})"
        return f"({self.kids[0].inorder()} {self.name} {self.kids[1].inorder()})"

    def walk(self, parent=None, j=0, depth=0):
        yield self, parent, j, depth
        for k, c in enumerate(self.kids):
            yield from c.walk(self, k, depth + 1)

    def shape(self):
        return tuple(k.shape() for k in self.kids)

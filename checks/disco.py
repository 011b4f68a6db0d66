"""shared helpers for the DISCOVER token checks"""
import contextlib
import types
from unittest import mock

import numpy as np


def load_disco(M=None):
    import importlib
    M = M or types.SimpleNamespace()
    imp = importlib.import_module
    M.library = imp("kd.model.discover.library")
    M.program = imp("kd.model.discover.program")
    M.functions = imp("kd.model.discover.functions")
    M.subs = imp("kd.model.discover.dso.subroutines")
    M.prior = imp("kd.model.discover.dso.prior")
    M.task = imp("kd.model.discover.task.task")
    M.execute = imp("kd.model.discover.execute")
    M.stridge = imp("kd.model.discover.stridge")
    return M


def token(M, name):
    """a token of the library under test: registered operator, or u*/x*/p*/const"""
    T = M.library.Token
    if name == "const":
        return M.library.PlaceholderConstant()
    if name in M.functions.function_map:
        return M.functions.function_map[name]
    k = int(name[1:]) - 1
    kw = {"u": "state_var", "x": "input_var", "p": "param_var"}[name[0]]
    return T(None, name, 0, 1, **{kw: k})


def mklib(M, names, sym=False):
    lib = M.library.Library([token(M, n) for n in names])
    lib.torch_tokens = {}
    if sym:
        from symx.core import SymTable
        lib.arities = SymTable([int(a) for a in lib.arities])
        lib.parent_adjust = SymTable([int(a) for a in lib.parent_adjust])
    return lib


class FakeTask:
    stochastic = False
    task_type = "regression"


@contextlib.contextmanager
def program_ctx(M, lib, **kw):
    P = M.program.Program
    t = FakeTask()
    t.library = lib
    for k, v in kw.items():
        setattr(t, k, v)
    saved = {k: P.__dict__.get(k) for k in ("task", "library", "cache", "n_objects", "default_terms")}
    P.task, P.library, P.cache, P.n_objects, P.default_terms = t, lib, {}, kw.get("n_objects", 1), []
    try:
        yield P
    finally:
        for k, v in saved.items():
            setattr(P, k, v)


@contextlib.contextmanager
def int_objects(I):
    """integer buffers hold symbolic ints in the symbolic run"""
    if not I.symbolic:
        yield
        return
    from symx import shim
    shim.INT_OBJ[0] = True
    try:
        yield
    finally:
        shim.INT_OBJ[0] = False


def tok_array(I, toks, shape=None):
    a = np.array(toks, dtype=object if I.symbolic else np.int32)
    return a if shape is None else a.reshape(shape)


def ar_of(I, lib_ar, tok):
    """arity of a (symbolic) token, decided on this path"""
    return int(lib_ar[tok])


class Tree:
    """reference: prefix tree of a token sequence, built with an explicit stack"""

    def __init__(self, arities):
        self.ar = list(arities)
        self.parent = []          # index of parent or None
        self.slot = []            # which child
        stack = []                # [index, children so far]
        self.complete_at = None
        for i, a in enumerate(self.ar):
            if stack:
                self.parent.append(stack[-1][0])
                self.slot.append(stack[-1][1])
                stack[-1][1] += 1
            else:
                self.parent.append(None)
                self.slot.append(0)
            stack.append([i, 0])
            while stack and stack[-1][1] == self.ar[stack[-1][0]]:
                stack.pop()
            if not stack:
                self.complete_at = i + 1
                break
        self.stack = stack
        self.n = len(self.parent)
        # next element
        self.next_parent = stack[-1][0] if stack else None
        self.next_slot = stack[-1][1] if stack else 0

    def children(self, i):
        return [j for j in range(self.n) if self.parent[j] == i]

    def next_sibling(self):
        """first child of the parent, if the next element is its second child"""
        if self.next_parent is None or self.next_slot == 0:
            return None
        return self.children(self.next_parent)[self.next_slot - 1]

    def dangling(self):
        d = 1
        for i in range(self.n):
            d += self.ar[i] - 1
        return d

    def next_ancestors(self):
        return [s[0] for s in self.stack]


@contextlib.contextmanager
def quiet_ctx():
    import io
    import warnings
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def gen_seq(I, M, names, maxlen, tag="s", need=None, diffx=True, first=None):
    """an arbitrary complete prefix sequence of at most maxlen tokens; the second operand of a
    differentiation operator is a coordinate (the grammar's own rule)"""
    toks = {n: token(M, n) for n in names}
    out, d = [], 1
    xs = [n for n in names if n[0] == "x"]
    while d:
        i = len(out)
        if i == 0 and first:
            opts = list(first)
        else:
            opts = list(names)
            if diffx and out:
                tr = Tree([toks[n].arity for n in out])
                p = out[tr.next_parent]
                if "iff" in p:
                    opts = xs if tr.next_slot == 1 else [n for n in names if n[0] != "x"]
                if "lap" in p:
                    opts = [n for n in names if n[0] != "x"]
        opts = [n for n in opts if i + 1 + d + toks[n].arity - 1 <= maxlen]
        if not opts:
            I.require(False)
        n = opts[0] if len(opts) == 1 else I.choose(f"{tag}{i}", opts)
        out.append(n)
        d += toks[n].arity - 1
    return out


def nest(seq, arity):
    """prefix sequence -> nested tuple"""
    it = iter(seq)

    def rd():
        n = next(it)
        return (n,) + tuple(rd() for _ in range(arity(n)))
    r = rd()
    assert next(it, None) is None
    return r

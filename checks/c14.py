"""C14: SGA scores a candidate on exactly the values of its own terms, and scoring leaves everything else alone"""
import contextlib
import copy
import os
import types
from unittest import mock

import numpy as np

from symx.runner import H
from . import fdref, sgaenv
from .c09 import lstsq
from .c13 import build
from .sgaenv import T

ASSUMPTIONS = ["grid values are finite reals; the regression step is an arbitrary function of its arguments (what it is "
               "given and what is done with its answer is decided), and so is the least-squares routine inside it"]
OPS = ["+", "-", "*", "/", "d", "d^2", "^2", "^3"]
ROOT = ["*", "d", "d^2", "/", "^2", "^3"]
SHAPE = (4, 2)


def load():
    return sgaenv.load_sga()


class Ctx:
    def __init__(self, I, M, ndef=1, zero=False, shape=SHAPE, axes=("x", "t")):
        self.shape = shape
        self.val = {"u": I.array("u", shape), "v": I.array("v", shape), "0": np.zeros(shape)}
        for k, a in enumerate(axes):
            c = np.arange(shape[k]) * 0.5 + (0.0 if zero else 1.0)
            self.val[a] = np.broadcast_to(c.reshape([-1 if j == k else 1 for j in range(len(shape))]), shape).astype(float)
        self.h = {a: I.real("h_" + a, 0.25, 4) for a in axes}
        self.ut = I.array("ut", shape)
        self.default = I.array("def", (int(np.prod(shape)), ndef))
        self.ratio = I.real("ratio", 0.5, 2)
        self.snap = {k: v.copy() for k, v in self.val.items()}
        self.snap_ut, self.snap_def = self.ut.copy(), self.default.copy()
        self.axes = axes
        self.ctx = sgaenv.mkctx(
            M, OPS, ROOT, [a for a in self.val], list(axes), values=self.val, ut=self.ut, delta=dict(self.h),
            axis_map={a: k for k, a in enumerate(axes)}, default_terms=self.default, num_default=ndef,
            default_names=[f"D{i}" for i in range(ndef)], config=types.SimpleNamespace(aic_ratio=self.ratio))

    def untouched(self, I):
        for k, v in self.snap.items():
            I.check(same_all(I, self.val[k], v), f"data of {k} unchanged by scoring")
        I.check(same_all(I, self.ut, self.snap_ut), "left-hand side unchanged")
        I.check(same_all(I, self.default, self.snap_def), "default terms unchanged")
        for tab in ("VARS", "den"):
            for r in getattr(self.ctx, tab):
                I.check(r[2] is self.val[r[0]], "variable table unchanged")


def same_all(I, a, b):
    return I.all([I.same(p, q) for p, q in zip(np.asarray(a).reshape(-1), np.asarray(b).reshape(-1))])


class Drop(Exception):
    pass


def ref(I, C, t, mode):
    """value of a nested spec on the grid"""
    if not isinstance(t, tuple) or len(t) == 1:
        return C.snap[t if isinstance(t, str) else t[0]]
    op = t[0]
    if op in ("d", "d^2"):
        ax = t[2] if isinstance(t[2], str) else t[2][0]
        a = ref(I, C, t[1], mode)
        if ax == "t":
            raise Drop
        f = fdref.d1 if op == "d" else fdref.d2
        return fdref.along(f, a, C.ctx.axis_map[ax], C.h[ax])
    a = [ref(I, C, k, mode) for k in t[1:]]
    if op == "+":
        return a[0] + a[1]
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        return a[0] * a[1]
    if op == "^2":
        return a[0] * a[0]
    if op == "^3":
        return a[0] * a[0] * a[0]
    d = np.array(a[1])
    if all(bool(abs(v) <= 1e-10) for v in d.reshape(-1)):
        if mode == "guard":
            raise Drop
        d = d + 1e-6
    for _ in range(d.size + 1):
        if not any(bool(v == 0) for v in d.reshape(-1)):
            break
        d = d + 1e-10
    return a[0] / d


def tup(t):
    return tuple(tup(k) for k in t) if isinstance(t, (list, tuple)) else t


def depth(t):
    return 1 + max([depth(k) for k in t[1:]] or [0]) if isinstance(t, tuple) else 1


@contextlib.contextmanager
def mode_env(M, mode):
    """division mode as a user selects it"""
    with mock.patch.dict(os.environ, {} if mode is None else {"KD_SGA_DIVIDE_MODE": mode}):
        if mode is None:
            os.environ.pop("KD_SGA_DIVIDE_MODE", None)
        yield


class Recorder:
    def __init__(self, I, tag=""):
        self.I, self.calls, self.tag = I, [], tag

    def __call__(self, R, Ut, lam, d_tol, AIC_ratio=1, *a, **k):
        n = len(self.calls)
        out = (self.I.array(f"w{self.tag}{n}", (R.shape[1], 1)), self.I.real(f"loss{self.tag}{n}"), self.I.real(f"mse{self.tag}{n}"),
               self.I.real(f"aic{self.tag}{n}"))
        self.calls.append((np.array(R), np.array(Ut), lam, d_tol, AIC_ratio, a, k, out))
        return out


def mkpde(M, C, trees):
    it = iter(trees)
    d = max(len(t.tree) for t in trees)
    with mock.patch.object(M.pde, "Tree", lambda *a, **k: next(it)), \
            mock.patch.object(np.random, "randint", lambda *a, **k: len(trees) - 1):
        return M.pde.PDE(C.ctx, d, len(trees), 0.5)


def evaluate(I, M, specs, mode=None, term=False, ndef=1, zero=False, shape=SHAPE, axes=("x", "t"), twice=True):
    """score = fit of exactly its own terms on the problem's values"""
    specs = [tup(q) for q in specs]
    C = Ctx(I, M, ndef, zero, tuple(shape), tuple(axes))
    D = max(2, max(depth(s) for s in specs))
    trees = [build(M, C.ctx, D, s) for s in specs]
    kept, cols = [], []
    for t, s in zip(trees, specs):
        try:
            v = np.broadcast_to(ref(I, C, s, mode), C.shape).reshape(-1)
        except Drop:
            continue
        if any(bool(q != 0) for q in v):
            kept.append(t)
            cols.append(v)
    target = list(trees) if term else mkpde(M, C, trees)
    for call in range(2 if twice else 1):
        rec = Recorder(I, "abc"[call])
        with mode_env(M, mode), mock.patch.object(M.pde, "Train", rec):
            out = M.pde.evaluate_mse(target, C.ctx, term, return_matrix=True)
            if call:
                short = M.pde.evaluate_mse(target, C.ctx, term)
                I.check(len(short) == 2, "matrix only on request")
        C.untouched(I)
        now = out[0] if term else target.elements
        I.check(len(now) == len(kept) and all(a is b for a, b in zip(now, kept)),
                "exactly the undefined, zero and left-hand-axis terms are removed, order kept")
        if not term:
            I.check(target.W == len(kept), "width counts the terms that are left")
        for t in kept:
            for n, *_ in T(t.tree).walk():
                I.check(n.node.cache is n.node.var, "intermediate results are cleared")
        if not kept:
            I.check(not rec.calls, "nothing to fit")
            if not term:
                I.check(out[0] == np.inf, "an empty candidate never wins")
            continue
        R, Ut, lam, d_tol, ratio, _, _, ans = rec.calls[0]
        want = np.concatenate([C.snap_def, np.array(cols, dtype=object).T], axis=1)
        I.eq_all(R, want, "fitted columns: default terms, then the candidate's own terms in order")
        I.eq_all(Ut, C.snap_ut.reshape(-1, 1), "fitted against the left-hand side, point by point")
        I.check(I.same(ratio, C.ratio), "complexity weight of the configuration is used")
        I.check((lam, d_tol) == (0, 1), "regression settings")
        I.eq_all(out[1], ans[0], "coefficients of the fit are reported")
        I.eq_all(out[2], want, "reported matrix is the fitted one")
        if not term:
            I.check(I.same(out[0], ans[3]), "score of the fit is reported")


def misaligned(I, M):
    """default terms of another grid are refused, not silently combined"""
    C = Ctx(I, M)
    C.ctx.default_terms = C.default[:-1]
    t = build(M, C.ctx, 2, ("^2", "u"))
    I.require(I.any([v != 0 for v in C.val["u"].reshape(-1)]))
    with mode_env(M, None), mock.patch.object(M.pde, "Train", Recorder(I)):
        try:
            M.pde.evaluate_mse([t], C.ctx, True)
        except ValueError:
            return
    I.fail("misaligned default terms accepted")


def nnz(I, w):
    return sum(I.ite(v != 0, 1, 0) for v in w) if I.symbolic else int(np.count_nonzero(w))


def train(I, M, n=1, d=2, maxit=2):
    """the reported fit: error and score belong to the reported coefficients, and it is never worse than plain least squares"""
    R, y = I.array("R", (n, d)), I.array("y", (n, 1))
    ratio = I.real("ratio", 0.5, 2)
    seen = []

    def stridge(X, Y, lam, it, tol, normalize=2, **k):
        i = len(seen)
        keep = I.choose(f"keep{i}", range(2 ** d))
        w = np.array([[I.real(f"s{i}_{j}", -8, 8) if keep >> j & 1 else 0.0] for j in range(d)],
                     dtype=object if I.symbolic else float)
        seen.append((X, Y, lam, tol, normalize, w.copy()))
        return w
    Rc, yc = R.copy(), y.copy()
    with lstsq(I) as L, mock.patch.object(M.PDE_find, "STRidge", stridge):
        w, loss, mse, aic = M.PDE_find.Train(R, y, 0, 1, ratio, maxit=maxit)
    I.eq_all(R, Rc, "matrix untouched")
    I.eq_all(y, yc, "target untouched")
    I.eq_all(L.calls[0][0], Rc, "plain fit uses the whole matrix")
    I.eq_all(L.calls[0][1], yc, "plain fit uses the target")
    w0 = L.calls[0][2]
    for c in [w0] + [q[5] for q in seen]:
        I.require(sum(v * v for v in (yc - Rc.dot(c)).reshape(-1)) > 0)

    def err(c):
        r = yc - Rc.dot(c)
        return sum(v * v for v in r.reshape(-1)) / n

    def score(c):
        e = err(c)
        lg = M.PDE_find.np.log(e) if I.symbolic else np.log(e)
        return ratio * 2 * nnz(I, c[:, 0]) + 2 * lg
    I.eq(mse, err(w), "reported error is that of the reported coefficients")
    I.eq(aic, score(w), "reported score is that of the reported coefficients")
    I.check(I.le(aic, score(w0)), "never worse than plain least squares")
    I.check(I.any([I.all([I.same(a, b) for a, b in zip(w.reshape(-1), c.reshape(-1))])
                   for c in [w0] + [s[5] for s in seen]]), "coefficients are those of one of the fits tried")
    for s in seen:
        I.check(I.le(aic, score(s[5])), "no fit tried scores better than the reported one")
        I.eq_all(s[0], Rc, "every sparse fit uses the whole matrix")
        I.eq_all(s[1], yc, "every sparse fit uses the target")
        I.check(I.all([0 <= s[3]]), "threshold never negative")


def stridge(I, M, n=2, d=2, maxit=2, normalize=2, lam=0):
    """sparse fit: dropped columns have coefficient exactly 0 and the rest are the least-squares fit of the kept columns,
    expressed for the unnormalised columns"""
    X, y = I.array("X", (n, d)), I.array("y", (n, 1))
    tol = I.real("tol", 0.25, 3)
    if normalize:
        for j in range(d):
            I.require(I.any([v != 0 for v in X[:, j]]))
    Xc = X.copy()
    with lstsq(I) as L:
        w = M.PDE_find.STRidge(X, y, lam, maxit, tol, normalize=normalize)
    I.eq_all(X, Xc, "matrix untouched")
    norm = [M.PDE_find.np.sqrt(sum(v * v for v in Xc[:, j])) if I.symbolic else np.linalg.norm(Xc[:, j]) for j in range(d)] \
        if normalize else [1] * d
    A0, b0, w0 = L.calls[0]
    for j in range(d):
        for i in range(n):
            I.eq(A0[i, j] * norm[j], Xc[i, j], "columns are scaled to unit length")
    # expected support from the recorded answers
    for c in L.calls:
        for v in c[2].reshape(-1):
            I.require(I.not_(I.same(abs(v), tol)))
    sup = list(range(d))
    cur = w0[:, 0]
    lost = False
    for it in range(maxit):
        keep = [j for k, j in enumerate(sup) if not bool(abs(cur[k]) < tol)]
        if len(keep) == len(sup) or not keep:
            lost = not keep and it == 0
            break
        sup = keep
        cur = L.calls[1 + it][2][:, 0]
    if lost:
        return
    Al, bl, wl = L.calls[-1]
    I.check(Al.shape[1] == len(sup), "final fit uses the kept columns")
    I.eq_all(bl, y, "final fit uses the target")
    for k, j in enumerate(sup):
        for i in range(n):
            I.eq(Al[i, k], A0[i, j], "final fit uses the kept columns")
        I.eq(w[j, 0] * norm[j], wl[k, 0], "coefficient refers to the original column")
    for j in range(d):
        if j not in sup:
            I.eq(w[j, 0], 0, "dropped column has no coefficient")


ONE = [("*", "u", "v"), ("d", "u", "x"), ("d^2", "u", "x"), ("^3", "u"), ("d", ("*", "u", "x"), "x"),
       ("*", ("-", "u", "v"), ("d", "v", "x")), ("^2", ("+", "u", "x"))]
HARNESSES = [
    H(evaluate, [dict(specs=[s], ndef=0 if k % 2 else 2) for k, s in enumerate(ONE)] +
      [dict(specs=[("*", "u", "u"), ("*", "0", "u"), ("d", "v", "x")]),
       dict(specs=[("d", "u", "t"), ("*", "u", "x"), ("^2", ("d", "v", "t"))]),
       dict(specs=[("d", "u", "t")]), dict(specs=[("*", "0", "u"), ("*", "u", "0")], term=True),
       dict(specs=[("*", "u", "v"), ("d", ("d", "u", "t"), "x"), ("^2", "v")], term=True),
       dict(specs=[("d", "u", "x"), ("*", "0", "v"), ("d", "u", "x")], term=True)] +
      [dict(specs=s, mode=m, zero=True, shape=(3, 1)) for m in (None, "guard", "legacy")
       for s in ([("/", "u", "x")], [("/", "u", "0"), ("^2", "u")], [("^2", ("/", "u", "x")), ("*", "x", "u")])] +
      [dict(specs=[("/", "u", "v"), ("*", "v", "v")], mode=m, shape=(3, 1)) for m in (None, "guard")] +
      [dict(specs=[("d", "u", "y"), ("*", "u", ("d", "u", "x"))], shape=(3, 3, 1), axes=("x", "y", "t"))],
      thorough=[dict(specs=[("d", ("d", ("*", "u", "v"), "x"), "x"), ("/", "u", ("+", "v", "x"))], shape=(4, 1)),
                dict(specs=[("d^2", ("d", "u", "y"), "x"), ("^3", ("-", "v", "u"))], shape=(4, 3, 1), axes=("x", "y", "t")),
                dict(specs=[("/", ("/", "u", "v"), "v")], mode="guard", shape=(3, 1))],
      bounds="1-3 terms of depth 2-4 over every operator, grids up to 4x2 and 3x3x1 with arbitrary values; "
             "guard / legacy / default division", limit=200, thorough_limit=800),
    H(misaligned, [{}]),
    H(train, [dict(maxit=1), dict(maxit=2, d=1), dict(maxit=1, d=1, n=2)], thorough=[dict(), dict(maxit=3, d=1)], bounds="1-2 points, 1-2 columns, 1-3 sparsification "
      "rounds, every answer of the least-squares and of the sparse fit with non-zero residual", limit=200, thorough_limit=800),
    H(stridge, [dict(normalize=2), dict(normalize=0), dict(d=3, normalize=0, maxit=3)],
      thorough=[dict(d=3, normalize=2, maxit=3, n=3), dict(d=4, normalize=0, maxit=4)],
      bounds="2-4 columns, 2-4 thresholding rounds, every threshold and least-squares answer except a coefficient exactly at the threshold", limit=200, thorough_limit=800),
]

"""C01: finite-difference operators"""
import types

import numpy as np

from symx.runner import H
from . import fdref as R

ASSUMPTIONS = ["field values and grid spacing are exact reals (float rounding is outside the claim)",
               "numba is switched off: the same Python source is executed as is; the replay runs it jitted"]


def load():
    import importlib
    M = types.SimpleNamespace()
    M.fd = importlib.import_module("kd.model.discover.task.pde.utils_fd")
    M.sga = importlib.import_module("kd.model.sga.sgapde.PDE_find")
    M.ufd = importlib.import_module("kd.utils.utils_fd")
    M.op = importlib.import_module("kd.utils.solver")
    return M


def _grid(I, n, name="x"):
    h = I.real("h_" + name, 0)
    I.require(h > 0)
    x0 = I.real("o_" + name)
    x = np.empty(n, dtype=object if I.symbolic else float)
    for i in range(n):
        x[i] = x0 + i * h
    return x, h


def _cmp(I, got, ref, u, u0, label):
    I.eq_all(got, ref, label)
    I.eq_all(u, u0, label + ".input-unchanged")


def discover_1d(I, M, op, n, col):
    """Diff..Diff4 on a t-x field: every node equals the declared stencil, along x"""
    u = I.array("u", (n, 2))
    u0 = u.copy()
    x, h = _grid(I, n)
    xx = x.reshape(-1, 1) if col else x
    got = getattr(M.fd, op)(u, xx, 1)
    fs = {"Diff": [R.d1], "Diff2": [R.d2], "Diff3": [R.d2, R.d1], "Diff4": [R.d2, R.d2]}[op]
    ref = u0
    for f in fs:
        ref = R.along(f, ref, 0, h)
    _cmp(I, got, ref, u, u0, op)


def discover_line(I, M, op, n):
    """the same on a bare vector"""
    u = I.array("u", (n,))
    u0 = u.copy()
    h = I.real("h", 0)
    I.require(h > 0)
    got = getattr(M.fd, op)(u, h)
    _cmp(I, got, np.array((R.d1 if op == "FiniteDiff" else R.d2)(u0, h)), u, u0, op)


def discover_nd(I, M, op, axis, shape):
    """Diff..Diff4 on N-D fields along each axis, boundaries included"""
    u = I.array("u", shape)
    u0 = u.copy()
    x, h = _grid(I, shape[axis])
    got = getattr(M.fd, op)(u, x, axis)
    f = {"Diff_2": R.p1, "Diff2_2": R.p2, "Diff_3": R.d1, "Diff2_3": R.d2}[op]
    _cmp(I, got, R.along(f, u0, axis, h), u, u0, f"{op}@{axis}")


def discover_laplace(I, M, dim, shape):
    """Laplacian = sum of second-derivative stencils"""
    u = I.array("u", shape)
    u0 = u.copy()
    g = [_grid(I, s, f"x{k}") for k, s in enumerate(shape) if k > 0]
    f = M.fd.Laplace if dim == 2 else M.fd.Laplace_3
    got = f(u, [q[0] for q in g])
    ref = 0
    for k, (x, h) in enumerate(g, 1):
        ref = ref + R.along(R.p2 if dim == 2 else R.d2, u0, k, h)
    _cmp(I, got, ref, u, u0, "lap")


def sga_ops(I, M, op, shape, axis):
    """FiniteDiff operators along every axis, by index and name"""
    u = I.array("u", shape)
    u0 = u.copy()
    h = I.real("h", 0)
    I.require(h > 0)
    name = axis
    if len(shape) == 2 and isinstance(axis, str):
        axis = {"x": 0, "t": 1}[axis]
    got = getattr(M.sga, op)(u, h, name)
    _cmp(I, got, R.along(R.d1 if op == "Diff" else R.d2, u0, axis, h), u, u0, op)


def utils_fd(I, M, order, n):
    """second/third-order helper stencils"""
    u = I.array("u", (n,))
    u0 = u.copy()
    h = I.real("h", 0)
    I.require(h > 0)
    got = M.ufd.FiniteDiff(u, h, order)
    if order == 1:
        ref = R.d1(u0, h)
    elif order == 2:
        ref = R.d2(u0, h)
    else:
        ref = [0.0] * n
        for i in range(2, n - 2):
            if order == 3:
                ref[i] = (u0[i + 2] - 2 * u0[i + 1] + 2 * u0[i - 1] - u0[i - 2]) / (2 * h * h * h)
            else:
                ref[i] = (u0[i + 2] - 4 * u0[i + 1] + 6 * u0[i] - 4 * u0[i - 1] + u0[i - 2]) / (h * h * h * h)
    _cmp(I, got, np.array(ref, dtype=object), u, u0, f"order{order}")


def operator_obj(I, M, order, n):
    """the token's function is the operator it is named after"""
    u = I.array("u", (n, 2))
    u0 = u.copy()
    h = I.real("h", 0)
    I.require(h > 0)
    got = M.op.FiniteDifferenceOperator.diff(u, h, order)
    fs = {1: [R.d1], 2: [R.d2], 3: [R.d2, R.d1], 4: [R.d2, R.d2]}[order]
    ref = u0
    for f in fs:
        ref = R.along(f, ref, 0, h)
    _cmp(I, got, ref, u, u0, f"op{order}")


HARNESSES = [
    H(discover_1d, [dict(op=o, n=n, col=c) for o in ("Diff", "Diff2", "Diff3", "Diff4") for n, c in ((5, True), (6, False))],
      thorough=[dict(op=o, n=n, col=False) for o in ("Diff", "Diff2", "Diff3", "Diff4") for n in (4, 7, 8, 9, 12)],
      bounds="fields n x 2, n in 4..12 (quick 5,6), all real values, all spacings h>0, any origin; grid 1-D or column"),
    H(discover_line, [dict(op=o, n=6) for o in ("FiniteDiff", "FiniteDiff2")],
      thorough=[dict(op=o, n=n) for o in ("FiniteDiff", "FiniteDiff2") for n in (4, 5, 8, 12, 16)],
      bounds="vectors of length 4..16 (quick 6)"),
    H(discover_nd, [dict(op=o, axis=a, shape=(2, 4, 5)) for o in ("Diff_2", "Diff2_2") for a in (1, 2)] +
      [dict(op=o, axis=a, shape=(2, 4, 5, 6)) for o in ("Diff_3", "Diff2_3") for a in (1, 2, 3)],
      thorough=[dict(op=o, axis=a, shape=s) for o in ("Diff_2", "Diff2_2") for a in (1, 2) for s in ((1, 6, 4), (3, 5, 7))] +
      [dict(op=o, axis=a, shape=s) for o in ("Diff_3", "Diff2_3") for a in (1, 2, 3) for s in ((1, 6, 5, 4), (2, 5, 4, 6))],
      bounds="(t,x,y) fields up to 3x5x7 and (t,x,y,z) up to 2x5x4x6; every axis; all real values"),
    H(discover_laplace, [dict(dim=2, shape=(2, 4, 5)), dict(dim=3, shape=(1, 4, 5, 4))],
      thorough=[dict(dim=2, shape=(2, 6, 5)), dict(dim=3, shape=(2, 5, 4, 6))], bounds="as above"),
    H(sga_ops, [dict(op=o, shape=(5, 4), axis=a) for o in ("Diff", "Diff2") for a in ("x", "t")] +
      [dict(op=o, shape=(4, 5, 4), axis=a) for o in ("Diff", "Diff2") for a in (0, 1, 2)],
      thorough=[dict(op=o, shape=(4, 5, 6, 4), axis=a) for o in ("Diff", "Diff2") for a in (0, 1, 2, 3)] +
      [dict(op=o, shape=(8, 7), axis=a) for o in ("Diff", "Diff2") for a in (0, 1)],
      bounds="2-D to 4-D fields up to 4x5x6x4, every axis by index and by name"),
    H(utils_fd, [dict(order=o, n=7) for o in (1, 2, 3, 4)],
      thorough=[dict(order=o, n=n) for o in (1, 2, 3, 4) for n in (5, 6, 9, 14)], bounds="vectors of length 5..14"),
    H(operator_obj, [dict(order=o, n=6) for o in (1, 2, 3, 4)],
      thorough=[dict(order=o, n=n) for o in (1, 2, 3, 4) for n in (5, 9)], bounds="n x 2 fields"),
]

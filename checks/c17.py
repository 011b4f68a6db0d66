"""C17: the SGA problem handed to the search is the dataset: every variable is named after the values it holds"""
import importlib
import types
from unittest import mock

import numpy as np

from symx.runner import H
from . import fdref, sgaenv
from .c03 import legacy, nd
from .env import grid1, quiet

ASSUMPTIONS = ["arbitrary real field values; coordinates are uniform unless stated; smooth-network derivatives "
               "(use_autograd / use_metadata) are outside"]


def load():
    M = sgaenv.load_sga()
    M.base = importlib.import_module("kd.dataset._base")
    M.adapter = importlib.import_module("kd.model.sga.adapter")
    M.kd = importlib.import_module("kd.model.kd_sga")
    return M


def outer(coord, axis, shape):
    return np.broadcast_to(np.asarray(coord).reshape([-1 if k == axis else 1 for k in range(len(shape))]), shape)


def audit(I, ctx, fields, coords, order, target, lhs, par, primary=None):
    """fields/coords/par: what the context should be about"""
    shape = tuple(len(coords[a]) for a in order)
    sp = [a for a in order if a != lhs]
    h = {a: coords[a][1] - coords[a][0] for a in order}
    d = lambda v, a: fdref.along(fdref.d1, v, order.index(a), h[a])
    want = {**fields, **{a: outer(coords[a], order.index(a), shape) for a in sp}, **par, "0": np.zeros(shape)}
    for f, v in fields.items():
        for a in sp:
            want[f"{f}_{a}"] = d(v, a)
    got = {}
    for r in ctx.VARS:
        I.check(r[0] not in got, "variable names are unique")
        I.check(r[1] == 0, "variables take no operands")
        got[r[0]] = r[2]
    I.check(set(got) == set(want), "variables: fields, non-left-hand axes, parameters, zero and first derivatives of the fields")
    for k in want:
        I.check(np.shape(got[k]) == shape, f"{k} lives on the grid")
        I.eq_all(got[k], want[k], f"{k} holds its own values")
    I.check([r[0] for r in ctx.den] == sp, "derivatives only along axes that are not the left-hand one")
    for r in ctx.den:
        I.eq_all(r[2], want[r[0]], "axis holds its coordinate")
    for a in order:
        I.eq(ctx.delta[a], h[a], "grid spacing")
        I.check(ctx.axis_map[a] == order.index(a), "axis position")
    u = fields[target]
    I.eq_all(ctx.ut, d(u, lhs), "left-hand side is the derivative of the target along the left-hand axis")
    p = primary or ("x" if "x" in sp else sp[0])
    ux = d(u, p)
    I.eq_all(ctx.ux, ux, "first derivative of the target")
    I.eq_all(ctx.uxx, d(ux, p), "second derivative of the target")
    I.eq_all(ctx.uxxx, d(d(ux, p), p), "third derivative of the target")
    I.check(list(ctx.default_names) == [target] and ctx.num_default == 1, "default term is named after the target")
    I.eq_all(ctx.default_terms, np.asarray(u).reshape(-1, 1), "default term is the target, point by point")
    I.eq_all(np.asarray(ctx.u).reshape(-1), np.asarray(u).reshape(-1), "target field")
    arity = {"+": 2, "-": 2, "*": 2, "/": 2, "d": 2, "d^2": 2, "^2": 1, "^3": 1}
    for tab in ("OPS", "ROOT", "OP1", "OP2"):
        for r in getattr(ctx, tab):
            I.check(r[1] == arity[r[0]], "operator arity")


def operators(I, M, ctx):
    """operators do what their names say"""
    a, b = I.array("oa", (4,)), I.array("ob", (4,))
    h = I.real("oh", 0.25, 4)
    for v in b:
        I.require(v != 0)
    ref = {"+": a + b, "-": a - b, "*": a * b, "/": a / b, "^2": a * a, "^3": a * a * a,
           "d": np.array(fdref.d1(list(a), h), dtype=object), "d^2": np.array(fdref.d2(list(a), h), dtype=object)}
    for tab in ("OPS", "ROOT", "OP1", "OP2"):
        for name, n, f in getattr(ctx, tab):
            v = f(a) if n == 1 else f(a, h, 0) if name in ("d", "d^2") else f(a, b.copy())
            I.eq_all(v, ref[name], f"operator {name}")


def dataset(I, M, kind, **p):
    if kind == "legacy":
        x, t = grid1(I, p["nx"], "x", True), grid1(I, p["nt"], "t", True)
        u = I.array("u", (p["nx"], p["nt"]))
        par = {f"k{i}": I.array(f"p{i}", u.shape) for i in range(p.get("npar", 0))}
        ds = M.base.PDEDataset("eq", x=x.copy(), t=t.copy(), usol=u.copy(), param_fields={k: v.copy() for k, v in par.items()} or None)
        return ds, {"u": u}, {"x": x, "t": t}, ["x", "t"], "u", "t", par
    order, lhs, names = list(p["order"]), p["lhs"], list(p["names"])
    c = {a: grid1(I, n, a, True) for a, n in zip(order, p["shape"])}
    f = {n: I.array(n, tuple(p["shape"])) for n in names}
    par = {f"k{i}": I.array(f"p{i}", tuple(p["shape"])) for i in range(p.get("npar", 0))}
    ds = M.base.PDEDataset("eq", fields_data={k: v.copy() for k, v in f.items()}, coords_1d={k: v.copy() for k, v in c.items()},
                           axis_order=order, target_field=p["target"], lhs_axis=lhs,
                           param_fields={k: v.copy() for k, v in par.items()} or None)
    return ds, f, c, order, p["target"], lhs, par


def snapshot(ds):
    s = {"usol": np.array(ds.usol)}
    for n in ("fields_data", "coords_1d", "param_fields"):
        for k, v in (getattr(ds, n, None) or {}).items():
            s[n, k] = np.array(v)
    return s


def run(I, M, ds, est=None, ctxkw=None, **kw):
    """KD_SGA.fit_dataset with the search replaced: returns the estimator and what the search was given"""
    seen = {}

    class Solver:
        def __init__(s, config):
            seen["config"] = config
            s.best_equation_details_ = "details"

        def run(s, context):
            seen["context"] = context
            return "best", 1.25
    m = M.kd.KD_SGA(**(est or {}))
    before = snapshot(ds)
    with quiet(), mock.patch.object(np.random, "seed", lambda *a: None):
        m.fit_dataset(ds, solver_cls=Solver, **kw)
    after = snapshot(ds)
    I.check(before.keys() == after.keys(), "dataset unchanged")
    for k in before:
        I.check(I.all([I.same(a, b) for a, b in zip(before[k].reshape(-1), after[k].reshape(-1))]), "dataset unchanged")
    I.check(m.best_pde_ == "best" and m.best_score_ == 1.25 and m.best_equation_details_ == "details", "results of the search are kept")
    I.check(m.context_ is seen["context"] and m.config_ is seen["config"] and m.dataset_ is ds, "problem is kept")
    return m, seen


def context(I, M, kind, override=None, est=None, **p):
    """context arrays, names, left-hand side, trimming equal the dataset's"""
    ds, f, c, order, target, lhs, par = dataset(I, M, kind, **p)
    est = dict(est or {})
    if override:
        target, lhs = override.get("target_field", target), override.get("lhs_axis", lhs)
        est.update(override)
    m, seen = run(I, M, ds, est)
    audit(I, seen["context"], f, c, order, target, lhs, par, est.get("primary_spatial_axis"))
    cfg = seen["config"]
    for k in ("sga_run", "num", "depth", "width", "p_var", "p_mute", "p_cro", "seed", "use_autograd", "delete_edges"):
        I.check(getattr(cfg, k) == getattr(m, k), f"setting {k} reaches the solver")
    I.check(cfg.target_field == target and cfg.lhs_axis == lhs, "target and left-hand axis reach the solver")


def ops(I, M):
    """operator and operand tables of the configured problem"""
    ds, *_ = dataset(I, M, "legacy", nx=3, nt=3)
    m, seen = run(I, M, ds)
    operators(I, M, seen["context"])


def edges(I, M, kind, **p):
    """edge deletion removes 10 % of the x axis on both sides of everything"""
    ds, f, c, order, target, lhs, par = dataset(I, M, kind, **p)
    m, seen = run(I, M, ds, dict(delete_edges=True))
    n = len(c["x"])
    a, b = int(n * 0.1), int(n * 0.9)
    sl = tuple(slice(a, b) if q == "x" else slice(None) for q in order)
    audit(I, seen["context"], {k: v[sl] for k, v in f.items()}, {k: (v[a:b] if k == "x" else v) for k, v in c.items()}, order,
          target, lhs, {k: v[sl] for k, v in par.items()})


def refuse(I, M, n=3):
    """coordinates that finite differences cannot use are refused"""
    x = np.array([I.real(f"x{i}", -4, 4) for i in range(n)], dtype=object if I.symbolic else float)
    t = np.array([0.0, 1.0, 2.0])
    u = np.arange(3.0 * n).reshape(n, 3)
    for a, b in zip(x, x[1:]):
        I.require(I.any(abs(a - b) > 0.01, I.same(a, b)))
    hs = [b - a for a, b in zip(x, x[1:])]
    off = [abs(q - hs[0]) for q in hs]
    I.require(I.all([I.any(o > 0.01, I.same(o, 0)) for o in off]))
    ok = I.all([I.same(o, 0) for o in off] + [hs[0] != 0])
    cfg = dict(fields_data={"u": u}, coords_1d={"x": x, "t": t}, axis_order=["x", "t"])
    with quiet(), mock.patch.object(np.random, "seed", lambda *a: None):
        try:
            ctx = M.context.ProblemContext(M.config.SolverConfig(problem_name="eq", **cfg))
        except ValueError:
            I.check(I.not_(ok), "a usable grid is accepted")
            return
    I.check(ok, "a grid that is not uniform and strictly monotonic is refused")
    I.eq(ctx.delta["x"], hs[0], "grid spacing")


NAMES = ["u", "ux", "u_x", "v", "x", "ut", "0", "d", "1a", "u_t", "f_x", ""]


def collisions(I, M):
    """no accepted problem has two variables of the same name, or a left-hand derivative among them"""
    names = ["u", NAMES[I.choose("n1", range(len(NAMES)))], NAMES[I.choose("n2", range(len(NAMES)))]]
    if len(set(names)) < 3:
        return
    v = {n: np.arange(9.0).reshape(3, 3) + k for k, n in enumerate(names)}
    order = [["x", "t"], ["t", "x"], ["x_", "t"], ["a", "b"]][I.choose("order", range(4))]
    lhs = I.choose("lhs", ["t", "x", "z"])
    cfg = dict(fields_data=v, coords_1d={a: np.arange(3.0) for a in order}, axis_order=order, lhs_axis=lhs)
    with quiet(), mock.patch.object(np.random, "seed", lambda *a: None):
        try:
            ctx = M.context.ProblemContext(M.config.SolverConfig(problem_name="eq", **cfg))
        except (ValueError, KeyError):
            good = all(n in ("u", "v", "f_x") for n in names) and lhs in order and "x_" not in order
            I.check(not good, "a clean problem is accepted")
            return
    got = [r[0] for r in ctx.VARS]
    I.check(len(set(got)) == len(got), "variable names are unique")
    I.check(lhs in order and lhs not in got, "left-hand axis is no variable")
    I.check(not any(n in (f"{f}_{lhs}", f"u{lhs}") for n in got for f in names), "left-hand derivative is no variable")


def naming(I, M):
    """derivative names can be read back"""
    N = M.naming
    f = "".join(I.choose(f"f{i}", ["u", "x", "_", "1", ""] if i else ["u", "x", "r"]) for i in range(3))
    axes = [["x", "t"], ["x", "y", "t"], ["xi", "t"], ["x", "xx"]][I.choose("axes", range(4))]
    a = axes[I.choose("axis", range(2))]
    n = I.choose("order", [1, 2, 3, 4])
    key = N.build_derivative_key(f, a, order=n)
    amb = [(b, len(a * n) // len(b)) for b in axes if b * (len(a * n) // len(b)) == a * n]
    try:
        got = N.parse_derivative_key(key, known_axes=axes)
        I.check(len(amb) == 1 and got == (f, a, n), "derivative name reads back as what it was built from")
    except ValueError:
        I.check(len(amb) != 1, "an unambiguous derivative name is readable")
    other = f + "q"
    try:
        legacy_key = N.normalize_legacy_derivative_key(f + a * n, field_names=[f, other], axis_names=axes)
        I.check("_" in f + a * n or legacy_key == key and len(amb) == 1, "old-style name is converted to the same derivative")
    except ValueError:
        I.check(len(amb) != 1, "an unambiguous old-style name is accepted")


def conflicts(I, M):
    """renaming keeps every field, gives each a name of its own and never an axis name"""
    pool = ["x", "f_x", "f_f_x", "u", "t", "f_x_1"]
    fields = [pool[I.choose(f"f{i}", range(len(pool)))] for i in range(3)]
    if len(set(fields)) < 3:
        return
    out = M.naming.resolve_field_name_conflicts(field_names=fields, coord_names=["x", "t"])
    I.check(list(out) == fields, "every field is renamed")
    v = list(out.values())
    I.check(len(set(v)) == 3 and not set(v) & {"x", "t"}, "new names are unique and not axis names")
    for k, n in out.items():
        I.check(k in ("x", "t") or n == k or k in [out[q] for q in fields if q != k], "a name without conflict is kept")


ND2 = dict(order=["t", "x"], lhs="t", names=["rho"], target="rho", shape=[3, 3])
ND3 = dict(order=["x", "y", "t"], lhs="t", names=["u"], target="u", shape=[3, 3, 3])
HARNESSES = [
    H(context, [dict(kind="legacy", nx=3, nt=4), dict(kind="legacy", nx=3, nt=3, npar=1), dict(kind="nd", **ND2),
                dict(kind="nd", order=["x", "t"], lhs="t", names=["v", "u"], target="u", shape=[3, 3], npar=1),
                dict(kind="nd", order=["x", "t"], lhs="x", names=["u", "v"], target="v", shape=[3, 3]),
                dict(kind="nd", order=["x", "t"], lhs="t", names=["u", "v"], target="u", shape=[3, 3],
                     override=dict(target_field="v", lhs_axis="x")),
                dict(kind="legacy", nx=3, nt=3, override=dict(lhs_axis="x")), dict(kind="nd", **ND3),
                dict(kind="nd", order=["y", "z", "t"], lhs="t", names=["u"], target="u", shape=[3, 3, 3],
                     est=dict(primary_spatial_axis="z", num=7, depth=3, width=2, p_var=.1, p_mute=.2, p_cro=.3, seed=4, sga_run=9)),
                dict(kind="nd", order=["y", "z"], lhs="z", names=["w"], target="w", shape=[4, 3])],
      thorough=[dict(kind="nd", order=["t", "y", "x"], lhs="y", names=["u", "v"], target="v", shape=[3, 4, 3], npar=1),
                dict(kind="legacy", nx=5, nt=5, npar=2),
                dict(kind="nd", order=["x", "y", "z", "t"], lhs="t", names=["u"], target="u", shape=[3, 3, 3, 3])],
      bounds="grids of 3-5 points per axis, 2-3 axes (thorough 4), 1-2 fields, 0-2 parameters, every value", limit=200, thorough_limit=800),
    H(ops, [{}]),
    H(edges, [dict(kind="legacy", nx=10, nt=3), dict(kind="nd", order=["t", "x"], lhs="t", names=["u"], target="u", shape=[3, 7], npar=1),
              dict(kind="legacy", nx=12, nt=3, npar=1)],
      thorough=[dict(kind="nd", order=["x", "t"], lhs="t", names=["v", "u"], target="u", shape=[20, 3])],
      bounds="7-12 points along x (thorough 20)", limit=200, thorough_limit=800),
    H(refuse, [dict(n=3)], thorough=[dict(n=4)], bounds="3-4 arbitrary coordinates (differences 0 or clearly apart)", limit=200),
    H(collisions, [{}], bounds="three fields with names from a pool of 12, 4 axis pairs, 3 left-hand axes", limit=200),
    H(naming, [{}], bounds="field names of 1-3 characters, 4 axis sets, orders 1-4", limit=200),
    H(conflicts, [{}], bounds="3 fields from a pool of 6 names", limit=200),
]

"""C26: DISCOVER plots show the discovered equation's own numbers"""
import contextlib
import importlib
import logging
import shutil
import tempfile
import types
from fractions import Fraction
from pathlib import Path
from unittest import mock

import numpy as np

from symx import core, shim
from symx.runner import H
from . import disco, plotrec
from .env import obj, quiet
from .plotrec import bars, curves, flat, in_view, mesh, number_in, points

ASSUMPTIONS = ["matplotlib and seaborn only write down what they are asked to draw; how the library puts it on paper is outside",
               "on every time slice the field is an arbitrary polynomial of the degree for which the plots' repeated central differences are exact (edges excluded where they are not)",
               "scattered-data interpolation is an arbitrary rule that returns a sample's own value at that sample",
               "sin, cos, tan uninterpreted; division is within the code's own 1e-8 guard of the quotient"]


def load():
    M = disco.load_disco()
    imp = importlib.import_module
    M.viz = imp("kd.viz.discover_viz")
    M.ad = imp("kd.viz._adapters.discover")
    M.api = imp("kd.viz.api")
    M.core = imp("kd.viz.core")
    M.registry = imp("kd.viz.registry")
    M.contracts = imp("kd.viz._contracts")
    M.plotter = imp("kd.model.discover.plotter")
    return M


@contextlib.contextmanager
def session(I, M, cls, adapter):
    d = tempfile.mkdtemp(prefix="kdviz")
    saved = dict(M.registry._ADAPTERS)
    M.registry.register_adapter(cls, adapter)
    sym = I.symbolic
    if sym:
        shim.TERM_ARRAYS[0] = shim.UNIQUE_OPAQUE[0] = True
    logging.disable(logging.CRITICAL)
    try:
        with plotrec.recording(M.viz, M.plotter, M.ad) as rec, quiet():
            yield types.SimpleNamespace(dir=Path(d), rec=rec)
    finally:
        logging.disable(logging.NOTSET)
        if sym:
            shim.TERM_ARRAYS[0] = shim.UNIQUE_OPAQUE[0] = False
        M.registry._ADAPTERS.clear()
        M.registry._ADAPTERS.update(saved)
        shutil.rmtree(d, ignore_errors=True)


def arr(x):
    return np.asarray(x, dtype=object)


def produced(I, S, res, n=1):
    """the figure whose file is returned"""
    I.check(len(res.paths) == n and res.has_content, "the plot is produced: " + "; ".join(res.warnings)[:120])
    figs = []
    for p in res.paths:
        p = Path(p)
        I.check(p.is_file() and S.dir in p.parents, "the file is in the requested directory")
        figs.append(S.rec.figs[int(p.read_text().split()[1])])
    return figs[0] if n == 1 else figs


def in_dir(I, S):
    fs = [p for p in S.dir.rglob("*") if p.is_file()]
    I.check(len(fs) == 1, "one file is written")
    return S.rec.figs[int(fs[0].read_text().split()[1])]


# -- reference: polynomials in the coordinates ----------------------------------------
class Poly:
    def __init__(self, c):
        self.c = c            # {exponents: coefficient}

    def at(self, xs):
        r = 0
        for e, k in self.c.items():
            m = Fraction(1)
            for x, p in zip(xs, e):
                m *= Fraction(x) ** p
            r = r + k * m
        return r

    def __add__(self, o):
        c = dict(self.c)
        for e, k in o.c.items():
            c[e] = c[e] + k if e in c else k
        return Poly(c)

    def __mul__(self, o):
        c = {}
        for e, k in self.c.items():
            for f, m in o.c.items():
                g = tuple(a + b for a, b in zip(e, f))
                c[g] = c[g] + k * m if g in c else k * m
        return Poly(c)

    def neg(self):
        return Poly({e: -k for e, k in self.c.items()})

    def d(self, a, n=1):
        p = self
        for _ in range(n):
            c = {}
            for e, k in p.c.items():
                if e[a]:
                    f = e[:a] + (e[a] - 1,) + e[a + 1:]
                    c[f] = k * e[a]
            p = Poly(c)
        return p


DIFF = dict(diff=1, diff2=2, diff3=3, diff4=4, Diff=1, Diff2=2, Diff_3=1, Diff2_3=2)


def build(M, t):
    """nested tuple -> the tree the search produces"""
    if isinstance(t, str):
        return M.stridge.Node(t)
    n = M.stridge.Node(t[0])
    n.children = [build(M, s) for s in t[1:]]
    return n


def axis(name):
    return int(name[1:]) - 1


def poly(t, u, nd):
    """the term as a polynomial, None if it is none"""
    if isinstance(t, str):
        if t == "u1":
            return u
        if t[0] == "x":
            return Poly({tuple(int(i == axis(t)) for i in range(nd)): Fraction(1)})
        return Poly({(0,) * nd: Fraction(t)})
    op = t[0].removesuffix("_t")
    if op in DIFF:
        p = poly(t[1], u, nd)
        return p and p.d(axis(t[2]), DIFF[op])
    a = [poly(s, u, nd) for s in t[1:]]
    if any(p is None for p in a):
        return None
    if op in ("lap", "lap_3"):
        r = a[0].d(0, 2)
        for i in range(1, nd):
            r = r + a[0].d(i, 2)
        return r
    if op in ("n2", "n3", "n4", "n5"):
        r = a[0]
        for _ in range(int(op[1]) - 1):
            r = r * a[0]
        return r
    if op == "neg":
        return a[0].neg()
    if op == "add":
        return a[0] + a[1]
    if op == "sub":
        return a[0] + a[1].neg()
    if op == "mul":
        return a[0] * a[1]
    return None


def value(I, t, u, xs, fn):
    """the term at a point"""
    p = poly(t, u, len(xs))
    if p is not None:
        return p.at(xs)
    op = t[0].removesuffix("_t")
    a = [value(I, s, u, xs, fn) for s in t[1:]]
    if op == "add":
        return a[0] + a[1]
    if op == "sub":
        return a[0] - a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "neg":
        return -a[0]
    if op in ("n2", "n3", "n4", "n5"):
        r = a[0]
        for _ in range(int(op[1]) - 1):
            r = r * a[0]
        return r
    if op == "div":
        return a[0] / (a[1] + 1e-8)
    if op == "inv":
        return 1 / (a[0] + 1e-8)
    return fn(op, a[0])


# -- 1-D ------------------------------------------------------------------------------
T1 = {
    "basic": (2, 0, ["u1", ("mul", "u1", ("diff", "u1", "x1")), ("diff2", "u1", "x1")]),
    "coord": (2, 0, [("mul", "x1", "u1"), ("diff", ("mul", "x1", "x1"), "x1"), ("n2", "u1")]),
    "tokens": (2, 0, [("mul_t", "u1", ("diff_t", "u1", "x1")), ("add_t", "u1", ("neg", "x1")), ("sub", ("diff2_t", "u1", "x1"), "u1")]),
    "powers": (1, 0, [("n3", "u1"), ("n4", "x1"), ("n5", "u1")]),
    "inner": (1, 0, [("diff2", ("n2", "u1"), "x1"), ("diff", ("mul", "u1", "x1"), "x1")]),
    "const": (2, 0, [("mul", "0.5", "u1"), ("diff", ("diff", "u1", "x1"), "x1")]),
    "third": (4, 3, [("diff3", "u1", "x1"), "u1"]),
    "fourth": (5, 4, [("diff4", "u1", "x1"), "x1"]),
    "quot": (1, 0, [("div", "u1", "x1"), ("inv", "u1")]),
    "linear": (2, 0, [("mul", "x1", "u1"), ("diff", "u1", "x1"), ("diff2", "u1", "x1")]),
    "trig": (1, 0, [("sin", "u1"), ("mul", ("cos", "u1"), "x1"), ("tan", ("neg", "u1"))]),
    "lap": (2, 0, [("lap", "u1"), ("sub", "u1", "x1")]),
}


class Model:
    pass


def make(I, M, terms, deg, xs, nt, intercept, fixed=False):
    """a model whose field is an arbitrary polynomial on each time slice; xs: coordinate lists"""
    nd = len(xs)
    shape = tuple(len(x) for x in xs)
    pts = list(np.ndindex(*shape))
    exps = [e for e in np.ndindex(*(deg + 1,) * nd) if sum(e) <= deg + (nd > 1) and max(e) <= deg]
    us = [Poly({tuple(map(int, e)): I.real(f"c{t}_{''.join(map(str, e))}", -8, 8) for e in exps}) for t in range(nt)]
    u = np.empty((nt,) + shape, dtype=object)
    for t in range(nt):
        for p in pts:
            u[(t,) + p] = us[t].at([xs[a][i] for a, i in enumerate(p)])
    ut = I.array("ut", (nt,) + shape, -8, 8)
    nw = len(terms) + int(intercept)
    w = np.array([Fraction(k) for k in (2, -3, "0.75", 5)][:nw], dtype=object) if fixed else I.array("w", (nw,), -8, 8)
    if I.symbolic:
        u, ut, w = (arr(v).view(shim.ObjArr) for v in (u, ut, w))
    else:
        u = u.astype(float)
    b = Model()
    b.STRidge = types.SimpleNamespace(terms=[build(M, t) for t in terms])
    b.w = w if I.symbolic else np.asarray(w, dtype=float)
    if nd == 1:
        u, ut = u.T, ut.T
    data = {"u": u, "ut": ut, "X": [np.array(x, float).reshape(-1, 1) for x in xs], "n_input_dim": nd}
    m = Model()
    m.data_class = types.SimpleNamespace(get_data=lambda: data)
    m.searcher = types.SimpleNamespace(best_p=b)
    return m, b, us, u, ut, w, data


def fn_of(I):
    def fn(op, v):
        return core.ufun(op, v) if I.symbolic and core.is_sym(v) else getattr(np, op)(float(v))
    return fn


def expected(I, terms, us, xs, w, nt):
    """predicted right-hand side [t][point]"""
    shape = tuple(len(x) for x in xs)
    out = np.empty((nt,) + shape, dtype=object)
    fn = fn_of(I)
    for t in range(nt):
        for p in np.ndindex(*shape):
            r = 0
            for k, term in enumerate(terms):
                r = r + w[k] * value(I, term, us[t], [xs[a][i] for a, i in enumerate(p)], fn)
            if len(w) > len(terms):
                r = r + w[len(terms)]
            out[(t,) + p] = r
    return out


def guards(I, terms, us, xs, nt):
    """quotients stay away from zero"""
    def walk(t, u, x):
        if isinstance(t, str):
            return
        if t[0] in ("div", "inv"):
            d = value(I, t[-1], u, x, fn_of(I))
            I.require(d >= 0.25)
        for s in t[1:]:
            walk(s, u, x)
    for t in range(nt):
        for p in np.ndindex(*(len(x) for x in xs)):
            for term in terms:
                walk(term, us[t], [xs[a][i] for a, i in enumerate(p)])


def zero(I, d):
    if core.is_sym(d):
        import z3
        r = z3.simplify(d.e, som=True)
        return z3.is_rational_value(r) and r.numerator_as_long() == 0
    return I.close(d, 0)


def order_of(I, got, grid):
    """grids may be listed row by row or column by column"""
    for o in "CF":
        if len(got) == grid.size and all(zero(I, g - r) for g, r in zip(got, grid.reshape(-1, order=o))):
            return o
    return "C"


def seq_eq(I, got, grid, label):
    """got lists the grid's values, in row or column order"""
    grid = arr(grid)
    I.check(len(got) == grid.size, label + ": one per grid point")
    for g, r in zip(got, grid.reshape(-1, order=order_of(I, got, grid))):
        I.eq(g, r, label)


def fields_1d(I, M, name, n, nt, x0, h, intercept, view, legacy=False, fixed=False):
    """residual/field/parity on t-x data"""
    deg, edge, terms = T1[name]
    xs = [[Fraction(x0) + Fraction(h) * i for i in range(n)]]
    m, b, us, u, ut, w, data = make(I, M, terms, deg, xs, nt, intercept, fixed=legacy or fixed)
    guards(I, terms, us, xs, nt)
    want = expected(I, terms, us, xs, w, nt)
    good = range(edge, n - edge)
    X = [float(x) for x in xs[0]]
    T = [float(t) for t in range(nt)]
    before = [list(flat(u)), list(flat(ut))]
    ut = arr(ut)
    with session(I, M, Model, M.ad.DiscoverVizAdapter()) as S:
        o = dict(output_dir=str(S.dir))
        if legacy:
            f = {"residual": M.viz.plot_pde_residual_analysis, "field": M.viz.plot_field_comparison, "parity": M.viz.plot_actual_vs_predicted}[view]
            f(m, b, output_dir=str(S.dir))
            fig = in_dir(I, S)
            res = None
        else:
            res = M.core.render(M.core.VizRequest({"residual": "residual", "field": "field_comparison", "parity": "parity"}[view], m, o))
            fig = produced(I, S, res)
    if view == "residual":
        pts = next(p for p in map(points, fig.axes) if p is not None)
        I.check(len(pts) == n * nt, "one point per sample")
        seen = {(float(y), float(x)): c for x, y, c in pts}
        I.check(set(seen) == {(x, t) for x in X for t in T}, "every sample is drawn at its own place and time")
        for i in good:
            for t in range(nt):
                I.eq(seen[(X[i], T[t])], ut[i, t] - want[t, i], "colour of a sample is its residual")
        hb = next(p for p in map(bars, fig.axes) if p is not None)
        seq_eq(I, hb, [[seen[(x, t)] for t in T] for x in X], "the histogram counts every residual once")
        if res is not None:
            rd = res.metadata["residual"]
            I.check(len(flat(rd.actual)) == n * nt, "one actual value per sample")
            for a, p, r in zip(flat(rd.actual), flat(rd.predicted), flat(rd.residuals)):
                I.eq(r, a - p, "residual is actual minus predicted")
            seq_eq(I, flat(rd.actual), ut, "actual values are the measured left-hand side")
            co = arr(rd.input_coordinates)
            for k, r in enumerate(flat(rd.residuals)):
                I.eq(r, seen[(float(co[k, 0]), float(co[k, 1]))], "residual paired with its coordinates")
            s = res.metadata["summary"]
            rs = list(seen.values())
            I.check(s["count"] == n * nt, "count")
            if name not in ("quot", "basic"):
                I.eq(s["mean"] * len(rs), sum(rs), "mean residual")
            if fixed:
                I.check(I.all(*[I.all(I.le(r, s["max_abs"]), I.le(-r, s["max_abs"])) for r in rs]), "largest residual bounds all")
                I.check(I.any(*[I.any(I.same(s["max_abs"], r), I.same(s["max_abs"], -r)) for r in rs]), "largest residual is attained")
    elif view == "field":
        found = set()
        for ax in fig.axes:
            g = mesh(ax)
            if g is None:
                continue
            g = {(float(y), float(x)): v for (x, y), v in g.items()}
            I.check(set(g) == {(x, t) for x in X for t in T}, "the map covers the grid, space against time")
            k = "true" if "true" in ax.title.lower() else "pred" if "pred" in ax.title.lower() else None
            I.check(k is not None and k not in found, "one true and one predicted panel")
            found.add(k)
            for i in (good if k == "pred" else range(n)):
                for t in range(nt):
                    I.eq(g[(X[i], T[t])], ut[i, t] if k == "true" else want[t, i], "panel shows the left-hand side" if k == "true" else "panel shows the equation's right-hand side")
        I.check(found == {"true", "pred"}, "both panels")
        if res is not None:
            fd = res.metadata["field_comparison"]
            for i in good:
                for t in range(nt):
                    I.eq(arr(fd.residual_field)[i, t], ut[i, t] - want[t, i], "residual field")
    else:
        pts = next(p for p in map(points, fig.axes) if p is not None)
        I.check(len(pts) == n * nt, "one point per sample")
        # legacy: true on x; façade: predicted on x
        side = next(a for a in fig.axes if points(a) is not None)
        px = "pred" in side.xlabel.lower()
        I.check(px != ("pred" in side.ylabel.lower()), "axes are labelled")
        got = [(x, y) if px else (y, x) for x, y, _ in pts]
        seq_eq(I, [a for _, a in got], ut, "actual values are the measured left-hand side")
        byc = order_of(I, [a for _, a in got], ut)
        wT = np.array([[want[t, i] for t in range(nt)] for i in range(n)], dtype=object)
        idx = np.arange(n * nt).reshape(n, nt)
        for k, j in enumerate(idx.reshape(-1, order=byc)):
            i, t = divmod(int(j), nt)
            if i in good:
                I.eq(got[k][0], wT[i, t], "predicted value of the same sample")
        for xs_, ys_, _ in curves(side):
            for a, c in zip(xs_, ys_):
                I.eq(a, c, "the reference line is y = x")
        in_view(I, side, pts)
    for a, c in zip(before, [flat(u), flat(data["ut"])]):
        I.check(len(a) == len(c) and all(p is q or p == q if not core.is_sym(p) else p is q for p, q in zip(a, c)), "the model's data are left alone")
    I.reach()


# -- N-D ------------------------------------------------------------------------------
TN = {
    "grad": (2, [("mul", "u1", ("Diff", "u1", "x1")), ("Diff", "u1", "x2"), ("Diff2", "u1", "x2")]),
    "lap": (2, [("lap", "u1"), ("mul", "x2", "u1"), ("Diff2", "u1", "x1")]),
    "tok": (2, [("lap_t", "u1"), ("Diff_t", ("mul_t", "x1", "x2"), "x1"), ("sub_t", "x1", "u1")]),
    "three": (3, [("Diff_3", "u1", "x3"), ("Diff2_3", "u1", "x2"), ("mul", "x3", "u1")]),
    "lap3": (3, [("lap_3", "u1"), ("Diff_3", "u1", "x1"), ("Diff2_3", "u1", "x3")]),
}


def fields_nd(I, M, name, sizes, nt, steps, intercept, view, opts=None):
    """the same on N-D data"""
    nd, terms = TN[name]
    xs = [[Fraction(o) + Fraction(h) * i for i in range(k)] for k, (o, h) in zip(sizes, steps)]
    m, b, us, u, ut, w, data = make(I, M, terms, 2, xs, nt, intercept)
    want = expected(I, terms, us, xs, w, nt)
    C = [[float(v) for v in x] for x in xs]
    ut = arr(ut)
    opts = opts or {}
    with session(I, M, Model, M.ad.DiscoverVizAdapter()) as S:
        res = M.core.render(M.core.VizRequest({"residual": "residual", "field": "field_comparison", "parity": "parity"}[view], m, dict(opts, output_dir=str(S.dir))))
        fig = produced(I, S, res)
    pts = list(np.ndindex(*sizes))

    def panel(ax, grid, label, sl):
        """the panel is the slice of grid (one time) it says it is"""
        g = mesh(ax)
        xi, yi = set(x for x, _ in g), set(y for _, y in g)
        a = [k for k in range(nd) if xi == set(C[k])]
        c = [k for k in range(nd) if yi == set(C[k])]
        I.check(len(a) == 1 and len(c) == 1 and a != c, label + ": panel axes are two of the coordinates")
        a, c = a[0], c[0]
        if ax.xlabel.startswith("$x_") and nd == 2:
            I.check(ax.xlabel[3] == str(a + 1), label + ": horizontal axis is named after its coordinate")
        if ax.ylabel.startswith("$x_") and nd == 2:
            I.check(ax.ylabel[3] == str(c + 1), label + ": vertical axis is named after its coordinate")
        rest = [k for k in range(nd) if k not in (a, c)]
        if rest:
            k = rest[0]
            I.check(sl is None or k == sl[0], label + ": the requested axis is cut")
            choices = [sl[1]] if sl is not None and sl[1] is not None else [sizes[k] // 2]
        else:
            choices = [None]
        for j in choices:
            for p in pts:
                if rest and p[rest[0]] != j:
                    continue
                I.eq(g[(C[a][p[a]], C[c][p[c]])], grid[p], label)

    if view == "residual":
        drawn = [ax for ax in fig.axes if mesh(ax) is not None]
        I.check(len(drawn) == 1, "one residual map")
        t = number_in(drawn[0].title)
        I.check(t in range(nt), "the map names its time")
        panel(drawn[0], ut[int(t)] - want[int(t)], "residual map", None)
        hb = next(p for p in map(bars, fig.axes) if p is not None)
        seq_eq(I, hb, ut - want, "the histogram counts every residual once")
        rd = res.metadata["residual"]
        for a, p, r in zip(flat(rd.actual), flat(rd.predicted), flat(rd.residuals)):
            I.eq(r, a - p, "residual is actual minus predicted")
        for g, r in zip(flat(rd.actual), flat(ut)):
            I.eq(g, r, "actual values are the measured left-hand side")
        for g, r in zip(flat(rd.predicted), flat(want)):
            I.eq(g, r, "predicted values are the equation's")
        s = res.metadata["summary"]
        I.check(s["count"] == ut.size, "count")
        if name != "grad":
            I.eq(s["mean"] * ut.size, sum(flat(ut - want)), "mean residual")
    elif view == "field":
        times = {"true": [], "pred": []}
        sl = None
        if nd > 2 and opts:
            sa = max(0, min(opts.get("slice_axis", nd - 1) % nd if opts.get("slice_axis", -1) < 0 else opts["slice_axis"], nd - 1))
            si = opts.get("slice_index")
            sl = (sa, None if si is None else max(0, min(si, sizes[sa] - 1)))
        for ax in fig.axes:
            if mesh(ax) is None:
                continue
            k = "true" if "true" in ax.title.lower() else "pred"
            t = number_in(ax.title)
            I.check(t in range(nt), "the panel names its time")
            times[k].append(int(t))
            panel(ax, (ut if k == "true" else want)[int(t)], k + " panel", sl)
        I.check(times["true"] == times["pred"] and len(set(times["true"])) == len(times["true"]) and {0, nt - 1} <= set(times["true"]),
                "first and last time are shown, true above predicted")
        fd = res.metadata["field_comparison"]
        for p in pts:
            for t in range(nt):
                I.eq(arr(fd.true_field)[p + (t,)], ut[(t,) + p], "true field")
                I.eq(arr(fd.residual_field)[p + (t,)], (ut - want)[(t,) + p], "residual field")
        for k in range(nd):
            I.check([float(v) for v in fd.spatial_coords[k]] == C[k], "coordinates of the field")
    else:
        side = next(a for a in fig.axes if points(a) is not None)
        px = "pred" in side.xlabel.lower()
        got = [(x, y) if px else (y, x) for x, y, _ in points(side)]
        I.check(len(got) == ut.size, "one point per sample")
        for (p, a), q, r in zip(got, flat(want), flat(ut)):
            I.eq(a, r, "actual value")
            I.eq(p, q, "predicted value of the same sample")
    I.reach()


# -- sparse-data (PINN) plots ---------------------------------------------------------------
class Tensor:
    def __init__(self, a):
        self.a = a

    def cpu(self):
        return self

    detach = cpu

    def numpy(self):
        return self.a


def nearest(points_, values, xi, method="linear", **k):
    """stands for scipy.interpolate.griddata: exact at the samples"""
    P = np.stack([np.asarray(p, float).reshape(-1) for p in points_], 1) if isinstance(points_, tuple) else np.asarray(points_, float)
    G = np.stack([np.asarray(g, float) for g in xi], -1) if isinstance(xi, tuple) else np.asarray(xi, float)
    v = np.asarray(values).reshape(-1)
    d = ((G[..., None, :] - P) ** 2).sum(-1)
    return v[d.argmin(-1)]


SAMPLES = {1: ([0.0, 2.0, 1.0, 0.5, 2.0, 0.25], None, [0.0, 5.0, 1.0, 4.0, 2.0, 3.0])}


def spr(I, M, view, nd=1, n=6, legacy=False):
    """sparse data plots"""
    if nd == 1:
        X = [np.array([0.0, 2.0, 1.0, 0.5, 2.0, 0.25][:n])]
        T = np.array([0.0, 5.0, 1.0, 4.0, 2.0, 3.0][:n])
    else:
        # four samples of the unit-ish square at the start and the end of each of the five time bins
        c = np.array([(0, 0), (1, 0), (0, 2), (1, 2)], float)
        X = [np.tile(c[:, 0], n // 4), np.tile(c[:, 1], n // 4)]
        T = np.repeat(np.linspace(0, 10, n // 4), 4)
        if nd == 3:
            X.append(np.tile([5.0, 6.0, 7.0, 8.0], n // 4))
    n = len(T)
    y, p = I.array("y", (n,), -8, 8), I.array("p", (n,), -8, 8)
    if I.symbolic:
        y, p = arr(y).view(shim.ObjArr), arr(p).view(shim.ObjArr)
    m = Model()
    fits = []
    ref = lambda s: setattr(s, "y_hat_rhs", p.reshape(-1, 1)) or fits.append(1) or 1.0

    class B(Model):
        r_ridge = property(ref)
        Theta = np.ones((n, 1))
        y_hat_rhs = None
    b = B()
    m.searcher = types.SimpleNamespace(best_p=b)
    col = lambda v: Tensor(np.asarray(v, float).reshape(-1, 1))
    task = types.SimpleNamespace(ut=y.reshape(-1, 1), t=col(T), x=[col(x) for x in X], u=[None])
    import scipy.interpolate
    with session(I, M, Model, M.ad.DiscoverVizAdapter()) as S, mock.patch.object(M.program.Program, "task", task), \
            mock.patch.object(scipy.interpolate, "griddata", nearest):
        if legacy:
            {"residual": M.viz.plot_spr_residual_analysis, "parity": M.viz.plot_spr_actual_vs_predicted, "field": M.viz.plot_spr_field_comparison}[view](m, b, output_dir=str(S.dir))
            fig, res = in_dir(I, S), None
        else:
            res = M.core.render(M.core.VizRequest({"residual": "spr_residual", "field": "spr_field_comparison"}[view], m, dict(output_dir=str(S.dir))))
            fig = produced(I, S, res)
    if view in ("residual", "parity"):
        side = next(a for a in fig.axes if points(a) is not None)
        got = points(side)
        I.check(len(got) == n, "one point per sample")
        if any(c is not None for _, _, c in got):
            for k in range(n):
                I.check((float(got[k][1]), float(got[k][0])) == (X[0][k], T[k]), "sample at its own place and time")
                I.eq(got[k][2], y[k] - p[k], "colour of a sample is its residual")
        else:
            px = "pred" in side.xlabel.lower()
            for k in range(n):
                a, q = (got[k][1], got[k][0]) if px else (got[k][0], got[k][1])
                I.eq(a, y[k], "actual value of the sample")
                I.eq(q, p[k], "predicted value of the sample")
            in_view(I, side, got)
        if view == "residual":
            hb = next(q for q in map(bars, fig.axes) if q is not None)
            I.check(len(hb) == n, "the histogram counts every residual once")
            for k in range(n):
                I.eq(hb[k], y[k] - p[k], "histogram of the residuals")
        if res is not None:
            rd = res.metadata["residual"]
            co = np.asarray(rd.input_coordinates, float)
            for k in range(n):
                I.check([float(v) for v in co[k]] == [float(x[k]) for x in X] + [T[k]], "coordinates of the sample")
                I.eq(flat(rd.residuals)[k], y[k] - p[k], "residual is actual minus predicted")
    elif nd == 1:
        found = set()
        for ax in fig.axes:
            g = mesh(ax)
            if g is None:
                continue
            k = "true" if "true" in ax.title.lower() else "pred"
            found.add(k)
            cells = np.array([[float(a), float(c)] for a, c in g])
            vals = list(g.values())
            for i in range(n):
                j = int((((cells - [T[i], X[0][i]]) / [5, 2]) ** 2).sum(1).argmin())
                I.eq(vals[j], (y if k == "true" else p)[i], f"{k} map shows each sample at its place (vertical) and time (horizontal)")
        I.check(found == {"true", "pred"}, "both panels")
    else:
        found = {"true": [], "pred": []}
        for ax in fig.axes:
            g = mesh(ax)
            if g is None:
                continue
            k = "true" if "true" in ax.title.lower() else "pred"
            tc = number_in(ax.title)
            found[k].append(tc)
            cells = np.array([[float(a), float(c)] for a, c in g])
            vals = list(g.values())
            own = [i for i in range(n) if tc - 1 - 1e-9 <= T[i] < tc + 1 or (tc == 9 and T[i] == 10)]
            for i in own:
                j = int((((cells - [X[1][i], X[0][i]]) / [2, 1]) ** 2).sum(1).argmin())
                same = [q for q in own if X[0][q] == X[0][i] and X[1][q] == X[1][i]]
                v = y if k == "true" else p
                I.check(I.any(*[I.same(vals[j], v[q]) if I.symbolic else I.close(vals[j], v[q]) for q in same]),
                        f"{k} map of a time shows the samples of that time, x_1 vertical, x_2 horizontal")
        I.check(found["true"] == found["pred"] and len(found["true"]) == 3 and found["true"][0] == 1.0 and found["true"][-1] == 9.0, "first and last time bin, true above predicted")
    I.check(len(fits) >= 1, "the program's fit is brought up to date")
    I.reach()


# -- search history ---------------------------------------------------------------------
def evolution(I, M, n, k, how):
    """reward histories"""
    R = [I.array(f"r{i}", (k,), -1, 1) for i in range(n)]
    m = Model()
    m.searcher = types.SimpleNamespace(r_train=R)
    with session(I, M, Model, M.ad.DiscoverVizAdapter()) as S:
        if how == "facade":
            res = M.api.plot_search_evolution(m, output_dir=str(S.dir), show_info=False)
            fig = produced(I, S, res)
        elif how == "legacy":
            M.viz.plot_evolution(m, output_dir=str(S.dir))
            fig = in_dir(I, S)
        else:
            M.plotter.Plotter().evolution_plot(R)
            fig = S.rec.figs[-1]
    ax = next(a for a in fig.axes if curves(a))
    seen = set()
    for xs, ys, lab in curves(ax):
        I.check([int(x) for x in xs] == list(range(1, n + 1)), "one value per iteration, counted from one")
        kind = "best" if "best" in lab.lower() else "max" if "max" in lab.lower() else "mean"
        seen.add(kind)
        for i in range(n):
            if kind == "mean":
                I.eq(ys[i] * k, sum(R[i]), "mean reward of the iteration")
            else:
                pool = list(R[i]) if kind == "max" else [v for b in R[:i + 1] for v in b]
                I.check(I.all(*[I.le(v, ys[i]) for v in pool]), kind + " reward: none is larger")
                I.check(I.any(*[I.same(v, ys[i]) for v in pool]), kind + " reward was obtained")
    I.check(seen == {"best", "max", "mean"}, "best, maximum and mean are drawn")
    I.reach()


def density(I, M, n, epoches, max_curves=None, how="facade"):
    """reward densities"""
    R = [I.array(f"r{i}", (2,), 0, 1) for i in range(n)]
    m = Model()
    m.searcher = types.SimpleNamespace(r_history=[list(r) for r in R])
    with session(I, M, Model, M.ad.DiscoverVizAdapter()) as S:
        o = {} if epoches is None else {"epoches": list(epoches)}
        if max_curves:
            o["max_curves"] = max_curves
        if how == "facade":
            res = M.core.render(M.core.VizRequest("density", m, dict(o, output_dir=str(S.dir))))
            fig = produced(I, S, res)
        else:
            m.plot = lambda fig_type, epoches=None: M.plotter.Plotter().density_plot(R, epoches)
            M.viz.plot_density(m, epoches=epoches, output_dir=str(S.dir))
            fig = in_dir(I, S)
    import re
    ks = [(flat(a[0]), kw.get("label", "")) for ax in fig.axes for kind, a, kw in ax.draws if kind == "kde"]
    shown = []
    for k, (vals, lab) in enumerate(ks):
        d = re.findall(r"-?\d+", lab)
        e = int(d[0]) if d else k
        I.check(-n <= e < n, "the label names an epoch of the history")
        shown.append(e)
        I.check(len(vals) == 2, "all rewards of the epoch")
        for a, c in zip(vals, R[e]):
            I.eq(a, c, "the curve is the rewards of the epoch it is labelled with")
    if epoches is not None:
        I.check(shown == [e for e in epoches if e < n], "every requested epoch that exists is drawn")
    elif max_curves is None or n <= max_curves:
        I.check(shown == list(range(n)), "every epoch is drawn")
    else:
        I.check(len(set(shown)) == len(shown) and {0, n - 1} <= set(shown) and len(shown) <= 2 * max_curves + 1, "a sample of epochs with the first and the last")
    I.reach()


class Digraph:
    def __init__(self, *a, **k):
        self.nodes, self.edges = {}, []

    def node(self, name, label=None, **k):
        self.nodes[name] = name if label is None else label

    def edge(self, a, b, **k):
        self.edges.append((a, b))

    def pipe(self, format=None, **k):
        return repr((self.nodes, self.edges)).encode()

    def render(self, path, format="png", cleanup=False, **k):
        Path(path + "." + format).write_bytes(self.pipe(format))


TREELIB = ["add", "mul", "n2", "u1", "x1", "diff"]


def tree(I, M, n, how):
    """expression tree drawing"""
    lib = disco.mklib(M, TREELIB)
    toks, open_ = [], 1
    while open_ and len(toks) < n:
        names = [t.name for t in lib.tokens if open_ - 1 + t.arity <= n - len(toks) - 1]
        nm = I.choose(f"t{len(toks)}", names)
        t = next(k for k in lib.tokens if k.name == nm)
        toks.append(t)
        open_ += t.arity - 1
    b = Model()
    b.library, b.traversal, b.str_expression = lib, toks, ",".join(t.name for t in toks)
    m = Model()
    m.searcher = types.SimpleNamespace(best_p=b, plotter=M.plotter.Plotter())
    with session(I, M, Model, M.ad.DiscoverVizAdapter()) as S, mock.patch.object(M.plotter, "Digraph", Digraph):
        for again in range(2):
            if how == "facade":
                res = M.core.render(M.core.VizRequest("tree", m, dict(output_dir=str(S.dir))))
                I.check(len(res.paths) == 1, "the tree is drawn")
                nodes, edges = eval(Path(res.paths[0]).read_text())
            else:
                M.viz.plot_expression_tree(m, output_dir=str(S.dir))
                nodes, edges = eval(next(S.dir.rglob("*.png")).read_text())
            ref = disco.Tree([t.arity for t in toks])
            I.check(len(nodes) == len(toks) and len(edges) == len(toks) - 1, "one node per token, one edge per operand")
            kids = {}
            for a, c in edges:
                I.check(a in nodes and c in nodes, "edges join nodes of this drawing")
                kids.setdefault(a, []).append(c)
            roots = set(nodes) - {c for _, c in edges}
            I.check(len(roots) == 1, "one root")
            out = []

            def pre(k):
                out.append(nodes[k])
                for c in kids.get(k, []):
                    pre(c)
            pre(roots.pop())
            I.check(out == [t.name for t in toks], "the drawing reads back as the expression")
            for k, v in nodes.items():
                I.check(len(kids.get(k, [])) == lib.name_arites[v], "an operator has all its operands")
    I.reach()


# -- slicing of 3-D data ------------------------------------------------------------------
def slicing(I, M, sizes, axis_, index):
    """3-D field slices"""
    nd = len(sizes)
    f, g = I.array("f", tuple(sizes) + (2,), -8, 8), I.array("g", tuple(sizes) + (2,), -8, 8)
    C = [[100.0 * a + i for i in range(k)] for a, k in enumerate(sizes)]
    with quiet():
        data = M.contracts.FieldComparisonData(spatial_coords=[np.array(c) for c in C], t_coords=np.array([0.0, 1.0]), true_field=f, predicted_field=g)
        k = {}
        if index is not None:
            k["slice_index"] = index
        out = M.contracts.slice_3d_to_2d(data, slice_axis=axis_, **k)
    I.check(out.n_spatial_dims == 2 and len(out.spatial_coords) == 2, "two space dimensions are left")
    keep = [int(c[0] // 100) for c in out.spatial_coords]
    I.check(keep == sorted(keep), "remaining axes keep their order")
    for a, c in zip(keep, out.spatial_coords):
        I.check([float(v) for v in c] == C[a], "coordinates of the remaining axes")
    first = axis_ + nd if axis_ < 0 else axis_
    first = max(0, min(first, nd - 1))
    I.check(first not in keep, "the requested axis is cut")
    at = {}
    for a in range(nd):
        if a not in keep:
            i = sizes[a] // 2 if a != first or index is None else index
            at[a] = max(0, min(i, sizes[a] - 1))
    for p in np.ndindex(*sizes):
        if any(p[a] != i for a, i in at.items()):
            continue
        q = tuple(p[a] for a in keep)
        for t in range(2):
            I.eq(out.true_field[q + (t,)], f[p + (t,)], "true field on the cut")
            I.eq(out.predicted_field[q + (t,)], g[p + (t,)], "predicted field on the cut")
            I.eq(out.residual_field[q + (t,)], f[p + (t,)] - g[p + (t,)], "residual is true minus predicted")
    I.reach()


VIEWS = ("residual", "field", "parity")
P1 = []
for _i, _n in enumerate(T1):
    size = {"third": 9, "fourth": 10, "quot": 3}.get(_n, 4)
    for _j, _v in enumerate(VIEWS):
        P1.append(dict(name=_n, n=size, nt=2, x0=("1", "-0.5", "0.25")[(_i + _j) % 3] if _n != "quot" else "1", h=("0.5", "0.25", "-0.5")[(_i + _j) % 3] if _n != "quot" else ("0.5", "0.25")[_j % 2],
                       intercept=(_i + _j) % 2, view=_v, legacy=False))
P1 += [dict(name=n, n=4, nt=2, x0="1", h=h, intercept=i, view=v, legacy=True) for v in VIEWS for n, h, i in (("linear", "0.5", 0), ("linear", "-0.5", 1))]
P1 += [dict(name="basic", n=4, nt=2, x0="1", h="0.5", intercept=1, view="residual", legacy=True)]
P1 += [dict(name="linear", n=3, nt=1, x0="1", h="0.5", intercept=0, view="residual", fixed=True)]
PN = []
for _i, _n in enumerate(("grad", "lap", "tok")):
    for _j, _v in enumerate(VIEWS):
        PN.append(dict(name=_n, sizes=(3, 4), nt=2, steps=[("1", "0.5"), ("20", ("-0.25", "0.25")[(_i + _j) % 2])], intercept=(_i + _j) % 2, view=_v))
PN += [dict(name="grad", sizes=(4, 3), nt=5, steps=[("1", "-0.5"), ("20", "2")], intercept=0, view="field"),
       dict(name="lap", sizes=(3, 3), nt=3, steps=[("1", "-0.5"), ("20", "2")], intercept=1, view="residual")]
S3 = [("1", "0.5"), ("20", "-0.25"), ("300", "2")]
P3 = [dict(name="three", sizes=(3, 4, 3), nt=2, steps=S3, intercept=0, view="residual"),
      dict(name="lap3", sizes=(3, 3, 4), nt=2, steps=S3, intercept=1, view="field", opts={"slice_axis": 0, "slice_index": 2})]
P3T = P3 + [dict(name=n, sizes=(3, 4, 3), nt=2, steps=S3, intercept=0, view=v, opts=o) for n in ("three", "lap3")
            for v, o in (("field", {}), ("field", {"slice_axis": 1}), ("field", {"slice_axis": -3, "slice_index": -1}), ("parity", {}), ("residual", {}))]
SL = [dict(sizes=s, axis_=a, index=i) for s in ((2, 3, 4),) for a in (-1, 0, 1, 2, -3, 7, -9) for i in (None, 0, 1, 9, -2)] + \
     [dict(sizes=(2, 3, 2, 3), axis_=a, index=i) for a in (-1, 1, 0) for i in (None, 0)]

HARNESSES = [
    H(fields_1d, P1, thorough=P1 + [dict(p, n=p["n"] + 2, nt=3) for p in P1], bounds="1-D: 4-10 points, 2 (3) times, 11 sets of terms, three views, with and without intercept, both axis directions; any polynomial, weights, left-hand side", limit=60, thorough_limit=400),
    H(fields_nd, PN, bounds="2-D: 3x4 points, 2-5 times, three sets of terms, both axis directions", limit=60),
    H(fields_nd, P3, thorough=P3T, bounds="3-D: 3x4x3 points, cuts", limit=80),
    H(spr, [dict(view=v, legacy=l) for v in ("residual", "field") for l in (False, True)] + [dict(view="parity", legacy=True)] +
      [dict(view=v, nd=k, n=24) for v in ("residual", "field") for k in (2, 3)], bounds="sparse data: 6-24 samples, 1-3 space dimensions, any values", limit=80),
    H(evolution, [dict(n=3, k=2, how=h) for h in ("facade", "legacy", "plotter")] + [dict(n=1, k=3, how="facade")], thorough=[dict(n=n, k=k, how=h) for n, k in ((3, 2), (4, 2), (3, 3), (1, 3)) for h in ("facade", "legacy", "plotter")],
      bounds="1-3 iterations of 2-3 rewards", limit=40),
    H(density, [dict(n=3, epoches=e) for e in (None, [2, 0], [0, 5, 1], [7, 2], [1, 1])] + [dict(n=n, epoches=None, max_curves=c) for n, c in ((5, 2), (7, 3), (4, 4), (6, 1))] + [dict(n=3, epoches=[2, 0], how="legacy")],
      bounds="3-7 epochs of two rewards", limit=30),
    H(tree, [dict(n=4, how="facade"), dict(n=3, how="legacy")], thorough=[dict(n=5, how="facade"), dict(n=4, how="legacy")], bounds="every expression of up to 4 (5) tokens", limit=100, thorough_limit=600),
    H(slicing, SL, bounds="3-D and 4-D fields, every axis and index in and out of range", limit=30),
]

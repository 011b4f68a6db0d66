"""C27: DLGA, SGA and PySR plots show the data they claim"""
import contextlib
import importlib
import logging
import shutil
import tempfile
import types
from pathlib import Path

import numpy as np

from symx import core, shim
from symx.runner import H
from . import disco, plotrec
from .c22 import Marks
from .c26 import Model, arr, produced, seq_eq
from .env import quiet
from .plotrec import bars, curves, flat, in_view, mesh, number_in, points

ASSUMPTIONS = ["matplotlib only writes down what it is asked to draw; how the library puts it on paper is outside",
               "titles are judged to the digits they print; which of several panels is which is read from its title or label"]


def load():
    M = disco.load_disco()
    imp = importlib.import_module
    M.sga = imp("kd.viz._adapters.sga")
    M.dlga = imp("kd.viz._adapters.dlga")
    M.pysr = imp("kd.viz._adapters.pysr")
    M.viz = imp("kd.viz.dlga_viz")
    M.api = imp("kd.viz.api")
    M.core = imp("kd.viz.core")
    M.registry = imp("kd.viz.registry")
    M.contracts = imp("kd.viz._contracts")
    return M


@contextlib.contextmanager
def session(I, M, adapter):
    d = tempfile.mkdtemp(prefix="kdviz")
    saved = dict(M.registry._ADAPTERS)
    M.registry.register_adapter(Model, adapter)
    if I.symbolic:
        shim.TERM_ARRAYS[0] = shim.UNIQUE_OPAQUE[0] = True
    logging.disable(logging.CRITICAL)
    try:
        with plotrec.recording(M.viz, M.sga, M.pysr) as rec, quiet():
            yield types.SimpleNamespace(dir=Path(d), rec=rec)
    finally:
        logging.disable(logging.NOTSET)
        if I.symbolic:
            shim.TERM_ARRAYS[0] = shim.UNIQUE_OPAQUE[0] = False
        M.registry._ADAPTERS.clear()
        M.registry._ADAPTERS.update(saved)
        shutil.rmtree(d, ignore_errors=True)


def field(I, name, shape):
    a = I.array(name, shape, -8, 8)
    return arr(a).view(shim.ObjArr) if I.symbolic else np.asarray(a, float)


def shown_in(fig, S):
    """the figure drawn last into the only file"""
    fs = [p for p in S.dir.rglob("*") if p.is_file()]
    return S.rec.figs[int(fs[0].read_text().split()[1])], fs


def drawn(S, res, I, n=1):
    return produced(I, S, res, n)


# a coordinate axis given out of order, to see that nothing is sorted or reversed on the way
def coords(n, base):
    return np.array([float(base) + 3 * i for i in range(n)])


def panel(I, ax, xs, ys, grid, label):
    """a colour map of grid[i, j] at (xs[j], ys[i])"""
    g = mesh(ax)
    I.check(g is not None and len(g) == len(xs) * len(ys), label + ": one cell per grid point")
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            k = next((k for k in g if float(k[0]) == float(x) and float(k[1]) == float(y)), None)
            if k is None:
                I.fail(label + ": every grid point has its cell")
                return
            I.eq(g[k], grid[i][j], label)


def indexed(I, ax, grid, label):
    g = mesh(ax)
    I.check(g is not None and len(g) == grid.size, label + ": one cell per grid point")
    for i in range(grid.shape[0]):
        for j in range(grid.shape[1]):
            I.check((j, i) in g, label + ": indices")
            I.eq(g[(j, i)], grid[i, j], label)


def stats(I, s, res, label):
    n = len(res)
    if "mean" in s or "mean_residual" in s:
        I.eq(s.get("mean", s.get("mean_residual")) * n, sum(res), label + ": mean")
    mx = s.get("max_abs", s.get("max_abs_residual"))
    if mx is not None:
        ref = abs(res[0])
        for r in res[1:]:
            ref = core.smax(ref, abs(r)) if I.symbolic else max(ref, abs(r))
        I.eq(mx, ref, label + ": largest")
    if "rmse" in s:
        I.eq(s["rmse"] * s["rmse"] * n, sum(r * r for r in res), label + ": rmse")
        I.check(I.le(0, s["rmse"]), label + ": rmse is not negative")
    if "count" in s:
        I.check(s["count"] == n, label + ": count")


# -- SGA ----------------------------------------------------------------------------------
LAYOUT = {   # storage order of the axes, left-hand side axis
    "legacy": None,
    "xt": (["x", "t"], "t"),
    "tx": (["t", "x"], "t"),
    "xyt": (["x", "y", "t"], "t"),
    "xty": (["x", "t", "y"], "t"),
    "tyx": (["t", "y", "x"], "t"),
    "lhsy": (["x", "y"], "y"),
    "xyzt": (["x", "y", "z", "t"], "t"),
    "ztxy": (["z", "t", "x", "y"], "t"),
    "wxyzt": (["w", "x", "y", "z", "t"], "t"),
}
SIZE = dict(x=3, y=2, z=3, w=2, t=4)
BASE = dict(x=100, y=200, z=300, w=400, t=2)


class Context:
    pass


def sga_context(I, layout, names, nt=4, descending=False):
    c = Context()
    size = dict(SIZE, t=nt)
    if layout == "legacy":
        order, lhs = ["x", "t"], "t"
        x, t = coords(size["x"], 100), coords(nt, 2)
        c.x, c.t = (x, t) if I.choose("gridform", [0, 1]) == 0 else np.meshgrid(x, t, indexing="ij")
        C = dict(x=x, t=t)
    else:
        order, lhs = LAYOUT[layout]
        C = {a: coords(size[a], BASE[a]) for a in order}
        if descending:
            C = {a: v[::-1] if a != lhs else v for a, v in C.items()}
        c.axis_order, c.coords_1d, c.lhs_axis = list(order), dict(C), lhs
    shape = tuple(size[a] for a in order)
    fs = {}
    for n in names:
        f = field(I, n, shape)
        setattr(c, n, f)
        fs[n] = arr(f)
    perm = [order.index(a) for a in order if a != lhs] + [order.index(lhs)]
    space = [C[a] for a in order if a != lhs]
    return c, {n: np.transpose(f, perm) for n, f in fs.items()}, space, C[lhs]


def cut(f, sizes, first, index):
    """(field with two space axes, kept axes) as slice_3d_to_2d promises"""
    keep = list(range(len(sizes)))
    k = first if first >= 0 else first + len(sizes)
    k = max(0, min(k, len(sizes) - 1))
    fixed = {k: max(0, min(sizes[k] - 1, sizes[k] // 2 if index is None else index))}
    keep.remove(k)
    while len(keep) > 2:
        a = keep.pop()
        fixed[a] = sizes[a] // 2
    sl = tuple(fixed[a] if a in fixed else slice(None) for a in range(len(sizes)))
    return f[sl], keep


def which(ax, words):
    t = ax.title.lower()
    return next((v for k, v in words.items() if k in t), None)


def sga_field(I, M, layout, nt=4, opts=None, descending=False):
    """SGA field panels"""
    m = Model()
    m.context_, F, space, T = sga_context(I, layout, ["u", "u_origin"], nt, descending)
    with session(I, M, M.sga.SGAVizAdapter()) as S:
        res = M.core.render(M.core.VizRequest("field_comparison", m, dict(opts or {}, output_dir=str(S.dir))))
        fig = drawn(S, res, I)
    maps = [a for a in fig.axes if mesh(a) is not None]
    words = {"metadata": "u", "original": "u_origin"}
    if len(space) == 1:
        I.check(len(maps) == 2 and {which(a, words) for a in maps} == {"u", "u_origin"}, "one panel for each field")
        for a in maps:
            flip = "space" in a.xlabel.lower()
            I.check(not flip, "time runs along the horizontal axis")
            panel(I, a, T, space[0], F[which(a, words)], a.title)
    else:
        sizes = [len(s) for s in space]
        G, keep = dict(F), list(range(len(space)))
        if len(space) > 2:
            for n in F:
                G[n], keep = cut(F[n], sizes, (opts or {}).get("slice_axis", -1), (opts or {}).get("slice_index"))
        seen = {"u": [], "u_origin": []}
        for a in maps:
            n, t = which(a, words), number_in(a.title)
            k = next((i for i, v in enumerate(T) if abs(v - t) < 0.006), None)
            I.check(n is not None and k is not None, "each panel names its field and time")
            seen[n].append(k)
            panel(I, a, space[keep[1]], space[keep[0]], G[n][..., k], a.title)
        I.check(seen["u"] == seen["u_origin"] and len(seen["u"]) == min(nt, 3), "both fields at the same times")
        I.check({0, nt - 1} <= set(seen["u"]), "first and last time are shown")
    d = res.metadata["field_comparison_data"]
    for got, n in ((d.predicted_field, "u"), (d.true_field, "u_origin")):
        I.check(np.shape(got) == F[n].shape, "reported shape")
        for a, b in zip(flat(got), flat(F[n])):
            I.eq(a, b, "reported " + n)
    s, pool = res.metadata["summary"], flat(F["u"]) + flat(F["u_origin"])
    I.check(I.all(*[I.all(I.le(s["vmin"], v), I.le(v, s["vmax"])) for v in pool]), "colour range covers both fields")
    I.reach()


def nearest(T, t):
    b = min(abs(float(v) - t) for v in T)
    return [i for i, v in enumerate(T) if abs(abs(float(v) - t) - b) < 1e-12]


def sga_slices(I, M, layout, nt=4, opts=None, descending=False):
    """SGA time slices"""
    m = Model()
    m.context_, F, space, T = sga_context(I, layout, ["u", "u_origin"], nt, descending)
    opts = opts or {}
    with session(I, M, M.sga.SGAVizAdapter()) as S:
        res = M.core.render(M.core.VizRequest("time_slices", m, dict(opts, output_dir=str(S.dir))))
        fig = drawn(S, res, I)
    T = [float(v) for v in T]
    lo, hi = min(T), max(T)
    want = opts.get("slice_times")
    if want is None:
        k = max(1, int(opts.get("slice_count", 3)))
        want = [lo] if k == 1 else [lo + (hi - lo) * i / (k - 1) for i in range(k)]
    want = [min(max(v, lo), hi) for v in (want or T)]
    actual = [float(v) for v in res.metadata["time_slices_summary"]["actual_slice_times"]]
    I.check(all(v in T for v in actual), "slices are taken at times of the grid")
    for v in want:
        I.check(any(T[i] in actual for i in nearest(T, v)), "every requested time has the nearest slice")
    I.check(all(any(T.index(v) in nearest(T, q) for q in want) for v in actual), "no slice at a time nobody asked for")
    if len(space) == 1:
        axes = [a for a in fig.axes if curves(a)]
        I.check(len(axes) == len(actual), "one panel per slice")
        for a in axes:
            t = number_in(a.title)
            k = min(range(len(T)), key=lambda i: abs(T[i] - t))
            I.check(abs(T[k] - t) < 0.0006 and T[k] in actual, "the title names the time drawn")
            labs = set()
            for xs, ys, lab in curves(a):
                n = "u" if "meta" in lab.lower() else "u_origin"
                labs.add(n)
                I.check([float(x) for x in xs] == [float(x) for x in space[0]], "over the whole axis")
                for i in range(len(space[0])):
                    I.eq(ys[i], F[n][i, k], f"{n} at the time in the title")
            I.check(labs == {"u", "u_origin"}, "both fields in every panel")
    else:
        sizes = [len(s) for s in space]
        G, keep = dict(F), list(range(len(space)))
        if len(space) > 2:
            for n in F:
                G[n], keep = cut(F[n], sizes, opts.get("slice_axis", -1), opts.get("slice_index"))
        seen = {"u": [], "u_origin": []}
        for a in fig.axes:
            if mesh(a) is None:
                continue
            n, t = which(a, {"predict": "u", "true": "u_origin"}), number_in(a.title)
            k = min(range(len(T)), key=lambda i: abs(T[i] - t))
            I.check(abs(T[k] - t) < 0.006, "the title names the time drawn")
            seen[n].append(T[k])
            panel(I, a, space[keep[1]], space[keep[0]], G[n][..., k], a.title)
        I.check(seen["u"] == seen["u_origin"] == actual, "both fields at every slice")
    d = res.metadata["time_slices_data"]
    for got, n in ((d.predicted_field, "u"), (d.true_field, "u_origin")):
        for a, b in zip(flat(got), flat(F[n])):
            I.eq(a, b, "reported " + n)
    I.reach()


def sga_parity(I, M, layout, mode, form="same", nt=4):
    """SGA parity"""
    m = Model()
    m.context_, F, _, _ = sga_context(I, layout, ["ut", "ut_origin"], nt)
    ut, uo = m.context_.ut, m.context_.ut_origin
    m.context_.ut, m.context_.ut_origin = (np.asarray(v) if not I.symbolic else v for v in (ut, uo))
    p = field(I, "p", ut.shape if form == "same" else (ut.size, 1) if form == "column" else (ut.size,))
    m.best_equation_details_ = types.SimpleNamespace(predicted_rhs=p, terms=[])
    if mode == "noorigin":
        m.context_.ut_origin = None
    if mode == "small":
        m.context_.ut_origin = ut[:-1] + 1
    o = {"compare": "original"} if mode in ("original", "small") else {}
    with session(I, M, M.sga.SGAVizAdapter()) as S:
        res = M.core.render(M.core.VizRequest("parity", m, dict(o, output_dir=str(S.dir))))
        fig = drawn(S, res, I)
    tgt = flat(uo if mode == "original" else ut)
    P = flat(p)
    ax = next(a for a in fig.axes if points(a) is not None)
    pts = points(ax)
    in_view(I, ax, pts)
    I.check(len(pts) == len(tgt), "one point per sample")
    px = "pred" in ax.xlabel.lower()
    I.check(px != ("pred" in ax.ylabel.lower()), "axes say which is predicted")
    for k, (x, y, _) in enumerate(pts):
        I.eq(x if px else y, P[k], "predicted right-hand side of the sample")
        I.eq(y if px else x, tgt[k], "u_t of the sample")
    d = res.metadata["parity"]
    r = [a - b for a, b in zip(tgt, P)]
    for k in range(len(P)):
        I.eq(flat(d.actual_values)[k], tgt[k], "reported u_t")
        I.eq(flat(d.predicted_values)[k], P[k], "reported prediction")
    I.check(res.metadata["summary"]["mode"] == ("original" if mode == "original" else "metadata"), "says what it compared with")
    stats(I, res.metadata["summary"], r, "residual")
    I.reach()


def sga_residual(I, M, layout, nt=4):
    """SGA residual"""
    m = Model()
    names = ["ut", "ut_origin", "right_side_full", "right_side_full_origin"]
    m.context_, F, space, T = sga_context(I, layout, names, nt)
    with session(I, M, M.sga.SGAVizAdapter()) as S:
        res = M.core.render(M.core.VizRequest("residual", m, dict(output_dir=str(S.dir))))
        fig = drawn(S, res, I)
    R = {"metadata": F["ut"] - F["right_side_full"], "original": F["ut_origin"] - F["right_side_full_origin"]}
    sizes = [len(s) for s in space]
    seen = []
    for a in fig.axes:
        n = which(a, {"metadata": "metadata", "original": "original"})
        if bars(a) is not None:
            hb = bars(a)
            seq = seq_any(I, hb, R[n]) if layout == "legacy" or len(space) == 1 else None
            seen.append(("hist", n))
            if seq is None and len(space) < 3:
                I.check(len(hb) == R[n].size, "the histogram counts every residual once")
                for q, v in zip(hb, flat(R[n])):
                    I.eq(q, v, "histogram of the residuals, " + n)
        elif mesh(a) is not None:
            seen.append(("map", n))
            if len(space) == 1:
                indexed(I, a, R[n], f"{n} residual, space index vertical, time index horizontal")
            else:
                G = R[n] if len(space) == 2 else cut(R[n], sizes, -1, None)[0]
                k = number_in(a.title)
                I.check(k is not None and 0 <= int(k) < len(T), "the title names the time index")
                indexed(I, a, G[..., int(k)], f"{n} residual at the time in the title")
    I.check(sorted(seen) == sorted((a, b) for a in ("hist", "map") for b in ("metadata", "original")), "distribution and map of both residuals")
    for n in ("metadata", "original"):
        stats(I, res.metadata["summary"][n], flat(R[n]), n + " residual")
    I.reach()


def seq_any(I, got, grid):
    I.check(len(got) == grid.size, "the histogram counts every residual once")
    seq_eq(I, got, grid, "histogram of the residuals")
    return True


# -- DLGA: histories ------------------------------------------------------------------------
def losses(I, M, which_, n, how):
    """loss curves"""
    m = Model()
    v = [I.real(f"l{i}", -8, 8) for i in range(n)]
    other = [99.0] * (n + 1)
    m.train_loss_history, m.val_loss_history = (v, other) if which_ == "training" else (other, v)
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        for again in range(2):
            if how == "facade":
                res = getattr(M.api, f"plot_{which_}_curve")(m, output_dir=str(S.dir), show_info=False)
                fig = drawn(S, res, I)
                I.check(res.metadata["points"] == n, "number of epochs")
            else:
                getattr(M.viz, f"plot_{which_}_loss")(m, output_dir=str(S.dir))
                fig, fs = shown_in(fig=None, S=S)
                I.check(len(fs) == 1, "one file")
            cs = [c for a in fig.axes for c in curves(a)]
            I.check(len(cs) == 1 and [int(x) for x in cs[0][0]] == list(range(n)), "one value per epoch")
            for a, b in zip(cs[0][1], v):
                I.eq(a, b, which_ + " loss of the epoch")
            v.append(I.real("extra", -8, 8)) if again == 0 else None
            n += 1
    I.reach()


def history(I, n, keys):
    H_ = []
    for i in range(n):
        e = {}
        for k in keys:
            e[k] = I.real(f"{k}{i}", -8, 8) if k in ("fitness", "objective") else I.int(f"{k}{i}", 1, 9)
        H_.append(e)
    return H_


def evolution(I, M, n, how):
    """fitness histories"""
    m = Model()
    m.evolution_history = h = history(I, n, ["fitness", "complexity", "population_size", "unique_modules"])
    I.require(h[0]["fitness"] >= 0.5)
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        if how == "facade":
            res = M.api.plot_search_evolution(m, output_dir=str(S.dir), show_info=False)
            fig = drawn(S, res, I)
            I.check(res.metadata["generations"] == n, "number of generations")
        else:
            M.viz.plot_evolution(m, output_dir=str(S.dir))
            fig, fs = shown_in(None, S)
    seen = set()
    for a in fig.axes:
        for xs, ys, lab in curves(a):
            k = "fitness" if "fitness" in a.ylabel.lower() else "complexity"
            seen.add(k)
            I.check([int(x) for x in xs] == list(range(n)), "one value per generation")
            for i in range(n):
                I.eq(ys[i], h[i][k], k + " of the generation")
    I.check(seen == {"fitness", "complexity"}, "both curves are drawn")
    I.reach()


def optimization(I, M, n, keys, how="facade"):
    """optimization summary"""
    m = Model()
    m.evolution_history = h = history(I, n, keys)
    if how == "legacy":
        I.require(h[0]["fitness"] >= 0.5)
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        if how == "facade":
            res = M.api.plot_optimization(m, output_dir=str(S.dir), show_info=False)
            fig = drawn(S, res, I)
        else:
            M.viz.plot_optimization_analysis(m, output_dir=str(S.dir))
            fig, fs = shown_in(None, S)
    obj = [e.get("fitness", e.get("objective")) for e in h]
    left, right = fig.axes[0], fig.axes[1]
    cs = curves(left) + (curves(left.twin) if left.twin else [])
    for a in [left] + ([left.twin] if left.twin else []):
        for xs, ys, _ in curves(a):
            in_view(I, a, list(zip(xs, ys)))
    seen = set()
    for xs, ys, lab in cs:
        k = "population_size" if "pop" in lab.lower() else "unique_modules" if "unique" in lab.lower() else None
        seen.add(k)
        I.check([int(x) for x in xs] == list(range(n)), "one value per step")
        for i in range(n):
            I.eq(ys[i], h[i][k] if k else obj[i], (k or "objective") + " of the step")
    I.check(seen == ({k for k in ("population_size", "unique_modules") if k in keys} or {None}), "population and diversity are drawn when known")
    cs = curves(right)
    I.check(any(len(c[0]) == n for c in cs), "the whole objective history is drawn")
    for xs, ys, lab in cs:
        for x, y in zip(xs, ys):
            I.eq(y, obj[int(x)], "objective of the step")
    if how == "facade":
        s = res.metadata["summary"]
        I.eq(s["initial_objective"], obj[0], "initial objective")
        I.eq(s["final_objective"], obj[-1], "final objective")
        I.check(I.all(*[I.le(s["best_objective"], v) for v in obj]), "best objective is the lowest")
        I.check(I.any(*[I.same(s["best_objective"], v) for v in obj]), "best objective was reached")
    I.reach()


# -- DLGA: fields ---------------------------------------------------------------------------
def dlga_field(I, M, nx, nt, how, names=("true_field", "predicted_field")):
    """DLGA field panels"""
    m = Model()
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        for again in range(2):
            x, t = coords(nx, 100 + again), coords(nt, 2)
            if again:
                x = x[::-1].copy()
            f, g = field(I, f"f{again}", (nx, nt)), field(I, f"g{again}", (nx, nt))
            if how == "facade":
                o = dict(x_coords=x, t_coords=t, output_dir=str(S.dir))
                o[names[0]], o[names[1]] = f, g
                res = M.core.render(M.core.VizRequest("field_comparison", m, o))
                fig = drawn(S, res, I)
                d = res.metadata["field_comparison"]
                for a, b, c in zip(flat(d.residual_field), flat(f), flat(g)):
                    I.eq(a, b - c, "residual is true minus predicted")
            else:
                M.viz.plot_pde_comparison(x, t, f, g, output_dir=str(S.dir))
                fig, fs = shown_in(None, S)
            maps = [a for a in fig.axes if mesh(a) is not None]
            I.check([which(a, {"exact": 0, "true": 0, "pred": 1}) for a in maps] == [0, 1], "true and predicted panel")
            for a in maps:
                panel(I, a, t, x, arr((f, g)[which(a, {"exact": 0, "true": 0, "pred": 1})]), a.title + " (space vertical, time horizontal)")
    I.reach()


def dlga_slices(I, M, nx, nt, times, how):
    """DLGA time slices"""
    m = Model()
    x, t = coords(nx, 100), coords(nt, 2)
    f, g = field(I, "f", (nx, nt)), field(I, "g", (nx, nt))
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        if how == "legacy":
            M.viz.plot_time_slices(x, t, f, g, times, output_dir=str(S.dir))
            fig, _ = shown_in(None, S)
            want = [float(t[int(s * (nt - 1) + 1e-9)]) for s in times]
        else:
            o = dict(x_coords=x, t_coords=t, true_field=f, predicted_field=g, output_dir=str(S.dir))
            if isinstance(times, int):
                o["num_slices"] = times
            elif times is not None:
                o["slice_times"] = times
            res = M.core.render(M.core.VizRequest("time_slices", m, o))
            fig = drawn(S, res, I)
            if isinstance(times, (int, type(None))):
                k = max(1, min(times or 3, nt))
                want = [float(t[0])] if k == 1 else [float(t[0] + (t[-1] - t[0]) * i / (k - 1)) for i in range(k)]
            else:
                want = times
    axes = [a for a in fig.axes if curves(a)]
    I.check(len(axes) == len(want), "one panel per requested time")
    for a, w in zip(axes, want):
        ks = nearest(t, w)
        got = number_in(a.title)
        I.check(any(abs(got - v) < 0.006 for v in [w] + [float(t[k]) for k in ks]), "the title names the time")
        labs = set()
        for xs, ys, lab in curves(a):
            p = "pred" in lab.lower()
            labs.add(p)
            I.check([float(v) for v in xs] == [float(v) for v in x], "over the whole axis")
            src = g if p else f
            I.check(I.any(*[I.all(*[I.same(ys[i], src[i, k]) if I.symbolic else I.close(ys[i], src[i, k]) for i in range(nx)]) for k in ks]),
                    ("predicted" if p else "true") + " field at the time nearest to the request")
        I.check(labs == {False, True}, "both fields in every panel")
    I.reach()


def dlga_residual(I, M, shape, coord, own):
    """DLGA residual"""
    m = Model()
    a, p = field(I, "a", shape), field(I, "p", shape)
    o = {}
    n = a.size
    r = [x - y for x, y in zip(flat(a), flat(p))]
    if own:
        q = field(I, "q", shape)
        o["residuals"] = q
        r = flat(q)
    if coord:
        o["coordinates"] = np.arange(n * coord, dtype=float).reshape((n, coord) if coord > 1 else (n,)) + 7
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        res = M.api.plot_residuals(m, actual=a, predicted=p, output_dir=str(S.dir), show_info=False, **o)
        fig = drawn(S, res, I)
    ax = next(k for k in fig.axes if points(k) is not None)
    pts = points(ax)
    px = "target" in ax.ylabel.lower()
    I.check(len(pts) == n, "one point per sample")
    for k, (x, y, c) in enumerate(pts):
        I.eq(y if px else x, flat(a)[k], "actual value of the sample")
        I.eq(x if px else y, flat(p)[k], "predicted value of the sample")
        if coord:
            I.check(float(c) == float(o["coordinates"].reshape(n, -1)[k, 0]), "coloured by the sample's own coordinate")
    hb = next(bars(k) for k in fig.axes if bars(k) is not None)
    I.check(len(hb) == n, "the histogram counts every residual once")
    for k in range(n):
        I.eq(hb[k], r[k], "histogram of the residuals")
    stats(I, res.metadata["summary"], r, "residual")
    d = res.metadata["residual"]
    for k in range(n):
        I.eq(flat(d.residuals)[k], r[k], "reported residual")
    I.reach()


# -- DLGA: the equation's own terms -----------------------------------------------------------
OPS = ["u", "u_x", "u_xx", "u_t"]
CHROMS = {
    "two": [[0, 1], [2]],
    "cube": [[0, 0, 0], [1]],
    "single": [[1]],
    "four": [[0], [1], [2], [0, 2]],
    "const": [[0, 1], []],
    "stray": [[0], [7, 1], [2]],
    "missing": [[0], [3], [1, 2]],
    "five": [[0], [1], [2], [0, 2], [1, 1]],
}
COEFS = {"two": [-1.5, 0.25], "cube": [2.0, -3.0], "single": [-0.125], "four": [0.5, -4.0, 3.0, -1.0], "const": [1.5, 2.5], "stray": [0.5, 8.0, -2.0],
         "missing": [1.0, 5.0, -0.75], "five": [0.5, -4.0, 3.0, -1.0, 0.75]}


def dlga_model(I, chrom, n, shape, symcoef, column=True):
    m = Model()
    m.Chrom = [[list(k) for k in CHROMS[chrom]], [[0]]]
    nm = len(CHROMS[chrom])
    if symcoef:
        c = [I.real(f"k{i}", -8, 8) for i in range(nm)]
    else:
        c = COEFS[chrom]
    cc = np.array(c, dtype=object if symcoef and I.symbolic else float)
    m.coef = [cc.reshape(-1, 1) if column else cc, np.array([[9.0]])]
    m.name = ["u_t", "u_tt"]
    m.user_operators = list(OPS)
    D = {k: field(I, k, shape) for k in ("u", "u_x", "u_xx", "lhs")}
    D["u_t"] = D.pop("lhs")
    m.metadata = dict(D)
    if chrom == "missing":
        m.user_operators[3] = "u_xxx"
    D = {k: flat(v) for k, v in D.items()}
    terms = []
    for k, mod in enumerate(CHROMS[chrom]):
        if any(g >= len(OPS) or (chrom == "missing" and g == 3) for g in mod):
            continue
        if not mod:
            vals = [1.0]
        else:
            vals = []
            for i in range(len(D["u"])):
                v = 1
                for g in mod:
                    v = v * D[OPS[g]][i]
                vals.append(v)
        terms.append((mod, c[k], vals))
    return m, terms, D["u_t"]


def relationships(I, M, chrom, how, top, shape=(3,)):
    """term relationships"""
    m, terms, lhs = dlga_model(I, chrom, 3, shape, False)
    marks = None
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        if how == "facade":
            o = {} if top is None else {"top_n_terms": top}
            res = M.api.plot_derivative_relationships(m, output_dir=str(S.dir), show_info=False, **o)
            fig = drawn(S, res, I)
        else:
            M.viz.plot_derivative_relationships(m, output_dir=str(S.dir), **({} if top is None else {"top_n_terms": top}))
            fig, _ = shown_in(None, S)
    k = top or 4
    want = sorted(terms, key=lambda q: -abs(q[1]))[:max(1, k)]
    axes = [a for a in fig.axes if points(a) is not None]
    I.check(len(axes) == len(want), "the terms with the largest coefficients")
    for a, (mod, c, vals) in zip(axes, want):
        lab = a.xlabel.replace(r"\cdot", "*").replace("$", "").split(":", 1)[1].replace(" ", "")
        I.check(sorted(lab.split("*")) == sorted(OPS[g] for g in mod), "the panel names its term")
        I.check(a.title.split(":")[1].strip() == f"{c:.4f}", "the panel names its coefficient")
        I.check("u_t" in a.ylabel, "left-hand side on the vertical axis")
        pts = points(a)
        I.check(len(pts) == len(lhs), "one point per sample")
        for i, (x, y, col) in enumerate(pts):
            I.eq(x, vals[i], "value of the term at the sample")
            I.eq(y, lhs[i], "left-hand side at the sample")
    I.check(all(not a.visible for a in fig.axes if points(a) is None), "no empty panels")
    if how == "facade":
        d = res.metadata["term_relationships"]
        I.check([float(t.coefficient) for t in d.terms] == [c for _, c, _ in want], "reported coefficients")
    I.reach()


def dlga_parity(I, M, chrom, how, shape=(3,), column=True):
    """DLGA parity"""
    m, terms, lhs = dlga_model(I, chrom, 3, shape, True, column)
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        if how == "facade":
            res = M.api.plot_parity(m, output_dir=str(S.dir), show_info=False)
            fig = drawn(S, res, I)
        else:
            M.viz.plot_pde_parity(m, output_dir=str(S.dir))
            fig, _ = shown_in(None, S)
    n = len(lhs)
    rhs = []
    for i in range(n):
        v = 0
        for mod, c, vals in terms:
            v = v + c * vals[i % len(vals)]
        rhs.append(v)
    ax = next(a for a in fig.axes if points(a) is not None)
    pts = points(ax)
    I.check(len(pts) == n, "one point per sample")
    px = "rhs" in ax.xlabel.lower()
    I.check(px != ("rhs" in ax.ylabel.lower()), "axes say which side is which")
    for i, (x, y, _) in enumerate(pts):
        I.eq(y if px else x, lhs[i], "left-hand side of the sample")
        I.eq(x if px else y, rhs[i], "right-hand side of the sample is the equation's own")
    if how == "facade":
        r = [a - b for a, b in zip(lhs, rhs)]
        d = res.metadata["parity"]
        for i in range(n):
            I.eq(flat(d.residuals)[i], r[i], "reported residual")
        s = dict(res.metadata["summary"])
        if chrom not in ("single", "two"):
            s.pop("rmse"), s.pop("max_abs_residual")
        stats(I, s, r, "residual")
    I.reach()


def terms_plot(I, M, xv, yv, color):
    """equation terms"""
    m = Model()
    m.metadata = {k: field(I, k, (2, 2)) for k in ("u", "u_x", "u_xx", "u_t")}
    D = {k: flat(v) for k, v in m.metadata.items()}
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        M.viz.plot_equation_terms(m, {"x_term": {"vars": list(xv)}, "y_term": {"vars": list(yv), "label": "Y"}}, color_var=color, output_dir=str(S.dir), filename="a.png")
        fs = list(S.dir.rglob("*.png"))
        if any(k not in D for k in list(xv) + list(yv) + [color]):
            I.check(not fs, "nothing is drawn from missing data")
            I.reach()
            return
        fig, _ = shown_in(None, S)
    pts = next(points(a) for a in fig.axes if points(a) is not None)
    hb = next(bars(a) for a in fig.axes if bars(a) is not None)
    I.check(len(pts) == len(hb) == 4, "one point per sample")

    def prod(names, i):
        v = 1
        for k in names:
            v = v * D[k][i]
        return v
    for i, (x, y, c) in enumerate(pts):
        I.eq(x, prod(xv, i), "horizontal term at the sample")
        I.eq(y, prod(yv, i), "vertical term at the sample")
        I.eq(c, D[color][i], "colour at the sample")
        I.eq(hb[i], D[color][i], "histogram of the colouring variable")
    I.reach()


class Net:
    """any network: a value per training point"""

    def __init__(self, out):
        self.out = out

    def __call__(self, x):
        return types.SimpleNamespace(numpy=lambda: self.out)


def train_residual(I, M, n):
    """residual on training points"""
    m = Model()
    out = field(I, "net", (n, 1))
    m.Net = Net(np.asarray(out) if not I.symbolic else out)
    X = np.array([[10.0 + i, 50.0 - i] for i in range(n)])
    y, f, g = field(I, "y", (n, 1)), field(I, "f", (2, 2)), field(I, "g", (2, 2))
    with session(I, M, M.dlga.DLGAVizAdapter()) as S:
        M.viz.plot_residual_analysis(m, X, y, f, g, output_dir=str(S.dir))
        fig, _ = shown_in(None, S)
    pts = next(points(a) for a in fig.axes if points(a) is not None)
    I.check(len(pts) == n, "one point per training sample")
    for i, (a, b, c) in enumerate(pts):
        I.check((float(a), float(b)) == (X[i, 1], X[i, 0]), "training sample at its time and place")
        I.eq(c, flat(y)[i] - flat(out)[i], "colour is the sample's residual")
    hb = next(bars(a) for a in fig.axes if bars(a) is not None)
    I.check(len(hb) == 4, "the histogram counts every residual once")
    for a, b, c in zip(hb, flat(f), flat(g)):
        I.eq(a, b - c, "histogram of the residuals")
    I.reach()


# -- PySR -----------------------------------------------------------------------------------
def pysr(I, M, kind, n, source, col):
    """PySR parity and residual"""
    m = Model()
    X = field(I, "X", (n, 2))
    y = field(I, "y", (n, 1) if col else (n,))
    P = field(I, "P", (n, 1) if col else (n,))
    seen = []

    def predict(x):
        seen.append(x)
        return P
    m.predict = predict
    o = {}
    if source == "options":
        o = dict(X=X, y=y)
        m.X_train_, m.y_train_ = X + 1, y + 1
    else:
        m.X_train_, m.y_train_ = X, y
        if source == "half":
            o = dict(X=X + 1)
    with session(I, M, M.pysr.PySRVizAdapter()) as S:
        res = M.core.render(M.core.VizRequest(kind, m, dict(o, output_dir=str(S.dir))))
        fig = drawn(S, res, I)
    I.check(len(seen) == 1 and np.shape(seen[0]) == (n, 2), "predictions for the samples shown")
    for a, b in zip(flat(seen[0]), flat(X)):
        I.eq(a, b, "predictions for the samples shown")
    Y, Q = flat(y), flat(P)
    if kind == "parity":
        ax = next(a for a in fig.axes if points(a) is not None)
        px = "pred" in ax.xlabel.lower()
        I.check(px != ("pred" in ax.ylabel.lower()), "axes say which is predicted")
        pts = points(ax)
        I.check(len(pts) == n, "one point per sample")
        for i, (a, b, _) in enumerate(pts):
            I.eq(b if px else a, Y[i], "actual value of the sample")
            I.eq(a if px else b, Q[i], "predicted value of the sample")
    else:
        hb = next(bars(a) for a in fig.axes if bars(a) is not None)
        I.check(len(hb) == n, "the histogram counts every residual once")
        for i in range(n):
            I.eq(hb[i], Y[i] - Q[i], "histogram of the residuals")
        I.eq(res.metadata["residual_mean"] * n, sum(a - b for a, b in zip(Y, Q)), "mean residual")
    I.reach()


def nothing(I, M, adapter, kind, attrs):
    """without the data a plot is refused, not made up"""
    m = Model()
    for k, v in attrs.items():
        setattr(m, k, v)
    ad = {"sga": M.sga.SGAVizAdapter, "dlga": M.dlga.DLGAVizAdapter, "pysr": M.pysr.PySRVizAdapter}[adapter]()
    I.real("unused", 0, 1)
    with session(I, M, ad) as S:
        res = M.core.render(M.core.VizRequest(kind, m, dict(output_dir=str(S.dir))))
        I.check(not res.has_content and len(res.warnings) > 0, "no plot, and a reason")
        I.check(not any(p.is_file() for p in S.dir.rglob("*")), "nothing is written")
    I.reach()


L1 = ("legacy", "xt", "tx", "lhsy")
LN = ("xyt", "xty", "tyx")
L3 = ("xyzt", "ztxy", "wxyzt")
NO = [dict(adapter="sga", kind=k, attrs={}) for k in ("field_comparison", "time_slices", "parity", "residual")] + \
     [dict(adapter="dlga", kind=k, attrs=a) for k, a in (("training_curve", {}), ("validation_curve", {"val_loss_history": []}), ("search_evolution", {}), ("optimization", {"evolution_history": []}),
      ("field_comparison", {}), ("time_slices", {}), ("residual", {}), ("derivative_relationships", {}), ("parity", {}), ("derivative_relationships", dict(Chrom=[[[0]]], coef=[[[1.0]]], name=["u_tt"], user_operators=["u"], metadata={"u": [1.0, 2.0]})),
      ("parity", dict(Chrom=[[[0]]], coef=[[[1.0]]], name=["u_tt"], user_operators=["u"], metadata={"u": [1.0, 2.0]})))] + \
     [dict(adapter="pysr", kind=k, attrs=a) for k in ("parity", "residual") for a in ({}, {"X_train_": [[1.0], [2.0], [3.0]], "y_train_": [1.0, 2.0]})]

HARNESSES = [
    H(sga_field, [dict(layout=l) for l in L1 + LN] + [dict(layout=l, nt=2, descending=True) for l in ("tx", "xty")] +
      [dict(layout=l, nt=2, opts=o) for l, o in zip(L3, ({}, {"slice_axis": 0, "slice_index": 1}, {"slice_axis": 1}))], limit=60,
      bounds="1-4 space dimensions in every stored order of axes, 2-4 times; any field values"),
    H(sga_slices, [dict(layout=l, opts=o) for l, o in zip(L1 + LN, ({}, {"slice_times": [8.0, 2.9, 99.0]}, {"slice_count": 2}, {"slice_count": 1}, {"slice_times": [5.2]}, {}, {"slice_times": [-7.0, 11.0, 8.1]}))] +
      [dict(layout="xt", opts={"slice_times": []}), dict(layout="tx", nt=5, opts={"slice_count": 5}, descending=True)] +
      [dict(layout=l, nt=2, opts=o) for l, o in zip(L3, ({}, {"slice_axis": 0, "slice_index": 1}, {"slice_axis": 1}))], limit=60,
      bounds="requested times on, between and outside the grid; 1-4 space dimensions"),
    H(sga_parity, [dict(layout="xt", mode=k) for k in ("metadata", "original", "noorigin", "small")] + [dict(layout="tx", mode="original", form="column"), dict(layout="xyt", mode="metadata", form="flat", nt=2)], limit=60, bounds="12-24 samples"),
    H(sga_residual, [dict(layout=l) for l in L1 + LN] + [dict(layout=l, nt=2) for l in ("xyzt", "ztxy")], thorough=[dict(layout=l, nt=2) for l in L1 + LN + L3], limit=60, thorough_limit=300, bounds="1-4 space dimensions, every stored order"),
    H(losses, [dict(which_=w, n=3, how=h) for w in ("training", "validation") for h in ("facade", "legacy")], limit=30, bounds="3-4 epochs, rendered twice"),
    H(evolution, [dict(n=n, how=h) for n in (1, 3) for h in ("facade", "legacy")], limit=30, bounds="1-3 generations"),
    H(optimization, [dict(n=3, keys=k) for k in (["fitness", "complexity", "population_size", "unique_modules"], ["objective"], ["fitness", "population_size"], ["fitness", "unique_modules"])] +
      [dict(n=n, keys=["fitness", "population_size", "unique_modules"], how="legacy") for n in (1, 2, 3)], limit=60, bounds="1-3 steps"),
    H(dlga_field, [dict(nx=3, nt=2, how=h) for h in ("facade", "legacy")] + [dict(nx=2, nt=3, how="facade", names=("u_true", "u_pred"))], limit=30, bounds="3x2 and 2x3 fields, drawn twice into the same place"),
    H(dlga_slices, [dict(nx=3, nt=4, times=t, how="facade") for t in (None, 2, 1, 9, [5.0, 2.0], [3.4, 10.0], [11.0])] + [dict(nx=2, nt=5, times=[0, 0.5, 1], how="legacy"), dict(nx=3, nt=4, times=[0.5], how="legacy")], limit=30, bounds="2-5 times, requested on, between and outside the grid"),
    H(dlga_residual, [dict(shape=(4,), coord=c, own=o) for c, o in ((0, 0), (1, 1), (2, 0))] + [dict(shape=(3, 1), coord=0, own=0), dict(shape=(2, 2), coord=0, own=1)], limit=40, bounds="3-4 samples"),
    H(relationships, [dict(chrom=c, how="facade", top=t) for c, t in (("two", None), ("cube", 4), ("four", 2), ("stray", None), ("missing", None), ("five", None), ("single", 0))] +
      [dict(chrom=c, how="legacy", top=t) for c, t in (("two", None), ("four", 3), ("stray", None), ("five", 5))] + [dict(chrom="two", how="facade", top=1, shape=(2, 2))], limit=40, bounds="equations of 1-5 terms, 3-4 samples"),
    H(dlga_parity, [dict(chrom=c, how="facade") for c in ("two", "cube", "single", "four", "stray", "missing")] + [dict(chrom="two", how="facade", column=False), dict(chrom="single", how="facade", shape=(2, 2))] +
      [dict(chrom=c, how="legacy", shape=(2,)) for c in ("two", "cube", "four")], limit=60, bounds="equations of 1-4 terms with any coefficients, 3-4 samples"),
    H(terms_plot, [dict(xv=["u", "u_x"], yv=["u_t"], color="u_xx"), dict(xv=["u_xx"], yv=["u", "u", "u_t"], color="u_t"), dict(xv=["u_xx", "v"], yv=["u_t"], color="u_t"), dict(xv=["u"], yv=["u_t"], color="w")], limit=30, bounds="products of up to 3 variables, 4 samples"),
    H(train_residual, [dict(n=3)], limit=30, bounds="3 training samples"),
    H(pysr, [dict(kind=k, n=3, source=s, col=c) for k in ("parity", "residual") for s, c in (("options", 0), ("model", 1), ("half", 0))], limit=30, bounds="3 samples, data from the request or the model"),
    H(nothing, NO, limit=10, bounds="every plot without its data"),
]

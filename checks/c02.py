"""C02: the dataset container keeps coordinates and values together"""
import contextlib
import types
from unittest import mock

import numpy as np

from symx.runner import H
from .env import fake_numpy_random, quiet, obj, grid1

ASSUMPTIONS = ["coordinates and field values are exact reals",
               "random draws are arbitrary values of their documented range",
               "the bivariate spline is an arbitrary function of (t, x) in the symbolic run; replays use the real one",
               ".mat reading is replaced by an in-memory dictionary"]


def load():
    import importlib
    M = types.SimpleNamespace()
    M.base = importlib.import_module("kd.dataset._base")
    M.pkg = importlib.import_module("kd.dataset")
    M.runner = importlib.import_module("kd.runner")
    return M


def mkset(I, M, nx, nt, inc=True):
    x = grid1(I, nx, "x") if inc else obj(I, [I.real(f"x{i}") for i in range(nx)])
    t = grid1(I, nt, "t") if inc else obj(I, [I.real(f"t{i}") for i in range(nt)])
    u = I.array("u", (nx, nt))
    return x, t, u, M.base.PDEDataset("eq", x=x.copy(), t=t.copy(), usol=u.copy())


def is_grid_point(I, x, t, u, p, v):
    """some grid node carries exactly this (x, t, value)"""
    return I.any([I.all(I.same(p[0], x[i]), I.same(p[1], t[j]), I.same(v, u[i, j]))
                  for i in range(len(x)) for j in range(len(t))])


def sampling(I, M, method, nx, nt, k):
    """each sample's value sits at its own point; amount, distinctness, bounds"""
    x, t, u, d = mkset(I, M, nx, nt)
    with fake_numpy_random(I), quiet():
        pts, vals = d.sample(k, method=method)
    I.check(np.shape(vals)[1:] == (1,) and np.shape(pts) == (len(vals), 2), "shape")
    if method == "random":
        I.check(len(vals) == (k if isinstance(k, int) else int(nx * nt * k)), "count")
    for r in range(len(vals)):
        I.check(is_grid_point(I, x, t, u, pts[r], vals[r][0]), f"row{r} is a dataset point")
    if method == "random":
        for a in range(len(vals)):
            for b in range(a):
                I.check(I.not_(I.all(I.same(pts[a][0], pts[b][0]), I.same(pts[a][1], pts[b][1]))),
                        "no point drawn twice")
    I.eq_all(d.usol, u, "data unchanged")


def sampling_spline(I, M, nx, nt, k):
    """spline samples are evaluated at the points they are returned with"""
    from symx import core
    x, t, u, d = mkset(I, M, nx, nt)

    class S:
        def __init__(self, tt, xx, uu, kind="linear"):
            assert len(tt) == nt and len(xx) == nx
            self.args = (tt, xx, uu)

        def __call__(self, tn, xn):
            return np.array([[core.ufun("spl", tn[j], xn[i]) for j in range(len(tn))] for i in range(len(xn))],
                            dtype=object)
    patch = mock.patch.object(M.base, "interp2d", S, create=True) if I.symbolic else contextlib.nullcontext()
    with quiet(), patch:
        pts, vals = d.sample(k, method="spline")
        if I.concrete:
            from scipy.interpolate import interp2d
            f = interp2d(t, x, u, kind="cubic")
    for r in range(len(vals)):
        ref = core.ufun("spl", pts[r][1], pts[r][0]) if I.symbolic else float(f(pts[r][1], pts[r][0])[0])
        I.eq(vals[r][0], ref, f"spline value at its own point {r}", rtol=1e-4, atol=1e-6)


def mesh(I, M, nx, nt):
    """full mesh lists every point once with its value; domain bounds are minimum and maximum"""
    x, t, u, d = mkset(I, M, nx, nt, inc=False)
    g = d.mesh()
    flat = np.asarray(d.usol).reshape(-1)
    I.check(np.shape(g) == (nx * nt, 2), "shape")
    for i in range(nx):
        for j in range(nt):
            I.eq(g[i * nt + j][0], x[i], "mesh x")
            I.eq(g[i * nt + j][1], t[j], "mesh t")
            I.eq(flat[i * nt + j], u[i, j], "flattened value order")
    lo, hi = d.mesh_bounds()
    b = d.get_boundaries()
    for ax, c, k in (("x", x, 0), ("t", t, 1)):
        for v in c:
            I.check(I.le(b[ax][0], v), "lower boundary")
            I.check(I.le(v, b[ax][1]), "upper boundary")
            I.check(I.le(lo[k], v), "mesh lower bound")
            I.check(I.le(v, hi[k]), "mesh upper bound")
        I.check(I.any([I.same(b[ax][0], v) for v in c]), "boundary attained")
        I.check(I.any([I.same(b[ax][1], v) for v in c]), "boundary attained")
        I.check(I.any([I.same(lo[k], v) for v in c]), "mesh bound attained")
        I.check(I.any([I.same(hi[k], v) for v in c]), "mesh bound attained")


def point_access(I, M, nx, nt):
    """index access, negative and out-of-range indices"""
    x, t, u, d = mkset(I, M, nx, nt)
    i = I.int("i", -2, nx + 1)
    j = I.int("j", -2, nt + 1)
    ii, jj = int(i), int(j)
    ok = 0 <= ii < nx and 0 <= jj < nt
    try:
        a, b, c = d.get_datapoint(ii, jj)
        got = True
    except IndexError:
        got = False
    I.check(got == ok, "in-range indices answered, others refused")
    if ok:
        I.eq(a, x[ii], "x")
        I.eq(b, t[jj], "t")
        I.eq(c, u[ii, jj], "u")
    g = d.get_data()
    I.eq_all(g["x"], x, "x")
    I.eq_all(g["t"], t, "t")
    I.eq_all(g["usol"], u, "usol")


def ranges(I, M, nx, nt):
    """range selection returns exactly the points in range"""
    x, t, u, d = mkset(I, M, nx, nt)
    x0, x1 = I.real("xlo"), I.real("xhi")
    t0, t1 = I.real("tlo"), I.real("thi")
    I.require(x0 <= x1)
    I.require(t0 <= t1)
    r = d.get_range((x0, x1), (t0, t1))
    kx = [i for i in range(nx) if bool(I.all(x0 <= x[i], x[i] < x1))]
    kt = [j for j in range(nt) if bool(I.all(t0 <= t[j], t[j] < t1))]
    I.check(len(r["x"]) == len(kx), "x subset size")
    I.check(len(r["t"]) == len(kt), "t subset size")
    I.check(np.shape(r["usol"]) == (len(kx), len(kt)), "usol subset shape")
    I.eq_all(r["x"], x[kx], "x subset")
    I.eq_all(r["t"], t[kt], "t subset")
    I.eq_all(r["usol"], u[np.ix_(kx, kt)], "usol subset")


def derivative(I, M, nx, nt):
    """derivative along the named axis with the axis' own spacing"""
    x, t, u, d = mkset(I, M, nx, nt)
    for ax, k, n in (("x", 0, nx), ("t", 1, nt)):
        g = d.get_derivative(ax)
        for i in range(nx):
            for j in range(nt):
                q = (i, j)[k]

                def at(m):
                    return u[m, j] if k == 0 else u[i, m]
                if q == 0:
                    ref = at(1) - at(0)
                elif q == n - 1:
                    ref = at(n - 1) - at(n - 2)
                else:
                    ref = (at(q + 1) - at(q - 1)) / 2
                I.eq(g[i, j], ref, f"d/d{ax}")


def shapes_2d(I, M):
    """constructor accepts exactly the consistent shapes (2-D mode)"""
    nx, nt = int(I.int("nx", 1, 3)), int(I.int("nt", 1, 3))
    a, b = int(I.int("a", 1, 3)), int(I.int("b", 1, 3))
    as_dict = bool(I.bool("as_dict"))
    par = int(I.int("par", 0, 5))
    spot = np.ones((a, b))
    spot[-1, 0] = np.nan
    x, t, u = np.arange(nx) * 1.0, np.arange(nt) * 1.0, np.arange(a * b).reshape(a, b) * 1.0
    kw = dict(pde_data={"x": x.reshape(1, -1), "t": t.reshape(-1, 1), "usol": u}) if as_dict else dict(x=x, t=t, usol=u)
    pf = {0: None, 1: np.ones((a, b)), 2: np.ones((a + 1, b)), 3: np.full((a, b), np.nan), 4: spot, 5: np.where(np.isnan(spot), -np.inf, spot)}[par]
    if pf is not None:
        kw["param_fields"] = {"nu": pf}
    try:
        d = M.base.PDEDataset("eq", **kw)
        ok = True
    except ValueError:
        ok = False
    I.check(ok == ((a, b) == (nx, nt) and par in (0, 1)), "accepted iff consistent")
    if ok:
        I.check(d.usol.shape == (len(d.x), len(d.t)), "shape relation")
        I.check(bool((d.usol == u).all()) and bool((d.u == u).all()), "values kept")
        I.check(d.get_size() == (a, b), "size")
        I.check((pf is None and d.param_fields == {}) or bool((d.param_fields["nu"] == 1).all()), "params kept")


def shapes_nd(I, M, ndim):
    """N-D constructor refuses each inconsistent shape"""
    names = ["x", "y", "t"][:ndim] if ndim < 3 else ["x", "y", "t"]
    dims = [int(I.int(f"n{k}", 1, 2)) for k in range(ndim)]
    coords = {nm: np.arange(n) * 1.0 for nm, n in zip(names, dims)}
    bad = I.choose("defect", ["none", "shape", "second", "dup", "missing", "extra", "target", "lhs", "noaxis",
                              "nofields", "empty", "param", "hole"])
    shp = list(dims)
    k = int(I.int("k", 0, ndim - 1))
    fields = {"u": np.arange(int(np.prod(shp))).reshape(shp) * 1.0, "v": np.zeros(shp)}
    order, target, lhs, kw = list(names), "u", names[-1], {}
    expect = bad == "none"
    if bad == "shape":
        shp[k] += 1
        fields = {q: np.zeros(shp) for q in fields}
    elif bad == "second":
        shp[k] += 1
        fields["v"] = np.zeros(shp)
    elif bad == "dup":
        order = order + [order[k]]
    elif bad == "missing":
        order = [o for o in order if o != order[k]]
    elif bad == "extra":
        order = order + ["zz"]
    elif bad == "target":
        target = "w"
    elif bad == "lhs":
        lhs = "zz"
    elif bad == "noaxis":
        order = None
    elif bad == "nofields":
        fields = None
    elif bad == "empty":
        fields = {}
    elif bad == "param":
        shp[k] += 1
        kw["param_fields"] = {"p": np.zeros(shp)}
    elif bad == "hole":
        kw["param_fields"] = {"p": np.zeros(shp), "q": np.zeros(shp)}
        kw["param_fields"]["q"].reshape(-1)[min(k, int(np.prod(shp)) - 1)] = np.inf
    try:
        d = M.base.PDEDataset("eq", fields_data=fields, coords_1d=coords, axis_order=order, target_field=target,
                              lhs_axis=lhs, **kw)
        ok = True
    except ValueError:
        ok = False
    I.check(ok == expect, f"accepted iff consistent ({bad})")
    if ok:
        I.check(bool((d.usol == fields["u"]).all()) and d.usol.shape == tuple(dims), "target field exposed")
        b = d.get_boundaries()
        I.check(sorted(b) == sorted(names), "boundaries for every axis")
        for nm in names:
            I.check(b[nm] == (coords[nm].min(), coords[nm].max()), "boundary values")


def orientation(I, M, nx, nt, transposed, who):
    """file loaders: value (i, j) of the result belongs to (x_i, t_j)"""
    x, t = grid1(I, nx, "x"), grid1(I, nt, "t")
    u = I.array("u", (nx, nt))
    raw = {"x": x.reshape(1, -1), "t": t.reshape(-1, 1), "usol": u.T.copy() if transposed else u.copy()}
    with quiet():
        if who == "package":
            with mock.patch.object(M.base, "load_mat_file", lambda p: raw):
                d = M.base.load_pde_dataset("whatever.mat")
        else:
            with mock.patch.object(M.base, "load_mat_file", lambda p: raw), \
                    mock.patch("os.path.exists", lambda p: True):
                d = M.runner.load_dataset({"dataset_file": "/nonexistent/a.mat", "file_config": {}})
    I.check(d is not None, "loaded")
    I.eq_all(d.x, x, "x")
    I.eq_all(d.t, t, "t")
    I.eq_all(d.usol, u, "usol[i,j] at (x_i,t_j)")


class _Files:
    """in-memory stand-in for the data directory: file name -> arrays; unknown names are an error"""

    def __init__(self, table):
        self.table, self.asked = table, []

    def __call__(self, path, *a, **k):
        from pathlib import Path
        path = Path(str(path))
        self.asked.append(path)
        if path.name not in self.table:
            raise FileNotFoundError(path)
        return self.table[path.name]


def _decoys(I, keep, nx, nt):
    """other variables stored in the same file, never to be used"""
    out = {}
    for k, shp in (("x", (1, nx)), ("t", (nt, 1)), ("tt", (nt, 1)), ("usol", (nx, nt)), ("uu", (nx, nt)), ("u", (nx, nt)),
                   ("U", (nx, nt))):
        if k not in keep:
            out[k] = I.array("decoy_" + k, shp)
    return out


def registered(I, M, name, nx, nt, transposed):
    """load_pde: the registered file's own coordinates and values, properly oriented and labelled"""
    info = dict(M.pkg.get_dataset_info(name))
    x, t = grid1(I, nx, "x"), grid1(I, nt, "t")
    u = I.array("u", (nx, nt))
    store = u.T.copy() if transposed else u.copy()
    epi = I.real("epi", 0, 1)
    cont = contextlib.ExitStack()
    kind = "files" if "files" in info else "npy" if info["file"].endswith(".npy") else "mat"
    if kind == "mat":
        ks = info["keys"]
        f = _Files({info["file"]: {ks["x_key"]: x.reshape(1, -1), ks["t_key"]: t.reshape(-1, 1), ks["u_key"]: store,
                                   **_decoys(I, ks.values(), nx, nt)}})
        cont.enter_context(mock.patch.object(M.base, "load_mat_file", f))
    else:
        if kind == "files":
            f = _Files({info["files"]["u"]: store, info["files"]["x"]: x.reshape(-1, 1), info["files"]["t"]: t.reshape(1, -1)})
        else:
            f = _Files({info["file"]: store})
            small = dict(M.pkg.PDE_REGISTRY)
            small[name] = dict(info, shape=(nx, nt))
            cont.enter_context(mock.patch.dict(M.pkg.PDE_REGISTRY, small))
        cont.enter_context(mock.patch.object(np, "load", f))
        if I.symbolic:
            real = np.asarray
            cont.enter_context(mock.patch.object(M.pkg.np, "asarray", lambda a, dtype=None: real(a)))
    with cont, quiet():
        d = M.pkg.load_pde(name, epi=epi)
    I.check(d is not None, "loaded")
    I.check(all(q.parent.name == "data" and q.parent.parent.name == "dataset" for q in f.asked) and len(f.asked) > 0,
            "read from the package data directory")
    I.eq_all(d.usol, u, "usol[i,j] at (x_i,t_j)")
    I.eq_all(d.u, u, "u is usol")
    if kind == "npy":
        (a, b), (c, e) = info["domain"]["x"], info["domain"]["t"]
        for i in range(nx):
            I.eq(d.x[i], a + (b - a) * i / max(nx - 1, 1), "x spans its registered range", rtol=1e-9)
        for j in range(nt):
            I.eq(d.t[j], c + (e - c) * j / max(nt - 1, 1), "t spans its registered range", rtol=1e-9)
    else:
        I.eq_all(d.x, x, "x")
        I.eq_all(d.t, t, "t")
    I.check(d.domain == info.get("domain"), "registered domain")
    I.check(d.equation_name == name and d.registry_name == name, "named after the registry entry")
    I.check(d.legacy_name == (info.get("aliases") or {}).get("legacy", name), "legacy alias")
    I.eq(d.epi, epi, "requested epi")


def file_keys(I, M, nx, nt, transposed):
    """load_pde_dataset and the legacy loaders use exactly the named variables of the named file"""
    x, t = grid1(I, nx, "x"), grid1(I, nt, "t")
    u = I.array("u", (nx, nt))
    who = I.choose("who", ["custom", "burgers", "kdv"])
    fn, kx, kt, ku = {"custom": ("mine.mat", "space", "clock", "field"), "burgers": ("burgers2.mat", "x", "t", "usol"),
                      "kdv": ("KdV_equation.mat", "x", "tt", "uu")}[who]
    tr = transposed and who == "custom"
    f = _Files({fn: {kx: x.reshape(1, -1), kt: t.reshape(-1, 1), ku: u.T.copy() if tr else u.copy(),
                     **_decoys(I, (kx, kt, ku), nx, nt)}})
    with mock.patch.object(M.base, "load_mat_file", f), quiet():
        if who == "custom":
            d = M.base.load_pde_dataset(fn, "mine", kx, kt, ku, {"x": (0, 1)}, 0.25)
            I.check(d is not None and d.equation_name == "mine" and d.domain == {"x": (0, 1)} and d.epi == 0.25, "labels")
        else:
            d = getattr(M.base, f"load_{who}_equation")()
            I.check(who in d.equation_name, "labels")
    I.eq_all(d.x, x, "x")
    I.eq_all(d.t, t, "t")
    I.eq_all(d.usol, u, "usol[i,j] at (x_i,t_j)")


def complex_file(I, M, nx, nt):
    """a complex-valued stored field is represented by its real part"""
    re, im = I.array("re", (nx, nt), -4, 4), I.array("im", (nx, nt), -4, 4)
    if I.symbolic:
        class C(np.ndarray):
            pass
        u, ctx = re.copy(), mock.patch.object(M.base.np, "real", lambda a: a)
    else:
        u, ctx = np.asarray(re, float) + 1j * np.asarray(im, float), contextlib.nullcontext()
    with ctx:
        d = M.base.PDEDataset("eq", x=np.arange(nx) * 1.0, t=np.arange(nt) * 1.0, usol=u)
    I.eq_all(d.usol, re, "real part")


def regression(I, M, name, n):
    """tabular data: feature and target columns as registered, row by row"""
    info = M.pkg._REGRESSION_REGISTRY[name]
    tab = I.array("tab", (n, 4))
    f = _Files({info["file"]: tab.copy()})
    with mock.patch.object(np, "load", f):
        X, y, meta = M.pkg.load_regression(name)
    I.check(np.shape(X) == (n, 2) and np.shape(y) == (n,), "shapes")
    for r in range(n):
        I.eq(X[r, 0], tab[r, 0], "first feature")
        I.eq(X[r, 1], tab[r, 1], "second feature")
        I.eq(y[r], tab[r, 2], "target")
    I.check(list(meta["var_names"]) == ["R_F", "r"] and meta["target_name"] == info["target_name"], "names in column order")


def field_set(I, M, nx, ny, nt):
    """N-D container: every field, axis and the target are the arrays given, in the declared order"""
    order = [["x", "y", "t"], ["t", "x", "y"], ["y", "t", "x"]][int(I.int("order", 0, 2))]
    c = {"x": grid1(I, nx, "x"), "y": grid1(I, ny, "y"), "t": grid1(I, nt, "t")}
    shp = tuple(len(c[a]) for a in order)
    u, v = I.array("u", shp), I.array("v", shp)
    target = "v" if bool(I.bool("tv")) else "u"
    given = {"u": u.copy(), "v": v.copy()}
    kw = dict(fields_data=given, coords_1d={k: q.copy() for k, q in c.items()}, axis_order=list(order), lhs_axis="t")
    if target != "u" or bool(I.bool("explicit")):
        kw["target_field"] = target
    d = M.base.PDEDataset("eq", **kw)
    I.check(list(d.axis_order) == order and d.target_field == target and d.lhs_axis == "t", "labels")
    I.eq_all(d.fields_data["u"], u, "field u")
    I.eq_all(d.fields_data["v"], v, "field v")
    I.eq_all(d.usol, u if target == "u" else v, "target")
    I.eq_all(d.u, u if target == "u" else v, "target alias")
    for a in c:
        I.eq_all(d.coords_1d[a], c[a], f"axis {a}")
    I.eq_all(d.x, c["x"], "x alias")
    I.eq_all(d.t, c["t"], "t alias")
    b = d.get_boundaries()
    for a in c:
        I.eq(b[a][0], c[a][0], f"{a} lower")
        I.eq(b[a][1], c[a][-1], f"{a} upper")


NAMES = ["chafee-infante", "burgers", "burgers-reflib", "kdv", "PDE_divide", "PDE_compound", "fisher", "fisher_linear"]

HARNESSES = [
    H(sampling, [dict(method="random", nx=2, nt=3, k=2), dict(method="random", nx=3, nt=2, k=1),
                 dict(method="random", nx=2, nt=2, k=0.5), dict(method="uniform", nx=3, nt=4, k=4),
                 dict(method="uniform", nx=4, nt=2, k=4)],
      thorough=[dict(method="random", nx=3, nt=3, k=3), dict(method="uniform", nx=5, nt=4, k=16)],
      bounds="grids up to 3x3 (random, every draw order) / 5x4 (uniform); all coordinates and values"),
    H(sampling_spline, [dict(nx=5, nt=4, k=9), dict(nx=4, nt=5, k=4)], bounds="grids 5x4, 9 spline samples", witnesses=0),
    H(mesh, [dict(nx=2, nt=3), dict(nx=3, nt=2), dict(nx=1, nt=3)], bounds="grids up to 3x3, unsorted coordinates allowed",
      thorough=[dict(nx=3, nt=4)]),
    H(point_access, [dict(nx=2, nt=3)], thorough=[dict(nx=4, nt=3)], bounds="2x3 grid, indices -2..n+1"),
    H(ranges, [dict(nx=3, nt=2)], thorough=[dict(nx=4, nt=4)], bounds="3x2 (thorough 4x4) increasing grids, any range"),
    H(derivative, [dict(nx=3, nt=4)], thorough=[dict(nx=5, nt=5)], bounds="3x4 fields"),
    H(shapes_2d, bounds="every size 1..3 per axis against every array shape 1..3 x 1..3"),
    H(shapes_nd, [dict(ndim=2), dict(ndim=3)], bounds="2-3 axes of size 1..2, each listed defect on each axis"),
    H(orientation, [dict(nx=a, nt=b, transposed=tr, who=w) for a, b in ((2, 3), (3, 2)) for tr in (False, True)
                    for w in ("package", "runner")] +
      [dict(nx=3, nt=3, transposed=False, who=w) for w in ("package", "runner")],
      bounds="2x3, 3x2 in both orientations and 3x3"),
    H(registered, [dict(name=n, nx=a, nt=b, transposed=tr) for n in NAMES for a, b, tr in ((2, 3, False), (3, 2, True))],
      bounds="each registered benchmark, 2x3 and transposed 3x2 stored values"),
    H(file_keys, [dict(nx=2, nt=3, transposed=False), dict(nx=3, nt=2, transposed=True)], bounds="2x3 / 3x2 stored values"),
    H(complex_file, [dict(nx=2, nt=3)], bounds="2x3 complex field", witnesses=2),
    H(regression, [dict(name=n, n=3) for n in ("tlc_cc_t1", "tlc_cc_t2")], bounds="3x4 tables"),
    H(field_set, [dict(nx=2, ny=3, nt=2)], thorough=[dict(nx=3, ny=2, nt=4)], bounds="2x3x2 (thorough 3x2x4), 3 axis orders"),
]

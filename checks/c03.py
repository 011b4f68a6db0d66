"""C03: data adapters hand the solvers the dataset's own values, oriented as the solver expects"""
import contextlib
import itertools
import types
from unittest import mock

import numpy as np

from symx.runner import H
from . import fdref
from .env import fake_numpy_random, quiet, grid1, obj

ASSUMPTIONS = ["random draws (subsets, noise, latin hypercube points) are arbitrary values of their range",
               "time grids are exactly uniform (or clearly not) unless stated",
               "spatial spacings of N-D grids exceed 0.001 (the adapter treats spacings below 1e-8 as zero)"]


def load():
    import importlib
    M = types.SimpleNamespace()
    M.base = importlib.import_module("kd.dataset._base")
    M.adapter = importlib.import_module("kd.model.discover.adapter")
    M.sga = importlib.import_module("kd.model.sga.adapter")
    M.data = importlib.import_module("kd.data")
    return M


def legacy(I, M, nx, nt, npar=0, uniform=True):
    x = grid1(I, nx, "x")
    t = grid1(I, nt, "t", uniform)
    u = I.array("u", (nx, nt))
    par = {f"k{i}": I.array(f"p{i}", (nx, nt)) for i in range(npar)}
    d = M.base.PDEDataset("eq", x=x.copy(), t=t.copy(), usol=u.copy(), param_fields={k: v.copy() for k, v in par.items()} or None)
    return x, t, u, par, d


def nd(I, M, order, lhs, size, npar=0, other=False):
    """N-D dataset; size: axis -> length"""
    c = {a: grid1(I, size[a], a, uniform=(a == lhs)) for a in order}
    for a in order:
        for p in range(size[a] - 1):
            I.require(c[a][p + 1] - c[a][p] > 0.001)
    shape = tuple(size[a] for a in order)
    f = {"u": I.array("u", shape)}
    if other:
        f = {"w": I.array("w", shape), "u": f["u"]}
    par = {f"k{i}": I.array(f"p{i}", shape) for i in range(npar)}
    d = M.base.PDEDataset("eq", fields_data={k: v.copy() for k, v in f.items()}, coords_1d={k: v.copy() for k, v in c.items()},
                          axis_order=list(order), target_field="w" if other else "u", lhs_axis=lhs,
                          param_fields={k: v.copy() for k, v in par.items()} or None)
    return c, f["w" if other else "u"], par, d


def unchanged(I, d, u, par, x=None, t=None):
    I.eq_all(d.usol, u, "dataset field unchanged")
    for k, v in par.items():
        I.eq_all(d.param_fields[k], v, "parameter unchanged")
    if x is not None:
        I.eq_all(d.x, x, "x unchanged")
        I.eq_all(d.t, t, "t unchanged")


def params(I, data, par, perm=None):
    if not par:
        I.check(not data.get("param_data") and not data.get("n_param_var"), "no parameters invented")
        return
    I.check(data["n_param_var"] == len(par) == len(data["param_data"]), "parameter count")
    I.check(list(data["param_names"]) == list(par), "parameter names")
    for n, a in zip(data["param_names"], data["param_data"]):
        ref = par[n] if perm is None else np.transpose(par[n], perm)
        I.eq_all(a, ref, f"parameter {n}")


def regular(I, M, nx, nt, npar):
    """regular DISCOVER task data: field, coordinates, left-hand side at the same points"""
    x, t, u, par, d = legacy(I, M, nx, nt, npar)
    data = M.adapter.DiscoverRegularAdapter(d).get_data()
    I.eq_all(data["u"], u, "field")
    I.check(len(data["X"]) == 1 and data["n_input_dim"] == 1, "one spatial axis")
    I.eq_all(data["X"][0], np.asarray(x).reshape(-1, 1), "coordinate")
    h = t[1] - t[0]
    I.check(np.shape(data["ut"]) == (nx, nt), "shape")
    for i in range(nx):
        for j, v in enumerate(fdref.d1([u[i, k] for k in range(nt)], h)):
            I.eq(data["ut"][i, j], v, "time derivative")
    params(I, data, par)
    unchanged(I, d, u, par, x, t)


def regular_nd(I, M, order, lhs, npar, other=False):
    """the same in N-D, any left-hand axis"""
    order = list(order)
    sp = [a for a in order if a != lhs]
    size = {a: 4 + i for i, a in enumerate(sp)}
    size[lhs] = 3
    c, u, par, d = nd(I, M, order, lhs, size, npar, other)
    data = M.adapter.DiscoverRegularAdapter(d).get_data()
    I.check(np.shape(data["u"]) == (size[lhs],) + tuple(size[a] for a in sp) == np.shape(data["ut"]), "time axis first")
    I.check(data["n_input_dim"] == len(sp) == len(data["X"]), "spatial dimension")
    for a, X in zip(sp, data["X"]):
        I.eq_all(X, np.asarray(c[a]).reshape(-1, 1), f"coordinate {a}")
    h = c[lhs][1] - c[lhs][0]
    for ix in itertools.product(*[range(size[a]) for a in sp]):
        pos = dict(zip(sp, ix))
        line = [u[tuple(k if a == lhs else pos[a] for a in order)] for k in range(size[lhs])]
        ref = fdref.d1(line, h)
        for k in range(size[lhs]):
            I.eq(data["u"][(k,) + ix], line[k], "field value at its own node")
            I.eq(data["ut"][(k,) + ix], ref[k], "time derivative at its own node")
    perm = [order.index(a) for a in [lhs] + sp]
    params(I, data, par, perm)
    I.eq_all(d.fields_data["w" if other else "u"], u, "dataset field unchanged")


def rejects(I, M, kind):
    """unusable data are refused, usable data accepted"""
    A = M.adapter.DiscoverRegularAdapter
    F = np.nan if I.choose("bad", [False, True]) else None
    if kind == "finite":
        x, t, u, par, d = legacy(I, M, 2, 3)
        i = I.choose("i", list(range(2)))
        j = I.choose("j", list(range(3)))
        if F is not None:
            d.usol[i, j] = np.inf if I.choose("inf", [False, True]) else np.nan
        bad = F is not None
    elif kind == "few_t":
        x, t, u, par, d = legacy(I, M, 2, 2 if F is not None else 3)
        bad = F is not None
    elif kind == "dt":
        x, t, u, par, d = legacy(I, M, 2, 4, uniform=True)
        k = I.choose("k", [1, 2, 3])
        if F is not None:
            gap = I.real("gap", 0.5, 4)
            I.require(gap > (t[1] - t[0]) * 0.5)
            tt = obj(I, list(t))
            tt[k:] = tt[k:] + gap
            d.t = tt
        bad = F is not None
    elif kind == "few_x":
        n = 3 if F is not None else 4
        ax = I.choose("ax", ["x", "y"])
        c, u, par, d = nd(I, M, "xyt", "t", {"x": 4, "y": 4, "t": 3, ax: n})
        bad = F is not None
    elif kind == "zero_dx":
        ax = I.choose("ax", ["x", "y"])
        c, u, par, d = nd(I, M, "txy", "t", {"x": 4, "y": 4, "t": 3})
        k = I.choose("k", [0, 1, 2])
        if F is not None:
            d.coords_1d[ax][k + 1] = d.coords_1d[ax][k]
        bad = F is not None
    elif kind == "finite_nd":
        c, u, par, d = nd(I, M, "xty", "t", {"x": 4, "y": 4, "t": 3})
        i = I.choose("i", [(0, 0, 0), (3, 1, 2), (2, 2, 3)])
        if F is not None:
            d.fields_data["u"][i] = np.nan
        bad = F is not None
    elif kind == "dim":
        x, t, u, par, d = legacy(I, M, 2, 3)
        try:
            A(d, n_input_dim=2 if F is not None else 1)
            I.check(F is None, "wrong dimension refused")
        except ValueError:
            I.check(F is not None, "right dimension accepted")
        return
    elif kind == "half":
        c, u, par, d = nd(I, M, "txy", "t", {"x": 4, "y": 4, "t": 3})
        if F is not None:
            setattr(d, I.choose("gone", ["fields_data", "coords_1d"]), None)
        bad = F is not None
        if I.choose("which", [False, True]):
            A = sparse_adapter(M)
    try:
        with fake_lhs(I, M):
            A(d)
        ok = True
    except ValueError:
        ok = False
    I.check(ok != bad, f"{kind}: refused exactly when unusable")


def sparse_adapter(M):
    return lambda d: M.adapter.DiscoverSparseAdapter(d, sample=1, colloc_num=1)


def sparse_rejects(I, M):
    """impossible sampling requests are refused, possible ones honoured"""
    is_nd = I.choose("nd", [False, True])
    if is_nd:
        c, u, par, d = nd(I, M, "tx", "t", {"x": 2, "t": 3})
    else:
        x, t, u, par, d = legacy(I, M, 2, 3, uniform=False)
    kind = I.choose("kind", ["sample", "ratio", "data_ratio", "spline", "cut"])
    kw, bad = {"colloc_num": 1}, None
    if kind == "sample":
        k = int(I.int("k", 1, 8))
        kw["sample"], bad = k, k > 6
    elif kind in ("ratio", "data_ratio", "spline"):
        r = I.choose("r", [-0.5, 0.0, 0.2, 1.0, 1.2])
        bad = not 0 < r <= 1
        if kind == "ratio":
            kw["sample_ratio"] = r
        elif kind == "data_ratio":
            kw.update(data_ratio=r, sample=2)
            bad = bad or is_nd
        else:
            kw.update(spline_sample=True, sample_ratio=r)
            bad = bad or is_nd
    else:
        q = I.choose("q", [-0.1, 0.0, 0.3, 0.5])
        kw.update(cut_quantile=q, sample=1)
        bad = is_nd or not 0 <= q < 0.5
    # the draws themselves are covered by the other harnesses
    with fake_lhs(I, M) as pts:
        pick = lambda a, size=None, replace=True, **k: _pick(a, size)
        pts["rng"].choice = pick
        with mock.patch.object(np.random, "choice", pick):
            try:
                M.adapter.DiscoverSparseAdapter(d, **kw)
                ok = True
            except (ValueError, NotImplementedError):
                ok = False
    I.check(ok != bad, f"{kind}: refused exactly when impossible")


def _pick(a, size):
    a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    if int(size) > len(a):
        raise ValueError("larger sample than population")
    return a[:int(size)]


def truth(I, M):
    """the reference equation handed to the solver is the registered one of the data set's name"""
    x, t, u, par, d = legacy(I, M, 2, 3)
    name = I.choose("name", ["burgers", "kdv", "chafee-infante", "unheard of"])
    given = I.choose("given", [None, "mul,u1,u1"])
    d.equation_name = name
    ref = {"burgers": "add,mul,u1,diff,u1,x1,diff2,u1,x1", "kdv": "add,mul,u1,diff,u1,x1,diff3,u1,x1",
           "chafee-infante": "add,add,u1,n3,u1,diff2,u1,x1"}.get(name)
    data = M.adapter.DiscoverRegularAdapter(d, **({"sym_true": given} if given else {})).get_data()
    I.check(data.get("sym_true") == (given or ref), "reference equation")


@contextlib.contextmanager
def fake_lhs(I, M):
    pts = {}

    def lhs(n, samples=None, **k):
        a = I.array("lhs", (samples, n), 0, 1)
        pts["a"] = a
        return a
    with mock.patch.object(M.data, "lhs", lhs), fake_numpy_random(I) as rng, quiet():
        pts["rng"] = rng
        yield pts


def rows(I, pts, vals, nodes, what, noise=None):
    """each row: a node of the grid with its own value -> list of candidate nodes"""
    I.check(np.shape(pts)[0] == np.shape(vals)[0] and np.shape(vals)[1:] == (1,), f"{what}: shape")
    for r in range(len(vals)):
        alts = []
        for p, v in nodes:
            cs = [I.same(pts[r][k], p[k]) for k in range(len(p))]
            if noise is None:
                cs.append(I.same(vals[r][0], v))
            alts.append(I.all(cs))
        I.check(I.any(alts), f"{what}: row {r} is a dataset point with its own value")


def sparse_checks(I, data, nodes, pts, colloc, n, all_coords, noise=None):
    """training and validation points partition the sample; collocation points stay in the domain"""
    ntr = int(n * 0.8)
    I.check(len(data["X_u_train"]) == len(data["u_train"]) == ntr and len(data["X_u_val"]) == len(data["u_val"]) == n - ntr, "80/20 split")
    rows(I, data["X_u_train"], data["u_train"], nodes, "train", noise)
    rows(I, data["X_u_val"], data["u_val"], nodes, "validation", noise)
    X = [list(r) for r in data["X_u_train"]] + [list(r) for r in data["X_u_val"]]
    for a in range(len(X)):
        for b in range(a):
            I.check(I.not_(I.all([I.same(X[a][k], X[b][k]) for k in range(len(X[a]))])), "no measurement used twice")
    mp = data["measured_points"]
    I.check(len(mp) == n, "requested number of measurements")
    for r in X:
        I.check(I.any([I.all([I.same(r[k], m[k]) for k in range(len(r))]) for m in mp]), "measurements are the sampled ones")
    Xf = data["X_f_train"]
    I.check(len(Xf) == colloc + ntr, "collocation count")
    for r in range(colloc):
        for k, c in enumerate(all_coords):
            lo, hi = c[0], c[len(c) - 1]
            I.eq(data["lb"][k], lo, "lower bound")
            I.eq(data["ub"][k], hi, "upper bound")
            I.check(I.all([lo <= Xf[r][k], Xf[r][k] <= hi]) if I.symbolic else bool(lo - 1e-9 <= Xf[r][k] <= hi + 1e-9), "collocation point in the domain")
            I.eq(Xf[r][k], lo + (hi - lo) * pts["a"][r, k], "collocation point spread over the domain", rtol=1e-5)
    for r in range(ntr):
        for k in range(len(all_coords)):
            I.check(I.same(Xf[colloc + r][k], data["X_u_train"][r][k]), "training points are collocation points")


def spline_ratio(I, M, nx, nt, ratio, sample=None):
    """line sampling: whole time lines at distinct positions, data_ratio of the positions"""
    x, t, u, par, d = legacy(I, M, nx, nt, 0, uniform=False)
    with fake_lhs(I, M):
        kw = {"sample": sample} if sample else {}
        if ratio is not None:
            kw["data_ratio"] = ratio
        data = M.adapter.DiscoverSparseAdapter(d, colloc_num=1, spline_sample=True, **kw).get_data()
    num = max(1, int(sample / nt)) if sample else max(1, int(nx * (ratio if ratio is not None else 0.1)))
    num = min(num, nx)
    mp = data["measured_points"]
    I.check(len(mp) == num * nt, "whole lines")
    for r in range(len(mp)):
        I.check(I.same(mp[r][1], t[r % nt]), "every time of the line")
        I.check(I.any([I.same(mp[r][0], v) for v in x]), "grid position")
        I.check(I.same(mp[r][0], mp[r - r % nt][0]), "one position per line")
        if r >= nt:
            I.check(mp[r][0] > mp[r - nt][0], "distinct positions")


def sparse(I, M, nx, nt, k, colloc, npar=0, spline=False):
    """sparse adapter: training, validation and collocation points with their own values, disjoint, within bounds"""
    x, t, u, par, d = legacy(I, M, nx, nt, npar, uniform=False)
    with fake_lhs(I, M) as pts:
        data = M.adapter.DiscoverSparseAdapter(d, colloc_num=colloc, spline_sample=spline,
                                               **({"sample": k} if isinstance(k, int) else {"sample_ratio": k})).get_data()
    nodes = [((x[i], t[j]), u[i, j]) for i in range(nx) for j in range(nt)]
    if spline:
        n = nt * (max(1, int(k / nt)) if isinstance(k, int) else max(1, int(nx * k)))
    else:
        n = k if isinstance(k, int) else max(1, int(nx * nt * k))
    sparse_checks(I, data, nodes, pts, colloc, n, [x, t])
    params(I, data, par)
    star(I, data, nodes, (nx, nt))
    unchanged(I, d, u, par, x, t)


def star(I, data, nodes, shape):
    I.check(np.shape(data["X_star"]) == (len(nodes), len(shape)) and np.shape(data["u_star"]) == (len(nodes), 1)
            and tuple(data["shape"]) == tuple(shape), "full grid shape")
    for r, (p, v) in enumerate(nodes):
        for k in range(len(p)):
            I.eq(data["X_star"][r][k], p[k], "full grid coordinates")
        I.eq(data["u_star"][r][0], v, "full grid values")


def sparse_cut(I, M, nx, nt, q):
    """cutting removes the same margin from coordinates and values"""
    x, t, u, par, d = legacy(I, M, nx, nt, 0, uniform=False)
    with fake_lhs(I, M) as pts:
        data = M.adapter.DiscoverSparseAdapter(d, colloc_num=1, sample=2, cut_quantile=q).get_data()

    def cut(n):
        m = int(np.floor(n * q))
        return (m, n - m) if n - 2 * m >= 2 else (0, n)
    (a, b), (e, f) = cut(nx), cut(nt)
    nodes = [((x[i], t[j]), u[i, j]) for i in range(a, b) for j in range(e, f)]
    sparse_checks(I, data, nodes, pts, 1, 2, [x[a:b], t[e:f]])
    star(I, data, nodes, (b - a, f - e))
    unchanged(I, d, u, par, x, t)


def sparse_ratio(I, M, nx, nt, ratio):
    """data_ratio keeps a subset of both splits and drops the discarded points from the collocation set"""
    x, t, u, par, d = legacy(I, M, nx, nt, 0, uniform=False)
    n = nx * nt
    with fake_lhs(I, M) as pts:
        # the draws are covered by the other harnesses; here one arbitrary subset selection per split
        real = pts["rng"].choice
        cnt = [0]

        def choice(a, size=None, replace=True, **k):
            cnt[0] += 1
            return np.arange(int(size)) if cnt[0] <= 2 else real(a, size, replace, **k)
        pts["rng"].choice = choice
        with mock.patch.object(np.random, "choice", choice):
            data = M.adapter.DiscoverSparseAdapter(d, colloc_num=2, sample=n, data_ratio=ratio).get_data()
    ntr = int(n * 0.8)
    keep, keepv = max(1, int(ntr * ratio)), max(1, int((n - ntr) * ratio))
    nodes = [((x[i], t[j]), u[i, j]) for i in range(nx) for j in range(nt)]
    I.check(len(data["X_u_train"]) == len(data["u_train"]) == keep, "training subset size")
    I.check(len(data["X_u_val"]) == len(data["u_val"]) == keepv, "validation subset size")
    rows(I, data["X_u_train"], data["u_train"], nodes[:ntr], "train")
    rows(I, data["X_u_val"], data["u_val"], nodes[ntr:], "validation")
    for X in (data["X_u_train"], data["X_u_val"]):
        for a in range(len(X)):
            for b in range(a):
                I.check(I.not_(I.all([I.same(X[a][k], X[b][k]) for k in range(2)])), "no measurement used twice")
    I.check(len(data["X_f_train"]) == 2 + keep, "collocation count")
    for r in range(keep):
        for k in range(2):
            I.check(I.same(data["X_f_train"][2 + r][k], data["X_u_train"][r][k]), "kept training points are collocation points")
    for r in range(2):
        for k, c in enumerate((x, t)):
            I.eq(data["X_f_train"][r][k], c[0] + (c[-1] - c[0]) * pts["a"][r, k], "collocation points kept", rtol=1e-5)


def sparse_noise(I, M, nx, nt, lvl, order=None):
    """noise is added to the measured values only, at the requested scale"""
    if order:
        c, u, par, d = nd(I, M, order, "t", {"x": nx, "t": nt})
        x, t = c["x"], c["t"]
        u = u if order == "xt" else u.T
    else:
        x, t, u, par, d = legacy(I, M, nx, nt, 0, uniform=False)
    n = nx * nt
    z = I.array("z", (n, 1), -4, 4)
    with fake_lhs(I, M) as pts:
        rng = pts["rng"]
        rng.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * z
        rng.choice = lambda a, size=None, replace=True, **k: np.arange(int(size))
        with mock.patch.object(np.random, "choice", rng.choice):
            data = M.adapter.DiscoverSparseAdapter(d, colloc_num=1, sample=n, noise_level=lvl).get_data()
    vals = [u[i, j] for i in range(nx) for j in range(nt)]
    m = sum(vals) / n
    var = sum([(v - m) * (v - m) for v in vals]) / n
    got = [r[0] for r in data["u_train"]] + [r[0] for r in data["u_val"]]
    for r in range(n):
        dlt = got[r] - vals[r]
        if I.symbolic:
            I.eq(dlt * dlt, (lvl * z[r, 0]) * (lvl * z[r, 0]) * var, "noise magnitude")
        else:
            I.eq(dlt, lvl * z[r, 0] * var ** 0.5, "noise", rtol=1e-4, atol=1e-6)
    nodes = [((x[i], t[j]), u[i, j]) for i in range(nx) for j in range(nt)]
    star(I, data, nodes, (nx, nt))
    if not order:
        unchanged(I, d, u, par, x, t)


def sparse_nd(I, M, order, lhs, k, colloc, npar, small=True, other=False):
    """the same in N-D"""
    order = list(order)
    sp = [a for a in order if a != lhs]
    lens = [2, 3, 2, 2] if small else [2, 2, 3, 2]
    size = {a: lens[i] for i, a in enumerate(order)}
    c, u, par, d = nd(I, M, order, lhs, size, npar, other)
    with fake_lhs(I, M) as pts:
        data = M.adapter.DiscoverSparseAdapter(d, colloc_num=colloc, **({"sample": k} if isinstance(k, int) else {"sample_ratio": k})).get_data()
    axes = sp + [lhs]
    nodes = []
    for ix in itertools.product(*[range(size[a]) for a in axes]):
        pos = dict(zip(axes, ix))
        nodes.append((tuple(c[a][pos[a]] for a in axes), u[tuple(pos[a] for a in order)]))
    n = k if isinstance(k, int) else max(1, int(len(nodes) * k))
    I.check(data["n_input_dim"] == len(sp), "spatial dimension")
    sparse_checks(I, data, nodes, pts, colloc, n, [c[a] for a in axes])
    star(I, data, nodes, tuple(size[a] for a in axes))
    params(I, data, par, [order.index(a) for a in axes])
    I.eq_all(d.fields_data["w" if other else "u"], u, "dataset field unchanged")


def sga(I, M, kind):
    """SGA adapter: arrays oriented (x, t)"""
    if kind == "legacy":
        x, t, u, par, d = legacy(I, M, 2, 3, 0)
        kw = M.sga.SGADataAdapter(d).to_solver_kwargs()
        I.eq_all(kw["u_data"], u, "field")
        I.eq_all(kw["x_data"], x, "x")
        I.eq_all(kw["t_data"], t, "t")
        I.check(kw["problem_name"] == "eq", "name")
        return
    c, u, par, d = nd(I, M, kind, "t", {"x": 4, "y": 3, "t": 2}, 2, True)
    kw = M.sga.SGADataAdapter(d).to_solver_kwargs()
    I.check(kw["axis_order"] == list(kind) and kw["target_field"] == "w" and kw["lhs_axis"] == "t" and kw["problem_name"] == "eq", "axes")
    I.check(set(kw["fields_data"]) == {"u", "w"} and set(kw["coords_1d"]) == set(kind) and list(kw["param_fields"]) == list(par), "contents")
    I.eq_all(kw["fields_data"]["w"], u, "field")
    for a in kind:
        I.eq_all(kw["coords_1d"][a], c[a], f"coordinate {a}")
    for p in par:
        I.eq_all(kw["param_fields"][p], par[p], f"parameter {p}")


HARNESSES = [
    H(regular, [dict(nx=2, nt=3, npar=0), dict(nx=3, nt=3, npar=2), dict(nx=2, nt=5, npar=1)], thorough=[dict(nx=5, nt=7, npar=3)],
      bounds="fields up to 3x5 (5x7), up to 2 (3) parameter fields"),
    H(regular_nd, [dict(order=o, lhs=l, npar=p, other=w) for o, l, p, w in
                   (("txy", "t", 1, False), ("xyt", "t", 2, False), ("xty", "t", 1, True), ("yxt", "x", 0, False), ("xyzt", "t", 0, False))],
      thorough=[dict(order="".join(o), lhs=l, npar=1, other=True) for o in itertools.permutations("xyt") for l in "xt"] +
               [dict(order="zxty", lhs="t", npar=2)],
      bounds="2-D and 3-D grids with distinct axis lengths (4,5,6 x 3), several (all) axis orders and left-hand axes"),
    H(rejects, [dict(kind=k) for k in ("finite", "few_t", "dt", "few_x", "zero_dx", "finite_nd", "dim", "half")],
      bounds="every defect position offered on small grids"),
    H(sparse, [dict(nx=2, nt=2, k=3, colloc=1), dict(nx=2, nt=3, k=2, colloc=2, npar=1), dict(nx=3, nt=2, k=0.5, colloc=1),
               dict(nx=2, nt=2, k=1, colloc=1), dict(nx=3, nt=2, k=0.67, colloc=1, spline=True), dict(nx=3, nt=2, k=2, colloc=1, spline=True)],
      thorough=[dict(nx=2, nt=3, k=4, colloc=2), dict(nx=3, nt=2, k=4, colloc=1, spline=True)], thorough_limit=3000,
      bounds="grids up to 2x3, samples up to 3 (4), every draw"),
    H(sparse_cut, [dict(nx=5, nt=4, q=0.2), dict(nx=5, nt=5, q=0.2), dict(nx=4, nt=5, q=0.25), dict(nx=4, nt=3, q=0.34), dict(nx=2, nt=3, q=0.4)], thorough=[dict(nx=7, nt=6, q=0.3)],
      bounds="grids up to 5x4 (7x6), three (four) quantiles"),
    H(sparse_ratio, [dict(nx=3, nt=2, ratio=0.5), dict(nx=2, nt=2, ratio=0.1), dict(nx=5, nt=2, ratio=1.0)], bounds="grids up to 5x2, three ratios"),
    H(sparse_noise, [dict(nx=2, nt=2, lvl=0.5), dict(nx=2, nt=2, lvl=0.5, order="tx")], bounds="2x2 fields, one noise level"),
    H(sparse_rejects, bounds="2x3 grids, sample sizes 1..8, ratios and quantiles around their limits"),
    H(spline_ratio, [dict(nx=4, nt=2, ratio=0.5), dict(nx=3, nt=2, ratio=None), dict(nx=2, nt=2, ratio=None, sample=7)],
      bounds="grids up to 4x2"),
    H(truth, bounds="three registered names and an unknown one"),
    H(sparse_nd, [dict(order="txy", lhs="t", k=2, colloc=1, npar=1), dict(order="xty", lhs="t", k=0.17, colloc=2, npar=2, other=True),
                  dict(order="xyt", lhs="x", k=2, colloc=1, npar=0, small=False), dict(order="tx", lhs="t", k=2, colloc=1, npar=1)],
      thorough=[dict(order="tzxy", lhs="t", k=1, colloc=1, npar=1), dict(order="yxt", lhs="t", k=3, colloc=1, npar=1)], thorough_limit=3000,
      bounds="2-4 axes of length 2-3, samples up to 2 (3), every draw"),
    H(sga, [dict(kind=k) for k in ("legacy", "txy", "xyt", "ytx")], bounds="small grids"),
]

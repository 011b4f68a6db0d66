"""C31: SGA's network derivatives are those of the field's own network, in the data's units"""
import contextlib
import importlib
import os
import types
from itertools import product
from unittest import mock

import numpy as np

from symx import core, jets, shim, torchshim
from symx.runner import H
from . import fdref, sgaenv
from .c17 import run
from .env import FakeRng, quiet

ASSUMPTIONS = ["a network is an arbitrary smooth function of its inputs: at every grid point its value and all its partial derivatives are "
               "independent reals", "grid coordinates are concrete, chosen so that their standard deviation is exact", "reals stand for float32"]


def load():
    M = sgaenv.load_sga()
    M.base = importlib.import_module("kd.dataset._base")
    M.kd = importlib.import_module("kd.model.kd_sga")
    M.metann = importlib.import_module("kd.model.sga.sgapde.metann")
    return M


class Nets(jets.Jets):
    """one arbitrary network per field; grid point = its C-order number in axis_order"""

    def __init__(self, I, coords, order, normal, fields, order_max=4):
        self.I, self.order, self.name, self.lo, self.hi, self.nout = I, order_max, "N", None, None, len(fields)
        self.vals, self.byname, self.cache, self.coord = {}, {}, {}, {}
        self.fields, self.dim = list(fields), len(order)
        raw = np.array(list(product(*[coords[a] for a in order])), dtype=float)
        self.mean, self.std = (raw.mean(0), raw.std(0)) if normal else (np.zeros(self.dim), np.ones(self.dim))
        self.std = np.where(self.std == 0, 1.0, self.std)
        self.x, self.n, self.row, self.seen = (raw - self.mean) / self.std, len(raw), {}, {}

    rowwise = True

    def d(self, v, r, k):
        if not core.is_sym(v):
            return 0
        return super().d(v, self.row[r], k)

    def locate(self, X):
        q = np.array([[float(v) for v in r] for r in (np.asarray(X) if self.I.symbolic else X.detach().double().numpy())])
        self.I.check(q.shape == (self.n, self.dim), "one network input per grid point, one column per axis")
        out = []
        for r in q:
            e = np.abs(self.x - r).max(axis=1)
            if e.min() > 1e-4:
                self.I.fail("the network is evaluated at the grid's own points, scaled as it was trained")
            out.append(int(e.argmin()))
        return out

    def call(self, f, X):
        at = self.locate(X)
        self.seen[f] = self.seen.get(f, 0) + 1
        if self.I.symbolic:
            self.row = dict(enumerate(at))
            torchshim.DERIV = self
            return torchshim.T(np.array([[self.jet(p, (0,) * self.dim, f)] for p in at], dtype=object))
        import torch
        rows = []
        for r, p in enumerate(at):
            dx = X[r].double() - torch.tensor(self.x[p])
            s = 0
            for al in product(range(self.order + 1), repeat=self.dim):
                if sum(al) <= self.order:
                    t = torch.tensor(float(self.jet(p, al, f))) / float(np.prod([np.prod(range(1, a + 1)) for a in al]))
                    for k, a in enumerate(al):
                        if a:
                            t = t * dx[k] ** a
                    s = s + t
            rows.append(s)
        return torch.stack(rows).reshape(-1, 1)

    def model(self, field, width=None):
        f = self.fields.index(field)
        J = self

        class Model:
            in_features = width or J.dim

            def to(s, *a): return s
            def eval(s): return s
            def train(s, *a): return s
            def modules(s): return [s]
            def parameters(s): return []
            def __call__(s, X): return J.call(f, X)
        m = Model()
        m.field = field
        return m

    def partial(self, field, shape, axis, k, scale):
        """k-th derivative of the field's network along one axis, in the data's units"""
        al = [0] * self.dim
        al[axis] = k
        f = self.fields.index(field)
        a = np.empty(self.n, dtype=object)
        for p in range(self.n):
            a[p] = self.jet(p, tuple(al), f) * scale / float(self.std[axis]) ** k
        return a.reshape(shape)


def axes(shape, order, steps=(0.5, 2.0, 1.0), starts=(-1.0, 3.0, 0.5)):
    return {a: starts[k] + steps[k] * np.arange(n) for k, (a, n) in enumerate(zip(order, shape))}


@contextlib.contextmanager
def env(I, M):
    with mock.patch.object(shim, "FLOAT_ARRAYS", [I.symbolic]), torchshim.install(M.context, M.metann, M.config) if I.symbolic else contextlib.nullcontext(), quiet(), mock.patch.object(np.random, "seed", lambda *a: None):
        yield


def field(I, name, shape, flat=False):
    """concrete pattern times an arbitrary amplitude plus an arbitrary offset; its spread"""
    base = np.array([((7 * i * i + 3 * i) % 11) - 4.0 for i in range(int(np.prod(shape)))]).reshape(shape)
    if flat:
        return base * 0 + I.real(name + "c", -4, 4), 1.0
    v = base * I.real(name + "a", 0.25, 4) + I.real(name + "b", -4, 4)
    return v, v.reshape(-1).std()


def eqs(I, a, b, label):
    a, b = np.asarray(a), np.asarray(b)
    I.eq_all(a if I.symbolic else a.astype(float), b if I.symbolic else b.astype(float), label, rtol=5e-4, atol=1e-4)


def build(M, **kw):
    return M.context.ProblemContext(M.config.SolverConfig(problem_name="eq", use_autograd=True, seed=3, **kw))


def audit(I, ctx, J, u, std, c, order, target, lhs, auto, legacy):
    """derivatives and operands of a problem: u, std: field -> values, spread"""
    shape = tuple(len(c[a]) for a in order)
    h = {a: c[a][1] - c[a][0] for a in order}
    sp = [a for a in order if a != lhs]
    fd = lambda v, a: fdref.along(fdref.d1, v, order.index(a), h[a])
    net = lambda f, a, k=1: J.partial(f, shape, order.index(a), k, std[f])
    p = "x" if "x" in sp else sp[0]
    eqs(I, ctx.ut, net(target, lhs), "left-hand side is the network's derivative along the left-hand axis")
    ux = net(target, p)
    eqs(I, ctx.ux, ux, "first derivative is the network's")
    uxx = net(target, p, 2) if legacy else fd(ux, p)
    eqs(I, ctx.uxx, uxx, "second derivative of the target")
    eqs(I, ctx.uxxx, net(target, p, 3) if legacy else fd(uxx, p), "third derivative of the target")
    for n in ("ut", "ux", "uxx", "uxxx"):
        eqs(I, getattr(ctx, n + "_origin"), getattr(ctx, n), "derivatives of the untrimmed data are the same derivatives")
    got = {r[0]: r[2] for r in ctx.VARS}
    for f in u:
        eqs(I, got[f], u[f], "fields stay the data's own values")
        for a in sp:
            I.check(f"{f}_{a}" in got, "every first derivative is an operand")
            if f in auto and not (legacy and a != p):
                eqs(I, got[f"{f}_{a}"], net(f, a), "derivative operand is its own field's network derivative")
            else:
                eqs(I, got[f"{f}_{a}"], fd(u[f], a), "derivative operand of a field without network is its finite difference")
    I.check(not any(n.endswith("_" + lhs) for n in got), "no left-hand derivative among the operands")
    eqs(I, ctx.u, u[target], "target field")


def given(I, M, order, shape, names=("u",), auto=None, lhs="t", normal=True, flat=False, how="models", steps=(0.5, 2.0, 1.0), starts=(-1.0, 3.0, 0.5)):
    """derivatives of given networks"""
    order, target = list(order), names[0]
    c = axes(shape, order, steps, starts)
    vals = {n: field(I, n, tuple(shape), flat) for n in names}
    u = {n: v[0] for n, v in vals.items()}
    std = {n: (v[1] if normal else 1.0) for n, v in vals.items()}
    au = list(names) if auto is None else list(auto)
    J = Nets(I, c, order, normal, au)
    kw = dict(autograd_models={n: J.model(n) for n in au}) if how == "models" else dict(autograd_model=J.model(target))
    cfg = M.config.SolverConfig(problem_name="eq", use_autograd=True, seed=3, fields_data={k: v.copy() for k, v in u.items()},
                                coords_1d={k: v.copy() for k, v in c.items()}, axis_order=order, target_field=target, lhs_axis=lhs, normal=normal)
    for k, v in kw.items():
        setattr(cfg, k, v)
    if auto is not None:
        cfg.autograd_fields = list(auto)
    with env(I, M), mock.patch.object(M.context, "train_metanet", lambda *a, **k: I.fail("a given network is used, not another trained")):
        ctx = M.context.ProblemContext(cfg)
    I.check(sorted(J.seen) == list(range(len(au))), "every network is used")
    audit(I, ctx, J, u, std, c, order, target, lhs, au, len(order) == 2 and set(order) == {"x", "t"} and lhs == "t" and len(au) == 1)


def trained(I, M, order, shape, names=("u",), lhs="t", est=True, edges=False):
    """without a network, one is trained for each field on that field over the problem's grid"""
    order, target = list(order), names[0]
    c = axes(shape, order)
    vals = {n: field(I, n, tuple(shape)) for n in names}
    u = {n: v[0] for n, v in vals.items()}
    J = Nets(I, c, order, True, names)
    calls = []
    std_cfg = M.config.SolverConfig(problem_name="eq", fields_data={k: np.zeros(shape) for k in names}, coords_1d=dict(c), axis_order=order)

    def train(coords, f, axis_order=None, **k):
        ao = list(axis_order) if axis_order else list(coords)
        I.check(ao == order and set(coords) == set(order), "network trained over the problem's axes")
        for a in order:
            I.eq_all(np.asarray(coords[a]), c[a], "network trained over the problem's grid")
        who = [n for n in names if n not in calls and np.shape(f) == np.shape(u[n])
               and bool(I.all([I.same(a, b) for a, b in zip(np.asarray(f).reshape(-1), u[n].reshape(-1))]))]
        I.check(len(who) >= 1, "network trained on a field of the problem")
        I.check(k.get("normalize", True) is True and k["seed"] == 3 and k["max_epoch"] == 17 and k["train_ratio"] == std_cfg.train_ratio
                and k["hidden_dim"] == std_cfg.hidden_dim, "training settings are the configured ones")
        calls.append(who[0])
        return J.model(who[0]), {"field": who[0]}
    if len(names) > 1 and I.symbolic:
        I.require(u[names[0]].reshape(-1)[0] != u[names[1]].reshape(-1)[0])
    for n, m in zip(names, names[1:]):
        I.require(abs(u[n].reshape(-1)[0] - u[m].reshape(-1)[0]) > 0.1)
    ds = M.base.PDEDataset("eq", fields_data={k: v.copy() for k, v in u.items()}, coords_1d={k: v.copy() for k, v in c.items()},
                           axis_order=order, target_field=target, lhs_axis=lhs)
    with env(I, M), mock.patch.object(M.context, "train_metanet", train):
        m, seen = run(I, M, ds, dict(use_autograd=True, seed=3, max_epoch=17))
    ctx = seen["context"]
    I.check(sorted(calls) == sorted(names), "one network is trained per field")
    I.check({k: v["field"] for k, v in ctx.autograd_stats.items()} == {n: n for n in names}, "training statistics are kept under their field")
    audit(I, ctx, J, u, {n: v[1] for n, v in vals.items()}, c, order, target, lhs, list(names),
          len(order) == 2 and set(order) == {"x", "t"} and lhs == "t" and len(names) == 1)


def refused(I, M):
    """networks that do not fit the problem are refused"""
    order, shape = ["x", "t"], (7, 3)
    c = axes(shape, order)
    u = {"u": np.arange(21.0).reshape(shape), "v": np.arange(21.0).reshape(shape) ** 2}
    case = I.choose("case", ["width", "narrow", "columns", "missing", "no target", "ok", "linear ok", "linear", "linear narrow", "unknown ok", "unknown"])
    J = Nets(I, c, order, True, ["u", "v"])
    mod = {"u": J.model("u", {"width": 3, "narrow": 1}.get(case)), "v": J.model("v")}
    if case.startswith(("linear", "unknown")):
        # the width shows in a layer, or only when the network is called
        call, wide = mod["u"], 2 if case.endswith("ok") else 1 if case.endswith("narrow") else 3

        class Plain:
            def to(s, *a): return s
            def eval(s): return s
            def modules(s): return [s, M.context.nn.Linear(wide, 1)] if case.startswith("linear") else [s]

            def __call__(s, X):
                if X.shape[1] != wide:
                    raise RuntimeError("shapes cannot be multiplied")
                return X[:, :1] if X.shape[0] == 1 else call(X)
        mod["u"] = Plain()
    if case == "columns":
        call = mod["u"]

        class Two:
            in_features = 2
            def to(s, *a): return s
            def eval(s): return s
            def modules(s): return []
            def __call__(s, X):
                y = call(X)
                return M.context.torch.cat([y, y], dim=1)
        mod["u"] = Two()
    cfg = M.config.SolverConfig(problem_name="eq", use_autograd=True, seed=3, fields_data=u, coords_1d=c, axis_order=order, normal=True)
    cfg.autograd_models = mod
    cfg.autograd_fields = {"missing": ["u", "w"], "no target": ["v"]}.get(case, ["u", "v"])
    with env(I, M), mock.patch.object(M.context, "train_metanet", lambda *a, **k: I.fail("a given network is used, not another trained")):
        try:
            M.context.ProblemContext(cfg)
        except ValueError:
            I.check(not case.endswith("ok"), "a fitting network is accepted")
            return
    I.check(case.endswith("ok"), "a network that does not fit the problem is refused")


def checkpoint(I, M, shape=(7, 2)):
    """a checkpoint is loaded for the field it belongs to, a missing one is trained"""
    order = ["x", "t"]
    names = ["u", "v"]
    c = axes(shape, order)
    vals = {n: field(I, n, tuple(shape)) for n in names}
    u = {n: v[0] for n, v in vals.items()}
    have = I.choose("have", ["u", "v", "both", "none"])
    files = {n: f"/nowhere/{n}.pkl" for n in names}
    on = {files[n] for n in names if have in (n, "both")}
    J = Nets(I, c, order, True, names)
    loaded, tr = [], []

    class Net:
        def __init__(s, a, b, o):
            I.check(a == 2 and o == 1, "network shape follows the problem")
            s.in_features = a

        def load_state_dict(s, state):
            loaded.append(state)
            s.m = J.model(state)

        def to(s, *a): return s
        def eval(s): return s
        def modules(s): return [s]
        def __call__(s, X): return s.m(X)

    def train(coords, f, **k):
        n = "u" if bool(I.same(np.asarray(f).reshape(-1)[0], u["u"].reshape(-1)[0])) else "v"
        tr.append(n)
        return J.model(n), {}
    I.require(abs(u["u"].reshape(-1)[0] - u["v"].reshape(-1)[0]) > 0.1)
    cfg = M.config.SolverConfig(problem_name="eq", use_autograd=True, seed=3, fields_data={k: v.copy() for k, v in u.items()},
                                coords_1d=c, axis_order=order, normal=True)
    cfg.autograd_model_paths = dict(files)
    with env(I, M) as t, mock.patch.object(M.context, "Net", Net), mock.patch.object(M.context, "train_metanet", train), \
            mock.patch.object(os.path, "exists", lambda p: p in on), \
            mock.patch.object(importlib.import_module("torch"), "load", lambda p, **k: {v: k_ for k_, v in files.items()}[p]):
        ctx = M.context.ProblemContext(cfg)
    I.check(sorted(loaded) == [n for n in names if have in (n, "both")], "existing checkpoints are loaded")
    I.check(sorted(tr) == [n for n in names if have not in (n, "both")], "missing ones are trained")
    audit(I, ctx, J, u, {n: v[1] for n, v in vals.items()}, c, order, "u", "t", names, False)


def sources(I, M, order, shape=(7, 2)):
    """every field gets its own network, wherever each of them comes from"""
    order, names = list(order), ["u", "v"]
    c = axes(shape, order)
    vals = {n: field(I, n, tuple(shape)) for n in names}
    u = {n: v[0] for n, v in vals.items()}
    I.require(abs(u["u"].reshape(-1)[0] - u["v"].reshape(-1)[0]) > 0.1)
    how = {"u": I.choose("u from", ["models", "model", "path", "paths", "train"]), "v": I.choose("v from", ["models", "paths", "train"])}
    auto = names if I.choose("target first", [True, False]) else names[::-1]
    stray = I.choose("unused path", [True, False])
    J = Nets(I, c, order, True, names)
    loaded, tr = [], []
    files = {"/nowhere/p.pkl": "u", "/nowhere/u.pkl": "u", "/nowhere/v.pkl": "v"}

    class Net:
        def __init__(s, a, b, o):
            s.in_features = a

        def load_state_dict(s, state):
            loaded.append(state)
            s.m = J.model(state)

        def to(s, *a): return s
        def eval(s): return s
        def modules(s): return [s]
        def __call__(s, X): return s.m(X)

    def train(coords, f, **k):
        n = "u" if bool(I.same(np.asarray(f).reshape(-1)[0], u["u"].reshape(-1)[0])) else "v"
        tr.append(n)
        I.check(k["max_epoch"] == 17 and k["train_ratio"] == 0.75 and k["hidden_dim"] == 9 and k["seed"] == 3, "training settings are the configured ones")
        return J.model(n), {}
    cfg = M.config.SolverConfig(problem_name="eq", use_autograd=True, seed=3, fields_data={k: v.copy() for k, v in u.items()}, max_epoch=17,
                                train_ratio=0.75, hidden_dim=9, coords_1d=c, axis_order=order, normal=True)
    mods = {n: J.model(n) for n in names if how[n] == "models"}
    if mods:
        cfg.autograd_models = dict(mods)
    if how["u"] == "model":
        cfg.autograd_model = J.model("u")
    paths = {n: f"/nowhere/{n}.pkl" for n in names if how[n] == "paths"}
    if paths:
        cfg.autograd_model_paths = dict(paths)
    if how["u"] == "path" or (stray and how["u"] != "train"):
        cfg.model_path = "/nowhere/p.pkl"
    cfg.autograd_fields = list(auto)
    with env(I, M), mock.patch.object(M.context, "Net", Net), mock.patch.object(M.context, "train_metanet", train), \
            mock.patch.object(os.path, "exists", lambda p: p in files), \
            mock.patch.object(importlib.import_module("torch"), "load", lambda p, **k: files[p]):
        ctx = M.context.ProblemContext(cfg)
    I.check(sorted(loaded) == [n for n in names if how[n] in ("path", "paths")], "a checkpoint is loaded for its own field")
    I.check(sorted(tr) == [n for n in names if how[n] == "train"], "a network is trained for a field without one")
    audit(I, ctx, J, u, {n: v[1] for n, v in vals.items()}, c, order, "u", "t", names, False)


def pairs(I, M, order, shape, normal):
    """training pairs: each field value with the coordinates of its own grid point"""
    order = list(order)
    c = {a: np.array([I.real(f"{a}{i}", -4, 4) for i in range(n)], dtype=object if I.symbolic else float) for a, n in zip(order, shape)} \
        if not normal else axes(shape, order)
    f = I.array("f", tuple(shape), -4, 4)
    given_order = {a: c[a].copy() for a in sorted(order)}
    with env(I, M):
        X, y, st = M.metann.prepare_training_data(given_order, f.copy(), axis_order=order, normalize=normal)
    I.check(np.shape(X) == (f.size, len(order)) and np.shape(y) == (f.size, 1), "one pair per grid point")
    pts = np.array(list(product(*[list(c[a]) for a in order])), dtype=object)
    fl = f.reshape(-1)
    m, s = (sum(fl) / len(fl), fl.std()) if normal else (0, 1)
    mean, std = (pts.astype(float).mean(0), pts.astype(float).std(0)) if normal else (np.zeros(len(order)), np.ones(len(order)))
    s = 1 if not core.is_sym(s) and s == 0 else s
    if core.is_sym(s):
        s = core.ite(s == 0, 1, s)
    used = set()
    for r in range(f.size):
        hit = [p for p in range(f.size) if p not in used and all(bool(I.close(X[r, k], (pts[p, k] - mean[k]) / std[k])) for k in range(len(order)))]
        I.check(bool(hit), "every pair is a grid point")
        p = hit[0]
        used.add(p)
        if I.symbolic:
            I.eq(y[r, 0] * s, fl[p] - m, "value belongs to the point")
        else:
            I.eq(float(y[r, 0]), float((fl[p] - m) / s), "value belongs to the point")
    I.check(bool(np.all(np.asarray(st["normalized"])) == normal) and list(st["axis_order"]) == order, "the statistics describe the data")


def training(I, M, n=4, epochs=2):
    """the training loop: paired rows, configured epochs, caller's random state kept"""
    import torch
    order = ["t", "x"]
    shape = (2, n // 2)
    c = axes(shape, order)
    f = np.arange(1.0, n + 1).reshape(shape) ** 2
    ratio = I.choose("ratio", [1.0, 0.5, 0.75])
    log = types.SimpleNamespace(x=[], loss=[], steps=0, zero=0, ver=0)

    class Net:
        def __init__(s, a, b, o):
            I.check((a, b, o) == (2, 9, 1), "network of the configured width")
            s.p = torch.rand(1)
        def to(s, *a): return s
        def parameters(s): return [s.p]
        def __call__(s, X):
            log.x.append(X)
            return ("pred", log.ver)

    class Crit:
        def __call__(s, p, y):
            log.loss.append((p, y))
            return types.SimpleNamespace(backward=lambda: None)

    class Opt:
        def __init__(s, params, *a, **k):
            I.check(len(list(params)) == 1, "the network is optimised")
        def zero_grad(s, *a, **k): log.zero += 1
        def step(s):
            log.steps += 1
            log.ver += 1
    torch.manual_seed(11)
    np.random.seed(5)
    t0, n0 = torch.get_rng_state(), np.random.get_state()
    perm = FakeRng(I, "split")
    with env(I, M), mock.patch.object(M.metann, "Net", Net), mock.patch.object(M.metann.nn, "MSELoss", Crit), \
            mock.patch.object(M.metann.optim, "Adam", Opt), mock.patch.object(M.metann.np.random, "RandomState", lambda s=None: perm):
        model, st = M.metann.train_metanet({a: v.copy() for a, v in c.items()}, f.copy(), axis_order=order, hidden_dim=9, max_epoch=epochs,
                                           train_ratio=ratio, normalize=False, seed=7)
    I.check(isinstance(model, Net), "the trained network is returned")
    I.check(bool(torch.equal(t0, torch.get_rng_state())), "the caller's torch random state is kept")
    n1 = np.random.get_state()
    I.check(n0[0] == n1[0] and bool((n0[1] == n1[1]).all()) and n0[2:] == n1[2:], "the caller's numpy random state is kept")
    I.check(log.steps == epochs and len(log.x) == epochs and log.zero == epochs, "as many optimiser steps as configured")
    k = int(n * ratio)
    pts = list(product(*[list(c[a]) for a in order]))
    for e in range(epochs):
        X, (p, y) = log.x[e], log.loss[e]
        I.check(p == ("pred", e), "loss of the current network")
        X = np.asarray(X) if I.symbolic else X.double().numpy()
        y = np.asarray(y) if I.symbolic else y.double().numpy()
        I.check(X.shape == (k, 2) and y.shape == (k, 1), "the configured share of the points is used")
        got = [pts.index(tuple(float(round(float(v), 6)) for v in r)) for r in X]
        I.check(len(set(got)) == k, "points are used once")
        for r, q in enumerate(got):
            I.eq(float(y[r, 0]), f.reshape(-1)[q], "target of the point", rtol=1e-5, atol=1e-5)


def metadata(I, M, shape=(3, 2), ratio=2):
    """refined data: the given network over a finer grid of the same range, in the data's units"""
    order = ["x", "t"]
    c = axes(shape, order)
    u, std = field(I, "u", tuple(shape))
    fine = {a: np.linspace(c[a].min(), c[a].max(), ratio * len(c[a])) for a in order}
    pts = np.array(list(product(*[fine[a] for a in order])))
    raw = np.array(list(product(*[c[a] for a in order])))
    vals = I.array("N", (len(pts),), -4, 4)
    at = []

    class Net:
        def __init__(s, a, b, o): I.check((a, o) == (2, 1), "network shape follows the problem")
        def load_state_dict(s, st): I.check(st == "weights of m.pkl", "the configured checkpoint is used")
        def to(s, *a): return s
        def eval(s): return s

        def __call__(s, X):
            q = np.array([[float(v) for v in r] for r in (np.asarray(X) if I.symbolic else X.double().numpy())])
            I.check(q.shape == pts.shape, "one input per point of the finer grid")
            ok = [z for z in ((pts - w.mean(0)) / w.std(0) for w in (pts, raw))
                  if all(np.abs(z - r).max(1).min() < 1e-4 for r in q)]
            I.check(bool(ok), "the network is evaluated over the finer grid, scaled as it was trained")
            at.extend(int(np.abs(ok[0] - r).max(1).argmin()) for r in q)
            r = np.array([vals[p] for p in at], dtype=object if I.symbolic else float).reshape(-1, 1)
            import torch
            return torchshim.T(r) if I.symbolic else torch.tensor(r)
    cfg = M.config.SolverConfig(problem_name="eq", use_metadata=True, seed=3, fields_data={"u": u.copy()}, coords_1d={k: v.copy() for k, v in c.items()},
                                axis_order=order, normal=True, fine_ratio=ratio, model_path="m.pkl")
    with env(I, M), mock.patch.object(M.context, "Net", Net), \
            mock.patch.object(importlib.import_module("torch"), "load", lambda p, **k: f"weights of {p}"):
        ctx = M.context.ProblemContext(cfg)
    I.check(sorted(at) == list(range(len(pts))), "every point of the finer grid once")
    new = np.array([v * std + u.reshape(-1).mean() for v in vals], dtype=object).reshape([len(fine[a]) for a in order])
    eqs(I, ctx.u, new, "refined values are the network's, in the data's units")
    for k, a in enumerate(order):
        eqs(I, ctx.coords_1d[a], fine[a], "refined axis spans the data's range")
        eqs(I, ctx.coord_grids[a], np.broadcast_to(fine[a].reshape([-1 if q == k else 1 for q in range(2)]), new.shape), "refined coordinates")
    h = {a: float(fine[a][1] - fine[a][0]) for a in order}
    d = lambda v, a: fdref.along(fdref.d1, v, order.index(a), h[a])
    eqs(I, ctx.ut, d(new, "t"), "left-hand side of the refined data")
    eqs(I, ctx.ux, d(new, "x"), "first derivative of the refined data")
    eqs(I, ctx.uxx, d(d(new, "x"), "x"), "second derivative of the refined data")
    got = {r[0]: r[2] for r in ctx.VARS}
    eqs(I, got["u"], new, "operand is the refined field")
    eqs(I, got["u_x"], d(new, "x"), "derivative operand of the refined field")
    eqs(I, ctx.u_origin, u, "the data itself is kept")


HARNESSES = [
    H(given, [dict(order="xt", shape=[7, 2]), dict(order="tx", shape=[2, 7]), dict(order="xt", shape=[7, 2], how="model"),
              dict(order="tx", shape=[3, 4], normal=False), dict(order="xt", shape=[7, 2], flat=True),
              dict(order="xt", shape=[7, 7], names=["u", "v"]), dict(order="tx", shape=[7, 7], names=["v", "u"], auto=["v"]),
              dict(order="xyt", shape=[7, 2, 2]), dict(order="txy", shape=[2, 7, 2]), dict(order="ytx", shape=[2, 2, 4], normal=False, lhs="y"),
              dict(order="xy", shape=[2, 7], lhs="x"), dict(order="xt", shape=[2, 7], lhs="x"), dict(order="tyx", shape=[2, 2, 7], names=["a", "b"]),
              dict(order="xt", shape=[7, 2], steps=[2**-9, 2**-7], starts=[0.0, 0.0]), dict(order="xyt", shape=[7, 2, 2], steps=[2**-8, 2**-9, 2**-7], starts=[0.0, 0.0, 0.0])],
      bounds="1 or 2 fields on 2-D and 3-D grids of 14 to 49 points"),
    H(trained, [dict(order="xt", shape=[7, 2]), dict(order="tx", shape=[2, 7], names=["u", "v"]), dict(order="yxt", shape=[2, 7, 2])],
      bounds="1 or 2 fields on 2-D and 3-D grids of 14 to 28 points"),
    H(checkpoint, [dict()], bounds="2 fields, checkpoint of either present or absent"),
    H(sources, [dict(order="xt")], bounds="2 fields, every combination of sources, either processing order"),
    H(refused, [dict()], bounds="network width, output columns, unknown fields, target without network"),
    H(pairs, [dict(order="xt", shape=[2, 2], normal=False), dict(order="tyx", shape=[2, 1, 2], normal=False), dict(order="tx", shape=[2, 2], normal=True)],
      bounds="grids of 4 points, arbitrary values"),
    H(training, [dict(n=4)], bounds="4 points, 2 epochs, any permutation"),
    H(metadata, [dict(shape=[3, 3], ratio=3), dict(shape=[5, 3], ratio=1)], bounds="9 points refined 3-fold, 15 points kept"),
]

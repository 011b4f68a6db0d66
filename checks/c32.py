"""C32: EqGPT judges equations with each case's own network, in the units that network was trained in"""
import contextlib
import importlib
import logging
import math
import os
import pathlib
import re
import sys
import tempfile
import types
from unittest import mock

import numpy as np

from symx.runner import H
from .env import quiet

ASSUMPTIONS = ["the networks' predictions are arbitrary reals", "the optimizer is a recorder; the order of data is any of the given ones",
               "reals stand for float32"]


def load():
    logging.disable(logging.CRITICAL)
    M = types.SimpleNamespace()
    M.kd = importlib.import_module("kd.model.kd_eqgpt")
    M.nn = importlib.import_module("kd.model.eqgpt.neural_network")
    return M


def units(name):
    """wave period and wavelength of a case"""
    tp = int(re.search(r"Tp(\d+)", name).group(1)) / 10.0
    return tp, 9.81 * tp ** 2 / (2 * math.pi)


class Ten:
    """a tensor: an array that can be moved about"""

    def __init__(self, a):
        self.a = np.asarray(a)
        self.shape, self.requires_grad = self.a.shape, False

    def to(self, *a, **k):
        return self
    float = double = cpu = detach = clone = to

    def requires_grad_(self, on=True):
        self.requires_grad = on
        return self

    def numpy(self):
        return self.a


def prepare(net):
    net.setdefault("made", []), net.setdefault("calls", []), net.setdefault("log", [])
    return net


def fakes(I, rec, answers):
    """stand-ins for torch and the network; answers(step, inputs) -> predictions"""
    prepare(rec)

    class Net:
        def __init__(self, **kw):
            rec["made"].append(kw)
            rec["net"], self.step, self.mode = self, 0, None

        def to(self, *a):
            return self

        def parameters(self):
            return ["the parameters"]

        def state_dict(self):
            return ("weights", self.step)

        def train(self, *a):
            return self

        def eval(self):
            return self

        def __call__(self, x):
            return Ten(answers(self.step, x.a))

    class Loss:
        def __init__(self, a, b):
            self.a, self.b = a, b

        def backward(self):
            rec["log"].append("backward")
            rec.setdefault("losses", []).append((self.a, self.b))

        def item(self):
            return 0.0

    class Adam:
        def __init__(self, params, **kw):
            ps = list(params)
            ps = ps[0]["params"] if ps and isinstance(ps[0], dict) else ps
            I.check(list(ps) == ["the parameters"], "the network's own parameters are trained")

        def zero_grad(self, *a, **k):
            rec["log"].append("zero")

        def step(self):
            rec["log"].append("step")
            rec["net"].step += 1
    t = types.ModuleType("torch")
    t.from_numpy = t.tensor = t.as_tensor = Ten
    t.float32 = "float32"
    t.optim = types.SimpleNamespace(Adam=Adam)
    t.nn = types.SimpleNamespace(MSELoss=lambda: lambda a, b: Loss(a, b))
    t.no_grad = contextlib.nullcontext
    t.save = lambda state, path: rec.setdefault("saved", {}).update({os.path.basename(str(path)): state})
    return t, Net


def orders(n):
    return [list(range(n)), list(range(n))[::-1], [(7 * k + 3) % n for k in range(n)]]


def training(I, M, n, epochs, name):
    """a case's network is trained on that case's samples in periods and wavelengths, and the best one is kept"""
    tp, lam = units(name)
    free = {0, 1, n - 2, n - 1}
    data = np.array([[I.real(f"{c}{r}", 0, 20) if r in free else 1.0 + r + 0.25 * k for k, c in enumerate("txh")] for r in range(n)],
                    dtype=object if I.symbolic else float)
    before = data.copy()
    perm = orders(n)[I.choose("order", [0, 1, 2])]
    ntr, nva = int(0.95 * n), int(0.05 * n)
    marks = [s for s in range(500, epochs + 1, 500)]
    p = {s: [I.real(f"p{s}_{k}", -5, 5) for k in range(nva)] for s in marks}
    rec = {}

    def answers(step, x):
        if x.shape[0] == nva and nva != ntr and step in p:
            rec.setdefault("val", {})[step] = x
            return np.array([[v] for v in p[step]], dtype=object if I.symbolic else float)
        rec.setdefault("tr", x)
        return np.zeros((x.shape[0], 1))

    def shuffle(a):
        a[:] = np.asarray(a)[perm] if not isinstance(a, list) else [a[i] for i in perm]
    torch, Net = fakes(I, rec, answers)
    m = M.kd.KD_EqGPT(retrain_surrogate=True, surrogate_epochs=epochs)
    with tempfile.TemporaryDirectory(prefix="c32") as d, quiet(), mock.patch.dict(sys.modules, torch=torch), \
            mock.patch.object(M.nn, "NN", Net), mock.patch.object(np.random, "shuffle", shuffle):
        where = pathlib.Path(d) / "case"
        m._train_single_surrogate(name, data, where, "cpu", "cpu")
        best = int(np.load(str(where / "best_epoch.npy"))[0])
    I.eq_all(data, before, "the caller's data stay as they are")
    I.check(rec["log"].count("step") == epochs and rec["log"] == ["zero", "backward", "step"] * epochs, "as many training steps as asked")
    a, b = rec["losses"][0]
    out = a if a.a.dtype == object and I.symbolic or bool(np.any(np.asarray(a.a) != 0)) else b
    x = rec["tr"]
    I.check(x.shape == (ntr, 2) and out.a.shape == (ntr, 1), "number of training samples")

    def scaled(r):
        return before[r, 0] / tp, (before[r, 1] - 8.17) / lam, before[r, 2] / lam * 100
    for k in range(ntr):
        w = scaled(perm[k])
        for got, want, lab in zip((x[k, 0], x[k, 1], out.a[k, 0]), w, ("time in periods", "place in wavelengths", "elevation in wavelengths")):
            I.eq(got, want, lab, rtol=1e-5, atol=1e-6)
    errs = []
    for s in marks:
        v = rec["val"][s]
        e = 0
        for k in range(nva):
            w = scaled(perm[ntr + k])
            I.eq(v[k, 0], w[0], "validation sample", rtol=1e-5, atol=1e-6)
            I.eq(v[k, 1], w[1], "validation sample", rtol=1e-5, atol=1e-6)
            e = e + (w[2] - p[s][k]) ** 2
        errs.append(e)
    I.check(f"Net_Sin_{best}.pkl" in rec["saved"] and rec["saved"][f"Net_Sin_{best}.pkl"] == ("weights", best), "the kept network was saved")
    if marks:
        I.check(best in marks, "kept network")
        for s, e in zip(marks, errs):
            I.check(I.le(errs[marks.index(best)], e), "the kept network has the smallest validation error")
    else:
        I.check(best == epochs, "the last network is kept")
    I.reach()


def building(I, M, name):
    """a case's network is the kept one, on a grid of that case's times and gauges, in its periods and wavelengths"""
    tp, lam = units(name)
    end = I.choose("end", [0.6, 1.0, 2.05])
    best = I.choose("best", [500, 1500, 7])
    data = np.array([[0.1, 8.2, 0.0], [end, 9.0, 0.1], [0.3, 12.0, 0.2]])
    rec = {}
    torch, Net = fakes(I, rec, None)
    loaded = []
    Net.load_state_dict = lambda self, s: loaded.append(s)
    Net.eval = lambda self: loaded.append("eval") or self
    m = M.kd.KD_EqGPT()
    with tempfile.TemporaryDirectory(prefix="c32") as d, quiet(), mock.patch.object(M.nn, "NN", Net), \
            mock.patch.dict(sys.modules, torch=torch):
        where = pathlib.Path(d)
        np.save(str(where / "best_epoch.npy"), np.array([best]))
        net, db, nx, nt = m._build_single_surrogate(name, data, where, "cpu", "cpu", lambda p: os.path.basename(str(p)))
        rec2 = {}
        t2, Net2 = fakes(I, rec2, lambda s, x: np.zeros((x.shape[0], 1)))
        with mock.patch.dict(sys.modules, torch=t2), mock.patch.object(M.nn, "NN", Net2):
            M.kd.KD_EqGPT(surrogate_epochs=1)._train_single_surrogate(name, np.arange(60.0).reshape(20, 3), where / "t", "cpu", "cpu")
    I.check(net is rec["net"] and loaded == [f"Net_Sin_{best}.pkl", "eval"], "the kept weights are loaded")
    shape = lambda kw: {k: v for k, v in kw.items() if k not in ("Data_Type", "Device")}
    I.check([shape(k) for k in rec["made"]] == [shape(k) for k in rec2["made"]] != [], "the network has the shape it was trained with")
    X = np.concatenate([np.linspace(a, b, 50) for a, b in ((8.18, 9.34), (9.77, 10.93), (11.41, 12.57))])
    T = [0.15 + 0.05 * k for k in range(200) if 0.15 + 0.05 * k < end - 0.1 - 1e-9]
    g = np.array([[float(v) for v in row] for row in db.numpy()])
    I.check(nx == len(X) and abs(nt - len(T)) <= 1 and g.shape == (nx * nt, 2), "grid size")
    I.check(db.requires_grad is True, "derivatives can be taken on the grid")
    for i in range(min(nt, len(T))):
        row = g[i * nx:(i + 1) * nx]
        I.check(bool(np.allclose(row[:, 0] * tp, T[i], atol=1e-5)), "grid times in periods")
        I.check(bool(np.allclose(row[:, 1] * lam + 8.17, X, atol=1e-4)), "grid places in wavelengths")
    I.reach()


def cases(I, M, names):
    """every case asked for brings its own network, data and grid; retraining never touches the shipped networks"""
    data = {n: np.full((2, 3), float(k)) for k, n in enumerate(names) if I.choose("has " + n, [True, False])}
    data = {n: data[n] for n in (list(data)[::-1] if I.choose("reverse", [False, True]) else list(data))}
    flt = I.choose("filter", ["N", "all"])
    retrain = I.choose("retrain", [False, True])
    broken = I.choose("fails", [None, "train", "build"])
    asked = sorted(n for n in data if flt == "all" or "N" in n)
    shipped = {n for n in names if not retrain and I.choose("shipped " + n, [True, False])}
    log, dirs = [], []

    class Boom(Exception):
        pass

    def train(self, name, d, where, *a):
        I.check(d is data[name] and a == ("dev", "devname"), "a case's network is trained on that case's data")
        os.makedirs(str(where), exist_ok=True)
        dirs.append(str(where))
        log.append(("train", name, str(where)))
        if broken == "train":
            raise Boom

    def build(self, name, d, where, *a):
        I.check(d is data[name] and a == ("dev", "devname", "loader"), "a case's grid follows that case's data")
        I.check(os.path.isdir(str(where)), "the network's directory is there while it is loaded")
        log.append(("build", name, str(where)))
        if broken == "build":
            raise Boom
        return tuple((k, name) for k in ("net", "db", "nx", "nt"))
    with tempfile.TemporaryDirectory(prefix="c32") as d, quiet():
        root = pathlib.Path(d)
        for n in shipped:
            os.makedirs(str(root / "model_save" / "wave_breaking" / f"95_0_{n}(Non_unit)"))
        listing = sorted(str(p) for p in root.rglob("*"))
        m = M.kd.KD_EqGPT(case_filter=flt, retrain_surrogate=retrain)
        want = asked if retrain else [n for n in asked if n in shipped]
        with mock.patch.object(M.kd, "_EQGPT_DIR", root), mock.patch.object(M.kd.KD_EqGPT, "_train_single_surrogate", train), \
                mock.patch.object(M.kd.KD_EqGPT, "_build_single_surrogate", build):
            try:
                r = m._load_surrogates(dict(data), "dev", "devname", "loader")
                how = "ok"
            except RuntimeError:
                how = "none"
            except Boom:
                how = "boom"
        I.check(sorted(str(p) for p in root.rglob("*")) == listing, "the shipped networks are left alone")
        I.check(not any(os.path.exists(p) for p in dirs), "temporary networks are removed")
    if want and (broken == "build" or broken == "train" and retrain):
        I.check(how == "boom", "a failure is not hidden")
        return
    I.check(how == ("ok" if want else "none"), "refused exactly when there is no network")
    if want:
        I.check(len(r) == 4 and all(list(part) == [(k, n) for n in want] for part, k in zip(r, ("net", "db", "nx", "nt"))),
                "networks, grids and sizes belong together, one per case asked for")
    for kind, n, where in log:
        I.check(f"_{n}(" in os.path.basename(where) and (retrain == (not where.startswith(str(root)))), "each case's own directory")
    if retrain:
        I.check([(k, n) for k, n, _ in log] == [(k, n) for n in want for k in ("train", "build")]
                and [w for k, _, w in log if k == "train"] == [w for k, _, w in log if k == "build"], "the network just trained is the one used")
    I.reach()


HARNESSES = [
    H(training, [dict(n=20, epochs=1000, name="N_G2Tp12A100_broad"), dict(n=21, epochs=500, name="L_G10Tp8A35"), dict(n=20, epochs=3, name="N_G2Tp12A100_broad")],
      thorough=[dict(n=40, epochs=1500, name="N_G1Tp15A20")],
      bounds="20-21 (40) samples of which four are arbitrary, three orders, up to 3 checkpoints with any predictions"),
    H(building, [dict(name=s) for s in ("N_G2Tp12A100_broad", "L_G10Tp8A35")], bounds="three lengths of record, three kept epochs, two cases"),
    H(cases, [dict(names=["N_G1Tp10A1", "L_G2Tp10A1", "a_N_G1Tp12A2"])], bounds="every subset of three cases, shipped or not, either filter, with and without retraining and failures"),
]

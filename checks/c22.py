"""C22: the equation DLGA reports is built from the user's data and reads back as the one it fitted"""
import contextlib
import importlib
import math
import os
import re
import tempfile
from types import SimpleNamespace
from unittest import mock

import numpy as np

from symx import core
from symx.runner import H
from .env import quiet

ASSUMPTIONS = ["the network is an arbitrary function of a row; its derivatives are uninterpreted in the symbolic run and torch.autograd's on replay",
               "the optimiser is a recorder; shuffles are four fixed permutations", "float rounding is outside the claim"]
KD = ["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"]
BASE = ["u", "ux", "uxx", "uxxx", "ut", "utt"]
SHOW = {"ux": "u_x", "uxx": "u_{xx}", "uxxx": "u_{xxx}", "ut": "u_t", "utt": "u_{tt}",
        "u": "u", "u_x": "u_x", "u_xx": "u_{xx}", "u_xxx": "u_{xxx}", "u_t": "u_t", "u_tt": "u_{tt}"}


def load():
    M = SimpleNamespace()
    M.base = importlib.import_module("kd.model.dlga")
    M.kd = importlib.import_module("kd.model.kd_dlga")
    M.tex = importlib.import_module("kd.viz.dlga_eq2latex")
    M.ds = importlib.import_module("kd.dataset._base")
    return M


class Marks:
    """text marks for symbolic numbers, rounded as the format asks"""

    def __init__(self, I):
        self.I, self.vals = I, []
        if I.symbolic:
            core.CUR.str_hook = self

    def __call__(self, v, spec):
        m = re.fullmatch(r"\+?\.(\d+)f", spec)
        if m:
            v = core.rnd(v, int(m.group(1)))
        elif spec:
            raise core.SymxError("format " + spec)
        s = "+" if spec.startswith("+") else ""
        if bool(v < 0):
            v, s = -v, "-"
        self.vals.append(v)
        return f"{s}\u27e8{len(self.vals) - 1}\u27e9"

    def read(self, s):
        return self.vals[int(s[1:-1])] if s.startswith("\u27e8") else float(s)


NUM = r"\u27e8\d+\u27e9|\d+\.?\d*(?:e[-+]?\d+)?"


def scan(s, marks, factor, name):
    """[(coefficient, [names])] of a sum of products"""
    out, pos = [], 0
    skip = re.compile(r"(?:\s|\\,|\\cdot|\*)*")
    while True:
        pos = skip.match(s, pos).end()
        if pos >= len(s):
            return out
        m = re.compile(r"(?:[-+]\s*)*").match(s, pos)
        if not m.group() and out:
            return None
        sign = (-1) ** m.group().count("-")
        pos = skip.match(s, m.end()).end()
        c, got = 1.0, False
        m = re.compile(NUM).match(s, pos)
        if m:
            c, pos, got = marks.read(m.group()), m.end(), True
        fs = []
        while True:
            q = skip.match(s, pos).end()
            m = re.compile(factor).match(s, q)
            if not m:
                break
            fs += [m.group(1)] * int(m.group(2) or 1)
            pos, got = m.end(), True
        if not got:
            return None
        out.append((sign * c, sorted(fs)))


def agree(I, got, want, label):
    I.check(got is not None and len(got) == len(want), label + ": one printed term per fitted term")
    for (c, fs), (w, names) in zip(got, want):
        I.check(fs == sorted(names), label + ": factors")
        I.check(I.all([c - w <= 6e-5, w - c <= 6e-5]), label + ": coefficient")


@contextlib.contextmanager
def model(I, M, kind, ops=None, **attrs):
    with contextlib.ExitStack() as st:
        st.enter_context(quiet())
        if kind == "kd":
            m = M.kd.KD_DLGA(operators=list(ops), epi=0.1, input_dim=2, max_iter=1)
        else:
            m = M.base.DLGA(0.1, 2, max_iter=1)
        for k, v in attrs.items():
            setattr(m, k, v)
        tmp = st.enter_context(tempfile.TemporaryDirectory())
        st.callback(os.chdir, os.getcwd())
        os.chdir(tmp)
        yield m, st


def pick(I, n, L, few=False):
    return [I.choose(f"term{i}", [[0], [L - 1], [0, 1], [1, 1], [0, L - 1, L - 1]][2 * few:]) for i in range(n)]


def coefs(I, n):
    c = I.array("c", (n, 1), -1000, 1000)
    return c


def text(I, M, kind, ops, n):
    """the printed equation reads back as the fitted one"""
    with model(I, M, kind, ops) as (m, st):
        names = ops if kind == "kd" else BASE
        marks = Marks(I)
        chrom, c = pick(I, n, 4 if kind == "base" else len(ops)), coefs(I, n)
        lhs = I.choose("lhs", ["u_t", "u_tt"])
        s = m.convert_chrom_to_eq([list(t) for t in chrom], lhs, c)
        left, _, right = s.partition("=")
        I.check(left.strip() == lhs, "left-hand side")
        alt = "|".join(sorted(map(re.escape, names), key=len, reverse=True))
        got = scan(right, marks, rf"({alt})(?![A-Za-z_])()", None)
        agree(I, got, [(c[i, 0], [names[g] for g in t]) for i, t in enumerate(chrom)], "text")


def latex(I, M, kind, ops, n, lhs=("u_t", "u_tt")):
    """the displayed equation reads back as the fitted one"""
    with quiet():
        names = ops if kind == "kd" else BASE
        marks = Marks(I)
        chrom, c = pick(I, n, 4 if kind == "base" else len(ops), n > 1), coefs(I, n)
        lhs = I.choose("lhs", list(lhs))
        kw = dict(operator_names=list(ops)) if kind == "kd" else {}
        s = M.tex.dlga_eq2latex(chromosome=[list(t) for t in chrom], coefficients=c, lhs_name_str=lhs, **kw)
        s = s.strip().strip("$")
        left, _, right = s.partition("=")
        I.check(left.strip() == SHOW[lhs], "left-hand side")
        factor = r"(u(?:_\{[a-z]+\}|_[a-z](?![a-z_]))?)(?![A-Za-z_])(?:\^\{(\d+)\}|\^(\d))?"
        agree(I, scan(right, marks, factor, None), [(c[i, 0], [SHOW[names[g]] for g in t]) for i, t in enumerate(chrom)], "display")


class Net:
    """an arbitrary function of each row"""

    def __init__(self, I):
        self.I, self.state = I, None

    def __call__(self, X):
        if self.I.symbolic:
            from symx import torchshim
            if X.tag is None:
                X.tag = (0, 1)
            return torchshim.T(np.array([[core.ufun("net", *[core.lift(v) if not core.is_sym(v) else v for v in r])] for r in np.asarray(X)], dtype=object))
        import torch
        x, t = X[:, 0:1], X[:, 1:2]
        return torch.sin(1.3 * x) * torch.exp(0.7 * t) + x ** 3 * t ** 2

    def load_state_dict(self, s):
        self.state = s

    def eval(self):
        return self

    def state_dict(self):
        return ("state", getattr(self, "step", None))

    def parameters(self):
        return []


def derivs(I, row):
    if I.symbolic:
        from symx.torchshim import D
        u = core.ufun("net", *row)
        return dict(u=u, u_x=D(u, 0), u_xx=D(D(u, 0), 0), u_xxx=D(D(D(u, 0), 0), 0), u_t=D(u, 1), u_tt=D(D(u, 1), 1))
    x, t = map(float, row)
    e, s, c = math.exp(.7 * t), math.sin(1.3 * x), math.cos(1.3 * x)
    return dict(u=s * e + x ** 3 * t ** 2, u_x=1.3 * c * e + 3 * x * x * t * t, u_xx=-1.69 * s * e + 6 * x * t * t, u_xxx=-1.3 ** 3 * c * e + 6 * t * t,
                u_t=.7 * s * e + 2 * x ** 3 * t, u_tt=.49 * s * e + 2 * x ** 3)


TOL = dict(rtol=1e-3, atol=1e-3)


def library(I, M, kind, ops, rows):
    """each library column, left-hand side and stored field is the named derivative of the network at the user's points"""
    with model(I, M, kind, ops, best_epoch=7) as (m, st):
        X = I.array("X", (rows, 2), -1, 1)
        m.Net = Net(I)
        loads = []
        ld = lambda f, *a, **k: loads.append(os.path.basename(f)) or "weights"
        if I.symbolic:
            from symx import torchshim
            st.enter_context(torchshim.install(M.base, M.kd))
            st.enter_context(mock.patch.object(torchshim.TorchProxy, "load", staticmethod(ld), create=True))
        else:
            import torch
            st.enter_context(mock.patch.object(torch, "load", ld))
        before = np.array(X)
        Th = m.generate_meta_data(X)
        I.check(loads == ["Net_7.pkl"] and m.Net.state == "weights", "the best network is used")
        Th = np.asarray(Th.detach().cpu().numpy(), dtype=object)
        names = [o for o in ops if o in KD] if kind == "kd" else BASE
        key = dict(zip(BASE, KD))
        I.check(Th.shape == (rows, len(names)), "one column per available operator")
        lib = m.user_operators if kind == "kd" else BASE
        I.check(kind != "kd" or m.library_size == len(lib) == Th.shape[1], "as many library entries as columns")
        for r in range(rows):
            d = derivs(I, list(before[r]))
            for j in range(Th.shape[1]):
                I.eq(Th[r, j], d[key.get(lib[j], lib[j])], "library column", **({} if I.symbolic else TOL))
            for k, v in m.metadata.items():
                I.eq(np.asarray(v).reshape(-1)[r], d[k], "stored field", **({} if I.symbolic else TOL))
            I.eq(np.asarray(m.u_t).reshape(-1)[r], d["u_t"], "u_t", **({} if I.symbolic else TOL))
            I.eq(np.asarray(m.u_tt).reshape(-1)[r], d["u_tt"], "u_tt", **({} if I.symbolic else TOL))
        I.check({"u", "u_x", "u_t"} <= set(m.metadata) and np.shape(m.u_t) == (rows, 1), "stored fields")


class Shuffle:
    def __init__(self, I):
        self.I, self.i, self.p = I, 0, []

    def perm(self, n):
        if self.i == len(self.p):
            k = self.I.choose(f"perm{self.i}", [0, 1, 2, 3])
            self.p.append([list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0], [1, 0] + list(range(2, n))][k])
        self.i += 1
        return self.p[self.i - 1]

    def shuffle(self, a):
        c = np.array(a)
        for k, j in enumerate(self.perm(len(a))):
            a[k] = c[j]

    def permutation(self, a):
        if np.ndim(a) == 0:
            return np.array(self.perm(int(a)))
        return np.asarray(a)[self.perm(len(a))]

    def get_state(self, *a, **k):
        return self.i

    def set_state(self, s):
        self.i = s


def train(I, M, n, flat, iters):
    """rows stay paired, training and validation rows are disjoint, the caller's data is untouched, the best network is kept"""
    with model(I, M, "kd", ["u"], max_iter=iters) as (m, st):
        sh = Shuffle(I)
        for f in ("shuffle", "permutation", "get_state", "set_state"):
            st.enter_context(mock.patch.object(np.random, f, getattr(sh, f)))
        X = np.array([[float(i), float(10 * i)] for i in range(n)])
        yv = I.array("y", (n,), -1, 1)
        marks = [k for k in range(499, iters, 500)] or [iters - 1]
        outs = {k: I.real(f"out{k}", -1, 1) for k in marks}
        calls, losses, saved = [], [], {}
        import torch
        net = Net(I)
        net.step = 0
        conc = not I.symbolic
        if I.symbolic:
            from symx import torchshim
            st.enter_context(torchshim.install(M.base, M.kd))
            P = torchshim.TorchProxy
            mk = torchshim.T
            core.CUR.float_hook = lambda v: 0.0
            sp = lambda nm, f: st.enter_context(mock.patch.object(P, nm, staticmethod(f), create=True))
        else:
            mk = lambda a: torch.tensor(np.array(a, dtype=np.float32), requires_grad=True)
            sp = lambda nm, f: st.enter_context(mock.patch.object(torch, nm, f))

        def forward(self, A):
            a = np.asarray(A.detach().numpy(), dtype=float)
            it = self.step
            v = outs.get(it, 0.25)
            calls.append((it, a))
            return mk(np.array([[v + 0.125 * i] for i in range(len(a))], dtype=object))
        st.enter_context(mock.patch.object(Net, "__call__", forward))
        sp("save", lambda s, f, *a, **k: saved.__setitem__(os.path.basename(f), s))

        class Adam:
            def __init__(self, *a, **k):
                pass

            def zero_grad(self):
                pass

            def step(self):
                net.step += 1

        class Loss:
            def __call__(self, p, y):
                a, b = np.asarray(p.detach().numpy(), dtype=object), np.asarray(y.detach().numpy(), dtype=object)
                I.check(a.shape == b.shape, "prediction and target of one shape")
                losses.append(b.reshape(-1))
                return ((p - y) ** 2).mean()
        st.enter_context(mock.patch.object(torch.optim, "Adam", Adam))
        st.enter_context(mock.patch.object(torch.nn, "MSELoss", Loss))
        m.Net = net
        y = np.array(yv).reshape(-1) if flat else np.array(yv).reshape(-1, 1)
        X0, y0 = np.array(X), np.array(y)
        _, best = m.train_NN(X, y)
        I.check(np.array_equal(X, X0), "the caller's points are untouched")
        for k in range(n):
            I.check(I.same(y.reshape(-1)[k], y0.reshape(-1)[k]), "the caller's values are untouched")
        ntr = int(n * 0.8)
        tr = [a for it, a in calls if it == 0 and len(a) == ntr][0]
        va = [a for it, a in calls if it == 0 and len(a) == n - ntr][0]
        ids = [int(round(r[0])) for r in list(tr) + list(va)]
        I.check(sorted(ids) == list(range(n)) and all(r[1] == 10 * r[0] for r in list(tr) + list(va)), "every row is used once, for training or validation")
        for r, v in zip(tr, losses[0]):
            I.eq(v, yv[int(round(r[0]))], "training rows keep their own values", **({} if I.symbolic else dict(atol=1e-5)))
        I.check(len(m.train_loss_history) == iters == len(m.val_loss_history), "one loss per step")
        val = {}
        for it in marks:
            o = outs[it]
            val[it] = sum([(o + 0.125 * i - yv[int(round(r[0]))]) ** 2 for i, r in enumerate(va)]) / len(va)
            I.eq(m.val_loss_history[it], val[it], "validation error on the validation rows", **({} if I.symbolic else dict(atol=1e-4)))
            tl = sum([(o + 0.125 * i - yv[int(round(r[0]))]) ** 2 for i, r in enumerate(tr)]) / len(tr)
            I.eq(m.train_loss_history[it], tl, "training error", **({} if I.symbolic else dict(atol=1e-4)))
        name = f"Net_{best}.pkl"
        I.check(name in saved and saved[name] == ("state", best) and best - 1 in marks, "the chosen network was saved at its step")
        for it in marks:
            I.check(val[best - 1] <= val[it] + (0 if I.symbolic else 1e-4), "the network with the smallest validation error is chosen")


def dataset(I, M, nx, nt, mode):
    """the rows handed to training are the data set's own points and values"""
    with model(I, M, "kd", ["u"]) as (m, st):
        x, t = np.linspace(0, 1, nx), np.linspace(2, 3, nt)
        U = I.array("U", (nx, nt), -1, 1)
        ds = M.ds.PDEDataset(equation_name="d", pde_data=None, x=x, t=t, usol=np.array(U), domain=None, epi=1e-3)
        got = []

        def fit(self, X, y):
            got.append((np.array(X, dtype=float), np.array(y).reshape(-1), X, y))
        st.enter_context(mock.patch.object(type(m), "fit", fit))
        rng = np.random.RandomState(0)
        st.enter_context(mock.patch.object(np.random, "choice", lambda a, size=None, replace=True, **k: rng.choice(a, size, replace=replace)))
        if mode == "mesh":
            r = m.fit_dataset(ds, sample=I.choose("sample", [None, 3]), Xy_from="mesh")
            n = nx * nt
        else:
            s = I.choose("sample", [None, 3, 1.0, 0.5])
            r = m.fit_dataset(ds, sample=s)
            n = {None: nx * nt, 3: 3, 1.0: nx * nt, 0.5: nx * nt // 2}[s]
        I.check(r is m and m.dataset_ is ds and len(got) == 1, "one fit on this data set")
        X, y, Xr, yr = got[0]
        I.check(X.shape == (n, 2) and y.shape == (n,), "number of rows")
        I.check(len({tuple(v) for v in X}) == n, "no point twice")
        for row, v in zip(X, y):
            i, j = int(np.argmin(abs(x - row[0]))), int(np.argmin(abs(t - row[1])))
            I.check(abs(x[i] - row[0]) < 1e-9 and abs(t[j] - row[1]) < 1e-9, "points of the grid")
            I.check(I.same(v, U[i, j]), "each point with its own value")
        for i in range(nx):
            for j in range(nt):
                I.check(I.same(ds.usol[i, j], U[i, j]), "data set untouched")


OPSETS = [["u", "u_x"], ["u_xx", "u", "u_x"], ["u_x", "u_t", "u_tt", "u_xxx"]]
HARNESSES = [
    H(text, [dict(kind="kd", ops=o, n=n) for o in OPSETS[:2] for n in (1, 2)] + [dict(kind="base", ops=None, n=2)],
      thorough=[dict(kind="kd", ops=OPSETS[2], n=3)], bounds="1-2 (3) terms of five shapes, all coefficients in [-1000, 1000]"),
    H(latex, [dict(kind="kd", ops=OPSETS[1], n=2, lhs=["u_tt"]), dict(kind="kd", ops=OPSETS[0], n=1), dict(kind="kd", ops=OPSETS[2], n=1), dict(kind="base", ops=None, n=1)],
      thorough=[dict(kind="kd", ops=OPSETS[2], n=3)], bounds="1-2 (3) terms of five shapes, all coefficients in [-1000, 1000]"),
    H(library, [dict(kind="kd", ops=o, rows=2) for o in OPSETS + [["u", "u_y", "u_x"], ["sin", "u_xx"], KD]] + [dict(kind="base", ops=None, rows=2)],
      bounds="all points, 2 rows, seven operator lists"),
    H(train, [dict(n=5, flat=f, iters=3) for f in (True, False)] + [dict(n=5, flat=False, iters=1001), dict(n=10, flat=True, iters=2)],
      thorough=[dict(n=5, flat=True, iters=1501)], bounds="5-10 rows, four shuffles, all values and network outputs, one to three checkpoints"),
    H(dataset, [dict(nx=3, nt=2, mode=m) for m in ("mesh", "sample")] + [dict(nx=2, nt=4, mode="sample")], bounds="grids of 2-4 points per axis, all values"),
]

"""C24: the sparse-data surrogate is trained on the user's own data, feeds its own derivatives to the search, and iterates on the best equation"""
import contextlib
import importlib
import os
import shutil
import tempfile
import types
from unittest import mock

import numpy as np

from symx import core, jets, torchshim
from symx.runner import H
from . import disco
from .disco import quiet_ctx

ASSUMPTIONS = ["the network is an arbitrary function that changes with every optimiser step", "the discovered residual is an arbitrary value",
               "reals stand for float32 tensors"]


def load():
    M = disco.load_disco()
    M.pinn = importlib.import_module("kd.model.discover.pinn")
    M.loss = importlib.import_module("kd.model.discover.loss")
    M.task = importlib.import_module("kd.model.discover.task.pde.pde_pinn")
    M.unn = importlib.import_module("kd.model.discover.task.pde.utils_nn")
    M.unoise = importlib.import_module("kd.model.discover.task.pde.utils_noise")
    M.kd = importlib.import_module("kd.model.kd_discover")
    M.program = importlib.import_module("kd.model.discover.program")
    M.stridge = importlib.import_module("kd.model.discover.stridge")
    return M


def tens(I, a, grad=False):
    if I.symbolic:
        return torchshim.T(a)
    import torch
    return torch.tensor(np.array(a, dtype=float), dtype=torch.float64, requires_grad=grad)


def num(I, t):
    return np.asarray(t) if I.symbolic else t.detach().cpu().double().numpy()


class World:
    """a PINN_model whose network, optimisers and files are recorders; every optimiser step makes a new network"""

    def __init__(self, I, M, dim, ntr, nva, nf):
        self.I, self.M, self.version, self.epochs = I, M, 0, []
        self.saved, self.calls, self.grads, self.steps = {}, [], [], []
        self.out, self.names = {}, []
        # one trainable parameter: its gradient is finite unless the residual's derivative overflows in that epoch
        self.param = types.SimpleNamespace(grad=None)
        self.overflow = lambda version, loss: False
        cols = dim + 1
        self.data = {"X_u_train": I.array("xt", (ntr, cols), -3, 3), "u_train": I.array("ut", (ntr, 1), -3, 3),
                     "X_u_val": I.array("xv", (nva, cols), -3, 3), "u_val": I.array("uv", (nva, 1), -3, 3),
                     "X_f_train": I.array("xf", (nf, cols), -3, 3)}
        self.data["lb"] = np.array([I.real(f"lb{k}", -5, -4) for k in range(cols)], dtype=self.data["u_val"].dtype)
        self.data["ub"] = np.array([I.real(f"ub{k}", 4, 5) for k in range(cols)], dtype=self.data["u_val"].dtype)
        # the sets of points the network may be evaluated at, by number of rows (all different)
        self.coord, self.origin = {}, {}
        if I.symbolic:
            for kind in ("X_u_train", "X_u_val", "X_f_train"):
                for (r, k), v in np.ndenumerate(self.data[kind]):
                    self.coord[str(v.e)] = ((kind, r), k)
        self.sets = {ntr: "X_u_train", nva: "X_u_val", nf: "X_f_train", ntr + nva: "all"}
        assert len(self.sets) == 4

    def points(self, kind):
        if kind == "all":
            return np.vstack([self.data["X_u_train"], self.data["X_u_val"]])
        return self.data[kind]

    def target(self, kind):
        if kind == "all":
            return np.vstack([self.data["u_train"], self.data["u_val"]])
        return self.data["u" + kind[3:]]

    def row(self, kind, r):
        """output of the current network at point r of a set (shared between a set and the union)"""
        n = len(self.data["X_u_train"])
        if kind == "all":
            kind, r = ("X_u_train", r) if r < n else ("X_u_val", r - n)
        k = (self.version, kind, r)
        if k not in self.out:
            self.out[k] = self.I.real(f"n{self.version}{kind[2:]}{r}", -3, 3)
            if self.I.symbolic:
                self.origin[str(self.out[k].e)] = (kind, r)
        return self.out[k]

    def net(self, H):
        I = self.I
        h = num(I, H)
        kind = self.sets.get(len(h))
        I.check(kind is not None and h.shape[1] == len(self.data["lb"]), "the network is evaluated at the given points")
        X, lb, ub = self.points(kind), self.data["lb"], self.data["ub"]
        for r in range(len(h)):
            for k in range(h.shape[1]):
                I.eq(h[r, k] * (ub[k] - lb[k]), 2 * (X[r, k] - lb[k]) - (ub[k] - lb[k]), "normalised to [-1,1] by its own bounds",
                     **({} if I.symbolic else {"rtol": 1e-4, "atol": 1e-5}))
        self.calls.append((self.version, kind))
        o = np.array([[self.row(kind, r)] for r in range(len(h))], dtype=object if I.symbolic else float)
        return tens(I, o) if I.symbolic else tens(I, o) + 0.0 * H.double().sum()

    def d(self, v, point, k):
        """derivative of a network output with respect to coordinate k of a point"""
        return core.ufun(f"D{k}", v) if self.origin[str(v.e)] == point else 0

    def mse(self, kind):
        U = self.target(kind)
        d = [self.row(kind, r) - U[r, 0] for r in range(len(U))]
        return sum(q * q for q in d) / len(d)

    @contextlib.contextmanager
    def installed(self):
        I, M, W = self.I, self.M, self
        d = tempfile.mkdtemp(prefix="c24_")

        class Net:
            def __call__(self, H):
                return W.net(H)
            forward = __call__
            to = lambda self, *a, **k: self
            parameters = lambda self: [W.param]
            state_dict = lambda self: ("net", W.version)

        class Adam:
            def __init__(self, *a, **k):
                pass

            def zero_grad(self, *a, **k):
                W.grads.clear()
                W.param.grad = None

            def step(self, *a, **k):
                W.steps.append(list(W.grads))
                W.version += 1
        writer = types.SimpleNamespace(add_scalars=lambda *a, **k: None, add_scalar=lambda *a, **k: None, close=lambda: None)
        import torch

        def backward(t, *a, **k):
            v = t.item()
            W.grads.append(v)
            W.param.grad = tens(I, np.array([float("nan") if W.overflow(W.version, len(W.grads) - 1) else 1.0], dtype=float))
        with contextlib.ExitStack() as st:
            st.callback(shutil.rmtree, d)
            st.enter_context(quiet_ctx())
            if I.symbolic:
                st.enter_context(torchshim.install(M.pinn, M.loss, M.unn, M.unoise))
                torchshim.DERIV = W
                core.CUR.str_hook = lambda v, spec: "<v>"          # printed only
                st.enter_context(mock.patch.object(torchshim.T, "backward", backward))
            else:
                st.enter_context(mock.patch.object(torch.Tensor, "backward", backward))
            st.enter_context(mock.patch.object(torch, "save", lambda s, p: W.saved.__setitem__(os.path.basename(str(p)), s)))
            st.enter_context(mock.patch.object(M.pinn, "ANN", lambda *a, **k: Net()))
            st.enter_context(mock.patch.object(M.pinn, "SummaryWriter", lambda *a, **k: writer))
            st.enter_context(mock.patch.object(M.pinn, "print_model_summary", lambda *a, **k: 0))
            st.enter_context(mock.patch.object(torch.optim, "Adam", Adam))
            st.enter_context(mock.patch.object(M.pinn.logging, "info", lambda *a, **k: None))
            yield d

    def model(self, d, **kw):
        cfg = dict(number_layer=1, input_dim=len(self.data["lb"]), n_hidden=2, out_dim=1, activation="sin", coef_pde=0.1, noise=0,
                   data_ratio=1, coll_data=None, data_type="Sparse", lr=1e-3, pinn_epoch=2, duration=1)
        cfg.update(kw)
        m = self.M.pinn.PINN_model(os.path.join(d, "o.csv"), cfg, None, "cpu")
        m.import_outter_data({k: (v.copy() if I_is_np(v) else v) for k, v in self.data.items()})
        return m


def I_is_np(v):
    return isinstance(v, np.ndarray)


TOL = {"rtol": 1e-4, "atol": 1e-5}


def tol(I):
    return {} if I.symbolic else TOL


def pretrain(I, M, dim, epochs, duration, ntr=3, nva=1, nf=2):
    """fits the training values only, keeps the network of the lowest validation error, stops when it stops improving"""
    W = World(I, M, dim, ntr, nva, nf)
    with W.installed() as d:
        m = W.model(d, duration=duration)
        m.pretrain_epoch = epochs
        m.pretrain()
        ran = len(W.steps)
        val = []
        for v in range(ran):
            W.version = v
            I.check(len(W.steps[v]) == 1, "one gradient per step")
            I.eq(W.steps[v][0], W.mse("X_u_train"), "training loss", **tol(I))
            val.append(W.mse("X_u_val"))
        # best and stopping rule
        best, last = 0, 0
        for v in range(1, ran):
            if bool(val[v] < val[best]):
                best = last = v
            I.check(v - last <= duration or v == ran - 1, "stops once there is no improvement")
        I.check(ran == epochs or ran - 1 - last > duration, "does not stop early")
        I.check(W.saved.get("o_pretrain.ckpt") == ("net", best), "the kept network is the best on validation data")
        # afterwards all observations are used
        n = ntr + nva
        for k in range(dim):
            I.eq_all(num(I, m.x[k])[:, 0], W.points("all")[:, k], "coordinate of every observation", **tol(I))
        I.eq_all(num(I, m.t)[:, 0], W.points("all")[:, -1], "time of every observation", **tol(I))
        I.eq_all(num(I, m.u_train), W.target("all"), "value of every observation", **tol(I))
        I.eq_all(num(I, m.t_f)[:, 0], W.points("X_f_train")[:, -1], "collocation time", **tol(I))
        for k in range(dim):
            I.eq_all(num(I, m.x_f[k])[:, 0], W.points("X_f_train")[:, k], "collocation coordinate", **tol(I))
        W.version = ran
        u, xt, _ = m.generate_meta_data()
        I.eq_all(num(I, u)[:, 0], [W.row("X_f_train", r) for r in range(nf)], "field at the collocation points")
        I.eq_all(num(I, xt), W.points("X_f_train"), "collocation points", **tol(I))
        q = m.predict(tens(I, W.points("X_u_train")))
        I.eq_all(num(I, q)[:, 0], [W.row("X_u_train", r) for r in range(ntr)], "prediction")
    I.reach()


def train(I, M, dim, epochs, local, merged, last=False, ntr=3, nva=1, nf=2):
    """loss = misfit on the observations + coef * (residual on collocation points + residual at the observations); undefined residual is left out, an undefined gradient is never applied"""
    W = World(I, M, dim, ntr, nva, nf)
    coef = I.real("coef", 0, 10)
    obs = "all" if merged else "X_u_train"
    w = [I.real("w0", -5, 5), I.real("w1", -5, 5)]
    extra = I.choose("extra", [False, True])
    nan = {(v, k): I.choose(f"nan{v}{k}", [None, "nan"] + ["inf"] * (v == 0)) for v in range(epochs) for k in ("X_f_train", obs)[:1 + local]}
    over = I.choose("overflow", [None] + list(range(epochs)))       # the epoch whose residual has no finite derivative
    W.overflow = lambda v, n: v == over and n == 0
    res, seen = {}, []

    def residual(u, x, ut, coefs, extra_gradient=False):
        U = num(I, u[0])
        kind = W.sets[len(U)]
        seen.append((W.version, kind))
        P = W.points(kind)
        I.eq_all(U[:, 0], [W.row(kind, r) for r in range(len(U))], "residual uses the field at its points")
        if I.symbolic:
            I.eq_all(num(I, ut)[:, 0], [core.ufun(f"D{dim}", W.row(kind, r)) for r in range(len(U))], "time derivative at its points")
        I.check(len(x) == dim, "one coordinate per dimension")
        for k in range(dim):
            I.eq_all(num(I, x[k])[:, 0], P[:, k], "residual uses the coordinates of its points", **tol(I))
        I.check(len(coefs) == 2, "coefficients")
        I.eq_all(list(coefs), w, "the equation's own coefficients")
        I.check(bool(extra_gradient) == extra, "gradient enhancement as configured")
        if nan[W.version, kind]:
            o = [[float(nan[W.version, kind])]] * len(U)
        else:
            o = [[I.real(f"r{W.version}{kind}{r}", -5, 5)] for r in range(len(U))]
        res[W.version, kind] = [q[0] for q in o]
        return tens(I, np.array(o, dtype=object if I.symbolic else float))
    p = types.SimpleNamespace(w=w, str_expression="u", switch_tokens=lambda *a, **k: None,
                              STRidge=types.SimpleNamespace(calculate_RHS=residual))
    with W.installed() as d:
        m = W.model(d, pinn_epoch=epochs, extra_gradient=extra)
        if merged:
            m.pretrain_epoch = 0
            m.pretrain()
        m.train_pinn([p], count=2, coef=coef, local_sample=local, last=last)
        I.check(len(W.steps) == epochs, "every epoch makes one step")
        for v in range(epochs):
            W.version = v
            want = W.mse(obs)
            for kind in ("X_f_train", obs)[:1 + local]:
                I.check(seen.count((v, kind)) == 1, "residual evaluated once per epoch and point set")
                if not nan[v, kind] and v != over:
                    q = res[v, kind]
                    want = want + coef * (sum(a * a for a in q) / len(q))
            I.check(len(W.steps[v]) == 1, "one gradient per step")
            I.eq(W.steps[v][0], want, "loss", **tol(I))
        I.check(W.saved.get("o_pinn2.ckpt") == ("net", epochs), "the trained network is stored under its iteration")
    I.reach()


# -- data for the search --------------------------------------------------------
def quant(v, q):
    """linear-interpolation quantile of a list (branches on the order)"""
    s = []
    for a in v:
        k = len(s)
        while k and bool(a < s[k - 1]):
            k -= 1
        s.insert(k, a)
    pos = q * (len(s) - 1)
    i = min(int(pos), len(s) - 2)
    f = pos - i
    return s[i] + f * (s[i + 1] - s[i])


def metadata(I, M, dim, n, cut, kind, free):
    """the search sees, at each kept collocation point, the surrogate's value and its own time derivative"""
    J = jets.Jets(I, n, dim + 1, order=1, lo=-3, hi=3, xlo=0, xhi=1)
    for k in range(dim + 1):
        if k != free:          # other columns have a known order
            for i in range(n - 1):
                a, b = (J.x[i, k], J.x[i + 1, k]) if k % 2 else (J.x[i + 1, k], J.x[i, k])
                I.require(a + 0.01 <= b)
    for i in range(n):
        for j in range(i):
            d = J.x[i, free] - J.x[j, free]
            I.require(I.any([d >= 0.01, d <= -0.01]))
    T = object.__new__(M.task.PDEPINNTask)
    T.cut_ratio, T.iter, T.eq_num, T.wf = cut, 0, 1, None
    T.sym_true_input = None
    T.library = types.SimpleNamespace(tokens=[])
    with contextlib.ExitStack() as st:
        st.enter_context(quiet_ctx())
        if I.symbolic:
            st.enter_context(torchshim.install(M.task, M.unn, M.unoise))
        db = J.database()
        cols = [db[:, k:k + 1] for k in range(dim + 1)]
        model = types.SimpleNamespace(net_u=J.net, device="cpu", collocation_point=(cols[:-1], cols[-1]),
                                      generate_meta_data=lambda: (J.net(db), db, {}))
        T.generate_meta_data(model, kind)
        out = [num(I, T.u[0]), np.asarray(T.ut)] + [num(I, x) for x in T.x] + [num(I, T.t)]
    lo = [quant([J.x[i, k] for i in range(n)], cut) for k in range(dim + 1)]
    hi = [quant([J.x[i, k] for i in range(n)], 1 - cut) for k in range(dim + 1)]
    inside = lambda i: I.all([c for k in range(dim + 1) for c in (J.x[i, k] > lo[k] + 1e-5, J.x[i, k] < hi[k] - 1e-5)])
    outside = lambda i: I.any([c for k in range(dim + 1) for c in (J.x[i, k] < lo[k] - 1e-5, J.x[i, k] > hi[k] + 1e-5)])
    rows = len(out[0])
    I.check(all(o.shape == (rows, 1) for o in out) and len(out) == dim + 3, "one row per kept point everywhere")
    got = []
    for r in range(rows):
        ids = [i for i in range(n) if all(bool(I.same(out[2 + k][r, 0], J.x[i, k]) if I.symbolic else
                                              abs(out[2 + k][r, 0] - J.x[i, k]) < 1e-5) for k in range(dim + 1))]
        I.check(len(ids) == 1, "a kept row is a collocation point")
        i = ids[0]
        got.append(i)
        I.eq(out[0][r, 0], J.jet(i, (0,) * (dim + 1)), "field at the kept point", **tol(I))
        I.eq(out[1][r, 0], J.jet(i, (0,) * dim + (1,)), "its time derivative", **tol(I))
    I.check(len(set(got)) == len(got), "no point twice")
    for i in range(n):
        if i in got:
            I.check(I.not_(outside(i)), "points beyond the margin are cut")
        else:
            I.check(I.not_(inside(i)), "points inside the margin are kept")
    if got:
        I.reach()


def params(I, M, n, npar, torchu):
    """a constant parameter field becomes that constant at every search point; a varying one is refused"""
    T = object.__new__(M.task.PDEPINNTask)
    vary = I.choose("vary", [None] + list(range(npar)))
    raw, val = [], []
    for p in range(npar):
        c = I.real(f"c{p}", 0.5, 4)
        a = np.array([[c, c], [c, c]], dtype=object if I.symbolic else float)
        if p == vary:
            at = I.choose("at", [(0, 1), (1, 0), (1, 1)])
            e = I.real("dev", 0.5, 3)
            a[at] = c + I.choose("sign", [-1, 1]) * e
        raw.append(a)
        val.append(c)
    order = I.choose("order", [list(range(npar)), list(range(npar))[::-1]])
    toks = [types.SimpleNamespace(name=f"p{i}", param_var=order[i], _param_data_ref=None) for i in range(npar)]
    toks.append(types.SimpleNamespace(name="u1", param_var=None, _param_data_ref="none"))
    T.library = types.SimpleNamespace(tokens=toks)
    with contextlib.ExitStack() as st:
        st.enter_context(quiet_ctx())
        if torchu and I.symbolic:
            st.enter_context(torchshim.install(M.task))
            import torch
            st.enter_context(mock.patch.object(torch, "Tensor", torchshim.T))
            st.enter_context(mock.patch.object(torch, "full", lambda s, v, **k: torchshim.T(np.full(s, v, dtype=object))))
        T.load_data({"param_data": raw})
        U = np.zeros((n, 1))
        T.u = [tens(I, U) if torchu else U.astype(object if I.symbolic else float)]
        try:
            T._refresh_param_refs()
            ok = True
        except NotImplementedError:
            ok = False
    I.check(ok == (vary is None), "constant fields are accepted, varying ones refused")
    if ok:
        for t in toks[:-1]:
            a = num(I, t._param_data_ref) if torchu else np.asarray(t._param_data_ref)
            I.check(a.shape == (n, 1), "one value per search point")
            I.eq_all(a[:, 0], [val[t.param_var]] * n, "the parameter's own value", **tol(I))
        I.check(toks[-1]._param_data_ref == "none", "other tokens untouched")
    I.reach()


# -- the loop --------------------------------------------------------------------
def loop(I, M, iters, progs, local=True):
    """each round trains on the better of the new equation and the previous one re-evaluated on the new data; the last search is the answer"""
    K = object.__new__(M.kd.KD_Discover_SPR)
    coef = I.real("coef", 0, 10)
    log, cache = [], {}
    st8 = types.SimpleNamespace(train=0, meta=0)     # trainings done; trainings the search data reflect

    rewards = {}

    def at(tok, v):
        if (tok, v) not in rewards:
            rewards[tok, v] = I.real(f"r{tok}_{v}", 0, 1)
        return rewards[tok, v]

    class Prog:
        def __init__(self, tok):
            self.tokens, self.r_ridge, self.at = [tok], at(tok, st8.meta), st8.meta
            self.str_expression = f"e{tok}"

    def from_tokens(t, *a, **k):
        t = list(t)[0]
        if t not in cache:
            cache[t] = Prog(t)
        return cache[t]
    found = []

    def search(n_epochs=None, verbose=True, keep_history=False):
        I.check(st8.meta == st8.train, "the search uses data of the latest surrogate")
        I.check(n_epochs == 7 and not keep_history, "search settings")
        p = from_tokens([I.choose(f"p{len(found)}", list(range(progs)))])
        found.append(p)
        log.append(("search", p))
        return {"program": p, "r": p.r_ridge, "n": len(found)}

    def train_pinn(ps, count=1, coef=0.1, local_sample=True, last=False):
        st8.train += 1
        log.append(("train", ps, count, coef, local_sample, last))

    class Prog0:
        clear_cache = staticmethod(lambda: cache.clear())

        @staticmethod
        def reset_task(model, kind):
            I.check(model is K.denoise_pinn and kind == "multi_AD", "search data come from the trained surrogate")
            st8.meta = st8.train
            log.append(("meta",))
    K.denoise_pinn = types.SimpleNamespace(train_pinn=train_pinn, pretrain=lambda: (setattr(st8, "train", st8.train + 1), log.append(("pre",))))
    K.searcher = types.SimpleNamespace(search=search)
    K.config_pinn = dict(iter_num=iters, coef_pde=coef, local_sample=local, generation_type="multi_AD")
    K.config_task, K.config_training = dict(eq_num=1), dict(batch_size=3)
    d = tempfile.mkdtemp(prefix="c24_")
    K.out_path = os.path.join(d, "o.csv")
    try:
        with quiet_ctx(), mock.patch.object(M.kd, "from_tokens", from_tokens), mock.patch.object(M.kd, "Program", Prog0), \
                mock.patch.object(M.kd.KD_Discover_SPR, "make_controller", lambda s: I.fail("controller restarted"), create=True):
            out = K.callIterPINN(7, verbose=False)
    finally:
        shutil.rmtree(d)
    I.check([e[0] for e in log] == ["pre", "meta"] + ["search", "train", "meta"] * iters + ["search"], "order of the rounds")
    prev = None
    for i, e in enumerate([e for e in log if e[0] == "train"]):
        _, ps, count, c, loc, last = e
        I.check(len(ps) == 1 and count == i + 1 and bool(loc) == local, "settings of the round")
        I.eq(c, coef, "weight of the equation")
        I.check(bool(last) == (i == iters - 1), "only the final round is the last")
        tok, new = ps[0].tokens[0], found[i].tokens[0]
        I.check(ps[0].at == i + 1, "reward is of the current data")
        I.check(tok in (new, prev if prev is not None else new), "trains on the new or the previous equation")
        for other in (new, prev):
            if other is not None:
                I.check(I.le(at(other, i + 1), at(tok, i + 1)), "trains on the better of the two")
        prev = tok
    I.check(out["n"] == iters + 1 and out["program"] is found[-1] and found[-1].at == iters + 1, "the answer is the last search's")
    I.reach()


HARNESSES = [
    H(pretrain, [dict(dim=1, epochs=3, duration=0), dict(dim=1, epochs=3, duration=1), dict(dim=2, epochs=1, duration=5)],
      thorough=[dict(dim=1, epochs=4, duration=1), dict(dim=2, epochs=4, duration=0), dict(dim=3, epochs=2, duration=1),
                dict(dim=1, epochs=3, duration=1, ntr=5, nva=3, nf=4)],
      bounds="1-3 space dimensions, up to 4 epochs, 3-5 training, 1-3 validation, 2-4 collocation points; any data, bounds and network outputs",
      limit=4000),
    H(train, [dict(dim=1, epochs=2, local=True, merged=True), dict(dim=2, epochs=1, local=False, merged=False),
              dict(dim=1, epochs=1, local=True, merged=False, last=True)],
      thorough=[dict(dim=2, epochs=2, local=True, merged=False, last=True), dict(dim=3, epochs=2, local=True, merged=True),
                dict(dim=1, epochs=3, local=True, merged=True), dict(dim=1, epochs=2, local=True, merged=True, last=True, ntr=5, nva=2, nf=3)],
      bounds="1-3 space dimensions, up to 3 epochs, any data, network, residuals, weight; undefined residuals anywhere", limit=4000),
    H(metadata, [dict(dim=1, n=4, cut=0.25, kind="AD", free=0), dict(dim=1, n=4, cut=0.1, kind="AD", free=1),
                 dict(dim=2, n=3, cut=0.03, kind="multi_AD", free=1), dict(dim=1, n=4, cut=0.03, kind="multi_AD", free=0)],
      thorough=[dict(dim=1, n=5, cut=0.2, kind="AD", free=0), dict(dim=1, n=5, cut=0.2, kind="multi_AD", free=1),
                dict(dim=2, n=5, cut=0.1, kind="multi_AD", free=2), dict(dim=3, n=5, cut=0.1, kind="multi_AD", free=1)],
      bounds="3-5 collocation points in 1-3 space dimensions, any coordinates (one column in any order), any smooth surrogate", limit=4000),
    H(params, [dict(n=3, npar=2, torchu=t) for t in (True, False)], thorough=[dict(n=4, npar=3, torchu=True)],
      bounds="2-3 parameter fields of 4 values, any constants, any one varying entry"),
    H(loop, [dict(iters=2, progs=2), dict(iters=3, progs=2, local=False), dict(iters=1, progs=3)],
      thorough=[dict(iters=3, progs=3), dict(iters=4, progs=2), dict(iters=2, progs=4)],
      bounds="1-4 rounds, 2-4 equations found in any order, any rewards on each round's data", limit=6000),
]

"""C12: rewards rank programs by their declared fit measure"""
import importlib
import types

import numpy as np

from symx.runner import H
from . import disco
from .disco import quiet_ctx

ASSUMPTIONS = ["the target is not constant (zero variance has no normalised error) except where the floor is examined"]


def load():
    M = disco.load_disco()
    M.pde = importlib.import_module("kd.model.discover.task.pde.pde")
    M.pinn_task = importlib.import_module("kd.model.discover.task.pde.pde_pinn")
    M.reg = importlib.import_module("kd.model.discover.task.regression")
    return M


def stats(y, yh):
    n = len(y)
    m = sum(y) / n
    return sum([(a - b) * (a - b) for a, b in zip(y, yh)]) / n, sum([(a - m) * (a - m) for a in y]) / n


def is_reward(I, r, num, mse, var, label):
    """r == num / (1 + sqrt(mse/var)), stated without the root: r (1 + s) = num, s >= 0, s^2 var = mse"""
    if I.concrete:
        I.eq(r, num / (1 + (mse / var) ** 0.5), label)
        return
    import z3
    from symx.core import zr
    roots = [(q, e) for k, (q, e) in I.run.memo.items() if k[0] == "sqrt"]
    if len(roots) == 1:       # r = num / (1 + q) and q^2 var = mse, as rational identities
        q, arg = roots[0]
        so = z3.Solver()
        so.set("timeout", 20000)
        so.add(zr(var) > 0, zr(q) >= 0, zr(q) * zr(q) == arg)
        ok = []
        for goal in (arg * zr(var) == zr(mse), zr(r) * (1 + zr(q)) == zr(num)):
            so.push()
            so.add(z3.Not(goal))
            I.job.stats.queries += 1
            ok.append(so.check() == z3.unsat)
            so.pop()
        if all(ok):
            I.check(True, label)
            return
    s = I.real("s_" + label.replace(" ", "_"), 0)
    I.run.assume((s * s * var == mse).e, check=False)
    I.eq(r * (1 + s), num, label)


def two(I, n, tag=""):
    y = [I.real(f"y{tag}{i}", -4, 4) for i in range(n)]
    yh = [I.real(f"h{tag}{i}", -4, 4) for i in range(n)]
    mse, var = stats(y, yh)
    I.require(var > 0)
    dt = object if I.symbolic else float
    return np.array(y, dtype=dt).reshape(-1, 1), np.array(yh, dtype=dt).reshape(-1, 1), y, yh, mse, var


def make_pde(M, cls, **k):
    cfg = dict(function_set=["add", "mul"], dataset="d")
    cfg.update(k)
    return cls(**cfg)


class P:
    """a program whose execution gives an arbitrary prediction"""

    def __init__(self, out, invalid):
        self.out, self._inv, self.invalid, self.calls = out, invalid, False, []

    def execute(self, *a, **k):
        self.calls.append(a)
        self.invalid = self._inv
        return self.out

    execute_direct = execute


def pde_task(I, M, cls, name, n, terms):
    """reward/evaluation of the PDE tasks"""
    lam = I.real("lam", 0, 0.2)
    C = M.pde.PDETask if cls == "pde" else M.pinn_task.PDEPINNTask
    t = make_pde(M, C, metric=name, metric_params=(lam,), threshold=0.25)
    Y, YH, y, yh, mse, var = two(I, n)
    t.u, t.x, t.ut, t.u_test, t.ut_test = ["u"], ["x"], Y, None, None
    w = [1.0] * terms
    inv = I.choose("invalid", [False, True])
    p = P((YH, "theta", w), inv)
    with quiet_ctx():
        r, w2, yo, th = t.reward_function(p)
    I.check(p.calls[0][0] is t.u and p.calls[0][1] is t.x and p.calls[0][2] is Y, "executed on the task's own data")
    if inv:
        I.check(r == t.invalid_reward == 0.0 and list(w2) == [0] and yo is None, "invalid programs get the invalid reward")
    else:
        I.check(w2 is w and yo is YH and th == "theta", "coefficients and prediction are handed on")
    with quiet_ctx():
        e = t.evaluate(P((YH, "theta", w), inv))
    if inv:
        I.check(e["nmse_test"] is None and e["success"] is False, "no error for an invalid program")
    else:
        I.eq(e["nmse_test"], mse, "reported error")
        I.check(I.same(bool(e["success"]), bool(mse < 0.25)) if not I.symbolic else (bool(e["success"]) == (mse < 0.25)), "success below threshold")
    if cls == "pde" and not inv:
        I.eq(t.mse_function(P((YH, "theta", w), inv)), mse, "mse")
    if not inv:
        is_reward(I, r, 1 - lam * terms if name == "pde_reward" else 1, mse, var, "reward")


def ranking(I, M, name):
    """with equally many terms, a strictly smaller error is a strictly larger reward; a perfect fit is best"""
    h, g = I.real("h", -4, 4), I.real("g", -4, 4)
    lam = I.choose("lam", [0, 0.01, 0.125])
    dt = object if I.symbolic else float
    col = lambda a: np.array(a, dtype=dt).reshape(-1, 1)
    Y, YH, G = col([0.0, 1.0, 2.0]), col([h, 1.0, 2.0]), col([0.0, 1.0, 2.0 + g])
    if name == "regression":
        m = M.reg.make_regression_metric("inv_nrmse", 0.0)[0]
        a, b, best = m(Y, YH), m(Y, G), m(Y, Y)
    else:
        m, bad, top = M.pde.make_pde_metric(name, lam)
        a, b, best = m(Y, YH, 3), m(Y, G, 3), m(Y, Y, 3)
        I.check(bad == 0.0 and top == 1.0, "declared extremes")
    I.check(I.implies(h * h < g * g, a > b), "smaller error, larger reward")
    I.check(best >= a, "perfect fit is best")
    I.check(I.all([a <= 1, a > 0]), "reward range")
    I.eq(best, 1 - 3 * lam if name == "pde_reward" else 1, "reward of a perfect fit")
    if name == "pde_reward":
        I.check(m(Y, YH, 2) >= a, "fewer terms, no smaller reward")


class Tok:
    pass


def regression(I, M, n, ntok, floor=False):
    """reward, error and success of the tabular task"""
    pc = I.choose("pc", [0, 0.125, 0.375])
    t = M.reg.RegressionTask(["add"], "d", threshold=0.25)
    t.metric, t.invalid_reward, t.max_reward = M.reg.make_regression_metric("inv_nrmse", pc)
    if floor:
        c = I.real("c", -4, 4)
        y = [c] * n
        yh = [c] * n
        mse, var = 0, 1e-12
        dt = object if I.symbolic else float
        Y, YH = np.array(y, dtype=dt).reshape(-1, 1), np.array(yh, dtype=dt).reshape(-1, 1)
    else:
        Y, YH, y, yh, mse, var = two(I, n)
        I.require(var > 0.001)
    t.x, t.y = ["x"], Y
    mode = I.choose("mode", ["ok", "invalid", "none"])
    out = {"ok": (YH, None, [1.0]), "invalid": (YH, None, [1.0]), "none": (None, None, [1.0])}[mode]

    def mk():
        p = P(out, mode == "invalid")
        p.traversal = [Tok()] * ntok
        return p
    r, w, yo, _ = t.reward_function(mk())
    e = t.evaluate(mk())
    if mode != "ok":
        I.check(r == 0.0 and yo is None, "invalid reward")
        I.check(e["mse"] is None and e["nmse_test"] is None and e["success"] is False, "no error for an invalid program")
        I.check(t.mse_function(mk()) == float("inf"), "invalid programs have infinite error for the optimiser")
        return
    I.check(yo is YH, "prediction handed on")
    I.eq(t.mse_function(mk()), mse, "mse")
    I.eq(e["mse"], mse, "reported mse")
    I.eq(e["nmse_test"], mse, "reported nmse")
    I.check((bool(e["success"]) == (mse < 0.25)) if I.symbolic else bool(e["success"]) == bool(mse < 0.25), "success")
    is_reward(I, r, max(1 - pc * ntok, 0), mse, var, "reward")


def program(I, M, n):
    """a program's reward, coefficients and prediction come from one and the same reward evaluation"""
    lib = disco.mklib(M, ["add", "x1"])
    r = I.real("r", 0, 1)
    calls = []

    def rf(p):
        calls.append(p)
        return r, ["w"], "yhat", "theta"
    with disco.program_ctx(M, lib, reward_function=rf) as Pm:
        seq = disco.gen_seq(I, M, ["add", "x1"], n)
        p = M.program.from_tokens(np.array([["add", "x1"].index(s) for s in seq], dtype=np.int32))
        a = p.r_ridge
        b = M.program.from_tokens(np.array([["add", "x1"].index(s) for s in seq], dtype=np.int32)).r_ridge
        I.eq(a, r, "reward")
        I.eq(b, r, "cached reward")
        I.check(len(calls) == 1 and calls[0] is p, "evaluated once")
        I.check(p.w == ["w"] and p.y_hat_rhs == "yhat" and p.Theta == "theta", "coefficients, prediction and term matrix")


def load_data(I, M, npar, torch_ut=False):
    """the task holds the given arrays unchanged and binds every parameter token to its own field"""
    n, m = 2, 3
    u = I.array("u", (n, m))
    ut = I.array("ut", (n, m))
    X = [I.array("x", (n, 1))]
    par = [I.array(f"p{k}", (n, m)) for k in range(npar)]
    names = [f"c{k}" for k in range(npar)]
    t = make_pde(M, M.pde.PDETask, metric="pde_reward")
    t.load_data({"u": u, "ut": ut, "X": X, "n_input_dim": 1, "param_data": par or None, "n_param_var": npar, "param_names": names or None})
    I.check(len(t.u) == 1 and t.u[0] is u and t.x is X, "field and coordinates")
    I.eq_all(t.ut, np.asarray(ut).reshape(-1, 1), "left-hand side")
    toks = {tk.name: tk for tk in t.library.tokens}
    I.check(sorted(toks) == sorted(["add", "mul", "u1", "x1"] + names), "library")
    for k in range(npar):
        I.check(toks[names[k]]._param_data_ref is par[k], "parameter token bound to its own field")
        I.check(toks[names[k]].arity == 0 and toks[names[k]].param_var == k, "parameter token role")


HARNESSES = [
    H(pde_task, [dict(cls=c, name=m, n=2, terms=k) for c in ("pde", "pinn") for m in ("pde_reward", "inv_nrmse") for k in (1, 4)],
      thorough=[dict(cls="pde", name="pde_reward", n=3, terms=2)], bounds="all targets and predictions of 2 (3) points, penalties 0..0.2"),
    H(ranking, [dict(name=m) for m in ("pde_reward", "inv_nrmse", "regression")], bounds="all pairs of predictions off at one point each"),
    H(regression, [dict(n=2, ntok=1), dict(n=2, ntok=5), dict(n=2, ntok=3, floor=True)], bounds="2 points, three penalties"),
    H(program, [dict(n=5)], bounds="every expression up to 5 tokens"),
    H(load_data, [dict(npar=0), dict(npar=2)], bounds="2x3 fields, up to 2 parameter fields"),
]

"""C08: executing a token sequence computes the expression it denotes"""
import numpy as np

from symx.runner import H
from . import disco
from . import fdref as R
from .disco import nest, quiet_ctx

ASSUMPTIONS = ["float rounding is outside the claim", "sin/cos/exp/log/tanh are uninterpreted functions",
               "numba is switched off in the symbolic run and on in replays"]
UF1 = {"sin", "cos", "tan", "exp", "log", "tanh"}
BIG = 1e6


def load():
    M = disco.load_disco()
    import importlib
    M.nn = importlib.import_module("kd.model.discover.task.pde.utils_nn")
    M.loss = importlib.import_module("kd.model.discover.loss")
    return M


def uf(I, n, v):
    if I.symbolic:
        return getattr(np, n)(v) if not hasattr(v, "e") else getattr(v, n)()
    return getattr(np, n)(v)


def emap(f, *arrs):
    b = np.broadcast_arrays(*[np.asarray(a) for a in arrs])
    out = np.empty(b[0].shape, dtype=object)
    for i in np.ndindex(*b[0].shape):
        out[i] = f(*[a[i] for a in b])
    return out


def point(I, n, *a):
    """reference meaning of a registered operator at one point"""
    x = a[0]
    if n in ("add", "add_t"):
        return a[0] + a[1]
    if n in ("sub", "sub_t"):
        return a[0] - a[1]
    if n in ("mul", "mul_t"):
        return a[0] * a[1]
    if n == "div":
        return a[0] / a[1]
    if n in ("n2", "n3", "n4", "n5"):
        return x ** int(n[1])
    if n == "neg":
        return -x
    if n == "abs":
        return I.ite(x >= 0, x, -x)
    if n == "max":
        return I.ite(a[0] >= a[1], a[0], a[1])
    if n == "min":
        return I.ite(a[0] <= a[1], a[0], a[1])
    if n == "inv":
        return 1 / x
    if n == "sqrt":
        return x ** 0.5
    if n in UF1:
        return uf(I, n, x)
    if n == "logabs":
        return uf(I, "log", I.ite(x >= 0, x, -x))
    if n == "expneg":
        return uf(I, "exp", -x)
    if n == "sigmoid":
        return 1 / (1 + uf(I, "exp", -x))
    if n == "protected_div":
        return a[0] / a[1] if bool(I.any(a[1] > 0.001, a[1] < -0.001)) else 1.0
    if n == "protected_inv":
        return 1 / x if bool(I.any(x > 0.001, x < -0.001)) else 0.0
    if n == "protected_exp":
        return uf(I, "exp", x) if bool(x < 100) else 0.0
    if n == "protected_expneg":
        return uf(I, "exp", -x) if bool(x > -100) else 0.0
    if n in ("protected_log", "protected_logabs"):
        return uf(I, "log", I.ite(x >= 0, x, -x)) if bool(I.any(x > 0.001, x < -0.001)) else 0.0
    if n == "protected_sqrt":
        return I.ite(x >= 0, x, -x) ** 0.5
    if n in ("protected_n2", "protected_n3", "protected_n4"):
        return x ** int(n[-1]) if bool(I.all(x < BIG, x > -BIG)) else 0.0
    if n == "protected_sigmoid":
        return 1 / (1 + (uf(I, "exp", -x) if bool(x > -100) else 0.0))
    raise KeyError(n)


class Env:
    """data of one execution"""

    def __init__(self, I, dim, shape, ns=1, npar=0, xt=True):
        self.I, self.dim = I, dim
        self.u = [I.array(f"u{k}", shape) for k in range(ns)]
        self.p = [I.array(f"p{k}", shape) for k in range(npar)]
        self.x, self.h = [], []
        for k in range(dim):
            n = shape[k if dim == 1 else k + 1]
            h = I.real(f"h{k}", 0.0625, 4)
            o = I.real(f"o{k}", -4, 4)
            x = np.array([o + i * h for i in range(n)], dtype=object if I.symbolic else float)
            self.x.append(x.reshape(-1, 1))
            self.h.append(h)
        self.u0 = [a.copy() for a in self.u]

    def axis(self, k):
        return 0 if self.dim == 1 else k + 1


def value(env, t):
    """reference: recursive evaluation of the expression tree"""
    n, kids = t[0], t[1:]
    if n[0] == "u" and n[1:].isdigit():
        return env.u0[int(n[1:]) - 1]
    if n[0] == "x" and n[1:].isdigit():
        k = int(n[1:]) - 1       # varies along its own axis
        sh = [1] * np.ndim(env.u0[0])
        sh[env.axis(k)] = -1
        return np.asarray(env.x[k]).reshape(sh)
    if n[0] == "p" and n[1:].isdigit():
        return env.p[int(n[1:]) - 1]
    if n == "const":
        return env.c
    f = value(env, kids[0])
    I = env.I
    if "iff" in n:
        k = int(kids[1][0][1:]) - 1
        h, ax = env.h[k], env.axis(k)
        per = n in ("Diff", "Diff2")
        d1, d2 = (R.p1, R.p2) if per else (R.d1, R.d2)
        order = {"diff": 1, "diff2": 2, "diff3": 3, "diff4": 4, "Diff": 1, "Diff2": 2, "Diff_3": 1, "Diff2_3": 2}[n]
        f = np.asarray(f)
        for g in {1: [d1], 2: [d2], 3: [d2, d1], 4: [d2, d2]}[order]:
            f = R.along(g, f, ax, h)
        return f
    if n in ("lap", "lap_3"):
        r = 0
        for k in range(env.dim):
            r = r + R.along(R.p2 if n == "lap" else R.d2, np.asarray(f), k + 1, env.h[k])
        return r
    args = [f] + [value(env, c) for c in kids[1:]]
    return emap(lambda *a: point(I, n, *a), *args)


def grounded(t):
    """every differentiated operand contains a field"""
    def has(t):
        return t[0][0] in "up" or any(has(c) for c in t[1:])
    return all(grounded(c) for c in t[1:]) and (not ("iff" in t[0] or "lap" in t[0]) or has(t[1]))


def ops(I, M, name, k):
    """a registered operator computes what its name says"""
    t = M.functions.function_map[name]
    need = 2 if name.split("_")[-1] in ("add", "sub", "mul", "div", "max", "min") else 1
    I.check(t.arity == need, "number of operands")
    a = [I.array(f"a{i}", (k,)) for i in range(need)]
    for q in a:
        for v in q:
            if name in ("div", "inv"):
                I.require(I.any(v > 0.0625, v < -0.0625))
            if name in ("log", "sqrt"):
                I.require(v > 0.0625)
            if name in ("logabs",):
                I.require(I.any(v > 0.0625, v < -0.0625))
            I.require(I.any(I.all(v > -50, v < 50), *([v > 2e6] if name.startswith("protected_n") else [])))
    with quiet_ctx():
        got = t(*[q.copy() for q in a])
    ref = emap(lambda *z: point(I, name, *z), *a)
    I.eq_all(got, ref, name)


def execute(I, M, names, maxlen, dim, shape, ns=1, npar=0, first=None):
    """numpy execution of any expression equals recursive evaluation of its tree"""
    env = Env(I, dim, shape, ns, npar)
    seq = disco.gen_seq(I, M, names, maxlen, first=first)
    trav = []
    for n in seq:
        t = disco.token(M, n)
        if t.param_var is not None:
            t._param_data_ref = env.p[t.param_var]
        trav.append(t)
    tree = nest(seq, lambda n: disco.token(M, n).arity)
    if not grounded(tree):
        return
    with quiet_ctx():
        y, invalid, _, _ = M.stridge.unsafe_execute(trav, env.u, env.x)
    I.check(y is not None, "the expression is executed")
    ref = value(env, tree)
    I.eq_all(y, ref, ",".join(seq))
    for a, b in zip(env.u, env.u0):
        I.eq_all(a, b, "field unchanged")


# ---------------------------------------------------------------------------- torch
class TEnv:
    """state and coordinates as tensors: real torch, or the symbolic look-alike"""

    def __init__(self, I, M, rows, dim, ns, with_t=False):
        self.I = I
        nd = dim + int(with_t)
        if I.symbolic:
            from symx import torchshim as S
            self.S = S
            self.x = [S.coord(I.array(f"x{k}", (rows, 1)), [k]) for k in range(nd)]
            self.u = [S.T(I.array("u", (rows, ns)))]
        else:
            import torch
            xs = [torch.tensor(I.array(f"x{k}", (rows, 1)), dtype=torch.float64, requires_grad=True) for k in range(nd)]
            c = torch.tensor(I.array("u", (rows, ns)), dtype=torch.float64)
            s = sum((k + 1) * x for k, x in enumerate(xs))
            cols = [c[:, j:j + 1] + 0.3 * (j + 1) * s + 0.1 * s ** 2 + 0.07 * torch.sin(s * (1 + 0.5 * j)) *
                    (1 + 0.2 * xs[0]) for j in range(ns)]
            self.x, self.u = xs, [torch.cat(cols, dim=1)]
        self.t = self.x[-1] if with_t else None
        self.x = self.x[:dim]

    def d(self, f, k):
        if self.I.symbolic:
            return emap(lambda v: self.S.D(v, k), np.asarray(f))
        import torch
        return torch.autograd.grad(f.sum(), self.x[k], create_graph=True)[0]


def tvalue(env, t):
    n, kids = t[0], t[1:]
    sym = env.I.symbolic
    if n[0] == "u" and n[1:].isdigit():
        k = int(n[1:]) - 1
        u = np.asarray(env.u[0]) if sym else env.u[0]
        return u[:, k:k + 1]
    if n[0] == "x" and n[1:].isdigit():
        x = env.x[int(n[1:]) - 1]
        return np.asarray(x) if sym else x
    a = [tvalue(env, c) for c in kids]
    order = {"diff_t": 1, "diff2_t": 2, "diff3_t": 3, "diff4_t": 4}.get(n)
    if order:
        k = int(kids[1][0][1:]) - 1
        f = a[0]
        for _ in range(order):
            f = env.d(f, k)
        return f
    if n == "lap_t":
        return sum(env.d(env.d(a[0], k), k) for k in range(len(env.x)))
    if n == "add_t":
        return a[0] + a[1]
    if n == "sub_t":
        return a[0] - a[1]
    if n == "mul_t":
        return a[0] * a[1]
    if n == "div_t":
        if sym:
            return emap(lambda p, q: p / q if bool(env.I.any(q > 1e-8, q < -1e-8)) else p * 1e8, *a)
        import torch
        return torch.where(a[1].abs() > 1e-8, a[0] / a[1], a[0] * 1e8)
    if n in ("n2_t", "n3_t"):
        e = int(n[1])
        if sym:
            return emap(lambda p: p ** e if bool(env.I.all(p < 1e6, p > -1e6)) else 0.0, a[0])
        import torch
        return torch.where(a[0].abs() < 1e6, a[0] ** e, 0 * a[0])
    raise KeyError(n)


def tctx(I, M):
    import contextlib
    st = contextlib.ExitStack()
    if I.symbolic:
        from unittest import mock
        from symx import torchshim as S
        st.enter_context(S.install(M.functions, M.execute, M.stridge, M.nn, M.loss))
        for t in M.functions.function_map.values():
            f = S.token_function(t.function)
            if f is not t.function:
                st.enter_context(mock.patch.object(t, "function", f))
    return st


def tarr(I, v):
    return np.asarray(v) if I.symbolic else v.detach().numpy()


def uses(t, c):
    return t[0][0] == c and t[0][1:].isdigit() or any(uses(k, c) for k in t[1:])


def tgrounded(t):
    return all(tgrounded(c) for c in t[1:]) and (not ("iff" in t[0] or "lap" in t[0]) or uses(t[1], "u"))


def execute_torch(I, M, names, maxlen, rows, dim, ns=1):
    """tensor execution (automatic differentiation) of any expression equals recursive evaluation of its tree"""
    seq = disco.gen_seq(I, M, names, maxlen)
    tree = nest(seq, lambda n: disco.token(M, n).arity)
    if not tgrounded(tree):
        return
    env = TEnv(I, M, rows, dim, ns)
    with tctx(I, M), quiet_ctx():
        y, invalid, _, _ = M.stridge.unsafe_execute_torch([disco.token(M, n) for n in seq], env.u, env.x)
        I.check(not invalid and not isinstance(y, int), "the expression is executed")
        I.eq_all(tarr(I, y), tarr(I, tvalue(env, tree)), ",".join(seq), **({} if I.symbolic else {"rtol": 1e-5, "atol": 1e-6}))


def pinn_residual(I, M, terms, rows, dim, const=False, extra=False):
    """the physics loss is the mean square of u_t minus the weighted sum of the discovered terms"""
    arity = lambda n: disco.token(M, n).arity
    env = TEnv(I, M, rows, dim, 1, with_t=True)
    w = [I.real(f"w{k}", -4, 4) for k in range(len(terms) + const)]
    seq = ["add_t"] * (len(terms) - 1) + [n for t in terms for n in t]
    seqs = [n for n in seq]
    # right-leaning sum: add a (add b c)
    seq = []
    for k, t in enumerate(terms):
        seq += (["add_t"] if k < len(terms) - 1 else []) + list(t)
    p = type("P", (), {})()
    p.STRidge = M.stridge.STRidge([disco.token(M, n) for n in seq], const=const)
    env.full = env.x + [env.t]

    class Net:
        def net_u(self, X):
            return env.u[0]
    with tctx(I, M), quiet_ctx():
        loss = M.loss.pinn_loss(Net(), p, env.x, env.t, list(w), extra)
        vals = [tarr(I, tvalue(env, nest(t, arity))) for t in terms]
        if I.symbolic:
            ut = emap(lambda v: env.S.D(v, dim), np.asarray(env.u[0])[:, 0:1])
        else:
            import torch
            ut = torch.autograd.grad(env.u[0].sum(), env.t, create_graph=True)[0].detach().numpy()
    r = [ut[i, 0] - sum(w[k] * vals[k][i, 0] for k in range(len(terms))) - (w[-1] if const else 0) for i in range(rows)]
    ref = sum(q * q for q in r) / rows
    I.eq(loss.item(), ref, "loss", **({} if I.symbolic else {"rtol": 1e-4, "atol": 1e-6}))


POINT = ["add", "sub", "mul", "div", "sin", "cos", "tan", "exp", "log", "sqrt", "n2", "n3", "n4", "n5", "neg", "abs",
         "max", "min", "tanh", "inv", "logabs", "expneg", "sigmoid", "protected_div", "protected_exp", "protected_log",
         "protected_logabs", "protected_sqrt", "protected_inv", "protected_expneg", "protected_n2", "protected_n3",
         "protected_n4", "protected_sigmoid"]

HARNESSES = [
    H(ops, [{"name": n, "k": 2} for n in POINT], bounds="two-element arrays of all real values in [-50,50] (powers: and > 2e6)"),
    H(execute, [
        dict(names=["add", "mul", "n2", "diff", "u1", "x1"], maxlen=5, dim=1, shape=(4, 2)),
        dict(names=["sub", "diff2", "diff", "n3", "u1", "x1"], maxlen=5, dim=1, shape=(5, 1)),
        dict(names=["sub", "mul", "diff3", "diff4", "u1", "u2", "p1", "x1"], maxlen=4, dim=1, shape=(5, 1), ns=2, npar=1),
        dict(names=["sub", "div", "u1", "u2", "p1", "p2"], maxlen=5, dim=1, shape=(1, 1), ns=2, npar=2),
        dict(names=["mul", "Diff", "Diff2", "u1", "x1", "x2"], maxlen=5, dim=2, shape=(1, 4, 5)),
        dict(names=["add", "lap", "Diff", "u1", "x1", "x2"], maxlen=4, dim=2, shape=(1, 4, 5)),
        dict(names=["Diff_3", "Diff2_3", "lap_3", "u1", "x1", "x2", "x3"], maxlen=3, dim=3, shape=(1, 4, 5, 4)),
        dict(names=["add", "mul", "Diff_3", "u1", "x1", "x2", "x3"], maxlen=5, dim=3, shape=(1, 4, 5, 4), first=["mul"]),
    ], thorough=[
        dict(names=["add", "mul", "n2", "diff", "u1", "x1"], maxlen=7, dim=1, shape=(4, 1)),
        dict(names=["mul", "Diff", "Diff2", "u1", "u2", "x1", "x2"], maxlen=7, dim=2, shape=(1, 4, 5), ns=2, first=["mul"]),
        dict(names=["Diff_3", "Diff2_3", "lap_3", "u1", "x1", "x2", "x3"], maxlen=4, dim=3, shape=(1, 4, 5, 4)),
    ], bounds="every complete expression up to the stated length; all real field, parameter and coordinate values on the "
              "stated grid; uniform spacing"),
    H(execute_torch, [
        dict(names=["add_t", "mul_t", "diff_t", "diff2_t", "u1", "x1"], maxlen=5, rows=2, dim=1),
        dict(names=["sub_t", "div_t", "n2_t", "diff3_t", "u1", "u2", "x1"], maxlen=4, rows=1, dim=1, ns=2),
        dict(names=["mul_t", "lap_t", "diff4_t", "n3_t", "diff_t", "u1", "x1", "x2"], maxlen=4, rows=2, dim=2)],
      thorough=[dict(names=["add_t", "mul_t", "diff_t", "diff2_t", "n2_t", "u1", "x1"], maxlen=6, rows=1, dim=1),
                dict(names=["sub_t", "mul_t", "lap_t", "diff_t", "diff2_t", "u1", "u2", "x1", "x2"], maxlen=5, rows=2, dim=2, ns=2)],
      bounds="every complete expression up to the stated length; all real values; derivatives are uninterpreted functions "
             "(one per coordinate) in the symbolic run, torch.autograd on replay"),
    H(pinn_residual, [dict(terms=(("u1",), ("mul_t", "u1", "diff_t", "u1", "x1"), ("diff2_t", "u1", "x1")), rows=2, dim=1, const=c)
                      for c in (False, True)] +
      [dict(terms=(("n2_t", "u1"), ("diff_t", "u1", "x2")), rows=2, dim=2)],
      bounds="all states, coordinates and coefficients; two rows"),
]

"""C18: tabular regression: the reported expression, constants, error and predictions belong to one program on the user's data"""
import contextlib
import importlib
import re
from unittest import mock

import numpy as np

from symx.runner import H
from . import disco
from .c16 import Marks
from .disco import nest, quiet_ctx

ASSUMPTIONS = ["the reward is an arbitrary number (its formula is decided by C12)", "controller and search loop are replaced by an arbitrary choice of program; the constant optimiser by one that "
               "tries and returns arbitrary constants", "float rounding is outside the claim"]


def load():
    M = disco.load_disco()
    M.reg = importlib.import_module("kd.model.kd_discover_regression")
    M.rtask = importlib.import_module("kd.model.discover.task.regression")
    M.base = importlib.import_module("kd.model.kd_discover")
    M.const = importlib.import_module("kd.model.discover.const")
    return M


def value(t, X, i, consts):
    """tree value at row i; constants are consumed in prefix order"""
    n = t[0]
    if n == "const":
        return next(consts)
    if n[0] == "x" and n[1:].isdigit():
        return X[i, int(n[1:]) - 1]
    a = [value(k, X, i, consts) for k in t[1:]]
    return {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "neg": lambda: -a[0],
            "n2": lambda: a[0] * a[0]}[n]()


ARITY = dict(add=2, sub=2, mul=2, neg=1, n2=1, const=0)


def column(seq, X, consts):
    t = nest(seq, lambda n: ARITY.get(n, 0))
    return [value(t, X, i, iter(consts)) for i in range(X.shape[0])]


@contextlib.contextmanager
def estimator(I, M, pick, opt, ops):
    """the estimator with the learned parts replaced; pick() gives the program found by the search"""
    K = M.reg.KD_Discover_Regression
    P = M.program.Program
    saved = {k: P.__dict__.get(k) for k in ("task", "library", "cache", "const_optimizer", "execute_function", "use_torch", "protected")}

    def train(self, n_epochs=100, verbose=True):
        self.epochs_asked = n_epochs
        p = M.program.from_tokens(np.array([P.library.names.index(s) for s in pick()], dtype=np.int32))
        r = p.r_ridge
        return {"r": r, "expression": p.str_expression, "traversal": repr(p), "program": p}
    seen = []

    def metric(y, y_hat, n_tokens=0):
        r = I.real(f"reward{len(seen)}", 0.01, 1)
        seen.append((y, y_hat, n_tokens, r))
        return r
    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(M.rtask, "make_regression_metric", lambda *a, **k: (metric, 0.0, 1.0)))
        for f in ("make_prior", "make_state_manager", "make_controller", "make_gp_aggregator", "make_searcher"):
            st.enter_context(mock.patch.object(M.base.KD_Discover, f, lambda self: None))
        st.enter_context(mock.patch.object(M.base.KD_Discover, "train", train))
        st.enter_context(mock.patch.object(M.base.KD_Discover, "set_seeds", lambda self, s: None))
        st.enter_context(mock.patch.object(M.program, "make_const_optimizer", lambda name, **k: opt))
        if I.symbolic:
            st.enter_context(mock.patch.object(M.reg, "round", lambda v, n=None: v, create=True))
        try:
            yield seen, lambda **k: K(binary_operators=[o for o in ops if ARITY[o] == 2],
                                unary_operators=[o for o in ops if ARITY[o] == 1], out_path=None, **k)
        finally:
            for k, v in saved.items():
                setattr(P, k, v)


def read_back(I, text, marks, names=None):
    """tokens and constants in a printed prefix expression"""
    toks, consts = [], []
    for w in text.split(","):
        m = re.fullmatch("(-?)(⟨\\d+⟩)\\.0", w)
        if m:
            v = marks.read(m[2])
            toks.append("const")
            consts.append(-v if m[1] else v)
        elif re.fullmatch(r"-?\d+\.\d+", w):
            toks.append("const")
            consts.append(float(w))
        else:
            toks.append(w)
    return toks, consts


def fit(I, M, n, f, ops, maxlen, named, again=False):
    """one fit: data handed to the task, constants, reported numbers, printed expression, predictions"""
    marks = Marks(I)
    nc = [0]

    def fresh(k):
        nc[0] += 1
        return [I.real(f"c{nc[0]}_{j}", -3, 3) for j in range(k)]
    log = []

    def opt(fun, x0):
        a = fresh(len(x0))
        log.append((a, fun(np.array(a, dtype=object if I.symbolic else float))))
        b = fresh(len(x0))
        log.append(b)
        return np.array(b, dtype=object if I.symbolic else float)
    names = ["x%d" % (k + 1) for k in range(f)] + ["const"]
    seqs = []

    def pick():
        s = disco.gen_seq(I, M, ops + names, maxlen, tag=f"s{len(seqs)}_", diffx=False)
        seqs.append(s)
        return s
    with estimator(I, M, pick, opt, ops) as (seen, K), quiet_ctx():
        X, y = I.array("X", (n, f), -3, 3), [I.real(f"y{i}", -3, 3) for i in range(n)]
        Y = np.array(y, dtype=object if I.symbolic else float)
        if I.choose("ycol", [False, True]):
            Y = Y.reshape(-1, 1)
        X0, Y0 = X.copy(), Y.copy()
        model = K(n_iterations=7)
        var = None
        if named:
            var = ["b%d" % (f - k) for k in range(f)]
        res = model.fit(X, Y, var) if var else model.fit(X, Y)
        I.eq_all(X, X0, "inputs unchanged")
        I.eq_all(Y, Y0, "targets unchanged")
        seq, P = seqs[0], M.program.Program
        k = seq.count("const")
        task = P.task
        I.check(model.epochs_asked == 7, "the requested number of iterations")
        I.check(len(task.x) == f and all(np.shape(c) == (n, 1) for c in task.x), "feature columns")
        for j in range(f):
            I.eq_all(np.asarray(task.x[j])[:, 0], X0[:, j], "feature column values")
        I.eq_all(np.asarray(task.y)[:, 0], np.asarray(Y0).reshape(-1), "target values")
        I.check(set(P.library.names) == set(ops + names), "tokens offered to the search")
        # constants
        p = res["program"]
        I.check([t.name for t in p.traversal] == list(seq), "the search's own program")
        if k:
            tried, val = log[0]
            I.eq(val, sum([(a - b) * (a - b) for a, b in zip(column(seq, X0, tried), y)]) / n, "objective of the constant optimiser")
            I.check(len(log) == 2, "constants are optimised once")
            cs = log[1]
        else:
            cs = []
            I.check(not log, "nothing to optimise")
        I.check(len(res["constants"]) == k, "constants reported")
        for a, b in zip(res["constants"], cs):
            I.eq(a, b, "reported constant")
        want = column(seq, X0, cs)
        mse = sum([(a - b) * (a - b) for a, b in zip(want, y)]) / n
        I.eq(res["mse"], mse, "reported error")
        I.check(len(seen) == 1 and seen[0][2] == len(seq), "rewarded once")
        I.eq(res["reward"], seen[0][3], "reported reward")
        I.eq_all(np.asarray(seen[0][0]).reshape(-1), np.asarray(Y0).reshape(-1), "rewarded against the targets")
        I.eq_all(np.asarray(seen[0][1]).reshape(-1), np.array(want, dtype=object if I.symbolic else float), "rewarded prediction")
        I.check(list(res["var_names"]) == (var or names[:f]) and model.n_features_in_ == f, "names reported")
        # printed expression
        for key, vn in (("expression", names[:f]), ("expression_named", var or names[:f])):
            toks, consts = read_back(I, res[key], marks)
            I.check(toks == [vn[int(s[1:]) - 1] if s[0] == "x" else s for s in seq], key)
            for a, b in zip(consts, cs):
                if I.symbolic:
                    I.eq(a, b, key + " constant")
                else:
                    I.check(abs(a - b) < 1e-6, key + " constant")
        # prediction on other data
        m = I.choose("rows", [1, n + 1])
        X2 = I.array("Z", (m, f), -3, 3)
        if again:
            other = K()
            X3 = I.array("W", (n, f), -3, 3)
            other.fit(X3, Y)
        out = model.predict(X2)
        I.check(np.shape(out) == (m,), "one prediction per row")
        for i, v in enumerate(column(seq, X2, cs)):
            I.eq(out[i], v, "prediction")
        for g in (f - 1, f + 1):
            if g:
                try:
                    model.predict(I.array("Q%d" % g, (2, g)))
                    I.fail("wrong number of features accepted")
                except ValueError:
                    pass


def refuse(I, M):
    """unusable input is refused before anything is trained; prediction before fit is refused"""
    ops = ["add"]
    with estimator(I, M, lambda: ["x1"], None, ops) as (seen, K), quiet_ctx():
        n, f, ny, nv = (I.choose("n", [1, 2, 3]), I.choose("f", [1, 2]), I.choose("ny", [1, 2, 3]), I.choose("names", [0, 1, 2, 3]))
        nd = I.choose("nd", [1, 2, 3])
        X = I.array("X", {1: (n,), 2: (n, f), 3: (n, f, 1)}[nd])
        Y = I.array("y", (ny,))
        bad = nd != 2 or ny != n or (nv and nv != f)
        model = K()
        try:
            model.predict(I.array("Z", (2, f)))
            I.fail("predict before fit")
        except RuntimeError:
            pass
        try:
            out = model._validate_inputs(X, Y, ["n%d" % k for k in range(nv)] if nv else None)
            I.check(not bad, "unusable input accepted")
            I.eq_all(out[0], X, "X")
            I.eq_all(out[1], Y, "y")
            I.check(list(out[2]) == (["n%d" % k for k in range(nv)] if nv else ["x%d" % (k + 1) for k in range(f)]), "names")
        except ValueError:
            I.check(bad, "usable input refused")


def naming(I, M, k):
    """variable names replace the tokens, whatever the names are"""
    pool = ["x2", "x1", "max1", "x10", "add", "temp"]
    names, left = [], list(pool)
    for i in range(k):
        nm = I.choose(f"n{i}", left)
        left.remove(nm)
        names.append(nm)
    toks = [I.choose(f"t{i}", ["x%d" % (j + 1) for j in range(k)] + ["2.5"]) for i in range(3)]
    e = "add," + toks[0] + ",mul," + toks[1] + "," + toks[2]
    out = M.reg.KD_Discover_Regression._render_named_expression(e, names)
    want = [names[int(t[1:]) - 1] if t[0] == "x" else t for t in e.split(",")]
    I.check(out == ",".join(want), "named expression")


def numbers(I, M):
    """printed constants read back to six decimals"""
    for v in [0.0, 1.0, -1.0, 10.0, 100.0, -250.0, 0.5, 1.25, 0.1234567, -3.000001, 123456.75, 1e-7, 1e7, 2.9999999]:
        s = M.reg.KD_Discover_Regression._format_constant(np.array([v]))
        I.check("." in s and abs(float(s) - v) <= 5.1e-7, f"printed constant {v} -> {s}")


def isolation(I, M, maxlen):
    """two programs never share a constant; setting constants touches only the constants"""
    names = ["add", "mul", "x1", "const"]
    lib = disco.mklib(M, names)
    with disco.program_ctx(M, lib):
        sa = disco.gen_seq(I, M, names, maxlen, tag="a", diffx=False)
        sb = disco.gen_seq(I, M, names, maxlen, tag="b", diffx=False)
        pa, pb = [M.program.from_tokens(np.array([names.index(s) for s in q], dtype=np.int32)) for q in (sa, sb)]
        ca, cb = [[I.real(f"{t}{j}", -2, 2) for j in range(q.count("const"))] for t, q in (("u", sa), ("v", sb))]
        pb.set_constants(cb)
        pa.set_constants(ca)
        got = pb.get_constants()
        for j, v in enumerate(ca if sa == sb else cb):
            I.eq(got[j], v, "constants of the other program")
        for j, v in enumerate(ca):
            I.eq(pa.get_constants()[j], v, "own constants")
        I.check([t.name for t in pa.traversal] == sa and [t.name for t in pb.traversal] == sb, "expressions unchanged")
        I.check(lib[names.index("const")].value is None, "library placeholder unset")


HARNESSES = [
    H(fit, [dict(n=2, f=2, ops=["add", "mul"], maxlen=3, named=True), dict(n=2, f=1, ops=["sub", "n2"], maxlen=4, named=False)],
      thorough=[dict(n=2, f=2, ops=["sub", "mul"], maxlen=5, named=True, again=True)],
      bounds="all X, y of 2 rows and 1-2 features, every expression up to 3-4 (5) tokens, all constants"),
    H(fit, [dict(n=2, f=1, ops=["add"], maxlen=3, named=False, again=True)], bounds="a second model is fitted in between"),
    H(refuse, [{}], bounds="1-3 rows, 1-2 features, 1-3 targets and 0-3 names"),
    H(naming, [dict(k=2), dict(k=3)], bounds="every naming of 2-3 variables from six names, three operands"),
    H(numbers, [{}], bounds="14 constants"),
    H(isolation, [dict(maxlen=3)], thorough=[dict(maxlen=5)], bounds="every two expressions up to 3 (5) tokens"),
]

"""C29: estimators report, accept and use the parameters they are given"""
import contextlib
import importlib
import random
import tempfile
import types
from unittest import mock

import numpy as np

from symx.runner import H
from . import disco
from .env import quiet

ASSUMPTIONS = ["the backends (PySR, the searcher, the SGA solver, the networks) are stand-ins that write down what they are given",
               "sympy runs concretely"]


def load():
    M = disco.load_disco()
    imp = importlib.import_module
    M.base, M.ds, M.adapter = imp("kd.base"), imp("kd.dataset"), imp("kd.model.discover.adapter")
    M.disc, M.dlga, M.pysr, M.sga = imp("kd.model.kd_discover"), imp("kd.model.kd_dlga"), imp("kd.model.kd_pysr"), imp("kd.model.kd_sga")
    M.dlga_base = imp("kd.model.dlga")
    M.reg = imp("kd.model.kd_discover_regression")
    M.viz = imp("kd.viz.dlga_eq2latex")
    return M


class FakeNet:
    made = []

    def __init__(self, **kw):
        self.kw = kw


@contextlib.contextmanager
def networks(M):
    with mock.patch.object(M.dlga_base, "NN", FakeNet), quiet():
        yield


def classes(M):
    """class, constructor arguments: (name, kind), documented defaults"""
    sga = dict(sga_run=100, num=20, depth=4, width=5, p_var=0.5, p_mute=0.3, p_cro=0.5, seed=0, use_autograd=False, max_epoch=100000,
               use_metadata=False, delete_edges=False, target_field=None, lhs_axis=None, primary_spatial_axis=None)
    disc = dict(n_iterations=100, n_samples_per_batch=100, binary_operators=[], unary_operators=[], out_path='./log/', core_num=1,
                config_out=None, seed=0)
    return dict(
        sga=(M.sga.KD_SGA, sga, {}),
        discover=(M.disc.KD_Discover, disc, {}),
        spr=(M.disc.KD_Discover_SPR, disc, {}),
        regression=(M.reg.KD_Discover_Regression, disc, {}),
        dlga=(M.dlga.KD_DLGA, dict(verbose=True), dict(operators=["u", "u_x"], epi=0.5, input_dim=2)),
        pysr=(M.pysr.KD_PySR, dict(niterations=1000, binary_operators=None, unary_operators=None, extra_model_kwargs=None), {}),
    )


SPECIAL = {   # parameters that are not numbers: two values to choose from
    "binary_operators": (["add", "mul"], ["sub"]), "unary_operators": (["n2"], ["n3", "sin"]), "out_path": ("a/", None),
    "operators": (["u"], ["u", "u_x", "u_xx"]), "input_dim": (2, 3), "target_field": ("v", "u"), "lhs_axis": ("t", "x"),
    "primary_spatial_axis": ("y", "x"), "config_out": ({"task": {"threshold": 7.5}}, {"training": {"batch_size": 33}}),
    "extra_model_kwargs": ({"maxsize": 9}, {"loss": "l"}), "use_autograd": (True, False), "use_metadata": (True, False),
    "delete_edges": (True, False), "verbose": (False, True)}


def value(I, name, tag):
    if name in SPECIAL:
        return SPECIAL[name][tag]
    if name in ("p_var", "p_mute", "p_cro", "epi"):
        return I.real(f"{name}{tag}", 0, 1)
    if name == "niterations":
        return I.choose(f"{name}{tag}", [1, 40])       # converted with int()
    return I.int(f"{name}{tag}", 0, 1000)


def equal(I, got, want, label):
    if want is None or isinstance(want, (bool, str, list, dict)):
        I.check(type(got) is type(want) and got == want, label)
    else:
        I.check(got is not None and not isinstance(got, (bool, str)), label + ": a number")
        I.eq(got, want, label)


def est(I, M, which, mode):
    """what a constructor or set_params was given (and the default of what it was not) is reported by get_params, printed, used, and rebuilds an equal estimator"""
    cls, defaults, required = classes(M)[which]
    names = list(required) + list(defaults)
    with networks(M):
        if mode == "defaults":
            given = dict(required)
        else:
            given = {n: value(I, n, 0) for n in names}
        m = cls(**given)
        want = dict(defaults, **given)
        if which == "pysr" and want["extra_model_kwargs"] is None:
            want["extra_model_kwargs"] = {}
        reported(I, m, want, "constructed")
        derived(I, M, which, m, want)
        if mode == "set":
            I.check(m.set_params() is m, "set_params returns the estimator")
            reported(I, m, want, "nothing set")
            new = I.choose("which", [[n] for n in names] + [names])
            upd = {n: value(I, n, 1) for n in new}
            I.check(m.set_params(**upd) is m, "set_params returns the estimator")
            want.update(upd)
            reported(I, m, want, "after set_params")
            derived(I, M, which, m, want)
        if mode == "unknown":
            for bad in (dict(nonsense=1), dict(nonsense__a=1)):
                try:
                    m.set_params(**bad)
                    I.fail("an unknown parameter is refused")
                except ValueError:
                    pass
            I.check(not hasattr(m, "nonsense"), "an unknown parameter is not stored")
            try:
                cls(**given, nonsense=1)
                I.fail("the constructor refuses an unknown argument")
            except TypeError:
                pass
            reported(I, m, want, "after a refusal")
        I.check(cls.__name__ in repr(m), "the estimator can be printed")
        twin = cls(**m.get_params(deep=False))
        reported(I, twin, want, "rebuilt from its parameters")
        derived(I, M, which, twin, want)
    I.reach("done")


def reported(I, m, want, label):
    for deep in (True, False):
        got = m.get_params(deep=deep)
        I.check(sorted(got) == sorted(want), label + ": exactly the constructor's parameters are reported")
        for k in want:
            equal(I, got[k], want[k], f"{label}: {k}")


def derived(I, M, which, m, want):
    """what the estimator works with follows its parameters"""
    if which in ("discover", "spr", "regression"):
        I.check(list(m.operator) == want["binary_operators"] + want["unary_operators"], "the search uses the given operators")
        c = want["config_out"] or {}
        ref = classes(M)[which][0](config_out=c)
        I.check({k: m.config[k] for k in m.config} == {k: ref.config[k] for k in ref.config}, "the configuration is the one given")
        I.check(m.config_task is m.config["task"] and m.config_training is m.config["training"] and m.config_controller is m.config["controller"],
                "every section in use is the loaded one")
        if "task" in c:
            I.check(m.config["task"]["threshold"] == c["task"]["threshold"], "the given setting is in the configuration")
        if "training" in c:
            I.check(m.config["training"]["batch_size"] == c["training"]["batch_size"], "the given setting is in the configuration")
        if which == "spr":
            I.check(m.config_task["task_type"] == "pde_pinn" and m.config_pinn is m.config["pinn"], "the sparse-data task keeps its own configuration")
    if which == "dlga":
        I.check(m.user_operators == want["operators"] and m.library_size == len(want["operators"]), "the library is the given operators")
        I.check(m.Net.kw["Input_Dim"] == want["input_dim"] and m.Net.kw["Output_Dim"] == 1, "the network takes the given number of inputs")


def compose(I, M):
    """parameters of a contained estimator are reported and set under its own name, only there"""
    B = M.base.BaseEstimator

    class Inner(B):
        def __init__(self, a=1, b=2):
            self.a, self.b = a, b

    class Outer(B):
        def __init__(self, inner=None, c=3, kind=Inner, **rest):
            self.inner, self.c, self.kind = inner, c, kind

    class Loose(B):
        def __init__(self, *args):
            pass

    class Bare(B):
        __init__ = object.__init__
    v = {n: I.real(n, -9, 9) for n in ("a", "b", "c", "a2", "b2", "c2", "a3", "b3")}
    i1, i2 = Inner(v["a"], v["b"]), Inner(v["a3"], v["b3"])
    o = Outer(i1, c=v["c"])
    flat = o.get_params(deep=False)
    I.check(sorted(flat) == ["c", "inner", "kind"] and flat["inner"] is i1 and flat["kind"] is Inner, "own parameters")
    deep = o.get_params()
    I.check(sorted(deep) == ["c", "inner", "inner__a", "inner__b", "kind"], "parameters of the contained estimator are reported under its name")
    I.eq(deep["inner__a"], v["a"], "contained value")
    I.eq(deep["inner__b"], v["b"], "contained value")
    mode = I.choose("mode", ["one", "both", "replace", "bad", "bad_inner", "not_estimator"])
    try:
        if mode == "one":
            I.check(o.set_params(inner__a=v["a2"]) is o, "returns the estimator")
            want = (i1, v["a2"], v["b"], v["c"])
        elif mode == "both":
            o.set_params(c=v["c2"], inner__b=v["b2"], inner__a=v["a2"])
            want = (i1, v["a2"], v["b2"], v["c2"])
        elif mode == "replace":
            o.set_params(inner__a=v["a2"], inner=i2)
            want = (i2, v["a2"], v["b3"], v["c"])
            I.eq(i1.a, v["a"], "the replaced estimator is left alone")
        else:
            o.set_params(**{"bad": {"d": 1}, "bad_inner": {"inner__z": 1}, "not_estimator": {"inner__a__x": 1}}[mode])
            I.fail("an unknown parameter is refused")
    except ValueError:
        I.check(mode in ("bad", "bad_inner", "not_estimator"), "only unknown parameters are refused")
        want = (i1, v["a"], v["b"], v["c"])
        I.check(not hasattr(o, "d") and not hasattr(i1, "z"), "nothing unknown is stored")
    except AttributeError:
        I.check(mode == "not_estimator", "only a contained estimator has parameters")
        want = (i1, v["a"], v["b"], v["c"])
    I.check(o.inner is want[0], "contained estimator")
    for got, w in zip((o.inner.a, o.inner.b, o.c), want[1:]):
        I.eq(got, w, "value in use")
    I.check(o.get_params()["inner"] is o.inner, "reported estimator")
    I.eq(o.get_params()["inner__a"], want[1], "reported value")
    I.check(Bare()._get_param_names() == [], "no constructor, no parameters")
    try:
        Loose().get_params()
        I.fail("a constructor with unnamed arguments is refused")
    except RuntimeError:
        pass
    x = I.real("x", -9, 9)

    class Plain(B):
        def __init__(self, p=0, **params):
            self.p = p
            B.__init__(self, **params)
    I.check(Plain(x).get_params()["p"] is x or not I.symbolic, "collected arguments are not parameters")
    I.check(list(Plain(x).get_params()) == ["p"], "collected arguments are not parameters")
    I.reach(mode)


# -- PySR -----------------------------------------------------------------------------------
class Regressor:
    """what the wrapper needs of pysr.PySRRegressor"""
    def __init__(self, **kw):
        self.kw, self.fitted, self.asked = kw, [], []

    def fit(self, X, y):
        self.fitted.append((X, y))

    def predict(self, X):
        self.asked.append(X)
        return self.answer(X)

    def __str__(self):
        return "the model"


def raiser(*a):
    raise RuntimeError("not available")


def pysr(I, M, n, shape, vary):
    """fit hands exactly X, y and the given options to PySR; predictions and the best equation are the model's own"""
    X = I.array("X", (n, 2), -8, 8)
    y = I.array("y", {"flat": (n,), "col": (n, 1), "longer": (n + 1,), "row": (1, n)}[shape], -8, 8)
    Z = I.array("Z", (2, 2), -8, 8)
    out = I.array("p", (2,), -8, 8)
    pick = lambda name, values: I.choose(name, values) if name in vary else values[0]
    nit = pick("niter", [1, 7])
    bi = pick("bi", [None, ["+", "*"]])
    un = pick("un", [None, [], ["sin"]])
    extra = pick("extra", [None, {"maxsize": 9}, {"niterations": 3, "binary_operators": ["-"]}])
    get_best = pick("best", ["dict", "text", "raises", "absent"])
    sym = pick("sympy", ["expr", "raises", "absent"])
    tex = pick("latex", ["text", "blank", "none", "raises", "absent"])
    import sympy as sp
    expr = sp.Symbol("x0") ** 2 + 3

    class R(Regressor):
        made = []

        def __init__(self, **kw):
            super().__init__(**kw)
            R.made.append(self)
            if get_best != "absent":
                self.get_best = {"dict": lambda: {"equation": "x0*2", "score": 1}, "text": lambda: "row", "raises": raiser}[get_best]
            if sym != "absent":
                self.sympy = {"expr": lambda: expr, "raises": raiser}[sym]
            if tex != "absent":
                self.latex = {"text": lambda: "x_{0}", "blank": lambda: "  ", "none": lambda: None, "raises": raiser}[tex]

        def answer(self, Z):
            return out
    kw = {} if extra is None else {"extra_model_kwargs": extra}
    with mock.patch.object(M.pysr, "_PySRRegressor", R), quiet():
        m = M.pysr.KD_PySR(niterations=nit, binary_operators=bi, unary_operators=un, **kw)
        for f in (lambda: m.predict(Z), m.equation_latex):
            try:
                f()
                I.fail("nothing can be asked before fitting")
            except RuntimeError:
                pass
        try:
            r = m.fit(X if I.symbolic else X, y)
        except ValueError:
            I.check(shape == "longer", "only unequal numbers of samples are refused")
            I.check(not R.made, "nothing is fitted")
            I.reach("refused")
            return
        I.check(shape != "longer", "unequal numbers of samples are refused")
        I.check(r is m and len(R.made) == 1 and len(R.made[0].fitted) == 1, "one model is fitted once")
        want = {"niterations": nit}
        if bi is not None:
            want["binary_operators"] = bi
        if un is not None:
            want["unary_operators"] = un
        want.update(extra or {})
        I.check(R.made[0].kw == want, "the model gets exactly the given options")
        fx, fy = R.made[0].fitted[0]
        flat = np.asarray(y).reshape(-1)
        for g, w, what in ((fx, X, "X"), (fy, flat, "y"), (m.X_train_, X, "X_train_"), (m.y_train_, flat, "y_train_")):
            I.check(np.shape(g) == np.shape(w), what + ": shape")
            I.eq_all(list(np.asarray(g).reshape(-1)), list(np.asarray(w).reshape(-1)), what)
        p = m.predict(Z)
        I.eq_all(list(np.asarray(p).reshape(-1)), list(np.asarray(out).reshape(-1)), "the model's own predictions")
        I.eq_all(list(np.asarray(R.made[0].asked[0]).reshape(-1)), list(np.asarray(Z).reshape(-1)), "at the given points")
        best = {"dict": "x0*2", "text": "row"}.get(get_best, "the model")
        I.check(m.best_equation_ == best, "best equation")
        lhs = pick("lhs", [None, "u_t"])
        got = m.equation_latex() if lhs is None else m.equation_latex(lhs=lhs)
        ref = "x_{0}" if tex == "text" else f"{lhs or 'y'} = {sp.latex(expr)}" if sym == "expr" else best
        I.check(got == ref, "displayed equation")
        if pick("again", [0, 1]):
            m.fit(X, y)
            I.check(len(R.made) == 2 and m._model is R.made[1] and R.made[1].kw == want, "fitting again starts a new model with the same options")
    I.reach("fitted")


def pysr_shape(I, M, ndim):
    """only a table of features is accepted"""
    X = I.array("X", {0: (), 1: (3,), 3: (3, 1, 1)}[ndim], -8, 8)
    y = I.array("y", (3,), -8, 8)
    R = mock.Mock()
    with mock.patch.object(M.pysr, "_PySRRegressor", R), quiet():
        try:
            M.pysr.KD_PySR().fit(X, y)
            I.fail("X must be two-dimensional")
        except ValueError:
            I.check(not R.called, "nothing is fitted")
    I.reach("refused")


# -- DISCOVER -------------------------------------------------------------------------------
def importing(I, M, which, entry):
    """a data set is imported with exactly the given options, under the name it carries, and every component is built for it"""
    spr = which == "spr"
    cls = M.disc.KD_Discover_SPR if spr else M.disc.KD_Discover
    i = I.choose("variant", list(range(10)))
    seed, out, ndim = (0, 7)[i % 2], (None, "log")[i // 2 % 2], 1 + i % 3 % 2
    npar = i // 3 % 2 if spr else 0
    ds = object.__new__(M.ds.PDEDataset)
    carried = ["000", "111", "011", "001", "010", "100", "101", "110", "111", "000"][i]
    ds.__dict__.update({k: None if c == "0" else "the " + k for k, c in zip(("legacy_name", "registry_name", "equation_name"), carried)})
    given = (None, None, None, None, None, None, None, None, "mine", "mine")[i]
    opts = {}
    if I.choose("options", [0, 1]):
        if spr:
            opts = dict(sample=I.int("sample", 1, 99), sample_ratio=I.real("ratio", 0, 1), colloc_num=I.int("colloc", 1, 99),
                        random_state=I.int("state", 0, 99), noise_level=I.choose("noise", [None, 0.0, 0.25]), data_ratio=I.real("dratio", 0, 1),
                        spline_sample=I.choose("spline", [False, True]), cut_quantile=I.real("cut", 0, 1))
        else:
            opts = dict(sym_true=I.choose("sym", [None, "add,u1"]), n_input_dim=I.choose("nin", [None, 2]))
    default = dict(sample=None, sample_ratio=0.1, colloc_num=None, random_state=42, noise_level=None, data_ratio=None, spline_sample=False,
                   cut_quantile=None) if spr else dict(sym_true=None, n_input_dim=None)
    want = dict(default, **opts)
    if spr:
        want["noise_level"] = want["noise_level"] or 0.0
    log = []

    class Adapter:
        def __init__(self, dataset, **kw):
            log.append(("adapter", dataset, kw))

        def get_data(self):
            return dict(n_input_dim=ndim, n_param_var=npar, param_names=["nu"] if npar else None)
    answer = {"r": object()}

    class Found:
        def search(self, **kw):
            log.append(("search", kw))
            return answer

        def search_one_step(self, **kw):
            log.append(("step", kw))
            return answer
    found = Found()

    def component(name):
        def make(self):
            log.append((name,))
            return found if name == "searcher" else (name, len(log))
        return make

    def seeds(self, s):
        log.append(("seed", s))
    class Pinn:
        def __init__(self, *a):
            log.append(("pinn", a))

        def import_outter_data(self, d):
            log.append(("pinn data", d))
    patches = [mock.patch.object(M.disc.KD_Discover, "make_" + c, component(c)) for c in ("prior", "state_manager", "controller", "gp_aggregator", "searcher")]
    patches += [mock.patch.object(M.disc.KD_Discover, "set_task", lambda self: log.append(("task", self.dataset, self.data_class))),
                mock.patch.object(M.disc.KD_Discover, "set_seeds", seeds),
                mock.patch.object(M.disc.KD_Discover_SPR, "callIterPINN", lambda self, n, v: log.append(("iterate", n, v)) or answer),
                mock.patch.object(M.disc.Program, "clear_cache", lambda *a: log.append(("cleared",))),
                mock.patch.object(M.disc, "PINN_model", Pinn),
                mock.patch.object(M.adapter, "DiscoverSparseAdapter" if spr else "DiscoverRegularAdapter", Adapter)]
    with contextlib.ExitStack() as st, quiet():
        for p in patches:
            st.enter_context(p)
        m = cls(out_path=out, seed=seed)
        for bad in ([1, 2], None, np.zeros((3, 3))):
            try:
                m.import_dataset(bad)
                I.fail("only a PDEDataset can be imported")
            except TypeError:
                I.check(not log and m.dataset is None, "nothing is built from anything else")
        kw = dict(opts)
        if I.choose("earlier", [False, True]):        # the estimator was used for another data set before
            first = object.__new__(M.ds.PDEDataset)
            first.__dict__.update(legacy_name="old", registry_name="older", equation_name="oldest")
            m.import_dataset(first, **({"cut_quantile": 0.5} if spr else {"n_input_dim": 3}))
            m.set_params(out_path=out)
            log.clear()
        if given is not None:
            kw["dataset_name"] = given
        n = I.int("epochs", 1, 99)
        verbose = I.choose("verbose", [True, False])
        if entry == "fit":
            r = m.fit_dataset(ds, n_epochs=n, verbose=verbose, **kw)
        elif entry == "fitdefault":
            r = m.fit_dataset(ds, **kw)
            n, verbose = (20 if spr else 100), True
        else:
            r = m.import_dataset(ds, **kw)
            I.check(r is m, "the estimator is returned")
            if entry == "train":
                r = m.train(n_epochs=n, verbose=verbose)
            if entry == "step":
                r = m.train_one_step(epoch=n, verbose=verbose)
    made = [x for x in log if x[0] == "adapter"]
    I.check(len(made) == 1 and made[0][1] is ds and sorted(made[0][2]) == sorted(want), "the data set is taken over once, with the documented options")
    for k in want:
        equal(I, made[0][2][k], want[k], "option " + k)
    name = given or ds.legacy_name or ds.registry_name or ds.equation_name or "custom_dataset"
    I.check(m.dataset == name and m.dataset_ is ds and isinstance(m.data_class, Adapter), "the data set is known under its own name")
    I.check(m.out_path == (None if out is None else f"log/discover_{name}_{seed}.csv"), "results go to a file named after data set and seed")
    setups = [i for i, x in enumerate(log) if x[0] == "cleared"]
    I.check(len(setups) > 0, "the cache is emptied")
    tail = [x[0] for x in log[setups[-1]:]]
    parts = ["task", "prior", "state_manager", "controller", "gp_aggregator", "searcher", "seed"]
    I.check(all(p in tail for p in parts), "every component is set up on the emptied cache")
    I.check(tail.index("task") < tail.index("prior") < tail.index("controller") < tail.index("searcher"), "each from the ones it needs")
    last = [x for x in log if x[0] == "task"][-1]
    I.check(last[1] == name and last[2] is m.data_class, "the task sees the imported data")
    I.check([x for x in log if x[0] == "seed"][-1][1] == seed, "the given seed is used")
    if spr:
        p = [x for x in log if x[0] == "pinn"][-1][1]
        I.check(p[0] == m.out_path and p[1] is m.config_pinn and p[2] == m.config_task["dataset"], "the network is built from the configuration in use")
        d = [x for x in log if x[0] == "pinn data"][-1][1]
        I.check(d["n_input_dim"] == ndim and isinstance(m.denoise_pinn, Pinn), "the network sees the imported data")
        I.check(m.config_pinn["input_dim"] == ndim + 1 and m.config_task["n_input_var"] == ndim
                and m.config_task["n_param_var"] == npar and m.config_task.get("param_names") == (["nu"] if npar else None), "dimensions and parameters are the data's")
        runs = [x for x in log if x[0] == "iterate"]
        if entry in ("fit", "fitdefault", "train"):
            I.check(len(runs) == 1, "one run")
            equal(I, runs[0][1], n, "epochs")
            I.check(runs[0][2] == verbose and r is answer, "the run's result is returned")
    else:
        runs = [x for x in log if x[0] in ("search", "step")]
        if entry == "import":
            I.check(not runs, "importing does not train")
        else:
            I.check(len(runs) == 1 and runs[0][0] == ("step" if entry == "step" else "search"), "one run")
            kw = runs[0][1]
            equal(I, kw["epoch" if entry == "step" else "n_epochs"], n, "epochs")
            I.check(kw["verbose"] == verbose and r is answer, "the run's result is returned")
    I.reach(entry)


def seeds(I, M):
    """set_seeds seeds every generator the search draws from"""
    s = I.int("seed", 0, 2 ** 31 - 1)
    got = []
    with contextlib.ExitStack() as st:
        for tag, obj, name in (("np", M.disc.np.random, "seed"), ("py", M.disc.random, "seed"), ("torch", M.disc.torch.random, "manual_seed"),
                               ("cuda", M.disc.torch.cuda, "manual_seed_all")):
            st.enter_context(mock.patch.object(obj, name, lambda v, tag=tag: got.append((tag, v)), create=True))
        M.disc.KD_Discover.set_seeds(object.__new__(M.disc.KD_Discover), s)
    I.check({t for t, _ in got} == {"np", "py", "torch", "cuda"}, "every generator is seeded")
    for _, v in got:
        I.eq(v, s, "with the given seed")


# -- DLGA and SGA ---------------------------------------------------------------------------
def dlga_fit(I, M, terms, ops):
    """fit trains on the given samples, searches the library of the given operators and displays the equation the search returned"""
    X, y = I.array("X", (3, 2), -8, 8), I.array("y", (3, 1), -8, 8)
    coef = I.array("c", (len(terms), 1), -8, 8)
    fit_mse = I.real("mse", 0, 9)
    lhs = I.choose("lhs", ["u_t", "u_tt"])
    order, seen = [], {}
    with networks(M):
        m = M.dlga.KD_DLGA(operators=list(ops), epi=0.1, input_dim=2)
        net = FakeNet()

        def train(a, b):
            order.append("train")
            seen["train"] = (a, b)
            return net, 17

        def meta(a):
            order.append("meta")
            seen["meta"] = a
            I.check(m.Net is net and m.best_epoch == 17, "the library is built from the trained network")
            return "theta"

        def evolve():
            order.append("evolve")
            I.check(m.Theta == "theta", "the search uses that library")
            return terms, coef, fit_mse, lhs

        def render(**kw):
            seen["render"] = kw
            return "tex"
        m.train_NN, m.generate_meta_data, m.evolution = train, meta, evolve
        with mock.patch.object(M.viz, "dlga_eq2latex", render):
            text = []
            conv = m.convert_chrom_to_eq
            m.convert_chrom_to_eq = lambda *a: text.append((a, "eq")) or "eq"
            m.fit(X, y)
    I.check(order == ["train", "meta", "evolve"], "train, build the library, search")
    I.check(seen["train"][0] is X and seen["train"][1] is y and seen["meta"] is X, "on the given samples")
    r = seen["render"]
    I.check(r["chromosome"] is terms and r["coefficients"] is coef and r["lhs_name_str"] == lhs and list(r["operator_names"]) == list(m.user_operators),
            "the displayed equation is the one the search returned")
    I.check(m.eq_latex == "tex", "the displayed equation is kept")
    I.check(all(a[0] is terms and a[1] == lhs and a[2] is coef for a, _ in text), "the printed equation is the one the search returned")
    I.reach("fitted")


def before_fit(I, M):
    """nothing is displayed or plotted before a fit, and the removed entry points say so"""
    with networks(M):
        s = M.sga.KD_SGA()
        d = M.disc.KD_Discover()
        for f in (s.equation_latex, s.equation_structure_latex, s.plot_results, lambda: s.fit("burgers"), lambda: d.fit(np.zeros((2, 2)), np.zeros(2))):
            try:
                f()
                I.fail("nothing to show before a fit")
            except RuntimeError:
                pass
    s.best_equation_details_ = details = object()
    seen = []
    with mock.patch.object(M.sga, "sga_equation_to_latex", lambda d, **kw: seen.append((d, kw)) or "tex"):
        inc, note = I.choose("inc", [True, False]), I.choose("note", ["subscript", "leibniz"])
        I.check(s.equation_latex(include_coefficients=inc, notation=note) == "tex", "the equation's own text")
        s.equation_latex()
        s.equation_structure_latex()
    I.check(all(d is details for d, _ in seen), "the fitted equation is displayed")
    I.check([kw for _, kw in seen] == [dict(include_coefficients=inc, notation=note), dict(include_coefficients=True, notation="subscript"),
                                       dict(include_coefficients=False, notation="subscript")], "as asked for")
    v = I.real("v", 0, 1)
    I.check(I.le(v, 1), "in range")


HARNESSES = [
    H(est, [dict(which=w, mode=m) for w in ("sga", "discover", "spr", "regression", "dlga", "pysr") for m in ("defaults", "given", "set", "unknown")],
      bounds="every numeric parameter any value, the others two values each; one or all parameters set after construction"),
    H(compose, [{}], bounds="one level of containment, any values"),
    H(pysr, [dict(n=3, shape=s, vary=["niter", "bi", "un", "extra", "again"]) for s in ("flat", "col", "longer", "row")]
      + [dict(n=2, shape="flat", vary=["best", "sympy", "latex", "lhs"])], bounds="3 samples of 2 features, any values, every combination of what the backend provides"),
    H(pysr_shape, [dict(ndim=d) for d in (0, 1, 3)], bounds="0, 1 or 3 axes"),
    H(importing, [dict(which=w, entry=e) for w in ("discover", "spr") for e in ("import", "fit", "fitdefault", "train") + (("step",) if w == "discover" else ())],
      bounds="any option values, every combination of names, 1-2 dimensions, with and without a parameter field"),
    H(seeds, [{}], bounds="every seed below 2^31"),
    H(dlga_fit, [dict(terms=[[0], [1, 2]], ops=["u", "u_x", "u_xx"]), dict(terms=[[0, 0]], ops=["u_x"])], bounds="3 samples, 1-2 terms, any values"),
    H(before_fit, [{}], bounds="every choice of notation"),
]

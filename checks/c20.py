"""C20: the configuration the user gives reaches every component, and an estimator can be set up again like a fresh one"""
import contextlib
import copy
import importlib
import json
import os
import tempfile
from unittest import mock

import numpy as np

from symx.runner import H
from . import disco
from .disco import quiet_ctx

ASSUMPTIONS = ["controller, searcher and network construction are replaced by recorders of what they are given; prior and state manager are the real ones"]
FILES = dict(reg="config_pde.json", pinn="config_pde_pinn.json", tab="config_regression.json")


def load():
    M = disco.load_disco()
    imp = importlib.import_module
    M.kd = imp("kd.model.kd_discover")
    M.kdreg = imp("kd.model.kd_discover_regression")
    M.utils = imp("kd.model.discover.utils")
    M.sm = imp("kd.model.discover.state_manager")
    for n in ("pde.pde", "pde.pde_pinn", "regression"):
        imp("kd.model.discover.task." + n)
    return M


# -- merging ------------------------------------------------------------------
def rnd(I, tag, depth, keys):
    """an arbitrary nested dict; kinds agree: upper-case keys hold dicts"""
    d = {}
    for k in keys:
        c = I.choose(f"{tag}.{k}", ["absent", "there"])
        if c == "absent":
            continue
        if k.isupper():
            d[k] = rnd(I, f"{tag}.{k}", depth - 1, keys) if depth else {}
        else:
            d[k] = I.choose(f"{tag}.{k}.kind", ["number", "list", "none"])
            d[k] = {"number": lambda: I.real(f"{tag}.{k}.v"), "list": lambda: [I.real(f"{tag}.{k}.v")], "none": lambda: None}[d[k]]()
    return d


def ref_merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = ref_merge(a.get(k, {}), v) if isinstance(v, dict) else v
    return out


def same(I, a, b, label):
    if isinstance(a, dict) or isinstance(b, dict):
        I.check(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), label + ": keys")
        for k in a:
            same(I, a[k], b[k], label)
    elif isinstance(b, (list, tuple)):
        I.check(isinstance(a, (list, tuple)) and len(a) == len(b), label + ": list")
        for x, y in zip(a, b):
            same(I, x, y, label)
    elif b is None or isinstance(b, (str, bool)):
        I.check(a == b, label)
    else:
        I.check(a is not None, label)
        I.eq(a, b, label)


def merge(I, M, keys, depth):
    """deep merge of configurations"""
    a, b = rnd(I, "a", depth, keys), rnd(I, "b", depth, keys)

    def snap(d):
        return {k: snap(v) for k, v in d.items()} if isinstance(d, dict) else list(d) if isinstance(d, list) else d
    a0, b0 = snap(a), snap(b)
    out = M.utils.safe_merge_dicts(a, b)
    same(I, out, ref_merge(a0, b0), "merged")
    same(I, a, a0, "base unchanged")
    same(I, b, b0, "update unchanged")

    def scribble(d):
        for k, v in list(d.items()):
            if isinstance(v, dict):
                scribble(v)
            d[k] = "scribbled"
    scribble(out)
    same(I, a, a0, "base not shared")
    I.check(M.utils.safe_merge_dicts(None, b) is b and M.utils.safe_merge_dicts(a, None) is a, "one side only")


# -- priors ---------------------------------------------------------------------
PRIORS = {"length": dict(min_=3, max_=9), "repeat": dict(tokens="add", min_=None, max_=2), "inverse": {}, "trig": {},
          "soft_length": dict(loc=4, scale=2), "diff_left": {}, "diff_right": {}, "diff_descedent": {}, "no_inputs": {}, "uniform_arity": {}}


def describe(jp):
    return [type(p).__name__ for p in jp.priors], jp.describe()


def priors(I, M, kinds):
    """exactly the enabled priors are built, each with its own arguments, however often"""
    lib = disco.mklib(M, ["add", "mul", "diff", "n2", "u1", "x1", "sin", "exp", "log"])
    cfg, want = {}, []
    for k in kinds:
        on = I.choose(f"on_{k}", ["on", "off", "unset", "absent"])
        if on == "absent":
            continue
        cfg[k] = dict(PRIORS[k])
        if on != "unset":
            cfg[k]["on"] = on == "on"
        if on == "on":
            want.append(k)
    if I.choose("list", [False, True]) and "repeat" in cfg:
        cfg["repeat"] = [cfg["repeat"], dict(tokens="mul", min_=None, max_=1, on=True)]
        want.insert(want.index("repeat") + 1 if "repeat" in want else [k for k in cfg if k in want or k == "repeat"].index("repeat"), "repeat")
    cc = I.choose("count", [None, True, False])
    if cc is not None:
        cfg["count_constraints"] = cc
    cls = dict(length="LengthConstraint", repeat="RepeatConstraint", inverse="InverseUnaryConstraint", trig="TrigConstraint",
               soft_length="SoftLengthPrior", diff_left="DiffConstraint_left", diff_right="DiffConstraint_right",
               diff_descedent="DiffConstraint_des", no_inputs="NoInputsConstraint", uniform_arity="UniformArityPrior")
    before = copy.deepcopy(cfg)
    with quiet_ctx():
        one = M.prior.make_prior(lib, cfg)
        two = M.prior.make_prior(lib, cfg)
    I.check(cfg == before, "configuration unchanged")
    I.check([type(p).__name__ for p in one.priors] == [cls[k] for k in want], "exactly the enabled priors, in order")
    I.check(describe(one) == describe(two), "the same priors the second time")
    for p, k in zip(one.priors, want):
        if k == "length":
            I.check((p.min, p.max) == (3, 9), "length bounds")
    reps = [p for p in one.priors if type(p).__name__ == "RepeatConstraint"]
    if isinstance(cfg.get("repeat"), list):
        I.check([p.max for p in reps] == ([2, 1] if len(reps) == 2 else [1]), "each repetition rule with its own bound")


def state_manager(I, M):
    """the observation options reach the state manager, however often"""
    lib = disco.mklib(M, ["add", "x1"])
    opts = ["observe_action", "observe_parent", "observe_sibling", "observe_dangling"]
    cfg = {o: v for o in opts for v in [I.choose(o, [None, True, False])] if v is not None}
    t = I.choose("type", [None, "hierarchical"])
    if t:
        cfg["type"] = t
    n = I.int("size", 1, 9)
    cfg["embedding_size"] = n
    before = dict(cfg)
    default = dict(observe_action=False, observe_parent=True, observe_sibling=True, observe_dangling=False)
    want = {o: cfg.get(o, default[o]) for o in opts}
    with disco.program_ctx(M, lib):
        for _ in range(2):
            try:
                sm = M.sm.make_state_manager(cfg)
                I.check(any(want.values()), "no observation at all is refused")
                I.check({o: getattr(sm, o) for o in opts} == want, "observations")
                I.eq(sm.embedding_size, n, "embedding size")
            except AssertionError:
                I.check(not any(want.values()), "usable options refused")
            I.check(list(cfg) == list(before) and all(cfg[k] is before[k] for k in cfg), "configuration unchanged")


# -- estimators --------------------------------------------------------------------
def cls_of(M, kind):
    return dict(reg=M.kd.KD_Discover, pinn=M.kd.KD_Discover_SPR, tab=M.kdreg.KD_Discover_Regression)[kind]


def base_json(M, kind):
    import commentjson
    p = os.path.join(os.path.dirname(M.kd.__file__), "discover", "config", FILES[kind])
    with open(p, encoding="utf-8") as f:
        return commentjson.load(f)


SECTIONS = ["task", "prior", "state_manager", "controller", "gp_agg", "training"]


def config(I, M, kind):
    """the user's settings override the defaults and nothing else changes; as a dict or a file; per instance"""
    user = {}
    if I.choose("controller", [False, True]):
        user["controller"] = {"learning_rate": I.real("lr", 0, 1), "max_length": 17}
    if I.choose("training", [False, True]):
        user["training"] = {"epsilon": I.real("eps", 0, 1)}
    if I.choose("prior", [False, True]):
        user["prior"] = {"length": {"min_": 2, "max_": 11}, "trig": {"on": False}}
    if I.choose("task", [False, True]):
        user["task"] = {"function_set": ["add", "mul"]}
    how = I.choose("how", ["dict", "file", "none", "set_config"])
    if how == "file" and I.symbolic:
        user = json.loads(json.dumps(user, default=lambda v: 0.125))
    base = base_json(M, kind)
    if kind == "pinn":
        base["task"]["task_type"] = "pde_pinn"
    K = cls_of(M, kind)
    with quiet_ctx(), tempfile.TemporaryDirectory(prefix="c20") as d:
        if how == "none":
            user, m = {}, K()
        elif how == "dict":
            m = K(config_out=user)
        elif how == "set_config":
            m = K()
            m.set_config(user)
        else:
            if I.concrete:
                user = json.loads(json.dumps(user))
            p = os.path.join(d, "c.json")
            with open(p, "w") as f:
                json.dump(user, f)
            m = K(config_out=p)
        other = K()
    want = ref_merge(base, user)
    I.check({s for s in m.config if m.config[s]} == {s for s in want if want[s]}, "sections")
    for s in want:
        if s == "postprocess":
            continue
        same(I, m.config[s], want[s], s)
    for s in SECTIONS:
        I.check(getattr(m, "config_" + s) is m.config[s], "section handed on")
    for s in base:
        same(I, other.config[s], base[s], "another instance")


class Data:
    def __init__(self, n, npar):
        self.d = {"n_input_dim": n, "n_param_var": npar, "param_names": ["c%d" % k for k in range(npar)] or None}

    def get_data(self):
        return self.d


DIFFS = {1: ["diff", "diff2", "diff3"], 2: ["Diff", "Diff2", "lap"], 3: ["Diff_3", "Diff2_3", "lap_3"]}
DIFFS_T = {1: ["diff_t", "diff2_t", "diff3_t"], 2: ["lap_t"], 3: ["lap_t"]}
ALLD = {"diff", "diff2", "diff3", "diff4", "Diff", "Diff2", "lap", "Diff_3", "Diff2_3", "lap_3", "diff_t", "diff2_t", "diff3_t", "diff4_t", "lap_t"}


def reuse(I, M, kind, n, ops=([], ["mul", "diff"]), users=(None, ["add", "n2"])):
    """setting an estimator up for one dataset after another gives each time what a fresh one would get"""
    K = cls_of(M, kind)
    user = I.choose("user", list(users))
    ops = I.choose("operators", list(ops))
    cfg = {"task": {"function_set": list(user)}} if user else {}
    opt = I.choose("training", ["given", "default"])
    if opt == "given":
        cfg["training"] = {"const_optimizer": "dummy", "const_params": {"maxiter": 7}, "epsilon": 0.25}
        cfg["controller"] = {"learning_rate": 0.125, "max_length": 17}
    cfg = cfg or None
    dims = [(I.choose(f"dim{k}", [1, 2, 3]), I.choose(f"par{k}", [0, 1]) if kind == "pinn" else 0) for k in range(n)]
    seen, rec = [], {}

    def rec_task(cfg, data):
        rec["cache"] = dict(M.program.Program.cache), dict(M.stridge.STRidge.cache)
        seen.append((copy.deepcopy(dict(cfg)), data))
        M.program.Program.library = lib
        M.program.Program.task = type("T", (), {"library": lib})

    class Part:
        """stands in for the controller and the searcher: what they are given"""
        def __init__(self, *a, **k):
            self.args, self.kw = a, k
    lib = disco.mklib(M, ["add", "mul", "diff", "u1", "x1", "sin", "exp", "log"])

    def run(model, dim, par):
        model.data_class = Data(dim, par)
        model.dataset = "d%d" % dim
        M.program.Program.cache = {"add,u1": "a program of other data"}
        M.stridge.STRidge.cache = {"u1": "a column of other data"}
        rec.clear()
        if kind == "pinn":
            model._inject_nd_config()
        M.kd.KD_Discover.setup(model)
        I.check(rec["cache"] == ({}, {}) and M.program.Program.cache == {} and M.stridge.STRidge.cache == {}, "no program of earlier data is kept")
        c, s = model.controller, model.searcher
        I.check(len(c.args) == 2 and c.args[0] is model.prior and c.args[1] is model.state_manager, "controller gets the priors and the state manager")
        I.check(s.args == () and s.kw["controller"] is c and s.kw["gp_aggregator"] is None, "searcher gets the controller")
        co = M.program.Program.const_optimizer
        return (seen[-1][0], describe(model.prior), {k: v for k, v in vars(model.state_manager).items() if k != "library"},
                dict(model.config_pinn) if kind == "pinn" else None, copy.deepcopy({s: model.config[s] for s in SECTIONS}),
                dict(c.kw), dict(s.kw["args"]), (type(co).__name__, dict(co.kwargs)), rec["seed"])
    with disco.program_ctx(M, lib), contextlib.ExitStack() as st, quiet_ctx():
        st.enter_context(mock.patch.object(M.kd, "set_task", rec_task))
        st.enter_context(mock.patch.object(M.kd, "Controller", Part))
        st.enter_context(mock.patch.object(M.kd, "Searcher", Part))
        st.enter_context(mock.patch.object(M.kd.KD_Discover, "set_seeds", lambda self, s: rec.update(seed=s)))
        for cls, nm in ((M.program.Program, "const_optimizer"), (M.program.Program, "cache"), (M.stridge.STRidge, "cache")):
            st.enter_context(mock.patch.object(cls, nm, None))
        mk = lambda **k: K(binary_operators=list(ops), config_out=copy.deepcopy(cfg), **k)
        model = mk()
        base = list(model.config_task["function_set"])
        for k, (dim, par) in enumerate(dims):
            its = dict(n_iterations=10 + k, n_samples_per_batch=20 + k, seed=k)
            model.set_params(**its)
            got = run(model, dim, par)
            want = run(mk(**its), dim, par)
            for a, b, nm in zip(got, want, ("task settings", "priors", "state manager", "network settings", "configuration",
                                            "controller settings", "search settings", "constant optimizer", "seed")):
                I.check(a == b, "as from a fresh estimator: " + nm)
            c, s = got[5], got[6]
            I.check(s["n_iterations"] == 10 + k and s["n_samples_per_batch"] == 20 + k and got[8] == k, "the estimator's own parameters reach the search")
            if opt == "given":
                I.check(s["epsilon"] == 0.25 and c["learning_rate"] == 0.125 and c["max_length"] == 17, "the user's settings reach the search")
                I.check(got[7] == ("Dummy", {"maxiter": 7}), "the user's constant optimizer")
            I.check(got[0]["dataset"] == "d%d" % dim, "dataset of the task")
            fs = got[0]["function_set"]
            if ops:
                I.check(list(fs) == list(ops) + (["const"] if kind == "tab" else []), "the user's operators")
            elif dim == 1 or kind == "tab":
                if dim == 1:
                    I.check(list(fs) == base, "default tokens")
            else:
                D = DIFFS_T if any(t.endswith("_t") for t in base) else DIFFS
                I.check(set(fs) == set(D[dim]) | {t for t in base if t not in ALLD} and len(fs) == len(set(fs)), "derivative tokens of the dimension")
            if kind == "pinn":
                t, p = got[0], got[3]
                I.check(p["input_dim"] == dim + 1 and t["n_input_var"] == dim, "network input size")
                I.check((p["generation_type"] == "multi_AD") == (dim > 1), "derivative generation")
                I.check(t["n_param_var"] == par and t.get("param_names") == (["c0"] if par else None), "parameters")


HARNESSES = [
    H(merge, [dict(keys=["a", "B"], depth=1)], thorough=[dict(keys=["a", "B"], depth=2)],
      bounds="every two dicts over one scalar and one section key, nested to depth 1 (2), all numbers"),
    H(priors, [dict(kinds=["length", "repeat", "trig"]), dict(kinds=["soft_length", "inverse", "diff_left"]),
               dict(kinds=["diff_right", "no_inputs", "uniform_arity", "diff_descedent"])],
      bounds="every on/off/unset/absent choice of 3-4 priors"),
    H(state_manager, [{}], bounds="every choice of the four observations"),
    H(config, [dict(kind=k) for k in ("reg", "pinn", "tab")], bounds="every subset of four overridden sections, as dict, file or set_config"),
    H(reuse, [dict(kind="reg", n=2), dict(kind="pinn", n=2, ops=[[]], users=[None]), dict(kind="tab", n=2)], thorough=[dict(kind="pinn", n=2), dict(kind="reg", n=3), dict(kind="pinn", n=3, ops=[[]])],
      bounds="every sequence of 2 (3) datasets of 1-3 dimensions, with and without user operators"),
]

"""C28: the job runner runs what its configuration asks and reports what came of it"""
import contextlib
import importlib
import json
import logging
import os
import shutil
import sys
import tempfile
import types
from pathlib import Path
from unittest import mock

import numpy as np

from symx import shim
from symx.runner import H
from . import disco
from .env import quiet
from .plotrec import flat

ASSUMPTIONS = ["the models, the plotting and the Bohrium service are stand-ins that write down what they are given; file formats are read by scipy/numpy",
               "the service puts each uploaded file where the named input says"]


def load():
    M = disco.load_disco()
    imp = importlib.import_module
    M.runner, M.job, M.dsbase, M.ds = imp("kd.runner"), imp("kd.job"), imp("kd.dataset._base"), imp("kd.dataset")
    M.dlga, M.disc = imp("kd.model.kd_dlga"), imp("kd.model.kd_discover")
    return M


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="kdjob")
    cwd = os.getcwd()
    os.chdir(d)
    logging.disable(logging.CRITICAL)
    try:
        with quiet():
            yield Path(d)
    finally:
        logging.disable(logging.NOTSET)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# -- data ---------------------------------------------------------------------------------
def mat(I, M, nx, nt, stored, keys, shape2d):
    """MAT file: each value at its own place and time, either storage order"""
    u = I.array("u", (nx, nt), -8, 8)
    if not I.symbolic:
        u = np.asarray(u, float)
    x, t = np.array([1.0 + 3 * i for i in range(nx)]), np.array([50.0 - 2 * i for i in range(nt)])
    names = dict(x_key="x", t_key="t", u_key="usol")
    names.update(keys)
    sh = (lambda v: v.reshape(1, -1)) if shape2d == 1 else (lambda v: v.reshape(-1, 1)) if shape2d == 2 else (lambda v: v)
    raw = {"x": np.zeros(2), "t": np.zeros(2), "usol": np.zeros((2, 2)), "u": np.zeros((2, 2))}
    raw[names["x_key"]], raw[names["t_key"]], raw[names["u_key"]] = sh(x), sh(t), (u if stored == "xt" else u.T)
    seen = []

    def reader(path):
        seen.append(str(path))
        return raw
    with scratch() as d, mock.patch.object(M.dsbase, "load_mat_file", reader), mock.patch.object(M.ds, "load_mat_file", reader):
        f = d / "data.MAT"
        f.write_text("x")
        cfg = {"dataset_file": str(f), "dataset_name": None}
        if keys:
            cfg["file_config"] = keys
        ds = M.runner.load_dataset(cfg)
    I.check(seen == [str(f)], "the uploaded file is read")
    check_data(I, ds, x, t, u)


def check_data(I, ds, x, t, u):
    gx, gt, gu = np.asarray(ds.x).reshape(-1), np.asarray(ds.t).reshape(-1), np.asarray(ds.usol, dtype=object)
    I.check(gu.shape == u.shape, "the field has one row per place and one column per time")
    for i in range(u.shape[0]):
        I.check(I.close(gx[i], x[i]), "places of the file")
        for j in range(u.shape[1]):
            I.eq(gu[i, j], u[i, j], "value at its place and time")
    for j in range(u.shape[1]):
        I.check(I.close(gt[j], t[j]), "times of the file")
    I.reach()


def npy(I, M, nx, nt, domain, flatten):
    """NPY upload with its stated domain"""
    u = I.array("u", (nx, nt), -8, 8)
    if not I.symbolic:
        u = np.asarray(u, float)
    seen = []

    def reader(path, *a, **k):
        seen.append(str(path))
        return u.reshape(-1) if flatten else u
    with scratch() as d, mock.patch.object(M.runner.np, "load", reader):
        f = d / "data.npy"
        f.write_text("x")
        fc = {"shape": [nx, nt]}
        if domain:
            fc["domain"] = domain
        ds = M.runner.load_dataset({"dataset_file": str(f), "file_config": fc, "dataset_name": "burgers"})
    I.check(seen == [str(f)], "the uploaded file is read, not the built-in data")
    dom = domain or {}
    a, b = dom.get("x", (0, 1))
    c, e = dom.get("t", (0, 1))
    check_data(I, ds, [a + (b - a) * i / (nx - 1) for i in range(nx)], [c + (e - c) * j / (nt - 1) for j in range(nt)], u)


def source(I, M):
    """which data a configuration means"""
    name = I.choose("name", [None, "", "kdv"])
    file = I.choose("file", [None, "", "there.csv", "there.npy", "gone.mat"])
    loads = []
    with scratch() as d, mock.patch.object(M.ds, "load_pde", lambda n, **k: loads.append(n) or "built-in"), mock.patch.object(M.runner.np, "load", lambda p: np.zeros(4)):
        for n in ("there.csv", "there.npy"):
            (d / n).write_text("x")
        cfg = {}
        if name is not None:
            cfg["dataset_name"] = name
        if file is not None:
            cfg["dataset_file"] = file and str(d / file)
        try:
            r = M.runner.load_dataset(cfg)
        except ValueError:
            r = "refused"
    if file and file.startswith("there"):
        I.check(r == "refused" and not loads, "an unusable upload is refused, not replaced by other data")
    elif name:
        I.check(r == "built-in" and loads == ["kdv"], "the named data set is loaded")
    else:
        I.check(r == "refused", "no data, no run")
    I.reach()


# -- models ---------------------------------------------------------------------------------
def models(I, M, which, given, form):
    """hyper-parameters reach the model"""
    calls, made = {}, []

    class Fake:
        def __init__(self, *a, **k):
            calls["new"] = (a, k)
            made.append(self)

        def fit_dataset(self, *a, **k):
            calls["fit"] = (a, k)
            calls["rng"] = np.random.get_state()[1][0]
            self.eq_latex = "U_T = MARK"
            return None if form == "none" else {"expression": "E MARK"}
    ops = ["u", "u_x", "u_xx"]
    P, want = {}, {}
    if which == "dlga":
        default = dict(operators=["u", "u_x", "u_xx", "u_xxx"], epi=0.1, input_dim=2, max_iter=3000, sample=None)
        if "operators" in given:
            P["operators"] = ops if form == "list" else " u, u_x ,u_xx,"
        if "epi" in given:
            P["epi"] = I.real("epi", 0, 4)
        for k in ("input_dim", "max_iter", "sample"):
            if k in given:
                P[k] = I.int(k, 1, 9)
    else:
        default = dict(binary_operators=["add_t", "mul_t", "div_t", "diff_t", "diff2_t"], unary_operators=["n2_t"], n_samples_per_batch=200, seed=0, n_epochs=5, sample_ratio=0.1)
        for k in ("binary_operators", "unary_operators"):
            if k in given:
                P[k] = ops if form == "list" else "u,u_x , u_xx"
        if "sample_ratio" in given:
            P["sample_ratio"] = I.real("sample_ratio", 0, 1)
        for k in ("n_samples_per_batch", "n_epochs"):
            if k in given:
                P[k] = I.int(k, 1, 9)
        if "seed" in given:
            P["seed"] = I.choose("seed", [3, 0, 77])
    want = dict(default)
    want.update({k: ops if "operators" in k else v for k, v in P.items()})
    mod, cls = (M.dlga, "KD_DLGA") if which == "dlga" else (M.disc, "KD_Discover_SPR")
    data = object()
    st = np.random.get_state()
    try:
        with scratch(), mock.patch.object(mod, cls, Fake):
            eq, model = M.runner.RUNNERS[which](data, P)
    finally:
        np.random.set_state(st)
    I.check(len(made) == 1 and model is made[0], "the model that was run is returned")
    na, nk = calls["new"]
    fa, fk = calls["fit"]
    I.check(fa and fa[0] is data or fk.get("dataset") is data, "fitted on the data")
    got = dict(nk, **fk)
    for k, v in want.items():
        I.check(k in got or v is None, f"{k} is passed on")
        g = got.get(k)
        if isinstance(v, list) or v is None:
            I.check(g == v if v is None else list(g) == v, f"{k} is passed on")
        else:
            I.eq(g, v, f"{k} is passed on")
    if which == "dscv_spr":
        np.random.seed(want["seed"])
        ref = np.random.get_state()[1][0]
        np.random.set_state(st)
        I.check(calls["rng"] == ref, "sampling starts from the requested seed")
        I.check(eq == ("E MARK" if form != "none" else eq) and isinstance(eq, str), "the result's equation is returned")
    else:
        I.check(eq == "U_T = MARK", "the model's equation is returned")
    I.reach()


class Exit(Exception):
    pass


def run_main(I, M, unit):
    """a whole run: outcome on disk and exit code"""
    model = I.choose("model", ["dlga", "dscv_spr", "nope", None])
    fail = I.choose("fail", [None, "load", "run", "viz"]) if model in ("dlga", "dscv_spr") else None
    over = I.choose("over", [0, 1])
    named = I.choose("named", ["name", "file"])
    outd = I.choose("outd", [0, 1])
    par = I.choose("par", [0, 1])
    ran = []

    def runner(tag):
        def f(ds, p):
            if fail == "run":
                raise KeyError("BROKEN run")
            ran.append((tag, ds, p))
            return f"EQ {tag} π", "MODEL"
        return f

    def loader(c):
        if fail == "load":
            raise OSError("BROKEN load")
        return ("DATA", c.get("dataset_name"), c.get("dataset_file"))
    viz = []
    real_viz = M.runner.save_viz

    def save_viz(o, m):
        viz.append((str(o), m))
        if fail == "viz":
            with mock.patch.dict(sys.modules, {"kd.viz.core": None}):
                real_viz(o, m)
    with scratch() as d, mock.patch.dict(M.runner.RUNNERS, {k: runner(k) for k in ("dlga", "dscv_spr")}, clear=True), \
            mock.patch.object(M.runner, "load_dataset", loader), mock.patch.object(M.runner, "save_viz", save_viz):
        cfg = {}
        if model:
            cfg["model"] = model
        cfg["dataset_name" if named == "name" else "dataset_file"] = "SET"
        if outd:
            cfg["output_dir"] = str(d / "fromconfig" / "deep")
        if par:
            cfg["params"] = {"a": 1.5, "b": ["é"]}
        (d / "c.json").write_text(json.dumps(cfg, ensure_ascii=False), encoding="utf-8")
        argv = ["runner", "--config", str(d / "c.json")] + (["--output_dir", str(d / "over")] if over else [])
        code = 0
        with mock.patch.object(sys, "argv", argv):
            try:
                M.runner.main()
            except SystemExit as e:
                code = e.code if e.code is not None else 0
        out = d / "over" if over else d / "fromconfig" / "deep" if outd else d / "output"
        files = sorted(str(p.relative_to(d)) for p in d.rglob("*.json") if p.name != "c.json")
        if model not in ("dlga", "dscv_spr"):
            I.check(code not in (0, None) and not ran, "an unknown model is refused")
            I.check(not files, "no result of a run that did not happen")
        else:
            I.check(files == [str((out / "result.json").relative_to(d))], "one result, in the requested directory")
            r = json.loads((out / "result.json").read_text(encoding="utf-8"))
            I.check(r["model"] == model and r["dataset"] == "SET" and r["params"] == cfg.get("params", {}), "the result names its model, data and parameters")
            bad = fail in ("load", "run")
            I.check(r["status"] == ("error" if bad else "success") and (code != 0) == bad, "status and exit code tell whether the run succeeded")
            I.check(r["elapsed_seconds"] >= 0, "time spent")
            if bad:
                I.check("BROKEN " + fail in r["error"], "the error is reported")
                I.check(not ran and not viz, "nothing more is done after a failure")
                I.check("EQ" not in r["equation"], "no equation of a failed run")
            else:
                I.check(r["equation"] == f"EQ {model} π" and "error" not in r, "the equation found is reported")
                I.check(len(ran) == 1 and ran[0][0] == model and ran[0][2] == cfg.get("params", {}), "the requested model runs once with its parameters")
                I.check(ran[0][1] == ("DATA", cfg.get("dataset_name"), cfg.get("dataset_file")), "on the requested data")
                I.check(viz == [(str(out), "MODEL")] or [v[1] for v in viz] == ["MODEL"], "figures of the model that ran")
    I.reach()


# -- service ---------------------------------------------------------------------------------
class Client:
    def __init__(self, S, **k):
        self.S = S
        S.keys = k
        self.user = types.SimpleNamespace(list_project=self.projects)
        self.app = types.SimpleNamespace(job=types.SimpleNamespace(submit=self.submit, detail=self.detail))
        self.web = types.SimpleNamespace(sub_model=types.SimpleNamespace(download=self.download))

    def projects(self):
        self.S.listed += 1
        return {"data": {"items": [{"project_id": p} for p in self.S.projects]}}

    def submit(self, **k):
        S = self.S
        S.subs.append(k)
        S.uploads = {u.input_field: (u.src, Path(u.src).read_bytes()) for u in k["upload_files"]}
        if S.fail:
            raise RuntimeError("service down")
        return {"data": {"jobId": S.job}, "code": 0}

    def detail(self, job):
        self.S.asked.append(job)
        return {"data": dict(self.S.info)}

    def download(self, job, remote_target=None, save_path=None, **k):
        S = self.S
        S.down.append((job, remote_target, str(save_path)))
        if S.result is not None:
            (Path(save_path) / "result.json").write_text(S.result)


@contextlib.contextmanager
def service(M, d, **k):
    S = types.SimpleNamespace(projects=[], fail=False, subs=[], listed=0, job=4711, asked=[], info={}, down=[], result=None, uploads={}, keys=None)
    S.__dict__.update(k)
    sdk = types.ModuleType("bohrium_open_sdk")
    sdk.OpenSDK = lambda **kw: Client(S, **kw)
    sdk.UploadInputItem = lambda input_field, src: types.SimpleNamespace(input_field=input_field, src=src)
    with mock.patch.dict(sys.modules, {"bohrium_open_sdk": sdk}), mock.patch.object(tempfile, "tempdir", str(d)):
        yield S


REQ = types.SimpleNamespace(headers={"cookie": "clientName=me-app; other=1; appAccessKey=KEY-9"})


def submit(I, M, upload):
    """submission: project, configuration, uploads, failures"""
    pid = I.int("pid", 0, 9)
    env = I.int("env", 0, 9)
    own = I.choose("own", [0, 1])
    nproj = I.choose("projects", [0, 2])
    fail = I.choose("fail", [0, 1])
    named = I.choose("named", [0, 1])
    up = I.choose("up", ["none", "file", "gone"]) if upload else "none"
    params = {"epi": 0.25, "operators": "u,u_x", "ü": [1]}
    with scratch() as d:
        (d / "tmp").mkdir()
        data = d / "data.npy"
        data.write_bytes(b"DATA")
        with service(M, d / "tmp", projects=[[], [5001, 5002]][nproj // 2], fail=bool(fail)) as S, mock.patch.object(M.job, "KD_GPU_PROJECT_ID", env):
            err = None
            try:
                r = M.job.submit_gpu_job("dlga", "kdv" if named else None, params, REQ, project_id=pid if own else None,
                                         dataset_file={"none": None, "file": str(data), "gone": str(d / "gone.npy")}[up])
            except RuntimeError as e:
                err = e
        I.check(not list((d / "tmp").iterdir()), "no temporary file is left")
        I.check(data.exists(), "the user's own file is kept")
    use_own, use_env = bool(own) and bool(pid != 0), bool(env != 0)
    need_list = not use_own and not use_env
    if need_list and not nproj:
        I.check(err is not None and not S.subs, "no project: nothing is submitted")
        I.reach()
        return
    I.check(len(S.subs) == 1, "submitted once")
    k = S.subs[0]
    I.eq(k["project_id"], pid if use_own else env if use_env else 5001, "project: the caller's, the configured one, the first one")
    if fail:
        I.check(err is not None, "a failed submission is not reported as a job")
        I.reach()
        return
    I.check(err is None and r == 4711, "the job's number is returned")
    I.check(S.keys == dict(access_key="KEY-9", app_key="me-app"), "signed in as the user of the request")
    cfg = json.loads(S.uploads["config"][1].decode("utf-8"))
    I.check(cfg["model"] == "dlga" and cfg["params"] == params and cfg.get("dataset_name") == ("kdv" if named else None), "the run's configuration is uploaded")
    I.check(cfg["output_dir"] == k["inputs"]["output_dir"] == "output", "results are written where they are collected")
    I.check(set(S.uploads) == {"config"} | ({"dataset_file"} if up == "file" else set()) and set(S.uploads) <= set(k["inputs"]), "every input has its file")
    if up == "file":
        I.check(S.uploads["dataset_file"][1] == b"DATA", "the data are uploaded")
    I.reach()


TEXT = {0: "Pending", 1: "Running", 2: "Packaging", 3: "Submitted", 9: "DownloadOutput", 10: "Finished", 11: "Finished", 12: "Failed", 13: "Error", **{i: "Running" for i in range(4, 9)}}


def status(I, M, lo, hi):
    """status codes"""
    code = I.choose("code", list(range(lo, hi)))
    spent = I.choose("spent", [None, "17s"])
    with scratch() as d, service(M, d) as S:
        S.info = {"status": code}
        if spent:
            S.info["spendTime"] = spent
        r = M.job.check_job(99, REQ)
    I.check(S.asked == [99] and r["status_code"] == code, "status of the job asked about")
    I.check(bool(r["finished"]) == (code in (10, 11)) and bool(r["failed"]) == (code in (12, 13)), "finished, failed or still running")
    I.check(r["status_text"] == TEXT.get(code, r["status_text"]) and (code in TEXT or str(code) in r["status_text"]), "status in words")
    I.check(r["spend_time"] == (spent or ""), "time spent")
    I.reach()


def download(I, M, where):
    """results of the job asked about"""
    has = I.choose("has", [None, {"status": "success", "equation": "u_t = π"}, {"status": "error", "error": "x"}])
    job = I.choose("job", [7, 12])
    with scratch() as d, service(M, d, result=None if has is None else json.dumps(has)) as S, mock.patch.object(M.job, "JOB_OUTPUT_DIR", str(d / "outs")):
        r, path = M.job.download_result(job, REQ, **({"save_dir": str(d / "mine" / "deep")} if where else {}))
        I.check(len(S.down) == 1 and S.down[0][0] == job and S.down[0][1] == "output", "output of the job asked about")
        I.check(S.down[0][2] == str(path) and Path(path).is_dir(), "downloaded where the caller is told")
        I.check(Path(path) == d / "mine" / "deep" if where else d / "outs" in Path(path).parents and str(job) in Path(path).name, "directory of the job")
        if has is None:
            I.check(r.get("status") == "error", "a missing result is an error")
        else:
            I.check(r == has, "the result as written")
    I.reach()


D = ("operators", "epi", "input_dim", "max_iter", "sample")
S_ = ("binary_operators", "unary_operators", "n_samples_per_batch", "seed", "n_epochs", "sample_ratio")
HARNESSES = [
    H(mat, [dict(nx=3, nt=2, stored=s, keys=k, shape2d=j) for s, k, j in (("xt", {}, 0), ("tx", {}, 1), ("xt", {"u_key": "u"}, 2), ("tx", {"x_key": "xx", "t_key": "tt", "u_key": "u"}, 0), ("tx", {"t_key": "time"}, 2))] +
      [dict(nx=2, nt=4, stored=s, keys={}, shape2d=1) for s in ("xt", "tx")] + [dict(nx=3, nt=3, stored="xt", keys={}, shape2d=0)], bounds="2-4 places and times, both storage orders, any values", limit=20),
    H(npy, [dict(nx=3, nt=2, domain=d, flatten=f) for d, f in ((None, 0), ({"x": [-1.0, 3.0], "t": [2.0, 5.0]}, 1), ({"t": [0.5, 2.5]}, 0), ({"x": [4.0, -4.0]}, 1))], bounds="3x2 values, any", limit=20),
    H(source, [{}], bounds="every combination of name and file given, absent, unusable", limit=60),
    H(models, [dict(which="dlga", given=list(g), form=f) for g, f in (((), "list"), (D, "list"), (D, "text"), (("sample", "epi"), "text"), (("operators", "max_iter"), "list"))] +
      [dict(which="dscv_spr", given=list(g), form=f) for g, f in (((), "list"), (S_, "list"), (S_, "text"), (("seed",), "none"), (("n_epochs", "unary_operators"), "text"))], bounds="any numeric hyper-parameters", limit=30),
    H(run_main, [dict(unit=0)], bounds="known, unknown and missing model, data set by name or file, every failure point", limit=120),
    H(submit, [dict(upload=u) for u in (0, 1)], bounds="any project numbers 0-9, with and without upload and failure", limit=120),
    H(status, [dict(lo=-2, hi=17)], bounds="status codes -2 to 16", limit=60),
    H(download, [dict(where=w) for w in (0, 1)], bounds="result present, absent or an error", limit=30),
]

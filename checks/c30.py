"""C30: the plotting façade shows the asked model's own plot and says where it is"""
import contextlib
import importlib
import io
import logging
import os
import shutil
import tempfile
from pathlib import Path
from unittest import mock

import numpy as np

from symx.runner import H
from . import disco
from .env import quiet

ASSUMPTIONS = ["matplotlib is a stand-in that writes down what it is asked and may fail at any call",
               "rcParams is a dictionary that refuses unknown names"]


def load():
    M = disco.load_disco()
    imp = importlib.import_module
    M.core, M.registry, M.api, M.style = imp("kd.viz.core"), imp("kd.viz.registry"), imp("kd.viz.api"), imp("kd.viz._style")
    M.rend, M.adapters, M.helpers = imp("kd.viz.equation_renderer"), imp("kd.viz.adapters"), imp("kd.viz._helpers")
    M.a = {k: imp("kd.viz._adapters." + k) for k in ("discover", "dlga", "sga", "pysr")}
    M.models = {"discover": imp("kd.model.kd_discover").KD_Discover, "spr": imp("kd.model.kd_discover").KD_Discover_SPR,
                "dlga": imp("kd.model.kd_dlga").KD_DLGA, "sga": imp("kd.model.kd_sga").KD_SGA, "pysr": imp("kd.model.kd_pysr").KD_PySR}
    return M


@contextlib.contextmanager
def registry(M):
    eager, lazy = dict(M.registry._ADAPTERS), dict(M.registry._LAZY_ADAPTERS)
    try:
        M.registry.clear_registry()
        yield M.registry
    finally:
        M.registry.clear_registry()
        M.registry._ADAPTERS.update(eager)
        M.registry._LAZY_ADAPTERS.update(lazy)


class Adapter:
    def __init__(self, name, capabilities=("plot",)):
        self.name, self.capabilities, self.calls = name, capabilities, []

    def render(self, request, ctx):
        self.calls.append((request, ctx))
        return self.action(request, ctx)


class Base:
    pass


class Other:
    pass


class Mid(Base):
    pass


class Leaf(Mid):
    pass


class Mixed(Other, Leaf):
    pass


ALL = [Base, Other, Mid, Leaf, Mixed]


def nearest(cls, have):
    return next((have[c] for c in cls.__mro__ if c in have), None)


def lookup(I, M, steps):
    """a model is plotted by the adapter of its most specific registered class, whatever was registered, removed or looked up before"""
    have = {}
    lazily = {}
    calls = []
    with registry(M) as R:
        for s in range(steps):
            act = I.choose(f"act{s}", ["add", "lazy", "remove", "look"])
            cls = ALL[I.choose(f"cls{s}", list(range(len(ALL))))]
            if act in ("add", "remove", "lazy") and cls in lazily:
                I.require(False)                # a late adapter is registered once and stays
            if act == "add":
                have[cls] = Adapter(f"{cls.__name__}{s}")
                R.register_adapter(cls, have[cls])
            elif act == "lazy":
                if cls in have:
                    I.require(False)
                ad = lazily[cls] = Adapter(f"lazy{cls.__name__}{s}")
                R.register_lazy_adapter(cls.__name__, lambda cls=cls, ad=ad: calls.append(cls) or (cls, ad))
            elif act == "remove":
                have.pop(cls, None)
                R.unregister_adapter(cls)
            else:
                check_lookup(I, R, cls, {**have, **lazily}, s)
        for cls in ALL:
            check_lookup(I, R, cls, {**have, **lazily}, s)
        I.check(R.get_adapter(None) is None and R.get_adapter(3) is None, "nothing is found for anything else")
        I.check(all(calls.count(c) <= steps for c in calls), "each late adapter is resolved once")
    I.reach("looked up")


def check_lookup(I, R, cls, have, s):
    want = nearest(cls, have)
    for target in (cls(), cls):
        I.check(R.get_adapter(target) is want, "the most specific registered class decides")


def missing(I, M):
    """an adapter whose model cannot be imported is not found, and asking again does not fail"""
    with registry(M) as R:
        ad = Adapter("base")
        base = I.choose("base", [0, 1])
        if base:
            R.register_adapter(Base, ad)
        R.register_lazy_adapter("Leaf", lambda: (None, None))
        for _ in range(2):
            I.check(R.get_adapter(Leaf()) is (ad if base else None), "the remaining adapters still serve")
    I.reach("missing")


def defaults(I, M, order):
    """every KD estimator has its own adapter, also through a subclass, in whatever order they are asked"""
    want = {"discover": M.a["discover"].DiscoverVizAdapter, "spr": M.a["discover"].DiscoverVizAdapter, "dlga": M.a["dlga"].DLGAVizAdapter,
            "sga": M.a["sga"].SGAVizAdapter, "pysr": M.a["pysr"].PySRVizAdapter}
    with registry(M) as R:
        M.adapters.register_default_adapters()
        first = I.choose("first", sorted(want))
        sub = I.choose("sub", [True, False])
        for k in [first] + [o for o in order if o != first]:
            cls = M.models[k]
            if sub:
                cls = type("Mine", (cls,), {})
            ad = R.get_adapter(object.__new__(cls))
            I.check(type(ad) is want[k], "the estimator's own adapter")
            I.check(set(M.core.list_capabilities(object.__new__(cls))) == set(want[k]().capabilities), "its plots are listed")
        I.check(list(M.core.list_capabilities(object())) == [], "nothing else has plots")
    I.reach("defaults")


class Rc(dict):
    """rcParams: unknown names are refused"""
    def copy(self):
        return Rc(self)

    def update(self, d):
        for k, v in d.items():
            if k not in self:
                raise KeyError(k)
            self[k] = v


NAMES = ["font.size", "figure.titlesize", "axes.labelsize", "xtick.labelsize", "ytick.labelsize", "savefig.dpi", "savefig.bbox", "lines.linewidth", "axes.grid"]


def style(I, M, kind):
    """a plot is drawn with the configured style plus the caller's, and the settings are as before afterwards, also when it fails"""
    base = {k: I.real("rc " + k, 0, 100) for k in NAMES}
    rc = Rc(base)
    conf = {k: I.real("conf " + k, 0, 100) for k in ("font.size", "lines.linewidth")}
    mine = {k: I.real("mine " + k, 0, 100) for k in ("font.size", "savefig.dpi", "axes.grid")}
    set_conf, fails = I.choose("conf", [0, 1]), I.choose("fails", [0, 1])
    seen = []
    answer = M.core.VizResult(intent="plot")

    def action(request, ctx):
        seen.append((dict(rc), request, ctx))
        rc["axes.grid"] = 77
        if fails:
            raise ZeroDivisionError
        return answer
    ad = Adapter("a")
    ad.action = action
    target = Leaf()
    saved = M.style._CONFIG.style, M.style._CONFIG.save_dir, M.style._CONFIG.backend
    extra = {"none": None, "empty": {}, "mine": mine, "bad": {"no.such.name": 1}}[kind]
    opts = {"q": 1} if kind == "none" else {"q": 1, "style": extra}
    try:
        M.style._CONFIG.style, M.style._CONFIG.save_dir = dict(M.style.DEFAULT_STYLE), None
        with registry(M) as R, mock.patch.object(M.style.matplotlib, "rcParams", rc), quiet():
            R.register_adapter(Base, ad)
            if set_conf:
                M.core.configure(style=conf, save_dir="some/where")
            r = None
            try:
                r = M.core.render(M.core.VizRequest("plot", target, opts))
                I.check(not fails and kind != "bad", "a failure is not hidden")
            except ZeroDivisionError:
                I.check(fails, "no failure is made up")
            except KeyError:
                I.check(kind == "bad" and not seen, "an unknown setting is refused before drawing")
            for k in NAMES:
                I.eq(rc[k], base[k], "settings are restored: " + k)
            def again():
                """a later plot without a style of its own"""
                n = len(seen)
                ad.action = lambda request, ctx: seen.append((dict(rc), request, ctx)) or answer
                M.core.render(M.core.VizRequest("plot", target, {"q": 2}))
                I.check(len(seen) == n + 1, "a later plot is drawn")
                plain = {**base, **M.style.DEFAULT_STYLE, **(conf if set_conf else {})}
                for k in NAMES:
                    if isinstance(plain[k], str):
                        I.check(seen[-1][0][k] == plain[k], "style of a later plot: " + k)
                    else:
                        I.eq(seen[-1][0][k], plain[k], "style of a later plot: " + k)
                seen.pop()
            again()
            if kind == "bad":
                I.reach("refused")
                return
            I.check(len(seen) == 1 and (fails or r is answer), "the adapter draws once and its result is returned")
            during, request, ctx = seen[0]
            want = {**base, **M.style.DEFAULT_STYLE, **(conf if set_conf else {}), **(extra or {})}
            for k in NAMES:
                if isinstance(want[k], str):
                    I.check(during[k] == want[k], "style in use: " + k)
                else:
                    I.eq(during[k], want[k], "style in use: " + k)
            I.check(request.kind == "plot" and request.target is target and request.options is opts and ctx.options == opts, "the request is handed on")
            I.check(ctx.config.save_dir == (Path("some/where") if set_conf else None), "the configured directory is handed on")
            I.check(all(M.style.DEFAULT_STYLE[k] == v for k, v in {'font.size': 12, 'savefig.dpi': 300}.items()), "the defaults are not changed")
    finally:
        M.style._CONFIG.style, M.style._CONFIG.save_dir, M.style._CONFIG.backend = saved
    I.reach("drawn")


def backend(I, M):
    """the drawing backend asked for, else the configured one, is in use and handed on; the last configuration counts"""
    used = ["start"]
    first, second = I.choose("first", [None, "agg", "svg"]), I.choose("second", [None, "agg", "pdf"])
    asked = [I.choose(f"ask{k}", ["matplotlib", "agg", "svg"]) for k in range(2)]
    ctxs = []
    ad = Adapter("a")
    ad.action = lambda request, ctx: ctxs.append(ctx) or M.core.VizResult(intent="plot")
    saved = M.style._CONFIG.style, M.style._CONFIG.save_dir, M.style._CONFIG.backend
    try:
        M.style._CONFIG.style, M.style._CONFIG.save_dir, M.style._CONFIG.backend = dict(M.style.DEFAULT_STYLE), None, None
        with registry(M) as R, mock.patch.object(M.style.matplotlib, "use", lambda b, **k: used.append(b)), \
                mock.patch.object(M.style.matplotlib, "rcParams", Rc({k: 0 for k in NAMES})), quiet():
            R.register_adapter(Base, ad)
            cur = None
            for n, b in enumerate((first, second)):
                c = M.core.configure(backend=b, style={"font.size": 20 + n} if b else None, save_dir=f"d{n}" if b else None)
                cur = b or cur
                I.check(c.backend == cur and used[-1] == (cur or "start"), "the configured backend is switched on")
                if cur:
                    k = n if b else 0
                    I.check(c.style == {**M.style.DEFAULT_STYLE, "font.size": 20 + k} and str(c.save_dir) == f"d{k}", "the last configuration counts")
            M.core.configure(style={"axes.labelsize": 3})
            I.check(M.core.get_config().style == {**M.style.DEFAULT_STYLE, "axes.labelsize": 3}, "a new style replaces the old one")
            I.check(M.core.get_config().backend == cur, "other settings are kept")
            for b in asked:
                M.core.render(M.core.VizRequest("plot", Leaf(), {}), backend=b)
                cur = cur if b == "matplotlib" else b
                I.check(used[-1] == (cur or "start"), "the plot's backend is switched on")
                I.check(ctxs[-1].backend == (cur or "matplotlib"), "the plot is told its backend")
    finally:
        M.style._CONFIG.style, M.style._CONFIG.save_dir, M.style._CONFIG.backend = saved
    I.reach("drawn")


def refusal(I, M):
    """a plot the model does not support, or a model without plots, is refused with a warning that lists what is possible, and nothing is drawn"""
    caps = I.choose("caps", [["tree", "equation"], ("z", "a", "m"), set(), {"only"}])
    kind = I.choose("kind", ["parity", "equation", "z", "only"])
    known = I.choose("known", [True, False])
    ad = Adapter("a", caps)
    ad.action = lambda *a: M.core.VizResult(intent=kind, figure=object())
    with registry(M) as R, quiet():
        if known:
            R.register_adapter(Base, ad)
        r = M.core.render(M.core.VizRequest(kind, Leaf(), {}))
    if known and kind in caps:
        I.check(len(ad.calls) == 1 and r.has_content and not r.warnings, "a supported plot is drawn")
        I.reach("drawn")
        return
    I.check(not ad.calls and not r.has_content and r.intent == kind and len(r.warnings) == 1, "nothing is drawn")
    if known:
        I.check(r.metadata["capabilities"] == sorted(caps) and kind in r.warnings[0], "what is possible is listed")
    else:
        I.check("Leaf" in r.warnings[0], "the model without plots is named")
    I.reach("refused")


CALLS = {   # api function -> intent, required arguments, optional arguments with the value that means "not given"
    "plot_training_curve": ("training_curve", [], []), "plot_validation_curve": ("validation_curve", [], []),
    "plot_search_evolution": ("search_evolution", [], []), "plot_optimization": ("optimization", [], []), "render_equation": ("equation", [], []),
    "plot_time_slices": ("time_slices", ["t_coords", "true_field", "predicted_field"], ["x_coords", "slice_times", "spatial_coords"]),
    "plot_residuals": ("residual", ["actual", "predicted"], ["coordinates"]),
    "plot_field_comparison": ("field_comparison", ["t_coords", "true_field", "predicted_field"], ["x_coords", "residual_field", "spatial_coords"]),
    "plot_derivative_relationships": ("derivative_relationships", [], ["top_n_terms"]), "plot_parity": ("parity", [], ["title"])}


def facade(I, M, name):
    """each plotting call asks for its own plot of the given model with exactly the given data, and prints what came of it"""
    kind, need, may = CALLS[name]
    data = {k: I.array(k, (2,), -8, 8) for k in need + may}
    giv = [k for k in may if I.choose("give " + k, [0, 1])]
    extra = {"output_dir": "d", "bins": I.int("bins", 1, 99)} if I.choose("extra", [0, 1]) else {}
    outcome = I.choose("outcome", ["paths", "two", "figure", "nothing", "warn", "warn2"])
    show = I.choose("show", [None, True, False])
    W = lambda: M.core.VizResult(
        intent=kind, figure=object() if outcome == "figure" else None,
        paths=[Path("/a/b.png")] if outcome in ("paths", "warn") else [Path("/a/b.png"), Path("c.png")] if outcome == "two" else [],
        warnings=["w1"] if outcome == "warn" else ["w1", "w2"] if outcome == "warn2" else [])
    ad = Adapter("a", [kind])
    made = []
    ad.action = lambda *a: made.append(W()) or made[0]
    target = Leaf()
    out = io.StringIO()
    kw = {**{k: data[k] for k in need + giv}, **extra}
    before = dict(kw)
    with registry(M) as R, contextlib.redirect_stdout(out):
        R.register_adapter(Base, ad)
        r = getattr(M.api, name)(target, **kw, **({} if show is None else {"show_info": show}))
    I.check(len(ad.calls) == 1 and r is made[0], "one plot is made and its result returned")
    req, ctx = ad.calls[0]
    I.check(req.kind == kind and req.target is target, "the named plot of the given model")
    want = dict(before)
    if name == "plot_derivative_relationships" and "top_n_terms" not in want:
        want["top_n_terms"] = 4
    got = {k: v for k, v in ctx.options.items()}
    I.check(sorted(got) == sorted(want), "with exactly the given options")
    for k in want:
        I.check(got[k] is want[k] or k in ("bins", "top_n_terms", "output_dir"), "the given data: " + k)
        if k in ("bins",):
            I.eq(got[k], want[k], "the given option")
        elif k == "output_dir" or (k == "top_n_terms" and k not in before):
            I.check(got[k] == want[k], "the given option")
    text = out.getvalue()
    if show is False:
        I.check(text == "", "nothing is printed when not asked for")
    else:
        ref = {"paths": "saved: /a/b.png", "two": "saved: /a/b.png, c.png", "figure": "figure ready", "nothing": "produced no output",
               "warn": "warning: w1", "warn2": "warning: w1; w2"}[outcome]
        I.check(text == f"[kd.viz.{kind}] {ref}\n", "what came of it is printed")
    I.check(r.has_content == (outcome in ("paths", "two", "figure", "warn")), "content is reported")
    I.reach(outcome)


# -- the equation image ---------------------------------------------------------------------
class Fake:
    """pyplot that writes down what it draws; may fail at one call"""
    def __init__(self, fail=None):
        self.fail, self.texts, self.saved, self.closed, self.shown, self.open = fail, [], [], 0, 0, 0

    def step(self, name):
        if self.fail == name:
            raise ValueError("cannot " + name)

    def subplots(self, *a, **kw):
        self.step("subplots")
        self.open += 1
        return self, self

    def text(self, x, y, s, **kw):
        self.step("text")
        self.texts.append((s, kw.get("size", kw.get("fontsize"))))

    def axis(self, *a):
        pass

    def savefig(self, path, **kw):
        self.step("savefig")
        self.saved.append((str(path), self.texts[-1]))
        Path(path).write_text(str(self.texts[-1][0]))

    def show(self):
        self.step("show")
        self.shown += 1

    def close(self, fig=None):
        self.closed += 1


@contextlib.contextmanager
def drawing(M, fake):
    d = tempfile.mkdtemp(prefix="kdviz")
    cwd = os.getcwd()
    os.chdir(d)
    logging.disable(logging.CRITICAL)
    saved = M.style._CONFIG.style, M.style._CONFIG.save_dir, M.style._CONFIG.backend
    try:
        M.style._CONFIG.save_dir = None
        with mock.patch.object(M.rend, "plt", fake), quiet():
            yield Path(d)
    finally:
        M.style._CONFIG.style, M.style._CONFIG.save_dir, M.style._CONFIG.backend = saved
        logging.disable(logging.NOTSET)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def image(I, M):
    """the image of an equation shows its text once, in math mode, at the given size and place; nothing stays open"""
    fail = I.choose("fail", [None, "subplots", "text", "savefig", "show"])
    text, ref = I.choose("text", [["u_t = u", "$u_t = u$"], ["$u_t$", "$u_t$"], [" $u$ ", " $u$ "], ["$", "$$$"], ["a$", "$a$$"], ["x" * 900, "$" + "x" * 900 + "$"]])
    size = I.choose("size", [None, 7])
    show = I.choose("show", [True, False])
    save = I.choose("save", [True, False])
    fake = Fake(fail)
    with drawing(M, fake) as d:
        kw = {} if size is None else {"font_size": size}
        M.rend.render_latex_to_image(text, output_path=str(d / "e.png") if save else None, show=show, **kw)
        ok = fail is None or (fail == "savefig" and not save) or (fail == "show" and not show)
        if ok:
            I.check(fake.texts == [(ref, size or 16)], "the text is drawn")
            I.check([s[0] for s in fake.saved] == ([str(d / "e.png")] if save else []), "the image is saved where asked")
            I.check(fake.shown == (1 if show else 0), "shown only when asked")
        I.check(fake.closed >= fake.open, "the figure is closed")
    I.reach("image")


class Lines:
    """equation_latex of an estimator"""


def outdir(d, where, M):
    """directory asked for -> options, expected base"""
    if where == "option":
        return {"output_dir": str(d / "o" / "p")}, d / "o" / "p"
    if where == "config":
        M.core.configure(save_dir=str(d / "conf"))
        return {}, d / "conf"
    return {}, d


def equation(I, M, which):
    """render_equation draws the model's own equation in the asked notation and reports the file; without an image it warns and reports none"""
    fail = I.choose("fail", [None, "text", "savefig", "convert"])
    stale = I.choose("stale", [False, True])
    where = I.choose("where", ["option", "config", "cwd"])
    size = I.choose("size", [None, 9])
    fake = Fake(fail)
    with drawing(M, fake) as d, contextlib.ExitStack() as st:
        opts, base = outdir(d, where, M)
        if size is not None:
            opts["font_size"] = size
        target, want, arg, dflt = MAKE[which](I, M, opts, fail == "convert", st)
        if stale:
            fake.fail = None
            keep = fake.texts
            p = base / which
            p.mkdir(parents=True)
            for n in ("equation.png", "equation_structure.png"):
                (p / n).write_text("an older equation")
            fake.fail = fail
        r = M.api.render_equation(target, show_info=False, **opts)
        bad = want is None or fail is not None
        if bad:
            I.check(len(r.warnings) == 1 and r.warnings[0] and not r.has_content, "no image is claimed where none was produced")
            I.reach("refused")
            return
        files = ["equation.png"] + (["equation_structure.png"] if which == "sga" else [])
        I.check([Path(p).resolve() for p in r.paths] == [(base / which / f).resolve() for f in files], "the file is where it was asked")
        I.check(not r.warnings and r.intent == "equation", "no warning")
        I.check([Path(p).read_text() for p in r.paths] == [f"${w}$" for w in want], "the image shows the model's equation")
        I.check([t[1] for t in fake.texts] == [size or dflt] * len(files), "at the asked size")
        I.check(r.metadata["latex"] == want[0], "its text is reported")
        if which == "sga":
            I.check(r.metadata["structure_latex"] == want[1], "its structure is reported")
        for k, v in arg.items():
            I.check(r.metadata[k] == v, k)
    I.reach("drawn")


def boom(*a, **kw):
    raise RuntimeError("no equation")


def discover_eq(I, M, opts, broken, st):
    note = I.choose("note", [None, "leibniz"])
    if note:
        opts["notation"] = note
    m = object.__new__(M.models["spr"])
    progs = {k: object() for k in ("model", "second", "searcher")}
    form = I.choose("form", ["one", "list", "searcher", "searcher list", "none list", "empty", "nothing"])
    searcher = type("S", (), {})()
    m.__dict__.update({"one": dict(best_p=progs["model"], searcher=searcher), "list": dict(best_p=[progs["model"], progs["second"]]),
                       "searcher": dict(searcher=searcher), "searcher list": dict(best_p=[], searcher=searcher),
                       "none list": dict(best_p=[None], searcher=searcher), "empty": dict(best_p=[], searcher=None), "nothing": {}}[form])
    searcher.best_p = [progs["searcher"]] if form == "searcher list" else progs["searcher"]
    want = progs["model"] if form in ("one", "list") else progs["searcher"] if form in ("searcher", "searcher list", "none list") else None
    names = {id(v): k for k, v in progs.items()}
    st.enter_context(mock.patch.object(M.a["discover"], "discover_program_to_latex",
                                       boom if broken else lambda p, notation="subscript", **kw: names[id(p)] + notation))
    return m, None if want is None else [names[id(want)] + (note or "subscript")], {}, 16


def dlga_eq(I, M, opts, broken, st):
    m = object.__new__(M.models["dlga"])
    n = 3
    m.Chrom = [[[0]], [[1], [0, 2]], [[2]], [[0, 0]]]          # more individuals than fitted ones
    m.coef = [np.array([[1.0 + i]]) for i in range(n)]
    m.name = [f"u_t{i}" for i in range(n)]
    m.user_operators = ["u", "u_x", "u_xx"]
    idx = I.choose("index", [None, 0, 1, 2, 3, 7])
    miss = I.choose("missing", [None, "Chrom", "coef", "name"])
    if miss:
        if I.choose("gone", [0, 1]):
            delattr(m, miss)
        else:
            setattr(m, miss, [])
    if idx is not None:
        opts["solution_index"] = idx
    i = idx or 0

    def conv(chromosome, coefficients, lhs_name_str, operator_names=None):
        k = next(j for j in range(n) if lhs_name_str == f"u_t{j}")
        ok = chromosome is m.Chrom[k] and coefficients is m.coef[k] and list(operator_names) == m.user_operators
        return f"solution {k} {ok}"
    st.enter_context(mock.patch.object(M.a["dlga"], "dlga_eq2latex", boom if broken else conv))
    if broken:
        I.require(False)                                         # a failing conversion raises
    return m, None if miss or i >= n else [f"solution {i} True"], {"index": i}, 16


def sga_eq(I, M, opts, broken, st):
    note = I.choose("note", [None, "leibniz"])
    old = I.choose("old", [False, True])
    if note:
        opts["notation"] = note

    class Model(M.models["sga"]):
        def __init__(self):
            pass
    if broken:
        Model.equation_latex = boom
    elif old:
        Model.equation_latex = lambda self, *, include_coefficients=True: f"{include_coefficients} plain"
    else:
        Model.equation_latex = lambda self, *, include_coefficients=True, notation="subscript": f"{include_coefficients} {notation}"
    n = "plain" if old else note or "subscript"
    return Model(), [f"True {n}", f"False {n}"], {}, 16


def pysr_eq(I, M, opts, broken, st):
    class Model(M.models["pysr"]):
        def __init__(self):
            pass
    Model.equation_latex = boom if broken else lambda self, lhs="y": f"{lhs} = x_0"
    return Model(), ["y = x_0"], {}, 18


MAKE = dict(discover=discover_eq, dlga=dlga_eq, sga=sga_eq, pysr=pysr_eq)

HARNESSES = [
    H(lookup, [dict(steps=3)], bounds="5 classes in a hierarchy, every history of 3 registrations, removals and lookups"),
    H(missing, [{}], bounds="with and without a base adapter"),
    H(defaults, [dict(order=["discover", "spr", "dlga", "sga", "pysr"])], bounds="all five estimators and a subclass of each"),
    H(backend, [dict()], bounds="two configurations and two plots, three backends"),
    H(style, [dict(kind=k) for k in ("none", "empty", "mine", "bad")], bounds="9 settings of any value"),
    H(refusal, [{}], bounds="every choice of the lists"),
    H(facade, [dict(name=n) for n in CALLS], bounds="all ten calls, any data, every combination of optional arguments and outcomes"),
    H(image, [{}], bounds="every failure point, 6 texts"),
    H(equation, [dict(which=w) for w in MAKE], bounds="every failure point, three ways to name the directory, with and without an older image"),
]

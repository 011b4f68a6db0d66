"""a drawing library that only writes down what it is asked to draw (symbolic runs and replays alike)"""
import contextlib
import re
import sys
import types
from pathlib import Path
from unittest import mock

import numpy as np


class Nop:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Nop()

    def get_label(self):
        return self.__dict__.get("label", "")


class Axes:
    def __init__(self):
        self.draws, self.title, self.xlabel, self.ylabel, self.twin, self.visible = [], "", "", "", None, True
        self.window = {}

    def _d(self, kind, a, k):
        self.draws.append((kind, a, k))

    def plot(self, *a, **k):
        self._d("plot", a, k)
        return [Nop(label=k.get("label", ""))]

    def scatter(self, *a, **k):
        self._d("scatter", a, k)
        return Nop()

    def hist(self, *a, **k):
        self._d("hist", a, k)
        return np.ones(2), np.arange(3.0), [Nop(), Nop()]

    def pcolormesh(self, *a, **k):
        self._d("pcolormesh", a, k)
        return Nop()

    def imshow(self, *a, **k):
        self._d("imshow", a, k)
        return Nop()

    def set_title(self, s, *a, **k):
        self.title = str(s)

    def set_xlabel(self, s, *a, **k):
        self.xlabel = str(s)

    def set_ylabel(self, s, *a, **k):
        self.ylabel = str(s)

    def set_xlim(self, *a, **k):
        self._lim("x", a, k)

    def set_ylim(self, *a, **k):
        self._lim("y", a, k)

    def _lim(self, d, a, k):
        a = tuple(a[0]) if len(a) == 1 and a[0] is not None and np.ndim(a[0]) else a
        lo = a[0] if a else k.get("left", k.get("bottom", k.get(d + "min")))
        hi = a[1] if len(a) > 1 else k.get("right", k.get("top", k.get(d + "max")))
        old = self.window.get(d, (None, None))
        self.window[d] = (old[0] if lo is None else lo, old[1] if hi is None else hi)

    def set(self, **k):
        for d in "xy":
            if d + "lim" in k:
                self._lim(d, (k[d + "lim"],), {})
        for n in ("title", "xlabel", "ylabel"):
            if n in k:
                setattr(self, n, str(k[n]))

    def set_visible(self, v):
        self.visible = v

    def twinx(self):
        self.twin = Axes()
        return self.twin

    def get_legend_handles_labels(self):
        return [], []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Nop()


class Fig:
    def __init__(self, rec):
        self.rec, self.axes, self.saved, self.closed, self.title = rec, [], [], False, ""

    def add(self):
        a = Axes()
        self.axes.append(a)
        return a

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        r = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                r[i, j] = self.add()
        if squeeze:
            if r.size == 1:
                return r[0, 0]
            if 1 in r.shape:
                return r.reshape(-1)
        return r

    def add_subplot(self, *a, **k):
        return self.add()

    def add_axes(self, *a, **k):
        return Axes()

    def add_gridspec(self, *a, **k):
        class G:
            def __getitem__(s, i):
                return i
        return G()

    def suptitle(self, s, *a, **k):
        self.title = str(s)

    def savefig(self, path, *a, **k):
        self.saved.append(str(path))
        Path(path).write_text(f"figure {self.rec.figs.index(self)}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Nop()


class Rec(types.ModuleType):
    """stands for matplotlib.pyplot"""

    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.figs, self.cur, self.ax, self.sub = [], None, None, {}
        self.rcParams = {}
        self.style = types.SimpleNamespace(context=lambda *a, **k: contextlib.nullcontext(), use=lambda *a, **k: None)
        self.Figure = Fig

    def figure(self, *a, **k):
        self.cur, self.ax, self.sub = Fig(self), None, {}
        self.figs.append(self.cur)
        return self.cur

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        sq = k.get("squeeze", True)
        axs = f.subplots(nrows, ncols, squeeze=sq)
        self.ax = f.axes[0]
        return f, axs

    def subplot(self, *a, **k):
        if self.cur is None:
            self.figure()
        if a not in self.sub:
            self.sub[a] = self.cur.add()
        self.ax = self.sub[a]
        return self.ax

    def gca(self):
        if self.cur is None:
            self.figure()
        if self.ax is None:
            self.ax = self.cur.add()
        return self.ax

    def gcf(self):
        return self.cur or self.figure()

    def savefig(self, *a, **k):
        self.gcf().savefig(*a, **k)

    def close(self, *a):
        self.cur = self.ax = None

    def get_cmap(self, *a):
        return lambda v: (0, 0, 0, 1)

    def title(self, s, *a, **k):
        self.gca().title = str(s)

    def xlabel(self, s, *a, **k):
        self.gca().xlabel = str(s)

    def ylabel(self, s, *a, **k):
        self.gca().ylabel = str(s)

    def xlim(self, *a, **k):
        self.gca()._lim("x", a, k)

    def ylim(self, *a, **k):
        self.gca()._lim("y", a, k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("plot", "scatter", "hist", "pcolormesh", "imshow"):
            return lambda *a, **k: getattr(self.gca(), n)(*a, **k)
        return lambda *a, **k: Nop()


class Sns(types.ModuleType):
    def __init__(self, rec):
        super().__init__("seaborn")
        self.rec = rec

    def kdeplot(self, data, ax=None, label="", **k):
        (ax or self.rec.gca())._d("kde", (data,), dict(k, label=label))
        return ax

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: Nop()


@contextlib.contextmanager
def recording(*modules):
    """plotting done inside is written down instead of drawn"""
    import matplotlib
    rec = Rec()
    sns = Sns(rec)
    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.dict(sys.modules, {"matplotlib.pyplot": rec, "seaborn": sns}))
        st.enter_context(mock.patch.object(matplotlib, "pyplot", rec))
        for m in modules:
            if hasattr(m, "plt"):
                st.enter_context(mock.patch.object(m, "plt", rec))
            if hasattr(m, "sns"):
                st.enter_context(mock.patch.object(m, "sns", sns))
        yield rec


# -- reading a drawing -----------------------------------------------------------
def flat(a):
    return list(np.asarray(a, dtype=object).reshape(-1))


def curves(ax):
    """[(xs, ys, label)] of the lines of a panel"""
    out = []
    for k, a, kw in ax.draws:
        if k == "plot":
            a = [v for v in a if not isinstance(v, str)]
            ys = flat(a[-1])
            xs = flat(a[0]) if len(a) > 1 else list(range(len(ys)))
            out.append((xs, ys, kw.get("label", "")))
    return out


def mesh(ax):
    """{(x, y): value} of a colour map, None when the panel has none"""
    for k, a, kw in ax.draws:
        if k == "pcolormesh":
            X, Y, C = [np.asarray(v, dtype=object) for v in a]
            if X.ndim == 1:
                if Y.ndim != 1 or C.shape != (Y.size, X.size):
                    raise ValueError(f"pcolormesh: {X.shape} {Y.shape} {C.shape}")
                return {(X[j], Y[i]): C[i, j] for i in range(Y.size) for j in range(X.size)}
            if not X.shape == Y.shape == C.shape:
                raise ValueError(f"pcolormesh: {X.shape} {Y.shape} {C.shape}")
            return {(X[i, j], Y[i, j]): C[i, j] for i in range(C.shape[0]) for j in range(C.shape[1])}
        if k == "imshow":
            C = np.asarray(a[0], dtype=object)
            n, m = C.shape
            ext = kw.get("extent")
            rows = range(n) if kw.get("origin") == "lower" else range(n - 1, -1, -1)
            if ext is None:
                return {(j, i): C[i, j] for i in range(n) for j in range(m)}
            x0, x1, y0, y1 = ext
            return {(x0 + (x1 - x0) * (2 * j + 1) / (2 * m), y0 + (y1 - y0) * (2 * p + 1) / (2 * n)): C[i, j] for p, i in enumerate(rows) for j in range(m)}
    return None


def points(ax):
    """[(x, y, colour or None)] of a scatter panel"""
    for k, a, kw in ax.draws:
        if k == "scatter":
            xs, ys = flat(a[0]), flat(a[1])
            c = kw.get("c", a[3] if len(a) > 3 else None)
            cs = flat(c) if c is not None and not isinstance(c, str) else [None] * len(xs)
            if len(xs) != len(ys) or len(cs) != len(xs):
                raise ValueError(f"scatter: {len(xs)} {len(ys)} {len(cs)}")
            return list(zip(xs, ys, cs))
    return None


def in_view(I, ax, xys, label="the panel shows every point"):
    """no point lies outside the limits set on the panel"""
    for d, k in (("x", 0), ("y", 1)):
        lo, hi = ax.window.get(d, (None, None))
        for p in xys:
            if lo is not None and hi is not None:
                I.check(I.any([I.all([I.le(lo, p[k]), I.le(p[k], hi)]), I.all([I.le(hi, p[k]), I.le(p[k], lo)])]), label)


def bars(ax):
    for k, a, kw in ax.draws:
        if k == "hist":
            return flat(a[0])
    return None


def number_in(title):
    m = re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", title.partition("=")[2] or title.partition("~")[2])
    return float(m[0]) if m else None

"""C16: the equation SGA displays reads back as exactly the fitted terms with their own coefficients"""
import contextlib
import re
import types
from unittest import mock

import numpy as np

from symx import core
from symx.runner import H
from . import sgaenv
from .c13 import build
from .c14 import Ctx, Recorder, mkpde, mode_env, tup
from .sgaenv import T

ASSUMPTIONS = ["symbolic numbers are printed as unique marks, so that a coefficient is recognised in the text whatever its "
               "value; in replays the printed decimals are read back"]


def load():
    return sgaenv.load_sga()


class Marks:
    """text marks for symbolic numbers"""

    def __init__(self, I):
        self.I, self.vals = I, []
        if I.symbolic:
            core.CUR.str_hook = self

    def __call__(self, v, spec):
        self.vals.append(v)
        return f"\u27e8{len(self.vals) - 1}\u27e9"

    def read(self, s):
        return self.vals[int(s[1:-1])] if s.startswith("\u27e8") else float(s)


NUM = r"\u27e8\d+\u27e9|\d+\.?\d*(?:e[-+]?\d+)?"


class Bad(Exception):
    pass


class Reader:
    """reads the rendered text the way it is typeset"""

    def __init__(self, s, marks):
        self.s, self.i, self.m = s, 0, marks

    def ws(self):
        while self.i < len(self.s) and (self.s[self.i] == " " or self.s.startswith("\\,", self.i)):
            self.i += 1 if self.s[self.i] == " " else 2

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Bad(f"expected {t!r} at {self.s[self.i:]!r}")

    def more(self):
        self.ws()
        return self.i < len(self.s)

    def group(self):
        """raw text of a {...} group"""
        self.need("{")
        d, j = 1, self.i
        while d:
            if self.i >= len(self.s):
                raise Bad("unbalanced")
            d += {"{": 1, "}": -1}.get(self.s[self.i], 0)
            self.i += 1
        return self.s[j:self.i - 1]

    def sub(self, text, f):
        r = Reader(text, self.m)
        v = f(r)
        if r.more():
            raise Bad("trailing text " + text[r.i:])
        return v

    def sum(self):
        a = self.product()
        while True:
            if self.eat("+"):
                a = ("+", a, self.product())
            elif self.eat("-"):
                a = ("-", a, self.product())
            else:
                return a

    def product(self):
        fs = [self.factor()]
        while self.eat("\\cdot"):
            fs.append(self.factor())
        out = []
        for f in fs:
            out += list(f[1:]) if f[0] == "*" else [f]
        return ("*",) + tuple(out) if len(out) > 1 else out[0]

    def factor(self):
        self.ws()
        if self.eat("\\frac"):
            a, b = self.group(), self.group()
            if a.startswith("\\partial"):
                v = self.partial(a, b)
            else:
                v = ("/", self.sub(a, Reader.sum), self.sub(b, Reader.sum))
            if self.s.startswith(("_", "^"), self.i):
                raise Bad("index on a bare fraction")
            return v
        if self.eat("("):
            v = self.sum()
            self.need(")")
        else:
            m = re.compile(r"\\[a-z]+|[A-Za-z]+|0|1").match(self.s, self.i)
            if not m:
                raise Bad("no factor at " + self.s[self.i:])
            self.i = m.end()
            v = (m.group(0),)
        sub = sup = None
        while self.i < len(self.s) and self.s[self.i] in "_^":
            k = self.s[self.i]
            self.i += 1
            g = self.group() if self.s[self.i:self.i + 1] == "{" else self.s[self.i:self.i + 1]
            if self.s[self.i - 1] != "}":
                self.i += 1
            if (sub if k == "_" else sup) is not None:
                raise Bad("double index")
            if k == "_":
                sub = g
            else:
                sup = g
        if sub is not None:
            v = deriv(v, tuple(sub))
        if sup is not None:
            v = ("pow", v, int(sup))
        return v

    def partial(self, a, b):
        ra, rb = Reader(a, self.m), Reader(b, self.m)
        ra.need("\\partial")
        n = 1
        if ra.eat("^"):
            n = int(ra.group())
        v = ra.sum()
        rb.need("\\partial")
        rb.ws()
        ax = rb.s[rb.i]
        rb.i += 1
        k = int(rb.group()) if rb.eat("^") else 1
        if ra.more() or rb.more() or k != n:
            raise Bad("derivative fraction")
        return deriv(v, (ax,) * n)


def deriv(v, axes):
    return ("d", v[1], v[2] + axes) if v[0] == "d" else ("d", v, axes)


def norm(t):
    """nested spec -> what a reader should understand"""
    if not isinstance(t, tuple):
        t = (t,)
    if len(t) == 1:
        m = re.fullmatch(r"([a-z])_?(x+|t+)", t[0])
        return deriv((m.group(1),), tuple(m.group(2))) if m else ("\\" + t[0] if t[0] == "nu" else t[0],)
    op = t[0]
    if op in ("d", "d^2"):
        return deriv(norm(t[1]), (t[2] if isinstance(t[2], str) else t[2][0],) * (2 if op == "d^2" else 1))
    k = [norm(q) for q in t[1:]]
    if op == "*":
        out = []
        for q in k:
            out += list(q[1:]) if q[0] == "*" else [q]
        return ("*",) + tuple(out)
    if op in ("^2", "^3"):
        return ("pow", k[0], int(op[1]))
    return (op,) + tuple(k)


def gen(I, depth, ops, leaves, axes, tag="n", first=None):
    pool = (first if first else ops) if depth > 1 else []
    opts = list(pool) + ([] if first else list(leaves))
    k = I.choose(tag, range(len(opts)))
    o = opts[k]
    if o in leaves:
        return o
    if o in ("d", "d^2"):
        return (o, gen(I, depth - 1, ops, leaves, axes, tag + "0"), axes[I.choose(tag + "a", range(len(axes)))])
    return (o,) + tuple(gen(I, depth - 1, ops, leaves, axes, tag + str(j)) for j in range(sgaenv.ARITY[o]))


def depth_of(t):
    return 1 + max([depth_of(k) for k in t[1:]] or [0]) if isinstance(t, tuple) else 1


def real_tree(M, spec):
    leaves = ["u", "v", "x", "y", "t", "nu", "ux", "uxx", "0"]
    ctx = sgaenv.mkctx(M, list(sgaenv.ARITY), list(sgaenv.ARITY), leaves, ["x", "y", "t"],
                       values={k: np.zeros((2, 2)) for k in leaves})
    return build(M, ctx, max(2, depth_of(spec)), spec)


def structure(I, M, depth, ops, leaves, first, notation="subscript"):
    """the structure of one term is unambiguous"""
    spec = gen(I, depth, ops, leaves, ["x", "y"], first=[first])
    E = M.equation
    d = E.SGAEquationDetails("u_t", (E.SGAEquationTerm("?", "generated", 2.5, real_tree(M, spec)),))
    s = E.sga_equation_to_latex(d, include_coefficients=False, notation=notation)
    lhs, rhs = s.split(" = ")
    r = Reader(rhs, None)
    try:
        got = r.sum()
        ok = not r.more()
    except Bad as e:
        I.fail(f"unreadable equation: {e}")
        return
    I.check(ok and got == norm(spec), "displayed structure is the fitted term")


TERMS = [("*", "u", "ux"), ("^2", ("+", "u", "x")), ("d", ("*", "u", "u"), "x"), ("/", "u", "nu")]


def coefficients(I, M, n, notation="subscript", lhs="u_t"):
    """signs and magnitudes stay with their own terms, zero terms are left out"""
    mk = Marks(I)
    E = M.equation
    items = []
    for i in range(n):
        c = I.real(f"c{i}", -1000, 1000)
        I.require(I.any(c >= 1e-5, c <= -1e-5, I.same(c, 0)))
        src = I.choose(f"kind{i}", ["u", "uxx", 0, 1, 2, 3] if n == 1 else ["uxx", i])
        spec = TERMS[src] if isinstance(src, int) else src
        items.append((c, spec, E.SGAEquationTerm(src if isinstance(src, str) else "tree", "generated" if isinstance(src, int) else "default", c,
                                                 real_tree(M, spec) if isinstance(src, int) else None)))
    d = E.SGAEquationDetails(lhs, tuple(t for *_, t in items))
    s = E.sga_equation_to_latex(d, notation=notation)
    want = [(c, norm(sp)) for c, sp, _ in items if bool(c != 0)]
    left, rhs = s.split(" = ")
    I.check(Reader(left, mk).factor() == norm(lhs), "left-hand side")
    if not want:
        I.check(rhs == "0", "no term is displayed as zero")
        return
    got = []
    r = Reader(rhs, mk)
    try:
        while r.more():
            neg = r.eat("-")
            if not neg and got:
                r.need("+")
            m = re.compile(NUM).match(r.s, r.i if not r.ws() else r.i)
            mag = 1.0
            if m:
                mag = mk.read(m.group(0))
                r.i = m.end()
            got.append((-mag if neg else mag, r.product() if r.more() else None))
    except Bad as e:
        I.fail(f"unreadable equation: {e}")
        return
    I.check(len(got) == len(want) and all(a[1] == b[1] for a, b in zip(got, want)), "one displayed term per fitted term, in order")
    for (a, _), (b, _) in zip(got, want):
        tol = 2e-5 * I.ite(abs(b) > 1, abs(b), 1)
        I.check(abs(a - b) <= tol, "displayed coefficient is the fitted one")


def fitted(I, M, specs, ndef, w=None, shape=(3, 2)):
    C = Ctx(I, M, ndef, shape=shape)
    specs = [tup(q) for q in specs]
    D = max(2, max(depth_of(q) for q in specs))
    pde = mkpde(M, C, [build(M, C.ctx, D, q) for q in specs])
    return C, specs, pde, Recorder(I, "r")


def kept_of(specs):
    return [q for q in specs if q not in (("*", "0", "u"), ("d", "u", "t"))]


def details(I, M, specs, ndef, cfg=None):
    """structured result: each term with its own coefficient, default terms first; prediction is matrix times coefficients"""
    C, specs, pde, rec = fitted(I, M, specs, ndef)
    I.require(I.any([v != 0 for v in C.val["u"].reshape(-1)]))
    I.require(I.all([v != 0 for v in C.val["v"].reshape(-1)]))
    for k, v in (cfg or {}).items():
        setattr(C.ctx.config, k, v)
    before = [T(t.tree).preorder() for t in pde.elements]
    with mode_env(M, None), mock.patch.object(M.pde, "Train", rec):
        d = M.equation.extract_equation_details(pde, C.ctx)
    I.check([T(t.tree).preorder() for t in pde.elements] == before and pde.W == len(before), "candidate left as it was")
    R, w = rec.calls[0][0], rec.calls[0][-1][0]
    names = [("default", n) for n in C.ctx.default_names] + [("generated", T(t.tree).inorder()) for t, q in zip(pde.elements, specs)
                                                            if q in kept_of(specs)]
    I.check(R.shape[1] == len(names), "one column per term")
    want = [(n, c) for n, c in zip(names, w.reshape(-1)) if not bool(abs(c) < 1e-5)]
    I.check([(t.source, t.label) for t in d.terms] == [n for n, _ in want], "terms with a coefficient, default terms first, in order")
    for t, (_, c) in zip(d.terms, want):
        I.eq(t.coefficient, c, "coefficient of its own term")
        I.check((t.tree is None) == (t.source == "default"), "tree of its own term")
        if t.tree is not None:
            I.check(T(t.tree.tree).inorder() == t.label, "tree of its own term")
    I.check(np.shape(d.predicted_rhs) == C.shape, "prediction on the grid")
    I.eq_all(np.asarray(d.predicted_rhs).reshape(-1), [sum(a * b for a, b in zip(row, w.reshape(-1))) for row in R],
             "prediction is the fitted combination")
    ls = (cfg or {}).get("left_side")
    I.check(d.lhs == (ls.split("=")[1].strip() if ls else
                      f"{(cfg or {}).get('target_field', 'u')}_{(cfg or {}).get('lhs_axis', 't')}"), "left-hand side names the fitted quantity")


def concise(I, M, specs, ndef):
    """one-line report of a candidate"""
    C, specs, pde, rec = fitted(I, M, specs, ndef)
    I.require(I.any([v != 0 for v in C.val["u"].reshape(-1)]))
    I.require(I.all([v != 0 for v in C.val["v"].reshape(-1)]))
    mk = Marks(I)
    before = [T(t.tree).preorder() for t in pde.elements]
    names = list(C.ctx.default_names) + [T(t.tree).inorder() for t, q in zip(pde.elements, specs) if q in kept_of(specs)]
    with mode_env(M, None), mock.patch.object(M.pde, "Train", rec), contextlib.ExitStack() as st:
        if I.symbolic:
            st.enter_context(mock.patch.object(M.pde, "round", lambda v, n=0: v, create=True))
        s = pde.concise_visualize(C.ctx)
    I.check([T(t.tree).preorder() for t in pde.elements] == before and pde.W == len(before), "candidate left as it was")
    w = rec.calls[0][-1][0].reshape(-1)
    want = [(n, c) for n, c in zip(names, w) if not bool(abs(c) < 1e-4)]
    pos = 0
    for i, (n, c) in enumerate(want):
        if i:
            I.check(s.startswith(" + ", pos), "terms separated")
            pos += 3
        m = re.compile(r"-?(?:" + NUM + ")").match(s, pos)
        I.check(m is not None, "coefficient shown")
        if m is None:
            return
        I.check(abs(mk.read(m.group(0)) - c) <= 6e-5, "coefficient of its own term")
        pos = m.end()
        I.check(s.startswith(n, pos), "terms with a coefficient, default terms first, in order")
        pos += len(n)
    I.check(pos == len(s), "nothing else is shown")


OPS = ["+", "*", "/", "^2", "d", "d^2"]
HARNESSES = [
    H(structure, [dict(depth=3, ops=OPS, leaves=["u", "v"], first=o) for o in ("d", "d^2", "^2", "^3")] +
      [dict(depth=3, ops=["-", "/", "^3", "d"], leaves=["u"], first=o) for o in ("+", "-", "*", "/")] +
      [dict(depth=4, ops=["*", "d", "^2"], leaves=["u"], first=o) for o in ("d", "^2")] +
      [dict(depth=3, ops=["*", "d", "^2", "/"], leaves=["u", "ux"], first=o) for o in ("d", "^2")] +
      [dict(depth=3, ops=OPS, leaves=["u", "nu"], first=o, notation="leibniz") for o in ("d", "d^2", "^2")],
      thorough=[dict(depth=3, ops=OPS, leaves=["u", "v"], first=o, notation=n) for o in ("+", "-", "*", "/") for n in ("subscript", "leibniz")] +
      [dict(depth=4, ops=["+", "*", "d", "^2"], leaves=["u"], first=o, notation=n) for o in ("d", "^2") for n in ("subscript", "leibniz")],
      bounds="every term of depth 3 (some of depth 4) over the operators, 1-2 variables, 2 axes, both notations",
      limit=200, thorough_limit=800),
    H(coefficients, [dict(n=1), dict(n=2), dict(n=1, notation="leibniz"), dict(n=2, lhs="ut")], thorough=[dict(n=3)],
      bounds="1-4 terms with arbitrary coefficients", limit=200, thorough_limit=800),
    H(details, [dict(specs=[("*", "u", "v"), ("^2", "u")], ndef=1), dict(specs=[("^2", "u"), ("*", "0", "u"), ("^3", "v")], ndef=2),
                dict(specs=[("d", "u", "t"), ("^3", "v")], ndef=1, cfg=dict(left_side="left_side = ut")),
                dict(specs=[("^2", "v")], ndef=0, cfg=dict(left_side=None, target_field="rho", lhs_axis="y"))],
      bounds="1-3 terms, 0-2 default terms, arbitrary 3x2 data and coefficients", limit=200),
    H(concise, [dict(specs=[("*", "u", "v"), ("^2", "u")], ndef=1), dict(specs=[("^2", "u"), ("*", "0", "u"), ("^3", "v")], ndef=2),
                dict(specs=[("d", "u", "t"), ("^3", "v")], ndef=0)],
      bounds="1-3 terms, 0-2 default terms, arbitrary 3x2 data and coefficients", limit=200),
]

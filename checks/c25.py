"""C25: the equation DISCOVER displays reads back as the fitted one"""
import importlib
import math
import re
from fractions import Fraction
from types import SimpleNamespace

import z3

from symx import core
from symx.runner import H
from .env import quiet

ASSUMPTIONS = ["fields are jets: every partial derivative at the point is an independent number; terms are defined there (no zero denominators, positive roots and logarithms)",
               "sin, cos, exp, log, tanh and roots are uninterpreted beyond parity, exp of sums and root^2; max, min and user functions are opaque",
               "a printed coefficient stands for the number it was formatted from (its rounding is C22's claim about the same formatter), and a coefficient within 1e-4 of 0 or 1 may be shown as such"]
ARITY = dict(add=2, sub=2, mul=2, div=2, diff=2, diff2=2, diff3=2, diff4=2, Diff=2, Diff2=2, Diff_3=2, Diff2_3=2, max=2, min=2, lap=1, lap_3=1, n2=1, n3=1, n4=1, n5=1,
             sin=1, cos=1, tan=1, exp=1, log=1, sqrt=1, abs=1, tanh=1, sigmoid=1, expneg=1, logabs=1, neg=1, inv=1, harmonic=1)
ORDER = dict(diff=1, diff2=2, diff3=3, diff4=4, Diff=1, Diff2=2, Diff_3=1, Diff2_3=2)


def load():
    M = SimpleNamespace()
    M.tex = importlib.import_module("kd.viz.discover_eq2latex")
    M.node = importlib.import_module("kd.model.discover.stridge").Node
    return M


# -- differential expressions ----------------------------------------------------
class E:
    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __repr__(self):
        return f"{self.op}{self.a}"


def c(v):
    return E("c", v)


def add(*t):
    t = [x for x in t if not (x.op == "c" and isinstance(x.a[0], (int, Fraction)) and x.a[0] == 0)]
    return c(0) if not t else t[0] if len(t) == 1 else E("+", *t)


def mul(*t):
    out = []
    for x in t:
        if x.op == "c" and isinstance(x.a[0], (int, Fraction)):
            if x.a[0] == 0:
                return c(0)
            if x.a[0] == 1:
                continue
        out.append(x)
    return c(1) if not out else out[0] if len(out) == 1 else E("*", *out)


def powr(x, n):
    n = Fraction(n)
    if n == 1:
        return x
    if x.op == "^":
        if n.denominator == 1:
            return powr(x.a[0], x.a[1] * n)
    if x.op == "f" and x.a[0] == "exp" and n.denominator == 1:
        return fn("exp", mul(c(n), x.a[1]))
    if n == 0:
        return c(1)
    return E("^", x, n)


def neg(x):
    return mul(c(-1), x)


def fn(name, x):
    if name == "exp":
        return exp(x)
    if name == "re":
        return x
    if name == "im":
        return c(0)
    if name == "log" and x.op == "f" and x.a[0] == "abs":
        return E("f", "logabs", x.a[1])
    return E("f", name, x)


def exp(x):
    """e^x with sums and integer multiples in the exponent pulled apart"""
    if x.op == "+":
        return mul(*[exp(t) for t in x.a])
    if x.op == "f" and x.a[0] == "log":
        return x.a[1]
    if x.op == "*":
        k = [t.a[0] for t in x.a if t.op == "c" and isinstance(t.a[0], (int, Fraction))]
        n = math.prod(k)
        if k and Fraction(n).denominator == 1:
            rest = mul(*[t for t in x.a if not (t.op == "c" and isinstance(t.a[0], (int, Fraction)))])
            b = exp(rest)
            return mul(*[powr(t, n) if not (t.op == "f" and t.a[0] == "exp") else E("^", t, Fraction(n)) for t in (b.a if b.op == "*" else (b,))])
    return E("f", "exp", x)


def d(x, k):
    o, a = x.op, x.a
    if o == "c":
        return c(0)
    if o == "x":
        return c(int(a[0] == k))
    if o == "u":
        return E("u", a[0], tuple(n + (i == k) for i, n in enumerate(a[1])))
    if o == "+":
        return add(*[d(t, k) for t in a])
    if o == "*":
        return add(*[mul(*a[:i], d(t, k), *a[i + 1:]) for i, t in enumerate(a)])
    if o == "^":
        return mul(c(a[1]), powr(a[0], a[1] - 1), d(a[0], k))
    if o == "f":
        n, y = a
        g = {"sin": lambda: fn("cos", y), "cos": lambda: neg(fn("sin", y)), "exp": lambda: x, "log": lambda: powr(y, -1), "logabs": lambda: powr(y, -1),
             "tan": lambda: add(c(1), powr(x, 2)), "tanh": lambda: add(c(1), neg(powr(x, 2))), "abs": lambda: fn("sign", y), "sign": lambda: c(0)}[n]()
        return mul(g, d(y, k))
    if o == "g":                                   # opaque functional
        return E("g", a[0], a[1], tuple(n + (i == k) for i, n in enumerate(a[2])))
    raise ValueError(o)


class At:
    """values at one point, as fractions (numerator, denominator)"""

    def __init__(self, I):
        self.I, self.seen, self.memo = I, {}, {}

    def var(self, name, lo=None, hi=None):
        if name not in self.seen:
            self.seen[name] = self.I.real(name, -3 if lo is None else lo, 3 if hi is None else hi)
        return self.seen[name]

    def require(self, cond):
        self.I.require(cond)

    def one(self, x):
        n, m = self.val(x)
        return n if isinstance(m, (int, Fraction)) and m == 1 else n / m

    def arg(self, x):
        v = self.one(x)
        if self.I.symbolic and core.is_sym(v):
            return core.mk(z3.simplify(core.zr(v), som=True))
        return v

    def uf(self, name, *v):
        if self.I.symbolic:
            return core.ufun(name, *v)
        v = [float(t) for t in v]
        if name in ("sin", "cos", "tan", "exp", "log", "tanh"):
            return getattr(math, name)(*v)
        if name == "root":
            return math.sqrt(v[0])
        return sum((i + 2) * math.sin(t + len(name)) for i, t in enumerate(v)) + sum(map(ord, name)) % 7

    def val(self, x):
        key = id(x)
        if key not in self.memo:
            self.memo[key] = (x, self.val1(x))
        return self.memo[key][1]

    def val1(self, x):
        I, o, a = self.I, x.op, x.a
        if o == "c":
            return (a[0], 1) if core.is_sym(a[0]) or I.symbolic else (float(a[0]), 1)
        if o == "x":
            return self.var(f"x{a[0] + 1}"), 1
        if o == "u":
            return self.var(a[0] + "_" + "".join(map(str, a[1]))), 1
        if o == "+":
            n, m = self.val(a[0])
            for t in a[1:]:
                p, q = self.val(t)
                n, m = (n + p, m) if m is q or (isinstance(m, int) and isinstance(q, int)) else (n * q + p * m, m * q)
            return n, m
        if o == "*":
            n, m = self.val(a[0])
            for t in a[1:]:
                p, q = self.val(t)
                n, m = n * p, m * q
            return n, m
        if o == "^":
            k = a[1]
            n, m = self.val(a[0])
            if k.denominator != 1:
                v, den = self.arg(a[0]), k.denominator
                while den > 1:
                    if den % 2:
                        raise core.SymxError("root of odd degree")
                    self.require(v >= 0.01)
                    r = self.uf("root", v)
                    self.require(r >= 0.1)
                    if I.symbolic:
                        self.require(r * r == v)
                    v, den = r, den // 2
                n, m, k = v, 1, k * k.denominator
            k = int(k)
            if k < 0:
                n, m, k = m, n, -k
                self.require(I.any([m >= 0.01, m <= -0.01]) if not isinstance(m, (int, float)) else abs(m) > 1e-3)
            N = D = 1
            for _ in range(k):
                N, D = N * n, D * m
            return N, D
        if o == "f":
            n, v = a[0], self.arg(a[1])
            if n in ("sin", "tan", "tanh"):
                return (I.ite(v == 0, 0, I.ite(v > 0, self.uf(n, v), -self.uf(n, -v))) if I.symbolic else self.uf(n, v)), 1
            if n == "cos":
                return self.uf(n, I.ite(v >= 0, v, -v)), 1
            if n in ("abs", "sign", "logabs"):
                self.require(I.any([v >= 0.01, v <= -0.01]))
                w = I.ite(v >= 0, v, -v)
                return (w if n == "abs" else I.ite(v >= 0, 1, -1) if n == "sign" else self.uf("log", w)), 1
            if n == "log":
                self.require(v >= 0.01)
            if n == "exp":
                r = self.uf(n, v)
                if I.symbolic:
                    self.require(r >= Fraction(1, 100000))
                return r, 1
            return self.uf(n, v), 1
        if o == "g":
            tag = "_d" + "".join(map(str, a[2])) if any(a[2]) else ""
            return self.uf(a[0] + tag, *[self.arg(t) for t in a[1]]), 1
        raise ValueError(o)


ZERO = (0, 0, 0)


def named(name, args):
    """a function known by name"""
    if name in ("neg",):
        return neg(args[0])
    if name == "inv":
        return powr(args[0], -1)
    if name in ("laplacian", "lap", "lap_3"):
        dim = 3 if name == "lap_3" else LAPDIM[0]
        return add(*[d(d(args[0], k), k) for k in range(dim)])
    if name in ("sin", "cos", "tan", "exp", "log", "tanh", "abs", "re", "im", "sign"):
        return fn(name, args[0])
    return E("g", name.lower(), tuple(args), ZERO)


LAPDIM = [2]


def parse(seq):
    """prefix tokens -> (Node builder input, E)"""
    t = seq.pop(0)
    kids = [parse(seq) for _ in range(ARITY.get(t, 0))]
    e = [k[1] for k in kids]
    if not kids:
        if re.fullmatch(r"x\d", t):
            r = E("x", int(t[1]) - 1)
        else:
            r = E("u", t, ZERO)
    elif t in ORDER:
        r = e[0]
        for _ in range(ORDER[t]):
            r = d(r, e[1].a[0])
    else:
        r = {"add": lambda: add(*e), "sub": lambda: add(e[0], neg(e[1])), "mul": lambda: mul(*e), "div": lambda: mul(e[0], powr(e[1], -1)),
             "sqrt": lambda: powr(e[0], Fraction(1, 2)), "sigmoid": lambda: powr(add(c(1), fn("exp", neg(e[0]))), -1), "expneg": lambda: fn("exp", neg(e[0])),
             "logabs": lambda: fn("log", fn("abs", e[0])), "n2": lambda: powr(e[0], 2), "n3": lambda: powr(e[0], 3), "n4": lambda: powr(e[0], 4),
             "n5": lambda: powr(e[0], 5)}.get(t, lambda: named(t, e))()
    return (t, [k[0] for k in kids]), r


def node(M, t):
    n = M.node(t[0])
    n.children = [node(M, k) for k in t[1]]
    return n


# -- reading LaTeX ------------------------------------------------------------------
TOK = re.compile(r"\s*(\\left\||\\right\||\\left\(|\\right\)|\\left\\\{|\\[A-Za-z]+|\\[,;:! ]|\u27e8\d+\u27e9|\d+\.?\d*(?:e[-+]?\d+)?|[A-Za-z]+|.)")
COORD = dict(x=0, y=1, z=2)


class Bad(Exception):
    pass


class Reader:
    def __init__(self, s, marks):
        self.t = [t for t in TOK.findall(s) if t not in (r"\,", r"\;", r"\:", r"\!", r"\ ", "{}")]
        self.t = [{r"\left(": "(", r"\right)": ")", r"\left|": "|", r"\right|": "|", r"\lvert": "|", r"\rvert": "|"}.get(t, t) for t in self.t]
        self.p, self.marks = 0, marks

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else ""

    def take(self, t=None):
        r = self.peek()
        if t is not None and r != t:
            raise Bad(f"{t!r} expected at {self.t[self.p:self.p + 5]}")
        self.p += 1
        return r

    def sum(self, stop=("",)):
        out, first = [], True
        while first or self.peek() in ("+", "-"):
            s = 1
            while self.peek() in ("+", "-"):
                s *= -1 if self.take() == "-" else 1
            t = self.product()
            out.append(neg(t) if s < 0 else t)
            first = False
        if self.peek() not in stop:
            raise Bad(f"unexpected {self.peek()!r}")
        return add(*out) if len(out) > 1 else out[0]

    def product(self):
        fs = []
        while True:
            if self.peek() in (r"\cdot", r"\times", "*") and fs:
                self.take()
            f = self.factor()
            if f is None:
                break
            fs.append(f)
        if not fs:
            raise Bad("empty product")
        return mul(*fs)

    def group(self):
        self.take("{")
        r = self.sum(("}",))
        self.take("}")
        return r

    def paren(self):
        """( ... ) possibly inside braces; several arguments"""
        b = self.peek() == "{"
        if b:
            self.take()
        self.take("(")
        out = [self.sum((")", ","))]
        while self.peek() == ",":
            self.take()
            out.append(self.sum((")", ",")))
        self.take(")")
        if b:
            self.take("}")
        return out

    def script(self):
        """raw text of a sub- or superscript"""
        if self.peek() != "{":
            return self.take()
        self.take()
        s, depth = "", 1
        while True:
            t = self.take()
            depth += (t == "{") - (t == "}")
            if not depth:
                return s
            if t == "":
                raise Bad("open brace")
            s += t

    def exponent(self):
        if self.peek() != "^":
            return None
        self.take()
        if self.peek() == "{":
            return self.group()
        return self.atom_number(self.take())

    def atom_number(self, t):
        return c(self.marks.read(t) if t.startswith("\u27e8") else Fraction(t))

    def raised(self, x, e):
        if e is None:
            return x
        return powr(x, const(e))

    def subs(self, x, s):
        for ch in s:
            if ch not in COORD:
                raise Bad("subscript " + s)
            x = d(x, COORD[ch])
        return x

    def factor(self):
        t = self.peek()
        if t in ("", "+", "-", ")", "}", ",", "|", "]") and not (t == "|" and self.peek(1) not in ("", "+", "-", ")", "}", "|")):
            return None
        if t == r"\frac" and re.fullmatch(r"d|\\partial", self.peek(2)):
            return self.leibniz()
        self.take()
        if t == r"\frac":
            r = mul(self.group(), powr(self.group(), -1))
        elif t == r"\sqrt":
            k = 2
            if self.peek() == "[":
                self.take()
                k = int(self.take())
                self.take("]")
            r = powr(self.group(), Fraction(1, k))
        elif t == "|":
            r = fn("abs", self.group() if self.peek() == "{" else self.sum(("|",)))
            self.take("|")
        elif t == "(":
            self.p -= 1
            r = self.paren()
            if len(r) != 1:
                raise Bad("tuple")
            r = r[0]
            if self.peek() == "_":
                self.take()
                r = self.subs(r, self.script())
        elif t == "{":
            self.p -= 1
            r = self.group()
        elif re.match(r"[\d\u27e8]", t):
            r = self.atom_number(t)
        elif t == "e" and self.peek() == "^":
            self.take()
            return fn("exp", self.group() if self.peek() == "{" else self.factor())
        elif t in (r"\operatorname", r"\mathrm", r"\text") or t in (r"\sin", r"\cos", r"\tan", r"\tanh", r"\log", r"\ln", r"\exp", r"\max", r"\min"):
            name = self.script() if t in (r"\operatorname", r"\mathrm", r"\text") else t[1:]
            ex = self.exponent()
            r = self.raised(named({"ln": "log"}.get(name, name), self.paren()), ex)
        elif t[0].isalpha() or t[0] == "\\":
            r = self.symbol(t)
        else:
            raise Bad(f"unknown {t!r}")
        return self.raised(r, self.exponent())

    def symbol(self, t):
        t = t.lstrip("\\")
        sub = ""
        if self.peek() == "_":
            self.take()
            sub = self.script()
        if re.fullmatch(r"\d", sub):
            t, sub = t + sub, ""
        if t in COORD:
            return self.subs(E("x", COORD[t]), sub)
        if re.fullmatch(r"x\d", t):
            return E("x", int(t[1]) - 1)
        r = E("u", "u1" if t == "u" else t, ZERO)
        ex = None
        if sub:
            return self.subs(r, sub)
        if self.peek() == "^":
            ex = self.exponent()
        if self.peek() == "{" and self.peek(1) == "(":          # u_{1}{\left(x_{1},...\right)}
            args = self.paren()
            if [a.op for a in args] != ["x"] * len(args):
                raise Bad("arguments of a field")
        return self.raised(r, ex)

    def leibniz(self):
        self.take()
        self.take("{")
        self.take()
        n = 1
        if self.peek() == "^":
            self.take()
            n = int(self.script())
        self.take("}")
        self.take("{")
        by = []
        while self.peek() != "}":
            if not re.fullmatch(r"d|\\partial", self.take()):
                raise Bad("derivative")
            v = self.symbol1()
            m = 1
            if self.peek() == "^":
                self.take()
                m = int(self.script())
            by += [v] * m
        self.take("}")
        if len(by) != n:
            raise Bad("order of a derivative")
        r = self.factor()
        if r is None:
            raise Bad("derivative of nothing")
        for k in by:
            r = d(r, k)
        return r

    def symbol1(self):
        t = self.take()
        if self.peek() == "_":
            self.take()
            t += self.script()
        if re.fullmatch(r"x\d", t):
            return int(t[1]) - 1
        return COORD[t]


def const(e):
    """value of a constant expression"""
    if e.op == "c" and isinstance(e.a[0], (int, Fraction)):
        return Fraction(e.a[0])
    if e.op == "*":
        return math.prod([const(t) for t in e.a], start=Fraction(1))
    if e.op == "^" and e.a[1].denominator == 1:
        return const(e.a[0]) ** int(e.a[1])
    raise Bad("exponent")


class Marks:
    def __init__(self, I):
        self.vals = []
        if I.symbolic:
            core.CUR.str_hook = self

    def __call__(self, v, spec):
        m = re.fullmatch(r"\.(\d+)f", spec)
        if not m or int(m.group(1)) < 4:
            raise core.SymxError("format " + spec)
        if bool(v < 0):
            self.vals.append(-v)
            return f"-\u27e8{len(self.vals) - 1}\u27e9"
        self.vals.append(v)
        return f"\u27e8{len(self.vals) - 1}\u27e9"

    def read(self, s):
        return self.vals[int(s[1:-1])]


# -- harness -------------------------------------------------------------------------
class W:
    """the program as the display sees it"""


def show(I, M, trees, ws, **kw):
    p = W()
    p.w, p.STRidge = ws, W()
    p.STRidge.terms = [node(M, t) for t in trees]
    with quiet():
        return M.tex.discover_program_to_latex(p, **kw)


def snap(e):
    """1/3 rounded to a double, as a factor of a coefficient, stands for 1/3"""
    subs, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_rational_value(x):
            f = x.as_fraction()
            g = f.limit_denominator(1000)
            if f != g and abs(f - g) <= abs(f) / 10**15:
                subs.append((x, z3.RealVal(g)))
        todo += x.children()
    return z3.substitute(e, *subs) if subs else e


def compare(I, s, marks, want, near, lhs="u_t"):
    """displayed text s against sum of w*E"""
    I.check(s.count("$") == 2 and s[0] == s[-1] == "$", "one formula")
    left, eq, right = s[1:-1].partition("=")
    I.check(eq and re.sub(r"[{}\s]", "", left) == re.sub(r"[{}\s]", "", lhs), "left-hand side " + lhs)
    at = At(I)
    rd, err = [], None
    try:
        rd.append(Reader(right, marks).sum())
    except Bad as e:
        err = e
    I.check(len(rd) > 0, f"the right-hand side reads as an expression ({err})")
    ref = add(*[mul(c(w), e) for w, e in want])
    n, m = at.val(ref)
    scale = sum(abs(float(w)) + abs(float(w) * at.one(e)) for w, e in want) if not I.symbolic else 0
    ok, seen = [], set()
    for r in rd:
        p, q = at.val(r)
        if I.symbolic and not near:
            df = z3.simplify(snap(core.zr(n)) * snap(core.zr(q)) - snap(core.zr(p)) * snap(core.zr(m)), som=True)
            if df.get_id() in seen:
                continue
            seen.add(df.get_id())
            ok.append(core.mk(df == 0) if not z3.is_rational_value(df) else df.as_fraction() == 0)
            if ok[-1] is True:
                break
        elif I.symbolic:
            a, b = (n if isinstance(m, int) else n / m), (p if isinstance(q, int) else p / q)
            tol = sum((I.ite(x >= 0, x, -x) for x in [at.one(e) for _, e in want]), Fraction(1)) / 5000
            ok.append(I.all([a - b <= tol, b - a <= tol]))
        else:
            ok.append(abs(n / m - p / q) <= 2e-4 * (1 + scale))
    I.check(True in ok or I.any([x for x in ok if x is not True]), "the displayed right-hand side is the fitted one")




def terms(I, M, shapes, leaves=("u1", "x1"), notation="subscript", expand=True, lapdim=2, near=False, lhs=None, zero=False):
    """each displayed term is the fitted one"""
    LAPDIM[0] = lapdim
    marks = Marks(I)
    ws, trees, want = [], [], []
    for j, sh in enumerate(shapes):
        seq = []
        for i, t in enumerate(sh):
            if isinstance(t, (tuple, list)):
                t = I.choose(f"t{j}.{i}", list(t))
            elif t == "*":
                t = I.choose(f"t{j}.{i}", list(leaves))
            seq += t.split(",")
        tree, e = parse(seq)
        assert not seq
        w = I.real(f"w{j}", -1000, 1000)
        if not near:
            I.require(I.any([w >= 3, w <= -3]))
        trees.append(tree)
        want.append((w, e))
        ws.append(w)
    kw = dict(notation=notation, expand_derivatives=expand)
    if lhs:
        kw["lhs_axis"] = lhs
    s = show(I, M, trees, ws, **kw)
    compare(I, s, marks, want, near, "u_" + (lhs or "t"))


def invalid(I, M, case):
    """a program without a matching fit is not shown as an equation with terms"""
    marks = Marks(I)
    p = W()
    p.w = {"short": [I.real("w", 3, 9)], "none": None, "empty": [], "unfit": [2.0]}[case]
    p.STRidge = W()
    p.STRidge.terms = {"short": [node(M, ("u1", [])), node(M, ("x1", []))], "none": [node(M, ("u1", []))], "empty": [], "unfit": None}[case]
    with quiet():
        s = M.tex.discover_program_to_latex(p)
    right = s.strip("$").partition("=")[2]
    I.check(right.strip().startswith("0") and not re.search(r"\bu\b(?!_t)|\u27e8", right), "no terms are shown")
    I.check("rror" in right if case in ("short", "none", "unfit") else "rror" not in right, "an invalid program is marked")


UN = ("n2", "n3", "n4", "n5", "sin", "cos", "tan", "exp", "log", "sqrt", "abs", "tanh", "sigmoid", "expneg", "logabs", "neg", "inv", "harmonic")
BI = ("add", "sub", "mul", "div", "max", "min")
DF = ("diff", "diff2", "diff3", "Diff", "Diff2", "Diff_3", "Diff2_3")
SMALL = ("u1", "x1", "mul,u1,diff,u1,x1", "n2,u1", "diff2,u1,x1", "add,u1,x1", "sub,x1,n2,u1", "diff,n2,u1,x1", "diff,mul,u1,x1,x1", "add,u1,u1", "div,u1,x1", "lap,u1")
INNER = ("n2,u1", "n3,u1", "mul,u1,x1", "mul,u1,p1", "add,u1,x1", "sub,x1,u1", "sub,u1,add,u1,u1", "div,u1,x1", "div,x1,u1", "mul,u1,u2", "diff,u1,x1", "mul,u1,diff,u1,x1", "n2,diff,u1,x1",
         "diff2,n2,u1,x2", "sub,n2,u1,diff,u1,x2", "div,u1,u1", "u1", "u2", "p1", "visc", "mul,visc,u1", "n2,p1", "x1", "x2", "mul,u1,add,u1,u1")
FUNIN = tuple(f"{u},{a}" for u in ("sin", "exp", "log", "sqrt", "tanh", "sigmoid", "expneg", "logabs", "tan", "cos") for a in ("u1", "mul,u1,x1", "sub,x1,u1"))
B = "one or more terms, every coefficient and field value"

HARNESSES = [
    H(terms, [dict(shapes=[["*"]], leaves=("u1", "u2", "x1", "x2", "x3", "p1", "p2", "p4", "visc"))], bounds=B),
    H(terms, [dict(shapes=[["*"]], leaves=("u1", "u2", "x1", "x2", "p1", "visc"), notation="leibniz")], bounds=B),
    H(terms, [dict(shapes=[[UN, "*"]], leaves=("u1", "add,u1,x1", "sub,x1,u1", "mul,u1,x1", "diff,u1,x1", "n2,u1"), expand=False)], bounds=B),
    H(terms, [dict(shapes=[[BI, "*", "*"]], leaves=("u1", "x1", "add,u1,x1", "mul,u1,diff,u1,x1", "sub,x1,u1", "n2,u1"))], bounds=B),
    H(terms, [dict(shapes=[[BI, UN, "u1", "*"]], leaves=("u1", "x1", "diff,u1,x1"))], bounds=B),
    H(terms, [dict(shapes=[[DF, INNER, ("x1", "x2")]])], bounds=B),
    H(terms, [dict(shapes=[[("diff", "Diff"), FUNIN, "x1"]])], bounds=B),
    H(terms, [dict(shapes=[[("diff", "diff2", "Diff"), INNER, "x1"]], expand=False)], bounds=B),
    H(terms, [dict(shapes=[[("diff", "diff2", "Diff"), INNER, "x1"]], notation="leibniz")], bounds=B),
    H(terms, [dict(shapes=[[("diff", "Diff"), FUNIN, "x1"]], notation="leibniz")], bounds=B),
    H(terms, [dict(shapes=[[("diff2", "diff"), INNER, "x1"]], notation="leibniz", expand=False)], bounds=B),
    H(terms, [dict(shapes=[[("mul,u1", "sin", "mul,diff,u1,x1", "n2", "div,u1", "add,u1", "sub,u1", "sub,x1"), ("diff", "diff2"), INNER, "x1"]])], bounds=B),
    H(terms, [dict(shapes=[[("mul,u1", "mul,diff,u1,x1", "n2"), ("diff", "diff2"), INNER, "x1"]], notation="leibniz")], bounds=B),
    H(terms, [dict(shapes=[[("lap", "mul,u1,lap", "n2,lap", "add,u1,lap"), ("u1", "n2,u1", "mul,u1,x1", "div,u1,x1", "add,u1,n2,u1")]])], bounds=B),
    H(terms, [dict(shapes=[[("diff,lap,u1,x1", "diff,lap,n2,u1,x1", "lap,lap,u1", "lap,diff,u1,x1", "diff2,lap,u1,x2")]])], bounds=B),
    H(terms, [dict(shapes=[[("lap_3", "mul,u1,lap_3"), ("u1", "n2,u1")]], lapdim=3)], bounds=B),
    H(terms, [dict(shapes=[[SMALL], [SMALL]])], bounds=B),
    H(terms, [dict(shapes=[[SMALL], [("u1", "diff,n2,u1,x1", "sub,x1,u1")], [("add,u1,x1", "mul,u1,diff,u1,x1")]], notation="leibniz")], bounds=B),
    H(terms, [dict(shapes=[[("u1", "n2,u1", "diff,n2,u1,x1", "add,u1,x1", "div,u1,u1", "sub,u1,u1", "sub,u1,add,u1,u1")], [("u1", "add,u1,x1")]], near=True)], bounds=B),
    H(terms, [dict(shapes=[[("u1", "diff,n2,u1,x1")]], lhs="x")], bounds=B),
    H(invalid, [dict(case=k) for k in ("short", "none", "empty", "unfit")], bounds="fixed"),
]

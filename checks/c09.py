"""C09: a program is fitted as a linear combination of exactly its own terms, and reported as fitted"""
import contextlib
import re
from unittest import mock

import numpy as np

from symx.runner import H
from . import disco
from .c08 import Env, grounded, value
from .disco import nest, quiet_ctx

ASSUMPTIONS = ["the least-squares routine is an arbitrary function of its two arguments: what is decided is what it is "
               "given and what is done with its answer", "numba is switched off in the symbolic run and on in replays"]
SUMS = ("add", "sub", "add_t", "sub_t")


def load():
    return disco.load_disco()


def terms_of(t):
    """reference: summands of an expression, left to right, with their sign"""
    if t[0] in SUMS:
        l, r = terms_of(t[1]), terms_of(t[2])
        if t[0].startswith("sub"):
            r = [(-s, q) for s, q in r]
        return l + r
    return [(1, t)]


def flat(t):
    return [t[0]] + [n for c in t[1:] for n in flat(c)]


def arity(M):
    return lambda n: disco.token(M, n).arity


def split(I, M, names, maxlen, default=()):
    """the terms are the maximal summands, in order, followed by the default terms"""
    seq = disco.gen_seq(I, M, names, maxlen, diffx=False)
    tr = [disco.token(M, n) for n in seq]
    S = M.stridge.STRidge(tr, [[disco.token(M, n) for n in d] for d in default])
    ref = [flat(q) for _, q in terms_of(nest(seq, arity(M)))] + [list(d) for d in default]
    I.check([[t.name for t in q] for q in S.terms_token] == ref, "terms are the summands of the expression")
    I.check([parse_call(repr(q)) for q in S.terms] == [nest(r, arity(M)) for r in ref], "printed terms are the summands")
    I.check([t.name for t in S.traversal_copy] == seq, "expression kept")


def parse_call(s):
    """f(a,b) text -> nested tuple"""
    s = s.replace(" ", "")
    pos = [0]

    def rd():
        m = re.match(r"[A-Za-z0-9_.+-]+", s[pos[0]:])
        n = m.group(0)
        pos[0] += len(n)
        kids = ()
        if pos[0] < len(s) and s[pos[0]] == "(":
            pos[0] += 1
            kids = (rd(),)
            while s[pos[0]] == ",":
                pos[0] += 1
                kids += (rd(),)
            assert s[pos[0]] == ")"
            pos[0] += 1
        return (n[0].lower() + n[1:] if n in ("Add", "Mul", "Pow") else n,) + kids
    r = rd()
    assert pos[0] == len(s), s
    return r


class Lstsq:
    """an arbitrary least-squares answer"""

    def __init__(self, I, tag=""):
        self.I, self.tag, self.calls = I, tag, []

    def __call__(self, A, b, *a, **k):
        c = len(self.calls)
        n = A.shape[1]
        w = np.array([[self.I.real(f"w{self.tag}{c}_{i}", -20000, 20000)] for i in range(n)], dtype=object if self.I.symbolic else float)
        self.calls.append((np.array(A), np.array(b), w.copy()))
        return w, None, n, None


@contextlib.contextmanager
def lstsq(I, tag=""):
    f = Lstsq(I, tag)
    if I.symbolic:
        from symx import shim
        shim.LINALG_HOOKS["lstsq"] = lambda real, *a, **k: f(*a, **k)
        try:
            yield f
        finally:
            shim.LINALG_HOOKS.pop("lstsq")
    else:
        with mock.patch.object(np.linalg, "lstsq", f):
            yield f


def bad(I, w):
    a = I.ite(w >= 0, w, -w)
    return I.any(a < 5e-5, a > 1e4)


def fit(I, M, names, maxlen, shape, npar=0, const=False, first=None, calls=1):
    """columns, right-hand side, coefficients and prediction of the fit belong to the expression's terms"""
    env = Env(I, 1, shape, 1, npar)
    seq = disco.gen_seq(I, M, names, maxlen, first=first)
    tree = nest(seq, arity(M))
    if not grounded(tree):
        return
    tr = []
    for n in seq:
        t = disco.token(M, n)
        if t.param_var is not None:
            t._param_data_ref = env.p[t.param_var]
        tr.append(t)
    ut = I.array("ut", (int(np.prod(shape)), 1))
    S = M.stridge.STRidge(tr, max_depth=9, const=const)
    ts = [q for _, q in terms_of(tree)]
    for call in range(calls):
        with lstsq(I, f"{call}_") as L, quiet_ctx():
            out = S.calculate(env.u, env.x, ut)
        y, w, invalid = out[0], out[1], out[2]
        if not L.calls:
            I.check(invalid, "only an invalid expression is not fitted")
            return
        cols = [np.broadcast_to(value(env, q), shape).reshape(-1) for q in ts]
        if const:
            cols = cols + [np.ones(len(cols[0]))]
        A, b, w1 = L.calls[0]
        I.eq_all(A, np.array(cols, dtype=object).T, "fitted columns are the terms")
        I.eq_all(b, ut, "fitted target")
        k = len(ts)
        bads = [bad(I, w1[i, 0]) for i in range(k)]
        dropped = const and len(L.calls) > 1
        a_last = I.ite(w1[-1, 0] >= 0, w1[-1, 0], -w1[-1, 0])
        if const:
            I.check(invalid or I.all([I.same(dropped, a_last < 5e-5)]) if not I.symbolic else
                    I.implies(not invalid, (a_last < 5e-5) == dropped), "a negligible constant is dropped and the rest refitted")
            bads.append(a_last > 1e4)
        want_bad = I.any(bads)
        I.check(I.same(bool(invalid), want_bad) if not I.symbolic else (want_bad == bool(invalid)),
                "invalid exactly when a coefficient is negligible or huge")
        if invalid:
            continue
        if dropped:
            I.eq_all(L.calls[1][0], np.array(cols[:-1], dtype=object).T, "refit without the constant")
            wf, cf = L.calls[1][2], cols[:-1]
        else:
            wf, cf = w1, cols
        I.check(len(w) == len(cf), "one coefficient per column")
        for i in range(len(cf)):
            I.eq(w[i], wf[i, 0], f"coefficient {i}")
        for r in range(len(cf[0])):
            I.eq(np.asarray(y).reshape(-1)[r], sum(wf[i, 0] * cf[i][r] for i in range(len(cf))), "prediction")
        if hasattr(out[5], "shape"):
            I.eq_all(out[5], np.array(cf, dtype=object).T, "returned term matrix")


def report(I, M, names, maxlen, const):
    """the reported equation carries each term with its own coefficient, and the constant last"""
    lib = disco.mklib(M, names)
    with disco.program_ctx(M, lib, task_type="pde") as P:
        seq = disco.gen_seq(I, M, names, maxlen)
        p = M.program.from_tokens(np.array([names.index(n) for n in seq], dtype=np.int32))
        ts = [q for _, q in terms_of(nest(seq, arity(M)))]
        p.cached_terms = None
        ks = [I.int(f"k{i}", -99999, 99999) for i in range(len(ts) + const)]
        sent = {}
        if I.symbolic:
            from symx import core

            def hook(v):
                r = 3.0 + len(sent)
                sent[r] = v
                return r
            core.CUR.float_hook = hook
            p.w = [k / 16 for k in ks]
        else:
            p.w = [k / 16 for k in ks]
        s = p.str_expression
        got = []
        for part in s.split(" + "):
            c, _, t = part.partition(" * ")
            got.append((float(c), parse_call(t) if t else None))
        I.check([t for _, t in got] == ts + [None] * const, "reported terms are the fitted terms, in order")
        for (c, _), k in zip(got, ks):
            if I.symbolic:
                I.eq(sent[c], k / 16, "reported coefficient")
            else:
                I.check(abs(c - k / 16) <= 5.1e-5, "reported coefficient")
        I.check([parse_call(q) for q in p.funcion_expression.split(" |")] == ts, "function list")


def regulation(I, M, names, maxlen, max_depth):
    """a fitted expression never contains a differentiated term without a field, nor an over-deep term"""
    import math
    seq = disco.gen_seq(I, M, names, maxlen, diffx=False)
    tr = [disco.token(M, n) for n in seq]
    S = M.stridge.STRidge(tr, max_depth=max_depth)
    omit, err = S.regulation.apply_regulations([np.zeros((5, 1))], S.traversal_copy, S.terms_token, S.depth) \
        if not S.regulation.spatial_error else ([], [])
    want = False
    for _, q in terms_of(nest(seq, arity(M))):
        f = flat(q)
        nofield = not any(n[0] == "u" and n[1:].isdigit() for n in f)
        if any("iff" in n for n in f) and nofield:
            want = True
        if math.ceil(math.log(len(f), 2)) > max_depth:
            want = True
        if len(f) == 1 and nofield:
            want = True
    I.check(not want or len(err) > 0, "rejected")
    allfield = all(any(n[0] == "u" and n[1:].isdigit() for n in flat(q)) and math.ceil(math.log(len(flat(q)), 2)) <= max_depth
                   for _, q in terms_of(nest(seq, arity(M))))
    I.check(not allfield or len(err) == 0, "an expression whose terms all contain the field and are shallow is accepted")


HARNESSES = [
    H(split, [dict(names=["add", "sub", "mul", "n2", "u1", "x1"], maxlen=6),
              dict(names=["sub", "add", "u1"], maxlen=9),
              dict(names=["add_t", "sub_t", "mul_t", "u1", "x1"], maxlen=6),
              dict(names=["add", "diff", "mul", "u1", "x1"], maxlen=5, default=(("u1",), ("x1",)))],
      thorough=[dict(names=["add", "sub", "mul", "n2", "u1", "x1"], maxlen=8), dict(names=["sub", "add", "u1"], maxlen=15)],
      bounds="every complete expression up to the stated length", thorough_limit=3000),
    H(fit, [dict(names=["add", "sub", "mul", "n2", "u1", "p1"], maxlen=5, shape=(2, 2), npar=1),
            dict(names=["add", "mul", "diff", "u1", "x1"], maxlen=5, shape=(4, 1), first=["add"]),
            dict(names=["sub", "n2", "u1", "p1"], maxlen=4, shape=(2, 1), npar=1, const=True),
            dict(names=["sub", "add", "n3", "u1"], maxlen=5, shape=(1, 2), calls=2)],
      thorough=[dict(names=["add", "sub", "mul", "n2", "u1", "p1"], maxlen=7, shape=(2, 1), npar=1, first=["add", "sub"])],
      bounds="every expression up to the stated length, all field/parameter/target values, every least-squares answer"),
    H(report, [dict(names=["add", "sub", "mul", "diff2", "u1", "x1"], maxlen=5, const=c) for c in (0, 1)],
      bounds="every expression up to 5 tokens, coefficients k/16 for every |k| < 100000"),
    H(regulation, [dict(names=["add", "sub", "mul", "diff", "n2", "u1", "x1"], maxlen=5, max_depth=2),
                   dict(names=["add", "n2", "diff", "u1", "x1"], maxlen=7, max_depth=2)],
      bounds="every expression up to the stated length"),
]

"""input providers: one harness function runs symbolically and, for replay, concretely"""
import math
import random
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Sym, SymBool, Infeasible, SymxError, is_sym, zb, zr


class EndPath(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, label, inputs, alts=()):
        super().__init__(label)
        self.label, self.inputs, self.alts = label, inputs, list(alts)


class ConcreteFail(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class ConcreteSkip(BaseException):
    pass


class Base:
    def array(self, name, shape, lo=None, hi=None):
        a = np.empty(shape, dtype=object if self.symbolic else float)
        for idx in np.ndindex(*shape):
            a[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi)
        return a

    def choose(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def note(self, **k):
        pass

    @property
    def concrete(self):
        return not self.symbolic

    def eq_all(self, A, B, label, **kw):
        A, B = np.asarray(A), np.asarray(B)
        if A.shape != B.shape:
            self.fail(f"{label}: shape {A.shape} != {B.shape}")
        for idx in np.ndindex(*A.shape):
            self.eq(A[idx], B[idx], f"{label}{list(idx)}", **kw)


class SymProvider(Base):
    symbolic = True

    def __init__(self, run, job):
        self.run, self.job = run, job

    def _decl(self, name, kind):
        if name in self.run.inputs:
            raise SymxError("duplicate input " + name)
        c = z3.Int(name) if kind == "int" else z3.Real(name) if kind == "real" else z3.Bool(name)
        self.run.inputs[name] = (kind, c)
        return c

    def int(self, name, lo, hi):
        c = self._decl(name, "int")
        if lo == hi:
            self.run.assume(c == lo, check=False)
            return lo
        self.run.assume(z3.And(c >= lo, c <= hi), check=False)
        return Sym(c)

    def real(self, name, lo=None, hi=None, nonzero=False):
        c = self._decl(name, "real")
        if lo is not None:
            self.run.assume(c >= core.zval(lo), check=False)
        if hi is not None:
            self.run.assume(c <= core.zval(hi), check=False)
        if nonzero:
            self.run.assume(c != 0, check=False)
        return Sym(c)

    def bool(self, name):
        return SymBool(self._decl(name, "bool"))

    def require(self, cond):
        if not is_sym(cond):
            if not bool(cond):
                raise Infeasible()
            return
        self.run.assume(zb(cond))

    # -- logic ---------------------------------------------------------
    def all(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return core.mk(z3.simplify(z3.And(*[zb(c) for c in cs])))

    def any(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return core.mk(z3.simplify(z3.Or(*[zb(c) for c in cs])))

    def not_(self, c):
        return core.mk(z3.simplify(z3.Not(zb(c))))

    def implies(self, a, b):
        return core.mk(z3.simplify(z3.Implies(zb(a), zb(b))))

    def same(self, a, b):
        """a == b as a (symbolic) boolean, without forking"""
        if is_sym(a) or is_sym(b):
            if core.special(a) or core.special(b):
                return False
            return core.mk(z3.simplify(zr(a) == zr(b)))
        return bool(a == b) or (isinstance(a, float) and isinstance(b, float) and
                                math.isnan(a) and math.isnan(b))

    def close(self, a, b, rtol=None):
        return self.same(a, b)

    def le(self, a, b):
        return core.mk(zr(a) <= zr(b)) if is_sym(a) or is_sym(b) else a <= b

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    # -- assertions ------------------------------------------------------
    def reach(self, label="end"):
        st = self.job.stats
        if st.reached.get(label):
            return
        r = self.run._check()
        if r == z3.sat:
            st.reached[label] = 1

    def _models(self, nots, extra=None):
        """counterexample candidates, tamest first"""
        ins = self.run.inputs
        reals = [c for k, c in ins.values() if k == "real"]
        tame = [z3.And(c <= 8, c >= -8) for c in reals]
        ints = [z3.IsInt(c * 4) for c in reals]
        out = []
        tries = ([tame + ints + [extra]] if extra is not None else []) + \
                ([tame + [extra]] if extra is not None else []) + [tame + ints, tame, []]
        for t in tries:
            self.run.solver.push()
            self.run.solver.set("timeout", 10000 if t else self.run.timeout_ms)
            for e in [nots] + t:
                self.run.solver.add(e)
            r = self.run._check()
            if r == z3.sat:
                out.append(self._inputs(self.run.solver.model()))
            self.run.solver.pop()
            self.run.solver.set("timeout", self.run.timeout_ms)
            if len(out) >= 3:
                break
        return out

    def generic_model(self, seed, budget=3.0):
        """an input on this path whose free values are all different and non-zero (or None)"""
        import time
        run, t0 = self.run, time.time()
        rnd = random.Random(f"{seed}:{len(run.inputs)}")
        want = []
        for n, (k, c) in run.inputs.items():
            if k == "real":
                want.append(c == z3.Q(rnd.choice([v for v in range(-24, 33) if v]), 8))
            elif k == "int":
                want.append(c == rnd.randint(0, 5))
            else:
                want.append(c == bool(rnd.randint(0, 1)))
        run.solver.push()
        run.solver.set("timeout", 2000)
        try:
            def add(ws):
                if not ws or time.time() - t0 > budget:
                    return
                run.solver.push()
                for w in ws:
                    run.solver.add(w)
                if run._check() == z3.sat:
                    return                 # keep them
                run.solver.pop()
                if len(ws) > 1:
                    h = len(ws) // 2
                    add(ws[:h])
                    add(ws[h:])
            depth = run.solver.num_scopes()
            add(want)
            m = self._inputs(run.solver.model()) if run._check() == z3.sat else None
            run.solver.pop(run.solver.num_scopes() - depth)
            return m
        finally:
            run.solver.pop()
            run.solver.set("timeout", run.timeout_ms)

    def _inputs(self, model):
        d = {}
        for n, (k, c) in self.run.inputs.items():
            v = core.num_of(model.eval(c, model_completion=True))
            d[n] = v if k != "real" else str(Fraction(v))
        return d

    def check(self, cond, label, extra=None):
        st = self.job.stats
        st.obligations += 1
        e = z3.simplify(zb(cond))
        if z3.is_true(e):
            st.discharged += 1
            st.trivial += 1
            return
        run = self.run
        run.solver.push()
        run.solver.add(z3.Not(e))
        r = run._check()
        run.solver.pop()
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            r = self._second_opinion(z3.Not(e))
            if r == z3.unsat:
                st.discharged += 1
                return
            if r == z3.unknown:
                raise core.Inconclusive(f"unknown: {label}")
        if self.job.known(label):
            run.assume(e)          # recorded finding: go on beyond it
            return
        ms = self._models(z3.Not(e), extra)
        if not ms:
            raise core.Inconclusive(f"sat without model: {label}")
        raise Violation(label, ms[0], ms[1:])

    def _second_opinion(self, neg):
        t = z3.Then("simplify", "purify-arith", "solve-eqs", "nlsat") if False else None
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", self.run.timeout_ms)
        for c in self.run.pc:
            s.add(c)
        s.add(neg)
        self.job.stats.queries += 1
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown

    def eq(self, a, b, label, rtol=1e-6, atol=1e-9):
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if not (is_sym(a) or is_sym(b)):
            self.check(_conc_close(a, b, rtol, atol), label)
            return
        if core.special(a) or core.special(b) or a is None or b is None:
            self.check(False, label)
            return
        d = z3.simplify(zr(a) - zr(b), som=True)
        if not z3.is_rational_value(d):
            # larger products are left folded by default
            d2 = z3.simplify(zr(a) - zr(b), som=True, som_blowup=200)
            if z3.is_rational_value(d2):
                d = d2
        if z3.is_rational_value(d):
            # identical up to decimal conversion of float constants
            v = d.as_fraction()
            self.check(abs(v) < Fraction(1, 10 ** 9), label)
            return
        D = z3.Real("dlt!")
        self.check(core.mk(d == 0), label,
                   extra=z3.Or(zr(a) - zr(b) >= z3.RealVal("1/50"), zr(b) - zr(a) >= z3.RealVal("1/50")))

    def fail(self, label):
        self.check(False, label)
        raise EndPath()


def _conc_close(a, b, rtol, atol):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class ConcProvider(Base):
    symbolic = False

    def __init__(self, inputs, scale_tol=1.0, fill=None):
        self.inputs = inputs
        self.checks = 0
        self.used = {}
        # a path the engine could not finish leaves later inputs open: they get arbitrary values of their range
        self.fill = None if fill is None else random.Random(f"fill{fill}")

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return int(self._get(name, lo if self.fill is None else self.fill.randint(lo, hi)))

    def real(self, name, lo=None, hi=None, nonzero=False):
        if self.fill is None:
            d = 0 if lo is None or lo <= 0 else lo
        else:
            a = Fraction(lo) if lo is not None else (Fraction(hi) - 6 if hi is not None else Fraction(-3))
            b = Fraction(hi) if hi is not None else max(a, Fraction(-3)) + 7
            d = a + (b - a) * Fraction(self.fill.randint(1, 63), 64)
            if nonzero and d == 0:
                d = (a + 3 * b) / 4
        return float(Fraction(self._get(name, d)))

    def bool(self, name):
        return bool(self._get(name, False if self.fill is None else bool(self.fill.randint(0, 1))))

    def require(self, cond):
        if not bool(cond):
            raise ConcreteSkip()

    def all(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return all(bool(c) for c in cs)

    def any(self, *cs):
        cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def same(self, a, b):
        return bool(a == b) or (isinstance(a, float) and isinstance(b, float) and
                                math.isnan(a) and math.isnan(b))

    def close(self, a, b, rtol=1e-6):
        return _conc_close(a, b, rtol, 1e-9)

    def le(self, a, b):
        return a <= b + 1e-9 * max(1.0, abs(a), abs(b))

    def ite(self, c, a, b):
        return a if c else b

    def reach(self, label="end"):
        pass

    def check(self, cond, label, extra=None):
        self.checks += 1
        if not bool(cond):
            raise ConcreteFail(label)

    def eq(self, a, b, label, rtol=1e-6, atol=1e-9):
        self.checks += 1
        if not _conc_close(a, b, rtol, atol):
            raise ConcreteFail(label, f"got {a!r}, expected {b!r}")

    def fail(self, label):
        raise ConcreteFail(label)

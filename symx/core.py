"""symx: a small dynamic symbolic executor for the real Python code in /repo.

The code under test is imported and *run*; inputs are `Sym` values that wrap z3
terms.  Control flow that depends on a Sym calls `Sym.__bool__`, which forks:
the run is repeated with every feasible combination of branch outcomes (DFS over
decision prefixes, z3 prunes infeasible ones).  At the end of every path the
harness's assertions are put to z3 under that path's condition.
"""
import math
import time
from fractions import Fraction

import z3

CUR = None          # current Run


class SymxError(BaseException):
    """Machinery problem (never a verdict).  BaseException: the code under test
    must not swallow it in `except Exception`."""


class Infeasible(BaseException):
    """path assumption is unsatisfiable: drop the path"""


class PathLimit(SymxError):
    pass


class Inconclusive(SymxError):
    pass


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    try:
        return Fraction(repr(float(x)))
    except ValueError:
        raise SymxError(f"cannot convert {x!r} to a rational")


def zval(x, like=None):
    """concrete python number -> z3 numeral"""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_, Fraction))


def special(x):
    """inf/nan python or numpy float?"""
    import numpy as np
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def realsort(e):
    return z3.ToReal(e) if e.sort().kind() == z3.Z3_INT_SORT else e


class Sym:
    """symbolic int / real"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # -- helpers ---------------------------------------------------------
    @property
    def is_int(self):
        return self.e.sort().kind() == z3.Z3_INT_SORT

    def _bin(self, o, f, swap=False):
        import numpy as np
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, Sym):
            b = o.e
        elif is_num(o):
            if special(o):
                return None
            b = zval(o)
        else:
            return NotImplemented
        a = self.e
        if a.sort() != b.sort():
            a, b = realsort(a), realsort(b)
        if swap:
            a, b = b, a
        return mk(f(a, b))

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        return o if r is None else r

    def __radd__(self, o):
        r = self._bin(o, lambda a, b: b + a)
        return o if r is None else r

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return -o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        return o if r is None else r

    def _spmul(self, o):
        if math.isnan(o):
            return o
        if self == 0:
            return float("nan")
        return o if self > 0 else -o

    def __mul__(self, o):
        r = self._bin(o, lambda a, b: a * b)
        return self._spmul(o) if r is None else r

    def __rmul__(self, o):
        r = self._bin(o, lambda a, b: b * a)
        return self._spmul(o) if r is None else r

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        if self.is_int and (isinstance(o, int) or (isinstance(o, Sym) and o.is_int)):
            if isinstance(o, Sym) and not bool(o > 0):
                raise SymxError("floordiv by non-positive symbolic")
            return self._bin(o, lambda a, b: a / b)
        q = div(self, o)
        return Sym(z3.ToInt(q.e)) if isinstance(q, Sym) else q // 1

    def __rfloordiv__(self, o):
        return lift(o).__floordiv__(self)

    def __mod__(self, o):
        if self.is_int and (isinstance(o, int) or (isinstance(o, Sym) and o.is_int)):
            return self._bin(o, lambda a, b: a % b)
        raise SymxError("real modulo")

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        z = z3.IntVal(0) if self.is_int else z3.RealVal(0)
        return mk(z3.If(self.e >= z, self.e, -self.e))

    def __pow__(self, o):
        import numpy as np
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            o = int(o)
        if isinstance(o, (int, np.integer)):
            n = int(o)
            if n < 0:
                return div(1, self ** (-n))
            r = 1
            for _ in range(n):
                r = self * r
            return r if n else 1.0
        if isinstance(o, (float, np.floating)) and float(o) == 0.5:
            return self.sqrt()
        if isinstance(o, Sym) and o.is_int:
            return self ** int(o)
        raise SymxError(f"pow {o!r}")

    def __rpow__(self, o):
        if self.is_int:
            return o ** int(self)
        raise SymxError("rpow")

    # -- comparisons ------------------------------------------------------
    def _cmp(self, o, f, spec):
        import numpy as np
        if isinstance(o, np.ndarray):
            return NotImplemented
        if special(o):
            return bool(spec(float(o)))
        if isinstance(o, SymBool):
            o = o.as_int()
        if not (isinstance(o, Sym) or is_num(o)):
            return NotImplemented
        r = self._bin(o, f)
        return r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda v: v == math.inf)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda v: v == math.inf)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda v: v == -math.inf)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda v: v == -math.inf)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        return r

    def __hash__(self):
        return hash(concretize(self))

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        if self.is_int:
            return concretize(self)
        # truncation toward zero, then concretise
        t = z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        return concretize(Sym(t))

    __index__ = __int__

    def __trunc__(self):
        return int(self)

    def __float__(self):
        if CUR is not None and CUR.float_hook is not None:
            return CUR.float_hook(self)
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        raise SymxError("float() of a symbolic value: " + str(self.e)[:80])

    def __round__(self, n=None):
        return rnd(self, n or 0)

    # -- unary functions numpy looks up on objects -------------------------
    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def sin(self):
        return ufun("sin", self)

    def cos(self):
        return ufun("cos", self)

    def tan(self):
        return ufun("tan", self)

    def tanh(self):
        return ufun("tanh", self)

    def exp(self):
        return ufun("exp", self)

    def log(self):
        return ufun("log", self)

    def log10(self):
        return ufun("log10", self)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if CUR is not None and CUR.str_hook is not None:
            return CUR.str_hook(self, "")
        return f"<{self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        if CUR is not None and CUR.str_hook is not None:
            return CUR.str_hook(self, spec)
        raise SymxError("formatting a symbolic value")


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def as_int(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __bool__(self):
        return fork(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, zb(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == zb(o))
        return self.as_int() == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e != zb(o))
        return self.as_int() != o

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __lt__(self, o):
        return self.as_int() < o

    def __le__(self, o):
        return self.as_int() <= o

    def __gt__(self, o):
        return self.as_int() > o

    def __ge__(self, o):
        return self.as_int() >= o

    def __truediv__(self, o):
        return div(self.as_int(), o)

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return f"<{self.e}>"


def mk(e):
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    return Sym(e)


def lift(x):
    return x if isinstance(x, Sym) else Sym(zval(x))


def zb(x):
    """-> z3 Bool"""
    import numpy as np
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return (x != 0).e
    if z3.is_expr(x):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return zb(x.item())
    if is_num(x):
        return z3.BoolVal(bool(x))
    raise SymxError(f"not a boolean: {type(x)}")


def zr(x):
    """-> z3 Real term"""
    import numpy as np
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Sym):
        return realsort(x.e)
    if isinstance(x, SymBool):
        return realsort(x.as_int().e)
    if z3.is_expr(x):
        return realsort(x)
    return realsort(zval(x))


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(x):
    import numpy as np
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


# ---------------------------------------------------------------------------
def div(a, b):
    """real division with IEEE-like special cases on a zero divisor (forks)"""
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    for v in (a, b):
        if not (is_sym(v) or is_num(v)):
            return NotImplemented
    if special(b):
        return float("nan") if math.isnan(b) else 0.0
    if isinstance(b, SymBool):
        b = b.as_int()
    if special(a):
        if math.isnan(a):
            return a
        return a if bool(b >= 0) else -a
    if isinstance(b, Sym):
        zero = bool(b == 0)
    else:
        zero = (b == 0)
    if zero:
        a0 = lift(a) if not isinstance(a, SymBool) else a.as_int()
        if bool(a0 == 0):
            return float("nan")
        return float("inf") if bool(a0 > 0) else float("-inf")
    if is_num(b):        # constant divisor: stay linear
        f = 1 / frac(b)
        return mk(zr(a) * z3.RealVal(f"{f.numerator}/{f.denominator}"))
    return mk(zr(a) / zr(b))


def sqrt(x):
    if not isinstance(x, Sym):
        return math.sqrt(x) if x >= 0 else float("nan")
    if not bool(x >= 0):
        return float("nan")
    run = CUR
    key = ("sqrt", zr(x).get_id())
    if key in run.memo:
        return run.memo[key][0]
    y = z3.Real(f"sqrt!{len(run.memo)}")
    ex = zr(x)
    run.assume(z3.And(y >= 0, y * y == ex), check=False)
    s = Sym(y)
    run.memo[key] = (s, ex)
    return s


_UF = {}


def ufun(name, *args):
    """uninterpreted real function"""
    key = (name, len(args))
    if key not in _UF:
        _UF[key] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    return Sym(_UF[key](*[zr(a) for a in args]))


def rnd(v, n=0):
    """v rounded to n decimals: some number within half a unit of the last place"""
    if not is_sym(v):
        return round(float(v), n)
    r = ufun(f"round{n}", v)
    h = z3.Q(1, 2 * 10 ** n)
    CUR.assume(z3.And(r.e - zr(v) <= h, zr(v) - r.e <= h), check=False)
    return r


def ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    ea, eb = (a.e if isinstance(a, Sym) else zval(a)), (b.e if isinstance(b, Sym) else zval(b))
    if ea.sort() != eb.sort():
        ea, eb = realsort(ea), realsort(eb)
    return mk(z3.If(zb(c), ea, eb))


class SymTable:
    """a lookup table (of numbers, possibly symbolic) indexable by symbolic ints: t[i] is an ite
    chain, t[array] maps elementwise.  Stands in for small int arrays such as a library's arities."""

    def __init__(self, values):
        self.v = list(values)
        self.dtype, self.ndim, self.shape, self.size = None, 1, (len(self.v),), len(self.v)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def _one(self, i):
        if not isinstance(i, Sym):
            return self.v[int(i)]
        n = len(self.v)
        r = self.v[n - 1]
        for k in range(n - 2, -1, -1):
            r = ite(mk(z3.simplify(i.e == k)), self.v[k], r)
        return r

    def __getitem__(self, i):
        import numpy as np
        if isinstance(i, slice):
            return SymTable(self.v[i])
        if isinstance(i, list):
            i = np.asarray(i, dtype=object)
        if isinstance(i, np.ndarray):
            if i.dtype == bool:
                return np.array([v for v, k in zip(self.v, i) if k], dtype=object)
            out = np.empty(i.shape, dtype=object)
            for idx in np.ndindex(*i.shape):
                out[idx] = self._one(i[idx])
            return out
        return self._one(i)

    def __array__(self, dtype=None, copy=None):
        import numpy as np
        return np.array(self.v, dtype=object)

    def _arr(self):
        import numpy as np
        return np.array(self.v, dtype=object)

    def __eq__(self, o):
        return self._arr() == o

    def __gt__(self, o):
        return self._arr() > o

    def __sub__(self, o):
        return self._arr() - o

    def tolist(self):
        return list(self.v)

    __hash__ = None


def smin(a, b):
    return ite(mk(zr(a) <= zr(b)) if is_sym(a) or is_sym(b) else a <= b, a, b)


def smax(a, b):
    return ite(mk(zr(a) >= zr(b)) if is_sym(a) or is_sym(b) else a >= b, a, b)


def fork(e):
    if CUR is None:
        raise SymxError("symbolic branch outside a run")
    return CUR.fork(e)


def concretize(s):
    if CUR is None:
        raise SymxError("concretize outside a run")
    return CUR.concretize(s)


# ---------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.infeasible = 0
        self.reached = {}


class Run:
    """one execution along a decision prefix"""

    def __init__(self, prefix, stats, timeout_ms):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []
        self.stats = stats
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set("timeout", timeout_ms)
        self.pc = []
        self.model = None
        self.memo = {}
        self.inputs = {}        # name -> ("int"|"real"|"bool", z3 const)
        self.fixed = {}         # recorded concrete choices (for the replay)
        self.float_hook = None
        self.str_hook = None
        self.keep = []

    # -- solver ---------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def _add(self, e):
        self.solver.add(e)
        self.pc.append(e)

    def assume(self, e, check=True):
        e = zb(e)
        if z3.is_true(z3.simplify(e)):
            return
        self._add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        if check and self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.stats.infeasible += 1
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()

    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not isinstance(d, bool):
                raise SymxError("non-deterministic replay of a path prefix")
            self.pos += 1
            self.taken.append(d)
            self._add(e if d else z3.Not(e))
            self.model = None
            return d
        # feasibility of both sides
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.stats.infeasible += 1
                raise Infeasible()
            self.model = self.solver.model() if r == z3.sat else None
        t = f = None
        mt = mf = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                t, mt = True, self.model
            elif z3.is_false(v):
                f, mf = True, self.model
        if t is None:
            r = self._check(e)
            t = r != z3.unsat
            mt = self.solver.model() if r == z3.sat else None
        if f is None:
            r = self._check(z3.Not(e))
            f = r != z3.unsat
            mf = self.solver.model() if r == z3.sat else None
        if t and f:
            self.stats.decisions += 1
            self.alts.append(self.taken + [False])
            d = True
            self.taken.append(True)
            self.pos += 1
            self._add(e)
            self.model = mt
            return d
        if not t and not f:
            self.stats.infeasible += 1
            raise Infeasible()
        # forced: no decision recorded, but keep position deterministic: forced
        # outcomes are recorded so that prefixes replay identically
        d = bool(t)
        self.taken.append(d)
        self.pos += 1
        self._add(e if d else z3.Not(e))
        self.model = mt if d else mf
        return d

    def concretize(self, s, cap=256):
        e = z3.simplify(s.e)
        if z3.is_int_value(e):
            return e.as_long()
        if e.sort().kind() != z3.Z3_INT_SORT:
            raise SymxError("concretize of a real")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if isinstance(d, bool):
                raise SymxError("non-deterministic replay of a path prefix")
            self.pos += 1
            self.taken.append(d)
            self._add(e == d[1])
            self.model = None
            return d[1]
        vals = []
        self.solver.push()
        while True:
            r = self._check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                self.solver.pop()
                raise Inconclusive("concretize: unknown")
            v = self.solver.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > cap:
                self.solver.pop()
                raise SymxError("concretize: unbounded value")
            self.solver.add(e != v)
        self.solver.pop()
        if not vals:
            self.stats.infeasible += 1
            raise Infeasible()
        vals.sort()
        self.stats.decisions += len(vals) - 1
        for v in reversed(vals[1:]):
            self.alts.append(self.taken + [("v", v)])
        self.taken.append(("v", vals[0]))
        self.pos += 1
        self._add(e == vals[0])
        self.model = None
        return vals[0]


def num_of(v):
    """z3 numeral -> Fraction/int"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise SymxError(f"no numeral: {v}")

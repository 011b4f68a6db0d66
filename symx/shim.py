"""numpy/math/float/int stand-ins that let /repo's modules compute on Sym values.

`install()` rebinds, inside every loaded kd.* module, the globals that *are*
numpy / math / numpy functions, and injects `float`/`int` look-alikes.  The
replay of a counterexample and of path witnesses runs in a process where this is
never installed.
"""
import builtins
import math
import sys
import types

import numpy as np

from . import core
from .core import Sym, SymBool, SymxError, has_sym, is_sym, ite, special

FLOATY = (np.float16, np.float32, np.float64, np.longdouble, np.complex64, np.complex128)


class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real) or (isinstance(o, Sym) and (not o.is_int) == (cls._kind == "f"))

    def __subclasscheck__(cls, c):
        try:
            return issubclass(c, cls._real)
        except TypeError:
            return False

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class symfloat(metaclass=_FMeta):
    _real = float
    _kind = "f"

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and int(np.prod(x.shape)) == 1 and x.dtype == object:
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            return Sym(core.realsort(x.e))
        if isinstance(x, SymBool):
            return Sym(core.realsort(x.as_int().e))
        return builtins.float(x)

    @staticmethod
    def fromhex(s):
        return builtins.float.fromhex(s)


class symint(metaclass=_FMeta):
    _real = int
    _kind = "i"

    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and int(np.prod(x.shape)) == 1 and x.dtype == object:
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            if x.is_int:
                return x
            import z3
            return Sym(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
        if isinstance(x, SymBool):
            return x.as_int()
        return builtins.int(x, *a)


class symf64(symfloat):
    _real = np.float64

    def __new__(cls, x=0.0):
        if isinstance(x, (list, tuple, np.ndarray)):
            return _asarray(np.asarray)(x, dtype=object)
        return symfloat(x)


class symf32(symf64):
    _real = np.float32


def _floaty_dtype(dt):
    if dt is None:
        return True
    if isinstance(dt, type) and issubclass(type(dt), _FMeta):
        return dt._kind == "f"
    try:
        d = np.dtype(dt)
    except TypeError:
        return False
    return d == object or d.kind in "fc"


def _dt(dt):
    if isinstance(dt, _FMeta):
        return dt._real
    return dt


INT_OBJ = [False]      # a harness may ask for integer buffers to be object arrays as well


def _intobj(dt):
    try:
        return INT_OBJ[0] and np.dtype(dt).kind in "iu"
    except TypeError:
        return False


def _new(f, default_pos):
    def g(*a, **k):
        a = list(a)
        dt = k.get("dtype", a[default_pos] if len(a) > default_pos else None)
        if _intobj(_dt(dt)):
            r = f(*[v for i, v in enumerate(a) if i != default_pos], **{**k, "dtype": object})
            r.fill(1 if f is np.ones else 0)
            return r
        if _floaty_dtype(dt):
            if len(a) > default_pos:
                a[default_pos] = object
                k.pop("dtype", None)
            else:
                k["dtype"] = object
            r = f(*a, **k)
            if f is np.empty:
                r.fill(0.0)
            elif f is np.zeros:
                r.fill(0.0)
            elif f is np.ones:
                r.fill(1.0)
            return r
        if "dtype" in k:
            k["dtype"] = _dt(k["dtype"])
        elif len(a) > default_pos:
            a[default_pos] = _dt(a[default_pos])
        return f(*a, **k)
    return g


def _full(shape, fill_value, dtype=None, **k):
    if _intobj(_dt(dtype)):
        return np.full(shape, fill_value, dtype=object)
    if dtype is None:
        if is_sym(fill_value) or isinstance(fill_value, (float, np.floating)):
            dtype = object
        return np.full(shape, fill_value, dtype=dtype)
    return np.full(shape, fill_value, dtype=object if _floaty_dtype(dtype) else _dt(dtype))


def _like(val):
    def g(a, *args, **k):
        x = np.asarray(a)
        args = list(args)
        v = val
        if v is None:      # full_like
            v = args.pop(0) if args else k.pop("fill_value")
        dt = k.get("dtype", args[0] if args else None)
        if dt is None:
            dt = x.dtype
        shape = k.get("shape")
        if shape is None:
            shape = x.shape
        if _floaty_dtype(dt):
            r = np.empty(shape, dtype=object)
            r.fill(float(v) if isinstance(v, int) else v)
            return r
        r = np.empty(shape, dtype=_dt(dt))
        r.fill(v)
        return r
    return g


class ObjArr(np.ndarray):
    """object array whose reductions build terms instead of comparing element by element"""

    def min(self, *a, **k):
        return OVERRIDES["min"](np.asarray(self), *a, **k)

    def max(self, *a, **k):
        return OVERRIDES["max"](np.asarray(self), *a, **k)

    def mean(self, *a, **k):
        return OVERRIDES["mean"](np.asarray(self), *a, **k)

    def std(self, *a, **k):
        return OVERRIDES["std"](np.asarray(self), *a, **k)

    def var(self, *a, **k):
        return OVERRIDES["var"](np.asarray(self), *a, **k)


class FloatArr(np.ndarray):
    """number array that understands the stand-ins of float types"""

    def astype(self, dtype, *a, **k):
        return np.ndarray.astype(self, _dt(dtype) if self.dtype != object else dtype, *a, **k)


FLOAT_ARRAYS = [False]     # a harness may ask that arrays of numbers keep their float type through astype


def _floatarr(r):
    if FLOAT_ARRAYS[0] and type(r) is np.ndarray and r.dtype.kind == "f":
        return r.view(FloatArr)
    return r


TERM_ARRAYS = [False]      # a harness may ask for asarray/array to return ObjArr


def _asarray(f):
    def g(x, *a, **k):
        a = list(a)
        dt = k.get("dtype", a[0] if a else None)
        if dt is not None:
            if _floaty_dtype(dt):
                dt2 = object if (has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object)) else _dt(dt)
                if isinstance(dt2, _FMeta):
                    dt2 = dt2._real
            else:
                dt2 = _dt(dt)
            if a:
                a[0] = dt2
                k.pop("dtype", None)
            else:
                k["dtype"] = dt2
        r = f(x, *a, **k)
        if TERM_ARRAYS[0] and isinstance(r, np.ndarray) and r.dtype == object and type(r) is np.ndarray:
            r = r.view(ObjArr)
        return _floatarr(r)
    return g


def _elem(fn, out_bool=False):
    u = np.frompyfunc(fn, 1, 1)

    def g(x, *a, **k):
        r = u(x)
        if isinstance(r, np.ndarray) and out_bool and not has_sym(r):
            r = r.astype(bool)
        return r
    return g


def _isobj(x):
    return is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object) or \
        (isinstance(x, (list, tuple)) and has_sym(x))


def _unary(name, symfn, out_bool=False):
    real = getattr(np, name)

    def one(v):
        if is_sym(v):
            return symfn(v)
        r = real(v)
        return bool(r) if out_bool else r
    el = _elem(one, out_bool)

    def g(x, *a, **k):
        if _isobj(x):
            r = el(np.asarray(x) if isinstance(x, (list, tuple)) else x)
            out = k.get("out")
            if out is not None:
                out[...] = r
                return out
            return r
        return real(x, *a, **k)
    g._real = real
    return g


def _uf(name):
    return lambda v: core.ufun(name, v)


def _binary(name, symfn):
    real = getattr(np, name)
    u = np.frompyfunc(lambda a, b: symfn(a, b) if (is_sym(a) or is_sym(b)) else real(a, b), 2, 1)

    def g(a, b, *args, **k):
        if _isobj(a) or _isobj(b):
            r = u(a, b)
            out = k.get("out")
            if out is not None:
                out[...] = r
                return out
            return r
        return real(a, b, *args, **k)
    return g


def _nanguard(symfn):
    def f(a, b):
        for v in (a, b):
            if isinstance(v, (float, np.floating)) and math.isnan(v):
                return v
        if special(a) or special(b):
            return (a if bool(a > b) else b) if symfn is core.smax else (a if bool(a < b) else b)
        return symfn(a, b)
    return f


def _where(c, *ab):
    if not ab:
        if _isobj(c):
            c = np.asarray(np.frompyfunc(bool, 1, 1)(c), dtype=bool)
        return np.where(c)
    a, b = ab
    if _isobj(c):
        def f(c, a, b):
            if not is_sym(c):
                return a if c else b
            try:
                return ite(c, a, b)
            except SymxError:
                return a if bool(c) else b
        return np.frompyfunc(f, 3, 1)(c, a, b)
    if _isobj(a) or _isobj(b):
        return np.where(c, np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return np.where(c, a, b)


def _reduce(name, symfn):
    real = getattr(np, name)
    bi = _nanguard(symfn)

    def g(a, axis=None, out=None, keepdims=False, **k):
        if _isobj(a):
            x = np.asarray(a, dtype=object)
            u = np.frompyfunc(lambda p, q: bi(p, q) if (is_sym(p) or is_sym(q)) else
                              (real([p, q])), 2, 1)
            if axis is None:
                x = x.reshape(-1)
                axis = 0
                r = u.reduce(x, axis=0)
            else:
                r = u.reduce(x, axis=axis)
            if keepdims:
                r = np.expand_dims(r, axis)
            return r
        kw = dict(k)
        if keepdims:
            kw["keepdims"] = True
        return real(a, axis=axis, **kw) if out is None else real(a, axis=axis, out=out, **kw)
    return g


def _mean(a, axis=None, *r, **k):
    if _isobj(a):
        x = np.asarray(a, dtype=object)
        n = x.size if axis is None else x.shape[axis]
        if n == 0:
            return float("nan")
        s = np.sum(x, axis=axis, **{q: v for q, v in k.items() if q == "keepdims"})
        return s * (core.frac(1) / n) if False else _divn(s, n)
    return np.mean(a, axis, *r, **k)


def _divn(s, n):
    if isinstance(s, np.ndarray):
        return np.frompyfunc(lambda v: core.div(v, n) if is_sym(v) else v / n, 1, 1)(s)
    return core.div(s, n) if is_sym(s) else s / n


def _var(a, axis=None, ddof=0, **k):
    if _isobj(a):
        x = np.asarray(a, dtype=object)
        if axis is None:
            m = _mean(x)
            d = (x - m).reshape(-1)
            n = x.size
            return _divn(np.sum(d * d), n - ddof)
        m = _mean(x, axis=axis, keepdims=True)
        d = x - m
        return _divn(np.sum(d * d, axis=axis, **k), x.shape[axis] - ddof)
    return np.var(a, axis=axis, ddof=ddof, **k)


def _std(a, axis=None, ddof=0, **k):
    if _isobj(a):
        return _sqrt(_var(a, axis, ddof, **k))
    return np.std(a, axis=axis, ddof=ddof, **k)


def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if _isobj(a) or _isobj(b):
        return all(bool(v) for v in np.asarray(_isclose(a, b, rtol, atol)).reshape(-1))
    return np.allclose(a, b, rtol=rtol, atol=atol, **k)


def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if _isobj(a) or _isobj(b):
        return np.frompyfunc(lambda p, q: abs(p - q) <= atol + rtol * abs(q), 2, 1)(a, b)
    return np.isclose(a, b, rtol=rtol, atol=atol, **k)


def _array_equal(a, b, *r, **k):
    if _isobj(a) or _isobj(b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    return np.array_equal(a, b, *r, **k)


_sqrt = _unary("sqrt", core.sqrt)


def _sign(v):
    return ite(v > 0, 1.0, ite(v < 0, -1.0, 0.0))


def _lift_bool(name):
    real = getattr(np, name)

    def g(a, axis=None, **k):
        if _isobj(a) and axis is None:
            vs = [v for v in np.asarray(a, dtype=object).reshape(-1)]
            import z3
            if any(is_sym(v) for v in vs):
                es = [core.zb(v) for v in vs]
                return core.mk(z3.simplify(z3.Or(*es) if name == "any" else z3.And(*es)))
            return (any if name == "any" else all)(bool(v) for v in vs)
        return real(a, axis=axis, **k)
    return g


def _norm(x, ord=None, axis=None, **k):
    if _isobj(x):
        v = np.asarray(x, dtype=object)
        if axis is None and ord in (None, 2, "fro") and (v.ndim == 1 or ord != 2 or 1 in v.shape):
            return core_sqrt(np.sum((v * v).reshape(-1)))
        if axis is None and v.ndim == 1 and ord == 1:
            return np.sum(np.abs(v))
        if axis is None and v.ndim == 1 and ord == np.inf:
            return _reduce("max", core.smax)(np.abs(v))
        if axis is None and v.ndim == 1 and ord == 0:
            return sum(ite(q != 0, 1, 0) if is_sym(q) else int(q != 0) for q in v)
        if axis is not None and ord in (None, 2):
            return _sqrt(np.sum(v * v, axis=axis))
        raise SymxError("norm variant")
    return np.linalg.norm(x, ord, axis, **k)


def core_sqrt(v):
    return core.sqrt(v) if is_sym(v) else np.sqrt(float(v))


def _square(v):
    return v * v


OVERRIDES = {
    "zeros": _new(np.zeros, 1), "ones": _new(np.ones, 1), "empty": _new(np.empty, 1),
    "full": _full, "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(0),
    "full_like": _like(None),
    "array": _asarray(np.array), "asarray": _asarray(np.asarray),
    "asanyarray": _asarray(np.asanyarray), "ascontiguousarray": _asarray(np.ascontiguousarray),
    "asfarray": _asarray(np.asarray),
    "isnan": _unary("isnan", lambda v: False, True),
    "isinf": _unary("isinf", lambda v: False, True),
    "isfinite": _unary("isfinite", lambda v: True, True),
    "isreal": _unary("isreal", lambda v: True, True),
    "isrealobj": lambda x: True,
    "iscomplexobj": lambda x: (not _isobj(x)) and np.iscomplexobj(x),
    "sqrt": _sqrt, "square": _unary("square", _square), "abs": _unary("abs", abs),
    "absolute": _unary("abs", abs), "fabs": _unary("fabs", abs),
    "negative": _unary("negative", lambda v: -v),
    "sinh": _unary("sinh", _uf("sinh")), "cosh": _unary("cosh", _uf("cosh")),
    "sin": _unary("sin", _uf("sin")), "cos": _unary("cos", _uf("cos")),
    "tan": _unary("tan", _uf("tan")), "tanh": _unary("tanh", _uf("tanh")),
    "arctan": _unary("arctan", _uf("arctan")), "arcsin": _unary("arcsin", _uf("arcsin")),
    "exp": _unary("exp", _uf("exp")), "log": _unary("log", _uf("log")),
    "log10": _unary("log10", _uf("log10")), "log2": _unary("log2", _uf("log2")),
    "log1p": _unary("log1p", _uf("log1p")), "expm1": _unary("expm1", _uf("expm1")),
    "round": lambda x, decimals=0, **k: _elem(lambda v: core.rnd(v, decimals))(x) if _isobj(x) else np.round(x, decimals, **k),
    "sign": _unary("sign", _sign),
    "nan_to_num": lambda x, *a, **k: x if _isobj(x) else np.nan_to_num(x, *a, **k),
    "maximum": _binary("maximum", _nanguard(core.smax)),
    "minimum": _binary("minimum", _nanguard(core.smin)),
    "where": _where,
    "max": _reduce("max", core.smax), "amax": _reduce("max", core.smax),
    "min": _reduce("min", core.smin), "amin": _reduce("min", core.smin),
    "nanmax": _reduce("nanmax", core.smax), "nanmin": _reduce("nanmin", core.smin),
    "mean": _mean, "average": lambda a, axis=None, weights=None, **k: (
        _mean(a, axis) if weights is None and _isobj(a) else np.average(a, axis=axis, weights=weights, **k)),
    "nanmean": lambda a, *r, **k: _mean(a, *r, **k) if _isobj(a) else np.nanmean(a, *r, **k),
    "var": _var, "std": _std,
    "allclose": _allclose, "isclose": _isclose, "array_equal": _array_equal,
    "any": _lift_bool("any"), "all": _lift_bool("all"),
    "float64": symf64, "float32": symf32, "double": symf64, "float_": symf64, "single": symf32,
    "clip": lambda a, lo=None, hi=None, **k: (np.clip(a, lo, hi, **k) if not _isobj(a) else
                                             _clip(a, lo, hi)),
    "power": lambda a, b: (a ** b) if _isobj(a) else np.power(a, b),
    "divide": _binary("divide", core.div), "true_divide": _binary("divide", core.div),
}


def _clip(a, lo, hi):
    r = a
    if lo is not None:
        r = OVERRIDES["maximum"](r, lo)
    if hi is not None:
        r = OVERRIDES["minimum"](r, hi)
    return r


LINALG_HOOKS = {}     # name -> fn(real, *args, **kw), set by a harness


def _linalg(name):
    real = getattr(np.linalg, name)

    def g(*a, **k):
        if name in LINALG_HOOKS:
            return LINALG_HOOKS[name](real, *a, **k)
        if name == "norm":
            return _norm(*a, **k)
        if any(_isobj(v) for v in a):
            if any(has_sym(v) for v in a):
                raise SymxError(f"np.linalg.{name} on symbolic data: no stub installed")
            a = [np.asarray(v, dtype=float) if _isobj(v) else v for v in a]
        return real(*a, **k)
    return g


def _gradient(f, *varargs, axis=None, edge_order=1):
    if not (_isobj(f) or any(_isobj(v) for v in varargs)):
        return np.gradient(f, *varargs, axis=axis, edge_order=edge_order)
    f = np.asarray(f, dtype=object)
    axes = tuple(range(f.ndim)) if axis is None else ((axis,) if np.ndim(axis) == 0 else tuple(axis))
    sp = list(varargs) or [1.0]
    if len(sp) == 1 and len(axes) > 1:
        sp = sp * len(axes)
    if len(sp) != len(axes):
        raise TypeError("invalid number of arguments")
    if edge_order not in (1, 2):
        raise SymxError("gradient edge_order")
    outs = []
    for ax, h in zip(axes, sp):
        v = np.moveaxis(f, ax, 0)
        n = v.shape[0]
        if n < edge_order + 1:
            raise ValueError("Shape of array too small to calculate a numerical gradient")
        if edge_order == 2 and np.ndim(h):
            raise SymxError("gradient edge_order on an uneven grid")
        r = np.empty(v.shape, dtype=object)
        if np.ndim(h) == 0:
            hs = [h] * (n - 1)
        else:
            h = np.asarray(h, dtype=object)
            if len(h) != n:
                raise ValueError("when 1d, distances must match the length of the corresponding dimension")
            hs = [h[i + 1] - h[i] for i in range(n - 1)]
        for i in range(1, n - 1):
            a, b = hs[i - 1], hs[i]
            r[i] = (-(b / (a * (a + b))) * v[i - 1] + ((b - a) / (a * b)) * v[i] + (a / (b * (a + b))) * v[i + 1]) \
                if np.ndim(h) else (v[i + 1] - v[i - 1]) / (a + b)
        if edge_order == 2:
            r[0] = (-3 * v[0] + 4 * v[1] - v[2]) / (2 * hs[0])
            r[-1] = (3 * v[-1] - 4 * v[-2] + v[-3]) / (2 * hs[0])
        else:
            r[0] = (v[1] - v[0]) / hs[0]
            r[-1] = (v[-1] - v[-2]) / hs[-1]
        outs.append(np.moveaxis(r, 0, ax))
    return outs[0] if len(outs) == 1 else outs


def _accumulate(symfn, real):
    def g(a, axis=0, **k):
        if not _isobj(a):
            return real(a, axis=axis, **k)
        x = np.asarray(a, dtype=object)
        r = np.empty(x.shape, dtype=object)
        xs, rs = np.moveaxis(x, axis, 0), np.moveaxis(r, axis, 0)
        u = np.frompyfunc(symfn, 2, 1)
        for i in range(len(xs)):
            rs[i] = xs[i] if i == 0 else u(rs[i - 1], xs[i])
        return r
    return g


for _n, _f in (("maximum", core.smax), ("minimum", core.smin)):
    OVERRIDES[_n].accumulate = _accumulate(_f, getattr(np, _n).accumulate)


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if _isobj(start) or _isobj(stop):
        num = builtins.int(num)
        d = (num - 1) if endpoint else num
        st = (stop - start) / d if d > 0 else float("nan")
        r = np.array([start + i * st for i in range(num)], dtype=object)
        if endpoint and num > 1:
            r[-1] = stop
        if dtype is not None and not _floaty_dtype(dtype):
            raise SymxError("integer linspace of symbolic bounds")
        return (r, st) if retstep else r
    return np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=_dt(dtype), axis=axis)


def _diff(a, n=1, axis=-1, **k):
    if _isobj(a):
        return np.diff(np.asarray(a, dtype=object), n=n, axis=axis, **k)
    return np.diff(a, n=n, axis=axis, **k)


UNIQUE_OPAQUE = [False]      # a harness that only counts distinct values may leave them unresolved


def _unique(a, *r, **k):
    if not (_isobj(a) and has_sym(a)):
        return np.unique(np.asarray(a, dtype=float) if _isobj(a) else a, *r, **k)
    if r or k:
        raise SymxError("np.unique on symbolic data: only the values")
    v = list(np.asarray(a, dtype=object).reshape(-1))
    if len(v) > 4:
        if UNIQUE_OPAQUE[0]:
            return np.array(v, dtype=object)
        raise SymxError("np.unique on symbolic data")
    out = []
    for x in v:
        i = 0
        while i < len(out) and bool(out[i] < x):
            i += 1
        if i < len(out) and bool(out[i] == x):
            continue
        out.insert(i, x)
    r = np.empty(len(out), dtype=object)
    r[:] = out
    return r


def _isin(a, b, *r, **k):
    if _isobj(a) or _isobj(b):
        import z3
        bb = list(np.asarray(b, dtype=object).reshape(-1))
        inv = bool(k.get("invert", False))

        def one(x):
            if not (is_sym(x) or any(is_sym(y) for y in bb)):
                return any(bool(x == y) for y in bb) != inv
            e = z3.simplify(z3.Or(*[core.zb(x == y) for y in bb])) if bb else z3.BoolVal(False)
            return bool(core.mk(e)) != inv
        x = np.asarray(a, dtype=object)
        return np.array([one(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return np.isin(a, b, *r, **k)


OVERRIDES.update({"isin": _isin, "in1d": lambda a, b, **k: _isin(np.asarray(a).reshape(-1), b, **k)})
OVERRIDES.update({"gradient": _gradient, "linspace": _linspace, "diff": _diff, "unique": _unique})


def _fallback(real):
    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = _dt(k["dtype"])
        a = [_dt(v) if isinstance(v, _FMeta) else v for v in a]
        try:
            return _floatarr(real(*a, **k))
        except TypeError:
            if any(has_sym(v) for v in a) or any(has_sym(v) for v in k.values()):
                raise
            a2 = [np.asarray(v, dtype=float) if _isobj(v) else v for v in a]
            return real(*a2, **k)
    return g


class _LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        if callable(real) and not isinstance(real, type):
            return _linalg(n)
        return real


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = _LinalgProxy()

    def __getattr__(self, n):
        if n in OVERRIDES:
            return OVERRIDES[n]
        real = getattr(np, n)
        if isinstance(real, (types.FunctionType, types.BuiltinFunctionType)) or \
                type(real).__name__ == "_ArrayFunctionDispatcher":
            return _fallback(real)
        return real


class MathProxy(types.ModuleType):
    _m = {"sqrt": lambda x: core.sqrt(x), "isnan": lambda x: False, "isinf": lambda x: False,
          "isfinite": lambda x: True, "fabs": abs}

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def g(*a):
            if any(is_sym(v) for v in a):
                if n in self._m:
                    return self._m[n](*a)
                if n == "isclose":
                    return abs(a[0] - a[1]) <= 1e-9 * OVERRIDES["maximum"](abs(a[0]), abs(a[1]))
                if len(a) == 1 and n in ("sin", "cos", "tan", "exp", "log", "tanh", "log10", "log1p"):
                    return core.ufun(n, a[0])
                if n == "prod":
                    pass
            return real(*a)
        return g


NP = NpProxy()
MATH = MathProxy()


def install(prefixes=("kd",), extra_modules=()):
    n = 0
    for name, m in list(sys.modules.items()):
        if m is None or not (name in extra_modules or
                             any(name == p or name.startswith(p + ".") for p in prefixes)):
            continue
        d = getattr(m, "__dict__", None)
        if d is None:
            continue
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            if v is np:
                d[k] = NP
                n += 1
            elif v is np.linalg:
                d[k] = NP.linalg
            elif v is math:
                d[k] = MATH
            elif getattr(v, "__module__", "") is not None and callable(v) and \
                    str(getattr(v, "__module__", "")).split(".")[0] == "numpy" and \
                    getattr(v, "__name__", None) in OVERRIDES and \
                    getattr(np, v.__name__, None) is v:
                d[k] = OVERRIDES[v.__name__]
            elif isinstance(v, np.ufunc) and v.__name__ in OVERRIDES and getattr(np, v.__name__, None) is v:
                d[k] = OVERRIDES[v.__name__]
        d.setdefault("float", symfloat)
        d.setdefault("int", symint)
    return n

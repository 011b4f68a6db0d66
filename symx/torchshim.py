"""a torch look-alike over symbolic numpy object arrays; derivatives are uninterpreted functions D_k"""
import contextlib
import types

import numpy as np
import z3

from . import core
from .core import Sym, is_sym
from .shim import NP, OVERRIDES


BACKWARD = []       # losses differentiated
DERIV = None        # jets.Jets of the running harness: derivatives by the chain rule


class T(np.ndarray):
    """tensor"""
    def __new__(cls, a, tag=None):
        r = np.array(a, dtype=object).view(cls)
        r.tag = tag if tag is not None else getattr(a, "tag", None)
        return r

    def __array_finalize__(self, o):
        self.tag = getattr(o, "tag", None) if o is not None and getattr(o, "shape", None) == self.shape else None

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        r = np.asarray(arr).view(T)
        r.tag = None
        return r

    def cpu(self): return self
    def detach(self): return self
    def clone(self): return T(self, self.tag)
    def numpy(self): return np.asarray(self)
    def to(self, *a, **k): return self
    def float(self):
        return T(np.array([int(v) if isinstance(v, (bool, np.bool_)) else v for v in np.asarray(self).reshape(-1)],
                          dtype=object).reshape(self.shape), self.tag)
    def double(self): return self
    def type(self, *a): return self
    def requires_grad_(self, *a): return self
    def size(self, d=None): return self.shape if d is None else self.shape[d]
    def dim(self): return self.ndim
    def unsqueeze(self, d): return T(np.expand_dims(self, d))
    def squeeze(self, d=None):
        if d is None:
            return np.ndarray.squeeze(self)
        return np.ndarray.squeeze(self, d) if self.ndim and self.shape[d] == 1 else self
    def numel(self): return int(np.prod(self.shape))
    def view(self, *a):
        if a and isinstance(a[0], type):
            return np.ndarray.view(self, *a)
        return self.reshape(*a)
    def transpose(self, *a):
        return np.ndarray.swapaxes(self, *a) if len(a) == 2 else np.ndarray.transpose(self, *a)
    def expand(self, *s):
        return T(np.broadcast_to(np.asarray(self), [d if n == -1 else n for n, d in zip(s, (1,) * (len(s) - self.ndim) + self.shape)]))
    def backward(self): BACKWARD.append(self.item())
    def item(self): return np.asarray(self).reshape(-1)[0]
    def pow(self, n): return T(np.asarray(self) ** n)
    def sum(self, dim=None, axis=None, keepdim=False, **k):
        r = T(np.asarray(self).sum(axis=dim if axis is None else axis, keepdims=keepdim))
        if r.ndim == 0:
            r.parts = np.asarray(self)
        return r
    def mean(self, dim=None, **k): return _t(NP.mean(np.asarray(self), axis=dim))
    def all(self, *a, **k): return bool(np.all([bool(v) for v in np.asarray(self).reshape(-1)]))
    def any(self, *a, **k): return bool(np.any([bool(v) for v in np.asarray(self).reshape(-1)]))
    def min(self): return NP.min(np.asarray(self))
    def max(self): return NP.max(np.asarray(self))

    @property
    def data(self): return self
    @property
    def device(self): return "cpu"
    requires_grad = True
    is_leaf = True


def _t(x):
    return x if isinstance(x, T) else T(x)


def D(v, k):
    """derivative of the quantity v with respect to coordinate k"""
    return core.ufun(f"D{k}", v if is_sym(v) else core.lift(v))


def grad(outputs, inputs, grad_outputs=None, **kw):
    single = not isinstance(inputs, (list, tuple))
    outs = []
    for inp in ([inputs] if single else inputs):
        o = np.asarray(outputs)
        if o.ndim == 0 and (len(inp) > 1 or (DERIV is not None and hasattr(outputs, "parts"))):
            o = outputs.parts
        g = None if grad_outputs is None else np.asarray(grad_outputs).reshape(-1)
        if inp.tag is None and DERIV is None:
            raise RuntimeError("differentiated Tensor not used in the graph")
        r = np.empty(inp.shape, dtype=object)
        if DERIV is not None:
            a = np.asarray(inp).reshape(-1)
            rowwise = getattr(DERIV, "rowwise", False)
            for q in range(len(a)):
                s = 0
                at = divmod(q, inp.shape[-1]) if rowwise else DERIV.coord[str(a[q].e)]
                for c, v in enumerate(o.reshape(-1)):
                    d = DERIV.d(v, *at)
                    s = s + (d if g is None else g[c] * d)
                r.reshape(-1)[q] = s
            outs.append(T(r))
            continue
        flat = o.reshape(len(inp), -1)
        for i in range(len(inp)):
            for j in range(inp.shape[1] if inp.ndim > 1 else 1):
                s = 0
                for c in range(flat.shape[1]):
                    d = D(flat[i, c], inp.tag[j])
                    s = s + (d if g is None else g[i * flat.shape[1] + c] * d)
                if inp.ndim > 1:
                    r[i, j] = s
                else:
                    r[i] = s
        outs.append(T(r))
    return tuple(outs)


def coord(a, tag):
    """an input tensor: column j is coordinate tag[j]"""
    return T(a, tuple(tag))


def _w(f):
    return lambda *a, **k: _t(f(*[np.asarray(x) if isinstance(x, T) else x for x in a], **k))


def softmax1(row):
    """probabilities of one row: uninterpreted functions of all its finite entries, positive and summing to one"""
    row = list(row)
    live = [i for i, v in enumerate(row) if not (not is_sym(v) and v == -np.inf)]
    if not live:
        raise ValueError("softmax over nothing")
    if len(live) == 1:
        return [1.0 if i in live else 0.0 for i in range(len(row))]
    ps = [core.ufun(f"softmax{len(row)}_{''.join(map(str, live))}_{i}", *[row[j] for j in live]) for i in live]
    core.CUR.assume(z3.And(*[core.zr(p) > 0 for p in ps], z3.Sum(*[core.zr(p) for p in ps]) == 1), check=False)
    return [ps[live.index(i)] if i in live else 0.0 for i in range(len(row))]


def _rows(a, dim, f):
    b = np.moveaxis(a, dim, -1)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = f(b[i])
    return np.moveaxis(out, -1, dim)


def one_hot(a, num_classes):
    a = np.asarray(a)
    out = np.zeros(a.shape + (num_classes,), dtype=object)
    for i in np.ndindex(*a.shape):
        out[i + (int(a[i]),)] = 1
    return T(out)


def embedding(a, w):
    return T(w.detach().numpy()[np.asarray(a, dtype=int)])


F = types.SimpleNamespace(one_hot=one_hot, embedding=embedding, log_softmax=lambda a, dim=-1: TORCH.log_softmax(a, dim))


class TorchProxy(types.ModuleType):
    def __init__(self):
        super().__init__("torch")
        self.autograd = types.SimpleNamespace(grad=grad)
        self.nn = __import__("torch").nn

    add = staticmethod(_w(lambda a, b: a + b))
    subtract = sub = staticmethod(_w(lambda a, b: a - b))
    multiply = mul = staticmethod(_w(lambda a, b: a * b))
    divide = div = staticmethod(_w(NP.divide))
    square = staticmethod(_w(lambda a: a * a))
    pow = staticmethod(_w(lambda a, n: a ** n))
    abs = staticmethod(_w(NP.abs))
    sin = staticmethod(_w(NP.sin))
    cos = staticmethod(_w(NP.cos))
    exp = staticmethod(_w(NP.exp))
    sinh = staticmethod(_w(NP.sinh))
    cosh = staticmethod(_w(NP.cosh))
    tan = staticmethod(_w(NP.tan))
    tanh = staticmethod(_w(NP.tanh))
    log = staticmethod(_w(NP.log))
    sqrt = staticmethod(_w(NP.sqrt))
    where = staticmethod(_w(NP.where))
    isnan = staticmethod(_w(NP.isnan))
    isfinite = staticmethod(_w(NP.isfinite))
    isinf = staticmethod(_w(NP.isinf))
    mean = staticmethod(lambda *a, **k: TorchProxy._mean(*a, **k))
    sum = staticmethod(_w(lambda a, dim=None, axis=None, keepdim=False: np.sum(a, axis=dim if axis is None else axis, keepdims=keepdim)))
    _mean = staticmethod(_w(lambda a, dim=None, axis=None: NP.mean(a, axis=dim if axis is None else axis)))
    max = staticmethod(_w(NP.max))

    @staticmethod
    def ones(*s, **k):
        return T(np.ones(s[0] if len(s) == 1 and not isinstance(s[0], int) else s).astype(object))

    @staticmethod
    def zeros(*s, **k):
        return T(np.zeros(s[0] if len(s) == 1 and not isinstance(s[0], int) else s).astype(object))

    @staticmethod
    def ones_like(a, **k):
        return T(np.ones(a.shape).astype(object))

    @staticmethod
    def zeros_like(a, **k):
        return T(np.zeros(a.shape).astype(object))

    @staticmethod
    def is_tensor(a):
        return isinstance(a, T)

    @staticmethod
    def cat(ts, dim=0, **k):
        return _t(np.concatenate([np.asarray(t) for t in ts], axis=k.get("axis", dim)))

    concat = concatenate = cat

    @staticmethod
    def stack(ts, dim=0):
        return _t(np.stack([np.asarray(t) for t in ts], axis=dim))

    @staticmethod
    def softmax(a, dim=-1):
        return T(_rows(np.asarray(a), dim, softmax1))

    @staticmethod
    def log_softmax(a, dim=-1):
        return T(_rows(np.asarray(a), dim, lambda r: [core.ufun("log", p) if is_sym(p) else (0.0 if p == 1 else -np.inf)
                                                      for p in softmax1(r)]))

    @staticmethod
    def topk(a, k, **kw):
        a = list(np.asarray(a).reshape(-1))
        if k > len(a):
            raise RuntimeError("selected index k out of range")
        o = []
        for i in range(len(a)):
            p = len(o)
            while p and bool(a[i] > a[o[p - 1]]):
                p -= 1
            o.insert(p, i)
        o = o[:k]
        return types.SimpleNamespace(indices=T(np.array(o)), values=T(np.array([a[i] for i in o], dtype=object)))

    @staticmethod
    def arange(*a, **k):
        return T(np.arange(*a))

    @staticmethod
    def logical_or(a, b):
        return T(np.array([bool(x) or bool(y) for x, y in zip(*[v.reshape(-1) for v in np.broadcast_arrays(np.asarray(a), np.asarray(b))])],
                          dtype=object).reshape(np.broadcast_shapes(np.shape(a), np.shape(b))))

    logical_and = staticmethod(_w(lambda a, b: np.logical_and(a, b)))

    @staticmethod
    def from_numpy(a):
        return T(a)

    @staticmethod
    def tensor(a, **k):
        return T(a)

    as_tensor = tensor
    Tensor = T

    def __getattr__(self, n):
        return getattr(__import__("torch"), n)


TORCH = TorchProxy()


@contextlib.contextmanager
def install(*modules):
    import torch
    import torch.nn.functional as RF
    saved = []
    for m in modules:
        for k, v in list(vars(m).items()):
            if v is torch or v is RF:
                saved.append((m, k, v))
                setattr(m, k, TORCH if v is torch else F)
    try:
        yield TORCH
    finally:
        global DERIV
        DERIV = None
        for m, k, v in saved:
            setattr(m, k, v)


def token_function(f):
    """stand-in of a torch function captured by a token"""
    import torch
    for n in ("add", "subtract", "multiply", "divide", "square", "sin", "cos", "exp", "pow"):
        if f is getattr(torch, n):
            return getattr(TORCH, n)
    return f

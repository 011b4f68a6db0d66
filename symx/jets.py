"""smooth fields as jets: at every sample point all partial derivatives of a field are independent symbolic reals.

`J.net` is the field as the code calls it (a stand-in of a network); torch.autograd.grad of anything computed from it
is obtained by the chain rule on the z3 term (symbolically) or by torch itself on the Taylor polynomial (replay).
"""
import math
from itertools import product

import numpy as np
import z3

from . import core
from .core import Sym

FUN = {"sin": lambda a: core.ufun("cos", a), "cos": lambda a: -core.ufun("sin", a), "exp": lambda a: core.ufun("exp", a)}


class Jets:
    def __init__(self, I, npts, dim, order=6, nout=1, lo=None, hi=None, xlo=None, xhi=None, name="j"):
        self.I, self.n, self.dim, self.order, self.nout = I, npts, dim, order, nout
        self.name, self.lo, self.hi = name, lo, hi
        self.x = I.array(name + "x", (npts, dim), xlo, xhi)
        self.vals, self.byname = {}, {}
        if I.symbolic:
            self.coord = {str(self.x[i, k].e): (i, k) for i in range(npts) for k in range(dim)}
        self.cache = {}

    # -- values ----------------------------------------------------------
    def jet(self, i, alpha, f=0):
        key = (f, i, tuple(alpha))
        if key not in self.vals:
            lo, hi = (self.lo, self.hi) if sum(alpha) == 0 else (None, None)
            v = self.I.real(f"{self.name}{f}_{i}_{''.join(map(str, alpha))}", lo, hi)
            self.vals[key] = v
            if self.I.symbolic:
                self.byname[str(v.e)] = key
        return self.vals[key]

    def database(self):
        """the (n, dim) tensor of sample points"""
        if self.I.symbolic:
            from . import torchshim
            torchshim.DERIV = self
            return torchshim.coord(self.x, range(self.dim))
        import torch
        return torch.tensor(self.x, dtype=torch.float64, requires_grad=True)

    def net(self, db):
        if self.I.symbolic:
            from . import torchshim
            a = np.empty((len(db), self.nout), dtype=object)
            for r in range(len(db)):
                at = {self.coord.get(str(z3.simplify(core.zr(db[r, k]))), (-1, -1)) for k in range(self.dim)}
                i = next(iter(at))[0]
                if i < 0 or len(at) != self.dim or any(p != i for p, _ in at):
                    self.I.fail("the field is evaluated at a point of the data")
                for f in range(self.nout):
                    a[r, f] = self.jet(i, (0,) * self.dim, f)
            return torchshim.T(a)
        import torch
        at = []
        for r in range(len(db)):
            q = db[r].detach().double().numpy()
            err = np.abs(np.asarray(self.x, dtype=float) - q).max(axis=1)
            at.append(int(np.argmin(err)))
            if err[at[-1]] > 1e-4:
                self.I.fail("the field is evaluated at a point of the data")
        cols = []
        for f in range(self.nout):
            rows = []
            for r, i in enumerate(at):
                dx = db[r] - torch.tensor(self.x[i], dtype=torch.float64)
                s = 0
                for al in product(range(self.order + 1), repeat=self.dim):
                    if sum(al) > self.order:
                        continue
                    c = self.jet(i, al, f)
                    t = torch.tensor(c / math.prod(math.factorial(a) for a in al), dtype=torch.float64)
                    for k, a in enumerate(al):
                        if a:
                            t = t * dx[k] ** a
                    s = s + t
                rows.append(s)
            cols.append(torch.stack(rows) if rows else db[:, 0] * 0)
        return torch.stack(cols, dim=1)

    # -- differentiation ---------------------------------------------------
    def d(self, v, i, k):
        """derivative of the term v with respect to coordinate k of point i"""
        if not isinstance(v, Sym):
            return 0
        r = self._d(v.e, i, k)
        return core.mk(r) if z3.is_expr(r) else r

    def _d(self, e, i, k):
        key = (e.get_id(), i, k)
        if key not in self.cache:
            self.cache[key] = (e, self._d1(e, i, k))
        return self.cache[key][1]

    def _d1(self, e, i, k):
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return 0
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if not ch:
                if nm in self.coord:
                    return z3.RealVal(1) if self.coord[nm] == (i, k) else 0
                if nm in self.byname:
                    f, p, al = self.byname[nm]
                    if p != i:
                        return 0
                    al = tuple(a + (1 if q == k else 0) for q, a in enumerate(al))
                    return self.jet(p, al, f).e
                return 0
            if nm.split("!")[0] in FUN and len(ch) == 1:
                da = self._d(ch[0], i, k)
                return 0 if isinstance(da, int) else core.zr(FUN[nm.split("!")[0]](Sym(ch[0]))) * da
            if all(isinstance(self._d(c, i, k), int) for c in ch):
                return 0
            raise core.SymxError(f"derivative of {nm}")
        if kind == z3.Z3_OP_TO_REAL:
            return self._d(ch[0], i, k)
        ds = [self._d(c, i, k) for c in ch]
        z = [isinstance(x, int) for x in ds]
        if all(z) and kind != z3.Z3_OP_ITE:
            return 0
        R = [z3.RealVal(0) if b else x for x, b in zip(ds, z)]
        if kind == z3.Z3_OP_ADD:
            return z3.Sum(*[x for x, b in zip(ds, z) if not b])
        if kind == z3.Z3_OP_SUB:
            r = R[0]
            for x in R[1:]:
                r = r - x
            return r
        if kind == z3.Z3_OP_UMINUS:
            return -R[0]
        if kind == z3.Z3_OP_MUL:
            s = []
            for q in range(len(ch)):
                if not z[q]:
                    t = ds[q]
                    for w in range(len(ch)):
                        if w != q:
                            t = t * core.realsort(ch[w])
                    s.append(t)
            return z3.Sum(*s) if len(s) > 1 else s[0]
        if kind == z3.Z3_OP_DIV:
            a, b = core.realsort(ch[0]), core.realsort(ch[1])
            if z[1]:
                return R[0] / b
            return (R[0] * b - a * R[1]) / (b * b)
        if kind == z3.Z3_OP_ITE:
            da, db = self._d(ch[1], i, k), self._d(ch[2], i, k)
            if isinstance(da, int) and isinstance(db, int):
                return 0
            return z3.If(ch[0], z3.RealVal(0) if isinstance(da, int) else da, z3.RealVal(0) if isinstance(db, int) else db)
        raise core.SymxError(f"derivative of {e.decl()}")


# -- reference: differential expressions ---------------------------------------
class E:
    """differential expression over one field u and the coordinates"""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def d(self, k):
        o, a = self.op, self.a
        if o == "c":
            return E("c", 0)
        if o == "x":
            return E("c", 1 if a[0] == k else 0)
        if o == "u":
            return E("u", tuple(v + (q == k) for q, v in enumerate(a[0])))
        if o == "+":
            return E("+", a[0].d(k), a[1].d(k))
        if o == "*":
            return E("+", E("*", a[0].d(k), a[1]), E("*", a[0], a[1].d(k)))
        if o == "^":
            return E("*", E("*", E("c", a[1]), E("^", a[0], a[1] - 1)), a[0].d(k))
        if o == "f":
            g = {"sin": E("f", "cos", a[1]), "exp": self}[a[0]]
            return E("*", g, a[1].d(k))
        raise ValueError(o)

    def val(self, J, i):
        o, a = self.op, self.a
        if o == "c":
            return a[0]
        if o == "x":
            return J.x[i, a[0]]
        if o == "u":
            return J.jet(i, a[0])
        if o == "+":
            return a[0].val(J, i) + a[1].val(J, i)
        if o == "*":
            l, r = a[0].val(J, i), a[1].val(J, i)
            if any(isinstance(v, (int, float)) and v == 0 for v in (l, r)):
                return 0
            return l * r
        if o == "^":
            v = a[0].val(J, i)
            return v ** a[1] if a[1] >= 0 else 1 / v ** (-a[1])
        if o == "f":
            v = a[1].val(J, i)
            if isinstance(v, Sym):
                return core.sqrt(v) if a[0] == "sqrt" else core.ufun(a[0], v)
            return getattr(math, a[0])(v)
        raise ValueError(o)

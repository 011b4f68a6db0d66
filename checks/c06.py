"""C06: a declared structural constraint masks exactly the tokens it is declared to forbid"""
import contextlib
import io

import numpy as np

from symx.runner import H
from . import disco
from .disco import Tree, int_objects, quiet_ctx, tok_array

ASSUMPTIONS = ["numba is switched off in the symbolic run (same Python source); replays run it compiled",
               "libraries as listed in the parameters; token sequences symbolic"]
LIBS = {
    "A": ["add", "sub", "mul", "div", "diff", "diff2", "n2", "n3", "u1", "x1", "const"],
    "B": ["add", "mul", "diff", "sin", "cos", "exp", "log", "sqrt", "n2", "u1", "x1", "x2"],
    "C": ["x1", "u1", "u2", "p1", "mul", "add", "Diff", "Diff2", "lap", "n2"],
    "D": ["u1", "add", "mul", "n2", "laplacian", "adv", "ddx", "ddy"],
}


def load():
    return disco.load_disco()


def make(M, lib, cfg):
    with quiet_ctx():
        return M.prior.make_prior(lib, {k: dict(v) for k, v in cfg.items()})


def names_to(lib, ns):
    return [lib.names.index(n) for n in ns]


class Ctx:
    """reference context of the next element"""

    def __init__(self, I, lib, toks, ars):
        self.I, self.lib, self.toks = I, lib, toks
        self.tr = Tree(ars)
        self.par = self.tr.next_parent
        self.slot = self.tr.next_slot
        self.sib = self.tr.next_sibling()
        self.anc = self.tr.next_ancestors()

    def inn(self, idx, group):
        """token at position idx is in the group"""
        I = self.I
        if idx is None or not group:
            return False
        return I.any([I.same(self.toks[idx], g) for g in group])


def ref_rel(c, targets, effectors, rel, k):
    """is token k forbidden as the next element?"""
    I, lib = c.I, c.lib
    un = [e for e in effectors if lib.tokens[e].arity == 1]
    if rel == "child":
        return c.inn(c.par, effectors) if k in targets else False
    if rel == "lchild":
        return c.inn(c.par, effectors) if (k in targets and c.slot == 0) else False
    if rel == "rchild":
        return c.inn(c.par, effectors) if (k in targets and c.slot == 1) else False
    if rel == "sibling":
        a = c.inn(c.sib, effectors) if k in targets else False
        b = c.inn(c.sib, targets) if k in effectors else False
        return I.any([a, b])
    if rel == "uchild":
        if k not in targets:
            return False
        return I.any([c.inn(c.par, un), I.all([c.inn(c.sib, targets), c.inn(c.par, effectors)])])
    if rel == "descendant":
        if k not in targets:
            return False
        return I.any([False] + [c.inn(a, effectors) for a in c.anc])
    raise ValueError(rel)


def setup(I, M, lib_name, n, complete=False):
    lib = disco.mklib(M, LIBS[lib_name], sym=I.symbolic)
    toks, ars, d = [], [], 1
    for i in range(n):
        t = I.int(f"t{i}", 0, lib.L - 1)
        a = int(lib.arities[t])
        toks.append(t)
        ars.append(a)
        d += a - 1
        I.require(d == 0 if (complete and i == n - 1) else d > 0)
    return lib, toks, ars, d


def call(I, M, lib, prior, toks, d, extra_row=None):
    n = len(toks)
    A = tok_array(I, toks, (1, n))
    with int_objects(I), disco.program_ctx(M, lib):
        p, s = M.subs.parents_siblings(A, lib.arities, lib.parent_adjust, lib.EMPTY_PARENT, lib.EMPTY_SIBLING)
        m = prior(A, p, s, np.array([d], dtype=np.float64))
    return np.asarray(m)


def compare(I, lib, m, ref, label):
    for k in range(lib.L):
        v = m[0, k] if m.ndim == 2 else m[k]
        I.check(v == 0 or v == -np.inf, f"{label}: mask values")
        r = ref(k)
        I.check(r if v == -np.inf else I.not_(r), f"{label}: token {lib.names[k]} masked exactly when declared")


def relational(I, M, lib, n, targets, effectors, rel):
    """relational rules: masked tokens are exactly those that would violate"""
    lb, toks, ars, d = setup(I, M, lib, n)
    with disco.program_ctx(M, lb):
        prior = make(M, lb, {"relational": dict(targets=targets, effectors=effectors, relationship=rel, on=True)})
    m = call(I, M, lb, prior, toks, d)
    c = Ctx(I, lb, toks, ars)
    T, E = names_to(lb, targets), names_to(lb, effectors)
    compare(I, lb, m, lambda k: ref_rel(c, T, E, rel, k), rel)


def diffs(lb):
    return [i for i, t in enumerate(lb.names) if "diff" in t.lower()]


def declared(lb, kind, args):
    """(targets, effectors, relationship) each named constraint stands for"""
    nm = lb.names
    term = [i for i, t in enumerate(lb.tokens) if t.arity == 0]
    const = [nm.index("const")] if "const" in nm else []
    inputs = [i for i, t in enumerate(lb.tokens) if t.input_var is not None]
    trig = [i for i, x in enumerate(nm) if x in ("sin", "cos", "tan") or "diff" in x.lower()]
    nonterm = [i for i, t in enumerate(lb.tokens) if t.arity > 0]
    if kind == "trig":
        return trig, trig, "descendant"
    if kind == "const":
        return const, nonterm, "uchild"
    if kind == "diff_left":
        return const + inputs, diffs(lb), "lchild"
    if kind == "diff_left_strict":
        return ([i for i, t in enumerate(lb.tokens) if t.state_var is None and i not in diffs(lb)], diffs(lb), "lchild")
    if kind == "diff_right":
        return nonterm + [i for i in term if i not in inputs], diffs(lb), "rchild"
    if kind == "diff_descedent":
        return [i for i, x in enumerate(nm) if x in ("add", "sub", "const") or x in args.get("extra", [])], diffs(lb), "descendant"
    if kind == "diff_descedent2":
        return ([i for i, x in enumerate(nm) if x in ("n2", "n3", "n4", "mul", "div", "exp", "log", "sin", "cos", "const")],
                diffs(lb), "descendant")
    if kind == "laplace_child":
        return ([i for i, t in enumerate(lb.tokens) if t.state_var is None], [i for i, x in enumerate(nm) if "lap" in x], "uchild")
    if kind == "subgrid_des_constraint":
        return [nm.index("add")], names_to(lb, ["laplacian", "adv", "ddx", "ddy"]), "descendant"
    if kind == "subgrid_des_constraint2":
        return [nm.index("laplacian")], names_to(lb, ["adv"]), "descendant"
    raise ValueError(kind)


def named(I, M, lib, n, kind, args={}):
    """the named derivative rules"""
    lb, toks, ars, d = setup(I, M, lib, n)
    with disco.program_ctx(M, lb):
        prior = make(M, lb, {kind: dict(on=True, **args)})
    I.check(len(prior.priors) == 1, "constraint is enabled")
    m = call(I, M, lb, prior, toks, d)
    c = Ctx(I, lb, toks, ars)
    T, E, rel = declared(lb, kind, args)
    compare(I, lb, m, lambda k: ref_rel(c, T, E, rel, k), kind)


def inverse(I, M, lib, n):
    """inverse pairs"""
    lb, toks, ars, d = setup(I, M, lib, n)
    with disco.program_ctx(M, lb):
        prior = make(M, lb, {"inverse": dict(on=True)})
    m = call(I, M, lb, prior, toks, d)
    c = Ctx(I, lb, toks, ars)
    pairs = [("exp", "log"), ("log", "exp"), ("sqrt", "n2"), ("n2", "sqrt"), ("neg", "neg"), ("inv", "inv")]
    pairs = [(lb.names.index(a), lb.names.index(b)) for a, b in pairs if a in lb.names and b in lb.names]
    compare(I, lb, m, lambda k: I.any([False] + [c.inn(c.par, [b]) for a, b in pairs if a == k]), "inverse")


def repeat(I, M, lib, n, tokens, mx):
    """minimum and maximum counts"""
    lb, toks, ars, d = setup(I, M, lib, n)
    with disco.program_ctx(M, lb):
        prior = make(M, lb, {"repeat": dict(on=True, tokens=tokens, min_=None, max_=mx)})
        m = call(I, M, lb, prior, toks, d)
    T = names_to(lb, tokens if isinstance(tokens, list) else [tokens])
    cnt = 0
    for t in toks:
        cnt = cnt + I.ite(I.any([I.same(t, g) for g in T]), 1, 0)
    compare(I, lb, m, lambda k: (cnt >= mx) if k in T else False, "repeat")


def no_inputs(I, M, lib, n):
    """at least one input token"""
    lb, toks, ars, d = setup(I, M, lib, n)
    with disco.program_ctx(M, lb):
        prior = make(M, lb, {"no_inputs": dict(on=True)})
    m = call(I, M, lb, prior, toks, d)
    st = [i for i, t in enumerate(lb.tokens) if t.state_var is not None]
    none = I.all([I.not_(I.same(t, s)) for t in toks for s in st])
    compare(I, lb, m, lambda k: none if (d == 1 and lb.tokens[k].arity == 0 and k not in st) else False, "no_inputs")


def joint(I, M, lib, n, cfg):
    """several constraints together: forbidden iff any of them forbids; rows of a batch are independent"""
    lb, toks, ars, d = setup(I, M, lib, n)
    with disco.program_ctx(M, lb):
        both = make(M, lb, cfg)
        singles = [make(M, lb, {k: v}) for k, v in cfg.items()]
    ms = [call(I, M, lb, p, toks, d) for p in singles]
    m = call(I, M, lb, both, toks, d)
    for k in range(lb.L):
        I.check((m[0, k] == -np.inf) == any(x[0, k] == -np.inf for x in ms), "joint mask is the union")
    m0 = np.asarray(both.initial_prior())
    one = [q for p in singles for q in p.priors]
    for k in range(lb.L):
        I.check((m0[k] == -np.inf) == any(np.asarray(q.initial_prior())[k] == -np.inf for q in one), "initial mask")
        leaf = lb.tokens[k].arity == 0
        bad = leaf and (cfg.get("length", {}).get("min_", 0) > 1 or "no_inputs" in cfg and lb.tokens[k].state_var is None)
        I.check((m0[k] == -np.inf) == bool(bad), "the first token may be anything, except an end that breaks a rule")


def after_the_fact(I, M, lib, n, cfg):
    """checking a complete sequence afterwards agrees with the masks seen while it was built"""
    lb, toks, ars, d = setup(I, M, lib, n, complete=True)
    with disco.program_ctx(M, lb):
        prior = make(M, lb, cfg)
        A = tok_array(I, toks, (1, n))
        with int_objects(I), quiet_ctx():
            P, S = M.subs.jit_parents_siblings_at_once(A, lb.arities, lb.parent_adjust)
            once = np.asarray(prior.at_once(A, P, S))
    bad = []
    with disco.program_ctx(M, lb):
        for i in range(n):
            if i == 0:
                m = np.asarray(prior.initial_prior()).reshape(1, -1)
            else:
                dd = 1 + sum(a - 1 for a in ars[:i])
                m = call(I, M, lb, prior, toks[:i], dd)
            for k in range(lb.L):
                I.check(bool(once[0, i, k] == m[0, k]), f"mask at step {i} computed retrospectively")
            bad.append(I.any([False] + [I.same(toks[i], k) for k in range(lb.L) if m[0, k] == -np.inf]))
        with int_objects(I), quiet_ctx():
            v = prior.is_violated(A, P, S)
            ref = I.any(bad)
            if len(prior.priors) == 1 and n <= 3:
                g = prior.priors[0].test_is_violated(A, P, S)
                I.check(ref if bool(g) else I.not_(ref), "generic violation test agrees")
                I.check(prior.priors[0].mask_val == -np.inf, "checking leaves the constraint as it was")
    I.check(ref if bool(v) else I.not_(ref), "violation found iff some chosen token was forbidden")


R = []
for rel, t, e in [("child", ["mul", "u1"], ["diff", "n2"]), ("lchild", ["const", "x1", "add"], ["diff", "diff2"]),
                  ("rchild", ["u1", "mul"], ["diff", "div"]), ("sibling", ["u1", "n2"], ["x1", "mul"]),
                  ("uchild", ["const", "x1"], ["n2", "mul", "diff"]), ("descendant", ["add", "n3"], ["diff", "n2"])]:
    R += [{"lib": "A", "n": n, "targets": t, "effectors": e, "rel": rel} for n in (1, 2, 3)]
RT = [dict(p, n=n) for p in R[::3] for n in (4, 5)]
NM = [("B", "trig", {}), ("A", "const", {}), ("A", "diff_left", {}), ("C", "diff_left", {}), ("A", "diff_left_strict", {}),
      ("C", "diff_left_strict", {}), ("A", "diff_right", {}), ("C", "diff_right", {}), ("A", "diff_descedent", {}),
      ("C", "diff_descedent", {}), ("A", "diff_descedent", {"extra": ["n3"]}), ("A", "diff_descedent2", {}), ("B", "diff_descedent2", {}),
      ("C", "laplace_child", {"extras": []}), ("D", "subgrid_des_constraint", {}), ("D", "subgrid_des_constraint2", {})]
CFG = {"A": {"diff_left": {"on": True}, "diff_right": {"on": True}, "diff_descedent": {"on": True},
             "repeat": {"on": True, "tokens": ["diff", "diff2"], "max_": 1}, "const": {"on": True}},
       "B": {"inverse": {"on": True}, "trig": {"on": True}, "length": {"on": True, "min_": 3, "max_": 6},
             "no_inputs": {"on": True}}}
VIO = [{"relational": dict(on=True, targets=["add", "n3"], effectors=["diff"], relationship="descendant")},
       {"relational": dict(on=True, targets=["add"], effectors=["diff", "n2"], relationship="descendant")},
       {"relational": dict(on=True, targets=["mul", "u1"], effectors=["diff", "n2"], relationship="child")},
       {"relational": dict(on=True, targets=["u1"], effectors=["x1"], relationship="sibling")},
       {"const": {"on": True}}, {"diff_left": {"on": True}}, {"diff_right": {"on": True}}, {"diff_descedent": {"on": True}},
       {"repeat": {"on": True, "tokens": ["u1"], "max_": 1}},
       {"relational": dict(on=True, targets=["diff"], effectors=["diff"], relationship="descendant")},
       {"relational": dict(on=True, targets=["mul", "n2"], effectors=["mul", "n2"], relationship="descendant")},
       {"relational": dict(on=True, targets=["u1", "x1"], effectors=["n2", "mul"], relationship="uchild")},
       {"length": {"on": True, "min_": 3, "max_": 4}}, {"length": {"on": True, "min_": 2, "max_": 3}},
       {"no_inputs": {"on": True}},
       {"no_inputs": {"on": True}, "length": {"on": True, "min_": 2, "max_": 3}, "diff_right": {"on": True}}]
HARNESSES = [
    H(relational, R, thorough=RT, bounds="every open prefix of n tokens, 11-token library"),
    H(named, [{"lib": l, "n": n, "kind": k, "args": a} for l, k, a in NM for n in (1, 2, 3)],
      thorough=[{"lib": l, "n": 4, "kind": k, "args": a} for l, k, a in NM], bounds="every open prefix of n tokens"),
    H(inverse, [{"lib": "B", "n": n} for n in (1, 2, 3)], thorough=[{"lib": "B", "n": 4}], bounds="every open prefix of n tokens"),
    H(repeat, [{"lib": "A", "n": n, "tokens": t, "mx": m} for n in (2, 4) for t, m in ((["u1", "diff"], 1), ("const", 2), (["add", "mul"], 2))],
      bounds="every open prefix of n tokens"),
    H(no_inputs, [{"lib": l, "n": n} for l in "BC" for n in (1, 2, 4)], thorough=[{"lib": "C", "n": 6}], bounds="every open prefix of n tokens"),
    H(joint, [{"lib": l, "n": n, "cfg": CFG[l]} for l in "AB" for n in (1, 2, 3)], bounds="every open prefix of n tokens"),
    H(after_the_fact, [{"lib": "A", "n": n, "cfg": c} for c in VIO for n in (3, 4)] +
      [{"lib": "B", "n": n, "cfg": c} for c in ({"trig": {"on": True}}, {"inverse": {"on": True}}) for n in (3, 4)] +
      [{"lib": l, "n": n, "cfg": {"no_inputs": {"on": True}}} for l in "BC" for n in (1, 2, 3)],
      thorough=[{"lib": "A", "n": 5, "cfg": c} for c in VIO], bounds="every complete sequence of n tokens"),
]

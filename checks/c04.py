"""C04: any token sequence becomes exactly one complete expression; programs keep their own constants"""
import pickle

import numpy as np

from symx.runner import H
from . import disco
from .disco import Tree, quiet_ctx, tok_array
from .env import fake_numpy_random

ASSUMPTIONS = ["np.random.choice replaced by an arbitrary choice"]
A = ["add", "mul", "diff", "n2", "u1", "x1"]
B = ["u1", "u2", "mul", "n3", "sub"]
C = ["add", "n2", "u1", "x1", "const", "mul"]


def load():
    return disco.load_disco()


def finish(I, M, names, n, k):
    """k expressions per program"""
    lib = disco.mklib(M, names, sym=I.symbolic)
    toks = [I.int(f"t{i}", 0, lib.L - 1) for i in range(n)]
    with disco.program_ctx(M, lib, n_objects=k), fake_numpy_random(I) as rng:
        try:
            out = M.program._finish_tokens(tok_array(I, toks))
        except AssertionError:
            I.check(k > 1, "only multi-expression programs may be refused")
            return
    out = list(out)
    # the sequence as k consecutive trees
    ars = [int(lib.arities[t]) for t in out]
    pos, trees = 0, 0
    while pos < len(out):
        tr = Tree(ars[pos:])
        I.check(tr.complete_at is not None, "result is complete")
        pos += tr.complete_at
        trees += 1
    I.check(trees == k, "exactly the requested number of expressions, nothing after them")
    for i in range(min(n, len(out))):
        I.eq(out[i], toks[i], f"token {i} kept")
    if len(out) > n:
        for t in out[n:]:
            I.check(I.any([I.same(t, int(g)) for g in lib.input_tokens]), "completed with input variables only")


def program_of(I, M, names, n, tag="t"):
    lib = disco.mklib(M, names)
    toks = [int(I.int(f"{tag}{i}", 0, lib.L - 1)) for i in range(n)]
    return lib, toks


def cache(I, M, names, n, m):
    """one program object per token sequence; equal sequences share, different ones never"""
    lib, a = program_of(I, M, names, n, "a")
    _, b = program_of(I, M, names, m, "b")
    with disco.program_ctx(M, lib) as P, fake_numpy_random(I):
        pa = M.program.from_tokens(np.array(a, dtype=np.int32))
        pb = M.program.from_tokens(np.array(b, dtype=np.int32), on_policy=False)
        I.check((pa is pb) == (list(pa.tokens) == list(pb.tokens)), "same expression, same program object")
        I.check([t.name for t in pa.traversal] == [lib.names[i] for i in pa.tokens], "traversal follows the tokens")
        I.check(pa.on_policy_count == 1 and pb.off_policy_count == 1 and pa.off_policy_count == (1 if pb is pa else 0),
                "sample counters")
        pc = M.program.from_tokens(np.array(pa.tokens, dtype=np.int32))
        I.check(pc is pa and pa.on_policy_count == 2, "cache hit counts")
        ps = M.program.from_tokens(np.array(pa.tokens, dtype=np.int32), skip_cache=True)
        I.check(ps is not pa and list(ps.tokens) == list(pa.tokens), "cache can be bypassed")
        names_ = ",".join(lib.names[i] for i in pa.tokens)
        I.check(M.program.from_str_tokens(names_) is pa, "building from names gives the same program")
        I.check(repr(ps).count(",") == len(ps.tokens) - 1, "printed traversal length")
        P.clear_cache()
        I.check(M.program.from_tokens(np.array(pa.tokens, dtype=np.int32)) is not pa, "cleared cache forgets")


def constants(I, M, names, n):
    """literals are attached in reading order"""
    lib, toks = program_of(I, M, names, n)
    with disco.program_ctx(M, lib), fake_numpy_random(I):
        p = M.program.from_tokens(np.array(toks, dtype=np.int32), skip_cache=True)
        q = M.program.from_tokens(np.array(p.tokens, dtype=np.int32), skip_cache=True)
        k = [i for i, t in enumerate(p.tokens) if lib.names[t] == "const"]
        I.check(list(p.const_pos) == k, "constant positions")
        cp = [I.real(f"c{i}") for i in range(len(k))]
        cq = [I.real(f"d{i}") for i in range(len(k))]
        p.set_constants(cp)
        q.set_constants(cq)

        def val(t):
            return np.asarray(t.value, dtype=object).reshape(-1)[0]
        for j, i in enumerate(k):
            I.eq(val(p.traversal[i]), cp[j], "own constant")
            I.eq(val(q.traversal[i]), cq[j], "own constant (second program)")
        for i in range(len(p.traversal)):
            if i not in k:
                I.check(p.traversal[i] is lib[int(p.tokens[i])], "other tokens untouched")
        I.check(lib.const_token is None or lib[lib.const_token].value is None, "library constant untouched")
        if I.concrete:
            g = p.get_constants()
            I.check(len(g) == len(k), "get_constants length")
            for j in range(len(k)):
                I.eq(g[j], cp[j], "get_constants")


def from_strings(I, M, n):
    """names and float literals, in order; unknown names refused"""
    lib = disco.mklib(M, C)
    words = ["add", "n2", "u1", "x1", "1.5", "-2", "3e-1", "bogus"]
    ws = [words[int(I.int(f"w{i}", 0, len(words) - 1))] for i in range(n)]
    ok = "bogus" not in ws
    with disco.program_ctx(M, lib), fake_numpy_random(I):
        try:
            p = M.program.from_str_tokens(list(ws), skip_cache=True)
        except ValueError:
            I.check(not ok, "only unknown names are refused")
            return
        except IndexError:
            # more literals than the completed expression holds
            tr = Tree([{"add": 2, "n2": 1}.get(w, 0) for w in ws])
            I.check(tr.complete_at is not None and tr.complete_at < n, "every literal of the expression is used")
            return
    I.check(ok, "unknown name accepted")
    tr = Tree([{"add": 2, "n2": 1}.get(w, 0) for w in ws])
    m = tr.complete_at or n
    for i in range(m):
        t = p.traversal[i]
        if ws[i][0] in "-13":
            I.eq(float(np.asarray(t.value).reshape(-1)[0]), float(ws[i]), "literal in its place")
        else:
            I.check(t.name == ws[i], "name in its place")


def roundtrip(I, M, names, n):
    """a pickled program comes back as the same expression with the same constants and reward"""
    lib, toks = program_of(I, M, names, n)
    inv = bool(I.bool("invalid"))
    ev = bool(I.bool("evaluated"))
    with disco.program_ctx(M, lib), fake_numpy_random(I):
        p = M.program.from_tokens(np.array(toks, dtype=np.int32), skip_cache=True, on_policy=bool(I.bool("on")))
        k = len(p.const_pos)
        p.set_constants([1.25 * (i + 1) for i in range(k)])
        if ev:
            p.r = 0.75
            p.evaluate = {"nmse": 0.5}
        if inv:
            p.invalid, p.error_node, p.error_type = True, "div", "overflow"
        q = pickle.loads(pickle.dumps(p))
        I.check(list(q.tokens) == list(p.tokens), "tokens survive")
        I.check([t.name for t in q.traversal] == [t.name for t in p.traversal], "expression survives")
        I.check(q.originally_on_policy == p.originally_on_policy, "origin survives")
        if ev:
            I.check(q.get_constants() == p.get_constants(), "constants survive")
            I.check(q.r == p.r and q.evaluate == p.evaluate, "reward and evaluation survive")
            I.check(q.invalid == p.invalid, "validity survives")
            if inv:
                I.check((q.error_node, q.error_type) == ("div", "overflow"), "failure reason survives")


def switch(I, M, n):
    """switching to the differentiable back end renames operators only"""
    names = ["add", "mul", "n2", "diff", "u1", "x1", "const", "div"]
    lib, toks = program_of(I, M, names, n)
    ops = [x for x in names if x in M.functions.function_map]
    lib.add_torch_tokens(M.functions.add_torch_tokens(ops, False))
    with disco.program_ctx(M, lib), fake_numpy_random(I):
        p = M.program.from_tokens(np.array(toks, dtype=np.int32), skip_cache=True)
        old = list(p.traversal)
        with quiet_ctx():
            p.switch_tokens("torch")
        I.check(len(p.traversal) == len(old), "length")
        for a, b in zip(old, p.traversal):
            if a.name in ops:
                I.check(b.name == a.name + "_t" and b.arity == a.arity, f"{a.name} replaced by its counterpart")
            else:
                I.check(b is a, "variables and constants stay")


def vocabulary(I, M):
    """token list requested by the user: one token per variable, parameter, operator, in order"""
    ni, ns, npar = int(I.int("ni", 0, 3)), int(I.int("ns", 1, 2)), int(I.int("np", 0, 2))
    pn = I.choose("pn", [None, ["nu", "kappa"], ["nu"], ["u1", "k"], ["mul", "k"], ["const", "k"]])
    ops = I.choose("ops", [["add", "mul"], ["diff", "n2", "const"], ["sub", "2.5"], ["nosuch"]])
    prot = bool(I.bool("prot"))
    clash = any(x in {"u1", "u2", "x1", "mul", "const"} for x in (pn or [])[:npar] if not (x == "u2" and ns < 2))
    try:
        ts = M.functions.create_tokens(ni, ops, prot, n_state_var=ns, task_type="pde", n_param_var=npar, param_names=pn)
    except ValueError:
        I.check(clash or ops == ["nosuch"], "only unknown operators or clashing names are refused")
        return
    I.check(not clash and ops != ["nosuch"], "unknown operators and clashing names are refused")
    want = [f"x{i + 1}" for i in range(ni)] + [f"u{i + 1}" for i in range(ns)] + \
        [(pn[i] if pn and i < len(pn) else f"p{i + 1}") for i in range(npar)]
    I.check([t.name for t in ts[:len(want)]] == want, "variables in order")
    I.check([t.input_var for t in ts[:ni]] == list(range(ni)), "input index")
    I.check([t.state_var for t in ts[ni:ni + ns]] == list(range(ns)), "state index")
    I.check([t.param_var for t in ts[ni + ns:ni + ns + npar]] == list(range(npar)), "param index")
    I.check([t.name for t in ts[len(want):]] == ops, "operators in order")
    for t in ts[len(want):]:
        I.check(t.arity == {"add": 2, "mul": 2, "diff": 2, "n2": 1, "const": 0, "sub": 2, "2.5": 0}[t.name], "arity")
        if t.name == "2.5":
            I.check(float(np.asarray(t.value).reshape(-1)[0]) == 2.5, "literal value")


HARNESSES = [
    H(finish, [{"names": nm, "n": n, "k": 1} for nm in (A, B) for n in (1, 2, 3, 4, 5, 6)] +
      [{"names": A, "n": n, "k": 2} for n in (2, 4, 5)], thorough=[{"names": A, "n": 8, "k": 1}, {"names": B, "n": 7, "k": 2}],
      bounds="every token sequence of length n over the named library, k expressions"),
    H(cache, [{"names": B, "n": n, "m": m} for n, m in ((1, 1), (2, 2), (3, 1))], thorough=[{"names": B, "n": 3, "m": 2}],
      bounds="every pair of sequences"),
    H(constants, [{"names": C, "n": n} for n in (1, 2, 3)], thorough=[{"names": C, "n": 4}],
      bounds="every sequence of n tokens, any real constants"),
    H(from_strings, [{"n": n} for n in (1, 2, 3)], bounds="every word list of length n over 8 words"),
    H(roundtrip, [{"names": C, "n": n} for n in (1, 3)], bounds="every sequence of n tokens"),
    H(switch, [{"n": n} for n in (1, 2, 3)], bounds="every sequence of n tokens"),
    H(vocabulary, bounds="0-3 inputs, 1-2 states, 0-2 parameters, listed names and operators"),
]

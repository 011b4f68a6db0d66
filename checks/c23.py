"""C23: EqGPT scores every equation by the fit of its own terms and reports the best ones with their own text"""
import contextlib
import importlib
import math
import os
import pathlib
import re
import shutil
import tempfile
import types
from unittest import mock

import numpy as np

from symx import jets, torchshim
from symx.jets import E
from symx.runner import H
from .disco import quiet_ctx

ASSUMPTIONS = ["a field is any smooth function: its partial derivatives at a point are independent reals",
               "the least-squares routine is an arbitrary function of its arguments", "the network's logits are arbitrary"]


def load():
    M = types.SimpleNamespace()
    M.kd = importlib.import_module("kd.model.kd_eqgpt")
    M.terms = importlib.import_module("kd.model.eqgpt.calculate_terms")
    M.train = importlib.import_module("kd.model.eqgpt.continue_train_GPT_all")
    M.gpt = importlib.import_module("kd.model.eqgpt.gpt_model")
    M.dev = importlib.import_module("kd.model.eqgpt._device")
    return M


# -- what a vocabulary word denotes ---------------------------------------------
class Word:
    """reads a vocabulary word: u with derivative subscripts, coordinates, powers, products, quotients, functions"""

    def __init__(self, s, variables):
        self.s, self.v, self.i = s, variables, 0

    def peek(self, rx):
        m = re.match(rx, self.s[self.i:])
        if m:
            self.i += len(m.group(0))
        return m

    def parse(self):
        e = self.sum()
        assert self.i == len(self.s), self.s
        return e

    def sum(self):
        neg = self.peek(r"-")
        e = self.prod()
        if neg:
            e = E("*", E("c", -1), e)
        while self.peek(r"\+"):
            e = E("+", e, self.prod())
        return e

    def prod(self):
        e = self.power()
        while True:
            if self.peek(r"/"):
                e = E("*", e, E("^", self.power(), -1))
            elif self.peek(r"\*") or (self.i < len(self.s) and self.s[self.i] not in "+-)"):
                e = E("*", e, self.power())
            else:
                return e

    def power(self):
        e = self.atom()
        m = self.peek(r"\^(-?\d+)")
        return E("^", e, int(m.group(1))) if m else e

    def subs(self, e):
        m = self.peek(r"[txyz]*")
        for c in m.group(0):
            e = e.d(self.v.index(c))
        return e

    def u(self):
        return E("u", (0,) * len(self.v))

    def atom(self):
        m = self.peek(r"(BiLaplace|Laplace|Div)\(")
        if m:
            e = self.sum()
            assert self.peek(r"\)")
            sp = [self.v.index(c) for c in "xyz" if c in self.v]
            lap = lambda w: _add([w.d(k).d(k) for k in sp])
            return {"Laplace": lap, "BiLaplace": lambda w: lap(lap(w)), "Div": lambda w: _add([w.d(k) for k in sp])}[m.group(1)](e)
        m = self.peek(r"(sqrt|sinh|sin|exp)\(")
        if m:
            e = self.sum()
            assert self.peek(r"\)")
            return E("f", m.group(1), e)
        m = self.peek(r"sin([txyz])")
        if m:
            return E("f", "sin", E("x", self.v.index(m.group(1))))
        if self.peek(r"\("):
            e = self.sum()
            assert self.peek(r"\)")
            return self.subs(e)
        m = self.peek(r"\d+")
        if m:
            return E("c", int(m.group(0)))
        if self.peek("u"):
            return self.subs(self.u())
        m = self.peek(r"[txyz]")
        return E("x", self.v.index(m.group(0)))


def _add(es):
    e = es[0]
    for f in es[1:]:
        e = E("+", e, f)
    return e


def letters(w):
    """coordinates a word mentions"""
    s = re.sub(r"sqrt|sinh|sin|exp|Laplace|BiLaplace|Div", lambda m: "xy" if m.group(0)[-1] in "ev" else "", w)
    return set(re.findall(r"[txyz]", s))


def words(M, variables):
    return [w for w in M.terms.id2word[6:] if letters(w) <= set(variables)]


def term(I, M, variables, part, parts, pinn=False):
    """the column of a vocabulary word holds, at every point, the value the word denotes there"""
    variables = list(variables)
    ws = [w for w in words(M, variables) if not (w == "BiLaplace(u)" and "z" in variables)]
    w = I.choose("word", ws[part::parts])
    n = 2 if w.count("x") < 4 and "u(" not in w else 1
    J = jets.Jets(I, n, len(variables), order=6, lo=0.5, hi=2, xlo=0.5, xhi=2)
    with contextlib.ExitStack() as st:
        st.enter_context(quiet_ctx())
        if I.symbolic:
            st.enter_context(torchshim.install(M.terms))
        db = J.database()
        col = M.terms.calculate_terms(w, J.net, db, variables, n, 1)
        col = np.asarray(col).reshape(-1)
        ref = [Word(w, variables).parse().val(J, i) for i in range(n)]
        I.check(len(col) == n, "one value per point")
        for i in range(n):
            I.eq(col[i], ref[i], f"value of {w}", rtol=1e-5, atol=1e-6)
    I.reach()


# -- scoring ---------------------------------------------------------------------
def frame(pd):
    class DF(pd.DataFrame):
        def isin(self, vals):
            return pd.DataFrame([[(not hasattr(v, "e")) and v in vals for v in r] for r in self.to_numpy()])
    return types.SimpleNamespace(DataFrame=DF)


@contextlib.contextmanager
def scoring(I, M, table, answers):
    """calculate_reward over given columns: table(word, case) -> values; least squares answers anything"""
    calls = []

    def lstsq(A, b, *a, **k):
        m = A.shape[1]
        c = len(calls)
        x = np.array([answers(c, q) for q in range(m)], dtype=object if I.symbolic else float)
        calls.append((np.array(A), np.array(b), x))
        return x, None, m, None

    def terms(word, net, db, variables, nx, nt):
        return np.array(table(word, db), dtype=object if I.symbolic else float)
    with contextlib.ExitStack() as st:
        st.enter_context(quiet_ctx())
        st.enter_context(mock.patch.object(M.train, "calculate_terms", terms))
        st.enter_context(np.errstate(all="ignore"))
        if I.symbolic:
            from symx import shim
            shim.LINALG_HOOKS["lstsq"] = lambda real, *a, **k: lstsq(*a, **k)
            st.callback(shim.LINALG_HOOKS.pop, "lstsq")
            st.enter_context(mock.patch.object(M.train, "pd", frame(M.train.pd)))
        else:
            st.enter_context(mock.patch.object(np.linalg, "lstsq", lstsq))
        yield calls


def sentence(I, M, ops, names, k, end=("E",)):
    w2 = M.train.word2id
    s = ["ut"]
    for j in range(k):
        s += [I.choose(f"o{j}", ops), I.choose(f"w{j}", names)]
    return s, [w2[t] for t in s] + [w2[e] for e in end if e]


def split_terms(s):
    """text tokens -> summands, each a list of (operator, word)"""
    out = [[("*", s[0])]]
    for o, w in zip(s[1::2], s[2::2]):
        if o == "+":
            out.append([("*", w)])
        else:
            out[-1].append((o, w))
    return out


def ambiguous(groups):
    """same factors, different operators: whether these count as one term is left open"""
    seen = {}
    for g in groups:
        key = tuple(sorted(w for _, w in g))
        val = (g[0][1], tuple(sorted(g[1:]))) if any(o == "/" for o, _ in g) else "product"
        if seen.setdefault(key, val) != val:
            return True
    return False


def score(I, M, ops, names, k, n=2, cases=1, end=("E",), free=None):
    """reward = mean over cases of (1 - 0.02 log10(columns)) R2 of the first term fitted by the others"""
    s, ids = sentence(I, M, ops, names, I.choose("k", k), end)
    groups = split_terms(s)
    if ambiguous(groups) or not any("x" in w for w in s):
        return
    vals = {}

    def table(word, case):
        if (word, case) not in vals:
            vals[word, case] = [I.real(f"v{case}_{len(vals)}_{i}", 0.5, 4) if free in (None, case)
                                else 1.0 + len(word) * i * i + 2 * case * i for i in range(n)]
        return vals[word, case]
    with scoring(I, M, table, lambda c, q: I.real(f"a{c}_{q}", -5, 5) if free in (None, c) else 0.5 - q) as calls:
        r, w2v, mask = M.train.calculate_reward(list(ids), [None] * cases, list(range(cases)), {}, {}, ["t", "x"],
                                                [1] * cases, [1] * cases)
    uniq = []
    for g in groups:
        if sorted(w for _, w in g) not in [sorted(w for _, w in h) for h in uniq]:
            uniq.append(g)
    want = []
    I.check(len(calls) == cases, "one fit per case")
    for c in range(cases):
        cols = []
        for g in uniq:
            col = []
            for i in range(n):
                v = 1
                for o, w in g:
                    v = v * table(w, c)[i] if o == "*" else v / table(w, c)[i]
                col.append(v)
            if not any(bool(I.all([I.same(a, b) for a, b in zip(col, h)])) for h in cols):
                cols.append(col)
        A, b, x = calls[c]
        I.check(A.shape == (n, len(cols) - 1), "the fit uses the other terms")
        for i in range(n):
            I.eq(b[i], -cols[0][i], "fitted quantity is minus the first term")
            for q in range(len(cols) - 1):
                I.eq(A[i, q], cols[q + 1][i], "fitted column is the term's values")
        lhs = [-cols[0][i] for i in range(n)]
        rhs = [sum([x[q] * cols[q + 1][i] for q in range(len(cols) - 1)], 0) for i in range(n)]
        m = sum(lhs) / n
        tot = sum((v - m) * (v - m) for v in lhs)
        I.require(tot > 0)
        want.append((1 - 0.02 * math.log10(len(cols))) * (1 - sum((p - q) * (p - q) for p, q in zip(lhs, rhs)) / tot))
    I.eq(r, sum(want) / cases, "reward", rtol=1e-6)
    I.reach()


def dangling(I, M, names, k):
    """a sequence that stops on an operator is not an equation: it scores nothing"""
    s, ids = sentence(I, M, ["+", "*", "/"], names, I.choose("k", k), (I.choose("last", ["+", "*", "/"]),))
    g = [sorted(w for _, w in q) for q in split_terms(s)]
    if g[-1] in g[:-1]:
        return          # a repeated last term is dropped together with its dangling operator
    with scoring(I, M, lambda w, c: [1.0 + i for i in range(2)],
                 lambda c, q: I.real(f"a{c}_{q}", -5, 5)):
        r, _, _ = M.train.calculate_reward(list(ids), [None], [0], {}, {}, ["t", "x"], [1], [1])
    I.eq(r, 0, "a dangling operator scores 0")
    I.reach()


def badvalues(I, M, cases, n):
    """an equation with an undefined term value never gets an undefined score"""
    s, ids = ["ut", "+", "ux"], [M.train.word2id[w] for w in ("ut", "+", "ux", "E")]
    bads = {}
    for c in range(cases):
        for w in ("ut", "ux"):
            for i in range(n):
                bads[w, c, i] = I.choose(f"b{w}{c}{i}", ["ok", "nan"] if w == "ut" else ["ok", "nan", "inf"])
    vals = {}

    def table(w, c):
        if (w, c) not in vals:
            vals[w, c] = [dict(nan=float("nan"), inf=float("inf"), ok=1.5 + i * i + c + (w == "ux") * i)[bads[w, c, i]]
                          for i in range(n)]
        return vals[w, c]
    I.require(all(any(bads[w, c, i] != "inf" for i in range(n)) for c in range(cases) for w in ("ut", "ux")))
    mask = dict()
    with scoring(I, M, table, lambda c, q: 0.5):
        r, _, mk = M.train.calculate_reward(list(ids), [None] * cases, list(range(cases)), {}, mask, ["t", "x"],
                                            [1] * cases, [1] * cases)
    nan = any(v == "nan" for v in bads.values())
    good = [c for c in range(cases) if all(bads[w, c, i] != "nan" for w in ("ut", "ux") for i in range(n))]
    if not good:
        I.check(not np.isnan(float(r)), "an equation undefined on every case has a defined score")
        I.check(float(r) <= 0, "and it is not rewarded")
    for w in ("ut", "ux"):
        if any(bads[w, c, i] == "nan" for c in range(cases) for i in range(n)):
            I.check(mk.get(M.train.word2id[w]) == 0, "an undefined word is not sampled again")
    I.reach()


# -- ranking ---------------------------------------------------------------------
def ranked(I, award, sent, seen, label):
    """award/sent: the reported list; seen: every (reward, sentence) so far"""
    I.check(len(award) == len(sent) and 1 <= len(award) <= 10, f"{label}: between one and ten")
    for a, b in zip(award, award[1:]):
        I.check(I.not_(I.le(a, b)) if I.symbolic else a > b, f"{label}: best first, rewards distinct")
    for a, s in zip(award, sent):
        I.check(I.any([I.same(a, r) for r, t in seen if list(t) == list(s)] or [False]), f"{label}: reward belongs to its equation")
    for r, t in seen:
        I.check(I.any([I.le(r, award[-1])] + [I.same(r, a) for a in award]), f"{label}: nothing better is left out")


def top(I, M, sizes, fixed=0):
    """after every epoch the list holds the best distinct rewards seen, each with its own sentence"""
    K = M.kd.KD_EqGPT
    seen, award, sent = [], None, None
    uid = 0
    with contextlib.ExitStack() as st:
        if I.symbolic:
            st.enter_context(torchshim.install(M.train))
        for e, n in enumerate(sizes):
            rs, ss = [], []
            for i in range(n):
                f = fixed if e == 0 else 0
                rs.append(float(2 * ((i * 5) % f)) if i < f else I.real(f"r{e}_{i}", -1, 30))
                ss.append([6, 2, 100 + uid])
                uid += 1
            if I.symbolic:
                R = torchshim.T(np.array(rs, dtype=object))
            else:
                import torch
                R = torch.tensor(rs, dtype=torch.float64)
            seen += list(zip(rs, [list(s) for s in ss]))
            award, sent = K._update_top10(e, R, ss, award, sent, M.train.find_min_no_repeat, n)
            ranked(I, list(award), list(sent), seen, f"epoch {e}")
            if e == 0 and fixed > 10:
                I.check(len(award) == 10, "ten are kept")
    I.reach()


def e2e(I, M, epochs, samples, alts):
    """fit_pretrained: whatever is sampled and scored, the report is the best of it, in order, with matching text"""
    w2, i2 = M.gpt.word2id, M.gpt.id2word
    options = [["ux", "E"], ["uxx", "E"], ["ux", "+", "uxx"], ["ux", "+", "ux"]][:alts]
    scripts = [[w2[w] for w in I.choose(f"s{e}_{i}", options)] for e in range(epochs) for i in range(samples)]
    state = types.SimpleNamespace(n=0, cur=None)
    rewards, seen, trained = {}, [], []

    class Model:
        def to(self, d):
            return self

        def load_state_dict(self, d):
            pass

        def parameters(self):
            return []

        def step(self, s, mask):
            if len(s) == 3:
                state.cur = list(scripts[state.n])
                state.n += 1
            return state.cur.pop(0), None

    def concise(s):
        return tuple(M.train.delete_duplicate(list(s)))

    def reward(s, nets, dbs, w2v, mask, variables, nx, nt):
        M.train.delete_duplicate(s)      # the real scorer strips the end mark of the list it is given
        k = concise(s)
        if k not in rewards:
            rewards[k] = I.real("rw" + "_".join(map(str, k)), -1, 1)
        seen.append((rewards[k], k))
        return rewards[k], w2v, mask

    def step(model, loader, *a, **k):
        trained.append(loader.dataset.datas)
    d = tempfile.mkdtemp(prefix="c23_")
    try:
        os.makedirs(d + "/gpt_model")
        for f in ("gpt_model/PDEGPT_wave_breaking.pt", "wave_breaking_data.pkl"):
            open(f"{d}/{f}", "w").close()
        K = M.kd.KD_EqGPT(optimize_epochs=epochs, samples_per_epoch=samples)
        with contextlib.ExitStack() as st:
            st.enter_context(quiet_ctx())
            P = lambda *a, **k: st.enter_context(mock.patch.object(*a, **k))
            P(M.kd, "_DATA_DIR", pathlib.Path(d))
            P(M.gpt, "GPT", Model)
            P(M.gpt, "max_pos", 7)
            P(M.dev, "load_checkpoint", lambda p: {})
            P(M.train, "calculate_reward", reward)
            P(M.train, "train_step", step)
            P(K, "_load_surrogates", lambda *a: ([None], [None], [1], [1]))
            import pickle
            import torch
            P(pickle, "load", lambda f: {})
            P(torch.optim, "Adam", lambda *a, **k: None)
            if I.symbolic:
                st.enter_context(torchshim.install(M.train))
                P(torch, "zeros", torchshim.TORCH.zeros)
            else:
                z = torch.zeros
                P(torch, "zeros", lambda *a, **k: z(*a, dtype=torch.float64))
            import random
            s0 = (random.getstate(), np.random.get_state(), torch.random.get_rng_state())
            try:
                res = K.fit_pretrained()
            finally:
                random.setstate(s0[0])
                np.random.set_state(s0[1])
                torch.random.set_rng_state(s0[2])
    finally:
        shutil.rmtree(d)
    I.check(len(seen) == epochs * samples, "every sample is scored")
    text = {k: "".join(i2[t] for t in k[:-1]) for _, k in seen}
    byseen = [(r, [text[k]]) for r, k in seen]
    ranked(I, list(res["rewards"]), [[q] for q in res["equations"]], byseen, "report")
    I.check(res["best_equation"] == res["equations"][0], "best equation is the first")
    I.eq(res["best_reward"], res["rewards"][0], "best reward is the first")
    keys = [list(k) for k in rewards]
    for batch in trained:
        I.check(all(b[0] == w2["S"] and b[-1] == w2["E"] and list(b[1:]) in keys for b in batch), "trained on scored equations")
    I.reach()


def batch(I, M, lens):
    """a training batch predicts each token from the ones before it, padded at the end"""
    data = [[I.int(f"t{r}_{c}", 1, 56) for c in range(I.choose(f"len{r}", lens))] for r in range(2)]
    with contextlib.ExitStack() as st:
        if I.symbolic:
            st.enter_context(torchshim.install(M.train))
        ds = M.train.MyDataSet([list(d) for d in data])
        for rep in range(2):          # the data is served again in every pass
            x, y = ds.padding_batch([ds[0], ds[1]])
            x, y = np.asarray(x), np.asarray(y)
            w = max(len(d) for d in data) - 1
            I.check(x.shape == (2, w) and y.shape == (2, w), "batch shape")
            for r in range(2):
                for c in range(w):
                    ok = c < len(data[r]) - 1
                    I.eq(x[r, c], data[r][c] if ok else 0, "input token")
                    I.eq(y[r, c], data[r][c + 1] if ok else 0, "predicted token is the next one")
    I.reach()


# -- sampling ----------------------------------------------------------------------
def step(I, M, n, variables):
    """a sampled token alternates term / operator, is never a masked one, and follows the network's probabilities"""
    g = M.gpt
    V = len(g.id2word)
    kept = sorted({0, 1, 2, 3, 4, 5, 8, 9, 20})      # tokens whose logit is free; the others are fixed
    logit = {i: I.real(f"l{i}", -2, 2) for i in kept}
    with contextlib.ExitStack() as st:
        st.enter_context(quiet_ctx())
        if I.symbolic:
            st.enter_context(torchshim.install(g, M.train))
        import torch
        mask = M.train.get_mask_invalid(list(variables))
        if I.symbolic:
            raw = [logit.get(i, 0.1) for i in range(V)]
            out = torchshim.T(np.array(raw, dtype=object).reshape(1, 1, V))
            st.enter_context(mock.patch.object(g, "nn", types.SimpleNamespace(functional=types.SimpleNamespace(
                softmax=lambda a, dim: torchshim.TORCH.softmax(a, dim)))))
        else:
            out = torch.tensor([float(logit.get(i, 0.1)) for i in range(V)], dtype=torch.float64).reshape(1, 1, V)

        class Fake:
            step = g.GPT.step
            forward = __call__ = lambda self, d: (out.reshape(1, V), None)
            decoder = staticmethod(lambda d: (out, None))
            projection = staticmethod(lambda d: d)
        got = []

        def choice(a, size=None, replace=True, p=None):
            a = list(np.asarray(a))
            got.append((a, None if p is None else list(np.asarray(p))))
            return a[I.choose("pick", list(range(len(a))))] if p is None else next(
                v for v, q in zip(a, p) if bool(q > 0))
        u = I.real("u", 0, 1)
        st.enter_context(mock.patch.object(g.random, "random", lambda: u))
        from symx import shim
        if I.symbolic:
            st.enter_context(mock.patch.dict(shim.OVERRIDES, {}))
        old = np.random.choice
        np.random.choice = choice
        try:
            nxt, _ = Fake().step([g.word2id["S"]] + [6, 2] * n, mask) if n == int(n) else Fake().step(
                [g.word2id["S"]] + [6, 2] * int(n) + [6], mask)
        finally:
            np.random.choice = old
    op = n != int(n)
    a, p = got[0]
    words_ok = [i for i in range(6, V) if letters(g.id2word[i]) <= set(variables) and "t" not in g.id2word[i]
                and not (g.id2word[i] == "Div(u)" and "z" not in variables)]
    ok = [1, 2, 3, 4] if op else words_ok
    I.check(int(nxt) in ok, "sampled token is allowed here")
    if p is None:
        I.check(sorted(int(v) for v in a) == ok, "uniform choice is over the allowed tokens")
    else:
        I.check(all(bool(I.same(q, 0)) for v, q in zip(a, p) if int(v) not in ok), "other tokens have no chance")
        if I.symbolic:
            sm = torchshim.softmax1([logit.get(i, 0.1) for i in range(V)])
        else:
            ex = [math.exp(logit.get(i, 0.1)) for i in range(V)]
            sm = [e / sum(ex) for e in ex]
        tot = sum(sm[i] for i in ok)
        for v, q in zip(a, p):
            if int(v) in ok:
                I.eq(q * tot, sm[int(v)], "chance is the network's, renormalised", rtol=1e-4)
    I.reach()


HARNESSES = [
    H(term, [dict(variables="tx", part=i, parts=4) for i in range(4)],
      thorough=[dict(variables=v, part=i, parts=6) for v in ("tx", "txy") for i in range(6)],
      bounds="every vocabulary word over the data's coordinates; any smooth field, any point", limit=2000),
    H(score, [dict(ops=["+", "*", "/"], names=["ux", "uxx"], k=[0, 1, 2])] +
             [dict(ops=["+", "*"], names=["ux", "uxx"], k=[1], n=2, cases=2, free=c) for c in (0, 1)],
      thorough=[dict(ops=["+", "*", "/"], names=["ux", "uxx", "u"], k=[0, 1, 2]),
                dict(ops=["+", "*", "/"], names=["ux", "uxx"], k=[3]),
                dict(ops=["+", "*", "/"], names=["ux", "u"], k=[1, 2], n=2, cases=2, free=0),
                dict(ops=["+", "*"], names=["ux"], k=[1], n=2, cases=2), dict(ops=["+", "/"], names=["ux", "u"], k=[2], n=2, cases=3, free=2),
                dict(ops=["+"], names=["ux", "u"], k=[1], n=3, cases=1)],
      bounds="up to 3 further terms from 2-3 words, 2-3 points, 1-2 cases; any values, any least-squares answer", limit=6000),
    H(dangling, [dict(names=["ux", "u"], k=[0, 1])], thorough=[dict(names=["ux", "uxx"], k=[0, 1, 2])],
      bounds="sequences of up to 3 terms ending on an operator", limit=3000),
    H(badvalues, [dict(cases=1, n=2)], thorough=[dict(cases=2, n=2)], bounds="undefined values anywhere, 1-2 cases, 2 points", limit=3000),
    H(top, [dict(sizes=[2, 2]), dict(sizes=[12, 1], fixed=11)],
      thorough=[dict(sizes=[3, 2]), dict(sizes=[2, 2, 1]), dict(sizes=[12, 2], fixed=11)],
      bounds="2-3 epochs of up to 3 free rewards, or 12 samples of which 11 are given", limit=6000),
    H(e2e, [dict(epochs=2, samples=2, alts=2)], thorough=[dict(epochs=2, samples=2, alts=3), dict(epochs=1, samples=3, alts=4)],
      bounds="2 epochs of 2 samples (thorough: 3 alternatives each)", limit=8000),
    H(batch, [dict(lens=[2, 3, 4])], thorough=[dict(lens=[2, 3, 4, 5, 6])], bounds="2 sentences of 2-6 tokens, any tokens"),
    H(step, [dict(n=1, variables=["t", "x"]), dict(n=0.5, variables=["t", "x"])],
      thorough=[dict(n=n, variables=v) for n in (1, 0.5, 2) for v in (["t", "x"], ["t", "x", "y"])],
      bounds="any logits of 9 tokens, any draw", limit=3000),
]

"""C11: the searcher trains on, remembers and reports the right programs"""
import contextlib
import math
import types

import numpy as np

from symx.runner import H
from . import disco
from .disco import quiet_ctx
from .env import FakeRng

ASSUMPTIONS = ["rewards of valid programs lie in [0, 1], invalid programs have reward 0 (as the reward functions give)",
               "the policy is arbitrary: any batch of programs may be sampled at every step"]
NAMES = ["add", "n2", "x1"]
POOL = [["x1"], ["n2", "x1"], ["add", "x1", "x1"], ["n2", "n2", "x1"], ["add", "n2", "x1", "x1"]]
ML = 5


def load():
    import importlib
    M = disco.load_disco()
    M.searcher = importlib.import_module("kd.model.discover.searcher")
    M.memory = importlib.import_module("kd.model.discover.dso.memory")
    M.ga = importlib.import_module("kd.model.discover.ga_utils")
    return M


class RTask:
    pass


@contextlib.contextmanager
def world(I, M, k, neg=False):
    """k programs with arbitrary rewards and validity; -> (context for from_tokens etc.)"""
    lib = disco.mklib(M, NAMES)
    rewards = [I.real(f"r{i}", 0, 1) for i in range(k)]
    invalid = [I.choose(f"invalid{i}", [False, True]) for i in range(k)]
    pad = [[NAMES.index(n) for n in s] + [NAMES.index("x1")] * (ML - len(s)) for s in POOL[:k]]

    def who(p):
        return next(i for i in range(k) if [t.name for t in p.traversal] == POOL[i])

    def reward_function(p):
        i = who(p)
        p.invalid = invalid[i]
        return (0.0 if invalid[i] else rewards[i]), [1.0], None, None
    R = [0.0 if invalid[i] else rewards[i] for i in range(k)]
    with disco.program_ctx(M, lib, task_type="regression", reward_function=reward_function) as P, contextlib.ExitStack() as st:
        if I.symbolic:
            from symx import torchshim
            st.enter_context(torchshim.install(M.searcher, M.memory))
        yield types.SimpleNamespace(P=P, R=R, invalid=invalid, pad=pad, who=who)


class Controller:
    """arbitrary policy"""
    max_length = ML

    def __init__(self, I, w, k, pqt_k=2, pqt_batch_size=1):
        self.I, self.w, self.k = I, w, k
        self.pqt_k, self.pqt_batch_size = pqt_k, pqt_batch_size
        self.steps, self.calls = 0, []

    def sample_episodes(self, n):
        import torch
        idx, top = [], -1
        for j in range(n):
            i = self.I.choose(f"s{self.steps}_{j}", list(range(self.k)))
            idx.append(i)
        self.steps += 1
        self.idx = idx
        a = np.array([self.w.pad[i] for i in idx], dtype=np.int32)
        obs = np.array([np.full((2, ML), 20 + i) for i in idx])
        pri = np.array([np.full((ML, 3), 30 + i) for i in idx])
        if self.I.symbolic:
            return types.SimpleNamespace(numpy=lambda: a), obs, pri, None, None
        return torch.tensor(a), torch.tensor(obs), torch.tensor(pri), None, None

    def train_step(self, b, batch, pqt):
        self.calls.append((b, batch, pqt))


def seq_of(a, w):
    a = [int(v) for v in np.asarray(a)]
    return next(i for i in range(len(w.pad)) if w.pad[i] == a)


def rows_ok(I, w, b, what):
    """every row of a batch belongs to one program"""
    out = []
    n = len(np.asarray(b.actions))
    I.check(all(len(np.asarray(getattr(b, f))) == n for f in ("obs", "priors", "lengths", "rewards", "on_policy")), f"{what}: row counts")
    for r in range(n):
        i = seq_of(b.actions[r], w)
        out.append(i)
        I.check(bool((np.asarray(b.obs)[r] == 20 + i).all() and (np.asarray(b.priors)[r] == 30 + i).all()), f"{what}: observation and mask rows")
        I.check(int(b.lengths[r]) == min(len(POOL[i]), ML), f"{what}: lengths")
        I.check(bool(b.on_policy[r]), f"{what}: on_policy")
        v = b.rewards[r]
        I.eq(v if I.symbolic else float(v), w.R[i], f"{what}: reward of the row's own program", rtol=1e-5)
    return out


def quantile_index(n, eps):
    return min(n - 1, math.ceil(round((n - 1) * (1 - eps), 9)))


def select(I, M, n, eps, k, nan=False):
    """kept: exactly the valid programs at or above the (1-eps) quantile, with their own rows"""
    with world(I, M, k) as w:
        ctrl = Controller(I, w, k)
        a, obs, pri, _, _ = ctrl.sample_episodes(n)
        ps = [M.program.from_tokens(v) for v in a.numpy()]
        R = [w.R[i] for i in ctrl.idx]
        bad = I.choose("nan", [None] + list(range(n))) if nan else None
        r = np.array([p.r_ridge for p in ps], dtype=object if I.symbolic else float)
        if bad is not None:
            r[bad] = float("nan")
            R[bad] = 0.0
        with quiet_ctx():
            out = M.searcher.quantile_select(a.numpy(), obs, pri, ps, r, eps)
        q = quantile_index(n, eps)
        ge = [sum([I.ite(R[i] > R[j], 1, 0) for j in range(n)]) for i in range(n)]       # entries strictly below i
        # value at sorted position q: R[i] >= it  <=>  fewer than n-q entries are > R[i]  <=> R[i] is among ...
        thr = []
        for i in range(n):
            above = sum([I.ite(R[j] > R[i], 1, 0) for j in range(n)])
            thr.append(above < n - q)
        keep = [bool(thr[i]) and not w.invalid[ctrl.idx[i]] for i in range(n)]
        want = [i for i in range(n) if keep[i]]
        if not want:
            I.check(out is None, "nothing kept")
            return
        I.check(out is not None, "kept programs are returned")
        programs, rr, r_train, r_full_valid, p_train, priors, onp, ob, act, base = out
        I.check(programs == [ps[i] for i in want] and p_train == [ps[i] for i in want], "programs kept")
        I.check(len(rr) == len(want) == len(r_train) == len(act) == len(ob) == len(priors) == len(onp), "counts")
        for t, i in enumerate(want):
            I.eq(rr[t], R[i], "reward")
            I.eq(r_train[t], R[i], "training reward")
            I.check(seq_of(act[t], w) == ctrl.idx[i], "actions")
            I.check(bool((np.asarray(ob)[t] == 20 + ctrl.idx[i]).all() and (np.asarray(priors)[t] == 30 + ctrl.idx[i]).all()), "rows")
        I.check(I.any([I.same(base, v) for v in R]) if I.symbolic else any(abs(base - v) < 1e-9 for v in R), "baseline is a reward of the batch")
        I.check(I.all([R[i] >= base for i in want]), "baseline is the lowest kept level")
        I.check(sum([I.ite(R[j] > base, 1, 0) for j in range(n)]) <= n - 1 - q, "baseline is the quantile")


def args(n, eps, stab=0, iters=1):
    return {"n_iterations": iters, "n_samples_per_batch": n, "stability_selection": stab, "epsilon": eps}


def steps(I, M, n, k, T, eps, pqt_k=2):
    """over any history of batches: the best program, its reward, the elite queue and the training batches are right"""
    with world(I, M, k) as w:
        ctrl = Controller(I, w, k, pqt_k)
        S = M.searcher.Searcher(ctrl, args(n, eps))
        S.pq.rng = FakeRng(I)
        seen, kept = [], []
        for t in range(T):
            nc = len(ctrl.calls)
            with quiet_ctx():
                info = S.search_one_step(epoch=t)
            seen = list(dict.fromkeys(seen + ctrl.idx))
            val = [i for i in seen if not w.invalid[i]]
            if len(ctrl.calls) > nc:
                base, batch, pq = ctrl.calls[-1]
                rows = rows_ok(I, w, batch, "training batch")
                I.check(all(i in ctrl.idx and not w.invalid[i] for i in rows), "trains on valid programs of this batch")
                I.check(I.all([w.R[i] >= base for i in rows]), "trains on the best quantile")
                rows_ok(I, w, pq, "elite batch")
                kept = list(dict.fromkeys(kept + rows))
                cb = w.who(info["program"])
                I.check(cb in rows, "step result is a trained program")
                I.check(I.all([w.R[cb] >= w.R[i] for i in rows]), "step result is the best of the step")
                I.eq(info["r"], w.R[cb], "step reward")
                I.check(info["expression"] == info["program"].str_expression, "step expression")
            else:
                I.check(info is None, "no result without training")
            I.check(S.best_p is not None, "a best program exists")
            b = w.who(S.best_p)
            I.check(b in seen, "best program was sampled")
            I.eq(w.R[b], S.r_best, "best reward is the best program's reward")
            I.eq(S.best_reward, S.r_best, "best_reward")
            I.check(I.all([S.r_best >= w.R[i] for i in seen]), "best reward is the maximum of all sampled")
            stored = [w.who(w.P.cache[c.item]) for c in S.pq.heap]
            I.check(len(stored) == min(pqt_k, len(kept)) and set(stored) <= set(kept), "elite queue content")
            I.check(I.all([I.all([w.R[i] <= w.R[j] for j in stored]) for i in kept if i not in stored]), "elite queue keeps the best")
            if stored:
                I.check(w.who(w.P.cache[S.best_expression]) in stored, "best expression")
                I.check(I.all([w.R[w.who(w.P.cache[S.best_expression])] >= w.R[i] for i in stored]), "best expression is the best stored")
        I.check(S.nevals == n * T and S.total_epoch == T, "evaluation counters")


def search(I, M, n, k, eps, keep):
    """the final result describes the best program; a second search starts afresh unless history is kept"""
    with world(I, M, k) as w:
        ctrl = Controller(I, w, k)
        S = M.searcher.Searcher(ctrl, args(n, eps, iters=1))
        S.pq.rng = FakeRng(I)
        seen = []
        for run in range(2):
            if run and not keep and len(S.pq) > 0:
                seen = []
            orig = M.searcher.make_queue

            def mq(**kw):
                q = orig(**kw)
                q.rng = FakeRng(I, f"rng{run}")
                return q
            M.searcher.make_queue = mq
            try:
                with quiet_ctx():
                    res = S.search(n_epochs=1, verbose=False, keep_history=keep)
            finally:
                M.searcher.make_queue = orig
            seen += ctrl.idx
            b = w.who(res["program"])
            I.check(res["program"] is S.best_p and b in seen, "reported program")
            I.eq(res["r"], w.R[b], "reported reward belongs to the reported program")
            I.check(res["traversal"] == ",".join(POOL[b]) and res["expression"] == ",".join(POOL[b]), "reported text belongs to the reported program")
            I.check(I.all([w.R[b] >= w.R[i] for i in seen]), "reported program is the best of the search")


def vote(I, M, k, T):
    """stability selection picks a candidate with the most first places"""
    with world(I, M, k) as w:
        I.require(not any(w.invalid))
        ctrl = Controller(I, w, k, pqt_k=k)
        S = M.searcher.Searcher(ctrl, args(k, 1.0, stab=k))
        mse = [[I.real(f"m{i}_{t}", 0, 8) for t in range(T)] for i in range(k)]
        for i in range(k):
            for j in range(i):
                for t in range(T):
                    I.require(mse[i][t] != mse[j][t])
        err = [2.0 + i for i in range(k)]
        ctrl.sample_episodes = lambda n: (types.SimpleNamespace(numpy=lambda: np.array(w.pad, dtype=np.int32)),
                                          np.zeros((k, 2, ML)), np.zeros((k, ML, 3)), None, None)

        def stability_test(p):
            i = w.who(p)
            return np.array(mse[i], dtype=object if I.symbolic else float), np.ones(T)
        M.program.Program.task.stability_test = stability_test
        M.program.Program.task.evaluate = lambda p: {"nmse_test": err[w.who(p)], "success": False}
        S.pq.rng = FakeRng(I)
        with quiet_ctx():
            res = S.search(n_epochs=1, verbose=False)
        b = w.who(res["program"])
        wins = [sum([I.ite(I.all([mse[i][t] <= mse[j][t] for j in range(k)]), 1, 0) for t in range(T)]) for i in range(k)]
        I.check(I.all([wins[b] >= x for x in wins]), "selected candidate wins most tests")
        I.eq(res["r"], w.R[b], "reward of the selected candidate")


def duplicates(I, M, n, kind):
    """duplicate removal keeps one shortest representative of every value, with its own value"""
    lens = [I.choose(f"len{i}", [1, 2, 3]) for i in range(n)]
    cls = []
    for i in range(n):
        cls.append(I.choose(f"cls{i}", list(range(max(cls, default=-1) + 2))))
    vals = [I.real(f"v{i}", -8, 8) for i in range(n)]
    for i in range(n):
        for j in range(i):
            I.require(I.any([vals[i] - vals[j] > 0.0625, vals[j] - vals[i] > 0.0625]))
    if kind == "terms":
        toks = [[f"t{i}"] * lens[i] for i in range(n)]
        values = [np.array([vals[cls[i]], 1], dtype=object if I.symbolic else float) for i in range(n)]
        key = lambda t: int(t[0][1:])
    else:
        toks = [types.SimpleNamespace(i=i, len_traversal=lens[i]) for i in range(n)]
        values = [vals[cls[i]] for i in range(n)]
        key = lambda t: t.i
    out_t, out_v = M.ga.drop_duplicates(list(toks), list(values))
    ids = [key(t) for t in out_t]
    I.check(len(out_t) == len(out_v), "lengths")
    for i, v in zip(ids, out_v):
        I.eq(np.asarray(v).reshape(-1)[0], vals[cls[i]], "value belongs to the kept item")
    I.check(sorted(cls[i] for i in ids) == sorted(set(cls)), "one representative of every distinct value")
    for i in ids:
        I.check(lens[i] == min(lens[j] for j in range(n) if cls[j] == cls[i]), "shortest representative")


HARNESSES = [
    H(select, [dict(n=3, eps=e, k=3) for e in (0.02, 0.34, 0.5, 1.0)] + [dict(n=2, eps=0.5, k=2, nan=True)],
      thorough=[dict(n=4, eps=e, k=4) for e in (0.25, 0.5)],
      bounds="batches of 3 (4) out of 3 (4) programs, all rewards in [0,1], any invalid flags, four quantiles"),
    H(steps, limit=300, params=[dict(n=2, k=3, T=2, eps=0.5), dict(n=1, k=3, T=3, eps=1.0), dict(n=2, k=2, T=2, eps=1.0, pqt_k=1),
              dict(n=2, k=4, T=1, eps=1.0)],
      thorough=[dict(n=2, k=3, T=3, eps=0.5), dict(n=3, k=3, T=2, eps=0.4)], thorough_limit=3000,
      bounds="up to 3 steps, batches up to 2 (3), any programs, rewards and invalid flags"),
    H(search, [dict(n=2, k=2, eps=1.0, keep=c) for c in (False, True)] + [dict(n=1, k=3, eps=1.0, keep=False)],
      bounds="two consecutive searches"),
    H(vote, [dict(k=2, T=2), dict(k=2, T=3)], thorough=[dict(k=3, T=2)], bounds="2-3 candidates, 2-3 tests, all error values (no ties)"),
    H(duplicates, [dict(n=3, kind=k) for k in ("terms", "programs")], thorough=[dict(n=4, kind="programs")],
      bounds="3 (4) items, every length and equality pattern, all values (equal or > 1/16 apart)"),
]

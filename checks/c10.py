"""C10: the elite memory keeps the best distinct programs with their own data"""
import types

import numpy as np

from symx.runner import H
from . import disco
from .env import FakeRng

ASSUMPTIONS = ["each item has one score (the queue's documented assumption)"]
NAMES = "abcdef"


def load():
    import importlib
    M = disco.load_disco()
    M.memory = importlib.import_module("kd.model.discover.dso.memory")
    return M


def history(I, n, k):
    """an arbitrary sequence of n pushes over k items (first-occurrence order = alphabetical)"""
    top, seq = -1, []
    for i in range(n):
        c = I.choose(f"item{i}", list(range(min(top + 1, k - 1) + 1)))
        top = max(top, c)
        seq.append(c)
    return seq


def sample(M, i, score, length=3):
    """a one-row batch, every field tagged with its item"""
    return M.memory.Batch(actions=np.full(4, 10 + i), obs=np.full((2, 4), 20 + i), priors=np.full((4, 3), 30 + i),
                          lengths=length, rewards=score, on_policy=bool(i % 2))


def own(I, item, data, score=None):
    i = NAMES.index(item)
    I.check(bool((data.actions == 10 + i).all() and (data.obs == 20 + i).all() and (data.priors == 30 + i).all()
                 and bool(data.on_policy) == bool(i % 2)), "stored data belong to the item")


def scores(I, k):
    return [I.real(f"s{i}", -4, 4) for i in range(k)]


def invariant(I, q, seen, s, cap, slack=0):
    items = [c.item for c in q.heap]
    I.check(len(set(items)) == len(items), "no item is stored twice")
    I.check(set(items) == set(q.unique_items), "the duplicate register lists exactly the stored items")
    I.check(len(items) == len(q) == len(list(q)), "length")
    I.check(len(items) <= cap, "never above capacity")
    for c in q.heap:
        I.eq(c.score, s[NAMES.index(c.item)], "stored score")
        own(I, c.item, c.extra_data)
    return items


def priority(I, M, n, k, pops=0, batch=False):
    """after every push the queue holds the best distinct items seen, each with its own score and data"""
    cap = I.choose("cap", list(range(1, k + 1)))
    s = scores(I, k)
    q = M.memory.make_queue(priority=True, capacity=cap)
    seen = []
    for c in history(I, n, k):
        b = M.memory.Batch(*[np.array([v], dtype=object) if not isinstance(v, np.ndarray) else v[None]
                             for v in sample(M, c, s[c])])
        q.push_batch(b, [types.SimpleNamespace(str=NAMES[c])])
        if c not in seen:
            seen.append(c)
        items = invariant(I, q, seen, s, cap)
        I.check(len(items) == min(cap, len(seen)), "filled up to capacity")
        stored = [NAMES.index(t) for t in items]
        for d in seen:
            if d not in stored:
                I.check(I.all([s[d] <= s[e] for e in stored]), "only the lowest scores are dropped")
        I.check(I.all([q.get_max()[0] >= s[e] for e in stored]) if stored else q.get_max() == (), "get_max")
        I.check(I.all([q.get_min()[0] <= s[e] for e in stored]), "get_min")
        I.eq(q.get_max()[0], s[NAMES.index(q.get_max()[1])], "get_max item")
    order = [it for it, _ in q.iter_in_order()]
    I.check(sorted(order) == sorted(items), "ordered iteration visits every item once")
    for a, b in zip(order, order[1:]):
        I.check(s[NAMES.index(a)] >= s[NAMES.index(b)], "ordered iteration is from best to worst")
    for it, d in q.iter_in_order():
        own(I, it, d)
    left = set(items)
    while left:
        sc, it, d = q.pop()
        own(I, it, d)
        I.check(it in left, "popped item was stored")
        left.discard(it)
        I.check(I.all([sc <= s[NAMES.index(o)] for o in left]), "pop returns the lowest")
        invariant(I, q, seen, s, cap)
    I.check(q.pop() == () and q.get_max() == () and q.get_min() == (), "empty queue")


def same_rewards(I, M, n, k):
    """variant which drops equal-reward duplicates: register, capacity and best item stay right"""
    cap = I.choose("cap", list(range(1, k + 1)))
    s = scores(I, k)
    ln = [I.choose(f"len{i}", [2, 3]) for i in range(k)]
    for i in range(k):
        for j in range(i):       # scores are equal or clearly apart
            I.require(I.any([s[i] == s[j], s[i] - s[j] > 0.125, s[j] - s[i] > 0.125]))
    q = M.memory.make_queue(priority=True, capacity=cap, remove_same=True)
    seen = []
    for c in history(I, n, k):
        before = [x.item for x in q.heap]
        q.push_sample(sample(M, c, s[c], ln[c]), types.SimpleNamespace(str=NAMES[c]))
        seen.append(c)
        items = invariant(I, q, seen, s, cap)
        stored = [NAMES.index(t) for t in items]
        I.check(I.any([I.all([s[e] >= s[d] for d in seen]) for e in stored]), "the best reward seen is represented")
        for d in seen:
            if d not in stored:
                I.check(I.any([s[e] >= s[d] for e in stored]), "dropped only for an equal or better one")
        for b in before:
            b = NAMES.index(b)
            if b not in stored:
                I.check(I.all([s[b] <= s[e] for e in stored]) if len(items) < cap else
                        I.any([I.all([s[b] <= s[e] for e in stored]), s[b] == s[c]]), "evicts the lowest or its equal")


def fifo(I, M, n, k):
    """plain queue: distinct items, oldest evicted first, re-adding moves to the back with the new data"""
    cap = I.choose("cap", list(range(1, k + 1)))
    q = M.memory.make_queue(priority=False, capacity=cap)
    ref = []
    for t, c in enumerate(history(I, n, k)):
        q.push(None, NAMES[c], (c, t))
        ref = [r for r in ref if r[0] != c] if c in [r[0] for r in ref] else ref[1:] if len(ref) >= cap else ref
        ref = ref + [(c, t)]
        I.check([x.item for x in q.heap] == [NAMES[r[0]] for r in ref], "order")
        I.check([x.extra_data for x in q.heap] == ref, "data")
        I.check(q.unique_items == {NAMES[r[0]] for r in ref}, "duplicate register")
    while ref:
        _, it, d = q.pop()
        I.check((it, d) == (NAMES[ref[0][0]], ref[0]), "pop takes the oldest")
        ref = ref[1:]
    I.check(q.pop() == (), "empty")


def best(I, M, n):
    """push_best stores the best row of the batch under its own program"""
    s = scores(I, n)
    q = M.memory.make_queue(priority=True, capacity=2)
    rows = [sample(M, i, s[i]) for i in range(n)]
    b = M.memory.Batch(*[np.array([getattr(r, f) for r in rows], dtype=object if f == "rewards" and I.symbolic else None)
                         for f in M.memory.Batch._fields])
    ps = [types.SimpleNamespace(str=NAMES[i]) for i in range(n)]
    q.push_best(b, ps)
    I.check(len(q) == 1, "one item")
    sc, it, d = q.get_max()
    own(I, it, d)
    I.eq(sc, s[NAMES.index(it)], "score")
    I.check(I.all([sc >= v for v in s]), "the best")


def batch_of(I, M, n, m):
    """a sampled or full batch consists of stored rows, every field of a row from the same item"""
    q = M.memory.make_queue(priority=True, capacity=n)
    perm = I.choose("first", list(range(n)))
    for i in list(range(perm, n)) + list(range(perm)):
        q.push_sample(sample(M, i, float(i * 7 % 5) + i / 8, 2 + i), types.SimpleNamespace(str=NAMES[i]))
    rng = FakeRng(I)
    q.rng = rng
    draws = []
    for what in ("sample", "all"):
        b = q.sample_batch(m) if what == "sample" else q._make_batch([c.extra_data for c in q.heap], False)
        cnt = m if what == "sample" else n
        I.check(all(len(getattr(b, f)) == cnt for f in b._fields), f"{what}: rows")
        got = []
        for r in range(cnt):
            i = int(np.asarray(b.actions)[r, 0]) - 10
            got.append(i)
            I.check(bool((np.asarray(b.actions)[r] == 10 + i).all() and (np.asarray(b.obs)[r] == 20 + i).all()
                         and (np.asarray(b.priors)[r] == 30 + i).all()), f"{what}: rows are whole")
            I.check(int(b.lengths[r]) == 2 + i and bool(b.on_policy[r]) == bool(i % 2), f"{what}: length/on_policy")
            I.check(abs(float(b.rewards[r]) - (float(i * 7 % 5) + i / 8)) < 1e-6, f"{what}: reward")
        if what == "all":
            I.check(sorted(got) == list(range(n)), "every item once")
    t = q.to_batch()
    I.check(tuple(t.actions.shape) == (n, 4) and tuple(t.obs.shape) == (n, 2, 4) and tuple(t.priors.shape) == (n, 4, 3), "tensor batch")
    I.check([int(v) - 10 for v in t.actions[:, 0]] == got and [int(v) for v in t.lengths] == [2 + i for i in got], "tensor rows")


HARNESSES = [
    H(priority, [dict(n=3, k=3), dict(n=4, k=3), dict(n=4, k=4)], thorough=[dict(n=5, k=4), dict(n=5, k=5)],
      bounds="every sequence of up to 4 (5) pushes over up to 4 (5) items, every capacity, all scores, ties included", thorough_limit=3000),
    H(same_rewards, [dict(n=3, k=3), dict(n=4, k=3)], thorough=[dict(n=5, k=3)],
      bounds="every push sequence up to 4 (5) over 3 items, scores equal or >0.125 apart, lengths in {2,3}"),
    H(fifo, [dict(n=5, k=4)], thorough=[dict(n=7, k=4)], bounds="every push sequence up to 5 (7), every capacity"),
    H(best, [dict(n=2), dict(n=4)], bounds="batches up to 4, all rewards"),
    H(batch_of, [dict(n=3, m=2), dict(n=4, m=1)], bounds="3-4 stored items, every draw"),
]

"""C07: whatever the policy samples under a length constraint ends within the declared bounds, never stuck"""
import numpy as np

from symx.runner import H
from . import disco
from .disco import Tree, int_objects, quiet_ctx, tok_array
from .env import fake_numpy_random

ASSUMPTIONS = ["numba is switched off in the symbolic run", "one expression per program",
               "the policy network is replaced by an arbitrary choice among unmasked tokens"]
LIBS = {"A": ["add", "mul", "n2", "u1", "x1"], "B": ["u1", "sub", "diff", "n3", "sin", "const"],
        "C": ["add", "diff", "n2", "u1", "x1", "const", "sin"]}


def load():
    M = disco.load_disco()
    import importlib
    M.ctl = importlib.import_module("kd.model.discover.controller")
    M.sm = importlib.import_module("kd.model.discover.state_manager")
    return M


def mktask(M, lib):
    class T(M.task.HierarchicalTask):
        def reward_function(self, p): pass
        def evaluate(self, p): pass
    t = T()
    t.library = lib
    t.stochastic = False
    t.task_type = "regression"
    return t


def sample(I, M, lib, lo, hi, extra={}):
    """every sampled episode is complete and within the length bounds; masks never leave no choice"""
    lb = disco.mklib(M, LIBS[lib], sym=I.symbolic)
    t = mktask(M, lb)
    with disco.program_ctx(M, lb):
        with quiet_ctx():
            cfg = {"length": {"on": True, "min_": lo, "max_": hi}}
            cfg.update({k: dict(v) for k, v in extra.items()})
            prior = M.prior.make_prior(lb, cfg)
        obs = np.array(t.reset_task(prior)).reshape(1, 4)
        if I.symbolic:
            obs = obs.astype(object)
        mask = np.asarray(prior.initial_prior()).reshape(1, -1)
        toks, ars = [], []
        cap = hi or lo + 3
        for step in range(cap + 2):
            allowed = [k for k in range(lb.L) if mask[0, k] != -np.inf]
            I.check(len(allowed) > 0, "some token can be chosen while the expression is open")
            c = I.int(f"t{step}", 0, lb.L - 1)
            I.require(I.any([I.same(c, k) for k in allowed]))
            toks.append(c)
            a = int(lb.arities[c])
            ars.append(a)
            d = 1 + sum(q - 1 for q in ars)
            if hi:
                I.check(len(toks) + d <= hi, "open slots still fit below the maximum length")
            if d == 0:
                break
            if not hi and step >= cap:
                return
            A = tok_array(I, toks, (1, len(toks)))
            with int_objects(I):
                obs, mask = t.get_next_obs(A, obs)
            mask = np.asarray(mask)
        if lo:
            I.check(len(toks) >= lo, "not shorter than the minimum")
        if hi:
            I.check(len(toks) <= hi, "not longer than the maximum")
        with fake_numpy_random(I):
            out = M.program._finish_tokens(tok_array(I, toks))
        I.check(len(out) == len(toks), "the sampled sequence is the expression")


def forbids_only(I, M, lib, lo, hi, n):
    """the constraint forbids a token only if choosing it would break a bound"""
    lb = disco.mklib(M, LIBS[lib], sym=I.symbolic)
    t = mktask(M, lb)
    with disco.program_ctx(M, lb):
        with quiet_ctx():
            prior = M.prior.make_prior(lb, {"length": {"on": True, "min_": lo, "max_": hi}})
        toks, d = [], 1
        for i in range(n):
            c = I.int(f"t{i}", 0, lb.L - 1)
            d += int(lb.arities[c]) - 1
            toks.append(c)
            I.require(d > 0)
        if hi:
            I.require(n + d <= hi)
        obs = np.array([[0, 0, 0, d - int(lb.arities[toks[-1]]) + 1]], dtype=object if I.symbolic else np.float32)
        t.reset_task(prior)
        with int_objects(I):
            _, mask = t.get_next_obs(tok_array(I, toks, (1, n)), obs)
        for k in range(lb.L):
            a = lb.tokens[k].arity
            nd = d + a - 1
            short = lo is not None and nd == 0 and n + 1 < lo
            long = hi is not None and n + 1 + nd > hi
            I.check((mask[0, k] == -np.inf) == (short or long), f"token of arity {a} forbidden iff it breaks a bound")


def controller(I, M, lib, lo, hi, batch):
    """the real sampling loop: recorded tokens, observations and masks belong to the same step"""
    import torch
    from unittest import mock
    lb = disco.mklib(M, LIBS[lib])
    t = mktask(M, lb)
    with disco.program_ctx(M, lb) as P:
        P.task = t
        with quiet_ctx():
            prior = M.prior.make_prior(lb, {"length": {"on": True, "min_": lo, "max_": hi}})
            sm = M.sm.make_state_manager({"observe_action": True})
            sm.library = lb
            torch.manual_seed(0)
            c = _controller(M, prior, sm, hi, batch)
            I.check(c.max_length == hi, "sampling stops at the declared maximum")
        cnt = [0]
        used = []

        def multinomial(probs, num_samples=1, **k):
            out = []
            for r in range(probs.shape[0]):
                ok = [j for j in range(probs.shape[1]) if float(probs[r, j]) > 0]
                out.append([I.choose(f"c{cnt[0]}", ok)])
                cnt[0] += 1
            return torch.tensor(out, dtype=torch.int64)
        with mock.patch.object(torch, "multinomial", multinomial), quiet_ctx():
            actions, obs, priors, lengths, fin = c.sample_episodes(batch)
        actions, obs, priors = actions.numpy(), obs.detach().numpy(), priors.detach().numpy()
        for r in range(batch):
            d = 1
            seq = []
            for i in range(hi):
                if d == 0:
                    break
                tr = Tree([lb.tokens[k].arity for k in seq])
                I.check(obs[r, 3, i] == d, "recorded open slots are those before the choice")
                I.check(obs[r, 0, i] == (seq[-1] if seq else lb.EMPTY_ACTION), "recorded previous token")
                if seq:
                    I.check(obs[r, 1, i] == lb.parent_adjust[seq[tr.next_parent]], "recorded parent")
                    s = tr.next_sibling()
                    I.check(obs[r, 2, i] == (lb.EMPTY_SIBLING if s is None else seq[s]), "recorded sibling")
                a = int(actions[r, i])
                I.check(np.isfinite(priors[r, i, a]), "chosen token was allowed by the recorded mask")
                seq.append(a)
                d += lb.tokens[a].arity - 1
            I.check(d == 0 and lo <= len(seq) <= hi, "sampled expression within the bounds")


def _controller(M, prior, sm, hi, batch):
    import torch
    c = M.ctl.Controller(prior, sm, max_length=hi, num_units=4)
    c.cell = lambda x, state: (torch.zeros(batch, c.n_choices), state)     # any network: logits only rank choices
    return c


EX = {"const": {"on": True}, "repeat": {"on": True, "tokens": "n2", "max_": 1}}
HARNESSES = [
    H(sample, [{"lib": l, "lo": lo, "hi": hi} for l in "AB" for lo, hi in ((None, 3), (None, 4), (2, 5), (4, 6), (5, 5), (3, None))],
      thorough=[{"lib": "C", "lo": lo, "hi": hi} for lo, hi in ((None, 8), (4, 9), (7, 8))],
      bounds="every token sequence the masks allow, up to the maximum length"),
    H(forbids_only, [{"lib": l, "lo": lo, "hi": hi, "n": n} for l in "AC" for lo, hi in ((None, 6), (4, 7), (5, None), (3, 9)) for n in (1, 2, 3, 4)],
      bounds="every open prefix of n tokens that fits"),
    H(controller, [{"lib": "A", "lo": 2, "hi": 3, "batch": 1}, {"lib": "A", "lo": 3, "hi": 4, "batch": 1}],
      thorough=[{"lib": "A", "lo": 2, "hi": 3, "batch": 2}, {"lib": "B", "lo": 2, "hi": 4, "batch": 1}],
      bounds="every choice the masks allow", shim=False),
]

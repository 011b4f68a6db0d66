"""C19: the policy is trained on the probabilities its own expressions were sampled with"""
import contextlib
import importlib
from unittest import mock

import numpy as np

from symx.runner import H
from . import disco
from .disco import quiet_ctx

ASSUMPTIONS = ["the recurrent network is an arbitrary function: its outputs (logits) are arbitrary reals, its state is opaque",
               "softmax is an uninterpreted function of the row, positive and summing to one; log is uninterpreted",
               "float rounding is outside the claim"]
NAMES = ["add", "sin", "x1"]


def load():
    M = disco.load_disco()
    M.ctl = importlib.import_module("kd.model.discover.controller")
    M.sm = importlib.import_module("kd.model.discover.state_manager")
    M.memory = importlib.import_module("kd.model.discover.dso.memory")
    return M


class State:
    def __init__(self, n):
        self.n = n


class Cell:
    """an arbitrary recurrent network"""

    def __init__(self, I, mk, z, batch):
        self.I, self.mk, self.z, self.batch = I, mk, z, batch
        self.states, self.inputs, self.train_inputs, self.rows = [], [], [], None

    def __call__(self, x, hidden_state=None, **k):
        if self.rows is None:
            t = len(self.inputs)
            self.inputs.append(np.array(x.detach().numpy(), dtype=object))
            self.states.append(hidden_state)
            return self.mk(np.squeeze(self.z[:, t])), State(t)
        self.train_inputs.append((np.array(x.detach().numpy(), dtype=object), hidden_state))
        return self.mk(np.squeeze(self.z[self.rows.pop(0)])), State("train")


class Task:
    stochastic = False
    task_type = "regression"
    OBS_DIM = 4


def smax(I, row):
    """reference probabilities"""
    if I.symbolic:
        from symx import torchshim
        return torchshim.softmax1(row)
    a = np.array([float(v) for v in row])
    e = np.exp(a - a.max())
    return list(e / e.sum())


def logp(I, row):
    if I.symbolic:
        from symx import torchshim
        return list(np.asarray(torchshim.TORCH.log_softmax(np.array([row], dtype=object)))[0])
    a = np.array([float(v) for v in row])
    return list(a - a.max() - np.log(np.exp(a - a.max()).sum()))


@contextlib.contextmanager
def setup(I, M, batch, T, sm_kw, ctl_kw, soft):
    import torch
    lib = disco.mklib(M, NAMES)
    L = lib.L
    t = Task()
    t.library = lib
    z = I.array("z", (batch, T, L), -2, 2)
    masks = {(i, b): I.choose(f"mask{i}_{b}", [0, 1, 2]) if not soft else 0 for i in range(T) for b in range(batch)}

    def prior(i, b):
        if soft:
            return [I.real(f"p{i}_{b}_{k}", -2, 2) for k in range(L)]
        return {0: [0.0] * L, 1: [-np.inf] + [0.0] * (L - 1), 2: [-np.inf] * (L - 1) + [0.0]}[masks[i, b]]
    P = {(i, b): prior(i, b) for i in range(T) for b in range(batch)}
    for b in range(batch):
        P[0, b] = P[0, 0]
    obs = {(i, b): [(i + b) % L, (i + 2 * b) % 2, (2 * i + b + 1) % L, i + b + 1] for i in range(T + 1) for b in range(batch)}
    for b in range(batch):
        obs[0, b] = [L, lib.EMPTY_PARENT, L, 1]
    dt = object if I.symbolic else np.float32
    asked = []

    def get_next_obs(actions, ob):
        i = actions.shape[1]
        asked.append(np.array(actions))
        return (np.array([obs[i, b] for b in range(batch)], dtype=dt),
                np.array([P.get((i, b), [0.0] * L) for b in range(batch)], dtype=dt))
    t.get_next_obs = get_next_obs
    t.reset_task = lambda prior: np.array(obs[0, 0], dtype=np.float32)

    class Prior:
        priors = []

        def initial_prior(self):
            return np.zeros(L, dtype=np.float32)
    with disco.program_ctx(M, lib) as Pg, contextlib.ExitStack() as st:
        Pg.task = t
        with quiet_ctx():
            sm = M.sm.make_state_manager(dict(sm_kw))
            sm.library = lib
            torch.manual_seed(0)
            c = M.ctl.Controller(Prior(), sm, max_length=T, num_units=3, **ctl_kw)
        mk = lambda a: torch.tensor(np.asarray(a, dtype=float))
        if I.symbolic:
            from symx import torchshim
            st.enter_context(torchshim.install(M.ctl, M.sm, M.memory))
            mk = torchshim.T
            del torchshim.BACKWARD[:]
        else:
            st.enter_context(mock.patch.object(torch.Tensor, "backward", lambda self, *a, **k: back.append(float(self)) or None))
        back = []
        st.enter_context(quiet_ctx())
        c.cell = Cell(I, mk, z, batch)
        c.initial_prior = mk(P[0, 0])
        picks = []

        def multinomial(probs, num_samples=1, **k):
            i = len(picks)
            p = np.asarray(probs if I.symbolic else probs.numpy(), dtype=object).reshape(-1, L)
            I.check(p.shape[0] == batch, "one distribution per expression")
            out = []
            for b in range(batch):
                want = smax(I, [z[b, i, k] + P[i, b][k] for k in range(L)])
                for k in range(L):
                    I.eq(p[b, k], want[k], "token probability at sampling", **({} if I.symbolic else dict(atol=1e-5)))
                ok = [k for k in range(L) if P[i, b][k] is not None and not (not hasattr(P[i, b][k], "e") and P[i, b][k] == -np.inf)]
                out.append([I.choose(f"a{i}_{b}", ok)])
            picks.append([o[0] for o in out])
            return mk(np.array(out)) if I.symbolic else torch.tensor(out, dtype=torch.int64)
        if I.symbolic:
            st.enter_context(mock.patch.object(torchshim.TorchProxy, "multinomial", staticmethod(multinomial), create=True))
        else:
            st.enter_context(mock.patch.object(torch, "multinomial", multinomial))
        yield c, lib, z, P, obs, picks, asked, (torchshim.BACKWARD if I.symbolic else back), mk


def unroll(I, M, batch, T, soft, sm_kw, ctl_kw, pqt_row=0):
    """one sampled batch, then one training step on it"""
    with setup(I, M, batch, T, sm_kw, ctl_kw, soft) as (c, lib, z, P, obs, picks, asked, back, mk):
        L = lib.L
        actions, o, priors, lengths, fin = c.sample_episodes(batch)
        cell = c.cell
        I.check(len(cell.inputs) == T, "one step per token")
        h = cell.states[0]
        gru = ctl_kw.get("cell") == "gru"
        I.check(isinstance(h, tuple) != gru, "kind of state")
        for x in [h] if gru else h:
            x = np.asarray(x.numpy(), dtype=float)
            I.check(not x.any() and x.shape == (ctl_kw.get("num_layers", 1), batch, 3), "sampling starts from the zero state")
        for i in range(1, T):
            I.check(isinstance(cell.states[i], State) and cell.states[i].n == i - 1,
                    "the network continues from the state it returned for the previous token")
        A, O, Q = [np.asarray(v.detach().numpy(), dtype=object) for v in (actions, o, priors)]
        I.check(A.shape == (batch, T) and O.shape == (batch, 4, T) and Q.shape == (batch, T, L), "recorded shapes")
        for b in range(batch):
            for i in range(T):
                I.check(int(A[b, i]) == picks[i][b], "recorded token")
                I.check([float(v) for v in O[b, :, i]] == [float(v) for v in obs[i, b]], "recorded observation")
                for k in range(L):
                    v, w = Q[b, i, k], P[i, b][k]
                    if not hasattr(w, "e") and not I.concrete or w == -np.inf:
                        I.check(not hasattr(v, "e") and v == w, "recorded mask")
                    else:
                        I.eq(v, w, "recorded mask", **({} if I.symbolic else dict(atol=1e-5)))
        for i, a in enumerate(asked):
            I.check(np.array_equal(np.asarray(a, dtype=int), np.array(picks[:i + 1], dtype=int).T), "tokens handed to the task")
        # a training step on (some rows of) this batch
        lens = [I.choose(f"len{b}", list(range(1, T + 1))) for b in range(batch)]
        r = [I.real(f"r{b}", 0, 1) for b in range(batch)]
        base = I.real("base", 0, 1)
        import torch
        tt = (lambda a, d=object: mk(np.array(a, dtype=object))) if I.symbolic else (lambda a, d=float: torch.tensor(np.array(a, dtype=d)))
        B = M.memory.Batch(actions=actions, obs=o, priors=priors, lengths=tt(lens), rewards=tt(r), on_policy=tt([1] * batch))
        one = [pqt_row]
        Bq = M.memory.Batch(actions=actions[one], obs=o[one], priors=priors[one], lengths=tt([lens[pqt_row]]), rewards=tt([r[pqt_row]]),
                            on_policy=tt([1]))
        steps = []

        class Opt:
            def zero_grad(self):
                steps.append("zero")

            def step(self):
                steps.append("step")
        c.optimizer = Opt()
        cell.rows = [slice(None), one]
        c.train_step(base, B, Bq)
        I.check(steps == ["zero", "step"] and len(back) == 1, "one gradient step")
        rows = [list(range(batch))] + ([one] if c.pqt else [])
        I.check(len(cell.train_inputs) == len(rows), "networks evaluated")
        for (x, h), rr in zip(cell.train_inputs, rows):
            I.check(h is None and x.shape[:2] == (len(rr), T), "whole sequences from the zero state")
            for q, b in enumerate(rr):
                for i in range(T):
                    w = np.asarray(cell.inputs[i], dtype=float).reshape(batch, -1)[b]
                    I.check(np.array_equal(np.asarray(x[q, i], dtype=float), w), "network input at training is that of sampling")
        lp = {(b, i): logp(I, [z[b, i, k] + P[i, b][k] for k in range(L)]) for b in range(batch) for i in range(T)}
        pr = {(b, i): smax(I, [z[b, i, k] + P[i, b][k] for k in range(L)]) for b in range(batch) for i in range(T)}
        g = 1.0 if ctl_kw.get("entropy_gamma") is None else ctl_kw["entropy_gamma"]

        def neglogp(b):
            return sum([-lp[b, i][picks[i][b]] for i in range(lens[b])])

        def ent(b):
            return sum([g ** i * -sum([pr[b, i][k] * lp[b, i][k] for k in range(L) if not (not hasattr(pr[b, i][k], "e") and pr[b, i][k] == 0)])
                        for i in range(lens[b])])
        want = -c.entropy_weight * sum(ent(b) for b in range(batch)) / batch
        if not c.pqt or c.pqt_use_pg:
            want = want + sum([(r[b] - base) * neglogp(b) for b in range(batch)]) / batch
        if c.pqt:
            want = want + c.pqt_weight * neglogp(pqt_row)
        I.eq(back[0], want, "training objective", **({} if I.symbolic else dict(atol=1e-4)))


OBS = dict(observe_action=True)
HARNESSES = [
    H(unroll, [dict(batch=2, T=2, soft=True, sm_kw=OBS, ctl_kw=dict(entropy_weight=0.5, entropy_gamma=0.5)),
               dict(batch=2, T=2, soft=True, sm_kw={}, ctl_kw=dict(entropy_weight=0.25, entropy_gamma=None, pqt=True, pqt_weight=2.0), pqt_row=1),
               dict(batch=2, T=2, soft=True, sm_kw=OBS, ctl_kw=dict(entropy_weight=0.25, entropy_gamma=1.0, pqt=True, pqt_weight=2.0, pqt_use_pg=True)),
               dict(batch=1, T=3, soft=True, sm_kw=OBS, ctl_kw=dict(entropy_weight=0.5, entropy_gamma=0.5)),
               dict(batch=2, T=2, soft=True, sm_kw=dict(embedding=True, embedding_size=2, observe_action=True),
                    ctl_kw=dict(entropy_weight=0.5, entropy_gamma=0.5, num_layers=2)),
               dict(batch=2, T=2, soft=True, sm_kw=OBS, ctl_kw=dict(entropy_weight=0.5, entropy_gamma=0.5, cell="gru")),
               dict(batch=1, T=2, soft=False, sm_kw=dict(observe_dangling=True), ctl_kw=dict(entropy_weight=0.5, entropy_gamma=0.5, pqt=True, pqt_use_pg=True))],
      thorough=[dict(batch=2, T=3, soft=True, sm_kw=OBS, ctl_kw=dict(entropy_weight=0.5, entropy_gamma=0.5)),
                dict(batch=2, T=2, soft=False, sm_kw=OBS, ctl_kw=dict(entropy_weight=0.5, entropy_gamma=0.5))],
      bounds="batches of 1-2 expressions of 2-3 tokens over 3 tokens, all logits, soft masks and rewards (hard masks: 3 patterns)"),
]

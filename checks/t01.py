"""T01: discrete-action Q-learning trainers (DQN, C51, QR-DQN): targets, losses, updates, reports."""
import itertools
import math

import numpy as np
import torch

from mc.core import close, expect, raises, same
from mc.trainkit import Spy, Tab, attach, col, fd, one_step, onehot, sgd, snapshot, unchanged

import reagent.types as rlt
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.dqn_trainer import BCQConfig, DQNTrainer
from reagent.training.imitator_training import ImitatorTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer

LEVEL = "model_checking"
RULE = (
    "tabular Q functions over 3 states x 2-3 actions: every transition (state, action, next state, next action, masks, terminal, "
    "time step) crossed with every option (max-Q/SARSA, double, discounting by time, multi-step, reward boost, loss type, BCQ, "
    "auxiliary evaluation networks); loss, parameters after the step, target networks and reported values against a scalar reference"
)
ASSUMPTIONS = [
    "at least one next action is possible in a non-terminal transition; Q values of one state are distinct",
    "float32 arithmetic within 1e-4",
]
S, LR, TAU = 3, 0.5, 0.25
Q3 = [[1.0, -2.0, 0.5], [0.25, 3.0, -1.0], [-0.5, 1.5, 2.5]]
T3 = [[0.5, 1.0, -3.0], [2.0, -1.5, 4.0], [1.25, -0.75, 0.0]]
ACTS = ["a", "b", "c"]


class Imitator(torch.nn.Module):
    def __init__(self, logits):
        super().__init__()
        self.l = torch.nn.Parameter(torch.tensor(logits), requires_grad=False)

    def forward(self, x):
        return x @ self.l


IM = [[0.0, 3.0, -1.0], [2.0, 0.0, 2.0], [0.5, 0.0, 0.4]]


def softmax(v):
    m = max(v)
    e = [math.exp(x - m) for x in v]
    return [x / sum(e) for x in e]


def transitions(A, full):
    """(s, a, r, s', a' or None, mask, next mask, nonterminal, time_diff, step)"""
    out = []
    masks = [m for m in itertools.product([0, 1], repeat=A) if any(m)]
    k = 0
    for s in range(S):
        for a in range(A):
            for ns in range(S):
                for nm in masks:
                    for na in [x for x in range(A) if nm[x]]:
                        k += 1
                        m = [1] * A
                        m[(a + 1) % A] = k % 2
                        out.append((s, a, [1.0, -0.5, 2.0][k % 3], ns, na, tuple(m), nm, 1, 1 + k % 3, 1 + (k // 2) % 3))
                for na in (None, a):
                    k += 1
                    out.append((s, a, [1.0, -0.5][k % 2], ns, na, (1,) * A, (0,) * A if na is None else (1,) * A, 0, 1 + k % 2, 1 + k % 3))
    return out if full else out[::7] + out[3::11]


def batch_of(rows, A, mask_dtype=torch.float32, metrics=None):
    g = list(zip(*rows))
    return rlt.DiscreteDqnInput(
        state=fd(onehot(g[0], S)), next_state=fd(onehot(g[3], S)), reward=col(g[2]),
        time_diff=col(g[8]), step=col(g[9]), not_terminal=col(g[7]),
        action=onehot(g[1], A), next_action=onehot(g[4], A),
        possible_actions_mask=torch.tensor(g[5], dtype=mask_dtype),
        possible_next_actions_mask=torch.tensor(g[6], dtype=mask_dtype),
        extras=rlt.ExtraData(action_probability=col([0.5] * len(rows)), metrics=metrics),
    )


def ref_discount(opt, row):
    if opt["timing"] == "time":
        return opt["gamma"] ** row[8]
    if opt["timing"] == "steps":
        return opt["gamma"] ** row[9]
    return opt["gamma"]


def allowed(opt, row, A, imit=True):
    m = list(row[6]) if opt["maxq"] else [1 if row[4] == j else 0 for j in range(A)]
    if opt.get("bcq") and opt["maxq"] and imit:
        p = softmax(IM[row[3]][:A])
        m = [x if q / max(p) >= opt["bcq"] else 0 for x, q in zip(m, p)]
    return [j for j in range(A) if m[j]]


def rl_of(opt, A):
    return RLParameters(
        gamma=opt["gamma"], target_update_rate=TAU, maxq_learning=opt["maxq"], q_network_loss=opt.get("loss", "mse"),
        reward_boost={ACTS[A - 1]: 0.75, ACTS[0]: -0.25} if opt["boost"] else None, temperature=0.7,
        use_seq_num_diff_as_time_diff=opt["timing"] == "time", multi_steps=3 if opt["timing"] == "steps" else None,
    )


def boosted(opt, row, A):
    b = {A - 1: 0.75, 0: -0.25} if opt["boost"] else {}
    return row[2] + b.get(row[1], 0.0)


def dloss(kind, d):
    """value and derivative of the elementwise loss at prediction - target = d"""
    if kind == "mse" or abs(d) < 1:
        return (d * d, 2 * d) if kind == "mse" else (0.5 * d * d, d)
    return abs(d) - 0.5, math.copysign(1.0, d)


def argmax(v, idx):
    return max(idx, key=lambda j: v[j])


def options(full=True):
    for gamma in (0.9, 0.0) if full else (0.9,):
        for maxq in (True, False):
            for double in (True, False):
                for timing in ("fixed", "time", "steps"):
                    for boost in (False, True):
                        yield dict(gamma=gamma, maxq=maxq, double=double, timing=timing, boost=boost)


# -- DQN -----------------------------------------------------------------------
def dqn_reference(q, t, rows, opt, A):
    q = [r[:] for r in q]
    B, loss, grads = len(rows), 0.0, {}
    for row in rows:
        s, a, _, ns, na, m, nm, nt = row[:8]
        al = allowed(opt, row, A)
        v = 0.0
        if nt:
            j = argmax(q[ns] if opt["double"] else t[ns], al)
            v = t[ns][j]
        y = boosted(opt, row, A) + ref_discount(opt, row) * nt * v
        l, g = dloss(opt.get("loss", "mse"), q[s][a] - y)
        loss += l / B
        grads[(s, a)] = grads.get((s, a), 0.0) + g / B
    new = [r[:] for r in q]
    for (s, a), g in grads.items():
        new[s][a] -= LR * g
    nt_ = [[TAU * x + (1 - TAU) * y for x, y in zip(r1, r2)] for r1, r2 in zip(new, t)]
    return loss, new, nt_


def dqn_run(ctx, key, opt, rows, A, dtype=torch.float32, steps=1):
    def case():
        q, t = [r[:A] for r in Q3], [r[:A] for r in T3]
        tr = DQNTrainer(
            Tab(q), Tab(t), None, actions=ACTS[:A], rl=rl_of(opt, A), double_q_learning=opt["double"],
            imitator=Imitator([r[:A] for r in IM]) if opt.get("bcq") else None,
            bcq=BCQConfig(drop_threshold=opt["bcq"]) if opt.get("bcq") else None,
            optimizer=sgd(LR), evaluation=EvaluationParameters(calc_cpe_in_training=False),
        )
        spy = attach(tr)
        b = batch_of(rows, A, dtype)
        before = snapshot(b)
        opts = tr.configure_optimizers()
        for k in range(steps):
            loss, q2, t2 = dqn_reference(q, t, rows, opt, A)
            got = one_step(tr, b, k, opts)
            close(got[0], loss, "td loss")
            close(tr.q_network.w, q2, "Q values after the step")
            close(tr.q_network_target.w, t2, "target Q values after the step")
            close(spy.last("model_values"), [q[r[0]] for r in rows], "reported values")
            close(spy.last("td_loss"), loss, "reported loss")
            close(spy.last("logged_rewards"), [[boosted(opt, r, A)] for r in rows], "reported rewards")
            same(spy.last("logged_actions"), [[r[1]] for r in rows], "reported actions")
            if not opt.get("bcq"):
                ch = [argmax(q[r[0]], [j for j in range(A) if r[5][j]] if opt["maxq"] else [r[1]]) for r in rows]
                same(spy.last("model_action_idxs"), [[c] for c in ch], "reported model actions")
            q, t = q2, t2
        unchanged(before, b)
        ctx.outcome((q, t))
    ctx.state(key)
    ctx.step(steps)
    ctx.run(key, case)


def dqn_single(A, maxq):
    def fn(ctx):
        rows = transitions(A, A == 2)
        for opt in options():
            if opt["maxq"] != maxq:
                continue
            for i, r in enumerate(rows if opt["timing"] != "steps" else rows[::2]):
                dqn_run(ctx, ("dqn", A, sorted(opt.items()), i), opt, [r], A)
    return fn


def dqn_batches(ctx):
    A = 2
    rows = transitions(A, True)
    sel = rows[::6]
    for o, opt in enumerate(options(False)):
        for loss in ("mse", "huber"):
            opt = dict(opt, loss=loss)
            for i, r1 in enumerate(sel):
                for j, r2 in enumerate(sel):
                    if (i + j + o) % 6:
                        continue
                    dt = [torch.float32, torch.int64, torch.uint8][(i + j) % 3] if opt["maxq"] else torch.float32
                    dqn_run(ctx, ("pair", sorted(opt.items()), i, j), opt, [r1, r2, rows[(i * 5 + j) % len(rows)]], A, dt, steps=2)


def dqn_bcq(ctx):
    for A in (2, 3):
        for thr in (0.05, 0.3, 0.9):
            rows = transitions(A, A == 2)
            for opt in options(False):
                if opt["timing"] != "fixed":
                    continue
                opt = dict(opt, bcq=thr)
                rs = [r for r in rows if r[7] == 0 or allowed(opt, r, A)]
                for i, r in enumerate(rs):
                    dt = [torch.float32, torch.int64][i % 2]
                    dqn_run(ctx, ("bcq", A, thr, sorted(opt.items()), i), opt, [r, rs[(i * 3 + 1) % len(rs)]], A, dt, steps=2)


# -- with the auxiliary evaluation networks --------------------------------------
def cpe_group(kind):
    def fn(ctx):
        A, N = 2, 3
        rows = transitions(A, True)[::5]
        for nm in (0, 1, 2):
            W = (nm + 1) * A
            R0 = [[0.1 * (i + 1) * (-1) ** j + 0.05 * j for j in range(W)] for i in range(S)]
            C0 = [[0.2 * (i - 1) + 0.3 * j for j in range(W)] for i in range(S)]
            CT0 = [[-0.15 * i + 0.25 * j * (-1) ** i for j in range(W)] for i in range(S)]
            for opt in options(False):
                for i, r1 in enumerate(rows):
                    if (i + nm) % 3 and opt["timing"] != "fixed":
                        continue
                    r2 = rows[(i * 7 + 2) % len(rows)]
                    rs = [r1, r2]
                    def case():
                        mt = torch.tensor([[0.5 * k - 1 + q for q in range(nm)] for k in range(2)]) if nm else None
                        kw = dict(
                            reward_network=Tab(R0), q_network_cpe=Tab(C0), q_network_cpe_target=Tab(CT0), actions=ACTS[:A],
                            metrics_to_score=["m%d" % q for q in range(nm)] or None, rl=rl_of(opt, A), double_q_learning=opt["double"],
                            optimizer=sgd(LR), evaluation=EvaluationParameters(calc_cpe_in_training=True))
                        if kind == "dqn":
                            q, t = [r[:A] for r in Q3], [r[:A] for r in T3]
                            tr = DQNTrainer(Tab(q), Tab(t), **kw)
                        else:
                            q3, t3 = qr_tables(A, N)
                            tr = QRDQNTrainer(Tab(flat(q3), (A, N)), Tab(flat(t3), (A, N)), num_atoms=N, cpe_optimizer=sgd(LR),
                                              **dict(kw, optimizer=sgd(LR)))
                            q = [[sum(x) / N for x in r] for r in q3]
                        tr.trainer = None
                        spy = attach(tr)
                        b = batch_of(rs, A, metrics=mt)
                        before = snapshot(b)
                        got = one_step(tr, b)
                        same(len(got), 4, "number of optimization steps")
                        if kind == "dqn":
                            loss, q2, t2 = dqn_reference(q, t, rs, opt, A)
                            close(tr.q_network.w, q2, "Q values after the step")
                            close(tr.q_network_target.w, t2, "target Q values")
                        else:
                            loss, n3, nt3 = qr_reference(q3, t3, rs, opt, A, N)
                            close(tr.q_network.w, flat(n3), "Q values after the step")
                            close(tr.q_network_target.w, flat(nt3), "target Q values")
                            q2 = [[sum(x) / N for x in r] for r in n3]
                        close(got[0], loss, "td loss")
                        R, C = [x[:] for x in R0], [x[:] for x in C0]
                        B, M = 2, nm + 1
                        rl, cl = 0.0, 0.0
                        gr, gc = {}, {}
                        for k, row in enumerate(rs):
                            vals = [row[2]] + ([float(x) for x in mt[k]] if nm else [])
                            s, a, ns, nt = row[0], row[1], row[3], row[7]
                            al = [j for j in range(A) if row[6][j]] if opt["maxq"] else [j for j in range(A) if row[4] == j]
                            pr = [0.0] * A
                            if al:
                                sm = softmax([q2[ns][j] / 0.7 for j in al])
                                for j, p in zip(al, sm):
                                    pr[j] = p
                            for m in range(M):
                                d = R0[s][m * A + a] - vals[m]
                                rl += d * d / (B * M)
                                gr[(s, m * A + a)] = gr.get((s, m * A + a), 0) + 2 * d / (B * M)
                                nxt = sum(CT0[ns][m * A + j] * pr[j] for j in range(A)) * nt
                                l, g = dloss("mse", C0[s][m * A + a] - (vals[m] + ref_discount(opt, row) * nxt))
                                cl += l / (B * M)
                                gc[(s, m * A + a)] = gc.get((s, m * A + a), 0) + g / (B * M)
                        for (s, j), g in gr.items():
                            R[s][j] -= LR * g
                        for (s, j), g in gc.items():
                            C[s][j] -= LR * g
                        close(got[1], rl, "reward loss")
                        close(got[2], cl, "evaluation q loss")
                        close(tr.reward_network.w, R, "reward network after the step")
                        close(tr.q_network_cpe.w, C, "evaluation q network after the step")
                        close(tr.q_network_cpe_target.w, [[TAU * x + (1 - TAU) * y for x, y in zip(a_, b_)] for a_, b_ in zip(C, CT0)], "evaluation target network")
                        close(spy.last("reward_loss"), rl, "reported reward loss")
                        close(spy.last("model_rewards"), [R0[r[0]][:A] for r in rs], "reported model rewards")
                        for k, row in enumerate(rs):
                            al = [j for j in range(A) if row[5][j]] if opt["maxq"] else [row[1]]
                            sm = softmax([q[row[0]][j] / 0.7 for j in al])
                            close(spy.last("model_propensities")[k], [sm[al.index(j)] if j in al else 0.0 for j in range(A)], "reported propensities")
                        unchanged(before, b)
                        ctx.outcome((R, C))
                    key = (kind, nm, sorted(opt.items()), i)
                    ctx.state(key); ctx.step(4)
                    ctx.run(key, case)
    return fn


# -- QR-DQN ----------------------------------------------------------------------
def qr_tables(A, N):
    q = [[[Q3[s][a] + 0.4 * (i - (N - 1) / 2) * (1 + 0.5 * a) for i in range(N)] for a in range(A)] for s in range(S)]
    t = [[[T3[s][a] + 0.7 * (i - (N - 1) / 2) * (1 + 0.25 * s) for i in range(N)] for a in range(A)] for s in range(S)]
    return q, t


def flat(t):
    return [[x for a in r for x in a] for r in t]


def qr_reference(q, t, rows, opt, A, N):
    B = len(rows)
    mean = lambda v: sum(v) / len(v)
    loss, grads = 0.0, {}
    for row in rows:
        s, a, _, ns, na, m, nm, nt = row[:8]
        nxt = [0.0] * N
        if nt:
            j = argmax([mean(x) for x in (q if opt["double"] else t)[ns]], allowed(opt, row, A))
            nxt = t[ns][j]
        y = [boosted(opt, row, A) + ref_discount(opt, row) * nt * z for z in nxt]
        for i in range(N):
            for j in range(N):
                td = y[i] - q[s][a][j]
                w = abs((j + 0.5) / N - (1.0 if td < 0 else 0.0))
                hub = 0.5 * td * td if abs(td) < 1 else abs(td) - 0.5
                loss += w * hub / (N * N * B)
                g = -w * max(-1.0, min(1.0, td)) / (N * N * B)
                grads[(s, a, j)] = grads.get((s, a, j), 0.0) + g
    new = [[x[:] for x in r] for r in q]
    for (s, a, j), g in grads.items():
        new[s][a][j] -= LR * g
    nt_ = [[[TAU * x + (1 - TAU) * y for x, y in zip(u, v)] for u, v in zip(r1, r2)] for r1, r2 in zip(new, t)]
    return loss, new, nt_


def qr_group(maxq):
    def fn(ctx):
        for A in (2, 3):
            for N in (1, 2, 3) if A == 2 else (2,):
                rows = transitions(A, A == 2)
                for opt in options(A == 2):
                    if opt["maxq"] != maxq:
                        continue
                    for i, r in enumerate(rows[::3]):
                        rs = [r] if i % 2 else [r, rows[(5 * i + 1) % len(rows)]]
                        def case():
                            q, t = qr_tables(A, N)
                            tr = QRDQNTrainer(
                                Tab(flat(q), (A, N)), Tab(flat(t), (A, N)), actions=ACTS[:A], rl=rl_of(opt, A), num_atoms=N,
                                double_q_learning=opt["double"], optimizer=sgd(LR), evaluation=EvaluationParameters(calc_cpe_in_training=False))
                            spy = attach(tr)
                            b = batch_of(rs, A, [torch.float32, torch.int64][i % 2])
                            before = snapshot(b)
                            loss, n, nt = qr_reference(q, t, rs, opt, A, N)
                            got = one_step(tr, b)
                            close(got[0], loss, "td loss")
                            close(tr.q_network.w, flat(n), "quantiles after the step")
                            close(tr.q_network_target.w, flat(nt), "target quantiles")
                            m = [[sum(x) / N for x in r_] for r_ in q]
                            close(spy.last("model_values"), [m[r_[0]] for r_ in rs], "reported values")
                            ch = [argmax(m[r_[0]], [j for j in range(A) if r_[5][j]] if opt["maxq"] else [r_[1]]) for r_ in rs]
                            same(spy.last("model_action_idxs").flatten(), ch, "reported model actions")
                            unchanged(before, b)
                            ctx.outcome(n)
                        key = (A, N, sorted(opt.items()), i)
                        ctx.state(key); ctx.step()
                        ctx.run(key, case)
    return fn


# -- C51 -------------------------------------------------------------------------
def c51_tables(A, N):
    q = [[[0.3 * ((i * (a + 2) + s) % 4) + (0.2 * i if a == s % A else -0.1 * i) for i in range(N)] for a in range(A)] for s in range(S)]
    t = [[[0.25 * ((i * (s + 1) + 2 * a) % 3) - (0.15 * i if a == 0 else -0.3 * i * a) for i in range(N)] for a in range(A)] for s in range(S)]
    return q, t


def c51_reference(q, t, rows, opt, A, N, lo, hi):
    B = len(rows)
    step = (hi - lo) / (N - 1)
    sup = [lo + i * step for i in range(N)]
    qd = [[softmax(x) for x in r] for r in q]
    td = [[softmax(x) for x in r] for r in t]
    val = lambda d: sum(p * z for p, z in zip(d, sup))
    loss, grads = 0.0, {}
    for row in rows:
        s, a, _, ns, na, m, nm, nt = row[:8]
        target = [0.0] * N
        if nt:
            j = argmax([val(x) for x in (qd if opt["double"] else td)[ns]], allowed(opt, row, A))
            src = list(zip(td[ns][j], [boosted(opt, row, A) + ref_discount(opt, row) * z for z in sup]))
        else:
            src = [(1.0, boosted(opt, row, A))]
        for p, y in src:
            b = (max(lo, min(hi, y)) - lo) / step
            f = min(int(math.floor(b + 1e-9)), N - 2)
            target[f] += p * (f + 1 - b)
            target[f + 1] += p * (b - f)
        for i in range(N):
            loss -= target[i] * math.log(qd[s][a][i]) / B
            grads[(s, a, i)] = grads.get((s, a, i), 0.0) + (qd[s][a][i] - target[i]) / B
    new = [[x[:] for x in r] for r in q]
    for (s, a, j), g in grads.items():
        new[s][a][j] -= LR * g
    nt_ = [[[TAU * x + (1 - TAU) * y for x, y in zip(u, v)] for u, v in zip(r1, r2)] for r1, r2 in zip(new, t)]
    return loss, new, nt_, [[val(x) for x in r] for r in qd]


def c51_group(maxq):
    def fn(ctx):
        for A in (2, 3):
            for N, lo, hi in ((2, -1.0, 1.0), (3, -2.0, 2.0), (5, -1.0, 3.0)) if A == 2 else ((4, -2.0, 1.0),):
                rows = transitions(A, A == 2)
                for opt in options(A == 2):
                    if opt["maxq"] != maxq:
                        continue
                    for i, r in enumerate(rows[::3]):
                        rs = [r] if i % 2 else [r, rows[(5 * i + 1) % len(rows)]]
                        def case():
                            q, t = c51_tables(A, N)
                            mk = lambda w: CategoricalDQN(Tab(flat(w), (A, N)), qmin=lo, qmax=hi, num_atoms=N)
                            tr = C51Trainer(mk(q), mk(t), actions=ACTS[:A], rl=rl_of(opt, A), num_atoms=N, qmin=lo, qmax=hi,
                                            double_q_learning=opt["double"], optimizer=sgd(LR))
                            spy = attach(tr)
                            b = batch_of(rs, A, [torch.float32, torch.int64][i % 2])
                            before = snapshot(b)
                            loss, n, nt, vals = c51_reference(q, t, rs, opt, A, N, lo, hi)
                            got = one_step(tr, b)
                            close(got[0], loss, "td loss")
                            close(tr.q_network.distributional_network.w, flat(n), "logits after the step")
                            close(tr.q_network_target.distributional_network.w, flat(nt), "target logits")
                            close(spy.last("model_values"), [vals[r_[0]] for r_ in rs], "reported values")
                            close(spy.last("logged_rewards"), [[boosted(opt, r_, A)] for r_ in rs], "reported rewards")
                            ch = [argmax(vals[r_[0]], [j for j in range(A) if r_[5][j]] if opt["maxq"] else [r_[1]]) for r_ in rs]
                            same(spy.last("model_action_idxs").flatten(), ch, "reported model actions")
                            unchanged(before, b)
                            ctx.outcome(n)
                        key = (A, N, sorted(opt.items()), i)
                        ctx.state(key); ctx.step()
                        ctx.run(key, case)
    return fn


def c51_supports(ctx):
    """every number of atoms over several value ranges: targets at, between and beyond the ends of the support"""
    A, opt = 2, dict(gamma=0.9, maxq=True, double=False, timing="fixed", boost=False)
    for lo, hi in ((-100.0, 200.0), (0.0, 1.0), (-1.0, 1.0), (0.0, 0.1), (-10.0, 10.0), (-0.5, 0.7)):
        for N in range(2, 131):
            rewards = [lo, hi, (lo + hi) / 2, lo + (hi - lo) * 0.37, hi + 1.0, lo - 1.0]
            rows = [(i % S, i % A, r, (i + 1) % S, 0, (1, 1), (1, 1), nt, 1, 1) for i, r in enumerate(rewards) for nt in (0, 1)]

            def case():
                q, t = [[[[0.01 * ((7 * i + a) % 5) for i in range(N)] for a in range(A)] for s in range(S)] for _ in range(2)]
                mk = lambda w: CategoricalDQN(Tab(flat(w), (A, N)), qmin=lo, qmax=hi, num_atoms=N)
                tr = C51Trainer(mk(q), mk(t), actions=ACTS[:A], rl=rl_of(opt, A), num_atoms=N, qmin=lo, qmax=hi, double_q_learning=False, optimizer=sgd(LR))
                attach(tr)
                loss, n, nt, _ = c51_reference(q, t, rows, opt, A, N, lo, hi)
                got = one_step(tr, batch_of(rows, A))
                close(got[0], loss, "td loss", rtol=2e-3)
                close(tr.q_network.distributional_network.w, flat(n), "logits after the step", atol=1e-3)
                ctx.outcome(n)

            ctx.state((lo, hi, N))
            ctx.step()
            ctx.run((lo, hi, N), case)


class Batch:
    def __init__(self, training_input):
        self.training_input = training_input


def imitation(ctx):
    """behaviour cloning: softmax regression on the logged actions, one step per `minibatches_per_step` batches"""
    rows = transitions(3, False)
    for per_step in (1, 2, 3):
        for hist in itertools.product((0, 1, 2), repeat=4):  # 0: train on one row, 1: train on three rows, 2: only evaluate
            def case():
                net = Imitator(IM)
                net.l.requires_grad = True
                tr = ImitatorTrainer(net, minibatches_per_step=per_step, optimizer=sgd(LR))
                w = [r[:] for r in IM]
                acc, n = [[0.0] * 3 for _ in range(S)], 0
                for k, op in enumerate(hist):
                    rs = [rows[(7 * k + 5 * j) % len(rows)] for j in range(3 if op == 1 else 1)]

                    b = batch_of(rs, 3)
                    got = tr.train(Batch(b), train=op != 2)
                    hits = sum(argmax(w[r[0]], range(3)) == r[1] for r in rs)
                    close(got, round(hits / len(rs), 3), "accuracy")
                    if op != 2:
                        n += 1
                        for r in rs:
                            p = softmax(w[r[0]])
                            for j in range(3):
                                acc[r[0]][j] += (p[j] - (j == r[1])) / len(rs)
                        if n % per_step == 0:
                            w = [[x - LR * g / per_step for x, g in zip(u, v)] for u, v in zip(w, acc)]
                            acc = [[0.0] * 3 for _ in range(S)]
                    close(net.l, w, "imitator after batch %d" % k)
                ctx.outcome(w)

            ctx.state((per_step, hist))
            ctx.step(len(hist))
            ctx.run((per_step, hist), case)


def refusals(ctx):
    def both():
        b = batch_of([transitions(2, True)[0]], 2)
        for mk in (
            lambda rl: DQNTrainer(Tab([r[:2] for r in Q3]), Tab([r[:2] for r in T3]), None, actions=ACTS[:2], rl=rl,
                                  evaluation=EvaluationParameters(calc_cpe_in_training=False)),
        ):
            tr = mk(RLParameters(use_seq_num_diff_as_time_diff=True, multi_steps=2))
            attach(tr)
            raises(lambda: one_step(tr, b), "time difference and multi-step discounting are exclusive")
        raises(lambda: DQNTrainer(Tab(Q3), Tab(T3), None, actions=ACTS, rl=RLParameters(q_network_loss="nope"),
                                  evaluation=EvaluationParameters(calc_cpe_in_training=False)), "unknown loss")
        raises(lambda: DQNTrainer(Tab(Q3), Tab(T3), None, actions=ACTS, rl=RLParameters(reward_boost={"zzz": 1.0}),
                                  evaluation=EvaluationParameters(calc_cpe_in_training=False)), "boost of an unknown action")
        raises(lambda: DQNTrainer(Tab(Q3), Tab(T3), None, actions=ACTS), "evaluation needs its networks")
    ctx.run("refusals", both)
    ctx.state("refusals")


def history(fams, depth):
    def fn(ctx):
        from mc.trainers import history_group

        history_group(fams, depth)(ctx)
    return fn


def groups(tier):
    return [
        ("dqn-max-2", dqn_single(2, True)), ("dqn-sarsa-2", dqn_single(2, False)),
        ("dqn-max-3", dqn_single(3, True)), ("dqn-sarsa-3", dqn_single(3, False)),
        ("dqn-batches", dqn_batches), ("dqn-bcq", dqn_bcq),
        ("dqn-cpe", cpe_group("dqn")), ("qr-cpe", cpe_group("qr")),
        ("qr-max", qr_group(True)), ("qr-sarsa", qr_group(False)),
        ("c51-max", c51_group(True)), ("c51-sarsa", c51_group(False)),
        ("c51-supports", c51_supports), ("imitation", imitation), ("refusals", refusals),
    ] + [("history-%s" % f, history((f,), 4 if tier == "thorough" else 3)) for f in ('dqn', 'qr', 'c51')]

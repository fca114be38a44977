"""T02: parametric-action DQN, SlateQ and reward models: targets, losses, updates."""
import itertools
import math

import torch

from mc.core import close, expect, same
from mc.trainkit import Tab, TabSA, attach, col, fd, one_step, onehot, sgd, snapshot, unchanged

import reagent.types as rlt
from reagent.models.base import ModelBase
from reagent.parameters import RLParameters
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer
from reagent.training.slate_q_trainer import SlateQTrainer

LEVEL = "model_checking"
RULE = (
    "tabular Q functions over (state, item): every transition (state, action, next state, logged next action or slate, candidate "
    "order and mask, terminal, time step) crossed with every option, alone and in batches, over 1 and 3 consecutive steps; losses, "
    "all parameters after the step, target parameters and reports against a scalar reference"
)
ASSUMPTIONS = [
    "a non-terminal transition has at least one possible next candidate; Q values of one state are distinct",
    "float32 arithmetic within 1e-4",
]
S, A, LR, TAU = 3, 3, 0.5, 0.25
Q = [[1.0, -2.0, 0.5], [0.25, 3.0, -1.0], [-0.5, 1.5, 2.5]]
T = [[0.5, 1.0, -3.0], [2.0, -1.5, 4.0], [1.25, -0.75, 0.0]]
R = [[0.1, 0.2, 0.3], [-0.4, 0.5, 0.6], [0.7, -0.8, 0.9]]


class TabReward(ModelBase):
    """(state one-hot, action one-hot) -> `n` numbers"""

    def __init__(self, w, n):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([[[x * (1 + k) for k in range(n)] for x in r] for r in w]))

    def forward(self, state, action):
        return torch.einsum("bs,ba,sak->bk", state.float_features, action.float_features, self.w)


def dloss(kind, d):
    if kind == "mse":
        return d * d, 2 * d
    return (0.5 * d * d, d) if abs(d) < 1 else (abs(d) - 0.5, math.copysign(1.0, d))


def discount(opt, time, step):
    return opt["gamma"] ** {"fixed": 1, "time": time, "steps": step}[opt["timing"]]


def rl_of(opt):
    return RLParameters(
        gamma=opt["gamma"], target_update_rate=TAU, maxq_learning=opt["maxq"], q_network_loss=opt["loss"],
        use_seq_num_diff_as_time_diff=opt["timing"] == "time", multi_steps=3 if opt["timing"] == "steps" else None,
    )


# -- parametric ------------------------------------------------------------------
def p_rows():
    """(s, a, r, ns, logged next, candidates, mask, nonterminal, time, step)"""
    out, k = [], 0
    perms = list(itertools.permutations(range(A)))
    for s, a, ns in itertools.product(range(S), range(A), range(S)):
        for m in itertools.product([0, 1], repeat=A):
            if not any(m):
                continue
            for na in range(A):
                k += 1
                out.append((s, a, [1.0, -0.5, 2.0][k % 3], ns, na, perms[k % 6], m, 1, 1 + k % 3, 1 + (k // 2) % 3))
        for m in ((0,) * A, (1,) * A):
            k += 1
            out.append((s, a, [1.0, -0.5][k % 2], ns, None, perms[k % 6], m, 0, 1 + k % 3, 1 + k % 2))
    return out


def p_batch(rows, dtype, metrics):
    g = list(zip(*rows))
    cand = fd(torch.cat([onehot(c, A) for c in g[5]]))
    return rlt.ParametricDqnInput(
        state=fd(onehot(g[0], S)), next_state=fd(onehot(g[3], S)), reward=col(g[2]), time_diff=col(g[8]), step=col(g[9]),
        not_terminal=col(g[7]), action=fd(onehot(g[1], A)), next_action=fd(onehot(g[4], A)),
        possible_actions=fd(torch.cat([torch.eye(A)] * len(rows))), possible_actions_mask=torch.ones(len(rows), A, dtype=dtype),
        possible_next_actions=cand, possible_next_actions_mask=torch.tensor(g[6], dtype=dtype),
        extras=rlt.ExtraData(metrics=torch.tensor([[r[2] * 3 + 1] for r in rows]) if metrics else None),
    )


def p_ref(q, t, rw, rows, opt):
    B, n = len(rows), 1 + opt["metrics"]
    loss, g = 0.0, {}
    rloss, rg = 0.0, {}
    for s, a, r, ns, na, cand, m, nt, td, st in rows:
        v = 0.0
        if nt and opt["maxq"]:
            al = [c for c, ok in zip(cand, m) if ok]
            tab = q if opt["double"] else t
            v = t[ns][max(al, key=lambda j: tab[ns][j])]
        elif nt:
            v = t[ns][na]
        l, d = dloss(opt["loss"], q[s][a] - (r + discount(opt, td, st) * v))
        loss += l / B
        g[(s, a)] = g.get((s, a), 0.0) + d / B
        for k, y in enumerate([r, r * 3 + 1][:n]):
            e = rw[s][a][k] - y
            rloss += e * e / (B * n)
            rg[(s, a, k)] = rg.get((s, a, k), 0.0) + 2 * e / (B * n)
    q2 = [x[:] for x in q]
    for (s, a), d in g.items():
        q2[s][a] -= LR * d
    rw2 = [[x[:] for x in y] for y in rw]
    for (s, a, k), d in rg.items():
        rw2[s][a][k] -= LR * d
    t2 = [[TAU * x + (1 - TAU) * y for x, y in zip(u, v)] for u, v in zip(q2, t)]
    return loss, rloss, q2, t2, rw2


def p_run(ctx, key, opt, rows, dtype=torch.float32, steps=1):
    def case():
        n = 1 + opt["metrics"]
        q, t = [r[:] for r in Q], [r[:] for r in T]
        rw = [[[x * (1 + k) for k in range(n)] for x in r] for r in R]
        tr = ParametricDQNTrainer(TabSA(q), TabSA(t), TabReward(R, n), rl=rl_of(opt), double_q_learning=opt["double"], optimizer=sgd(LR))
        spy = attach(tr)
        b = p_batch(rows, dtype, opt["metrics"])
        before = snapshot(b)
        opts = tr.configure_optimizers()
        for k in range(steps):
            loss, rloss, q2, t2, rw2 = p_ref(q, t, rw, rows, opt)
            got = one_step(tr, b, k, opts)
            close(got[0], loss, "td loss")
            close(got[1], rloss, "reward loss")
            close(tr.q_network.w, q2, "Q values after the step")
            close(tr.q_network_target.w, t2, "target values after the step")
            close(tr.reward_network.w, rw2, "reward model after the step")
            close(spy.last("td_loss"), loss, "reported td loss")
            close(spy.last("reward_loss"), rloss, "reported reward loss")
            close(spy.last("logged_rewards"), [[r[2]] for r in rows], "reported rewards")
            close(spy.last("model_values_on_logged_actions"), [[q[r[0]][r[1]]] for r in rows], "reported values")
            q, t, rw = q2, t2, rw2
        unchanged(before, b)
        ctx.outcome((q, t, rw))

    ctx.state(key)
    ctx.step(steps)
    ctx.run(key, case)


def p_options():
    for gamma, maxq, double, timing, loss in itertools.product(
        (0.9, 0.5, 0.0), (True, False), (True, False), ("fixed", "time", "steps"), ("mse", "huber")
    ):
        yield dict(gamma=gamma, maxq=maxq, double=double, timing=timing, loss=loss, metrics=0)


def parametric_single(maxq, timing):
    def fn(ctx):
        rows = p_rows()
        for opt in p_options():
            if opt["maxq"] != maxq or opt["timing"] != timing or (opt["gamma"] != 0.9 and opt["loss"] == "huber"):
                continue
            for i, r in enumerate(rows if opt["gamma"] == 0.9 and opt["loss"] == "mse" else rows[::5]):
                p_run(ctx, ("parametric", sorted(opt.items()), i), opt, [r])

    return fn


def parametric_batches(ctx):
    rows = p_rows()
    for opt in p_options():
        if opt["gamma"] == 0.0:
            continue
        for metrics in (0, 1):
            o = dict(opt, metrics=metrics)
            for B, off, dt in itertools.product((1, 2, 3, 4), (0, 50), (torch.float32, torch.uint8, torch.bool)):
                p_run(ctx, ("batch", sorted(o.items()), B, off, str(dt)[6:]), o, [rows[(off + 37 * j) % len(rows)] for j in range(B)], dt, 3)


# -- SlateQ ------------------------------------------------------------------------
C = 3  # candidates per request
VAL = [0.2, 0.7, 0.1]


def sq_rows(K):
    out, k = [], 0
    slates = list(itertools.permutations(range(C), K))
    for s, ns in itertools.product(range(S), range(S)):
        for a in slates:
            for na in slates:
                k += 1
                out.append((s, a, tuple([1.0, -0.5, 2.0][(k + j) % 3] for j in range(K)), tuple([1, (k >> 1) & 1, (k >> 2) & 1][(j + k) % 3] for j in range(K)), ns, na, 1, k))
            k += 1
            out.append((s, a, tuple([1.0, 0.5, 2.0][(k + j) % 3] for j in range(K)), tuple([1] + [(k + j) & 1 for j in range(K - 1)]), ns, (C,) * K if k % 2 else slates[k % len(slates)], 0, k))
    for i, r in enumerate(out):
        if not any(r[3]):
            out[i] = r[:3] + ((1,) * K,) + r[4:]
    return out


def sq_docs(k):
    """(item of each candidate, value of each candidate)"""
    rot = [(k + j) % C for j in range(C)]
    return rot, [VAL[(k // 3 + j) % C] for j in range(C)]


def sq_batch(rows):
    def feat(idx, shift):
        docs = [sq_docs(r[7] + shift) for r in rows]
        return rlt.FeatureData(
            float_features=onehot([r[idx] for r in rows], S),
            candidate_docs=rlt.DocList(
                float_features=torch.stack([onehot(d[0], C) for d in docs]), mask=torch.ones(len(rows), C, dtype=torch.bool),
                value=torch.tensor([d[1] for d in docs]),
            ),
        )

    return rlt.SlateQInput(
        state=feat(0, 0), next_state=feat(4, 1), action=torch.tensor([r[1] for r in rows]), next_action=torch.tensor([r[5] for r in rows]),
        reward=torch.tensor([r[2] for r in rows]), reward_mask=torch.tensor([r[3] for r in rows], dtype=torch.bool),
        not_terminal=col([r[6] for r in rows]), time_diff=col([1.0] * len(rows)), step=None, extras=rlt.ExtraData(),
    )


def sq_ref(q, t, rows, gamma, single):
    terms = []
    for s, a, rew, mask, ns, na, nt, k in rows:
        items, _ = sq_docs(k)
        nitems, nval = sq_docs(k + 1)
        v = 0.0
        if nt:
            w = [nval[c] for c in na]
            if single:
                e = [math.exp(x) for x in w]
                w = [x / sum(e) for x in e]
            v = sum(wi * t[ns][nitems[c]] for wi, c in zip(w, na))
            if not single:
                v /= len(a)
        for j, c in enumerate(a):
            if single and not mask[j]:
                continue
            terms.append((s, items[c], rew[j] + gamma * v))
    loss = sum((q[s][i] - y) ** 2 for s, i, y in terms) / len(terms)
    q2 = [r[:] for r in q]
    for s, i, y in terms:
        q2[s][i] -= LR * 2 * (q[s][i] - y) / len(terms)
    t2 = [[TAU * x + (1 - TAU) * y for x, y in zip(u, v)] for u, v in zip(q2, t)]
    if single:
        vals = [q[s][i] for s, i, _ in terms]
    else:
        vals = [[sum(q[r[0]][sq_docs(r[7])[0][c]] for c in r[1])] for r in rows]
    return loss, q2, t2, vals


def sq_run(ctx, key, rows, gamma, single, steps=1, default=False):
    def case():
        q, t = [r[:] for r in Q], [r[:] for r in T]
        kw = {} if default else dict(rl=RLParameters(gamma=gamma, target_update_rate=TAU, maxq_learning=False), single_selection=single)
        tr = SlateQTrainer(TabSA(q), TabSA(t), optimizer=sgd(LR), **kw)
        if default:
            tr.rl_parameters = RLParameters(gamma=gamma, target_update_rate=TAU, maxq_learning=tr.rl_parameters.maxq_learning)
        spy = attach(tr)
        tr.log = lambda *a, **k: None
        b = sq_batch(rows)
        before = snapshot(b)
        opts = tr.configure_optimizers()
        for k in range(steps):
            loss, q2, t2, vals = sq_ref(q, t, rows, gamma, single)
            got = one_step(tr, b, k, opts)
            close(got[0], loss, "td loss")
            close(tr.q_network.w, q2, "Q values after the step")
            close(tr.q_network_target.w, t2, "target values after the step")
            close(spy.last("td_loss"), loss, "reported td loss")
            close(spy.last("model_values_on_logged_actions"), vals, "reported values")
            q, t = q2, t2
        unchanged(before, b)
        ctx.outcome((q, t))

    ctx.state(key)
    ctx.step(steps)
    ctx.run(key, case)


def slate_single(K):
    def fn(ctx):
        for single, gamma in itertools.product((True, False), (0.9, 0.0)):
            for i, r in enumerate(sq_rows(K)):
                sq_run(ctx, ("slateq", K, single, gamma, i), [r], gamma, single)

    return fn


def slate_batches(ctx):
    for K, single, gamma in itertools.product((1, 2, 3), (True, False), (0.9, 0.5)):
        rows = sq_rows(K)
        for B, off in itertools.product((2, 3, 4), range(0, 60, 5)):
            sq_run(ctx, ("slateq-batch", K, single, gamma, B, off), [rows[(off + 7 * j) % len(rows)] for j in range(B)], gamma, single, 3)
    sq_run(ctx, "slateq-defaults", sq_rows(2)[:3], 0.9, True, default=True)


# -- reward models -------------------------------------------------------------------
class OneParam(ModelBase):
    def __init__(self, w, sig):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(w))
        self.sig = sig

    def forward(self, b):
        x = b.state.float_features @ self.w
        x = torch.sigmoid(x) if self.sig else x
        return rlt.RewardNetworkOutput(predicted_reward=x.unsqueeze(1))


def rew_loss(kind, p, y):
    d = p - y
    if kind == "MSE":
        return d * d, 2 * d
    if kind == "SmoothL1Loss":
        return (0.5 * d * d, d) if abs(d) < 1 else (abs(d) - 0.5, math.copysign(1, d))
    if kind == "L1Loss":
        return abs(d), math.copysign(1, d) if d else 0.0
    return -(y * math.log(p) + (1 - y) * math.log(1 - p)), (p - y) / (p * (1 - p))


def reward_models(ctx):
    w0 = [0.25, -1.5, 2.25]
    for kind in ("MSE", "SmoothL1Loss", "L1Loss", "BCELoss"):
        bce = kind == "BCELoss"
        alphabet = (0.0, 1.0) if bce else (-1.0, 0.5, 3.0)
        for thr in (None, 0.5, 5.0):
            for B in (1, 2, 3):
                for states in itertools.product(range(S), repeat=B):
                    for ys in itertools.product(alphabet, repeat=B):
                        if thr is not None and not any(y <= thr for y in ys):
                            continue
                        for rank in (False, True):

                            def case():
                                w = w0[:]
                                m = OneParam(w, bce)
                                tr = RewardNetTrainer(m, optimizer=sgd(LR), loss_type=LossFunction[kind], reward_ignore_threshold=thr)
                                st = fd(onehot(states, S))
                                if rank:
                                    b = rlt.PreprocessedRankingInput(state=st, src_seq=st, slate_reward=col(ys))
                                else:
                                    b = rlt.MemoryNetworkInput(
                                        state=st, action=torch.zeros(B, 1), next_state=st, reward=col(ys), time_diff=torch.ones(B, 1),
                                        not_terminal=torch.ones(B, 1), step=None)
                                before = snapshot(b)
                                for _ in range(2):
                                    used = [(s, y) for s, y in zip(states, ys) if thr is None or y <= thr]
                                    f = (lambda x: 1 / (1 + math.exp(-x))) if bce else (lambda x: x)
                                    loss, g = 0.0, [0.0] * S
                                    for s, y in used:
                                        l, d = rew_loss(kind, f(w[s]), y)
                                        loss += l / len(used)
                                        g[s] += d * (f(w[s]) * (1 - f(w[s])) if bce else 1.0) / len(used)
                                    close(tr.train(b), loss, "loss")
                                    w = [a - LR * x for a, x in zip(w, g)]
                                    close(m.w, w, "parameters after the step")
                                unchanged(before, b)
                                ctx.outcome(w)

                            ctx.state((kind, thr, states, ys, rank))
                            ctx.step(2)
                            ctx.run(("reward", kind, thr, states, ys, rank), case)

    def defaults():
        m = OneParam(w0, False)
        tr = RewardNetTrainer(m)
        tr.train(rlt.PreprocessedRankingInput(state=fd(onehot([0], S)), src_seq=fd(onehot([0], S)), slate_reward=col([2.0])))
        expect(float(m.w[0]) != w0[0], "the default optimizer does not train")
        sd = tr.state_dict()
        m2 = OneParam([0.0] * S, False)
        t2 = RewardNetTrainer(m2)
        t2.load_state_dict(sd)
        close(m2.w, m.w, "warm-started parameters")

    ctx.run("reward-defaults", defaults)


def history(fams, depth):
    def fn(ctx):
        from mc.trainers import history_group

        history_group(fams, depth)(ctx)
    return fn


def groups(tier):
    gs = [("parametric-%s-%s" % (m, t), parametric_single(m, t)) for m in (True, False) for t in ("fixed", "time", "steps")]
    gs += [("parametric-batches", parametric_batches), ("slateq-1", slate_single(1)), ("slateq-2", slate_single(2)), ("slateq-3", slate_single(3)),
           ("slateq-batches", slate_batches), ("reward-models", reward_models)]
    return gs + [("history-%s" % f, history((f,), 4 if tier == "thorough" else 3)) for f in ('parametric', 'slateq')]

"""T03: SAC, TD3 and discrete CRR: targets, losses, delayed and soft updates, several consecutive steps."""
import itertools
import math

import torch

from mc.core import close, expect, raises, same
from mc.rng import ScriptedRandom
from mc.trainkit import Tab, attach, col, fd, one_step, onehot, sgd, snapshot, unchanged

import reagent.types as rlt
from reagent.models.base import ModelBase
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.sac_trainer import CRRWeightFn, SACTrainer
from reagent.training.td3_trainer import TD3Trainer

LEVEL = "model_checking"
RULE = (
    "small differentiable critics and actors over 3 states and 1-2 action dimensions; every option combination of each trainer x every "
    "pattern of transitions from a fixed family, each run for 3-4 consecutive steps; after every step all losses, all parameters, all "
    "target parameters, the temperature and the reports are compared with an independent functional reference"
)
ASSUMPTIONS = [
    "the actor's reparameterization noise is fixed (its sampling is the subject of M01); target-policy noise is scripted",
    "float32 arithmetic within 3e-4",
    "advantage-weighted actors are trained with back-propagation through the log probability (otherwise nothing is trained)",
]
S, LR, TAU, LRA, LRACT = 3, 0.2, 0.25, 0.01, 0.05
RT = dict(rtol=3e-4, atol=2e-5)


class QNet(ModelBase):
    def __init__(self, w, v):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(w))
        self.v = torch.nn.Parameter(torch.tensor(v))

    def forward(self, state, action):
        return qf([self.w, self.v], state.float_features, action.float_features)


def qf(p, s, a):
    return (s @ p[0]).unsqueeze(1) + ((s @ p[1]) * a).sum(1, keepdim=True) - 0.2 * (a * a).sum(1, keepdim=True) * (s @ p[0]).unsqueeze(1)


class VNet(ModelBase):
    def __init__(self, w):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(w))

    def forward(self, s):
        return (s @ self.w).unsqueeze(1)


class ActorNet(ModelBase):
    """deterministic "sample": tanh(mu + fixed noise)"""

    def __init__(self, mu, c):
        super().__init__()
        self.mu = torch.nn.Parameter(torch.tensor(mu))
        self.c = torch.nn.Parameter(torch.tensor(c))

    def forward(self, state):
        a, lp, m = af([self.mu, self.c], state.float_features)
        return rlt.ActorOutput(action=a, log_prob=lp, squashed_mean=m)

    def get_log_prob(self, state, squashed_action):
        return lpf([self.mu, self.c], state.float_features, squashed_action)


def lpf(p, s, a):
    return (s @ p[1]).unsqueeze(1) * (1.0 - (a * a).sum(1, keepdim=True))


def af(p, s):
    m = s @ p[0]
    a = torch.tanh(m + 0.3)
    return a, lpf(p, s, a), torch.tanh(m)


def params(m):
    return [p.detach().clone() for p in m.parameters()]


class Ref:
    """named parameter groups; step(name, loss) = one SGD step of that group only"""

    def __init__(self, **groups):
        self.g = {k: params(v) for k, v in groups.items()}

    def __getitem__(self, k):
        return self.g[k]

    def step(self, name, f):
        ps = [p.clone().requires_grad_(True) for p in self.g[name]]
        loss = f(ps)
        if loss.requires_grad:
            gs = torch.autograd.grad(loss, ps, allow_unused=True)
        else:
            gs = [None] * len(ps)
        lr = LRACT if name == 'actor' else LR
        self.g[name] = [(p - lr * g).detach() if g is not None else p.detach() for p, g in zip(ps, gs)]
        return float(loss)

    def soft(self, target, source):
        self.g[target] = [TAU * s + (1 - TAU) * t for s, t in zip(self.g[source], self.g[target])]


Q1 = ([1.0, -0.5, 0.3], [[0.5, -0.2], [-1.0, 0.4], [0.8, 0.1]])
Q2 = ([0.7, 0.2, -0.4], [[-0.3, 0.6], [0.9, -0.5], [-0.2, 1.1]])
V0 = [0.4, -0.3, 0.9]
MU = [[0.2, -0.1], [-0.4, 0.3], [0.6, 0.5]]
CC = [-1.2, 26.0, 0.8]


def qnet(q, D):
    return QNet(q[0], [r[:D] for r in q[1]])


def batches(D):
    """list of batches (list of rows (s, a, r, ns, nonterminal))"""
    acts = [[0.5, -0.5], [-0.9, 0.2], [0.1, 0.8], [-0.3, -0.7]]
    k, out = 0, []
    for B in (2, 3):
        for off in range(6):
            rows = []
            for j in range(B):
                k += 1
                rows.append(((off + j) % S, acts[(k + j) % 4][:D], [1.0, -0.5, 2.0][(k + off) % 3], (off * 2 + j + 1) % S, int((k // 2 + j) % 3 != 0)))
            out.append(rows)
    return out


def make_batch(rows, dt=torch.float32):
    g = list(zip(*rows))
    return rlt.PolicyNetworkInput(
        state=fd(onehot(g[0], S)), next_state=fd(onehot(g[3], S)), action=fd(torch.tensor(g[1])), next_action=fd(torch.tensor(g[1]) * 0.5),
        reward=col(g[2]), time_diff=col([1.0] * len(rows)), step=None, not_terminal=torch.tensor([[v] for v in g[4]]).to(dt), extras=rlt.ExtraData(),
    )


def tens(rows):
    g = list(zip(*rows))
    return onehot(g[0], S), torch.tensor(g[1]), col(g[2]), onehot(g[3], S), col(g[4])


def compare(ref, nets):
    for k, m in nets.items():
        for i, (p, r) in enumerate(zip(m.parameters(), ref[k])):
            close(p, r, "%s parameter %d" % (k, i), **RT)


# -- SAC -------------------------------------------------------------------------
def sac_case(ctx, key, o, rows, steps=3):
    D = o["D"]

    def case():
        q1, q2 = qnet(Q1, D), qnet(Q2, D) if o["q2"] else None
        v = VNet(V0) if o["value"] else None
        actor = ActorNet([r[:D] for r in MU], CC)
        crr = {None: None, "exp": dict(exponent_beta=0.7), "clamp": dict(exponent_beta=0.4, exponent_clamp=1.5), "ind": dict(indicator_fn_threshold=0.1)}[o["crr"]]
        kw = {}
        if o["kld"]:
            kw = dict(action_embedding_kld_weight=0.3, apply_kld_on_mean=o["kld"] == "mean", action_embedding_mean=[0.1, -0.2][:D], action_embedding_variance=[0.5, 0.8][:D])
        tr = SACTrainer(
            actor, q1, q2, v, rl=RLParameters(gamma=o["gamma"], target_update_rate=TAU), q_network_optimizer=sgd(LR), value_network_optimizer=sgd(LR),
            actor_network_optimizer=sgd(LRACT), alpha_optimizer=sgd(LRA) if o["alpha"] else None, entropy_temperature=0.5, target_entropy=-0.7,
            logged_action_uniform_prior=o["prior"], crr_config=CRRWeightFn(**crr) if crr else None, backprop_through_log_prob=o["bp"], **kw,
        )
        spy = attach(tr)
        nets = dict(q1=q1, actor=actor)
        nets.update({"q2": q2} if o["q2"] else {})
        nets.update({"v": v} if o["value"] else {})
        ref = Ref(**nets)
        nets.update({"vt": tr.value_network_target} if o["value"] else {"q1t": tr.q1_network_target})
        if o["q2"] and not o["value"]:
            nets["q2t"] = tr.q2_network_target
        for t, s_ in (("vt", "v"), ("q1t", "q1"), ("q2t", "q2")):
            if t in nets:
                ref.g[t] = [p.clone() for p in ref[s_]]
        temp, la = 0.5, math.log(0.5)
        b = make_batch(rows)
        before = snapshot(b)
        opts = tr.configure_optimizers()
        s, a, r, ns, nt = tens(rows)
        mse = lambda x, y: ((x - y) ** 2).mean()
        for k in range(steps):
            want = []
            if o["value"]:
                nv = (ns @ ref["vt"][0]).unsqueeze(1)
            else:
                na, lp, _ = af(ref["actor"], ns)
                nv = qf(ref["q1t"], ns, na)
                if o["q2"]:
                    nv = torch.minimum(nv, qf(ref["q2t"], ns, na))
                nv = nv - temp * lp.clamp(-20, 20)
            y = r + o["gamma"] * nv * nt
            q1_before = qf(ref["q1"], s, a)
            want.append(ref.step("q1", lambda p: mse(qf(p, s, a), y)))
            if o["q2"]:
                want.append(ref.step("q2", lambda p: mse(qf(p, s, a), y)))

            def minq(act):
                m = qf(ref["q1"], s, act)
                return torch.minimum(m, qf(ref["q2"], s, act)) if o["q2"] else m

            act0, lp0, _ = af(ref["actor"], s)
            mq0 = minq(act0)

            def actor_loss(p):
                act, lp, mean = af(p, s)
                if not o["bp"]:
                    lp = lp.detach()
                if crr:
                    adv = mq0 - (s @ ref["v"][0]).unsqueeze(1)
                    w = {"exp": torch.exp(adv / 0.7), "clamp": torch.exp(adv / 0.4).clamp(0, 1.5), "ind": (adv >= 0.1).float()}[o["crr"]]
                    loss = -(lp * w).mean()
                else:
                    loss = (temp * lp - minq(act)).mean()
                if o["kld"]:
                    x = mean if o["kld"] == "mean" else act
                    m, va = x.mean(0), x.var(0)
                    em, ev = torch.tensor([0.1, -0.2][:D]), torch.tensor([0.5, 0.8][:D])
                    loss = loss + 0.3 * 0.5 * ((va + (m - em) ** 2) / ev - 1 + ev.log() - va.log()).sum()
                return loss

            want.append(ref.step("actor", actor_loss))
            if o["alpha"]:
                want.append(float(-(la * (lp0 - 0.7)).mean()))
                la -= LRA * float(-(lp0 - 0.7).mean())
                temp = math.exp(la)
            if o["value"]:
                tv = mq0 if o["prior"] else mq0 - temp * lp0.clamp(-20, 20)
                want.append(ref.step("v", lambda p: mse((s @ p[0]).unsqueeze(1), tv)))
                ref.soft("vt", "v")
            else:
                ref.soft("q1t", "q1")
                if o["q2"]:
                    ref.soft("q2t", "q2")
            got = one_step(tr, b, k, opts)
            same(len(got), len(want) + 1, "number of optimization steps")
            close(got[:-1], want, "losses of step %d" % k, **RT)
            compare(ref, nets)
            close(float(tr.entropy_temperature), temp, "entropy temperature", **RT)
            close(spy.last("td_loss"), want[0], "reported loss", **RT)
            close(spy.last("logged_rewards"), r, "reported rewards")
            close(spy.last("model_values_on_logged_actions"), q1_before, "reported values", **RT)
            close(spy.last("q1_value"), q1_before, "reported q1", **RT)
            close(spy.last("target_q_value"), y, "reported target", **RT)
            close(spy.last("min_q_actor_value"), mq0, "reported actor value", **RT)
            close(spy.last("actor_output_log_prob"), lp0, "reported log prob", **RT)
        unchanged(before, b)
        ctx.outcome([p.tolist() for p in ref["actor"]])

    ctx.state(key)
    ctx.step(steps)
    ctx.run(key, case)


def sac_group(value, q2):
    def fn(ctx):
        D = 2
        for alpha, prior, kld, crr, bp, gamma, D in itertools.product(
            (True, False), (True, False), (None, "action", "mean"), (None, "exp", "clamp", "ind"), (True, False), (0.9, 0.0), (1, 2)
        ):
            if (not value and (crr or not prior)) or (crr and not bp):
                continue
            o = dict(value=value, q2=q2, alpha=alpha, prior=prior, kld=kld, crr=crr, bp=bp, gamma=gamma, D=D)
            bs = batches(D)
            sel = range(len(bs)) if gamma == 0.9 and not value else range(0, len(bs), 3)
            for i in sel:
                sac_case(ctx, ("sac", sorted((k, str(v)) for k, v in o.items()), i), o, bs[i])

    return fn


# -- TD3 --------------------------------------------------------------------------
NOISES = [(0.0,), (1.0, -1.0), (3.0, -0.4, 0.9), (-2.0, 0.25)]


def td3_case(ctx, key, o, rows, start):
    D = o["D"]

    def case():
        q1, q2 = qnet(Q1, D), qnet(Q2, D) if o["q2"] else None
        actor = ActorNet([r[:D] for r in MU], CC)
        tr = TD3Trainer(
            actor, q1, q2, rl=RLParameters(gamma=o["gamma"], target_update_rate=TAU), q_network_optimizer=sgd(LR), actor_network_optimizer=sgd(LRACT),
            noise_variance=o["noise"], noise_clip=o["clip"], delayed_policy_update=o["delay"],
        )
        spy = attach(tr)
        nets = dict(q1=q1, actor=actor)
        nets.update({"q2": q2} if o["q2"] else {})
        ref = Ref(**nets)
        nets.update(q1t=tr.q1_network_target, at=tr.actor_network_target)
        nets.update({"q2t": tr.q2_network_target} if o["q2"] else {})
        for t, s_ in (("q1t", "q1"), ("q2t", "q2"), ("at", "actor")):
            if t in nets:
                ref.g[t] = [p.clone() for p in ref[s_]]
        b = make_batch(rows, torch.bool if start else torch.float32)
        before = snapshot(b)
        opts = tr.configure_optimizers()
        s, a, r, ns, nt = tens(rows)
        mse = lambda x, y: ((x - y) ** 2).mean()
        for k in range(start, start + 4):
            z = [NOISES[o["z"]][(k + j) % len(NOISES[o["z"]])] for j in range(len(rows) * D)]
            with ScriptedRandom(normal=lambda n: z[:n]):
                got = one_step(tr, b, k, opts)
            n = (torch.tensor(z).reshape(len(rows), D) * o["noise"]).clamp(-o["clip"], o["clip"])
            na = (af(ref["at"], ns)[0] + n).clamp(-1.0, 1.0)  # the range continuous actions are trained in
            nv = qf(ref["q1t"], ns, na)
            if o["q2"]:
                nv = torch.minimum(nv, qf(ref["q2t"], ns, na))
            y = r + o["gamma"] * nv * nt
            q1b = qf(ref["q1"], s, a)
            want = [ref.step("q1", lambda p: mse(qf(p, s, a), y))]
            if o["q2"]:
                want.append(ref.step("q2", lambda p: mse(qf(p, s, a), y)))
            if k % o["delay"] == 0:
                want.append(ref.step("actor", lambda p: -qf(ref["q1"], s, af(p, s)[0]).mean()))
                for t, s_ in (("q1t", "q1"), ("q2t", "q2"), ("at", "actor")):
                    if t in nets:
                        ref.soft(t, s_)
            else:
                want.append(None)
                same(got[-1], None, "the target update of a skipped batch")
            same(len(got), len(want) + 1, "number of optimization steps")
            close(got[:-1], want, "losses of step %d" % k, **RT)
            compare(ref, nets)
            close(spy.last("q1_loss"), want[0], "reported loss", **RT)
            close(spy.last("q1_value"), q1b, "reported values", **RT)
            close(spy.last("target_q_value"), y, "reported target", **RT)
            close(spy.last("next_q_value"), nv, "reported next value", **RT)
        unchanged(before, b)
        ctx.outcome([p.tolist() for p in ref["actor"]])

    ctx.state(key)
    ctx.step(4)
    ctx.run(key, case)


def td3_group(q2):
    def fn(ctx):
        for delay, noise, clip, z, gamma, D in itertools.product((1, 2, 3), (0.2, 1.0), (0.5, 0.1), range(4), (0.9, 0.0), (1, 2)):
            o = dict(q2=q2, delay=delay, noise=noise, clip=clip, z=z, gamma=gamma, D=D)
            bs = batches(D)
            for i in range(0, len(bs), 2 if gamma else 5):
                td3_case(ctx, ("td3", sorted(o.items()), i), o, bs[i], start=i % 3)

    return fn


# -- discrete CRR -----------------------------------------------------------------
A = 3
QA = [[1.0, -2.0, 0.5], [0.25, 2.0, -1.0], [-0.5, 1.5, 2.5]]
QB = [[0.5, 1.0, -2.0], [2.0, -1.5, 1.0], [1.25, -0.75, 0.0]]
AC = [[0.1, 0.7, -0.4], [-0.6, 0.2, 0.3], [0.9, -0.1, 0.4]]


class ActTab(Tab):
    def forward(self, state):
        return rlt.ActorOutput(action=super().forward(state), log_prob=torch.zeros(1))


def crr_rows():
    out, k = [], 0
    for s, a, ns in itertools.product(range(S), range(A), range(S)):
        for m in itertools.product([0, 1], repeat=A):
            if any(m):
                k += 1
                out.append((s, a, [1.0, -0.5, 2.0][k % 3], ns, [j for j in range(A) if m[j]][k % sum(m)], m, 1))
        out.append((s, a, [1.0, 0.5][k % 2], ns, None, (0,) * A, 0))
    return out


def crr_case(ctx, key, o, rows, start):
    def case():
        q1, q2, actor = Tab(QA), Tab(QB) if o["q2"] else None, ActTab(AC)
        nm = 1
        W = (nm + 1) * A
        kw = dict(reward_network=None)
        nets = dict(q1=q1, actor=actor)
        if o["q2"]:
            nets["q2"] = q2
        if o["cpe"]:
            R0 = [[0.1 * (i + 1) * (-1) ** j + 0.05 * j for j in range(W)] for i in range(S)]
            C0 = [[0.2 * (i - 1) + 0.3 * j for j in range(W)] for i in range(S)]
            T0 = [[-0.15 * i + 0.25 * j * (-1) ** i for j in range(W)] for i in range(S)]
            nets.update(rw=Tab(R0), cq=Tab(C0), ct=Tab(T0))
            kw = dict(reward_network=nets["rw"], q_network_cpe=nets["cq"], q_network_cpe_target=nets["ct"], metrics_to_score=["m"])
        tr = DiscreteCRRTrainer(
            actor, q1, q2_network=q2, actions=["x", "y", "z"], evaluation=EvaluationParameters(calc_cpe_in_training=o["cpe"]),
            rl=RLParameters(gamma=o["gamma"], target_update_rate=TAU, maxq_learning=o["maxq"], temperature=0.7, reward_boost={"y": 0.75, "x": -0.25} if o["boost"] else None),
            q_network_optimizer=sgd(LR), actor_network_optimizer=sgd(LRACT), use_target_actor=o["ta"], delayed_policy_update=o["delay"], **kw,
        )
        spy = attach(tr)
        ref = Ref(**nets)
        nets.update(q1t=tr.q1_network_target, at=tr.actor_network_target)
        nets.update({"q2t": tr.q2_network_target} if o["q2"] else {})
        for t, s_ in (("q1t", "q1"), ("q2t", "q2"), ("at", "actor")):
            if t in nets:
                ref.g[t] = [p.clone() for p in ref[s_]]
        g = list(zip(*rows))
        metrics = torch.tensor([[r[2] * 2 - 1] for r in rows])
        b = rlt.DiscreteDqnInput(
            state=fd(onehot(g[0], S)), next_state=fd(onehot(g[3], S)), reward=col(g[2]), time_diff=col([1.0] * len(rows)), step=col([1.0] * len(rows)),
            not_terminal=col(g[6]), action=onehot(g[1], A), next_action=onehot(g[4], A), possible_actions_mask=torch.ones(len(rows), A),
            possible_next_actions_mask=torch.tensor(g[5], dtype=torch.float32),
            extras=rlt.ExtraData(action_probability=col([0.5] * len(rows)), metrics=metrics if o["cpe"] else None),
        )
        before = snapshot(b)
        opts = tr.configure_optimizers()
        s, ns, act, nt = onehot(g[0], S), onehot(g[3], S), onehot(g[1], A), col(g[6])
        idx = torch.tensor(g[1]).unsqueeze(1)
        boost = torch.tensor([[-0.25, 0.75, 0.0]]) if o["boost"] else torch.zeros(1, A)
        r = col(g[2]) + (act * boost).sum(1, keepdim=True)
        mse = lambda x, y: ((x - y) ** 2).mean()
        sel = lambda w: ((s @ w) * act).sum(1, keepdim=True)
        for k in range(start, start + 4):
            pi = torch.softmax(ns @ ref["at" if o["ta"] else "actor"][0], 1)
            nq = ns @ ref["q1t"][0]
            nv = (nq * pi).sum(1, keepdim=True)
            if o["q2"]:
                nv = torch.minimum(nv, ((ns @ ref["q2t"][0]) * pi).sum(1, keepdim=True))
            y = r + o["gamma"] * nv * nt
            q1b = sel(ref["q1"][0])
            want = [ref.step("q1", lambda p: mse(sel(p[0]), y))]
            if o["q2"]:
                want.append(ref.step("q2", lambda p: mse(sel(p[0]), y)))
            q = s @ ref["q1"][0]
            upd = k % o["delay"] == 0
            if upd:
                pa = torch.softmax(s @ ref["actor"][0], 1)
                adv = q - (q * pa).sum(1, keepdim=True)
                w = (adv * act).sum(1, keepdim=True).exp().clamp(0, 20.0)
                want.append(ref.step("actor", lambda p: (-(torch.log_softmax(s @ p[0], 1) * act).sum(1, keepdim=True) * w).mean()))
            else:
                want.append(None)
            if o["cpe"]:
                cols = [j * A + idx for j in range(nm + 1)]
                pick = lambda x: torch.cat([x.gather(1, c) for c in cols], 1)
                real = torch.cat([col(g[2]), metrics], 1)
                rest = s @ ref["rw"][0]
                want.append(ref.step("rw", lambda p: mse(pick(s @ p[0]), real)))
                mask = torch.tensor(g[5], dtype=torch.float32) if o["maxq"] else onehot(g[4], A)
                e = torch.exp((nq - nq.max()) / 0.7) * mask
                prop = torch.where(mask.sum(1, keepdim=True) > 0, e / e.sum(1, keepdim=True).clamp(min=1e-30), torch.zeros_like(e))
                nxt = torch.stack([((ns @ ref["ct"][0])[:, j * A:(j + 1) * A] * prop).sum(1) for j in range(nm + 1)], 1) * nt
                want.append(ref.step("cq", lambda p: mse(pick(s @ p[0]), real + o["gamma"] * nxt)))
            if upd:
                for t, s_ in (("q1t", "q1"), ("q2t", "q2"), ("at", "actor"), ("ct", "cq")):
                    if t in ref.g:
                        ref.soft(t, s_)
            got = one_step(tr, b, k, opts)
            same(len(got), len(want) + 1, "number of optimization steps")
            close(got[:-1], want, "losses of step %d" % k, **RT)
            expect((got[-1] is None) == (not upd), "the target update of batch %d: %s", k, got[-1])
            compare(ref, nets)
            close(spy.last("td_loss"), want[0], "reported loss", **RT)
            close(spy.last("q1_value"), q1b, "reported values", **RT)
            close(spy.last("target_q_value"), y, "reported target", **RT)
            close(spy.last("logged_rewards"), r, "reported rewards")
            close(spy.last("model_values"), q, "reported model values", **RT)
            same(spy.last("logged_actions"), idx, "reported actions")
            want_idx = q.argmax(1, keepdim=True) if o["maxq"] else idx
            same(spy.last("model_action_idxs"), want_idx, "reported model actions")
            if o["cpe"]:
                close(spy.last("model_rewards"), rest[:, :A], "reported model rewards", **RT)
        unchanged(before, b)
        ctx.outcome([p.tolist() for p in ref["actor"]])

    ctx.state(key)
    ctx.step(4)
    ctx.run(key, case)


def crr_group(cpe, q2):
    def fn(ctx):
        rows = crr_rows()
        for delay, ta, gamma, maxq, boost in itertools.product((1, 2, 3), (False, True), (0.9, 0.0), (False, True), (False, True)):
            o = dict(cpe=cpe, q2=q2, delay=delay, ta=ta, gamma=gamma, maxq=maxq, boost=boost)
            for i in range(0, len(rows), 9 if gamma else 40):
                rs = [rows[(i + 31 * j) % len(rows)] for j in range(1 + i % 3)]
                crr_case(ctx, ("crr", sorted(o.items()), i), o, rs, 0 if i % 2 else delay)

    return fn


def crr_weights(ctx):
    for beta, clamp, thr in itertools.product((None, 0.5, 2.0), (None, 1.5), (None, 0.3)):
        def case():
            kw = dict(exponent_beta=beta, exponent_clamp=clamp, indicator_fn_threshold=thr)
            if bool(beta) == bool(thr):
                raises(lambda: CRRWeightFn(**kw), "exactly one weight function")
                return
            f = CRRWeightFn(**kw)
            for x in (-2.0, -0.3, 0.0, 0.3, 0.29, 1.0, 5.0):
                want = (1.0 if x >= thr - 1e-9 else 0.0) if thr else min(math.exp(x / beta), clamp if clamp else math.inf)
                close(f.get_weight_from_advantage(torch.tensor([[x]])), [[want]], "weight of advantage %s" % x)
        ctx.state((beta, clamp, thr))
        ctx.run(("weights", beta, clamp, thr), case)
    ctx.run("weights-tiny", lambda: raises(lambda: CRRWeightFn(exponent_beta=1e-7), "tiny beta"))


def history(fams, depth):
    def fn(ctx):
        from mc.trainers import history_group

        history_group(fams, depth)(ctx)
    return fn


def groups(tier):
    gs = [("sac-v%d-q%d" % (v, q), sac_group(bool(v), bool(q))) for v in (0, 1) for q in (0, 1)]
    gs += [("td3-q%d" % q, td3_group(bool(q))) for q in (0, 1)]
    gs += [("crr-c%d-q%d" % (c, q), crr_group(bool(c), bool(q))) for c in (0, 1) for q in (0, 1)]
    return gs + [("crr-weights", crr_weights)] + [("history-%s" % f, history((f,), 4 if tier == "thorough" else 3)) for f in ('sac', 'td3', 'crr')]

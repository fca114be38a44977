"""T06: policy-gradient trainers on every small trajectory, against scalar formulas."""
import itertools
import math

import torch
import torch.nn as nn

from mc.core import close, expect, raises, same
from mc.rng import ScriptedRandom
from mc.trainkit import fd, onehot, sgd, snapshot, unchanged

import reagent.types as rlt
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.reinforce import Reinforce, ReinforceParams
from reagent.training.utils import discounted_returns, whiten

LEVEL = "model_checking"
RULE = (
    "every trajectory up to length 3 (4) over 2 states, 2 actions and 3 rewards, with every option of the trainers (all options for "
    "short trajectories, a rotating selection for the longest); PPO with every shuffle of its buffer; sequences of up to 4 trajectories. "
    "One or more optimizer steps are compared with a scalar recomputation of the loss gradient. Non-trivial: a parameter must move"
)
ASSUMPTIONS = [
    "softmax policies over tabular scores; float32 tolerance",
    "a single step has no deviation to be normalized with",
]

LOGITS = [[0.3, -0.4, 0.2], [-0.5, 0.6, -0.1]]
VALUES = [0.4, -0.7]
LR, VLR = 0.1, 0.05
EPS = 2.220446049250313e-16


class Scorer(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(torch.tensor(w))
        self.masks = []

    def forward(self, state, mask=None):
        s = state.float_features @ self.w
        self.masks.append(None if mask is None else mask.tolist())
        return s if mask is None else s.masked_fill(~mask.bool(), float("-inf"))


class Value(nn.Module):
    def __init__(self):
        super().__init__()
        self.v = nn.Parameter(torch.tensor([[x] for x in VALUES]))

    def forward(self, state):
        return state.float_features @ self.v


def batch_of(traj, A, mask):
    n = len(traj)
    m = None
    if mask:
        # one impossible action per step, never the one taken
        m = torch.tensor([[1.0 if (j == a or j != (a + 1 + t % (A - 1)) % A) else 0.0 for j in range(A)] for t, (s, a, r, lp) in enumerate(traj)])
    return rlt.PolicyGradientInput(
        state=fd(onehot([t[0] for t in traj], 2)), action=onehot([t[1] for t in traj], A), reward=torch.tensor([t[2] for t in traj]),
        log_prob=torch.tensor([t[3] for t in traj]), possible_actions_mask=m)


# -- reference -------------------------------------------------------------------------------
def probs(logits, mask, temp):
    x = [l / temp if m else None for l, m in zip(logits, mask)]
    top = max(v for v in x if v is not None)
    e = [0.0 if v is None else math.exp(v - top) for v in x]
    z = sum(e)
    return [v / z for v in e]


def offsets(traj, o):
    g, R = [], 0.0
    for (_, _, r, _) in reversed(traj):
        r = min(r, o["reward_clip"])
        R = r + o["gamma"] * R
        g.insert(0, R)
    if o["normalize"]:
        m = sum(g) / len(g)
        sd = math.sqrt(sum((x - m) ** 2 for x in g) / (len(g) - 1)) if len(g) > 1 else 1.0
        g = [(x - (m if o["subtract_mean"] else 0.0)) / (sd + EPS) for x in g]
    if o["offset_clamp_min"]:
        g = [max(x, 0.0) for x in g]
    return g


def grads(kind, traj, masks, w, v, o):
    """gradients of the losses of one trajectory: (scores table, values)"""
    A = len(w[0])
    gw, gv = [[0.0] * A for _ in w], [0.0] * len(VALUES)
    G = offsets(traj, o)
    n = len(traj)
    adv = list(G)
    if o["value"]:
        for (s, _, _, _), x in zip(traj, G):
            gv[s] += 2.0 * (v[s] - x) / n
        adv = [x - v[s] for (s, _, _, _), x in zip(traj, G)]
    for t, ((s, a, _, lp), x) in enumerate(zip(traj, adv)):
        p = probs(w[s], masks[t], o["temp"])
        if kind == "reinforce" and not o["off_policy"]:
            k = -x
        else:
            ratio = p[a] / math.exp(lp)
            if kind == "reinforce":
                k = -x * ratio if math.log(p[a]) - lp <= math.log(o["clip_param"]) else 0.0
            else:
                lo, hi = 1 - o["ppo_epsilon"], 1 + o["ppo_epsilon"]
                clipped = min(max(ratio, lo), hi)
                k = -x * ratio if (lo <= ratio <= hi or x * ratio < x * clipped) else 0.0
        for j in range(A):
            gw[s][j] += k * ((1.0 if j == a else 0.0) - p[j]) / o["temp"]
        if kind == "ppo" and o["entropy_weight"]:
            H = -sum(q * math.log(q) for q in p if q > 0)
            for j in range(A):
                if p[j] > 0:
                    gw[s][j] -= o["entropy_weight"] / n * (-p[j] * (math.log(p[j]) + H)) / o["temp"]
    return gw, gv


def apply(w, v, gs, value):
    k = len(gs)
    w = [[x - LR * sum(g[0][i][j] for g in gs) / k for j, x in enumerate(row)] for i, row in enumerate(w)]
    if value:
        v = [x - VLR * sum(g[1][i] for g in gs) / k for i, x in enumerate(v)]
    return w, v


def masks_of(b, A):
    return [[True] * A for _ in range(len(b.reward))] if b.possible_actions_mask is None else [[x > 0 for x in r] for r in b.possible_actions_mask.tolist()]


# -- alphabets ---------------------------------------------------------------------------------
LP = ([math.log(0.3), math.log(0.85), math.log(0.2), math.log(0.6)], [math.log(0.9), math.log(0.25), math.log(0.5), math.log(0.1)])


def trajectories(n, rewards=(-1.0, 0.5, 2.0)):
    for sar in itertools.product(itertools.product((0, 1), (0, 1), rewards), repeat=n):
        for k in (0, 1):
            yield tuple((s, a, r, LP[k][t]) for t, (s, a, r) in enumerate(sar))


def combos(**kw):
    keys = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(keys, vals))


NORMS = [dict(normalize=False, subtract_mean=True, value=False), dict(normalize=False, subtract_mean=True, value=True),
         dict(normalize=True, subtract_mean=True, value=False), dict(normalize=True, subtract_mean=False, value=False)]


def reinforce_options():
    for c in combos(gamma=(0.0, 0.5, 1.0), pol=((False, 1e6), (True, 1e6), (True, 1.3)), reward_clip=(1e6, 1.0), norm=NORMS, offset_clamp_min=(False, True), mask=(False, True)):
        o = dict(c["norm"], off_policy=c["pol"][0], clip_param=c["pol"][1], temp=1.0)
        o.update({k: c[k] for k in ("gamma", "reward_clip", "offset_clamp_min", "mask")})
        yield o


def ppo_options():
    for c in combos(gamma=(0.0, 0.5, 1.0), ppo_epsilon=(0.0, 0.2, 1.0), reward_clip=(1e6, 1.0), norm=NORMS, offset_clamp_min=(False, True), mask=(False, True), entropy_weight=(0.0, 0.4)):
        o = dict(c["norm"], temp=1.0)
        o.update({k: c[k] for k in ("gamma", "ppo_epsilon", "reward_clip", "offset_clamp_min", "mask", "entropy_weight")})
        yield o


def clear(traj, o):
    """the trajectory is not on a kink or a singularity of the loss"""
    g = offsets(dict_free(traj), dict(o, normalize=False, offset_clamp_min=False))
    return not o["normalize"] or len(traj) == 1 or max(g) - min(g) > 1e-3


def dict_free(traj):
    return list(traj)


def label(o):
    return ";".join("%s=%s" % (k[:9], o[k]) for k in sorted(o))


def make(kind, A, o, **kw):
    torch.manual_seed(0)
    sc = Scorer([r[:A] for r in LOGITS])
    v = Value() if o["value"] else None
    pol = Policy(scorer=sc, sampler=SoftmaxActionSampler(temperature=o["temp"]))
    common = dict(gamma=o["gamma"], optimizer=sgd(LR), optimizer_value_net=sgd(VLR), reward_clip=o["reward_clip"], normalize=o["normalize"],
                  subtract_mean=o["subtract_mean"], offset_clamp_min=o["offset_clamp_min"])
    if kind == "reinforce":
        tr = Reinforce(pol, ReinforceParams(off_policy=o["off_policy"], clip_param=o["clip_param"], **common, **kw), value_net=v)
    else:
        tr = PPOTrainer(policy=pol, ppo_epsilon=o["ppo_epsilon"], entropy_weight=o["entropy_weight"], value_net=v, **common, **kw)
    return tr, sc, v


def one(kind, traj, A, o):
    b = batch_of(traj, A, o["mask"])
    before = snapshot(b)
    # log-probabilities and rewards that come with a graph are constants all the same
    b.log_prob.requires_grad_(); b.reward.requires_grad_()
    kw = {} if kind == "reinforce" else dict(update_freq=1, update_epochs=1, ppo_batch_size=1)
    tr, sc, v = make(kind, A, o, **kw)
    tr.train(b)
    unchanged(before, b)
    same((b.log_prob.grad, b.reward.grad), (None, None), "gradients of the batch")
    w0 = [r[:A] for r in LOGITS]
    gw, gv = grads(kind, traj, masks_of(b, A), w0, VALUES, o)
    w, vv = apply(w0, VALUES, [(gw, gv)], o["value"])
    close(sc.w, w, "scores after the step", rtol=2e-4, atol=2e-5)
    if v is not None:
        close(v.v.flatten(), vv, "values after the step", rtol=2e-4, atol=2e-5)
    return w


def single(kind, lengths, A, k, parts, every):
    opts = list(reinforce_options() if kind == "reinforce" else ppo_options())

    def fn(ctx):
        i = 0
        for n in lengths:
            for traj in trajectories(n):
                for j, o in enumerate(opts):
                    if (i + 7 * j) % every[n]:
                        continue
                    if (i + j) % parts != k or not clear(traj, o):
                        continue
                    ok, w = ctx.run((kind, A, "".join("%d%d%g" % t[:3] for t in traj), "%.2f" % traj[0][3], label(o)), one, kind, traj, A, o)
                    ctx.step(n)
                    if ok:
                        ctx.outcome([[round(x, 4) for x in r] for r in w])
                ctx.state((n, traj))
                i += 1
    return fn


# -- several trajectories -------------------------------------------------------------------
POOL = [
    [(0, 0, 2.0, LP[0][0])], [(1, 0, -1.0, LP[1][0]), (0, 1, 0.5, LP[1][1])],
    [(0, 1, 2.0, LP[0][0]), (1, 1, -1.0, LP[0][1]), (0, 0, 0.5, LP[0][2])], [(1, 1, 2.0, LP[1][0]), (1, 0, 0.5, LP[1][1])],
]


def reinforce_sequences(ctx):
    base = dict(gamma=0.5, reward_clip=1e6, normalize=False, subtract_mean=True, offset_clamp_min=False, mask=False, clip_param=1e6)
    for length, freq, value, off, temp in itertools.product((1, 2, 3, 4), (1, 2, 3), (False, True), (False, True), (1.0, 0.5)):
        for seq in itertools.product(range(len(POOL)), repeat=length):
            if length == 4 and len(set(seq)) < 3:
                continue
            # normalized returns where there is no baseline
            o = dict(base, value=value, off_policy=off, temp=temp, normalize=not value and temp == 0.5, offset_clamp_min=off)

            def case():
                tr, sc, v = make("reinforce", 2, o, update_freq=freq)
                w, vv, pending, seen = [r[:2] for r in LOGITS], list(VALUES), [], 0
                first = freq > 1  # the step counter starts at one
                for i in seq:
                    b = batch_of(POOL[i], 2, False)
                    # the losses keep the parameters they were computed with; an update takes all the pending ones
                    pending.append(grads("reinforce", POOL[i], masks_of(b, 2), w, vv, o))
                    tr.train(b)
                    seen += 1
                    if (seen + 1) % freq == 0:
                        w, vv = apply(w, vv, pending, value)
                        pending = []
                    close(sc.w, w, "scores", rtol=2e-4, atol=2e-5)
                    if v is not None:
                        close(v.v.flatten(), vv, "values", rtol=2e-4, atol=2e-5)
                ctx.outcome([[round(x, 4) for x in r] for r in w])

            ctx.state((freq, value, off, temp, seq))
            ctx.step(length)
            ctx.run(("sequence", freq, value, off, temp, seq), case)


def ppo_sequences(k, parts):
    def fn(ctx):
        base = dict(gamma=0.5, reward_clip=1e6, normalize=False, subtract_mean=True, offset_clamp_min=False, mask=False, temp=1.0)
        i = 0
        for freq, epochs, bs, value, ent, eps in itertools.product((1, 2, 3), (1, 2), (1, 2, 3), (False, True), (0.0, 0.4), (0.2, 1.0)):
            for rounds, dup in (((0,), False), ((0, 1), False), ((0, 1), True)):
                if dup and (freq == 1 or ent or eps == 1.0):
                    continue
                perms = list(itertools.permutations(range(freq)))
                for orders in itertools.product(perms, repeat=epochs):
                    i += 1
                    if i % parts != k:
                        continue
                    o = dict(base, value=value, entropy_weight=ent, ppo_epsilon=eps, normalize=not value and eps == 1.0)

                    def case():
                        tr, sc, v = make("ppo", 2, o, update_freq=freq, update_epochs=epochs, ppo_batch_size=bs)
                        starts = {(tuple(map(tuple, [r[:2] for r in LOGITS])), tuple(VALUES))}
                        w0 = sc.w.detach().clone()
                        for rnd in rounds:
                            buf = [POOL[(rnd + j) % len(POOL)] for j in range(freq)]
                            if dup:  # the very same trajectory twice
                                buf[-1] = buf[0]
                            objs = [batch_of(t, 2, False) for t in buf[:-1]]
                            objs.append(objs[0] if dup else batch_of(buf[-1], 2, False))
                            todo = list(orders)
                            with ScriptedRandom(perm=lambda n: list(todo.pop(0))):
                                for t in objs:
                                    same(sc.w.tolist(), w0.tolist(), "scores before the buffer is full")
                                    tr.train(t)
                            masks = [[[True, True]] * len(t) for t in buf]
                            # the scripted order first; any order is right, as long as it is one
                            got = (sc.w.tolist(), None if v is None else v.v.flatten().tolist())
                            found = None
                            for try_orders in [orders] + [x for x in itertools.product(perms, repeat=epochs) if x != orders]:
                                ends = set()
                                for w, vv in starts:
                                    w, vv = [list(r) for r in w], list(vv)
                                    for order in try_orders:
                                        for a in range(0, freq, bs):
                                            gs = [grads("ppo", buf[x], masks[x], w, vv, o) for x in order[a:a + bs]]
                                            w, vv = apply(w, vv, gs, value)
                                    ends.add((tuple(map(tuple, w)), tuple(vv)))
                                for w, vv in ends:
                                    try:
                                        close(got[0], w, "scores after the update", rtol=2e-4, atol=2e-5)
                                        if v is not None:
                                            close(got[1], vv, "values after the update", rtol=2e-4, atol=2e-5)
                                        found = (w, vv)
                                    except Exception as e:
                                        err = e
                                if found:
                                    break
                            if not found:
                                raise err
                            starts = {found}
                            w0 = sc.w.detach().clone()
                        ctx.outcome([[round(x, 4) for x in r] for r in got[0]])

                    ctx.state((freq, epochs, bs, value, ent, eps, rounds, dup, orders))
                    ctx.step(freq * len(rounds) * epochs)
                    ctx.run(("sequence", freq, epochs, bs, value, ent, eps, len(rounds) + dup, orders), case)
    return fn


def helpers(ctx):
    for n in (1, 2, 3):
        for r in itertools.product((-1.0, 0.5, 2.0), repeat=n):
            for gamma in (0.0, 0.3, 1.0):
                def case():
                    x = torch.tensor(r)
                    got = discounted_returns(x, gamma)
                    want = [sum(gamma ** (j - i) * r[j] for j in range(i, n)) for i in range(n)]
                    close(got, want, "returns")
                    close(x, r, "rewards afterwards")
                    if len(set(r)) > 1:
                        whiten(x, True)
                        close(x, r, "values afterwards")
                ctx.state(r)
                ctx.run(("returns", r, gamma), case)
            if n > 1 and len(set(r)) > 1:
                for sub in (False, True):
                    def case2():
                        m = sum(r) / n
                        sd = math.sqrt(sum((x - m) ** 2 for x in r) / (n - 1))
                        close(whiten(torch.tensor(r), subtract_mean=sub), [(x - (m if sub else 0)) / sd for x in r], "whitened")
                    ctx.run(("whiten", r, sub), case2)

    def refused():
        o = next(iter(ppo_options()))
        for kind in ("reinforce", "ppo"):
            oo = dict(o, normalize=True, value=True, off_policy=False, clip_param=1e6)
            tr, _, _ = make(kind, 2, oo, **({} if kind == "reinforce" else dict(update_freq=1)))
            raises(lambda: tr.train(batch_of(POOL[1], 2, False)), "baseline and normalization together")
    ctx.run("baseline-and-normalize", refused)
    for eps in (-0.1, 1.1):
        ctx.run(("epsilon", eps), lambda: raises(lambda: make("ppo", 2, dict(next(iter(ppo_options())), ppo_epsilon=eps)), "epsilon"))
    # a single step cannot be normalized
    for kind in ("reinforce", "ppo"):
        def one_step_norm():
            o = dict(gamma=1.0, reward_clip=1e6, normalize=True, subtract_mean=True, offset_clamp_min=False, mask=False, temp=1.0, value=False,
                     off_policy=False, clip_param=1e6, ppo_epsilon=0.2, entropy_weight=0.0)
            tr, sc, _ = make(kind, 2, o, **({} if kind == "reinforce" else dict(update_freq=1, update_epochs=1)))
            tr.train(batch_of(POOL[0], 2, False))
            expect(bool(torch.isfinite(sc.w).all()), "scores after a normalized single-step trajectory: %s", sc.w.tolist())
        ctx.run((kind, "normalize-single-step"), one_step_norm)


def policies(ctx):
    for A, s, mask in itertools.product((2, 3), (0, 1), (None, (True, False, True), (False, True, True))):
        for temp in (1.0, 0.5):
            for choice in range(A):
                def case():
                    sc = Scorer([r[:A] for r in LOGITS])
                    pol = Policy(scorer=sc, sampler=SoftmaxActionSampler(temperature=temp))
                    m = None if mask is None else torch.tensor([list(mask[:A])])
                    p = probs(LOGITS[s][:A], [True] * A if mask is None else list(mask[:A]), temp)
                    if p[choice] == 0:
                        return
                    with ScriptedRandom(multinomial=lambda row, n, repl: [choice] * n):
                        out = pol.act(fd(onehot([s], 2)), m) if m is not None else pol.act(fd(onehot([s], 2)))
                    same(out.action.tolist(), [[1 if j == choice else 0 for j in range(A)]], "action")
                    close(out.log_prob, [math.log(p[choice])], "log probability")
                    expect(not out.log_prob.requires_grad, "the output still carries gradients")
                    same(sc.masks, [None if m is None else m.tolist()], "mask given to the scorer")
                ctx.state((A, s, mask, temp, choice))
                ctx.step()
                ctx.run(("policy", A, s, mask, temp, choice), case)


def groups(tier):
    big = tier == "thorough"
    out = []
    for kind in ("reinforce", "ppo"):
        every = {1: 1, 2: 5 if not big else 1, 3: 151 if not big else 11, 4: 401}
        for k in range(6):
            out.append(("%s-2-%d" % (kind, k), single(kind, (1, 2, 3, 4) if big else (1, 2, 3), 2, k, 6, every)))
        out.append(("%s-3" % kind, single(kind, (1, 2), 3, 0, 1, {1: 2, 2: 19 if not big else 3})))
    out += [("reinforce-sequences", reinforce_sequences)] + [("ppo-sequences-%d" % k, ppo_sequences(k, 4)) for k in range(4)]
    return out + [("helpers", helpers), ("policies", policies)]

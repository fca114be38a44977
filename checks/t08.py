"""T08: ranking trainers against independently written objectives on all small slates."""
import copy
import itertools
import math
import os
import tempfile
import warnings

import numpy as np
import torch

from mc.core import close, expect, same
from mc.rng import ScriptedRandom
from mc.trainkit import sgd
from checks.t07 import AR, ES, FS, C, S, Ref, chain, data, net

import reagent.types as rlt
from reagent.core.tracker import Observer
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.models.seq2slate import BaselineNet, Seq2SlateTransformerNet
from reagent.parameters import Seq2SlateParameters
from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod, RewardClamp, SimulationParameters
from reagent.training.ranking.helper import ips_clamp
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer, swap_dist
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer

LEVEL = "model_checking"
RULE = (
    "every ranking of every length of two or three candidates, every pair of logged propensity ratio and reward from the alphabets, every clamp, "
    "and every schedule of warm-up, update interval and baseline over six minibatches: the parameters after every minibatch and the reported "
    "values are compared with an independently written objective. For the simulation trainer every sampling outcome is scripted. Non-trivial: "
    "a non-zero gradient"
)
ASSUMPTIONS = ["float32 tolerance; probabilities of the transformer itself are the subject of T07; exact ties with the clamp bound excluded for computed ratios"]

U, A = IPSClampMethod.UNIVERSAL, IPSClampMethod.AGGRESSIVE
CLAMPS = [None, (U, 1.5), (A, 1.5), (U, 0.3), (A, 0.3)]
LR = 0.25


def cl(c):
    return None if c is None else IPSClamp(clamp_method=c[0], clamp_max=c[1])


def small(arch, seed=20, n=3, m=None):
    if m is None:
        return net(arch, 1, 1, None, seed, n=n)
    torch.manual_seed(seed)
    x = Seq2SlateTransformerNet(state_dim=S, candidate_dim=C, num_stacked_layers=1, dim_model=4, max_src_seq_len=n, max_tgt_seq_len=m,
                                output_arch=arch, temperature=1.0, num_heads=1, dim_feedforward=6, state_embed_dim=None)
    with torch.no_grad():
        for p in x.parameters():
            p.copy_(torch.randn(p.shape) * 0.6)
    return x


def params(*nets):
    return [p.detach().clone() for m in nets for p in m.parameters()]


def agree(nets, refs, what):
    for m, r in zip(nets, refs):
        for (name, p), q in zip(m.named_parameters(), r.parameters()):
            if not torch.allclose(p, q, rtol=2e-4, atol=2e-6):
                close(p, q, what + ": parameter " + name, rtol=2e-4, atol=2e-6)


class Spy(Observer):
    def __init__(self, keys):
        super().__init__(list(keys))
        self.got = []

    def update(self, key, value):
        self.got.append((key, value))


def base(seed):
    torch.manual_seed(seed)
    m = BaselineNet(S, 3, 1)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape) * 0.7)
    return m


def batch(k, rank, ratio, reward, n, ps=None, **kw):
    """ratio: model probability over logged probability, as the logged propensity is chosen"""
    st, ca = data(len(rank), n, k)
    return dict(state=st, candidates=ca, device=torch.device("cpu"), action=torch.tensor(rank), slate_reward=torch.tensor([[r] for r in reward]),
                logged_propensities=torch.tensor([[p / q] for p, q in zip(ps, ratio)]), **kw)


def ref_ratio(r, clamp):
    """numerically and for gradients: the ratio after clamping"""
    if clamp is None:
        return r
    if clamp[0] == U:
        return torch.where(r > clamp[1], torch.full_like(r, clamp[1]), r)
    return torch.where(r > clamp[1], torch.zeros_like(r), r)


def pg_step(refnet, refbase, acc, b, clamp, minibatch, warm, interval):
    """the documented update of one minibatch; returns what is reported"""
    x = rlt.PreprocessedRankingInput.from_input(**b)
    rew = b["slate_reward"]
    value = torch.zeros_like(rew)
    bl = 0.0
    if refbase is not None:
        v = refbase(x)
        loss = sum((v[i, 0] - rew[i, 0]) ** 2 for i in range(len(rew))) / len(rew)
        grads = torch.autograd.grad(loss, list(refbase.parameters()))
        bl = float(loss)
        value = v.detach()
        with torch.no_grad():
            for p, g in zip(refbase.parameters(), grads):
                p -= LR * g
    p = torch.exp(refnet(x, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs)
    r = p / b["logged_propensities"]
    c = ref_ratio(r, clamp)
    adv = rew - value
    obj = -sum(c[i, 0] * adv[i, 0] for i in range(len(rew))) / len(rew)
    ps = list(refnet.parameters())
    if refbase is None or minibatch >= warm:
        grads = torch.autograd.grad(obj, ps, allow_unused=True)
        for i, g in enumerate(grads):
            if g is not None:
                acc[i] = acc.get(i, 0) + g
        if minibatch % interval == 0:
            with torch.no_grad():
                for i, g in acc.items():
                    ps[i] -= LR * g
            acc.clear()
    return dict(train_ips_score=[float((-r * rew).mean())], train_clamped_ips_score=[float((-c * rew).mean())], train_baseline_loss=[bl],
                train_logged_slate_rank_probs=p.tolist(), train_ips_ratio=r.tolist(), train_clamped_ips_ratio=c.tolist(), train_advantages=adv.tolist())


KEYS = ["train_ips_score", "train_clamped_ips_score", "train_baseline_loss", "train_logged_slate_rank_probs", "train_ips_ratio", "train_clamped_ips_ratio", "train_advantages"]


def probs(m, k, rank, n):
    st, ca = data(len(rank), n, k)
    x = rlt.PreprocessedRankingInput.from_input(state=st, candidates=ca, device=torch.device("cpu"), action=torch.tensor(rank))
    return torch.exp(m(x, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs).detach()[:, 0].tolist()


def make(m, base_, clamp, warm, interval):
    return Seq2SlateTrainer(m, minibatch_size=2, parameters=Seq2SlateParameters(on_policy=False, ips_clamp=cl(clamp)), baseline_net=base_,
                            baseline_warmup_num_batches=warm, policy_optimizer=sgd(LR), baseline_optimizer=sgd(LR), policy_gradient_interval=interval)


def schedules(arch):
    def fn(ctx):
        ranks = [(0, 1), (2, 0), (1, 2)]
        for (clamp, baseline, warm, interval) in itertools.product(CLAMPS, (False, True), (0, 1, 2, 3, 5), (1, 2, 3)):
            if not baseline and warm not in (0, 3):
                continue

            def case():
                m, bn = small(arch), base(3) if baseline else None
                rm, rb, acc = copy.deepcopy(m), copy.deepcopy(bn), {}
                tr = make(m, bn, clamp, warm, interval)
                spy = Spy(KEYS)
                tr.add_observer(spy)
                for t in range(1, 7):
                    rank = [ranks[t % 3], ranks[(t + 1 + t // 3) % 3]]
                    ps = probs(rm, t, rank, 3)
                    b = batch(t, rank, [(0.5, 2.0, 0.2)[t % 3], (1.2, 0.4)[t % 2]], [(1.0, -0.5)[t % 2], (2.0, 0.0, 0.7)[t % 3]], 3, ps)
                    x = rlt.PreprocessedRankingInput.from_input(**b)
                    before = [v.clone() for v in (x.state.float_features, x.src_seq.float_features, x.slate_reward, x.tgt_out_probs, x.tgt_out_idx)]
                    tr.train(x)
                    want = pg_step(rm, rb, acc, b, clamp, t, warm, interval)
                    agree([m] + ([bn] if baseline else []), [rm] + ([rb] if baseline else []), "after minibatch %d" % t)
                    got = dict(spy.got)
                    expect(len(spy.got) == len(KEYS) and set(got) == set(KEYS), "reported %s", [k for k, _ in spy.got])
                    for k in KEYS:
                        close(got[k], want[k], k, rtol=3e-4, atol=1e-5)
                    spy.got.clear()
                    after = (x.state.float_features, x.src_seq.float_features, x.slate_reward, x.tgt_out_probs, x.tgt_out_idx)
                    expect(all(torch.equal(a, c) for a, c in zip(before, after)), "the batch was changed")
                    ctx.state((arch.value, clamp, baseline, warm, interval, t))
                    ctx.step()
                    ctx.outcome(want["train_clamped_ips_ratio"])
            ctx.run((arch.value, clamp and (clamp[0].value, clamp[1]), baseline, warm, interval), case)
    return fn


def slates(arch, big):
    def fn(ctx):
        ratios, rewards = (0.2, 0.9, 1.1, 4.0), (-1.0, 0.0, 2.0)
        for n in (1, 2, 3) + ((4,) if big else ()):
            for k in range(1, n + 1):
                for rank in itertools.permutations(range(n), k):
                    for clamp, baseline in itertools.product(CLAMPS + ([(U, 1.0), (A, 1.0), (U, 4.5), (A, 0.1)] if big else []), (False, True)):
                        def case():
                            for ratio, reward in itertools.product(ratios, rewards):
                                m, bn = small(arch, 21 + n, n), base(4) if baseline else None
                                rm, rb = copy.deepcopy(m), copy.deepcopy(bn)
                                ps = probs(m, 5, [rank], n)
                                b = batch(5, [rank], [ratio], [reward], n, ps)
                                st, ca = b["state"][0].double().numpy(), b["candidates"][0].double().numpy()
                                close(ps[0], chain(Ref(m, 1).steps(arch, st, ca, rank), rank), "probability of the ranking", rtol=1e-3)
                                tr = make(m, bn, clamp, 0, 1)
                                tr.train(rlt.PreprocessedRankingInput.from_input(**b))
                                want = pg_step(rm, rb, {}, b, clamp, 1, 0, 1)
                                agree([m] + ([bn] if baseline else []), [rm] + ([rb] if baseline else []), "%s %s" % (ratio, reward))
                                ctx.state((n, rank, clamp, baseline, ratio, reward))
                                ctx.step()
                                ctx.outcome(want["train_clamped_ips_ratio"])
                        ctx.run((arch.value, n, rank, clamp and (clamp[0].value, clamp[1]), baseline), case, nontrivial=n > 1)
    return fn


def clamps(ctx):
    vals = (0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 10.0)
    for c in [None] + [(k, m) for k in (U, A) for m in (0.5, 1.0, 2.0)]:
        def case():
            for r in itertools.product(vals, repeat=2):
                x = torch.tensor([[r[0]], [r[1]]])
                got = ips_clamp(x, cl(c))
                for v, g in zip(r, got[:, 0].tolist()):
                    if c is None:
                        w = v
                    elif c[0] == U:
                        w = min(v, c[1])
                    else:
                        w = v if v < c[1] else 0.0
                        if v == c[1]:
                            expect(g in (0.0, v), "boundary")
                            continue
                    same(g, w, "ratio %s" % v)
                same(x[:, 0].tolist(), list(r), "input")
                ctx.step()
                ctx.state((str(c), r))
        ctx.run((c and (c[0].value, c[1]),), case)


# -- teacher forcing, attention, differentiable reward ------------------------------------------
def teacher(arch):
    def fn(ctx):
        for n in (2, 3):
            for k in range(1, n + 1):
                perms = list(itertools.permutations(range(n), k))
                for interval, (i, r1) in itertools.product((1, 2, 3), enumerate(perms)):
                    def case():
                        m = small(arch, 30 + n, n)
                        rm = copy.deepcopy(m)
                        tr = Seq2SlateTeacherForcingTrainer(m, Seq2SlateParameters(), 2, policy_optimizer=sgd(LR), policy_gradient_interval=interval)
                        acc = {}
                        for t in range(1, 5):
                            best = [r1, perms[(i * 3 + t) % len(perms)]][: 1 + t % 2]
                            logged = [perms[(i + t) % len(perms)] for _ in best]
                            st, ca = data(len(best), n, t)
                            kw = dict(state=st, candidates=ca, device=torch.device("cpu"))
                            # the logged action and the best one are the same sequence: the network conditions on the logged one
                            tr.train(rlt.PreprocessedRankingInput.from_input(action=torch.tensor(best), optimal_action=torch.tensor(best), **kw))
                            x = rlt.PreprocessedRankingInput.from_input(action=torch.tensor(best), **kw)
                            lp = rm(x, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs
                            loss = -lp.sum() / len(best)
                            ps = list(rm.parameters())
                            for j, g in enumerate(torch.autograd.grad(loss, ps, allow_unused=True)):
                                if g is not None:
                                    acc[j] = acc.get(j, 0) + g
                            if t % interval == 0:
                                with torch.no_grad():
                                    for j, g in acc.items():
                                        ps[j] -= LR * g
                                acc = {}
                            agree([m], [rm], "after minibatch %d" % t)
                            ctx.state((n, k, interval, i, t))
                            ctx.step()
                            ctx.outcome(float(loss))
                    ctx.run(("teacher", arch.value, n, k, interval, r1), case)
    return fn


def attention(ctx):
    for n, b in itertools.product((1, 2, 3), (1, 2)):
        for rew in itertools.product(itertools.product((0.0, 0.5, 1.0), repeat=n), repeat=b):
            if b == 2 and n == 3 and h3(rew) % 3:
                continue

            def case():
                m = small(ES, 40 + n, n)
                rm = copy.deepcopy(m)
                tr = Seq2SlatePairwiseAttnTrainer(m, policy_optimizer=sgd(LR))
                spy = Spy(["cross_entropy_loss"])
                tr.add_observer(spy)
                for t in range(2):
                    st, ca = data(b, n, t)
                    act = torch.arange(n).repeat(b, 1)
                    x = rlt.PreprocessedRankingInput.from_input(state=st, candidates=ca, device=torch.device("cpu"), action=act, position_reward=torch.tensor(rew))
                    tr.train(x)
                    s = rm(x, mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores
                    loss = 0.0
                    for i in range(b):
                        z = torch.logsumexp(s[i], 0)
                        for j in range(n):
                            if rew[i][j]:
                                loss = loss + rew[i][j] * (math.log(rew[i][j]) - (s[i][j] - z))
                    loss = loss / b
                    if torch.is_tensor(loss):
                        ps = list(rm.parameters())
                        with torch.no_grad():
                            for p, g in zip(ps, torch.autograd.grad(loss, ps, allow_unused=True)):
                                if g is not None:
                                    p -= LR * g
                    agree([m], [rm], "after minibatch %d" % t)
                    same(len(spy.got), t + 1, "reports")
                    close(float(spy.got[-1][1]), float(loss), "reported loss")
                    ctx.state((n, b, rew, t))
                    ctx.step()
            ctx.run(("attention", n, b, rew), case, nontrivial=n > 1)


def h3(x):
    return sum(int(2 * v) * (i + 1) for i, v in enumerate(itertools.chain(*x)))


def reward_gradient(arch):
    def fn(ctx):
        for n in (2, 3):
            for k in range(1, n + 1):
                perms = list(itertools.permutations(range(n), k))
                for rank, on, clamp in itertools.product(perms, (True, False), CLAMPS):
                    if on and clamp not in (None, CLAMPS[3]):
                        continue

                    def case():
                        for ratio, rew in itertools.product((0.2, 1.0, 4.0), ((1.0, 0.5, 2.0), (0.0, -1.0, 1.0))):
                            m = small(arch, 50 + n, n)
                            rm = copy.deepcopy(m)
                            tr = Seq2SlateDifferentiableRewardTrainer(m, Seq2SlateParameters(on_policy=on, ips_clamp=cl(clamp)), 2, policy_optimizer=sgd(LR))
                            rr = [rank, perms[-1]]
                            pr = torch.tensor([rew[:k], (0.3, 1.0, -0.5)[:k]])
                            for t in range(2):
                                pp = probs(rm, t, rr, n)
                                b = batch(t, rr, [ratio, 0.8], [0.0, 0.0], n, pp, position_reward=pr)
                                x = rlt.PreprocessedRankingInput.from_input(**b)
                                tr.train(x)
                                lp = rm(x, mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs
                                loss = 0.0
                                for i in range(2):
                                    logs = [lp[i, s, rr[i][s] + 2] for s in range(k)]
                                    p = torch.exp(sum(logs))
                                    w = p / p.detach() if on else ref_ratio(p / b["logged_propensities"][i, 0], clamp)
                                    loss = loss + w * sum(-logs[s] * float(pr[i, s]) / math.log(s + 2) for s in range(k))
                                loss = loss / 2
                                ps = list(rm.parameters())
                                with torch.no_grad():
                                    for p, g in zip(ps, torch.autograd.grad(loss, ps, allow_unused=True)):
                                        if g is not None:
                                            p -= LR * g
                                agree([m], [rm], "%s %s minibatch %d" % (ratio, rew, t))
                                ctx.state((n, rank, on, str(clamp), ratio, rew, t))
                                ctx.step()
                                ctx.outcome(float(loss))
                    ctx.run(("reward", arch.value, n, rank, on, clamp and (clamp[0].value, clamp[1])), case)
    return fn


# -- simulation ---------------------------------------------------------------------------------
class Score(torch.nn.Module):
    """slate reward: position-weighted candidate features, the state and the indices"""

    def __init__(self, a: float, b: float):
        super().__init__()
        self.a = a
        self.b = b

    def forward(self, state, src, sim, mask, idx):
        w = torch.arange(1, sim.shape[1] + 1).float()
        return (self.a + (sim[:, :, 0].abs() * w).sum(1) + self.b * state[:, 0].abs() + 0.1 * (idx.float() * w).sum(1)).reshape(-1, 1)


def score(a, b, st, ca, rank):
    return a + sum((t + 1) * abs(float(ca[i, 0])) + 0.1 * (t + 1) * (i + 2) for t, i in enumerate(rank)) + b * abs(float(st[0]))


def swaps(n):
    """adjacent swaps needed from the production ordering until the first k slots are the ranking"""
    start = tuple(range(n))
    dist, todo = {start: 0}, [start]
    while todo:
        nxt = []
        for s in todo:
            for i in range(n - 1):
                u = list(s)
                u[i], u[i + 1] = u[i + 1], u[i]
                u = tuple(u)
                if u not in dist:
                    dist[u] = dist[s] + 1
                    nxt.append(u)
        todo = nxt
    out = {}
    for s, d in dist.items():
        for k in range(1, n + 1):
            out[s[:k]] = min(d, out.get(s[:k], 10 ** 9))
    return out


def distance(ctx):
    for n in (1, 2, 3, 4, 5, 6):
        def case():
            for rank, d in swaps(n).items():
                l = list(rank)
                same(int(swap_dist(l)), d, "distance of %s" % l)
                same(l, list(rank), "input")
                ctx.state(rank)
                ctx.step()
        ctx.run(("swap distance", n), case)


def simulation(arch, big):
    def fn(ctx):
        d = tempfile.mkdtemp()
        paths = {}
        for name, (a, b) in dict(x=(0.2, 0.5), y=(1.0, 0.0)).items():
            paths[name] = os.path.join(d, name + ".pt")
            torch.jit.save(torch.jit.script(Score(a, b)), paths[name])
        coef = dict(x=(0.2, 0.5), y=(1.0, 0.0))
        try:
            sims = [dict(x=(1.0, 1.0)), dict(x=(-0.5, 2.0)), dict(x=(0.5, 1.0), y=(2.0, 0.5))]
            for n, k in ((2, 1), (2, 2), (3, 2), (3, 3)):
                swd = swaps(n)
                ranks = list(itertools.permutations(range(n), k))
                for wp, clampr, pen, clamp, baseline in itertools.product(sims, (None, (0.0, 1.5), (None, 2.0), (2.5, None)), (None, 0.3), (None, CLAMPS[2], CLAMPS[3]), (False, True)):
                    if not big and (n, k) != (3, 2) and (clamp is not None or baseline):
                        continue
                    for b in (1, 2):
                        if b == 2 and (clamp or baseline) and not big:
                            continue

                        def case():
                            m, bn = small(arch, 60 + n, n, k), base(5) if baseline else None
                            start = copy.deepcopy(m.state_dict()), bn and copy.deepcopy(bn.state_dict())
                            p = Seq2SlateParameters(
                                on_policy=True, ips_clamp=cl(clamp),
                                simulation=SimulationParameters(
                                    reward_name_weight={q: v[0] for q, v in wp.items()}, reward_name_power={q: v[1] for q, v in wp.items()},
                                    reward_name_path={q: paths[q] for q in wp},
                                    reward_clamp=clampr and RewardClamp(clamp_min=clampr[0], clamp_max=clampr[1]), distance_penalty=pen))
                            st, ca = data(b, n, 7)
                            # the gradient of every possible slate
                            pieces = []
                            for i in range(b):
                                row = []
                                for rank in ranks:
                                    rew = sum(w * score(*coef[q], st[i], ca[i], rank) ** e for q, (w, e) in wp.items())
                                    if clampr:
                                        lo, hi = clampr
                                        rew = rew if lo is None else max(lo, rew)
                                        rew = rew if hi is None else min(hi, rew)
                                    if pen is not None:
                                        rew += pen * (n * (n - 1) / 2 - swd[rank])
                                    x = rlt.PreprocessedRankingInput.from_input(state=st[i:i + 1], candidates=ca[i:i + 1], device=torch.device("cpu"), action=torch.tensor([rank]))
                                    val = float(bn(x)) if baseline else 0.0
                                    pr = torch.exp(m(x, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs)
                                    c = ref_ratio(pr / pr.detach(), clamp)
                                    g = torch.autograd.grad(-(c * (rew - val)).sum() / b, list(m.parameters()), allow_unused=True)
                                    row.append((rank, float(pr), rew, torch.cat([torch.zeros(q.numel()) if v is None else v.reshape(-1) for q, v in zip(m.parameters(), g)])))
                                pieces.append(row)
                            flat0 = torch.cat([q.detach().reshape(-1) for q in m.parameters()])
                            spy_seen = set()
                            combos = list(itertools.product(range(len(ranks)), repeat=b))
                            for want in combos:
                                m.load_state_dict(start[0])
                                if bn:
                                    bn.load_state_dict(start[1])
                                tr = Seq2SlateSimulationTrainer(m, 2, p, baseline_net=bn, policy_optimizer=sgd(LR), baseline_optimizer=sgd(LR))
                                step = [0]

                                def pick(row, cnt, repl):
                                    i, t = step[0] % b, step[0] // b
                                    step[0] += 1
                                    j = ranks[want[i]][t] + 2
                                    expect(row[j] > 0, "the ranking cannot be sampled")
                                    return [j]

                                x = rlt.PreprocessedRankingInput.from_input(state=st, candidates=ca, device=torch.device("cpu"))
                                try:
                                    with ScriptedRandom(multinomial=pick):
                                        tr.train(x)
                                except RuntimeError as e:
                                    if "unexpected random draw" not in str(e):
                                        raise
                                    torch.manual_seed(hash(want) % 1000)
                                    tr.train(x)
                                flat = torch.cat([q.detach().reshape(-1) for q in m.parameters()])
                                hit = [c for c in combos if torch.allclose(flat, flat0 - LR * sum(pieces[i][j][3] for i, j in enumerate(c)), rtol=1e-3, atol=2e-5)]
                                expect(hit, "the update of rankings %s is the documented update of no ranking", [ranks[j] for j in want])
                                if len(step) and step[0] == b * k:
                                    expect(want in hit, "rankings %s were trained as %s", [ranks[j] for j in want], [ranks[j] for j in hit[0]])
                                if baseline:
                                    j = want if want in hit else hit[0]
                                    rb = base(5)
                                    v = rb(x)
                                    loss = sum((v[i, 0] - pieces[i][q][2]) ** 2 for i, q in enumerate(j)) / b
                                    gs = torch.autograd.grad(loss, list(rb.parameters()))
                                    with torch.no_grad():
                                        for q, g in zip(rb.parameters(), gs):
                                            q -= LR * g
                                    agree([bn], [rb], "baseline")
                                ctx.state((n, k, str(wp), clampr, pen, str(clamp), baseline, want))
                                ctx.step()
                                ctx.outcome(pieces[0][want[0]][2])
                        ctx.run(("simulation", arch.value, n, k, sorted(wp.items()), clampr, pen, clamp and clamp[0].value + str(clamp[1]), baseline, b), case)
        finally:
            for q in paths.values():
                os.unlink(q)
            os.rmdir(d)
    return fn


def groups(tier):
    warnings.simplefilter("ignore")
    big = tier == "thorough"
    g = [("clamps", clamps), ("swap-distance", distance), ("attention", attention)]
    for a in (AR, FS):
        g += [("schedules-" + a.value, schedules(a)), ("slates-" + a.value, slates(a, big)), ("teacher-" + a.value, teacher(a)),
              ("reward-gradient-" + a.value, reward_gradient(a)), ("simulation-" + a.value, simulation(a, big))]
    return g

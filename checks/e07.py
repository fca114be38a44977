"""E07: evaluators of ranking models, reward networks and evaluation helpers."""
import copy
import itertools
import logging
import math
import types
from collections import Counter

import torch

from mc.core import close, expect, raises, same
from mc.trainkit import fd, snapshot, unchanged

import reagent.types as rlt
from reagent.core.observers import ValueListObserver
from reagent.core.tracker import Observer
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.evaluation.evaluator import Evaluator, get_metrics_to_score, get_tensor
from reagent.evaluation.ranking_listwise_evaluator import RankingListwiseEvaluator
from reagent.evaluation.ranking_policy_gradient_evaluator import RankingPolicyGradientEvaluator
from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer

logging.getLogger("reagent").setLevel(logging.ERROR)

LEVEL = "exploration"
RULE = (
    "listwise metrics: every relevance vector, logged order and model order up to three (four) positions, in batches of up to three rows; "
    "policy-gradient evaluation: every sequence of up to three batches over an alphabet of rows, for every order of the epoch's end, with and "
    "without baseline, CPE and training mode; reward networks: every sequence of up to three epochs of batches over a loss alphabet. "
    "Non-trivial: more than one row or batch. Metric formulas are plain Python"
)
ASSUMPTIONS = [
    "binary relevance (the metrics used are only defined for it) and rankings without ties",
    "models are look-up tables that fail when they are evaluated in training mode",
    "a mean evaluation loss of 1e9 or more never counts as a best model",
]


class Spy(Observer):
    def __init__(self, keys):
        super().__init__(list(keys))
        self.got = []

    def update(self, key, value):
        self.got.append((key, value))


# -- reference metrics --------------------------------------------------------------------------
def rel_in_order(truth, score):
    return [truth[i] for i in sorted(range(len(truth)), key=lambda i: -score[i])]


def dcg(r):
    return sum(x / math.log2(i + 2) for i, x in enumerate(r))


def metrics(truth, score):
    r = rel_in_order(truth, score)
    pos, neg = sum(r), len(r) - sum(r)
    ap = sum(sum(r[:i + 1]) / (i + 1) for i in range(len(r)) if r[i]) / pos
    auc = sum(1 for i in range(len(r)) for j in range(i + 1, len(r)) if r[i] > r[j]) / (pos * neg)
    return dict(dcg=dcg(r), ndcg=dcg(r) / dcg(sorted(r, reverse=True)), mean_ap=ap, auc=auc)


class RankNet(torch.nn.Module):
    """scores and orders of each row, looked up by the row's state"""

    def __init__(self, scores, orders, logp=None, probs=None):
        super().__init__()
        self.p = torch.nn.Parameter(torch.ones(1))
        self.scores, self.orders, self.logp, self.probs = scores, orders, logp, probs
        self.calls = []

    def forward(self, inp, mode, greedy=None):
        expect(not self.training, "the network was evaluated in training mode")
        expect(not torch.is_grad_enabled(), "gradients are recorded during the evaluation")
        ids = [int(x) for x in inp.state.float_features[:, 0]]
        self.calls.append(mode)
        if mode == Seq2SlateMode.ENCODER_SCORE_MODE:
            return rlt.RankingOutput(encoder_scores=torch.tensor([self.scores[i] for i in ids]) * self.p)
        if mode == Seq2SlateMode.PER_SEQ_LOG_PROB_MODE:
            return rlt.RankingOutput(log_probs=torch.tensor([[self.logp[i]] for i in ids]) * self.p)
        expect(mode == Seq2SlateMode.RANK_MODE and greedy is True, "mode %s, greedy %s", mode, greedy)
        return rlt.RankingOutput(
            ranked_tgt_out_idx=torch.tensor([self.orders[i] for i in ids]) + 2,
            ranked_per_seq_probs=None if self.probs is None else torch.tensor([[self.probs[i]] for i in ids]))


LKEYS = ["cross_entropy_loss", "dcg", "ndcg", "mean_ap", "auc", "base_dcg", "base_ndcg", "base_map", "base_auc"]


def listwise_case(ctx, n, rows, cpe, mode):
    """rows: (relevance by position, logged order, model order, scores)"""
    net = RankNet([r[3] for r in rows], [r[2] for r in rows])
    net.train(mode)
    ev = RankingListwiseEvaluator(net, n, cpe)
    spy = Spy(LKEYS)
    ev.add_observer(spy)
    inp = rlt.PreprocessedRankingInput(
        state=fd(torch.tensor([[float(i)] for i in range(len(rows))])), src_seq=fd(torch.zeros(len(rows), n, 1)), tgt_out_idx=torch.tensor([r[1] for r in rows]) + 2,
        position_reward=torch.tensor([r[0] for r in rows], dtype=torch.float))
    before = snapshot(inp)
    ev.evaluate(inp)
    unchanged(before, inp)
    expect(net.training == mode, "training mode is %s after the evaluation", net.training)
    want = Counter()
    used = [r for r in rows if 0 < sum(r[0]) < n]
    tot = {k: [] for k in LKEYS[1:]}
    for rel, logged, ranked, _s in used:
        truth = [0.0] * n
        for p, d in enumerate(logged):
            truth[d] = rel[p]
        for order, names in ((ranked, ("dcg", "ndcg", "mean_ap", "auc")), (logged, ("base_dcg", "base_ndcg", "base_map", "base_auc"))):
            sc = [0.0] * n
            for p, d in enumerate(order):
                sc[d] = n - p
            for k, name in zip(("dcg", "ndcg", "mean_ap", "auc"), names):
                tot[name].append(metrics(truth, sc)[k])
    kl = 0.0
    for rel, _l, _r, s in rows:
        z = math.log(sum(math.exp(x) for x in s))
        kl += sum(p * (math.log(p) - (x - z)) for p, x in zip(rel, s) if p > 0)
    want = dict(cross_entropy_loss=kl / len(rows))
    if cpe:
        want.update({k: sum(v) / len(v) for k, v in tot.items() if v})
    got = dict(spy.got)
    expect(len(got) == len(spy.got) and set(got) == set(want), "reported %s, want %s", sorted(k for k, _ in spy.got), sorted(want))
    for k in want:
        expect(isinstance(got[k], torch.Tensor) and got[k].shape == (1,), "%s has shape %s", k, getattr(got[k], "shape", None))
        close(got[k], [want[k]], k, rtol=1e-4, atol=1e-5)
    n_calls = len(net.calls)
    ev.evaluate_post_training()
    expect(len(net.calls) == n_calls and len(spy.got) == len(got), "the end of the training evaluates again")
    ctx.step(len(rows))
    ctx.state((n, rows, cpe))
    ctx.outcome(sorted(want.items()))


def scores_of(n, i):
    return [((3 * j + 2 * i) % 5) * 0.7 - 1.0 for j in range(n)]


def listwise_single(n):
    def fn(ctx):
        perms = list(itertools.permutations(range(n)))
        for rel in itertools.product((0, 1), repeat=n):
            for logged in perms:
                for i, ranked in enumerate(perms):
                    r = (rel, logged, ranked, scores_of(n, i))
                    ctx.run((rel, logged, ranked), listwise_case, ctx, n, [r], True, i % 2 == 0, nontrivial=False)
        r = ((1,) + (0,) * (n - 1), perms[0], perms[-1], scores_of(n, 1))
        for mode in (True, False):
            ctx.run(("no-cpe", mode), listwise_case, ctx, n, [r], False, mode)
            raises(lambda: listwise_case(ctx, n + 1, [r], False, mode), "a slate of the wrong size")
    return fn


def listwise_batches(big):
    def fn(ctx):
        n = 3
        perms = list(itertools.permutations(range(n)))
        al = []
        for i, rel in enumerate(itertools.product((0, 1), repeat=n)):
            al.append((rel, perms[(2 * i) % 6], perms[(5 * i + 1) % 6], scores_of(n, i)))
        al.append(((0, 1, 0), perms[4], perms[4], scores_of(n, 3)))
        for k in (2, 3) if big else (2,):
            for rows in itertools.product(range(len(al)), repeat=k):
                for cpe in (True, False):
                    ctx.run((rows, cpe), listwise_case, ctx, n, [al[i] for i in rows], cpe, sum(rows) % 2 == 0)
        if not big:
            for rows in itertools.product((0, 1, 5, 7), repeat=3):
                ctx.run((rows, True), listwise_case, ctx, n, [al[i] for i in rows], True, sum(rows) % 2 == 0)
    return fn


# -- policy gradient ----------------------------------------------------------------------------
PKEYS = ["eval_baseline_loss", "eval_advantages", "logged_slate_rank_probs", "ranked_slate_rank_probs"]
PAGES = ["eval_data_pages_g", "eval_data_pages_ng"]
LOGP, PROBS, BASE = [-0.5, -1.5, -0.1], [0.7, 0.4, 0.9], [0.25, -1.0, 2.0]
ORDERS, LOGGED = [(0, 1), (2, 0), (1, 2)], [(0, 1), (1, 0), (1, 2)]
REWARD, PROPENSITY = [1.0, -2.0, 0.5], [0.5, 0.25, 0.8]
CAND = [[1.0, 0.5], [2.0, -1.0], [0.25, 4.0]]


class Baseline(torch.nn.Module):
    def forward(self, inp):
        expect(not self.training, "the baseline was evaluated in training mode")
        return torch.tensor([[BASE[int(x)]] for x in inp.state.float_features[:, 0]])


class Reward(torch.nn.Module):
    def forward(self, state, src, tgt, mask, idx):
        return ((tgt.sum(2) * torch.tensor([1.0, 0.5])).sum(1) + 10 * state[:, 0] + (idx.float() * torch.tensor([100.0, 7.0])).sum(1)).reshape(-1)


def reward(i, sl):
    return sum(p * sum(CAND[d]) for p, d in zip((1.0, 0.5), sl)) + 10 * i + 100 * (sl[0] + 2) + 7 * (sl[1] + 2)


def pg_batch(rows):
    n = len(rows)
    src = torch.tensor([CAND] * n)
    return rlt.PreprocessedRankingInput(
        state=fd(torch.tensor([[float(i)] for i in rows])), src_seq=fd(src), src_src_mask=torch.ones(n, 3, 3), tgt_out_seq=fd(torch.stack([src[k][list(LOGGED[i])] for k, i in enumerate(rows)])),
        tgt_out_idx=torch.tensor([LOGGED[i] for i in rows]) + 2, tgt_out_probs=torch.tensor([PROPENSITY[i] for i in rows]), slate_reward=torch.tensor([[REWARD[i]] for i in rows]))


def page_want(rows, greedy):
    return dict(
        logged_propensities=[[PROPENSITY[i]] for i in rows], logged_rewards=[[REWARD[i]] for i in rows],
        action_mask=[[1.0 if not greedy or LOGGED[i] == ORDERS[i] else 0.0] for i in rows],
        model_propensities=[[1.0] if greedy else [math.exp(LOGP[i])] for i in rows],
        model_rewards=[[reward(i, ORDERS[i])] for i in rows], model_rewards_for_logged_action=[[reward(i, LOGGED[i])] for i in rows])


def pg_case(ctx, epochs, cpe, baseline, mode):
    net = RankNet(None, ORDERS, LOGP, PROBS)
    base = Baseline() if baseline else None
    net.train(mode)
    if base is not None:
        base.train(not mode)
    tr = types.SimpleNamespace(seq2slate_net=net, baseline_net=base)
    ev = RankingPolicyGradientEvaluator(tr, cpe, Reward() if cpe else None)
    spy, pages = Spy(PKEYS), [ValueListObserver(k) for k in PAGES]
    ev.add_observer(spy)
    ev.add_observers(pages)
    for e, batches in enumerate(epochs):
        for rows in batches:
            inp = pg_batch(rows)
            before = snapshot(inp)
            spy.got.clear()
            ev.evaluate(inp)
            unchanged(before, inp)
            expect(net.training == mode and (base is None or base.training != mode), "training modes changed to %s", net.training)
            b = [BASE[i] if baseline else 0.0 for i in rows]
            want = dict(
                eval_baseline_loss=[sum((x - REWARD[i]) ** 2 for x, i in zip(b, rows)) / len(rows) if baseline else 0.0],
                eval_advantages=[REWARD[i] - x for x, i in zip(b, rows)], logged_slate_rank_probs=[math.exp(LOGP[i]) for i in rows])
            got = dict(spy.got)
            expect(len(got) == len(spy.got) and set(got) == set(PKEYS), "reported %s", [k for k, _ in spy.got])
            for k in want:
                close(got[k], want[k], k)
            close(got["ranked_slate_rank_probs"].flatten(), [PROBS[i] for i in rows], "probabilities of the model's slates")
            expect(all(not p.values for p in pages) or e > 0, "pages were published before the end")
            ctx.step()
        for p in pages:
            p.values.clear() if e == 0 else None
        n_before = [len(p.values) for p in pages]
        ev.evaluate_post_training()
        allrows = [i for rows in batches for i in rows]
        for p, k0, greedy in zip(pages, n_before, (True, False)):
            if not cpe or not allrows:
                expect(len(p.values) == k0, "%s was published without data", p.observing_keys)
                continue
            expect(len(p.values) == k0 + 1, "%d pages were published", len(p.values) - k0)
            page, w = p.values[-1], page_want(allrows, greedy)
            for f in EvaluationDataPage._fields:
                if f in w:
                    close(getattr(page, f), w[f], f)
        ctx.state((epochs, e, cpe, baseline))
    ctx.outcome(epochs)


def policy_gradient(big):
    def fn(ctx):
        al = [(0,), (1,), (2,), (1, 0), (0, 2)] if big else [(0,), (1, 0), (2,)]
        seqs = [s for k in (1, 2, 3) for s in itertools.product(al, repeat=k)]
        for s in seqs:
            for cpe, baseline, mode in itertools.product((True, False), repeat=3):
                ctx.run(("one", s, cpe, baseline, mode), pg_case, ctx, [s], cpe, baseline, mode, nontrivial=len(s) > 1)
        small = [s for s in seqs if len(s) < 3]
        for a, b in itertools.product(small, repeat=2):
            ctx.run(("two", a, b), pg_case, ctx, [a, b], True, True, True)
        for s in seqs[:4]:
            ctx.run(("empty", s), pg_case, ctx, [s, (), s], True, False, False)
        raises(lambda: RankingPolicyGradientEvaluator(None, True), "CPE without a reward network")
    return fn


# -- reward networks ----------------------------------------------------------------------------
class RewNet(torch.nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(w))

    def forward(self, inp):
        expect(not self.training, "the reward network was evaluated in training mode")
        return rlt.RewardNetworkOutput(predicted_reward=inp.state.float_features * self.w)


LOSS = {
    LossFunction.MSE: lambda p, t: (p - t) ** 2,
    LossFunction.L1Loss: lambda p, t: abs(p - t),
    LossFunction.SmoothL1Loss: lambda p, t: 0.5 * (p - t) ** 2 if abs(p - t) < 1 else abs(p - t) - 0.5,
    LossFunction.BCELoss: lambda p, t: -(t * math.log(p) + (1 - t) * math.log(1 - p)),
}


def reward_case(ctx, fn, kind, epochs, threshold):
    """epochs: list of (weight of the network, batches of (x, reward) rows)"""
    net = RewNet(1.0)
    tr = RewardNetTrainer(net, loss_type=fn, reward_ignore_threshold=threshold)
    ev = RewardNetEvaluator(tr)
    best, best_w = 1e9, None
    for w, batches in epochs:
        with torch.no_grad():
            net.w.fill_(w)
        for k, rows in enumerate(batches):
            net.train(k % 2 == 0)
            x, r = torch.tensor([[a] for a, _ in rows]), torch.tensor([[b] for _, b in rows])
            if kind == "ranking":
                inp = rlt.PreprocessedRankingInput(state=fd(x), src_seq=fd(torch.zeros(len(rows), 1, 1)), slate_reward=r)
            else:
                inp = types.SimpleNamespace(state=fd(x), reward=r)
            ev.evaluate(inp)
            expect(net.training == (k % 2 == 0), "the training mode changed")
            ctx.step()
        res = ev.evaluate_post_training()
        means = [sum(LOSS[fn](a * w, b) for a, b in rows) / len(rows) for rows in batches]
        m = sum(means) / len(means)
        close(float(res["loss"]), m, "mean loss")
        close(res["rewards"], [b for rows in batches for _, b in rows], "rewards")
        close(res["pred_rewards"], [a * w for rows in batches for a, _ in rows], "predictions")
        if m < best - 1e-6:
            best, best_w = m, w
        elif m < best + 1e-6:
            best_w = ev.best_model.w.item() if ev.best_model.w.item() in (best_w, w) else best_w
        close(float(ev.best_model_loss), best, "best loss")
        expect(ev.best_model is not net and abs(ev.best_model.w.item() - best_w) < 1e-6, "the best model has weight %s, want %s", ev.best_model.w.item(), best_w)
        ctx.state((fn.value, w, batches, best_w))
    with torch.no_grad():
        net.w.fill_(77.0)
    close(ev.best_model.w.item(), best_w, "best model after further training")
    ctx.outcome((best, best_w))


def reward_nets(big):
    def fn(ctx):
        rows = [(0.5, 0.25), (0.25, 1.0), (0.75, 0.0)]
        bats = [(a,) for a in rows] + [(rows[0], rows[1]), (rows[2], rows[1], rows[0])]
        ws = (1.0, 0.5, 1.25)
        for f in LOSS:
            for kind in ("ranking", "plain"):
                for n in (1, 2, 3) if big else (1, 2):
                    for s in itertools.product(bats, repeat=n):
                        ctx.run((f.value, kind, "one", s), reward_case, ctx, f, kind, [(0.5, s)], None, nontrivial=n > 1)
            for w in itertools.product(ws, repeat=3):
                for i, (s, t) in enumerate(itertools.product(bats, repeat=2)):
                    if big or i % 3 == 0:
                        ctx.run((f.value, "epochs", w, s, t), reward_case, ctx, f, "ranking", [(w[0], (s,)), (w[1], (t, s)), (w[2], (t,))], None)
            # rewards above the threshold are ignored in training, never in evaluation
            for s in bats:
                ctx.run((f.value, "threshold", s), reward_case, ctx, f, "ranking", [(0.5, (s,))], 0.5)
    return fn


# -- helpers of the evaluator -------------------------------------------------------------------
def helpers(ctx):
    def tensors():
        expect(get_tensor(None) is None and get_tensor(None, torch.float) is None, "None")
        t = torch.tensor([1, 2])
        expect(get_tensor(t) is t, "a tensor is kept")
        for v in ([1, 2], (1.5,), [[1.0], [2.0]]):
            same(get_tensor(v), v if isinstance(v, list) else list(v))
            expect(get_tensor(v, torch.double).dtype == torch.double, "type")
        expect(get_tensor(t, torch.float).dtype == torch.float and t.dtype == torch.long, "type of a tensor")
    ctx.run("tensors", tensors)
    names = ["b", "a", "c"]
    for k in range(4):
        for sub in itertools.permutations(names, k):
            def met():
                d = {x: float(i) for i, x in enumerate(sub)}
                same(get_metrics_to_score(d), sorted(sub))
                same(get_metrics_to_score(None), [])
                ctx.state(sub)
            ctx.run(("metrics", sub), met, nontrivial=k > 1)
    for A in (1, 2, 3):
        acts = ["x", "y", "z"][:A]
        ev = Evaluator(acts, 0.9, None)
        oh = [[1.0 if j == i else 0.0 for j in range(A)] for i in range(A)]
        for n in (1, 2, 3):
            for rows in itertools.product(range(A), repeat=n):
                for cut in range(1, n + 1):
                    def counts():
                        bs = [torch.tensor([oh[i] for i in part]) for part in (rows[:cut], rows[cut:]) if part]
                        dist, cnt = ev._get_batch_logged_actions(bs)
                        same(cnt, {a: rows.count(i) for i, a in enumerate(acts)}, "counts")
                        close(dist, {a: rows.count(i) / n for i, a in enumerate(acts)}, "distribution")
                        ctx.step()
                        ctx.state((A, rows, cut))
                    ctx.run(("actions", A, rows, cut), counts, nontrivial=n > 1)
        for tgt in itertools.product((0.0, 0.5, 1.0), repeat=A):
            for act in itertools.product((0.0, 0.25, 1.0), repeat=A):
                def err():
                    e = ev.get_target_distribution_error(acts, list(tgt), dict(zip(acts, act)))
                    close(e, sum((a - b) ** 2 for a, b in zip(tgt, act)) / A, "error")
                ctx.run(("error", tgt, act), err, nontrivial=A > 1)
        ctx.run(("no-target", A), lambda: expect(ev.get_target_distribution_error(acts, [], {}) is None, "error without target"))
    for a, b in itertools.product((-2.0, -1.0, -0.5, 0.0, 0.25, 1.0, 3.0), repeat=2):
        def hub():
            d = abs(a - b)
            close(Evaluator.huberLoss(a, b), 0.5 * d * d if d <= 1 else d - 0.5, "huber")
        ctx.run(("huber", a, b), hub, nontrivial=a != b)


def groups(tier):
    big = tier == "thorough"
    return [("listwise-2", listwise_single(2)), ("listwise-3", listwise_single(3))] + ([("listwise-4", listwise_single(4))] if big else []) + [
        ("listwise-batches", listwise_batches(big)), ("policy-gradient", policy_gradient(big)), ("reward", reward_nets(big)), ("helpers", helpers)]

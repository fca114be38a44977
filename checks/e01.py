"""E01: evaluation data pages and the single-step off-policy estimators, against independent formulas."""
import contextlib
import itertools
import logging
import math
import re
import types

import numpy as np
import torch

from checks import t01, t02
from mc.core import close, expect, raises, same, seed_all
from mc.trainkit import Tab, TabSA, attach, col, fd, onehot, sgd, snapshot, unchanged
from mc.trainers import cpe_nets

import reagent.types as rlt
from reagent.core.observers import ValueListObserver
from reagent.evaluation.cpe import CpeDetails, CpeEstimate, CpeEstimateSet, bootstrapped_std_error_of_mean
from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator, DoublyRobustHP
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.evaluation.evaluator import Evaluator
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer

logging.getLogger("reagent").setLevel(logging.ERROR)

LEVEL = "exploration"
RULE = (
    "every batch of small logged transitions and every split of it into pages; every order of the rows for sorting; every pattern of "
    "episode ends, sequence gaps and rewards up to five steps for the value computation; every log of up to three rows over an alphabet "
    "of actions, policies, propensities, rewards and predictions for the estimators; every resampling outcome enumerated once for the "
    "standard errors. Non-trivial: more than one row. Reference formulas are plain Python"
)
ASSUMPTIONS = [
    "networks are look-up tables, so a row's predictions are known exactly",
    "a normalizer of zero is reported when the logged reward is not positive (below 1e-6)",
]
S = 3
FIELDS = EvaluationDataPage._fields


def softmax_masked(q, m, t):
    if not any(m):
        return [0.0] * len(q)
    mx = max(x for x, k in zip(q, m) if k)
    e = [math.exp((x - mx) / t) if k else 0.0 for x, k in zip(q, m)]
    z = sum(e)
    return [x / z for x in e]


def splits(n):
    for k in range(n):
        for cut in itertools.combinations(range(1, n), k):
            c = (0,) + cut + (n,)
            yield [(c[i], c[i + 1]) for i in range(len(c) - 1)]


# -- page construction ------------------------------------------------------------------------
MET = [[0.3, -1.0], [0.0, 2.0], [1.5, 0.5]]


def dqn_trainer(A, M, boost, temp):
    W = A * (1 + M)
    nets = cpe_nets(A, W)
    q = [r[:A] for r in t01.Q3]
    t = [r[:A] for r in t01.T3]
    acts = ["a", "b", "c"][:A]
    tr = DQNTrainer(
        Tab(q), Tab(t), actions=acts, optimizer=sgd(0.1), metrics_to_score=["m%d" % k for k in range(M)] if M else None,
        rl=RLParameters(gamma=0.9, temperature=temp, reward_boost={acts[0]: -0.25, acts[-1]: 0.75} if boost else None),
        evaluation=EvaluationParameters(calc_cpe_in_training=True), **nets)
    tables = dict(q=q, **{k: v.w.tolist() for k, v in nets.items()})
    return tr, tables


def dqn_page_ref(rows, A, M, boost, temp, T, met, prop, ids, seqs):
    out = {f: [] for f in FIELDS}
    for i, row in enumerate(rows):
        s, a, r, m = row[0], row[1], row[2], row[5]
        oh = [1.0 if j == a else 0.0 for j in range(A)]
        rew, val = T["reward_network"][s], T["q_network_cpe"][s]
        b = {A - 1: 0.75, 0: -0.25}.get(a, 0.0) if boost else 0.0
        out["mdp_id"].append([ids[i]])
        out["sequence_number"].append([seqs[i]])
        out["logged_propensities"].append([prop[i]])
        out["logged_rewards"].append([r + b])
        out["action_mask"].append(oh)
        out["model_propensities"].append(softmax_masked(T["q"][s], m, temp))
        out["model_rewards"].append(rew[:A])
        out["model_rewards_for_logged_action"].append([rew[a]])
        out["model_values"].append(val[:A])
        out["model_values_for_logged_action"].append([val[a]])
        out["possible_actions_mask"].append(list(m))
        out["optimal_q_values"].append(T["q"][s])
        out["eval_action_idxs"].append([max([j for j in range(A) if m[j]], key=lambda j: T["q"][s][j])])
        if M:
            out["logged_metrics"].append(met[i])
            out["model_metrics"].append(rew[A:])
            out["model_metrics_for_logged_action"].append([rew[A + k * A + a] for k in range(M)])
            out["model_metrics_values"].append(val[A:])
            out["model_metrics_values_for_logged_action"].append([val[A + k * A + a] for k in range(M)])
    return {k: v or None for k, v in out.items()}


def page_is(page, want, what=""):
    for f in FIELDS:
        got = getattr(page, f)
        if want.get(f) is None:
            expect(got is None or got.numel() == 0, "%s%s is %s, want none", what, f, got)
        else:
            expect(got is not None, "%s%s is missing", what, f)
            close(got, want[f], what + f, rtol=1e-4, atol=1e-5)


def dqn_pages(A, big):
    def fn(ctx):
        allrows = [r for r in t01.transitions(A, big) if r[7]]
        allrows = [r for i, r in enumerate(allrows) if r[5][r[1]]]
        for M, boost, temp in itertools.product((0, 1, 2), (False, True), (0.7, 0.05)):
            tr, T = dqn_trainer(A, M, boost, temp)
            attach(tr)
            for start in range(0, len(allrows), 2 if big else 5):
                for n in (1, 2, 4):
                    rows = [allrows[(start + 5 * j) % len(allrows)] for j in range(n)]

                    def case():
                        met = [[MET[(start + i) % 3][k] for k in range(M)] for i in range(n)]
                        prop = [0.25 * (1 + (start + i) % 3) for i in range(n)]
                        ids, seqs = [7 + i // 2 for i in range(n)], [1 + 2 * i for i in range(n)]

                        def batch(lo, hi):
                            b = t01.batch_of(rows[lo:hi], A)
                            b.extras.mdp_id = col(ids[lo:hi], torch.int64)
                            b.extras.sequence_number = col(seqs[lo:hi], torch.int64)
                            b.extras.action_probability = col(prop[lo:hi])
                            b.extras.metrics = torch.tensor(met[lo:hi]) if M else None
                            return b
                        want = dqn_page_ref(rows, A, M, boost, temp, T, met, prop, ids, seqs)
                        for cut in splits(n):
                            page = None
                            for lo, hi in cut:
                                b = batch(lo, hi)
                                before = snapshot(b)
                                for net, mode in ((tr.q_network, True), (tr.reward_network, False), (tr.q_network_cpe, len(cut) % 2 == 0)):
                                    net.train(mode)
                                pars = {k: v.clone() for k, v in tr.state_dict().items() if torch.is_tensor(v)}
                                p = EvaluationDataPage.create_from_training_batch(b, tr)
                                unchanged(before, b)
                                same([tr.q_network.training, tr.reward_network.training, tr.q_network_cpe.training],
                                     [True, False, len(cut) % 2 == 0], "train mode of the networks")
                                for k, v in tr.state_dict().items():
                                    if torch.is_tensor(v):
                                        same(v, pars[k], "evaluation changed " + k)
                                expect(not any(torch.is_tensor(x) and x.requires_grad for x in p), "the page carries gradients")
                                page = p if page is None else page.append(p)
                                ctx.step()
                            page_is(page, want, "%s: " % (cut,))
                            ctx.state((A, M, boost, temp, start, cut))
                        ctx.outcome(to_list(page))
                    ctx.run((A, M, boost, temp, start, n), case, nontrivial=n > 1)
    return fn


def trained(A, big):
    """what the trainer reports at the end of an evaluation: an estimate for the reward and one for every metric it was told to score"""
    def fn(ctx):
        allrows = [r for r in t01.transitions(A, big) if r[7]]
        allrows = [r for r in allrows if r[5][r[1]]]
        for M, (boost, temp) in itertools.product((0, 1, 2), ((False, 0.7), (True, 0.05)) + (((True, 0.7), (False, 0.05)) if big else ())):
            tr, T = dqn_trainer(A, M, boost, temp)
            spy = attach(tr)
            for start in range(0, len(allrows), 3 if big else 8 * A - 9):
                for n, cut in ((2, (2,)), (4, (4,)), (4, (1, 3)), (5, (2, 2, 1))):
                    def case():
                        rows = [allrows[(start + 5 * j) % len(allrows)] for j in range(n)]
                        met = [[MET[(start + i) % 3][k] + k for k in range(M)] for i in range(n)]
                        prop = [0.25 * (1 + (start + i) % 3) for i in range(n)]
                        ids, seqs = [7 + i // 2 for i in range(n)], [1 + 2 * i for i in range(n)]
                        batches, lo = [], 0
                        for size in cut:
                            hi = lo + size
                            b = t01.batch_of(rows[lo:hi], A)
                            b.extras.mdp_id, b.extras.sequence_number = col(ids[lo:hi], torch.int64), col(seqs[lo:hi], torch.int64)
                            b.extras.action_probability = col(prop[lo:hi])
                            b.extras.metrics = torch.tensor(met[lo:hi]) if M else None
                            batches.append(b)
                            lo = hi
                        want = dqn_page_ref(rows, A, M, boost, temp, T, met, prop, ids, seqs)
                        spy.logs.clear()
                        tr.test_epoch_end([tr.test_step(b, i) for i, b in enumerate(batches)])
                        got = [d["cpe_details"] for d in spy.logs if "cpe_details" in d]
                        same(len(got), 1, "evaluations reported")
                        names = ["m%d" % k for k in range(M)]
                        same(sorted(got[0].metric_estimates), names, "metrics scored")
                        for k, name in enumerate(["reward"] + names):
                            e = got[0].metric_estimates[name] if k else got[0].reward_estimates
                            pr, lp = want["model_propensities"], [x[0] for x in want["logged_propensities"]]
                            r = [m[k - 1] for m in met] if k else [x[0] for x in want["logged_rewards"]]
                            mr = [x[(k - 1) * A:k * A] for x in want["model_metrics"]] if k else want["model_rewards"]
                            rows_ = list(zip([x[1] for x in rows], pr, lp, r, mr))
                            mean = sum(r) / n
                            norm = 0.0 if mean < 1e-6 else 1 / mean
                            for j, (kind, est) in enumerate((("direct", e.direct_method), ("ips", e.inverse_propensity), ("dr", e.doubly_robust))):
                                raw = sum(row_terms(x)[j] for x in rows_) / n
                                close([est.raw, est.normalized], [raw, raw * norm], "%s estimate of %s" % (kind, name), rtol=1e-3, atol=1e-4)
                        same(sorted(got[0].q_value_means), sorted(["a", "b", "c"][:A]), "actions")
                        ctx.step()
                        ctx.outcome((names, float(got[0].mc_loss)))
                    ctx.run((M, boost, temp, start, n, cut), case)
    return fn


def to_list(page):
    return [None if x is None else (x.tolist() if hasattr(x, "tolist") else x) for x in page]


class TabMulti(torch.nn.Module):
    """(state, action) -> reward and metrics, every column its own table"""

    def __init__(self, w):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(w))  # [S][A][K]

    def forward(self, state, action):
        return torch.einsum("bs,ba,sak->bk", state.float_features, action.float_features, self.w)


def parametric_pages(big):
    def fn(ctx):
        A = t02.A
        allrows = t02.p_rows()
        for M, temp in itertools.product((0, 1, 2), (0.7, 0.05)):
            rw = [[[0.4 * s - 0.7 * a + 0.3 * k * (1 + s + 2 * a) for k in range(1 + M)] for a in range(A)] for s in range(S)]
            tr = ParametricDQNTrainer(TabSA(t02.Q), TabSA(t02.T), TabMulti(rw), rl=RLParameters(gamma=0.9, temperature=temp), optimizer=sgd(0.1))
            attach(tr)
            for start, n in itertools.product(range(0, len(allrows), 3 if big else 11), (1, 2, 3)):
                rows = [allrows[(start + 7 * j) % len(allrows)] for j in range(n)]

                def case():
                    met = [[MET[(start + i) % 3][k] for k in range(M)] for i in range(n)]
                    prop = [0.25 * (1 + (start + i) % 3) for i in range(n)]
                    ids, seqs = [7 + i // 2 for i in range(n)], [1 + 2 * i for i in range(n)]
                    want = {f: [] for f in FIELDS}
                    for i, r in enumerate(rows):
                        s, a, cand, m = r[0], r[1], r[5], r[6]
                        q = [t02.Q[s][c] for c in cand]
                        want["mdp_id"].append([ids[i]])
                        want["sequence_number"].append([seqs[i]])
                        want["logged_propensities"].append([prop[i]])
                        want["logged_rewards"].append([r[2]])
                        want["action_mask"].append([1.0 if c == a else 0.0 for c in cand])
                        want["model_propensities"].append(softmax_masked(q, m, temp))
                        want["model_rewards"].append([rw[s][c][0] for c in cand])
                        want["model_rewards_for_logged_action"].append([rw[s][a][0]])
                        want["model_values"].append(q)
                        want["model_values_for_logged_action"].append([t02.Q[s][a]])
                        want["possible_actions_mask"].append(list(m))
                        want["optimal_q_values"].append(q)
                        if M:
                            want["logged_metrics"].append(met[i])
                            want["model_metrics"].append([rw[s][c][1 + k] for k in range(M) for c in cand])
                            want["model_metrics_values"].append(q * M)
                    want = {k: v or None for k, v in want.items()}
                    for cut in splits(n):
                        page = None
                        for lo, hi in cut:
                            b = t02.p_batch(rows[lo:hi], torch.float32, 0)
                            b.possible_actions = b.possible_next_actions
                            b.possible_actions_mask = b.possible_next_actions_mask
                            b.extras = rlt.ExtraData(
                                mdp_id=col(ids[lo:hi], torch.int64), sequence_number=col(seqs[lo:hi], torch.int64), action_probability=col(prop[lo:hi]),
                                metrics=torch.tensor(met[lo:hi]) if M else None, max_num_actions=A)
                            before = snapshot(b)
                            tr.q_network.train(len(cut) % 2 == 0)
                            tr.reward_network.train(len(cut) % 2 == 1)
                            p = EvaluationDataPage.create_from_training_batch(b, tr)
                            unchanged(before, b)
                            same([tr.q_network.training, tr.reward_network.training], [len(cut) % 2 == 0, len(cut) % 2 == 1], "train mode")
                            page = p if page is None else page.append(p)
                            ctx.step()
                        page_is(page, want, "%s: " % (cut,))
                        ctx.state((M, temp, start, cut))
                    if M:
                        v = page._replace(logged_metrics_values=page.logged_metrics * 2, logged_values=page.logged_rewards)
                        for k in range(M):
                            w = v.set_metric_as_reward(k, A)
                            close(w.model_rewards, [[rw[r[0]][c][1 + k] for c in r[5]] for r in rows], "metric %d predictions" % k)
                            close(w.model_rewards_for_logged_action, [[rw[r[0]][r[1]][1 + k]] for r in rows], "metric %d of the logged action" % k)
                    ctx.outcome(to_list(page))
                ctx.run((M, temp, start, n), case, nontrivial=n > 1)
    return fn


# -- order, values, validation -----------------------------------------------------------------
def tiny_page(ids, seqs, rewards, metrics=None, strings=False):
    n = len(ids)
    return EvaluationDataPage(
        mdp_id=np.array([["mdp%d" % i] for i in ids]) if strings else col(ids, torch.int64),
        sequence_number=col(seqs, torch.int64), logged_propensities=col([0.5 + 0.01 * i for i in range(n)]),
        logged_rewards=col(rewards), action_mask=onehot([i % 2 for i in range(n)], 2),
        model_propensities=torch.tensor([[0.1 * i, 1 - 0.1 * i] for i in range(n)]), model_rewards=torch.tensor([[1.0 * i, 2.0 * i] for i in range(n)]),
        model_rewards_for_logged_action=col([10.0 + i for i in range(n)]), model_values=torch.tensor([[3.0 * i, 4.0 * i] for i in range(n)]),
        model_values_for_logged_action=col([20.0 + i for i in range(n)]),
        logged_metrics=None if metrics is None else torch.tensor(metrics),
        model_metrics=None if metrics is None else torch.tensor([[5.0 * i + k for k in range(2 * len(metrics[0]))] for i in range(n)]),
        model_metrics_values=None if metrics is None else torch.tensor([[6.0 * i + k for k in range(2 * len(metrics[0]))] for i in range(n)]),
    )


def sorting(big):
    def fn(ctx):
        keys = [(1, 1), (1, 2), (1, 5), (2, 1), (2, 3), (10, 0)]
        for n in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5):
            for sel in itertools.permutations(keys, n):
                for strings in (False, True):
                    def case():
                        page = tiny_page([k[0] for k in sel], [k[1] for k in sel], [float(i) for i in range(n)], strings=strings)
                        got = page.sort()
                        order = sorted(range(n), key=lambda i: (("mdp%d" % sel[i][0]) if strings else sel[i][0], sel[i][1]))
                        for f in FIELDS:
                            x, y = getattr(page, f), getattr(got, f)
                            if x is None:
                                expect(y is None, f)
                            else:
                                same(y.tolist(), [x.tolist()[i] for i in order], f)
                        got.compute_values(0.5).validate()
                        ctx.step()
                        ctx.state((sel, strings))
                    ctx.run((n, strings) + sel, case, nontrivial=n > 1)
    return fn


def values(big):
    def fn(ctx):
        for n in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
            for new in itertools.product((0, 1), repeat=n - 1):
                for gaps in itertools.product((1, 3), repeat=n - 1):
                    for rew in itertools.product((0.0, 1.0, -2.0), repeat=n) if n < 4 else [(1.0, -2.0, 4.0, 0.5, 3.0)[:n], (0.0, 8.0, -1.0, 2.0, -3.0)[:n]]:
                        for gamma, M in itertools.product((0.5, 1.0), (0, 1, 3)):
                            if M != 1 and rew[0] == 0:
                                continue

                            def case():
                                ids, seqs = [5], [3]
                                for i in range(n - 1):
                                    ids.append(ids[-1] - new[i])
                                    seqs.append(1 if new[i] else seqs[-1] + gaps[i])
                                met = [[(k + 1) * rew[(i + k) % n] + k for k in range(M)] for i in range(n)]
                                page = tiny_page(ids, seqs, rew, met if M else None)
                                got = page.compute_values(gamma)

                                def ref(x):
                                    return [sum(x[j] * gamma ** (seqs[j] - seqs[i]) for j in range(i, n) if ids[j] == ids[i]) for i in range(n)]
                                close(got.logged_values, [[v] for v in ref(rew)], "values")
                                if M:
                                    cols = [ref([m[k] for m in met]) for k in range(M)]
                                    close(got.logged_metrics_values, [[c[i] for c in cols] for i in range(n)], "metric values")
                                else:
                                    expect(got.logged_metrics_values is None, "metric values of nothing")
                                for f in FIELDS:
                                    if f not in ("logged_values", "logged_metrics_values"):
                                        x, y = getattr(page, f), getattr(got, f)
                                        same(y, x, f)
                                same(page.logged_rewards, [[float(r)] for r in rew], "rewards")
                                got.validate()
                                for k in range(M):
                                    m = got.set_metric_as_reward(k, 2)
                                    same(m.logged_rewards.tolist(), [[x[k]] for x in got.logged_metrics.tolist()], "metric as reward")
                                    same(m.logged_values.tolist(), [[x[k]] for x in got.logged_metrics_values.tolist()], "metric values as values")
                                    sl = slice(2 * k, 2 * k + 2)
                                    same(m.model_rewards, got.model_metrics[:, sl], "model metrics")
                                    same(m.model_values, got.model_metrics_values[:, sl], "model metric values")
                                    oh = [i % 2 for i in range(n)]
                                    same(m.model_rewards_for_logged_action.tolist(), [[got.model_metrics[i, 2 * k + oh[i]].item()] for i in range(n)],
                                         "predicted metric of the logged action")
                                    same(m.model_values_for_logged_action.tolist(), [[got.model_metrics_values[i, 2 * k + oh[i]].item()] for i in range(n)],
                                         "predicted metric value of the logged action")
                                    m.validate()
                                ctx.step()
                                ctx.state((new, gaps, rew, gamma, M))
                                ctx.outcome(got.logged_values)
                            ctx.run((n, new, gaps, rew, gamma, M), case, nontrivial=n > 1)
    return fn


def validation(ctx):
    for n in (2, 3, 4):
        for ids in itertools.product((1, 2, 3), repeat=n):
            for seqs in itertools.product((1, 2, 3), repeat=n) if n < 4 else [(1, 2, 3, 4), (1, 2, 1, 2), (1, 1, 2, 2), (4, 3, 2, 1)]:
                def case():
                    page = tiny_page(ids, seqs, [1.0] * n)._replace(logged_values=col([1.0] * n))
                    blocks = [k for k, _ in itertools.groupby(ids)]
                    ok = len(blocks) == len(set(ids)) and all(seqs[i + 1] > seqs[i] for i in range(n - 1) if ids[i] == ids[i + 1])
                    if ok:
                        page.validate()
                    else:
                        raises(page.validate, "validation of broken episodes")
                    ctx.step()
                    ctx.state((ids, seqs))
                ctx.run((ids, seqs), case)
    bad = {
        "logged_rewards": lambda x: torch.cat([x, x], 1), "logged_propensities": lambda x: x.squeeze(1), "logged_values": lambda x: x[:1],
        "model_rewards": lambda x: x[:, :1], "model_values": lambda x: torch.cat([x, x], 1), "model_propensities": lambda x: x[:1],
        "action_mask": lambda x: x[:, :1], "logged_metrics": lambda x: x[:, :1], "logged_metrics_values": lambda x: x[:1],
        "model_metrics": lambda x: x[:, :3], "model_metrics_values": lambda x: x[:, :2],
    }
    for f, g in bad.items():
        def case():
            page = tiny_page((1, 1), (1, 2), (1.0, 2.0), [[1.0, 2.0], [3.0, 4.0]]).compute_values(0.9)
            page.validate()
            raises(page._replace(**{f: g(getattr(page, f))}).validate, "validation of a wrong %s" % f)
            ctx.step()
        ctx.run(("shape", f), case)
    for f in ("logged_metrics", "contexts", "eval_action_idxs"):
        def case():
            page = tiny_page((1, 1), (1, 2), (1.0, 2.0))
            other = page._replace(**{f: torch.zeros(2, 1)})
            raises(lambda: page.append(other), "appending a page with %s" % f)
            raises(lambda: other.append(page), "appending a page without %s" % f)
            ctx.step()
        ctx.run(("append", f), case)


# -- estimators --------------------------------------------------------------------------------
@contextlib.contextmanager
def all_resamples(n, size):
    """every sample of `size` of `n` elements is drawn exactly once"""
    combos = itertools.cycle(itertools.product(range(n), repeat=size))
    used = [0]
    real = np.random.choice

    def choice(a, size_=None, replace=True, p=None, **kw):
        sz = kw.get("size", size_)
        data = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if len(data) != n or p is not None or not replace or int(np.prod(sz)) % size:
            return real(a, sz, replace, p)
        used[0] += int(np.prod(sz)) // size
        idx = [i for _ in range(int(np.prod(sz)) // size) for i in next(combos)]
        return data[np.array(idx)].reshape(sz)
    np.random.choice = lambda a, size=None, replace=True, p=None: choice(a, size, replace, p)
    try:
        yield used
    finally:
        np.random.choice = real


def bootstrap(big):
    def fn(ctx):
        for n in (1, 2, 3, 4, 5, 6, 8):
            for pct in (0.25, 0.5, 1.0):
                size = max(1, int(pct * n))
                if n ** size > 50000:
                    continue
                datas = list(itertools.product((0.0, 1.0, -3.0), repeat=n)) if n < 4 else [
                    tuple([1.0, 2.0, -5.0, 0.5, 7.0, 3.0, 3.0, 9.0][:n]), (2.0,) * n, tuple(float(i == 0) for i in range(n))]
                for data in datas:
                    for kind in ("tensor", "array"):
                        def case():
                            x = torch.tensor(data, dtype=torch.float64) if kind == "tensor" else np.array(data)
                            mean = sum(data) / n
                            sd = math.sqrt(sum((v - mean) ** 2 for v in data) / n)
                            with all_resamples(n, size) as used:
                                got = float(bootstrapped_std_error_of_mean(x, sample_percent=pct, num_samples=n ** size))
                            if used[0] == n ** size:
                                close(got, sd / math.sqrt(size), "standard error over all resamples")
                                ctx.step(used[0])
                            seed_all(3)
                            got = float(bootstrapped_std_error_of_mean(x, sample_percent=pct, num_samples=2000))
                            expect(abs(got - sd / math.sqrt(size)) <= 0.2 * sd / math.sqrt(size) + 1e-6, "standard error %s, want about %s", got, sd / math.sqrt(size))
                            same(list(np.asarray(x)), list(data), "data")
                            ctx.state((data, pct))
                            ctx.outcome(sd)
                        ctx.run((n, pct, data, kind), case, nontrivial=n > 1)
    return fn


# (action, target propensities, logged propensity, reward, predictions)
ALPHA = [
    (0, (0.5, 0.5), 0.5, 1.0, (1.0, 0.0)), (1, (0.5, 0.5), 0.25, 2.0, (0.5, 3.0)), (0, (1.0, 0.0), 1.0, 3.0, (-1.0, 2.0)), (1, (1.0, 0.0), 0.8, -4.0, (0.0, 0.0)),
    (1, (0.1, 0.9), 0.3, 0.0, (2.0, -0.5)), (0, (0.0, 1.0), 0.1, 5.0, (4.0, 4.0)),
]


def row_terms(r):
    a, pi, p, rew, m = r
    w = pi[a] / p
    dm = sum(x * y for x, y in zip(pi, m))
    return dm, w * rew, w * (rew - m[a]) + dm


def log_page(rows, A=2):
    return EvaluationDataPage(
        mdp_id=None, sequence_number=None, logged_propensities=col([r[2] for r in rows]), logged_rewards=col([r[3] for r in rows]),
        action_mask=onehot([r[0] for r in rows], A), model_propensities=torch.tensor([list(r[1]) for r in rows]),
        model_rewards=torch.tensor([list(r[4]) for r in rows]), model_rewards_for_logged_action=col([r[4][r[0]] for r in rows]))


def check_estimates(ests, rows, hp, what):
    n = len(rows)
    logged = sum(r[3] for r in rows) / n
    norm = 0.0 if logged < 1e-6 else 1 / logged
    terms = [row_terms(r) for r in rows]
    size = max(1, int(hp.bootstrap_sample_percent * n))
    for k, (name, e) in enumerate(zip(("direct", "ips", "dr"), ests)):
        vals = [t[k] for t in terms]
        raw = sum(vals) / n
        sd = math.sqrt(sum((v - raw) ** 2 for v in vals) / n) / math.sqrt(size)
        close(e.raw, raw, what + name + " estimate")
        close(e.normalized, raw * norm, what + name + " normalized")
        expect(abs(float(e.raw_std_error) - sd) <= 1e-4 + 0.35 * sd, "%s%s: standard error %s, want %s", what, name, e.raw_std_error, sd)
        close(e.normalized_std_error, float(e.raw_std_error) * norm, what + name + " normalized standard error")


def estimates(big):
    def fn(ctx):
        for n in (1, 2, 3) if not big else (1, 2, 3, 4):
            for rows in itertools.product(ALPHA, repeat=n) if n < 4 else itertools.combinations_with_replacement(ALPHA, 4):
                def case():
                    hp = DoublyRobustHP(bootstrap_num_samples=120, bootstrap_sample_percent=0.25 if len(set(rows)) % 2 else 0.67)
                    seed_all(5)
                    page = log_page(rows)
                    before = [None if x is None else x.clone() for x in page]
                    ests = DoublyRobustEstimator().estimate(page, hp)
                    check_estimates(ests, rows, hp, "")
                    for x, y in zip(page, before):
                        same(x, y, "the page")
                    ctx.step()
                    ctx.state(rows)
                    ctx.outcome([e.raw for e in ests])
                ctx.run((n,) + tuple(ALPHA.index(r) for r in rows), case, nontrivial=n > 1)
        # a policy that always does what was logged
        for n in (1, 2, 3):
            for rows in itertools.product(itertools.product((0, 1), (1.0, -2.0, 3.0)), repeat=n):
                def case():
                    log = [(a, (1.0 - a, float(a)), 1.0, r, (0.3, -7.0)) for a, r in rows]
                    dm, ips, dr = DoublyRobustEstimator().estimate(log_page(log), DoublyRobustHP(bootstrap_num_samples=2))
                    mean = sum(r for _, r in rows) / n
                    close([ips.raw, dr.raw], [mean, mean], "the logged policy")
                    if mean > 1e-6:
                        close([ips.normalized, dr.normalized], [1.0, 1.0], "normalized")
                    ctx.step()
                ctx.run(("match", n, rows), case, nontrivial=n > 1)
        # default resampling
        def case():
            rows = [ALPHA[i % 6] for i in range(12)]
            seed_all(5)
            check_estimates(DoublyRobustEstimator().estimate(log_page(rows)), rows, DoublyRobustHP(), "default ")
        ctx.run("default", case)
    return fn


# -- the evaluator -----------------------------------------------------------------------------
def evaluator(big):
    def fn(ctx):
        for n, M, opt, named in itertools.product((2, 3, 5), (0, 1, 2), (False, True), (True, False)):
            for start in range(6) if big else (n % 6, (n + 3) % 6):
                def case():
                    rows = [ALPHA[(start + i * i) % 6] for i in range(n)]
                    page = log_page(rows)
                    ids, seqs = [1 + 2 * i // n for i in range(n)], list(range(1, n + 1))
                    mets = [[r[3] * (k + 1) + k + i for k in range(M)] for i, r in enumerate(rows)]
                    mm = [[[0.5 * i + k - 1.5 * a for a in range(2)] for k in range(M)] for i in range(n)]
                    vals = [[1.0 * i, 2.0 - i] for i in range(n)]
                    page = page._replace(
                        mdp_id=col(ids, torch.int64), sequence_number=col(seqs, torch.int64), model_values=torch.tensor(vals),
                        model_values_for_logged_action=col([v[r[0]] for v, r in zip(vals, rows)]),
                        logged_metrics=torch.tensor(mets) if M else None,
                        model_metrics=torch.tensor([sum(x, []) for x in mm]) if M else None, model_metrics_values=torch.tensor([sum(x, []) for x in mm]) if M else None,
                        optimal_q_values=torch.tensor(vals) if opt else None, eval_action_idxs=col([i % 2 for i in range(n)], torch.int64) if opt else None)
                    page = page.compute_values(0.5)
                    names = ["m%d" % k for k in range(M)] or None
                    ev = Evaluator(["x", "y"] if named else None, 0.5, None, names)
                    obs = ValueListObserver("cpe_details")
                    ev.add_observer(obs)
                    seed_all(11)
                    got = ev.evaluate_post_training(page)
                    expect(len(obs.values) == 1 and obs.values[0] is got, "observers saw %s", obs.values)
                    es = got.reward_estimates
                    check_estimates((es.direct_method, es.inverse_propensity, es.doubly_robust), rows, DoublyRobustHP(), "reward ")
                    same(sorted(got.metric_estimates), names or [] if named else [], "metrics")
                    for k, name in enumerate((names or []) if named else []):
                        e = got.metric_estimates[name]
                        mrows = [(r[0], r[1], r[2], mets[i][k], tuple(mm[i][k])) for i, r in enumerate(rows)]
                        check_estimates((e.direct_method, e.inverse_propensity, e.doubly_robust), mrows, DoublyRobustHP(), name + " ")
                    lv = page.logged_values.reshape(-1).tolist()
                    close(got.mc_loss, sum((l - v[r[0]]) ** 2 for l, v, r in zip(lv, vals, rows)) / n, "mc loss")
                    if opt and named:
                        for j, a in enumerate("xy"):
                            c = [v[j] for v in vals]
                            mean = sum(c) / n
                            close(got.q_value_means[a], mean, "q mean")
                            close(got.q_value_stds[a], math.sqrt(sum((x - mean) ** 2 for x in c) / (n - 1)), "q std")
                            close(got.action_distribution[a], sum(1 for i in range(n) if i % 2 == j) / n, "action distribution")
                    else:
                        expect(got.q_value_means is None and got.action_distribution is None, "q statistics of nothing")
                    ctx.step()
                    ctx.state((n, M, opt, named, start))
                    ctx.outcome([es.direct_method.raw, es.doubly_robust.raw])
                ctx.run((n, M, opt, named, start), case)
    return fn


KINDS = ("direct_method", "inverse_propensity", "doubly_robust", "sequential_doubly_robust", "weighted_doubly_robust", "magic")
TITLES = {"Inverse Propensity": "inverse_propensity", "Direct Method": "direct_method", "Doubly Robust P.E.": "doubly_robust",
          "Value Weighted Doubly": "weighted_doubly_robust", "Value Sequential Doubly": "sequential_doubly_robust", "Magic": "magic"}


def logs(ctx):
    ests = {k: CpeEstimate(raw=1.125 + i, normalized=20.25 + i, raw_std_error=300.5 + i, normalized_std_error=4000.75 + i) for i, k in enumerate(KINDS)}

    def case():
        lines = []
        h = logging.Handler()
        h.emit = lambda rec: lines.append(rec.getMessage())
        lg = logging.getLogger("reagent.evaluation.cpe")
        old = lg.level
        lg.addHandler(h)
        lg.setLevel(logging.INFO)
        off = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        try:
            CpeEstimateSet(**ests).log()
        finally:
            logging.disable(off)
            lg.removeHandler(h)
            lg.setLevel(old)
        seen = set()
        for line in lines:
            if ":" not in line:
                continue
            title, nums = line.split(":", 1)
            keys = [v for k, v in TITLES.items() if k in title]
            if "Weighted" in title or "Sequential" in title or "Magic" in title:
                keys = [k for k in keys if k != "doubly_robust"]
            expect(len(keys) == 1, "line %s", line)
            e = ests[keys[0]]
            close([float(x) for x in re.findall(r"-?\d+\.\d+", nums)], [e.normalized, e.normalized_std_error, e.raw, e.raw_std_error], "logged " + keys[0], atol=1e-3)
            seen.add(keys[0])
        same(sorted(seen), sorted(KINDS), "logged estimates")
        ctx.step()
    ctx.run("text", case)

    for nan in (None,) + KINDS:
        def case():
            got = []
            import reagent.evaluation.cpe as cpe
            real = cpe.SummaryWriterContext.add_scalar
            cpe.SummaryWriterContext.add_scalar = lambda k, v, *a, **kw: got.append((k, v))
            e2 = dict(ests)
            if nan:
                e2[nan] = CpeEstimate(float("nan"), float("nan"), 1.0, 1.0)
            try:
                d = CpeDetails()
                d.reward_estimates = CpeEstimateSet(**e2)
                d.metric_estimates = {"m": CpeEstimateSet(**ests)}
                d.log_to_tensorboard()
            finally:
                cpe.SummaryWriterContext.add_scalar = real
            tags = dict(zip(KINDS, ("Direct_Method_Reward", "IPS_Reward", "Doubly_Robust_Reward", "Sequential_Doubly_Robust", "Weighted_Sequential_Doubly_Robust", "MAGIC")))
            want = {"CPE/%s/%s" % (m, t): (0.0 if k == nan and m == "Reward" else ests[k].normalized) for m in ("Reward", "m") for k, t in tags.items()}
            same(len(got), 12, "scalars")
            same(dict(got), want, "scalars")
            ctx.step()
        ctx.run(("tensorboard", nan), case)
    for present in itertools.product((0, 1), repeat=6):
        def case():
            s = CpeEstimateSet(**{k: ests[k] for k, p in zip(KINDS, present) if p})
            if all(present):
                s.check_estimates_exist()
            else:
                raises(s.check_estimates_exist, "incomplete estimates")
            f = s.fill_empty_with_zero()
            for k, p in zip(KINDS, present):
                same(tuple(getattr(f, k)), tuple(ests[k]) if p else (0.0,) * 4, k)
            ctx.step()
        ctx.run(("fill",) + present, case)


# -- slates ------------------------------------------------------------------------------------
SL = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]


def slates(ctx):
    CAND = [[[1.0, 0.5], [2.0, -1.0], [0.25, 4.0]], [[-1.0, 3.0], [0.0, 1.0], [5.0, 2.0]]]

    class Net:
        def __init__(self, ranked, probs):
            self.ranked, self.probs = ranked, probs

        def __call__(self, inp, mode, greedy=None, **kw):
            if mode == Seq2SlateMode.RANK_MODE:
                expect(greedy is True, "ranking for evaluation is not greedy")
                return rlt.RankingOutput(ranked_tgt_out_idx=torch.tensor(self.ranked) + 2)
            expect(mode == Seq2SlateMode.PER_SEQ_LOG_PROB_MODE, "mode %s", mode)
            return rlt.RankingOutput(log_probs=torch.tensor(self.probs).log().reshape(-1, 1))

    class Reward(torch.nn.Module):
        def forward(self, state, src, tgt, mask, idx):
            pos = torch.tensor([1.0, 0.5])
            return ((tgt.sum(2) * pos).sum(1) + 10 * state[:, 0] + (idx.float() * torch.tensor([100.0, 7.0])).sum(1)).reshape(-1)

    def reward(b, sl, st):
        return sum(p * sum(CAND[b][i]) for p, i in zip((1.0, 0.5), sl)) + 10 * st + 100 * (sl[0] + 2) + 7 * (sl[1] + 2)
    for n in (1, 2):
        for logged in itertools.product(SL, repeat=n):
            for ranked in itertools.product(SL if n == 1 else SL[::2] + SL[1:2], repeat=n):
                for greedy in (True, False):
                    def case():
                        st, pr, lp, rw = [0.3, -1.0][:n], [0.4, 0.15][:n], [0.2, 0.5][:n], [4.0, -1.0][:n]
                        src = torch.tensor(CAND[:n])
                        inp = rlt.PreprocessedRankingInput(
                            state=fd(torch.tensor([[s, 1.0] for s in st])), src_seq=fd(src), src_src_mask=torch.ones(n, 3, 3),
                            tgt_out_seq=fd(torch.stack([src[b][list(sl)] for b, sl in enumerate(logged)])), tgt_out_idx=torch.tensor(logged) + 2,
                            tgt_out_probs=torch.tensor(lp), slate_reward=torch.tensor(rw))
                        before = snapshot(inp)
                        page = EvaluationDataPage.create_from_tensors_seq2slate(Net([list(r) for r in ranked], pr), Reward(), inp, eval_greedy=greedy)
                        unchanged(before, inp)
                        match = [[1.0 if tuple(l) == tuple(r) else 0.0] for l, r in zip(logged, ranked)] if greedy else [[1.0]] * n
                        page_is(page, dict(
                            logged_propensities=[[x] for x in lp], logged_rewards=[[x] for x in rw], action_mask=match,
                            model_propensities=[[1.0]] * n if greedy else [[x] for x in pr],
                            model_rewards=[[reward(b, r, st[b])] for b, r in enumerate(ranked)],
                            model_rewards_for_logged_action=[[reward(b, l, st[b])] for b, l in enumerate(logged)]))
                        dm, ips, dr = DoublyRobustEstimator().estimate(page, DoublyRobustHP(bootstrap_num_samples=2))
                        w = [match[b][0] * (1.0 if greedy else pr[b]) / lp[b] for b in range(n)]
                        close(ips.raw, sum(x * y for x, y in zip(w, rw)) / n, "ips")
                        if greedy:
                            d = [reward(b, r, st[b]) for b, r in enumerate(ranked)]
                            close(dm.raw, sum(d) / n, "direct")
                            close(dr.raw, sum(d[b] + w[b] * (rw[b] - reward(b, logged[b], st[b])) for b in range(n)) / n, "dr")
                        ctx.step()
                        ctx.state((n, logged, ranked, greedy))
                        ctx.outcome(to_list(page))
                    ctx.run((n, logged, ranked, greedy), case, nontrivial=n > 1)


def groups(tier):
    big = tier == "thorough"
    return [("dqn-2", dqn_pages(2, big)), ("dqn-3", dqn_pages(3, big)), ("trained-2", trained(2, big)), ("trained-3", trained(3, big)), ("parametric", parametric_pages(big)), ("sorting", sorting(big)), ("values", values(big)),
            ("validation", validation), ("bootstrap", bootstrap(big)), ("estimates", estimates(big)), ("evaluator", evaluator(big)), ("logs", logs), ("slates", slates)]

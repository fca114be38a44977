"""E03: contextual-bandit estimators against their published formulas, over every small log."""
import itertools
import logging
import math
import os
import tempfile

import numpy as np
import torch

import reagent.ope.estimators.estimator as estimator_module
from mc.core import close, expect, raises, same, seed_all
from mc.trainkit import col, onehot
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.evaluation.ope_adapter import OPEstimatorAdapter
from reagent.ope.estimators.contextual_bandits_estimators import (
    ActionRewards, BanditsEstimatorInput, DMEstimator, DoublyRobustEstimator, IPSEstimator, LogSample, ModelOutputs, SwitchDREstimator, SwitchEstimator,
)
from reagent.ope.estimators.estimator import EstimatorResult, EstimatorResults, Evaluator, run_evaluation
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace, PredictResults, Trainer
from reagent.ope.utils import Clamper, LRUCache, RunningAverage, convert_to_one_hots

logging.disable(logging.ERROR)

LEVEL = "exploration"
RULE = (
    "every log of up to three samples (two actions) or two samples (three actions) over an alphabet of samples that includes missing logged actions, "
    "propensities of zero and negative rewards, for every estimator and clamp; every shuffle of logs of four and five samples for cross-fitted models; "
    "every sequence of up to four operations on value maps. Non-trivial: more than one sample or operation. Estimates are compared with the published formula"
)
ASSUMPTIONS = [
    "an action logged with a propensity below 1e-6 has weight 0 (before clamping)",
    "the switch threshold is the candidate of the documented exponential grid with the smallest estimated error; ties may go either way",
    "cross-fitted estimates of halves of different size may be averaged by halves or by samples",
]

# (logged action, logging policy, target policy, reward, model rewards)
ALPHABET = {
    2: [
        (0, (0.5, 0.5), (0.25, 0.75), 1.0, (0.75, 0.5)), (1, (0.25, 0.75), (0.5, 0.5), 2.0, (0.5, 1.75)), (0, (0.9, 0.1), (0.1, 0.9), -1.0, (0.0, 3.0)),
        (1, (0.8, 0.2), (0.0, 1.0), 4.0, (1.0, 2.5)), (0, (1.0, 0.0), (0.5, 0.5), 0.5, (1.0, -1.0)), (None, (0.5, 0.5), (0.75, 0.25), 0.0, (2.0, 1.0)),
        (1, (1.0, 0.0), (0.25, 0.75), 3.0, (0.25, 0.5)), (1, (0.5, 0.5), (1.0, 0.0), 0.0, (0.5, 0.0)),
    ],
    3: [
        (0, (0.5, 0.25, 0.25), (0.2, 0.3, 0.5), 1.0, (0.5, 0.25, 2.0)), (2, (0.1, 0.1, 0.8), (0.6, 0.2, 0.2), 2.0, (1.0, 0.0, 1.5)),
        (1, (0.25, 0.5, 0.25), (0.0, 1.0, 0.0), -0.5, (0.0, 0.5, 1.0)), (None, (0.2, 0.2, 0.6), (0.3, 0.3, 0.4), 0.0, (1.0, 2.0, 3.0)),
        (2, (0.5, 0.5, 0.0), (0.25, 0.25, 0.5), 1.5, (0.5, 0.5, 0.5)), (1, (0.7, 0.2, 0.1), (0.1, 0.4, 0.5), 3.0, (2.0, 2.5, 0.75)),
    ],
}
INF = float("inf")
CLAMPS = {"none": (-INF, INF), "tight": (0.5, 1.5), "upper": (-INF, 1.2), "lower": (0.75, INF)}


def sample_of(s, A, outputs=True, feature=None, gt=float("nan")):
    a, lp, tp, r, q = s
    return LogSample(
        context=0, log_action=Action(a), log_reward=r, log_action_probabilities=ActionDistribution(list(lp)), tgt_action_probabilities=ActionDistribution(list(tp)),
        tgt_action=Action(int(np.argmax(tp))), model_outputs=ModelOutputs(0.0 if a is None else q[a], list(q)) if outputs else None,
        ground_truth_reward=gt, item_feature=feature)


def dot(x, y):
    return sum(a * b for a, b in zip(x, y))


def weight(s, a, clamp):
    p = s[1][a]
    w = 0.0 if p < 1e-6 else s[2][a] / p
    return max(clamp[0], min(clamp[1], w))


def mean(x):
    return sum(x) / len(x)


def ref_values(kind, log, clamp, q=None):
    """per-sample contributions"""
    out = []
    for i, s in enumerate(log):
        a, _, tp, r, _ = s
        m = s[4] if q is None else q[i]
        w = 0.0 if a is None else weight(s, a, clamp)
        if kind == "dm":
            out.append(dot(tp, m))
        elif kind in ("ips", "wips"):
            out.append(w * r)
        elif kind == "dr":
            out.append(dot(tp, m) + (w * (r - m[a]) if a is not None else 0.0))
    if kind == "wips":
        tot = sum(0.0 if s[0] is None else weight(s, s[0], clamp) for s in log)
        return [v * len(log) / tot if tot > 0 else v for v in out]
    return out


def switch_candidates(log, A, clamp, rmax, dr, base, num, q=None):
    """[(error bound, contributions)] for every threshold"""
    ws = [[weight(s, a, clamp) for a in range(A)] for s in log]
    qs = [s[4] for s in log] if q is None else q
    if rmax is None:
        rmax = max(max(s[3], *m) for s, m in zip(log, qs))
    lo, hi = min(map(min, ws)), max(map(max, ws))
    taus = [lo + base ** x / base ** (num - 1) * (hi - lo) for x in range(num)]
    if not taus:
        taus = [lo - 1e-6]
    out = []
    for tau in taus:
        eps = 1e-9
        vals, bias = [], 0.0
        for s, w, m in zip(log, ws, qs):
            a, _, tp, r, _ = s
            wa = 0.0 if a is None else w[a]
            on = 1.0 if wa <= tau + eps else 0.0
            far = [1.0 if x > tau + eps else 0.0 for x in w]
            if dr:
                vals.append((wa * (r - m[a]) * on if a is not None else 0.0) + dot(tp, m))
            else:
                vals.append(wa * r * on + sum(t * x * f for t, x, f in zip(tp, m, far)))
            bias += sum(t * rmax * f for t, f in zip(tp, far)) / len(log)
        mu = mean(vals)
        out.append((sum((v - mu) ** 2 for v in vals) / len(vals) ** 2 + bias ** 2, vals))
    return out


class Stub:
    """replaces the bootstrap: standard deviation of the contributions it is given"""

    def __init__(self):
        self.data = None

    def __call__(self, data, *a, **k):
        self.data = [float(x) for x in np.reshape(data.detach().cpu().numpy() if isinstance(data, torch.Tensor) else np.asarray(data), -1)]
        return float(np.std(self.data))

    def __enter__(self):
        self.old = getattr(estimator_module, "bootstrapped_std_error_of_mean", None)
        if self.old is not None:
            estimator_module.bootstrapped_std_error_of_mean = self
        return self

    def __exit__(self, *a):
        if self.old is not None:
            estimator_module.bootstrapped_std_error_of_mean = self.old


def result_ok(res, vals, log, what, stub=None, gt=None, errors=True):
    m, lr = mean(vals), mean([s[3] for s in log])
    tol = dict(rtol=1e-4, atol=1e-5 * (1 + max(abs(v) for v in vals)))
    close(res.estimated_reward, m, what + " estimate", **tol)
    close(res.log_reward, lr, what + " logged reward")
    nrm = 1.0 / lr if lr >= 1e-6 else 0.0
    if abs(lr - 1e-6) > 1e-5:
        close(res.estimated_reward_normalized, m * nrm, what + " normalized", rtol=1e-4, atol=1e-4 * (1 + nrm))
        if errors:
            close(res.estimated_reward_normalized_std_error, float(res.estimated_reward_std_error) * nrm, what + " normalized error", rtol=1e-4, atol=1e-4)
    if errors:
        expect(float(res.estimated_reward_std_error) >= 0, "%s: error %s", what, res.estimated_reward_std_error)
        if stub is not None and stub.data is not None:
            close(sorted(stub.data), sorted(vals), what + " bootstrapped contributions", **tol)
            close(res.estimated_reward_std_error, float(np.std(stub.data)), what + " error", **tol)
    gts = [g for g in (gt or []) if not math.isnan(g)]
    if gts:
        close(res.ground_truth_reward, mean(gts), what + " ground truth")
    else:
        expect(math.isnan(res.ground_truth_reward), "%s: ground truth %s of a log without any", what, res.ground_truth_reward)


def among(res, cands, log, what, stub=None, gt=None):
    best = min(c[0] for c in cands)
    fails = None
    for loss, vals in cands:
        if loss <= best + 1e-6 + 1e-4 * abs(best):
            try:
                return result_ok(res, vals, log, what, stub, gt)
            except Exception as e:
                fails = fails or e
    raise fails


def logs(big):
    for A, n in ((2, 3), (3, 3 if big else 2)):
        for k in range(1, n + 1):
            for log in itertools.product(ALPHABET[A], repeat=k):
                yield A, log
    for A in (2, 3):
        for k in (4, 5):
            al = ALPHABET[A]
            for v in range(12 if not big else 60):
                yield A, tuple(al[(v + i * (1 + v % 5) + (i * v) // 3) % len(al)] for i in range(k))


def key_of(A, log):
    return "%d:%s" % (A, "".join(str(ALPHABET[A].index(s)) for s in log))


def formulas(big):
    def fn(ctx):
        for A, log in logs(big):
            def case():
                gt = [float("nan") if (i + len(log)) % 3 == 0 else 0.5 * i for i in range(len(log))]
                inp = BanditsEstimatorInput(ActionSpace(A), [sample_of(s, A, gt=g) for s, g in zip(log, gt)], True)
                with Stub() as stub:
                    result_ok(DMEstimator().evaluate(inp), ref_values("dm", log, CLAMPS["none"]), log, "direct", stub, gt)
                    for name, c in CLAMPS.items():
                        cl = None if name == "none" else Clamper(*c)
                        result_ok(IPSEstimator(cl).evaluate(inp), ref_values("ips", log, c), log, "ips " + name, stub, gt)
                        result_ok(IPSEstimator(cl, weighted=True).evaluate(inp), ref_values("wips", log, c), log, "weighted ips " + name, stub, gt)
                        result_ok(DoublyRobustEstimator(weight_clamper=cl).evaluate(inp), ref_values("dr", log, c), log, "doubly robust " + name, stub, gt)
                        ctx.step(3)
                ctx.state((A, log))
            ctx.run(key_of(A, log), case, nontrivial=len(log) > 1)
    return fn


def switch(big):
    def fn(ctx):
        for A, log in logs(False):
            if len(log) == 3 and not big and sum(ALPHABET[A].index(s) for s in log) % 3:
                continue

            def case():
                inp = BanditsEstimatorInput(ActionSpace(A), [sample_of(s, A) for s in log], True)
                with Stub() as stub:
                    for cname, rmax, (base, num) in itertools.product(("none", "tight"), (None, 1.0, 6.0), ((1.5, 21), (1.0, 3), (2.0, 4), (1.5, 0))):
                        if cname == "tight" and (rmax == 6.0 or num == 4):
                            continue
                        c = CLAMPS[cname]
                        cl = None if cname == "none" else Clamper(*c)
                        kw = {} if (base, num) == (1.5, 21) else dict(exp_base=base, candidates=num)
                        for dr, cls in ((False, SwitchEstimator), (True, SwitchDREstimator)):
                            res = cls(weight_clamper=cl, rmax=rmax).evaluate(inp, **kw)
                            what = "%s %s rmax %s grid %s/%s" % (cls.__name__, cname, rmax, base, num)
                            among(res, switch_candidates(log, A, c, rmax, dr, base, num), log, what, stub)
                            ctx.step()
                            ctx.outcome((cls.__name__, round(res.estimated_reward, 3)))
                            # the two ends of the switch
                            if num == 0:
                                close(res.estimated_reward, mean(ref_values("dm", log, c)), what + " below every weight", rtol=1e-4, atol=1e-4)
                            if base == 1.0:
                                close(res.estimated_reward, mean(ref_values("dr" if dr else "ips", log, c)), what + " above every weight", rtol=1e-4, atol=1e-4)
                ctx.state((A, log))
            ctx.run(key_of(A, log), case, nontrivial=len(log) > 1)
    return fn


def on_policy(big):
    def fn(ctx):
        for A, log in logs(big):
            if any(s[0] is None or s[1][s[0]] < 1e-6 for s in log):
                continue

            def case():
                on = tuple((a, lp, lp, r, q) for a, lp, tp, r, q in log)
                want = mean([s[3] for s in on])
                inp = BanditsEstimatorInput(ActionSpace(A), [sample_of(s, A) for s in on], True)
                truth = tuple((a, lp, lp, r, tuple(r for _ in q)) for a, lp, tp, r, q in log)
                exact = BanditsEstimatorInput(ActionSpace(A), [sample_of(s, A) for s in truth], True)
                with Stub():
                    for e in (IPSEstimator(), IPSEstimator(weighted=True), IPSEstimator(Clamper(0.2, 5.0), True)):
                        close(e.evaluate(inp).estimated_reward, want, "%r on the logging policy" % e, rtol=1e-4, atol=1e-4)
                    for e in (DMEstimator(), DoublyRobustEstimator(), SwitchDREstimator()) + ((SwitchEstimator(),) if all(min(s[1]) > 0 for s in on) else ()):
                        close(e.evaluate(exact).estimated_reward, want, "%r on the logging policy with the true rewards" % e, rtol=1e-4, atol=1e-4)
                ctx.step(6)
                ctx.state((A, log))
            ctx.run(key_of(A, log), case, nontrivial=len(log) > 1)
    return fn


class RecordingTrainer(Trainer):
    """reward model = fixed function of the query plus a fingerprint of what it was trained on"""

    def __init__(self):
        super().__init__()
        self.trained = []
        self.queries = []

    @property
    def name(self):
        return "recording"

    def train(self, data, iterations=1, num_samples=0):
        rows = [tuple(r) for r in data.train_x.tolist()]
        self._model = (rows, data.train_y.tolist(), [tuple(r) for r in data.validation_x.tolist()], data.validation_y.tolist())
        self.trained.append(self._model)

    def predict(self, x, device=None):
        rows = [tuple(r) for r in x.tolist()]
        self.queries.append((rows, self._model))
        return PredictResults(None, torch.tensor([self.value(self._model, r) for r in rows]), None)

    @staticmethod
    def value(model, row):
        return math.cos(1.3 * sum((i + 1) * v for i, v in enumerate(row))) + 0.1 * sum(model[1]) + 0.01 * sum(sum(r) for r in model[0])

    def score(self, x, y, weight=None):
        return 0.0


def cross_fit(big):
    def fn(ctx):
        for n in (4, 5) if not big else (4, 5, 6):
            for v in range(3):
                for perm in itertools.permutations(range(n)):
                    if n > 4 and perm[0] > perm[1] or n == 6 and perm[4] > perm[5]:
                        continue
                    if n > 4 and not big and (perm[2] > perm[3]):
                        continue
                    for A in (2, 3):
                        if A == 3 and (n > 4 or v):
                            continue
                        for kind in ("dm", "dr", "switch", "switchdr"):
                            def case():
                                al = ALPHABET[A]
                                log = tuple(al[(v * 2 + i * (1 + v)) % len(al)] for i in range(n))
                                if kind == "dm" and v == 2:
                                    log = tuple(ALPHABET[A][i % 2] for i in range(n))
                                feats = [10.0 + i for i in range(n)]
                                if any(s[0] is None for s in log):
                                    log = tuple(s if s[0] is not None else al[0] for s in log)
                                samples = [sample_of(s, A, outputs=False, feature=torch.tensor([f, f * f / 7])) for s, f in zip(log, feats)]
                                inp = BanditsEstimatorInput(ActionSpace(A), samples, False)
                                t = RecordingTrainer()
                                est = {"dm": DMEstimator, "dr": DoublyRobustEstimator, "switch": SwitchEstimator, "switchdr": SwitchDREstimator}[kind](
                                    t, **({"rmax": 5.0} if kind.startswith("switch") else {}))
                                old = np.random.shuffle

                                def shuffle(x):
                                    if len(x) == n:
                                        x[:] = [x[p] for p in perm]
                                    else:
                                        old(x)
                                np.random.shuffle = shuffle
                                try:
                                    with Stub():
                                        res = est.evaluate(inp)
                                finally:
                                    np.random.shuffle = old
                                same([s.item_feature[0].item() for s in inp.samples], feats, "the caller's log")
                                same(len(t.trained), 2, "models trained")
                                by_model = []
                                for m in t.trained:
                                    seen = m[0] + m[2]
                                    ids = sorted(feats.index(r[1]) for r in seen)
                                    for r, y in zip(seen, m[1] + m[3]):
                                        i = feats.index(r[1])
                                        close(list(r), [log[i][0], feats[i], feats[i] ** 2 / 7], "training features")
                                        close(y, log[i][3], "training target")
                                    by_model.append(ids)
                                    expect(len(m[0]) >= 1, "a model without training data")
                                same(sorted(by_model[0] + by_model[1]), list(range(n)), "every sample trains exactly one fold (%s)" % by_model)
                                expect(abs(len(by_model[0]) - len(by_model[1])) <= 1, "unbalanced folds %s", by_model)
                                halves = []
                                for k in (0, 1):
                                    ev = by_model[1 - k]
                                    m = t.trained[k]
                                    q = [[RecordingTrainer.value(m, (float(a), feats[i], float(np.float32(feats[i] ** 2 / 7)))) for a in range(A)] for i in ev]
                                    sub = [log[i] for i in ev]
                                    c = CLAMPS["none"]
                                    if kind in ("dm", "dr"):
                                        halves.append(([mean(ref_values(kind, sub, c, q))], len(ev)))
                                    else:
                                        cands = switch_candidates(sub, A, c, 5.0, kind == "switchdr", 1.5, 21, q)
                                        best = min(x[0] for x in cands)
                                        halves.append(([mean(x[1]) for x in cands if x[0] <= best + 1e-5 + 1e-3 * best], len(ev)))
                                ok = False
                                want = []
                                for x, y in itertools.product(halves[0][0], halves[1][0]):
                                    for w in ((x + y) / 2, (x * halves[0][1] + y * halves[1][1]) / n):
                                        want.append(w)
                                        ok = ok or abs(w - res.estimated_reward) <= 2e-4 * (1 + abs(w))
                                expect(ok, "cross-fitted estimate %s, expected one of %s", res.estimated_reward, want[:4])
                                close(res.log_reward, mean([s[3] for s in log]), "logged reward")
                                # models that evaluate a sample have not seen it
                                if kind in ("dm", "dr"):
                                    for rows, m in t.queries:
                                        i = feats.index(rows[0][1])
                                        expect(i not in by_model[t.trained.index(m)], "sample %s was scored by the model trained on it", i)
                                        same([r[0] for r in rows], [float(a) for a in range(A)], "scored actions")
                                ctx.step()
                                ctx.state((n, v, perm, kind))
                                ctx.outcome(round(res.estimated_reward, 3))
                            ctx.run((n, v, perm, A, kind), case)

        # no reward model at all
        for A in (2, 3):
            for log in itertools.product(ALPHABET[A], repeat=2):
                def case():
                    inp = BanditsEstimatorInput(ActionSpace(A), [sample_of(s, A, outputs=False) for s in log], False)
                    with Stub():
                        same(DMEstimator().evaluate(inp), None, "direct estimate without any model")
                        r = DoublyRobustEstimator().evaluate(inp)
                        close(r.estimated_reward, mean(ref_values("ips", log, CLAMPS["none"])), "doubly robust without any model")
                    ctx.step()
                ctx.run(("no model", key_of(A, log)), case)
    return fn


def adapter(big):
    def fn(ctx):
        for A, log in logs(False):
            if len(log) > 2 and sum(ALPHABET[A].index(s) for s in log) % (3 if not big else 1):
                continue

            def case():
                rows = list(log)
                mask = torch.tensor([[1.0 if s[0] == a else 0.0 for a in range(A)] for s in rows])
                page = EvaluationDataPage(
                    mdp_id=col(range(len(rows)), torch.int64), sequence_number=col([1] * len(rows), torch.int64),
                    logged_propensities=col([0.0 if s[0] is None else s[1][s[0]] for s in rows]), logged_rewards=col([s[3] for s in rows]), action_mask=mask,
                    model_propensities=torch.tensor([list(s[2]) for s in rows]), model_rewards=torch.tensor([list(s[4]) for s in rows]),
                    model_rewards_for_logged_action=col([0.0 if s[0] is None else s[4][s[0]] for s in rows]), model_values=None, model_values_for_logged_action=None)
                inp = OPEstimatorAdapter.edp_to_contextual_bandit_log(page)
                same(len(inp.samples), len(rows), "samples")
                same(len(inp.action_space), A, "actions")
                for s, x in zip(rows, inp.samples):
                    same(x.log_action.value, s[0], "logged action")
                    close(float(x.log_reward), s[3], "reward")
                    close([x.tgt_action_probabilities[Action(a)] for a in range(A)], list(s[2]), "target policy")
                    close([x.log_action_probabilities[Action(a)] for a in range(A)], [s[1][a] if a == s[0] else 0.0 for a in range(A)], "logging policy")
                with Stub():
                    for e, kind in ((DMEstimator(), "dm"), (IPSEstimator(), "ips"), (IPSEstimator(weighted=True), "wips"), (DoublyRobustEstimator(), "dr")):
                        got = OPEstimatorAdapter(e).estimate(page)
                        vals = ref_values(kind, log, CLAMPS["none"])
                        close(got.raw, mean(vals), kind + " through the adapter")
                        lr = mean([s[3] for s in log])
                        close(got.normalized, mean(vals) / lr if lr > 1e-6 else 0.0, kind + " normalized", rtol=1e-3, atol=1e-4)
                        close(got.raw_std_error, float(np.std(vals)), kind + " error", rtol=1e-3, atol=1e-4) if estimator_module.bootstrapped_std_error_of_mean.__class__ is Stub and len(vals) > 1 else None
                        ctx.step()
                ctx.state((A, log))
            ctx.run(key_of(A, log), case, nontrivial=len(log) > 1)

        # the real bootstrap
        for A, log in logs(False):
            if len(log) != 2 or (ALPHABET[A].index(log[0]) * 5 + ALPHABET[A].index(log[1])) % (4 if not big else 1):
                continue

            def case():
                seed_all(1)
                inp = BanditsEstimatorInput(ActionSpace(A), [sample_of(s, A) for s in log], True)
                for e, kind in ((DMEstimator(), "dm"), (IPSEstimator(), "ips"), (DoublyRobustEstimator(), "dr")):
                    r = e.evaluate(inp)
                    vals = ref_values(kind, log, CLAMPS["none"])
                    close(r.estimated_reward_std_error, float(np.std(vals)), kind + " bootstrap error", rtol=0.12, atol=1e-5)
                ctx.step()
            ctx.run(("bootstrap", key_of(A, log)), case)
    return fn


# ---------------------------------------------------------------- value maps
def value_maps(big):
    VALS = [0.5, 0.0, 2.0, 1.0]

    def fn(ctx):
        for n in (1, 2, 3):
            for init in itertools.product(VALS[:3], repeat=n):
                for mapped in (False, True):
                    keys = [Action(k) for k in range(n)] if not mapped else [Action((k, "xyz"[k])) for k in range(n)]
                    ops = [("set", k, v) for k in range(n) for v in (1.5, 3.0)][: 4] + [("desc",), ("asc",), ("prob",), ("greedy",), ("replace", "list"), ("replace", "map"), ("replace", "tensor"), ("replace", "array"), ("sample",)]
                    depth = 3 if not big else 4
                    for seq in itertools.product(ops, repeat=depth if n < 3 else depth - 1):
                        if seq[-1][0] in ("set",) and not big:
                            continue

                        def case():
                            obj = ActionDistribution({k: v for k, v in zip(keys, init)} if mapped else list(init))
                            model = list(init)
                            old = []
                            for op in seq:
                                if op[0] == "set":
                                    obj[keys[op[1]]] = op[2]
                                    model[op[1]] = op[2]
                                elif op[0] in ("desc", "asc"):
                                    ks, vs = obj.sort() if op[0] == "desc" else obj.sort(descending=False)
                                    close(vs, sorted(model, reverse=op[0] == "desc"), op[0])
                                    close([model[keys.index(k)] for k in ks], sorted(model, reverse=op[0] == "desc"), op[0] + " keys")
                                    expect(len(set(keys.index(k) for k in ks)) == n, "keys %s", ks)
                                elif op[0] == "prob" and sum(model) > 0:
                                    close([obj.probability(k) for k in keys], [v / sum(model) for v in model], "probabilities")
                                elif op[0] == "sample" and sum(model) > 0:
                                    k = obj.sample(1)
                                    expect(len(k) == 1 and model[keys.index(k[0])] > 0, "sampled %s from %s", k, model)
                                elif op[0] == "greedy":
                                    for size in range(n + 1):
                                        ks = obj.greedy(size)
                                        close([model[keys.index(k)] for k in ks], sorted(model, reverse=True)[:size], "greedy")
                                elif op[0] == "replace":
                                    new = [v + (-1) ** i * 0.25 * (i + 1) + 0.5 for i, v in enumerate(reversed(model))]
                                    old.append((obj, list(model)))
                                    if op[1] == "list":
                                        obj = obj.replace(new)
                                    elif op[1] == "tensor":
                                        obj = obj.replace(torch.tensor(new))
                                    elif op[1] == "array":
                                        obj = obj.replace(np.array(new))
                                    else:
                                        new = model[:-1] + new[-1:]
                                        obj = obj.replace({keys[-1]: new[-1]})
                                    model = new
                                close([obj[k] for k in keys], model, "values after %s" % (op,))
                                ctx.step()
                            for o, m in old:
                                close([o[k] for k in keys], m, "values that were replaced")
                                if sum(m) > 0:
                                    close([o.probability(k) for k in keys], [v / sum(m) for v in m], "probabilities that were replaced")
                            same(len(obj), n, "length")
                            close(obj.values, model, "values")
                            close([v for _, v in obj], model, "iteration")
                            expect([k for k, _ in obj] == keys and list(obj.keys) == keys, "keys %s", obj.keys)
                            same([obj.index_of(k) for k in keys], list(range(n)), "index")
                            for bad in ((Action(n), Action(-1)) if not mapped else (Action((9, "q")),)):
                                e = raises(lambda: obj.index_of(bad), "index of an unknown key")
                                expect(isinstance(e, ValueError), "%r", e)
                            ctx.state((init, mapped, tuple(model)))
                        ctx.run((init, mapped, seq), case)
    return fn


def spaces(big):
    def fn(ctx):
        for n in (1, 2, 3, 4):
            for m in range(0, 6):
                for kind in ("list", "map", "tensor"):
                    def case():
                        vals = [0.5 + i for i in range(m)]
                        sp = ActionSpace(n)
                        if kind == "map":
                            d = sp.distribution({Action(i): v for i, v in enumerate(vals)})
                        elif kind == "tensor":
                            d = sp.distribution(torch.tensor(vals))
                        else:
                            d = sp.distribution(vals)
                        close([d[Action(i)] for i in range(n)], [vals[i] if i < m else 0.0 for i in range(n)], "filled distribution")
                        same(len(d), n, "size")
                        named = ActionSpace([Action((i, i * i)) for i in range(n)])
                        src = {Action((i, i * i)): v for i, v in enumerate(vals)} if kind == "map" else vals
                        f = named.fill(src)
                        close([f[Action((i, i * i))] for i in range(n)], [vals[i] if i < m else 0.0 for i in range(n)], "filled named distribution")
                        for s, ks in ((sp, [Action(i) for i in range(n)]), (named, [Action((i, i * i)) for i in range(n)])):
                            same([s.index_of(k) for k in ks], list(range(n)), "index")
                            expect(list(s) == ks and len(s) == n and [s[i] for i in range(n)] == ks, "items")
                        expect(isinstance(raises(lambda: sp.index_of(Action(n)), "unknown action"), ValueError), "unknown action")
                        expect(isinstance(raises(lambda: named.index_of(Action((n, 0))), "unknown action"), ValueError), "unknown action")
                        ctx.step()
                        ctx.state((n, m, kind))
                    ctx.run((n, m, kind), case)
        NUMS = (0.0, 1.0, -2.5, 7.0, float("nan"), INF)
        for k in range(0, 5 if not big else 7):
            for xs in itertools.product(NUMS, repeat=k):
                def case():
                    for init in (None, 3.0):
                        r = RunningAverage() if init is None else RunningAverage(init)
                        seen = [] if init is None else [init]
                        for x in xs:
                            expect(r.add(x) is r, "add returns the average")
                            if not math.isnan(x) and not math.isinf(x):
                                seen.append(x)
                            same(r.count, len(seen), "count")
                            if seen:
                                close([r.average, r.total, float(r)], [mean(seen), sum(seen), mean(seen)], "running average")
                        if not seen:
                            expect(math.isnan(r.average), "average of nothing")
                    ctx.step()
                ctx.run(("average", xs), case, nontrivial=k > 1)
        B = (-INF, -1.0, 0.0, 0.5, 2.0, INF)
        for lo, hi in itertools.product(B, B):
            def case():
                if lo >= hi:
                    raises(lambda: Clamper(lo, hi), "empty range")
                    return
                c = Clamper(lo, hi)
                xs = [-5.0, -1.0, 0.0, 0.25, 1.0, 2.0, 9.0]
                want = [max(lo, min(hi, x)) for x in xs]
                for got in ([c(x) for x in xs], c(xs), c(torch.tensor(xs)), c(np.array(xs))):
                    close(got, want, "clamped")
                ctx.step()
            ctx.run(("clamp", lo, hi), case)
        for n in (2, 3):
            for idx in itertools.product(range(n), repeat=3):
                def case():
                    same(convert_to_one_hots(torch.tensor(idx), n), [[int(i == j) for j in range(n)] for i in idx], "one hots")
                    same(convert_to_one_hots(list(idx), n), [[int(i == j) for j in range(n)] for i in idx], "one hots of a list")
                ctx.run(("one hot", n, idx), case)
        for size in (1, 2, 3):
            ops = [("get", k) for k in "abc"] + [("put", k) for k in "abcd"]
            for seq in itertools.product(ops, repeat=4 if not big else 5):
                def case():
                    c, model = LRUCache(size), []
                    for i, (op, k) in enumerate(seq):
                        have = dict(model)
                        if op == "get":
                            if k in have:
                                same(c[k], have[k], "cached")
                                model = [x for x in model if x[0] != k] + [(k, have[k])]
                            else:
                                expect(isinstance(raises(lambda: c[k], "missing key"), KeyError), "missing key")
                        else:
                            c[k] = i
                            # an overwritten entry may or may not count as used
                            if k in have:
                                return
                            model.append((k, i))
                            model = model[-size:]
                        same(sorted(c.keys()), sorted(dict(model)), "kept after %s" % (seq[: i + 1],))
                    ctx.step()
                ctx.run(("cache", size, seq), case)
    return fn


# ---------------------------------------------------------------- experiments
class FixedEstimator:
    def __init__(self, name, table):
        self.name, self.table = name, table

    def evaluate(self, inp, **kw):
        v = self.table[inp]
        if v == "raise":
            raise ValueError("no estimate")
        if v is None:
            return None
        return EstimatorResult(log_reward=float(inp), estimated_reward=v, ground_truth_reward=None if inp == 1 else 0.5 * inp, estimated_weight=1.0 + inp)

    def __repr__(self):
        return self.name


class InlinePool:
    """multiprocessing.Pool with the tasks of one process after another"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def map(self, f, xs):
        return [f(x) for x in xs]


def experiments(big):
    CELLS = [1.0, 3.5, float("nan"), INF, None, -2.0]

    def fn(ctx):
        for n in (1, 2, 3):
            for cells in itertools.product(CELLS, repeat=n):
                def case():
                    ests = [FixedEstimator("A", cells), FixedEstimator("B", [2.0 + i for i in range(n)])]
                    plan = [([ests[0], ests[1]] if i % 2 == 0 else [ests[1], ests[0]], i) for i in range(n)]
                    res = Evaluator(plan, 0).evaluate()
                    same(sorted(res), ["A", "B"], "estimators")
                    good = [(i, v) for i, v in enumerate(cells) if v is not None and not math.isnan(v) and not math.isinf(v)]
                    same([(r.log_reward, r.estimated_reward, r.ground_truth_reward, r.estimated_weight) for r in res["A"].results],
                         [(float(i), v, 0.0 if i == 1 else 0.5 * i, 1.0 + i) for i, v in good], "results")
                    same([r.estimated_reward for r in res["B"].results], [2.0 + i for i in range(n)], "results of the other estimator")
                    if good:
                        lr, er, gr, gd, ld, w = res["A"].report()
                        es, ls, gs = [v for _, v in good], [float(i) for i, _ in good], [0.0 if i == 1 else 0.5 * i for i, _ in good]
                        close([lr, er, gr, w], [mean(ls), mean(es), mean(gs), mean([1.0 + x for x in ls])], "reported means")
                        for d, x, y in ((gd, es, gs), (ld, es, ls)):
                            df = [a - b for a, b in zip(x, y)]
                            close([float(d.rmse), float(d.bias)], [math.sqrt(mean([v * v for v in df])), mean(df)], "differences")
                            if len(df) > 1:
                                close(float(d.variance), sum((v - mean(df)) ** 2 for v in df) / (len(df) - 1), "variance")
                    ctx.step()
                    ctx.state(cells)
                ctx.run(cells, case, nontrivial=n > 1)
        # tasks handed to worker processes: every experiment is evaluated once, failures only lose their own estimate
        for n in (1, 2, 3, 4):
            for workers in (1, 2, 3):
                for bad in itertools.product((0, 1, 2), repeat=n) if n < 4 else [(0,) * 4, (0, 1, 2, 0)]:
                    def case():
                        table = [[1.0 + i, "raise", None][b] for i, b in enumerate(bad)]
                        ests = [FixedEstimator("A", table), FixedEstimator("B", [2.0 + i for i in range(n)])]
                        plan = [((ests[0], ests[1]), i) for i in range(n)]
                        old = estimator_module.Pool
                        estimator_module.Pool = InlinePool
                        try:
                            with tempfile.TemporaryDirectory() as d:
                                old_tmp, tempfile.tempdir = tempfile.tempdir, d
                                try:
                                    res = Evaluator(plan, workers).evaluate()
                                finally:
                                    tempfile.tempdir = old_tmp
                                same(os.listdir(d), [], "files left behind")
                        finally:
                            estimator_module.Pool = old
                        same(sorted(r.estimated_reward for r in res["A"].results), [1.0 + i for i, b in enumerate(bad) if b == 0], "estimates of A")
                        same(sorted(r.estimated_reward for r in res["B"].results), [2.0 + i for i in range(n)], "estimates of B")
                        ctx.step()
                    ctx.run(("workers", n, workers, bad), case)
    return fn


def groups(tier):
    big = tier == "thorough"
    return [("formulas", formulas(big)), ("switch", switch(big)), ("on-policy", on_policy(big)), ("cross-fit", cross_fit(big)), ("adapter", adapter(big)),
            ("values", value_maps(big)), ("spaces", spaces(big)), ("experiments", experiments(big))]

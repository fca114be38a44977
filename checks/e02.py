"""E02: sequential doubly-robust estimators against their recursions, over every small set of trajectories."""
import itertools
import logging
import math

import numpy as np
import scipy.stats
import torch

from mc.core import close, expect, same, seed_all
from mc.trainkit import col, onehot

from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.evaluation.ope_adapter import OPEvaluator, SequentialOPEstimatorAdapter
from reagent.evaluation.sequential_doubly_robust_estimator import SequentialDoublyRobustEstimator
from reagent.evaluation.weighted_sequential_doubly_robust_estimator import WeightedSequentialDoublyRobustEstimator
from reagent.ope.estimators.sequential_estimators import DoublyRobustEstimator as SeqDR
from reagent.ope.estimators.sequential_estimators import State

logging.disable(logging.WARNING)

LEVEL = "exploration"
RULE = (
    "every set of up to two trajectories of up to two steps over an alphabet of steps, and every combination of up to four trajectory "
    "lengths of one to three steps with patterned steps, for several discounts; every order of the trajectories. Non-trivial: more than "
    "one trajectory or step. Estimates are compared with a plain recursion over trajectories padded by absorbing steps"
)
ASSUMPTIONS = [
    "after the end of a trajectory rewards and values are zero and the importance ratio stays 1",
    "steps at which every trajectory has weight zero are weighted uniformly",
    "the mixture weights found by the optimizer are judged by their objective, not by their digits",
]

# (action, target policy, logged propensity, reward, q values)
STEPS = [
    (0, (0.5, 0.5), 0.5, 1.0, (0.75, 0.25)), (1, (0.25, 0.75), 0.5, 2.0, (-0.5, 1.5)), (0, (0.9, 0.1), 0.3, -1.0, (0.0, 0.0)),
    (1, (1.0, 0.0), 0.8, 3.0, (1.0, 2.0)), (0, (0.6, 0.4), 0.6, 0.0, (2.0, -1.0)), (1, (0.0, 1.0), 1.0, 5.0, (0.5, 4.0)),
]


def page_of(trajs, A=2, ids=None):
    rows = [s for t in trajs for s in t]
    mid = [(ids or range(len(trajs)))[k] for k, t in enumerate(trajs) for _ in t]
    seq = [1 + i for t in trajs for i in range(len(t))]
    return EvaluationDataPage(
        mdp_id=col(mid, torch.int64), sequence_number=col(seq, torch.int64), logged_propensities=col([r[2] for r in rows]),
        logged_rewards=col([r[3] for r in rows]), action_mask=onehot([r[0] for r in rows], A), model_propensities=torch.tensor([list(r[1]) for r in rows]),
        model_rewards=torch.zeros(len(rows), A), model_rewards_for_logged_action=torch.zeros(len(rows), 1),
        model_values=torch.tensor([list(r[4]) for r in rows]), model_values_for_logged_action=col([r[4][r[0]] for r in rows]))


def dot(x, y):
    return sum(a * b for a, b in zip(x, y))


def logged_value(trajs, g):
    return sum(sum(s[3] * g ** i for i, s in enumerate(t)) for t in trajs) / len(trajs)


def ref_sdr(trajs, g):
    out = []
    for t in trajs:
        v = 0.0
        for a, pi, p, r, q in reversed(t):
            v = dot(pi, q) + pi[a] / p * (r + g * v - q[a])
        out.append(v)
    return out


def weights(trajs, norm):
    T, n = max(len(t) for t in trajs), len(trajs)
    w = []
    for t in trajs:
        c, row = 1.0, []
        for k in range(T):
            if k < len(t):
                a, pi, p = t[k][:3]
                c *= pi[a] / p
            row.append(c)
        w.append(row)
    for k in range(T):
        z = sum(w[i][k] for i in range(n))
        for i in range(n):
            w[i][k] = w[i][k] / n if not norm else (w[i][k] / z if z else 1.0 / n)
    return w


def zero_column(trajs):
    """a step at which no trajectory has weight left: the two families of estimators choose differently"""
    return any(not any(r[k] for r in weights(trajs, False)) for k in range(max(len(t) for t in trajs)))


def step_returns(trajs, g, norm, j):
    """j-step doubly robust return, per trajectory (their sum is the estimate)"""
    T, n = max(len(t) for t in trajs), len(trajs)
    w = weights(trajs, norm)
    j = min(j, T - 1)
    out = []
    for i, t in enumerate(trajs):
        s = 0.0
        for k in range(T):
            if k > j + 1 or k >= len(t):
                break
            a, pi, p, r, q = t[k]
            prev = w[i][k - 1] if k else 1.0 / n
            if k == j + 1:
                s += g ** k * prev * dot(pi, q)
            else:
                s += g ** k * (w[i][k] * (r - q[a]) + prev * dot(pi, q))
        out.append(s)
    return out


def estimate_ok(e, raw, logged, what):
    close(e.raw, raw, what + " estimate", rtol=1e-3, atol=1e-3)
    if abs(logged - 1e-6) > 1e-4:
        close(e.normalized, raw / logged if logged > 1e-6 else 0.0, what + " normalized", rtol=2e-3, atol=2e-3 / max(1e-3, abs(logged)))
        close(e.normalized_std_error, float(e.raw_std_error) / logged if logged > 1e-6 else 0.0, what + " normalized error", rtol=2e-3, atol=1e-4)
    expect(float(e.raw_std_error) >= 0, "%s: standard error %s", what, e.raw_std_error)


def small(big):
    ts = [(s,) for s in STEPS[:5]] + list(itertools.product(STEPS[:5] if big else STEPS[:4], repeat=2))
    for n in (1, 2):
        yield from itertools.product(ts, repeat=n)


def shapes(big, maxn=4, maxlen=3, variants=6):
    for n in range(1, maxn + 1):
        for lens in itertools.product(range(1, maxlen + 1), repeat=n):
            for v in range(variants * (3 if big else 1)):
                k, out = 7 * v, []
                for ln in lens:
                    out.append(tuple(STEPS[(k + i * (1 + v % 5)) % 6] for i in range(ln)))
                    k += ln * 5 + 1
                yield tuple(out)


def key_of(trajs):
    return "|".join("".join(str(STEPS.index(s)) for s in t) for t in trajs)


def sdr(gen, gammas):
    def fn(ctx):
        for trajs in gen():
            for g in gammas:
                def case():
                    page = page_of(trajs)
                    est = SequentialDoublyRobustEstimator(g)
                    vals = ref_sdr(trajs, g)
                    seed_all(3)
                    e = est.estimate(page)
                    estimate_ok(e, sum(vals) / len(vals), logged_value(trajs, g), "sequential")
                    mean = sum(vals) / len(vals)
                    sd = math.sqrt(sum((v - mean) ** 2 for v in vals) / len(vals)) / math.sqrt(max(1, int(0.25 * len(vals))))
                    expect(abs(float(e.raw_std_error) - sd) <= 0.3 * sd + 1e-4, "standard error %s, want %s", e.raw_std_error, sd)
                    ctx.step()
                    ctx.state((trajs, g))
                    ctx.outcome(e.raw)
                ctx.run((key_of(trajs), g), case, nontrivial=len(trajs) > 1 or len(trajs[0]) > 1)
    return fn


def weighted(gen, gammas):
    def fn(ctx):
        for trajs in gen():
            for g, norm in itertools.product(gammas, (True, False)):
                def case():
                    page = page_of(trajs)
                    est = WeightedSequentialDoublyRobustEstimator(g)
                    want = sum(step_returns(trajs, g, norm, 10 ** 6))
                    e = est.estimate(page, num_j_steps=1, whether_self_normalize_importance_weights=norm)
                    estimate_ok(e, want, logged_value(trajs, g), "weighted")
                    same(float(e.raw_std_error), 0.0, "standard error of a single estimate")
                    if not norm:
                        close(want, sum(ref_sdr(trajs, g)) / len(trajs), "reference")
                    ctx.step()
                    ctx.state((trajs, g, norm))
                    ctx.outcome(e.raw)
                ctx.run((key_of(trajs), g, norm), case, nontrivial=len(trajs) > 1 or len(trajs[0]) > 1)
    return fn


def orders(big):
    def fn(ctx):
        for trajs in shapes(big, 4 if big else 3, 3, 3):
            g = 0.8

            def case():
                vals = None
                for p in itertools.permutations(range(len(trajs))):
                    page = page_of([trajs[i] for i in p], ids=[10 - i for i in p])
                    seed_all(3)
                    a = SequentialDoublyRobustEstimator(g).estimate(page)
                    b = WeightedSequentialDoublyRobustEstimator(g).estimate(page, 1, True)
                    got = (a.raw, a.normalized, b.raw, b.normalized)
                    vals = vals or got
                    close(got, vals, "estimate after reordering the trajectories %s" % (p,), rtol=1e-4, atol=1e-4)
                    ctx.step()
                ctx.state(trajs)
            ctx.run(key_of(trajs), case, nontrivial=len(trajs) > 1)
        # target policy = logging policy: the logged value, whatever the (truthful or absent) value model
        for trajs in shapes(big, 3, 3, 4):
            for g in (1.0, 0.5):
                def case():
                    on = tuple(tuple((a, tuple(p if i == a else 1 - p for i in range(2)), p, r, (0.0, 0.0)) for a, pi, p, r, q in t) for t in trajs)
                    page = page_of(on)
                    want = logged_value(on, g)
                    for e in (SequentialDoublyRobustEstimator(g).estimate(page), WeightedSequentialDoublyRobustEstimator(g).estimate(page, 1, True),
                              WeightedSequentialDoublyRobustEstimator(g).estimate(page, 1, False)):
                        estimate_ok(e, want, want, "logging policy")
                    ctx.step()
                ctx.run(("on-policy", key_of(trajs), g), case, nontrivial=len(trajs) > 1)
    return fn


def j_list(T, num):
    out = [10 ** 6, -1]
    if num > 2:
        iv = T // (num - 1)
        out += [i * iv for i in range(1, num - 1)]
    return out


def magic(big):
    def fn(ctx):
        for trajs in shapes(big, 5, 2, 2 if not big else 6):
            n = len(trajs)
            T = max(len(t) for t in trajs)
            for g, num, norm in itertools.product((0.9,), (2, 3, 4, 25) if big else (2, 4, 25), (True,) if not big else (True, False)):
                if num == 25 and not big and n > 3:
                    continue

                def case():
                    page = page_of(trajs)
                    seed_all(3)
                    e = WeightedSequentialDoublyRobustEstimator(g).estimate(page, num_j_steps=num, whether_self_normalize_importance_weights=norm)
                    js = j_list(T, num)
                    per = [step_returns(trajs, g, norm, j) for j in js]
                    tot = [sum(p) for p in per]
                    lo, hi = min(tot), max(tot)
                    tol = 1e-3 * (1 + abs(lo) + abs(hi))
                    expect(math.isfinite(e.raw) and lo - tol <= e.raw <= hi + tol, "mixture %s outside of [%s, %s]", e.raw, lo, hi)
                    logged = logged_value(trajs, g)
                    close(e.normalized, e.raw / logged if logged > 1e-6 else 0.0, "normalized", rtol=2e-3, atol=1e-3)
                    expect(math.isfinite(float(e.raw_std_error)) and float(e.raw_std_error) >= 0, "standard error %s", e.raw_std_error)
                    if n == 1:
                        close(e.raw, tot[0], "estimate of one trajectory", rtol=1e-3, atol=1e-3)
                    elif num == 2 and abs(tot[0] - tot[1]) > 1e-2:
                        # objective of the published mixture: covariance of the returns plus squared bias outside the confidence bounds
                        k = max(1, int(min(n / 2, 25)))
                        iv = n / k
                        sub = [sum(step_returns_padded(trajs[int(i * iv):int((i + 1) * iv)], g, norm)) for i in range(k)]
                        bias = [0.0, 0.0]
                        if k > 1:
                            h = scipy.stats.sem(sub) * scipy.stats.t.ppf(0.95, k - 1)
                            m = sum(sub) / k
                            bias = [min(0.0, t - (m - h)) + max(0.0, t - (m + h)) for t in tot]
                            bias = [abs(b) for b in bias]
                        cov = np.cov(np.array(per))

                        def obj(p):
                            x = np.array([p, 1 - p])
                            return float(x @ (cov + np.outer(bias, bias)) @ x)
                        best = min(obj(i / 2000) for i in range(2001))
                        p = (e.raw - tot[1]) / (tot[0] - tot[1])
                        expect(obj(p) <= best + 1e-4 + 2e-2 * best, "mixture weight %s has error %s, the best has %s", p, obj(p), best)
                    ctx.step()
                    ctx.state((trajs, g, num, norm))
                    ctx.outcome(round(e.raw, 4))
                ctx.run((key_of(trajs), g, num, norm), case, nontrivial=n > 1)
    return fn


def step_returns_padded(trajs, g, norm):
    return step_returns(trajs, g, norm, 10 ** 6)


def adapter(big):
    def fn(ctx):
        for trajs in shapes(big, 3, 3, 4):
            for g in (0.9, 1.0):
                def case():
                    page = page_of(trajs)
                    inp = SequentialOPEstimatorAdapter.edp_to_rl_input(page, g)
                    same(inp.gamma, g, "gamma")
                    same(len(inp.log), len(trajs), "trajectories")
                    for i, (t, m) in enumerate(zip(trajs, inp.log)):
                        same(len(m), len(t), "steps of trajectory %d" % i)
                        for (a, pi, p, r, q), x in zip(t, m):
                            same(int(x.action), a, "action")
                            close([x.action_prob, x.reward], [p, r], "propensity and reward")
                            close([float(inp.target_policy(x.last_state)[b]) for b in range(2)], list(pi), "target policy")
                            close([float(inp.value_function(x.last_state, b)) for b in range(2)], list(q), "values")
                            close(float(inp.value_function(x.last_state)), dot(pi, q), "state value")
                            ctx.step()
                        for x, y in zip(m, m[1:]):
                            same(x.state, y.last_state, "next state")
                    for w in (True, False):
                        if w and zero_column(trajs):
                            continue
                        e = SequentialOPEstimatorAdapter(SeqDR(weighted=w), g).estimate(page)
                        estimate_ok(e, sum(step_returns(trajs, g, w, 10 ** 6)), logged_value(trajs, g), "adapter, weighted %s" % w)
                    ctx.state((trajs, g))
                    ctx.outcome(e.raw)
                ctx.run((key_of(trajs), g), case, nontrivial=len(trajs) > 1)
        for trajs in shapes(False, 3, 2, 1):
            if len(trajs) < 2 or zero_column(trajs):
                continue

            def case():
                page = page_of(trajs)
                rows = [s for t in trajs for s in t]
                page = page._replace(model_rewards=torch.tensor([list(r[4]) for r in rows]), model_rewards_for_logged_action=col([r[4][r[0]] for r in rows]))
                es = OPEvaluator(["a", "b"], 0.9, None).score_cpe("Reward", page)
                n = len(rows)
                logged = sum(r[3] for r in rows) / n
                dm = sum(dot(r[1], r[4]) for r in rows) / n
                ips = sum(r[1][r[0]] / r[2] * r[3] for r in rows) / n
                dr = sum(dot(r[1], r[4]) + r[1][r[0]] / r[2] * (r[3] - r[4][r[0]]) for r in rows) / n
                for e, w, what in ((es.direct_method, dm, "direct"), (es.inverse_propensity, ips, "ips"), (es.doubly_robust, dr, "dr")):
                    estimate_ok(e, w, logged, what)
                lv = logged_value(trajs, 0.9)
                estimate_ok(es.sequential_doubly_robust, sum(step_returns(trajs, 0.9, False, 10 ** 6)), lv, "sequential")
                estimate_ok(es.weighted_doubly_robust, sum(step_returns(trajs, 0.9, True, 10 ** 6)), lv, "weighted")
                T = max(len(t) for t in trajs)
                tot = [sum(step_returns(trajs, 0.9, True, j)) for j in range(T)]
                expect(min(tot) - 1e-3 <= es.magic.raw <= max(tot) + 1e-3, "mixture %s outside of %s", es.magic.raw, tot)
                es.check_estimates_exist()
                ctx.step()
            ctx.run(("evaluator", key_of(trajs)), case)
    return fn


def padding(ctx):
    for lens in itertools.chain.from_iterable(itertools.product(range(1, 4), repeat=n) for n in (1, 2, 3)):
        def case():
            k, trajs = 0, []
            for ln in lens:
                trajs.append(tuple(STEPS[(k + i) % 6] for i in range(ln)))
                k += ln
            p = page_of(trajs)
            a, r, lp, tp, q = WeightedSequentialDoublyRobustEstimator.transform_to_equal_length_trajectories(
                p.mdp_id, p.action_mask.numpy(), p.logged_rewards.numpy().flatten(), p.logged_propensities.numpy().flatten(), p.model_propensities.numpy(), p.model_values.numpy())
            T = max(lens)
            pad = lambda t, f, fill: [f(s) for s in t] + [fill] * (T - len(t))
            oh = lambda i: [1.0 - i, float(i)]
            close(a, [pad(t, lambda s: oh(s[0]), [0.0, 0.0]) for t in trajs], "actions")
            close(r, [pad(t, lambda s: s[3], 0.0) for t in trajs], "rewards")
            close(lp, [pad(t, lambda s: s[2], 1.0) for t in trajs], "propensities")
            close(q, [pad(t, lambda s: list(s[4]), [0.0, 0.0]) for t in trajs], "values")
            close([[list(x) for x in t[:len(o)]] for t, o in zip(tp, trajs)], [[list(s[1]) for s in t] for t in trajs], "target policy")
            ctx.step()
            ctx.state(lens)
        ctx.run(("pad",) + lens, case)


def groups(tier):
    big = tier == "thorough"
    gs = (0.9, 1.0, 0.5) if big else (0.9, 1.0)
    return [("magic", magic(big)), ("sdr-small", sdr(lambda: small(big), gs)), ("sdr-shapes", sdr(lambda: shapes(big), gs)),
            ("weighted-small", weighted(lambda: small(big), gs)), ("weighted-shapes", weighted(lambda: shapes(big), gs)),
            ("orders", orders(big)), ("adapter", adapter(big)), ("padding", padding)]

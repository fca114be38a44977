"""E04: slate models, metrics and off-policy slate estimators against plain enumeration of all slates."""
import itertools
import logging
import math

import numpy as np
import torch

from mc.core import close, expect, same, seed_all
import reagent.ope.estimators.slate_estimators as se
from reagent.ope.estimators.slate_estimators import (
    DCGSlateMetric, DMEstimator, DoublyRobustEstimator, ERRSlateMetric, FrechetDistribution, IPSEstimator, LogSample, NDCGSlateMetric, PassThruDistribution,
    PBMEstimator, PseudoInverseEstimator, RankingDistribution, Slate, SlateContext, SlateEstimatorInput, SlateItem, SlateItemFeatures, SlateItemProbabilities,
    SlateItems, SlateItemValues, SlateMetric, SlateModel, SlateQuery, SlateSlot, SlateSlotFeatures, SlateSlotItemExpectations, SlateSlotItemProbabilities,
    SlateSlots, SlateSlotValues, make_slate, make_slot_item_distributions,
)
from reagent.ope.estimators.types import PredictResults, Trainer
from reagent.ope.utils import Clamper

logging.disable(logging.ERROR)

LEVEL = "exploration"
RULE = (
    "every assignment of weights from a small alphabet to up to four items and every slate of up to three (thorough: four) slots, for items and slots that are numbered "
    "or named; every reward assignment for the metrics; every log of up to two samples from an alphabet of (policies, slate, reward) for the estimators. "
    "Non-trivial: more than one slot. Probabilities and expectations are compared with enumeration of all slates"
)
ASSUMPTIONS = [
    "a slate is filled slot by slot without repeating items; at least as many items as slots have positive weight",
    "samples whose logging probability is zero are skipped; a log without any weight has no self-normalized estimate",
    "weight clamps contain 0 and 1",
    "the position-based estimator weighs the marginal probability of the shown item in each slot",
]

NAMES = "wxyz"


def items_of(n, named):
    return [SlateItem((i, NAMES[i])) if named else SlateItem(i) for i in range(n)]


def slots_of(k, named):
    return SlateSlots([SlateSlot((s, "s")) for s in range(k)]) if named else SlateSlots(k)


def by_item(vals, named):
    vals = list(vals)
    return dict(zip(items_of(len(vals), True), vals)) if named else vals


def slate_of(ids, nitems, named_items, named_slots):
    its = items_of(nitems, named_items)
    sl = [its[i] for i in ids]
    return Slate(dict(zip(slots_of(len(ids), True), sl))) if named_slots else Slate(sl)


def pl(p, ids):
    """probability of filling the slots in order without replacement"""
    out, rest = 1.0, float(sum(p))
    for i in ids:
        if rest <= 1e-12:
            return 0.0
        out *= p[i] / rest
        rest -= p[i]
    return out


def slotwise(rows, ids):
    out, used = 1.0, []
    for row, i in zip(rows, ids):
        rest = sum(v for j, v in enumerate(row) if j not in used)
        if rest <= 1e-12 * sum(row):
            return 0.0
        out *= row[i] / rest
        used.append(i)
    return out


def marginals(prob, n, k):
    m = [[0.0] * n for _ in range(k)]
    for ids in itertools.permutations(range(n), k):
        q = prob(ids)
        for s, i in enumerate(ids):
            m[s][i] += q
    return m


def weights(n, big):
    al = (0.0, 0.25, 1.0, 2.0) if n < 4 or big else (0.0, 0.5, 2.0)
    for p in itertools.product(al, repeat=n):
        if sum(p) > 0:
            yield p


def expectations_ok(e, m, its, slots, what):
    same(len(e), len(m), what + " slots")
    close(e.values_tensor(), m, what, rtol=1e-6, atol=1e-7)
    for s, row in zip(slots, m):
        close([e[s][i] for i in its], row, what + " by slot and item", rtol=1e-6, atol=1e-7)


def item_models(big):
    def fn(ctx):
        for n in (1, 2, 3, 4):
            for p in weights(n, big):
                pos = sum(1 for v in p if v > 0)
                for ni, ns in itertools.product((False, True), repeat=2):
                    if n == 4 and ni != ns:
                        continue
                    ks = [k for k in range(1, min(n, 4 if big else 3) + 1) if k <= pos]

                    def case():
                        its = items_of(n, ni)
                        model = SlateItemProbabilities(by_item(p, ni))
                        for k in ks:
                            slots = slots_of(k, ns)
                            fresh = SlateItemProbabilities(by_item(p, ni))
                            space = {tuple(its.index(i) for i in s): q for s, q in fresh.slate_space(slots)}
                            total = 0.0
                            for ids in itertools.permutations(range(n), k):
                                want = pl(p, ids)
                                if all(p[i] > 0 for i in ids[:-1]):
                                    close(model.slate_probability(slate_of(ids, n, ni, ns)), want, "probability of %s" % (ids,), rtol=1e-6, atol=1e-9)
                                close(space.pop(ids, 0.0), want, "slate space: %s" % (ids,), rtol=1e-6, atol=1e-9)
                                total += want
                                ctx.step()
                            close(total, 1.0, "all slates")
                            same(len(space), 0, "impossible slates %s" % (space,))
                            sub = fresh.slate_space(slots, 2)
                            expect(1 <= len(sub) <= max(2, 1), "restricted slate space has %s", len(sub))
                            for s, q in sub:
                                close(q, pl(p, [its.index(i) for i in s]), "restricted slate space", rtol=1e-6, atol=1e-9)
                            seed_all(k)
                            s = model.sample_slate(slots)
                            ids = [its.index(i) for _, i in s]
                            expect(len(set(ids)) == k and pl(p, ids) > 0, "sampled slate %s", ids)
                            expect([sl for sl, _ in s] == list(slots), "slots of the sampled slate")
                        # expectations, in several orders of slate sizes on one model
                        for order in (ks, ks[::-1], ks + ks[:1]):
                            m = SlateItemProbabilities(by_item(p, ni))
                            for k in order:
                                slots = slots_of(k, ns)
                                want = marginals(lambda ids: pl(p, ids), n, k)
                                e = m.slot_item_expectations(slots)
                                expectations_ok(e, want, its, slots, "expectations")
                                rw = [0.5 + i * i for i in range(n)]
                                r = e.expected_rewards(SlateItemValues(by_item(rw, ni)))
                                close([r[s] for s in slots], [sum(a * b for a, b in zip(row, rw)) for row in want], "expected rewards", rtol=1e-6, atol=1e-6)
                        # changing a weight afterwards
                        if n > 1:
                            q = (p[0] + 1.0,) + p[1:]
                            model.slot_item_expectations(slots_of(1, ns))
                            model[its[0]] = q[0]
                            k = ks[-1]
                            expectations_ok(model.slot_item_expectations(slots_of(k, ns)), marginals(lambda ids: pl(q, ids), n, k), its, slots_of(k, ns), "after a change")
                            close(sum(x for _, x in model.slate_space(slots_of(k, ns))), 1.0, "slate space after a change")
                        # greedy: one slate of the largest weights
                        g = SlateItemProbabilities(by_item(p, ni), greedy=True)
                        for k in range(1, min(n, 3) + 1):
                            slots = slots_of(k, ns)
                            sp = list(g.slate_space(slots))
                            same(len(sp), 1, "greedy slate space")
                            close(sp[0][1], 1.0, "greedy slate")
                            ids = [its.index(i) for i in sp[0][0]]
                            close([p[i] for i in ids], sorted(p, reverse=True)[:k], "greedy slate")
                            same(len(set(ids)), k, "distinct items")
                            for other in itertools.permutations(range(n), k):
                                same(g.slate_probability(slate_of(other, n, ni, ns)), 1.0 if list(other) == ids else 0.0, "greedy probability")
                            expectations_ok(g.slot_item_expectations(slots), [[1.0 if i == j else 0.0 for j in range(n)] for i in ids], its, slots, "greedy expectations")
                            same([its.index(i) for _, i in g.sample_slate(slots)], ids, "greedy sample")
                            expect(g.is_deterministic and not model.is_deterministic, "determinism")
                        ctx.state((p, ni, ns))
                    ctx.run((p, ni, ns), case, nontrivial=n > 1)
    return fn


ROWS = {
    2: [(0.5, 0.5), (0.9, 0.1), (0.2, 0.8), (1.0, 0.0)],
    3: [(0.2, 0.3, 0.5), (0.6, 0.3, 0.1), (0.0, 0.5, 0.5), (1.0, 2.0, 1.0), (0.1, 0.1, 0.8)],
    4: [(0.1, 0.2, 0.3, 0.4), (0.4, 0.4, 0.1, 0.1), (1.0, 1.0, 3.0, 5.0)],
}


def greedy_of(rows):
    """the greedy slate, None if some choice is tied"""
    used = []
    for row in rows:
        left = [(v, i) for i, v in enumerate(row) if i not in used]
        best = max(v for v, _ in left)
        c = [i for v, i in left if v == best]
        if len(c) > 1 or best <= 0:
            return None
        used.append(c[0])
    return used


def slot_models(big):
    def fn(ctx):
        for n, ks in ((2, (1, 2)), (3, (1, 2, 3)), (4, (2, 3, 4) if big else (2, 3))):
            for k in ks:
                for rows in itertools.product(ROWS[n], repeat=k):
                    for ni, ns in itertools.product((False, True), repeat=2):
                        def case():
                            its, slots = items_of(n, ni), slots_of(k, ns)

                            def make(**kw):
                                vals = [SlateItemValues(by_item(r, ni)) for r in rows]
                                return SlateSlotItemProbabilities(dict(zip(slots, vals)) if ns else vals, **kw)
                            model = make()
                            for ids in itertools.permutations(range(n), k):
                                close(model.slate_probability(slate_of(ids, n, ni, ns)), slotwise(rows, ids), "probability of %s" % (ids,), rtol=1e-6, atol=1e-9)
                                ctx.step()
                            want = marginals(lambda ids: slotwise(rows, ids), n, k)
                            full = abs(sum(want[-1]) - 1) < 1e-9
                            if full:
                                expectations_ok(model.slot_item_expectations(), want, its, slots, "expectations")
                                expectations_ok(model.slot_item_expectations(), want, its, slots, "expectations again")
                                rw = [1.5 - i for i in range(n)]
                                r = model.slot_item_expectations().expected_rewards(SlateItemValues(by_item(rw, ni)))
                                close([r[s] for s in slots], [sum(a * b for a, b in zip(row, rw)) for row in want], "expected rewards", rtol=1e-6, atol=1e-6)
                            # shorter slates
                            for kk in range(1, k):
                                for ids in itertools.permutations(range(n), kk):
                                    if not ns:
                                        close(model.slate_probability(slate_of(ids, n, ni, ns)), slotwise(rows[:kk], ids), "short slate", rtol=1e-6, atol=1e-9)
                            if full and all(sum(v for j, v in enumerate(r)) > 0 for r in rows):
                                seed_all(1)
                                s = model.sample_slate(slots)
                                ids = [its.index(i) for _, i in s]
                                expect(len(set(ids)) == k and slotwise(rows, ids) > 0, "sampled slate %s", ids)
                            best = greedy_of(rows)
                            if best is not None:
                                g = make(greedy=True)
                                same([its.index(i) for _, i in g.sample_slate(slots)], best, "greedy sample")
                                for ids in itertools.permutations(range(n), k):
                                    same(g.slate_probability(slate_of(ids, n, ni, ns)), 1.0 if list(ids) == best else 0.0, "greedy probability of %s" % (ids,))
                                expectations_ok(g.slot_item_expectations(), [[1.0 if i == j else 0.0 for j in range(n)] for i in best], its, slots, "greedy expectations")
                            ctx.state((rows, ni, ns))
                        ctx.run((rows, ni, ns), case, nontrivial=k > 1)
    return fn


# ---------------------------------------------------------------- metrics
def dcg(rs):
    return sum((2.0 ** r - 1) / math.log2(s + 2) for s, r in enumerate(rs))


def err(rs, top):
    p, out = 1.0, 0.0
    for s, r in enumerate(rs):
        r = max(0.0, min(top, r))
        q = (2.0 ** r - 1) / 2.0 ** top
        out += p * q / (s + 1)
        p *= 1 - q
    return out


def metrics(big):
    GR = (0.0, 1.0, 2.0, 3.0, 4.5)

    def fn(ctx):
        for n in (1, 2, 3) if not big else (1, 2, 3, 4):
            for rel in itertools.product(GR if n < 4 else GR[:4], repeat=n):
                for ni, ns in itertools.product((False, True), repeat=2):
                    def case():
                        item_rewards = SlateItemValues(by_item(rel, ni))
                        nd = NDCGSlateMetric(item_rewards)
                        total, d = SlateMetric(), DCGSlateMetric()
                        errs = {top: ERRSlateMetric(top) for top in (1.0, 3.0, 4.0, 5.0)}
                        order = list(range(1, n + 1)) + [1]
                        for k in order + order[::-1]:
                            ideal = dcg(sorted(rel, reverse=True)[:k])
                            for ids in itertools.permutations(range(n), k):
                                s = slate_of(ids, n, ni, ns)
                                rs = [rel[i] for i in ids]
                                vals = s.slot_values(item_rewards)
                                close([vals[sl] for sl in s.slots], rs, "slot values")
                                close(total(s.slots, vals), sum(rs), "sum")
                                close(d(s.slots, vals), dcg(rs), "dcg")
                                v = nd(s.slots, vals)
                                close(v, dcg(rs) / ideal if ideal else 0.0, "ndcg of %s" % (rs,))
                                expect(-1e-9 <= v <= 1 + 1e-6, "ndcg %s", v)
                                if ideal and rs == sorted(rel, reverse=True)[:k]:
                                    close(v, 1.0, "ndcg of the ideal slate")
                                for top, m in errs.items():
                                    x = m(s.slots, vals)
                                    close(x, err(rs, top), "err (max %s) of %s" % (top, rs))
                                    expect(0 <= x <= 1, "err %s", x)
                                # given weights or values
                                w = s.slots.fill([0.5 * (i + 1) for i in range(k)])
                                close(total.calculate_reward(s.slots, vals, None, w), sum(r * 0.5 * (i + 1) for i, r in enumerate(rs)), "given weights")
                                close(d.calculate_reward(s.slots, None, vals), sum(r / math.log2(i + 2) for i, r in enumerate(rs)), "given values")
                                close(vals.values, rs, "the caller's rewards")
                                ctx.step()
                        close(item_rewards.values, list(rel), "the caller's item rewards")
                        ctx.state((rel, ni, ns))
                    ctx.run((rel, ni, ns), case, nontrivial=n > 1)
    return fn


def slates(big):
    def fn(ctx):
        for n in (1, 2, 3, 4):
            for ni, ns in itertools.product((False, True), repeat=2):
                for k in range(1, n + 1):
                    for ids in itertools.permutations(range(n), k):
                        def case():
                            its, slots = items_of(n, ni), slots_of(k, ns)
                            sp = SlateItems(its) if ni else SlateItems(n)
                            s = make_slate(slots, [its[i] for i in ids] + [its[0]])
                            expect([i for _, i in s] == [its[i] for i in ids] and list(s.items) == [its[i] for i in ids], "items %s", s)
                            expect([x for x, _ in s] == list(slots) and list(s.slots) == list(slots), "slots %s", s)
                            expect(all(s[x] == its[i] for x, i in zip(slots, ids)), "lookup")
                            same(s.one_hots(sp), [[1.0 if i == j else 0.0 for j in range(n)] for i in ids], "one hots")
                            feats = [torch.tensor([1.0 + i, -2.0 * i]) for i in range(n)]
                            f = SlateItemFeatures(dict(zip(its, feats)) if ni else feats)
                            sf = s.slot_features(f)
                            same(sf.features, [feats[i].tolist() for i in ids], "slot features")
                            sf.features.zero_()
                            sf[list(slots)[0]].zero_()
                            same([f[i].tolist() for i in its], [x.tolist() for x in feats], "the caller's features")
                            expect(list(f.items) == its, "feature items")
                            same(len(s), k, "length")
                            fl = s.fill(list("abcd"))
                            same(fl if not ns else [fl[x] for x in slots], list("abcd")[:k], "filled slots")
                            d = make_slot_item_distributions(slots, [SlateItemValues(by_item([float(i == j) for j in range(n)], ni)) for i in ids] + [SlateItemValues(by_item([9.0] * n, ni))])
                            same(d.values_tensor(), [[float(i == j) for j in range(n)] for i in ids], "distributions")
                            class M(SlateModel):
                                def item_rewards(self, c):
                                    return None
                            close(M().slot_probabilities(SlateContext(SlateQuery((1,)), slots)).values, [1.0] * k, "default slot probabilities")
                            ctx.step()
                        ctx.run((n, ni, ns, ids), case, nontrivial=k > 1)
        # reward distributions
        for n in (1, 2, 3):
            for rw in itertools.permutations((0.5, 1.0, 2.0, 3.5), n):
                for ni in (False, True):
                    def case():
                        its = items_of(n, ni)
                        for det in (False, True):
                            rv = SlateItemValues(by_item(rw, ni))
                            for d, want in ((PassThruDistribution(det), list(rw)), (FrechetDistribution(2.0, det), [v ** 2 for v in rw]), (FrechetDistribution(0.5, det), [v ** 0.5 for v in rw]),
                                            (RankingDistribution(-1.0, det), list(rw))) + tuple(
                                    (RankingDistribution(a, det), [2.0 ** -math.floor(a * math.log2(1 + sum(x > v for x in rw))) for v in rw]) for a in (0.0, 1.0, 2.5)):
                                m = d(rv)
                                close([m[i] for i in its], want, "%r" % d, rtol=1e-6, atol=1e-9)
                                same(m.is_deterministic, det, "determinism")
                                ctx.step()
                            close(rv.values, list(rw), "the caller's rewards")
                    ctx.run(("distribution", rw, ni), case)
    return fn


# ---------------------------------------------------------------- estimators
N, K = 3, 2
SLATES = list(itertools.permutations(range(N), K))
POL = [(0.2, 0.3, 0.5), (0.6, 0.3, 0.1), (1.0, 1.0, 1.0), (0.0, 0.5, 0.5)]
TGT = POL + [("greedy", (0.2, 0.3, 0.5)), ("slots", ((0.5, 0.25, 0.25), (0.1, 0.6, 0.3)))]


class Model:
    """one policy: its object and its slate probabilities"""

    def __init__(self, spec, n=N, k=K):
        self.spec, self.n, self.k = spec, n, k
        if spec[0] == "greedy":
            best = greedy_of([spec[1]] * k)
            self.prob = lambda ids: 1.0 if list(ids) == best else 0.0
        elif spec[0] == "slots":
            self.prob = lambda ids: slotwise(spec[1], ids)
        else:
            self.prob = lambda ids: pl(spec, ids)

    def kwargs(self, side, precomputed=None):
        s = self.spec
        if precomputed is not None:
            return {"_%s_slate_probability" % side: precomputed}
        if s[0] == "greedy":
            return {"_%s_item_probabilities" % side: SlateItemProbabilities(list(s[1]), greedy=True)}
        if s[0] == "slots":
            return {"_%s_slot_item_probabilities" % side: SlateSlotItemProbabilities([SlateItemValues(list(r)) for r in s[1]])}
        return {"_%s_item_probabilities" % side: SlateItemProbabilities(list(s))}

    def marginal(self):
        return marginals(self.prob, self.n, self.k)


FEAT = [(0.5, -1.0), (1.0, 2.0), (-0.25, 0.75)]


class FakeTrainer(Trainer):
    def __init__(self):
        super().__init__()
        self.trained = []

    @property
    def name(self):
        return "fake"

    def train(self, data, iterations=1, num_samples=0):
        self._model = [[tuple(r) for r in data.train_x.tolist()], data.train_y.tolist(), [tuple(r) for r in data.validation_x.tolist()], data.validation_y.tolist()]
        self.trained.append(self._model)

    @staticmethod
    def value(model, row):
        return math.sin(1.7 * sum((j + 1) * v for j, v in enumerate(row))) + 0.1 * sum(model[1])

    def predict(self, x, device=None):
        return PredictResults(None, torch.tensor([self.value(self._model, r) for r in x.tolist()], dtype=torch.double), None)

    def score(self, x, y, weight=None):
        return 0.0


def row_of(ids):
    return tuple(v for i in ids for v in FEAT[i])


# (logging policy, target policy, slate, reward, extras)
def alphabet():
    out = []
    for i, (lp, tp) in enumerate(itertools.product(POL[:3] + [("slots", ((0.3, 0.3, 0.4), (0.2, 0.2, 0.6)))], TGT)):
        for j in range(2):
            out.append((lp, tp, SLATES[(2 * i + 5 * j + i // 4) % 6], (1.0, -0.5, 2.0, 0.0, 3.5)[(i + 3 * j) % 5], (i + j) % 3))
    out.append(((0.0, 0.5, 0.5), (0.2, 0.3, 0.5), (0, 1), 1.0, 0))
    out.append(((0.0, 0.5, 0.5), (0.0, 0.5, 0.5), (1, 2), 2.0, 1))
    return out


def build(s, pre=False, feats=False, gt=float("nan")):
    lp, tp, ids, r, ex = s
    L, T = Model(lp), Model(tp)
    kw = {}
    if pre:
        kw.update(L.kwargs("log", L.prob(ids)))
        kw.update(T.kwargs("tgt", T.prob(ids)))
    else:
        kw.update(L.kwargs("log"))
        kw.update(T.kwargs("tgt"))
    if ex == 1:
        kw["slot_weights"] = SlateSlotValues([1.0, 0.5])
    if ex == 2:
        kw["slot_weights"] = SlateSlotValues([0.25, 2.0])
        kw["slot_probabilities"] = SlateSlotValues([0.8, 0.4])
    if feats:
        kw["item_features"] = SlateItemFeatures([torch.tensor(f) for f in FEAT])
    return LogSample(context=SlateContext(SlateQuery((1,)), SlateSlots(K)), metric=DCGSlateMetric(), log_slate=slate_of(ids, N, False, False), log_reward=r, ground_truth_reward=gt, **kw)


def ratio(nu, de, clamp):
    if nu == de:
        return 1.0
    if nu <= 0:
        return 0.0
    if de <= 0:
        return None
    return max(clamp[0], min(clamp[1], nu / de))


def ips_weight(s, clamp):
    nu, de = Model(s[1]).prob(s[2]), Model(s[0]).prob(s[2])
    return 1.0 if abs(nu - de) < 1e-12 else ratio(nu, de, clamp)


def pbm_weight(s, clamp):
    h, p = Model(s[1]).marginal(), Model(s[0]).marginal()
    w = {0: [1.0, 1.0], 1: [1.0, 0.5], 2: [0.25 * 0.8, 2.0 * 0.4]}[s[4]]
    nu = sum(h[k][i] * w[k] for k, i in enumerate(s[2]))
    de = sum(p[k][i] * w[k] for k, i in enumerate(s[2]))
    return 1.0 if abs(nu - de) < 1e-12 else ratio(nu, de, clamp)


def gamma_of(model):
    g = np.zeros((K * N, K * N))
    for ids in itertools.permutations(range(N), K):
        v = np.zeros(K * N)
        for k, i in enumerate(ids):
            v[k * N + i] = 1
        g += model.prob(ids) * np.outer(v, v)
    return g


def pi_weight(s, clamp, published):
    L, T = Model(s[0]), Model(s[1])
    ql, qt = np.array(L.marginal()).reshape(-1), np.array(T.marginal()).reshape(-1)
    one = np.zeros(K * N)
    for k, i in enumerate(s[2]):
        one[k * N + i] = 1
    g = np.linalg.pinv(gamma_of(L)) if published else np.linalg.pinv(np.outer(ql, ql))
    return max(clamp[0], min(clamp[1], float(qt @ g @ one)))


INF = float("inf")
CLAMPS = {"none": (-INF, INF), "tight": (0.0, 1.25)}


def check(res, rows, weighted, what, base=None):
    """rows: (reward, weight, gt) of the samples that are not skipped"""
    if not rows:
        expect(res is None or math.isnan(res.estimated_reward), "%s of nothing: %s", what, res)
        return
    tot = sum(w for _, w, _ in rows)
    b = base or [0.0] * len(rows)
    if weighted and abs(tot) < 1e-12:
        same(res, None, what + " without weights")
        return
    num = sum(r * w for r, w, _ in rows)
    want = num / tot if weighted else num / len(rows)
    want += sum(b) / len(b)
    close(res.estimated_reward, want, what, rtol=1e-5, atol=1e-6)
    close(res.estimated_weight, tot / len(rows) if weighted else len(rows), what + " weight", rtol=1e-5, atol=1e-6)
    gts = [g for _, _, g in rows if not math.isnan(g)]
    if gts:
        close(res.ground_truth_reward, sum(gts) / len(gts), what + " ground truth")


def logs(big):
    A = alphabet()
    for s in A:
        yield (s,)
    step = 1 if big else 3
    for i, s in enumerate(A):
        for j, t in enumerate(A):
            if (i * 7 + j) % step == 0:
                yield (s, t)
    for v in range(40 if not big else 400):
        yield tuple(A[(v * 5 + m * (3 + v % 7)) % len(A)] for m in range(3 + v % 2))


def estimators(big):
    def fn(ctx):
        for idx, log in enumerate(logs(big)):
            def case():
                gt = [float("nan") if (i + idx) % 3 == 0 else 0.5 * i for i in range(len(log))]
                inp = SlateEstimatorInput([build(s, gt=g) for s, g in zip(log, gt)])
                # the probabilities of a whole slate may be given instead of distributions
                pre = SlateEstimatorInput([build(s, pre=True, gt=g) for s, g in zip(log, gt)])
                for cname, c in CLAMPS.items():
                    cl = None if cname == "none" else Clamper(*c)
                    for weighted in (False, True):
                        w = [ips_weight(s, c) for s in log]
                        rows = [(s[3], x, g) for s, x, g in zip(log, w, gt) if x is not None]
                        check(IPSEstimator(cl, weighted).evaluate(inp), rows, weighted, "ips %s %s" % (cname, weighted))
                        check(IPSEstimator(cl, weighted).evaluate(pre), rows, weighted, "ips with given slate probabilities")
                        w = [pbm_weight(s, c) for s in log]
                        rows = [(s[3], x, g) for s, x, g in zip(log, w, gt) if x is not None]
                        check(PBMEstimator(cl, weighted).evaluate(inp), rows, weighted, "position based %s %s" % (cname, weighted))
                        res = PseudoInverseEstimator(cl, weighted).evaluate(inp)
                        fail = None
                        for published in (False, True):
                            rows = [(s[3], pi_weight(s, c, published), g) for s, g in zip(log, gt)]
                            try:
                                check(res, rows, weighted, "pseudo inverse %s %s" % (cname, weighted))
                                fail = None
                                break
                            except Exception as e:
                                fail = fail or e
                        if fail is not None:
                            raise fail
                        ctx.step(4)
                # evaluating does not change the log
                for s, x in zip(log, inp.samples):
                    if s[4]:
                        close(x.slot_weights.values, {1: [1.0, 0.5], 2: [0.25, 2.0]}[s[4]], "slot weights of the log")
                        ctx.state(log)
            ctx.run(("log", idx), case, nontrivial=len(log) > 1)

        # target policy = logging policy
        for idx, log in enumerate(logs(False)):
            if len(log) == 2 and idx % 2:
                continue

            def case():
                on = tuple((lp, lp, ids, r, ex) for lp, tp, ids, r, ex in log if Model(lp).prob(ids) > 0)
                if not on:
                    return
                inp = SlateEstimatorInput([build(s) for s in on])
                want = sum(s[3] for s in on) / len(on)
                for e in (IPSEstimator(weighted=False), IPSEstimator(), PBMEstimator(weighted=False), PBMEstimator()):
                    close(e.evaluate(inp).estimated_reward, want, "%r on the logging policy" % e, rtol=1e-6, atol=1e-6)
                ctx.step(4)
            ctx.run(("on-policy", idx), case)

        # over all logged slates: the exact value of the target policy
        for lp in POL[:3] + [("slots", ((0.3, 0.3, 0.4), (0.2, 0.2, 0.6)))]:
            for tp in TGT:
                for rk in range(3):
                    def case():
                        L, T = Model(lp), Model(tp)
                        rew = {ids: (1.0 + i) * (1 if rk == 0 else (-1) ** i) + rk * (i % 3) for i, ids in enumerate(SLATES)}
                        est = 0.0
                        model_est = 0.0
                        for ids in SLATES:
                            s = (lp, tp, ids, rew[ids], 0)
                            est += L.prob(ids) * IPSEstimator(weighted=False).evaluate(SlateEstimatorInput([build(s)])).estimated_reward
                            if tp[0] != "slots":
                                t = FakeTrainer()
                                r = DoublyRobustEstimator(t, 1.0).evaluate(SlateEstimatorInput([build(s, feats=True)])).estimated_reward
                                # each log trains its own model; take the model's part out with its own expectation
                                m = t.trained[-1]
                                dm = sum(T.prob(x) * FakeTrainer.value(m, row_of(x)) for x in SLATES)
                                model_est += L.prob(ids) * (r - dm + (T.prob(ids) / L.prob(ids)) * FakeTrainer.value(m, row_of(ids)))
                        want = sum(T.prob(ids) * rew[ids] for ids in SLATES)
                        close(est, want, "expected ips estimate", rtol=1e-6, atol=1e-6)
                        if tp[0] != "slots":
                            close(model_est, want, "expected doubly robust correction", rtol=1e-5, atol=1e-5)
                        ctx.step()
                    ctx.run(("exact", lp, tp, rk), case)
    return fn


def direct(big):
    def fn(ctx):
        A = [s for s in alphabet() if s[1][0] != "slots"]
        cases = [(s,) for s in A] + [tuple(A[(v * 5 + m * (3 + v % 7)) % len(A)] for m in range(2 + v % 4)) for v in range(60 if not big else 600)]
        for idx, log in enumerate(cases):
            for rt in (0.0, 0.5, 0.7, 1.0):
                for missing in (False, True):
                    if missing and (len(log) < 3 or idx % 2):
                        continue

                    def case():
                        n = len(log)
                        have = [not (missing and i % 3 == 1) for i in range(n)]
                        inp = SlateEstimatorInput([build(s, feats=f) for s, f in zip(log, have)])
                        ntrain = int(n * rt) if 0 < rt < 1 else n
                        tr = [i for i in range(ntrain) if have[i]]
                        va = [i for i in range(ntrain, n) if have[i]]
                        t = FakeTrainer()
                        res = DMEstimator(t, rt).evaluate(inp)
                        if not tr:
                            same(res, None, "direct estimate without training data")
                        if tr:
                            same(len(t.trained), 1, "trained")
                            m = t.trained[0]
                            vs = va or tr
                            close(m[0], [list(row_of(log[i][2])) for i in tr], "training features")
                            close(m[1], [log[i][3] for i in tr], "training rewards")
                            close(m[2], [list(row_of(log[i][2])) for i in vs], "validation features")
                            close(m[3], [log[i][3] for i in vs], "validation rewards")
                        ev = (va or tr) if tr else list(range(n))
                        if tr:
                            dm = {i: sum(Model(log[i][1]).prob(x) * FakeTrainer.value(m, row_of(x)) for x in SLATES) for i in ev}
                            close(res.estimated_reward, sum(dm.values()) / len(ev), "direct estimate", rtol=1e-5, atol=1e-5)
                        else:
                            m, dm = None, {i: 0.0 for i in ev}
                        for cname, c in CLAMPS.items():
                            cl = None if cname == "none" else Clamper(*c)
                            for weighted in (False, True):
                                t2 = FakeTrainer()
                                r = DoublyRobustEstimator(t2, rt, cl, weighted).evaluate(inp)
                                rows, base = [], []
                                for i in ev:
                                    w = ips_weight(log[i], c)
                                    if w is not None:
                                        rows.append((log[i][3] - (FakeTrainer.value(m, row_of(log[i][2])) if m else 0.0), w, float("nan")))
                                        base.append(dm[i])
                                check(r, rows, weighted, "doubly robust %s %s" % (cname, weighted), base)
                                ctx.step()
                        ctx.state((log, rt))
                    ctx.run((idx, rt, missing), case, nontrivial=len(log) > 1)
    return fn


def published(big):
    def fn(ctx):
        def case():
            # one slot, uniform logging over three items: the published weight of item i is 3 * target(i)
            for ids in ((0,), (1,), (2,)):
                tgt = (0.2, 0.3, 0.5)
                s = LogSample(context=SlateContext(SlateQuery((1,)), SlateSlots(1)), metric=DCGSlateMetric(), log_slate=slate_of(ids, 3, False, False), log_reward=1.0,
                              _log_item_probabilities=SlateItemProbabilities([1.0, 1.0, 1.0]), _tgt_item_probabilities=SlateItemProbabilities(list(tgt)))
                r = PseudoInverseEstimator(weighted=False).evaluate(SlateEstimatorInput([s]))
                close(r.estimated_reward, 3 * tgt[ids[0]], "pseudo-inverse estimate of item %d" % ids[0], rtol=1e-5, atol=1e-5)
                ctx.step()
        ctx.run("pseudo-inverse of one slot", case)
    return fn


class Systematic:
    """torch.multinomial whose outcomes go through all probabilities evenly: per distribution, draw number i uses the i-th van der Corput point, so
    frequencies are exact up to the grid"""

    def __init__(self):
        self.count = {}

    @staticmethod
    def point(i, base=2):
        x, f = 0.0, 1.0
        i += 1
        while i:
            f /= base
            x += f * (i % base)
            i //= base
        return x

    def outcomes(self, w, k):
        """all ordered draws without replacement and their probabilities"""
        tot = sum(w)
        p = [v / tot for v in w]
        return [(ids, pl(p, ids)) for ids in itertools.permutations(range(len(w)), k) if all(p[i] > 0 for i in ids)]

    def __call__(self, ws, num_samples, replacement=False, **kw):
        rows = ws.reshape(-1, ws.shape[-1])
        first = rows[0].tolist()
        same_rows = bool((rows == rows[0]).all())
        out = []
        if same_rows:
            table, n = self.outcomes(first, num_samples), len(rows)
            cum, acc = [], 0.0
            for ids, q in table:
                acc += q
                cum.append(acc)
            key = (tuple(round(v / sum(first), 9) for v in first), num_samples)
            start = self.count.get(key, 0)
            self.count[key] = start + n
            pts = torch.tensor([self.point(start + j) for j in range(n)], dtype=torch.double) if n < 64 else (torch.arange(n, dtype=torch.double) + 0.5) / n
            idx = torch.searchsorted(torch.tensor(cum, dtype=torch.double), pts).clamp(max=len(table) - 1)
            out = torch.tensor([t[0] for t in table])[idx]
        else:
            out = torch.stack([self(r.unsqueeze(0), num_samples)[0] for r in rows])
        return out.reshape(*ws.shape[:-1], num_samples)


def sampled(big):
    """expectations of slates too large to enumerate are averages over samples; with evenly spread samples they are the marginals"""
    def fn(ctx):
        def with_sampling(f):
            sysm = Systematic()
            keep = se.is_to_calculate_expectation, torch.multinomial, torch.Tensor.multinomial
            se.is_to_calculate_expectation = lambda *a, **k: False
            torch.multinomial = sysm
            torch.Tensor.multinomial = lambda self, *a, **k: sysm(self, *a, **k)
            try:
                f()
            finally:
                se.is_to_calculate_expectation, torch.multinomial, torch.Tensor.multinomial = keep

        def items(p, k, ni, ns):
            n = len(p)
            its, slots = items_of(n, ni), slots_of(k, ns)
            want = marginals(lambda ids: pl(p, ids), n, k)

            def go():
                model = SlateItemProbabilities(by_item(p, ni))
                e = model.slot_item_expectations(slots)
                same(len(e), k, "slots")
                close(e.values_tensor(), want, "sampled expectations", rtol=0, atol=2e-3)
                for s, row in zip(slots, want):
                    close([e[s][i] for i in its], row, "by slot and item", rtol=0, atol=2e-3)
            with_sampling(go)
            ctx.state(("items", p, k, ni, ns))
            ctx.step()

        for n, k in ((1, 1), (2, 2), (3, 2)) + (((2, 1), (3, 3), (4, 3)) if big else ()):
            for p in weights(n, False):
                if sum(1 for v in p if v > 0) < k:
                    continue
                ni, ns = sum(p) > 2.0, p[0] > 0
                if big or max(p) != 2.0 or n < 3 or p[0] == 2.0:
                    ctx.run(("items", p, k), items, p, k, ni, ns)

        def slots_case(rows, ni, ns):
            n, k = len(rows[0]), len(rows)
            its, slots = items_of(n, ni), slots_of(k, ns)
            want = marginals(lambda ids: slotwise(rows, ids), n, k)
            if abs(sum(want[-1]) - 1) > 1e-9:
                return

            def go():
                vals = [SlateItemValues(by_item(r, ni)) for r in rows]
                model = SlateSlotItemProbabilities(dict(zip(slots, vals)) if ns else vals)
                e = model.slot_item_expectations(samples=256)
                same(len(e), k, "slots")
                close(e.values_tensor(), want, "sampled expectations", rtol=0, atol=3e-2)
                close([sum(r) for r in e.values_tensor().tolist()], [1.0] * k, "mass of a slot", atol=1e-6)
                for s, row in zip(slots, want):
                    close([e[s][i] for i in its], row, "by slot and item", rtol=0, atol=3e-2)
            with_sampling(go)
            ctx.state(("slots", rows, ni, ns))
            ctx.step()

        for n, k in ((2, 1), (2, 2), (3, 2)) + (((3, 3),) if big else ()):
            for rows in itertools.product(ROWS[n], repeat=k):
                ctx.run(("slots", rows), slots_case, rows, rows[0][0] > 0.3, rows[0][0] < 0.5)

        # estimators that need more than was logged have no estimate
        def missing(which, mode):
            kw = {}
            for side, have in zip(("log", "tgt"), which):
                kw["_%s_slate_probability" % side] = 0.25
                if have:
                    kw.update(Model(POL[0]).kwargs(side))
            s = LogSample(context=SlateContext(SlateQuery((1,)), SlateSlots(K)), metric=DCGSlateMetric(), log_slate=slate_of((0, 1), N, False, False), log_reward=2.0,
                          item_features=SlateItemFeatures([torch.tensor(f) for f in FEAT]), **kw)
            for cls in (PseudoInverseEstimator, PBMEstimator):
                for weighted in (False, True):
                    try:
                        r = cls(weighted=weighted).evaluate(SlateEstimatorInput([s] * mode))
                    except (ValueError, AssertionError):
                        continue
                    expect((r is not None) == all(which), "%s with distributions %s: %s", cls.__name__, which, r)
            if which == (False, True):
                return  # refused: the items are those of the logging distribution
            r = IPSEstimator(weighted=False).evaluate(SlateEstimatorInput([s] * mode))
            close(r.estimated_reward, 2.0, "ips with given slate probabilities")
            ctx.step()

        for which in itertools.product((False, True), repeat=2):
            for mode in (1, 2):
                ctx.run(("missing", which, mode), missing, which, mode)
    return fn


def groups(tier):
    big = tier == "thorough"
    return [("item-models", item_models(big)), ("slot-models", slot_models(big)), ("metrics", metrics(big)), ("slates", slates(big)), ("estimators", estimators(big)),
            ("direct", direct(big)), ("published", published(big)), ("sampled", sampled(big))]

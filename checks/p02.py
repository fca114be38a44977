"""P02: feature identification, its serialized form, and the inverse action transform."""
import itertools
import math

import numpy as np
import torch
from scipy import stats

from mc import prep_ref, sparkstub
from mc.core import close, expect, raises, same

sparkstub.install()
from reagent.parameters import NormalizationParameters as NP
from reagent.preprocessing import identify_types, normalization
from reagent.preprocessing.normalization import (
    construct_action_scale_tensor,
    deserialize,
    get_feature_norm_metadata,
    identify_parameter,
    serialize,
)
from reagent.preprocessing.postprocessor import Postprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.workflow.identify_types_flow import normalization_helper

LEVEL = "model_checking"
RULE = (
    "identification: every non-empty subset (<=4 values) of a value alphabet and a family of shaped samples, under every "
    "option combination; the action transform: every dimension count, range, id order and grid value, in both directions"
)
ASSUMPTIONS = ["the Box-Cox exponent itself comes from scipy and is taken as reported"]


def ref_type(values, threshold):
    v = [float(x) for x in values]
    if all(x in (0.0, 1.0) for x in v) or min(v) == max(v):
        return "BINARY"
    if all(0 <= x <= 1 for x in v):
        return "PROBABILITY"
    if min(v) >= 0 and all(x == int(x) for x in v) and len(set(v)) <= threshold:
        return "ENUM"
    return "CONTINUOUS"


def std1(v):
    v = np.asarray(v, dtype=np.float64)
    return float(np.std(v, ddof=1))


def emp_quantile(v, p):
    """inverse of the piecewise linear empirical cdf with F(x_(k)) = k/n"""
    x = np.sort(np.asarray(v, dtype=np.float64))
    n = len(x)
    k = p * n
    if k <= 1:
        return x[0]
    lo = int(math.floor(k + 1e-9))
    if lo >= n:
        return x[-1]
    g = k - lo
    return (1 - g) * x[lo - 1] + g * x[lo]


def verify_params(p, values, opts, ctx):
    thr, qsize, k2, skip_bc, skip_q, override = opts
    v = np.asarray(values, dtype=np.float64)
    t = override or ref_type(values, thr)
    lo, hi = float(v.min()), float(v.max())
    if t == "CONTINUOUS" and lo == hi:
        same((p.feature_type, p.mean, p.stddev, p.boxcox_lambda, p.quantiles), ("CONTINUOUS", 0, 1, None, None), "constant feature")
        return
    close(p.min_value, lo, "min")
    close(p.max_value, hi, "max")
    if t != "CONTINUOUS":
        same(p.feature_type, t, "type")
    else:
        expect(p.feature_type in ("CONTINUOUS", "BOXCOX", "QUANTILE"), "type %s", p.feature_type)
        if skip_bc:
            expect(p.feature_type != "BOXCOX", "box-cox although skipped")
        if skip_q:
            expect(p.feature_type != "QUANTILE", "quantiles although skipped")
        f32 = np.asarray(values, dtype=np.float32)
        k2o, _ = stats.normaltest(f32)
        bc, lam = stats.boxcox(np.maximum(f32 + float(lo * -1), normalization.BOX_COX_MARGIN))
        k2b, _ = stats.normaltest(bc)
        good = (lam < 0.9 or lam > 1.1) and k2o > 10 * k2b and k2b <= k2
        sane = np.isfinite(std1(bc)) and std1(bc) < 1e8 and not np.isclose(std1(bc), 0)
        want = "BOXCOX" if good and sane and not skip_bc else ("QUANTILE" if k2o > k2 and not skip_q else "CONTINUOUS")
        same(p.feature_type, want, "type (K2 %.4g -> %.4g, lambda %.4g)" % (k2o, k2b, lam))
    if p.feature_type in ("CONTINUOUS", "CONTINUOUS_ACTION"):
        close(p.mean, float(v.mean()), "mean", rtol=1e-3, atol=1e-3)
        close(p.stddev, max(std1(v), 1.0), "stddev", rtol=1e-3)
    if p.feature_type == "BOXCOX":
        close(p.boxcox_shift, -lo, "box-cox shift")
        x = np.maximum(v - lo, normalization.BOX_COX_MARGIN)
        y = (x ** p.boxcox_lambda - 1) / p.boxcox_lambda
        close(p.mean, float(y.mean()), "box-cox mean", rtol=1e-2, atol=1e-2)
        close(p.stddev, max(std1(y), 1.0), "box-cox stddev", rtol=1e-2)
    else:
        if p.feature_type in ("CONTINUOUS", "QUANTILE"):
            same(p.boxcox_lambda, None, "no box-cox exponent")
    if p.feature_type == "ENUM":
        same(list(p.possible_values), sorted({int(x) for x in values}), "possible values")
    if p.feature_type == "QUANTILE":
        q = p.quantiles
        expect(all(a < b for a, b in zip(q, q[1:])) and len(q) <= qsize + 1, "quantiles %s", q)
        want = sorted({float(np.float32(emp_quantile(v, i / qsize))) for i in range(qsize + 1)})
        for a in want:
            expect(min(abs(a - b) for b in q) <= 1e-3 * max(1, abs(a)), "quantile %g missing from %s", a, q)
        for b in q:
            expect(min(abs(a - b) for a in want) <= 1e-3 * max(1, abs(b)), "unexpected quantile %g, want %s", b, want)
    ctx.outcome((p.feature_type, len(p.quantiles or []), len(p.possible_values or [])))
    # the identified parameters survive serialization and drive the preprocessor
    params = {17: p, 4: NP("BINARY")}
    back = deserialize(serialize(params))
    same(sorted(back), [4, 17], "feature ids after deserialization")
    for f in params:
        expect(back[f] == params[f], "parameters changed in serialization: %s -> %s", params[f], back[f])
    if p.feature_type != "DO_NOT_PREPROCESS" and (p.min_value != p.max_value or p.feature_type != "CONTINUOUS_ACTION"):
        pp = Preprocessor(back, use_gpu=False)
        pp.eval()
        xs = sorted(set(float(x) for x in values))[:8] + [hi]
        order = prep_ref.order_features(back)
        x = torch.tensor([[{17: a, 4: 1.0}[f] for f in order] for a in xs])
        out = pp(x, torch.ones_like(x, dtype=torch.uint8))
        expect(bool(torch.isfinite(out).all()) and float(out.abs().max()) <= 6.0, "preprocessed sample out of range: %s", out.tolist())
        if p.feature_type != "BOXCOX":
            for a, row in zip(xs, out):
                close(row, prep_ref.row(back, {17: a, 4: 1.0}, {17: True, 4: True}), "preprocessed %g" % a, rtol=1e-3, atol=1e-3)


def identify_case(values, opts, ctx):
    thr, qsize, k2, skip_bc, skip_q, override = opts
    values = np.array(values, dtype=np.float32)
    keep = values.copy()
    p = identify_parameter("f", values, thr, qsize, k2, skip_bc, skip_q, override)
    expect(np.array_equal(keep, values), "the sample was modified")
    verify_params(p, keep.tolist(), opts, ctx)
    ctx.step()


ALPHA = [0.0, 1.0, 0.5, 2.0, -1.0, 3.0, 300.0]


def pad(vals, n, skew):
    """n samples using exactly the given values"""
    out = []
    i = 0
    while len(out) < n:
        out.append(vals[i % len(vals)] if not skew or i < len(vals) else vals[0])
        i += 1
    return out


def subsets(ctx):
    for k in range(1, 5):
        for c in itertools.combinations(ALPHA, k):
            for skew in (False, True):
                vals = pad(list(c), 24, skew)
                for thr in (1, 2, 3, 100):
                    same(identify_types.identify_type(np.array(vals), thr), ref_type(vals, thr), "identify_type")
                    opts = (thr, 5, 1000.0, True, True, None)
                    ctx.state((c, skew, thr))
                    ctx.run((c, skew, thr), identify_case, vals, opts, ctx)
                if len(c) > 1:
                    for ov in ("CONTINUOUS", "CONTINUOUS_ACTION", "DISCRETE_ACTION", "PROBABILITY", "BINARY", "DO_NOT_PREPROCESS"):
                        opts = (100, 5, 1000.0, True, True, ov)
                        ctx.state((c, skew, ov))
                        ctx.run((c, skew, ov), identify_case, vals, opts, ctx)
                if all(x == int(x) and x >= 0 for x in c):
                    ctx.run((c, skew, "ENUM"), identify_case, vals, (1, 5, 1000.0, True, True, "ENUM"), ctx)
    # hashed ids: beyond 16 and 32 bits, exact in float32
    ids = [0.0, 7.0, 70000.0, 2.0 ** 31, 2.0 ** 32, 2.0 ** 32 + 512, 3 * 2.0 ** 40]
    for k in range(1, 4):
        for c in itertools.combinations(ids, k):
            for thr, ov in ((100, None), (1, "ENUM")):
                ctx.state((c, "ids", thr))
                ctx.run((c, "ids", thr), identify_case, pad(list(c), 24, False), (thr, 5, 1000.0, True, True, ov), ctx)


def shapes():
    g = np.linspace(0.5 / 300, 1 - 0.5 / 300, 300)
    z = stats.norm.ppf(g)
    return {
        "normal": z * 3 + 10,
        "lognormal": np.exp(z),
        "square": np.abs(z) ** 2 + 1,
        "uniform": g * 100 - 50,
        "exp": -np.log(1 - g) * 5,
        "cauchy": np.tan(np.pi * (g - 0.5)),
        "bimodal": np.concatenate([z[:150] - 20, z[150:] + 20]),
        "heavy": np.sign(z) * np.abs(z) ** 5,
        "steps": np.floor(g * 7) - 2,
        "spike": np.concatenate([np.zeros(280), np.arange(1, 21) ** 3 / 7.0]),
        "tiny": z * 0.01,
        "shift": np.exp(z * 0.5) - 30,
    }


def shaped(part):
    def go(ctx):
        for name, vals in sorted(shapes().items())[part::4]:
            for qsize in (4, 20):
                for k2 in (5.0, 100.0, 1000.0):
                    for sb in (False, True):
                        for sq in (False, True):
                            opts = (100, qsize, k2, sb, sq, None)
                            ctx.state((name, opts))
                            ctx.run((name, qsize, k2, sb, sq), identify_case, vals, opts, ctx)

    return go


def metadata(ctx):
    """minimum sample size, overrides, rejection of inf/nan; the per-table driver and its whitelist"""
    base = dict(max_unique_enum_values=10, quantile_size=5, quantile_k2_threshold=1000.0, skip_box_cox=True, skip_quantiles=True)

    def one(n, ov, dflt):
        vals = [float(i % 5) + 0.5 for i in range(n)]
        np_ = dict(base, feature_overrides=ov)
        if dflt:
            np_["default_feature_override"] = dflt
        p = get_feature_norm_metadata("7", vals, np_)
        if n < normalization.MINIMUM_SAMPLES_TO_IDENTIFY:
            same(p, None, "too few samples")
            return
        want = (ov or {}).get("7") or dflt or "CONTINUOUS"
        same(p.feature_type, want, "type with overrides")
        ctx.step()

    for n in (1, 19, 20, 21):
        for ov in (None, {}, {"7": "PROBABILITY"}, {"8": "PROBABILITY"}, {"7": "CONTINUOUS_ACTION"}):
            for dflt in (None, "DO_NOT_PREPROCESS"):
                ctx.state((n, str(ov), dflt))
                ctx.run(("meta", n, str(ov), dflt), one, n, ov, dflt)

    def bad(x, pos):
        vals = [float(i) for i in range(30)]
        vals[pos] = x
        raises(lambda: get_feature_norm_metadata("7", vals, dict(base, feature_overrides=None)), "inf/nan sample")

    for x in (float("inf"), float("-inf"), float("nan")):
        for pos in (0, 15, 29):
            ctx.run(("bad", x, pos), bad, x, pos)

    def helper(present, white, cover):
        rows = [{"feature_name": f, "feature_values": [float((i * (f + 1)) % 13) for i in range(n)]} for f, n in present]
        proc = normalization_helper(5, 5, 1000.0, True, True, None, white, cover)
        usable = {f for f, n in present if n >= normalization.MINIMUM_SAMPLES_TO_IDENTIFY}
        want = usable & set(white) if white else usable
        if white and cover and want != set(white):
            raises(lambda: proc(rows), "whitelisted feature without parameters")
            return
        got = proc(rows)
        same(sorted(got), sorted(want), "features with parameters")
        for f in want:
            vals = next(r["feature_values"] for r in rows if r["feature_name"] == f)
            verify_params(got[f], vals, (5, 5, 1000.0, True, True, None), ctx)
        ctx.step()

    for present in itertools.product((0, 10, 40), repeat=3):
        pr = [(i + 1, n) for i, n in enumerate(present) if n]
        for white in (None, [], [1], [1, 3], [2, 9]):
            for cover in (True, False):
                ctx.state((present, str(white), cover))
                ctx.run(("helper", present, str(white), cover), helper, pr, white, cover)


RANGES = [(-1.0, 1.0), (0.0, 10.0), (-5.0, -1.0), (2.0, 2.5), (-1.0, 1000.0)]
GRID = [-2.0, -1.0, -0.999, -0.5, 0.0, 0.25, 0.75, 1.0, 3.0]


def post(ctx):
    def one(ranges, feats):
        params = {f: NP("CONTINUOUS_ACTION", min_value=lo, max_value=hi) for f, (lo, hi) in zip(feats, ranges)}
        order = sorted(params)
        post_, pre = Postprocessor(params, use_gpu=False), Preprocessor(params, use_gpu=False)
        lo = np.array([params[f].min_value for f in order])
        hi = np.array([params[f].max_value for f in order])
        rows = list(itertools.product(GRID, repeat=len(order))) if len(order) < 3 else [tuple(GRID[(i + 2 * j) % len(GRID)] for j in range(3)) for i in range(len(GRID))]
        x = torch.tensor(rows)
        out = post_(x)
        c = np.clip(np.array(rows), -1 + 1e-6, 1 - 1e-6)
        want = (c + 1 - 1e-6) * (hi - lo) / (2 * (1 - 1e-6)) + lo
        close(out, want.tolist(), "raw action", rtol=1e-4, atol=1e-4)
        span = (hi - lo)
        expect(bool(((out.numpy() >= lo - 1e-4 * span) & (out.numpy() <= hi + 1e-4 * span)).all()), "raw action out of its range")
        back = pre(out, torch.ones_like(x, dtype=torch.uint8))
        close(back, c.tolist(), "preprocess(postprocess(a))", rtol=1e-3, atol=1e-3)
        # serving values inside the range survive the round trip, others saturate
        for fr in (-0.5, 0.0, 0.125, 0.5, 1.0, 1.5):
            raw = lo + fr * span
            r = post_(pre(torch.tensor([raw.tolist()], dtype=torch.float32), torch.ones(1, len(order), dtype=torch.uint8)))
            close(r[0], np.clip(raw, lo, hi).tolist(), "postprocess(preprocess(raw))", rtol=1e-3, atol=2e-3 * span.max())
        mn, mx = construct_action_scale_tensor(params, {feats[0]: (-7.0, 8.0)})
        close(mn, [[-7.0 if f == feats[0] else params[f].min_value for f in order]], "scale min")
        close(mx, [[8.0 if f == feats[0] else params[f].max_value for f in order]], "scale max")
        ctx.step(len(rows))
        ctx.outcome(out.tolist()[:2])

    for n in (1, 2, 3):
        for ranges in itertools.product(RANGES, repeat=n):
            for feats in itertools.permutations([3, 20, 11][:n]):
                ctx.state((ranges, feats))
                ctx.run(("post", ranges, feats), one, ranges, list(feats))

    def passthrough(t, n):
        params = {i: NP(t) for i in range(n)}
        p = Postprocessor(params, use_gpu=False)
        x = torch.tensor([[-3.0, 0.5, 9.0][:n]])
        close(p(x), x.tolist(), "pass-through action")

    for t in ("DISCRETE_ACTION", "DO_NOT_PREPROCESS"):
        for n in (1, 2, 3):
            ctx.run(("pass", t, n), passthrough, t, n)

    def mixed(a, b):
        raises(lambda: Postprocessor({1: NP(a, min_value=0.0, max_value=1.0), 2: NP(b, min_value=0.0, max_value=1.0)}, use_gpu=False), "mixed action types")

    for a, b in itertools.permutations(("DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CONTINUOUS_ACTION"), 2):
        ctx.run(("mixed", a, b), mixed, a, b)
    ctx.run(("unsupported",), mixed, "BINARY", "BINARY")


def groups(tier):
    gs = [("subsets", subsets), ("metadata", metadata), ("post", post)]
    for i in range(4):
        gs.append(("shaped%d" % i, shaped(i)))
    return gs

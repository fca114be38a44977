"""P01: the preprocessing network computes each feature's documented normalization."""
import itertools

import torch

from mc import prep_ref
from mc.core import close, expect, same
from reagent.parameters import NormalizationParameters as NP
from reagent.preprocessing.normalization import (
    get_feature_start_indices,
    get_num_output_features,
    sort_features_by_normalization,
)
from reagent.preprocessing.preprocessor import Preprocessor

LEVEL = "model_checking"
RULE = (
    "state = (set of feature types with their parameters, feature-id assignment, eval/train mode, plain/traced); transition = "
    "one input row; every feature takes every value of its alphabet, present and missing, in every configuration, alone, "
    "in pairs and in full batches"
)
ASSUMPTIONS = [
    "present values are finite (missing ones may be anything); quantile boundaries are increasing with at least two values, as type identification produces them",
]

SPECS = {
    "BINARY": [NP("BINARY")],
    "PROBABILITY": [NP("PROBABILITY")],
    "CONTINUOUS": [NP("CONTINUOUS", None, None, 1.5, 2.0), NP("CONTINUOUS", None, None, -3.0, 0.5)],
    "BOXCOX": [NP("BOXCOX", 0.5, 1.0, 0.25, 2.0), NP("BOXCOX", -0.5, 2.0, -1.0, 1.0), NP("BOXCOX", 2.0, 0.0, 0.0, 1.5)],
    "ENUM": [NP("ENUM", possible_values=[3, 1, 7]), NP("ENUM", possible_values=[0, 2]), NP("ENUM", possible_values=[5])],
    "QUANTILE": [
        NP("QUANTILE", quantiles=[-1.0, 0.0, 2.0, 10.0]),
        NP("QUANTILE", quantiles=[0.0, 4.0]),
        NP("QUANTILE", quantiles=[-2.0, -1.0, 1.0, 2.0, 3.0, 5.0]),
    ],
    "CONTINUOUS_ACTION": [NP("CONTINUOUS_ACTION", min_value=-2.0, max_value=6.0), NP("CONTINUOUS_ACTION", min_value=0.0, max_value=0.5)],
    "DISCRETE_ACTION": [NP("DISCRETE_ACTION")],
    "DO_NOT_PREPROCESS": [NP("DO_NOT_PREPROCESS")],
    "CLIP_LOG": [NP("CLIP_LOG")],
}
VALUES = {
    "BINARY": [0.0, 1.0, -1.0, 0.25, 7.0],
    "PROBABILITY": [0.0, 0.005, 0.01, 0.25, 0.5, 0.9, 0.995, 1.0],
    "CONTINUOUS": [0.0, 1.5, -3.0, 3.5, 100.0, -100.0],
    "BOXCOX": [0.0, 1.0, 3.0, -1.5, 50.0, -1337.1337],
    "ENUM": [3.0, 1.0, 7.0, 0.0, 2.0, 5.0, 9.0],
    "QUANTILE": [-5.0, -1.0, -0.5, 0.0, 1.0, 2.0, 3.0, 4.0, 4.5, 9.0, 10.0, 11.0],
    "CONTINUOUS_ACTION": [-3.0, -2.0, 0.0, 0.25, 0.5, 2.0, 6.0, 8.0],
    "DISCRETE_ACTION": [0.0, 1.0, 5.0],
    "DO_NOT_PREPROCESS": [0.0, -2.5, 1e6, 12.0],
    "CLIP_LOG": [1.0, 0.5, 0.0, -4.0, 20.0, 1e5],
}


def ids(n, kind):
    if kind == "up":
        return [10 + 3 * i for i in range(n)]
    if kind == "down":
        return [100 - 7 * i for i in range(n)]
    return [(37 * (i + 1)) % 101 for i in range(n)]


def build(params, mode, traced):
    pp = Preprocessor(params, use_gpu=False)
    if mode == "eval":
        pp.eval()
    if traced:
        pp.eval()
        pp = torch.jit.trace(pp, pp.input_prototype())
    return pp


def check_rows(params, pp, rows, presence_dtype=torch.uint8):
    """rows: list of (values dict, presence dict)"""
    order = prep_ref.order_features(params)
    x = torch.tensor([[v[f] for f in order] for v, _ in rows], dtype=torch.float32)
    pr = torch.tensor([[int(p[f]) for f in order] for _, p in rows]).to(presence_dtype)
    x0, p0 = x.clone(), pr.clone()
    out = pp(x, pr)
    expect(torch.equal(x, x0) and torch.equal(pr, p0), "the inputs were modified")
    want = [prep_ref.row(params, v, p) for v, p in rows]
    same(list(out.shape), [len(rows), len(want[0])], "output shape")
    out = out.tolist()
    for r, (g, w) in enumerate(zip(out, want)):
        close(g, w, "row %s" % (rows[r],), rtol=2e-4, atol=2e-5)
    return out


def layout(params):
    order = prep_ref.order_features(params)
    same(sort_features_by_normalization(params)[0], order, "column order")
    widths = [len(params[f].possible_values) if params[f].feature_type == "ENUM" else 1 for f in order]
    same(get_num_output_features(params), sum(widths), "number of outputs")
    same(get_feature_start_indices(order, params), [sum(widths[:i]) for i in range(len(order))], "start indices")


def single(ctx):
    """one feature of every kind: all values, present and missing"""
    for t, specs in SPECS.items():
        for si, p in enumerate(specs):
            for mode in ("train", "eval", "traced"):
                def one(p=p, t=t, mode=mode):
                    params = {5: p}
                    layout(params)
                    pp = build(params, mode, mode == "traced")
                    rows = [({5: v}, {5: pr}) for v in VALUES[t] for pr in (True, False)]
                    full = check_rows(params, pp, rows)
                    if t == "CONTINUOUS_ACTION":
                        for r, o in zip(rows, full):
                            expect(abs(o[0]) < 1, "action %s is mapped to %s, not strictly inside (-1, 1)", r[0], o[0])
                    for i, r in enumerate(rows):
                        alone = check_rows(params, pp, [r])
                        close(alone[0], full[i], "row alone vs in a batch", rtol=1e-6, atol=1e-7)
                    ctx.step(len(rows))
                    ctx.outcome((t, full))
                ctx.state((t, si, mode))
                ctx.run((t, si, mode), one)


def subset_group(name, types_list, idkinds, modes):
    def go(ctx):
        for types in types_list:
            for idk in idkinds:
                feats = ids(len(types), idk)
                counter = {}
                params = {}
                for f, t in zip(feats, types):
                    k = counter.get(t, 0)
                    counter[t] = k + 1
                    params[f] = SPECS[t][k % len(SPECS[t])]
                for mode in modes:
                    def one(params=params, mode=mode, feats=feats, types=types):
                        layout(params)
                        pp = build(params, mode, mode == "traced")
                        n = max(len(VALUES[t]) for t in types)
                        rows = []
                        for shift in range(n):
                            v = {f: VALUES[t][(shift + j) % len(VALUES[t])] for j, (f, t) in enumerate(zip(feats, types))}
                            # everything present, one missing, only one present, nothing
                            rows.append((v, {f: True for f in feats}))
                            m = feats[shift % len(feats)]
                            rows.append((v, {f: f != m for f in feats}))
                            rows.append((v, {f: f == m for f in feats}))
                            rows.append((v, {f: False for f in feats}))
                        full = check_rows(params, pp, rows)
                        rev = check_rows(params, pp, rows[::-1])
                        close(rev[::-1], full, "rows depend on the order of the batch", rtol=1e-6, atol=1e-7)
                        ctx.step(len(rows))
                    ctx.state((tuple(types), idk, mode))
                    ctx.run((",".join(t[:4] + t[-3:] for t in types), idk, mode), one)

    return (name, go)


def pair_group(ctx):
    """two features of every pair of kinds, the full cross product of their values and presences"""
    T = list(SPECS)
    for a, b in itertools.combinations_with_replacement(T, 2):
        for swap in (False, True):
            fa, fb = (40, 7) if swap else (7, 40)
            params = {fa: SPECS[a][0], fb: SPECS[b][-1]}

            def one(params=params, a=a, b=b, fa=fa, fb=fb):
                pp = build(params, "eval", False)
                rows = [
                    ({fa: x, fb: y}, {fa: px, fb: py})
                    for x in VALUES[a] for y in VALUES[b] for px in (True, False) for py in (True, False)
                ]
                out = check_rows(params, pp, rows)
                for dt in (torch.bool, torch.float32):
                    check_rows(params, pp, rows[:20], dt)
                ctx.step(len(rows))
                ctx.outcome((a, b, out[:3]))
            ctx.state((a, b, swap))
            ctx.run((a, b, swap), one)


MISSING = [float("nan"), float("inf"), -float("inf"), 3e38, -3e38, -1337.1337]


def missing(ctx):
    """whatever stands in the place of a missing value, alone and next to another feature"""
    for t, specs in SPECS.items():
        for si, p in enumerate(specs):
            for u in [None] + list(SPECS):
                for mode in ("train", "eval", "traced"):
                    def one(p=p, t=t, u=u, mode=mode):
                        params = {5: p} if u is None else {5: p, 3: SPECS[u][0]}
                        pp = build(params, mode, mode == "traced")
                        v0, pres = {5: VALUES[t][0]}, {5: False}
                        if u is not None:
                            v0[3], pres[3] = VALUES[u][1], True
                        plain = check_rows(params, pp, [(v0, pres)])[0]
                        rows = [{**v0, 5: x} for x in MISSING] + [v0]
                        order = prep_ref.order_features(params)
                        for rs in [rows] + [[r] for r in rows]:
                            out = pp(torch.tensor([[r[f] for f in order] for r in rs]), torch.tensor([[int(pres[f]) for f in order] for _ in rs]).byte())
                            for r, o in zip(rs, out.tolist()):
                                close(o, plain, "feature missing, in its place: %s" % r[5], rtol=1e-6, atol=1e-7)
                        ctx.step(len(rows))
                    ctx.state((t, si, u, mode))
                    ctx.run((t, si, u or "alone", mode), one)


def groups(tier):
    q = tier == "quick"
    T = list(SPECS)
    subs = [c for k in range(2, len(T) + 1) for c in itertools.combinations(T, k)]
    parts = [subs[i::6] for i in range(6)]
    gs = [("single", single), ("pairs", pair_group), ("missing", missing)]
    for i, part in enumerate(parts):
        gs.append(subset_group("subsets%d" % i, part, ("mix",) if q else ("up", "down", "mix"), ("eval",) if q else ("eval", "train", "traced")))
    # repeated kinds: up to three features of a kind next to others
    reps = []
    for t in T:
        for k in (2, 3):
            for u in T:
                reps.append([u] + [t] * k)
                reps.append([t, u, t] + ([t] if k == 3 else []))
    gs.append(subset_group("repeats", reps, ("up", "down"), ("eval",) if q else ("eval", "train", "traced")))
    gs.append(subset_group("traced", [T, T + T, T[::-1], T + T + T], ("up", "down", "mix"), ("eval", "train", "traced")))
    return gs

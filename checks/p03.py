"""P03: sparse rows to dense tensors, the transform library and the batch preprocessors."""
import itertools
import pickle

import numpy as np
import torch

from mc import prep_ref
from mc.core import close, expect, raises, same

import reagent.types as rlt
from reagent.parameters import NormalizationData, NormalizationParameters as NP
from reagent.preprocessing import transforms as T
from reagent.preprocessing.batch_preprocessor import (
    DiscreteDqnBatchPreprocessor,
    ParametricDqnBatchPreprocessor,
    PolicyNetworkBatchPreprocessor,
)
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.preprocessing.sparse_preprocessor import make_sparse_preprocessor
from reagent.preprocessing.sparse_to_dense import (
    PythonSparseToDenseProcessor,
    StringKeySparseToDenseProcessor,
)

LEVEL = "model_checking"
RULE = (
    "all batches of up to 3 sparse rows over every subset of features and several value assignments and feature orders; "
    "every small batch/presence/offset pattern of each transform, alone and in compositions; all combinations of action, "
    "next action and masks of up to 2-row batches for the batch preprocessors; compared with per-row scalar references"
)
ASSUMPTIONS = [
    "feature values equal to the missing-value sentinel are outside the input domain",
    "ids not present in a sparse feature's id mapping are outside the input domain (documented TODO)",
]
MISSING = -1337.1337
PARAMS = {
    3: NP("CONTINUOUS", mean=1.0, stddev=2.0),
    1: NP("BINARY"),
    2: NP("ENUM", possible_values=[4, 7]),
}


# -- sparse to dense ---------------------------------------------------------
def sparse_group(cls, keyf):
    def fn(ctx):
        # every value but the sentinel itself counts as present, however close, large or small it is
        f32 = np.float32
        near = [np.nextafter(f32(MISSING), f32(0)), np.nextafter(f32(MISSING), f32(-9e9)), -1337.0, -1337.13, 1337.1337, 0.0, -0.0, 1e-40, 3e38, -3e38]

        def extreme(vs):
            p = cls([5, 1])
            v, pres = p([{keyf(5): float(x)} if i % 2 == 0 else {keyf(1): float(x)} for i, x in enumerate(vs)])
            for i, x in enumerate(vs):
                a, b = (0, 1) if i % 2 == 0 else (1, 0)
                same((float(v[i, a]), bool(pres[i, a])), (float(f32(x)), True), "given value")
                same((float(v[i, b]), bool(pres[i, b])), (float(f32(MISSING)), False), "missing value")
            ctx.step()

        for vs in itertools.permutations(near, 2):
            ctx.run(("near", vs), extreme, vs)

        feats = [5, 1, 9]
        vals = {5: [0.0, -2.5, 3e7], 1: [1.0, 0.0, -1.0], 9: [7.0, 4.0, 0.5]}
        rowspecs = [s for r in range(5) for s in itertools.combinations([5, 1, 9, 12], r)]
        for n in (1, 2, 3):
            for specs in itertools.product(rowspecs, repeat=n):
                if n == 3 and (len(set(specs)) < 2 or sum(map(len, specs)) % 3):
                    continue
                for order in ([5, 1, 9], [9, 5, 1]) if n < 3 else ([1, 9, 5],):
                    for zero in (False, True):
                        for rot in range(2 if n < 3 else 1):
                            def case():
                                rows = []
                                for i, s in enumerate(specs):
                                    # insertion order of the row's keys must not matter
                                    ks = s if rot == 0 else tuple(reversed(s))
                                    rows.append({keyf(f): (vals[f][(i + rot) % 3] if f in vals else 99.0) for f in ks})
                                keep = [dict(r) for r in rows]
                                p = cls(order, set_missing_value_to_zero=zero)
                                for again in range(2):
                                    v, pres = p(rows)
                                    same(list(v.shape), [n, 3], "shape")
                                    want = [[float(np.float32(r.get(keyf(f), 0.0 if zero else MISSING))) for f in order] for r in keep]
                                    same(v, want, "values")
                                    wantp = [[True if zero else keyf(f) in r for f in order] for r in keep]
                                    same(pres, wantp, "presence")
                                    expect(pres.dtype == torch.bool and v.dtype == torch.float32, "dtypes")
                                expect(rows == keep, "the input rows were modified")
                                ctx.outcome(v)
                            ctx.state((specs, tuple(order), zero, rot))
                            ctx.step(2)
                            ctx.run((n, specs, order, zero, rot), case)
    return fn


# -- sparse id features -------------------------------------------------------
def offsets_of(lens):
    return torch.tensor([0] + list(itertools.accumulate(lens))[:-1], dtype=torch.long)


def idlist(ctx):
    maps = {"a": [100, 7, 55], "b": [3, 100]}
    cfgs = [("f_a", 10, "a"), ("g_b", 11, "b"), ("h_a", 12, "a")]
    for ncfg in (1, 2, 3):
        for nscore in range(ncfg + 1):
            chosen = cfgs[:ncfg]
            lists, scores = chosen[nscore:], chosen[:nscore]
            fc = rlt.ModelFeatureConfig(
                float_feature_infos=[],
                id_mapping_config={k: rlt.IdMapping(ids=v) for k, v in maps.items()},
                id_list_feature_configs=[rlt.IdListFeatureConfig(name=n, feature_id=i, id_mapping_name=m) for n, i, m in lists],
                id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name=n, feature_id=i, id_mapping_name=m) for n, i, m in scores],
            )
            for lens in itertools.product(range(3), repeat=2):
                for extra in (False, True):
                    for via in ("scripted", "transform", "absent"):
                        def case():
                            n = sum(lens)
                            raw_l, raw_s = {}, {}
                            for nm, i, m in chosen:
                                ids = torch.tensor([maps[m][(j + i) % len(maps[m])] for j in range(n)], dtype=torch.long)
                                if (nm, i, m) in lists:
                                    raw_l[i] = (offsets_of(lens), ids)
                                else:
                                    raw_s[i] = (offsets_of(lens), ids, torch.arange(n).float() + i)
                            if extra:  # unknown feature: filtered out
                                raw_l[77] = (offsets_of(lens), torch.full((n,), 424242))
                                raw_s[78] = (offsets_of(lens), torch.full((n,), 424242), torch.zeros(n))
                            if via == "scripted":
                                sp = make_sparse_preprocessor(fc, torch.device("cpu"))
                                out_l = sp.preprocess_id_list(raw_l) if raw_l else {}
                                out_s = sp.preprocess_id_score_list(raw_s) if raw_s else {}
                            else:
                                t = T.MapIDListFeatures(["L"], ["S"], fc, torch.device("cpu"))
                                data = {"other": 1}
                                if via == "transform":
                                    data.update(L=raw_l, S=raw_s)
                                if via == "transform" and not (raw_l and raw_s):
                                    return
                                data = t(data)
                                same(sorted(data), ["L", "S", "other"], "keys")
                                if via == "absent":
                                    expect(data["L"] is None and data["S"] is None, "absent sparse features become None")
                                    return
                                out_l, out_s = data["L"], data["S"]
                            same(sorted(out_l), sorted(nm for nm, _, _ in lists), "id list names")
                            same(sorted(out_s), sorted(nm for nm, _, _ in scores), "id score list names")
                            for nm, i, m in chosen:
                                o = (out_l if (nm, i, m) in lists else out_s)[nm]
                                same(o[0], offsets_of(lens), "offsets")
                                same(o[1], [(j + i) % len(maps[m]) for j in range(n)], "embedding indices")
                                if (nm, i, m) in scores:
                                    same(o[2], [float(j + i) for j in range(n)], "weights")
                            ctx.outcome((out_l, out_s))
                        ctx.state((ncfg, nscore, lens, extra, via))
                        ctx.step()
                        ctx.run((ncfg, nscore, lens, extra, via), case)
    # no sparse features configured: replaced by None
    def none_case():
        fc = rlt.ModelFeatureConfig(float_feature_infos=[])
        t = T.MapIDListFeatures(["L"], ["S"], fc, torch.device("cpu"))
        same(t({"L": {1: (offsets_of([1]), torch.tensor([1]))}}), {"L": None, "S": None}, "no sparse config")
    ctx.run("no-config", none_case)
    def overlap():
        raises(lambda: T.MapIDListFeatures(["L"], ["L"], rlt.ModelFeatureConfig(float_feature_infos=[]), torch.device("cpu")))
    ctx.run("overlapping-keys", overlap)


# -- transforms --------------------------------------------------------------
def tensors(n, d, k=0):
    return torch.tensor([[0.5 * ((i * d + j + k) % 5) - 1 for j in range(d)] for i in range(n)]).reshape(n, d)


def pick_raw(n, k):
    """rows of raw values of features in the preprocessor's order, and all presence patterns"""
    grid = {1: [0.0, 1.0, 3.0], 2: [4.0, 7.0, 5.0], 3: [1.0, -30.0, 2.5]}
    order = prep_ref.order_features(PARAMS)
    return torch.tensor([[grid[f][(i + k + f) % 3] for f in order] for i in range(n)])


def norm_rows(v, p):
    order = prep_ref.order_features(PARAMS)
    out = []
    for row, pr in zip(v.tolist(), p.tolist()):
        o = []
        for f, x, b in zip(order, row, pr):
            o += prep_ref.one(PARAMS[f], x, b)
        out.append(o)
    return out


def presences(n):
    for bits in itertools.product([False, True], repeat=n * 3):
        yield torch.tensor(bits).reshape(n, 3)


def transforms_basic(ctx):
    # value/presence pairing: every subset of keys having a presence, nothing else touched
    names = ["x", "y", "x_z"]
    for sub in itertools.product([0, 1, 2], repeat=3):
        def case():
            data = {"keep": "v"}
            want = {"keep": "v"}
            for nm, s in zip(names, sub):
                if s >= 1:
                    data[nm] = nm + "V"
                    want[nm] = nm + "V"
                if s == 2:
                    data[nm + "_presence"] = nm + "P"
                    want[nm] = (nm + "V", nm + "P")
            same(T.ValuePresence()(data), want, "value/presence")
        ctx.state(("vp", sub)); ctx.step()
        ctx.run(("value-presence",) + sub, case)
    # Lambda / Compose order
    fns = [lambda x: x + 1, lambda x: x * 2, lambda x: x - 3]
    for n in range(4):
        for seq in itertools.product(range(3), repeat=n):
            for keys in (["a"], ["a", "b"], []):
                def case():
                    data = {"a": 5, "b": 7}
                    want = dict(data)
                    for i in seq:
                        for k in keys:
                            want[k] = fns[i](want[k])
                    same(T.Compose(*[T.Lambda(keys, fns[i]) for i in seq])(data), want, "composition")
                ctx.state(("compose", seq, len(keys))); ctx.step(n)
                ctx.run(("compose", seq, len(keys)), case)
    # one-hot
    for na in (1, 2, 3, 4):
        for n in (1, 2):
            for acts in itertools.product(range(na + 1), repeat=n):
                for two in (False, True):
                    def case():
                        x = torch.tensor(acts)
                        data = {"a": x.reshape(n, 1) if two else x, "z": 1}
                        out = T.OneHotActions(["a"], na)(data)
                        want = [[1 if a == j else 0 for j in range(na)] for a in acts]
                        same(out["a"], [[w] for w in want] if two else want, "one-hot")
                        same(out["z"], 1, "other keys")
                    ctx.state(("onehot", na, acts, two)); ctx.step()
                    ctx.run(("one-hot", na, acts, two), case)
        ctx.run(("one-hot-bad", na), lambda: (
            raises(lambda: T.OneHotActions(["a"], na)({"a": torch.tensor([na + 1])}), "action out of range"),
            raises(lambda: T.OneHotActions(["a"], na)({"a": torch.tensor([-1])}), "negative action")))
    # column vector
    for n in (1, 2, 3):
        for kind in ("list", "tensor1", "tensor2", "pair1", "pair2", "strings", "bad2", "bad3"):
            def case():
                v = torch.arange(n).float() * 2 - 1
                src = {
                    "list": v.tolist(), "tensor1": v, "tensor2": v.reshape(n, 1), "pair1": (v, v > 0),
                    "pair2": (v.reshape(n, 1), v.reshape(n, 1) > 0), "strings": ["m%d" % i for i in range(n)],
                    "bad2": torch.zeros(n, 2), "bad3": torch.zeros(n, 1, 1),
                }[kind]
                if kind.startswith("bad"):
                    raises(lambda: T.ColumnVector(["a"])({"a": src}), "not a column")
                    return
                out = T.ColumnVector(["a"])({"a": src, "b": 3})
                same(tuple(out["a"].shape), (n, 1), "shape")
                want = [["m%d" % i] for i in range(n)] if kind == "strings" else [[x] for x in v.tolist()]
                same(out["a"], want, "column")
                same(out["b"], 3, "other keys")
            ctx.state(("col", n, kind)); ctx.step()
            ctx.run(("column", n, kind), case)
    # mask by presence
    for n in (1, 2):
        for p in presences(n):
            def case():
                v = tensors(n, 3, 1)
                out = T.MaskByPresence(["a", "b"])({"a": (v, p), "b": (-v, ~p)})
                same(out["a"], [[x if b else 0.0 * x for x, b in zip(r, q)] for r, q in zip(v.tolist(), p.tolist())], "masked")
                same(out["b"], [[-x if not b else -0.0 * x for x, b in zip(r, q)] for r, q in zip(v.tolist(), p.tolist())], "masked 2")
            ctx.state(("mask", tuple(p.flatten().tolist()))); ctx.step()
            ctx.run(("mask-by-presence", tuple(map(int, p.flatten().tolist()))), case)
    def bad_mask():
        raises(lambda: T.MaskByPresence(["a"])({"a": torch.zeros(2, 2)}), "no presence")
        raises(lambda: T.MaskByPresence(["a"])({"a": (torch.zeros(2, 2), torch.zeros(2, 1))}), "shape mismatch")
    ctx.run("mask-bad", bad_mask)
    # stack dense fixed size
    for size in (1, 2, 3):
        for n in (1, 2, 3):
            for kind in ("tensor", "list", "bad"):
                for dt in (torch.float, torch.long):
                    def case():
                        v = (tensors(n, size) * 4).round()
                        t = T.StackDenseFixedSizeArray(["a"], size, dtype=dt)
                        if kind == "bad":
                            raises(lambda: t({"a": torch.zeros(n, size + 1)}), "wrong width")
                            return
                        src = v if kind == "tensor" else [(r.clone(), torch.ones(size)) for r in v]
                        out = t({"a": src})["a"]
                        expect(out.dtype == dt, "dtype")
                        same([[float(x) for x in r] for r in out.tolist()], v, "stacked")
                    ctx.state(("stack", size, n, kind, str(dt))); ctx.step()
                    ctx.run(("stack", size, n, kind, str(dt)), case)


def dense_norm(ctx):
    nd = NormalizationData(dense_normalization_parameters=PARAMS)
    for n in (1, 2):
        for p in presences(n):
            for k in range(2):
                for pick in (False, True):
                    def case():
                        v = pick_raw(n, k)
                        t = T.DenseNormalization(["s", "t"], nd)
                        if pick:
                            t = pickle.loads(pickle.dumps(t))
                        q = p.flip(0)
                        for again in range(2):
                            out = t({"s": (v, p), "t": (v.clone(), q), "k": 1})
                            close(out["s"], norm_rows(v, p), "normalized", rtol=1e-4)
                            close(out["t"], norm_rows(v, q), "normalized second key", rtol=1e-4)
                            same(out["k"], 1, "other key")
                        same(v, pick_raw(n, k), "input values")
                        ctx.outcome(out["s"])
                    ctx.state((n, k, tuple(p.flatten().tolist()))); ctx.step(2)
                    ctx.run((n, k, pick, tuple(map(int, p.flatten().tolist()))), case)


def sequences(ctx):
    # fixed-length sequences: every length and batch size; uneven offsets must be refused
    for n in (1, 2, 3):
        for L in (1, 2, 3):
            for given in (None, L, L + 1):
                for to in (None, ["out"]):
                    def case():
                        v = tensors(n * L, 2)
                        pres = torch.ones(n * L, 2, dtype=torch.bool)
                        off = torch.arange(0, n * L, L)
                        t = T.FixedLengthSequences(["a"], 8, expected_length=given, to_keys=to)
                        if given == L + 1 and n > 1:
                            raises(lambda: t({"a": {8: (off, (v, pres))}}), "length differs from the expected one")
                            return
                        out = t({"a": {8: (off, (v, pres)), 9: (off, "x")}})
                        dst = "out" if to else "a"
                        same(out[dst][0], v, "values")
                        same(out[dst][1], pres, "presence")
                        if to:
                            same(sorted(out["a"]), [8, 9], "source key kept")
                        # same transform on a second batch of the same sequence length
                        if given != L + 1:
                            v2 = tensors(2 * L, 2, 3)
                            out = t({"a": {8: (torch.arange(0, 2 * L, L), (v2, v2 > 0))}})
                            same(out[dst][0], v2, "second batch")
                    ctx.state(("fls", n, L, given, bool(to))); ctx.step(2)
                    ctx.run(("fixed", n, L, given, bool(to)), case)
    for off in itertools.product(range(5), repeat=3):
        def case():
            v = torch.zeros(6, 1)
            t = T.FixedLengthSequences(["a"], 1)
            call = lambda: t({"a": {1: (torch.tensor(off), (v, v))}})
            ok = off[0] == 0 and off[2] - off[1] == off[1] - off[0] and off[1] > 0
            if ok:
                call()
            else:
                raises(call, "uneven offsets %s" % (off,))
        ctx.state(("off", off)); ctx.step()
        ctx.run(("offsets",) + off, case)
    for n in (1, 2, 3):
        for S in (1, 2, 3):
            for d in (1, 2):
                def case():
                    v = torch.arange(n * S * d).float().reshape(n * S, d)
                    out = T.SlateView(["a"], S)({"a": v})["a"]
                    same(out, [[[float((i * S + j) * d + c) for c in range(d)] for j in range(S)] for i in range(n)], "slate")
                ctx.state(("slate", n, S, d)); ctx.step()
                ctx.run(("slate", n, S, d), case)
    nd = NormalizationData(dense_normalization_parameters=PARAMS)
    for n in (1, 2):
        for S in (1, 2):
            for given in (None, S):
                for p in presences(n * S) if n * S <= 2 else [torch.tensor([[1, 1, 1], [0, 1, 0], [1, 0, 1], [1, 1, 0]]).bool()]:
                    def case():
                        v = pick_raw(n * S, 1)
                        t = T.FixedLengthSequenceDenseNormalization(["c"], 4, nd, expected_length=given)
                        for nn in (n, 3 - n):
                            vv = pick_raw(nn * S, 1)
                            pp = p if nn == n else torch.ones(nn * S, 3, dtype=torch.bool)
                            out = t({"c": {4: (torch.arange(0, nn * S, S), (vv, pp))}, "k": 0})
                            rows = norm_rows(vv, pp)
                            close(out["c:4"], [[rows[i * S + j] for j in range(S)] for i in range(nn)], "normalized slate")
                    ctx.state(("fls-norm", n, S, given, tuple(p.flatten().tolist()))); ctx.step(2)
                    ctx.run(("slate-norm", n, S, given, tuple(map(int, p.flatten().tolist()))), case)


# -- batch preprocessors -----------------------------------------------------
SP = {3: NP("CONTINUOUS", mean=1.0, stddev=2.0), 1: NP("BINARY")}
AP = {6: NP("CONTINUOUS_ACTION", min_value=-2.0, max_value=4.0), 2: NP("CONTINUOUS", mean=0.0, stddev=4.0)}


def norm_with(params, v, p):
    order = prep_ref.order_features(params)
    return [sum((prep_ref.one(params[f], x, b) for f, x, b in zip(order, r, q)), []) for r, q in zip(v.tolist(), p.tolist())]


def base_batch(n, k):
    s = torch.tensor([[1.0, 5.0], [0.0, -3.0], [1.0, 2.0]])[[(i + k) % 3 for i in range(n)]]
    ns = torch.tensor([[0.0, 0.5], [1.0, 7.0], [0.0, -4.0]])[[(i + 2 * k) % 3 for i in range(n)]]
    return dict(
        state_features=s, next_state_features=ns,
        state_features_presence=torch.tensor([[True, True], [False, True], [True, False]])[[(i + k) % 3 for i in range(n)]],
        next_state_features_presence=torch.tensor([[True, False], [True, True], [False, True]])[[(i + k) % 3 for i in range(n)]],
        reward=torch.arange(n).float() * 0.5 - 1, time_diff=torch.arange(n).float() + 2, step=torch.arange(n) + 5,
        mdp_id=torch.arange(n) + 70, sequence_number=torch.arange(n) + 30, action_probability=torch.arange(n).float() / 8 + 0.25,
    )


def check_common(out, b, n):
    close(out.state.float_features, norm_with(SP, b["state_features"], b["state_features_presence"]), "state")
    close(out.next_state.float_features, norm_with(SP, b["next_state_features"], b["next_state_features_presence"]), "next state")
    for name in ("reward", "time_diff", "step"):
        same(getattr(out, name), [[x] for x in b[name].tolist()], name)
    for name in ("mdp_id", "sequence_number", "action_probability"):
        same(getattr(out.extras, name), [[x] for x in b[name].tolist()], name)


def discrete_batch(ctx):
    for na in (2, 3):
        for n in (1, 2):
            masks = list(itertools.product([0, 1], repeat=na))
            if n == 2 and na == 3:
                masks = masks[::3] + [masks[-1]]
            for acts in itertools.product(range(na), repeat=n):
                for nxt in itertools.product(range(na + 1), repeat=n):
                    for ms in itertools.product(masks, repeat=n):
                        def case():
                            b = base_batch(n, sum(acts))
                            b.update(
                                action=torch.tensor(acts), next_action=torch.tensor(nxt),
                                possible_next_actions_mask=torch.tensor(ms),
                                possible_actions_mask=torch.tensor([[1 - x for x in m] for m in ms]),
                            )
                            keep = {k: v.clone() for k, v in b.items()}
                            out = DiscreteDqnBatchPreprocessor(na, Preprocessor(SP, use_gpu=False), False)(b)
                            check_common(out, keep, n)
                            same(out.action, [[1 if a == j else 0 for j in range(na)] for a in acts], "action")
                            same(out.next_action, [[1 if a == j else 0 for j in range(na)] for a in nxt], "next action")
                            same(out.not_terminal, [[1.0 if any(m) else 0.0] for m in ms], "not terminal")
                            same(out.possible_actions_mask, keep["possible_actions_mask"], "possible actions")
                            same(out.possible_next_actions_mask, ms, "possible next actions")
                            for k in keep:
                                same(b[k], keep[k], "input " + k)
                            ctx.outcome((out.action, out.next_action, out.not_terminal))
                        ctx.state((na, acts, nxt, ms)); ctx.step()
                        ctx.run((na, acts, nxt, ms), case)


def continuous_batch(ctx):
    acts = torch.tensor([[-8.0, -2.0], [0.0, 1.0], [4.0, 4.0], [50.0, 9.0]])
    pres = list(itertools.product([False, True], repeat=2))
    for cls in (ParametricDqnBatchPreprocessor, PolicyNetworkBatchPreprocessor):
        for n in (1, 2):
            for ai in itertools.product(range(4), repeat=n):
                for pi in itertools.product(range(4), repeat=n):
                    for term in itertools.product([0, 1], repeat=n):
                        def case():
                            b = base_batch(n, sum(ai))
                            a, p = acts[list(ai)], torch.tensor([pres[i] for i in pi])
                            b.update(
                                action=a, action_presence=p, next_action=-a, next_action_presence=~p,
                                not_terminal=torch.tensor(term), possible_actions=torch.arange(n * 4).float(),
                                possible_actions_mask=torch.arange(n * 2).reshape(n, 2) % 2,
                                possible_next_actions=-torch.arange(n * 4).float(),
                                possible_next_actions_mask=1 - torch.arange(n * 2).reshape(n, 2) % 2,
                            )
                            keep = {k: v.clone() for k, v in b.items()}
                            out = cls(Preprocessor(SP, use_gpu=False), Preprocessor(AP, use_gpu=False), False)(b)
                            check_common(out, keep, n)
                            close(out.action.float_features, norm_with(AP, a, p), "action")
                            close(out.next_action.float_features, norm_with(AP, -a, ~p), "next action")
                            same(out.not_terminal, [[t] for t in term], "not terminal")
                            if cls is ParametricDqnBatchPreprocessor:
                                for k in ("possible_actions", "possible_actions_mask", "possible_next_actions", "possible_next_actions_mask"):
                                    v = getattr(out, k)
                                    v = v.float_features if hasattr(v, "float_features") else v
                                    same(v, keep[k], k)
                            ctx.outcome(out.action.float_features)
                        ctx.state((cls.__name__, ai, pi, term)); ctx.step()
                        ctx.run((cls.__name__, ai, pi, term), case)


def groups(tier):
    return [
        ("string-keys", sparse_group(StringKeySparseToDenseProcessor, str)),
        ("int-keys", sparse_group(PythonSparseToDenseProcessor, int)),
        ("id-lists", idlist),
        ("transforms", transforms_basic),
        ("dense-normalization", dense_norm),
        ("sequences", sequences),
        ("discrete-batch", discrete_batch),
        ("continuous-batch", continuous_batch),
    ]

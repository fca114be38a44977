"""W01: training tables are read, split and preprocessed without loss."""
import functools
import itertools
import math
import pickle
import zlib

from mc import prep_ref, sparkstub

sparkstub.install()

import torch

import reagent.workflow.data.manual_data_module as mdm
import reagent.workflow.data_fetcher as fetcher
import reagent.workflow.identify_types_flow as flow
import reagent.workflow.spark_utils as spark_utils
import reagent.workflow.training as training
import reagent.workflow.utils as wutils
from mc.core import close, expect, raises, same
from reagent.parameters import EvaluationParameters, NormalizationParameters, RLParameters
from reagent.preprocessing.normalization import get_feature_norm_metadata
from reagent.workflow.types import Dataset, PreprocessingOptions, ReaderOptions, RewardOptions, TableSpec

LEVEL = "exploration"
RULE = (
    "tables: all one-row tables over small alphabets of sparse maps, actions, action sets, rewards and step counts, all ordered two-row tables "
    "over a reduced row alphabet, single- and multi-step, discrete and parametric, run through the real query code in a row-at-a-time stand-in "
    "of the query engine; splits: every split percentage with episodes whose hashes lie on and next to every boundary; data modules and "
    "managers: every assignment of normalisation types to features, feature subset and batch size, every batch compared row by row with a "
    "reference computed from the sparse table; a case is non-trivial when its table has rows"
)
ASSUMPTIONS = [
    "the query engine is a row-at-a-time stand-in for the operations used; the reader yields the rows of a table once per epoch, in order",
    "tables have the layout written by the timeline operator; multi-step rows hold between one and multi_steps elements",
    "sampling for normalisation keeps all rows when as many rows as exist are requested",
]

ACTIONS = ["L", "R", "U"]


def crc(s):
    return zlib.crc32(s.encode()) & 0xFFFFFFFF


# -- query_data against a row-by-row reference ---------------------------------------------------
def mk(state=None, nxt=None, metrics=None, action="L", next_action="R", poss=("L", "R"), poss_next=("R",), reward=1.0, mdp="0", seq=1, td=1, prob=0.5, **kw):
    r = dict(mdp_id=mdp, sequence_number=seq * 10, sequence_number_ordinal=seq, state_features=dict(state or {}), action=action, action_probability=prob, reward=reward,
             next_state_features=nxt if nxt is not None else {}, next_action=next_action, time_diff=td, metrics=metrics if metrics is not None else {"reward": 1.0},
             possible_actions=list(poss), possible_next_actions=list(poss_next) if isinstance(poss_next, tuple) else poss_next, ds="2019-01-01")
    r.update(kw)
    return r


def dense(m, keys):
    p = [m.get(k) is not None for k in keys]
    return p, [float(m[k]) if q else 0.0 for k, q in zip(keys, p)]


def reference(rows, discrete, actions, n, gamma=None, reward=None, whitelist=None):
    def nth(v):
        return v if n is None else v[min(len(v), n) - 1]

    def keys(c, nested):
        out = set()
        for r in rows:
            for m in r[c] if nested else [r[c]]:
                out |= set(m)
        return out

    multi = n is not None
    states = sorted(keys("state_features", False) | keys("next_state_features", multi))
    metrics = sorted(keys("metrics", multi))
    acts = actions if discrete else sorted(keys("action", False) | keys("next_action", multi))
    out = []
    for r in rows:
        o = {}
        if reward is not None:
            o["reward"] = reward(r)
        elif multi:
            o["reward"] = sum(gamma ** i * x for i, x in enumerate(r["reward"]))
        else:
            o["reward"] = r["reward"]
        for c, v, ks in (("state_features", r["state_features"], states), ("next_state_features", nth(r["next_state_features"]), states), ("metrics", nth(r["metrics"]), metrics)):
            o[c + "_presence"], o[c] = dense(v, ks)
        o["action_probability"] = r["action_probability"]
        o["mdp_id"] = crc(r["mdp_id"])
        o["sequence_number"] = r["sequence_number_ordinal"]
        o["step"] = 1 if n is None else min(len(r["next_state_features"]), n)
        o["time_diff"] = nth(r["time_diff"])
        na = nth(r["next_action"])
        if discrete:
            pos = lambda a: acts.index(a) if a in acts else len(acts)
            o["action"], o["next_action"] = pos(r["action"]), pos(na)
            o["not_terminal"] = na in acts
            o["possible_actions_mask"] = [int(a in r["possible_actions"]) for a in acts]
            o["possible_next_actions_mask"] = [int(a in nth(r["possible_next_actions"])) for a in acts]
        else:
            o["not_terminal"] = len(na) > 0
            o["action_presence"], o["action"] = dense(r["action"], acts)
            o["next_action_presence"], o["next_action"] = dense(na, acts)
        out.append(o)
    return out


FLOATS = ("reward", "state_features", "next_state_features", "metrics", "action_probability")


def check_table(got, want, discrete):
    same(len(got), len(want), "rows of the data set")
    for i, (g, w) in enumerate(zip(got, want)):
        same(sorted(g), sorted(w), "columns of row %d" % i)
        for k in w:
            if k == "reward":
                close(g[k], w[k], "reward of row %d" % i, rtol=1e-6, atol=1e-6)
            else:
                same(g[k], w[k], "%s of row %d" % (k, i))
            if k in FLOATS or (k in ("action", "next_action") and not discrete):
                expect(all(type(x) is float for x in (g[k] if isinstance(g[k], list) else [g[k]])), "%s of row %d is not stored as floats: %r", k, i, g[k])


def query(rows, discrete=True, n=None, gamma=None, expr=None, sample=None, actions=ACTIONS):
    sparkstub.TABLES.clear()
    sparkstub.SAVED.clear()
    sparkstub.TABLES["input"] = sparkstub.DF([dict(r) for r in rows])
    ds = fetcher.query_data(input_table_spec=TableSpec(table_name="input"), discrete_action=discrete, actions=actions if discrete else None, include_possible_actions=discrete,
                            custom_reward_expression=expr, sample_range=sample, multi_steps=n, gamma=gamma)
    same(len(sparkstub.SAVED), 1, "tables written")
    (name, df), = sparkstub.SAVED.items()
    same(ds.parquet_url, "file:///" + name, "location of the data set")
    same(wutils.get_table_row_count(ds.parquet_url), len(df.rows), "row count")
    return df.rows


MAPS = [{}, {0: 1.0}, {5: -2.0}, {0: 3, 12: 0.0}, {12: 0.5, 5: 1.5, 0: -0.0}, {0: None, 5: 2.0}]
METRICS = [{}, {"reward": 1.0}, {"clicks": 0.0, "reward": 2.5}, {"a": 3}]


def one_row(ctx):
    for s, x, m in itertools.product(range(len(MAPS)), range(len(MAPS)), range(len(METRICS))):
        for discrete in (True, False):
            def case():
                a = dict(action="U", next_action="L") if discrete else dict(action={7: 1.0}, next_action={3: 0.5})
                rows = [mk(MAPS[s], MAPS[x], METRICS[m], reward=-1.5, seq=3, td=4, prob=0.25, mdp="e1", **a)]
                check_table(query(rows, discrete), reference(rows, discrete, ACTIONS, None), discrete)

            ctx.state((s, x, m))
            ctx.step()
            ctx.run((s, x, m, discrete), case)


def action_rows(ctx):
    sets = [tuple(a for i, a in enumerate(ACTIONS) if b >> i & 1) for b in range(8)] + [("",), ("U", "L"), ("Z", "R", "R")]
    for acts in (ACTIONS, ["R"], ["U", "L"]):
        for a, na in itertools.product(ACTIONS + ["Z"], ACTIONS + ["", "Z"]):
            def case():
                rows = [mk({0: i}, {0: i + 1}, action=a, next_action=na, poss=p, poss_next=q, seq=i) for i, (p, q) in enumerate(itertools.product(sets, sets))]
                check_table(query(rows, True, actions=acts), reference(rows, True, acts, None), True)

            ctx.state((tuple(acts), a, na))
            ctx.step(len(sets) ** 2)
            ctx.run((acts, a, na), case)
    amaps = [{}, {0: 1.0}, {1: 1}, {0: 0.0, 9: -2.5}]
    for a, na in itertools.product(range(len(amaps)), range(len(amaps))):
        def pcase():
            rows = [mk({1: 2.0}, {1: 2.0}, action=amaps[a], next_action=amaps[na]), mk({1: 3.0}, {1: 2.0}, action=amaps[na], next_action=amaps[a], seq=2)]
            check_table(query(rows, False), reference(rows, False, None, None), False)

        ctx.state(("parametric", a, na))
        ctx.step(2)
        ctx.run(("parametric", a, na), pcase)


def two_rows(ctx):
    alphabet = [
        mk({0: 1.0}, {0: 2.0}, {"reward": 1.0}, "L", "R"),
        mk({3: 1.0}, {}, {}, "R", "", (), ("",), reward=0.0, mdp="1", seq=2),
        mk({}, {0: 2.0, 10: 4.0}, {"z": 1.0}, "U", "U", ("U",), ("U", "L"), reward=-3.0, mdp="1", seq=1, td=2),
        mk({10: 5.0}, {2: 5.0}, {"reward": 1.0, "a": 0.0}, "L", "L", reward=7, mdp="abc", prob=1.0),
        mk({0: 1.0}, {0: 2.0}, {"reward": 1.0}, "L", "R", mdp="é"),
    ]
    exprs = [(None, None), ("POWER(reward, 3) + 10", lambda r: r["reward"] ** 3 + 10), ("reward * 2 - time_diff", lambda r: 2 * r["reward"] - r["time_diff"]), ("NULL", lambda r: 0.0)]
    for idx in [(i,) for i in range(5)] + list(itertools.product(range(5), repeat=2)) + list(itertools.permutations(range(5), 3)):
        for e, (expr, f) in enumerate(exprs):
            for discrete in (True, False):
                def case():
                    rows = [dict(alphabet[i]) for i in idx]
                    if not discrete:
                        for r in rows:
                            r["action"] = {ACTIONS.index(r["action"]): 1.0}
                            r["next_action"] = {ACTIONS.index(r["next_action"]): 1.0} if r["next_action"] else {}
                    check_table(query(rows, discrete, expr=expr), reference(rows, discrete, ACTIONS, None, reward=f), discrete)

                ctx.state((idx, e))
                ctx.step(len(idx))
                ctx.run((idx, e, discrete), case)


def multi_steps(ctx):
    steps = [({0: 1.0}, "L", ("L", "R"), 1, {"reward": 1.0}), ({4: 2.0}, "U", ("U",), 3, {"m": 2.0}), ({0: -1.0, 2: 6.0}, "", ("",), 2, {})]
    for n in (1, 2, 3) if ctx_tier(ctx) == "quick" else (1, 2, 3, 4):
        for gamma in (0.0, 0.5, 0.9, 1.0):
            for length in range(1, n + 1):
                for picks in itertools.product(range(3), repeat=length):
                    def case(discrete):
                        rows = []
                        for k, rs in enumerate(itertools.product((0.0, 1.0, -2.5), repeat=length)):
                            ch = [steps[(p + k) % 3] for p in picks]
                            rows.append(mk({1: float(k)}, [c[0] for c in ch], [c[4] for c in ch], "R" if discrete else {2: 1.0},
                                           [c[1] if discrete else ({ACTIONS.index(c[1]): 1.0} if c[1] else {}) for c in ch],
                                           ("R",), [list(c[2]) for c in ch], reward=list(rs), seq=k, td=[c[3] for c in ch], mdp=str(k % 2)))
                        check_table(query(rows, discrete, n=n, gamma=gamma), reference(rows, discrete, ACTIONS, n, gamma), discrete)

                    for discrete in (True, False):
                        ctx.state((n, gamma, picks))
                        ctx.step(3 ** length)
                        ctx.run((n, gamma, picks, discrete), case, discrete)

    # the last elements count in the next columns even when more are logged
    def longer():
        rows = [mk({1: 1.0}, [{1: 1.0}, {1: 2.0}, {1: 3.0}], [{"m": 1.0}, {"m": 2.0}, {"m": 3.0}], "L", ["L", "R", "U"], ("L",), [["L"], ["R"], ["U"]], reward=[1.0, 2.0], td=[1, 2, 3])]
        check_table(query(rows, True, n=2, gamma=0.5), reference(rows, True, ACTIONS, 2, 0.5), True)

    ctx.run("longer", longer)


def ctx_tier(ctx):
    from mc import core

    return core.TIER


# -- splits ------------------------------------------------------------------------------------------
N = 40


@functools.lru_cache(None)
def basis():
    """crc32 of equally long texts is affine: difference made by toggling the lowest bit of each character"""
    base = "b" * N
    c0 = crc(base)
    rows = []
    for i in range(N):
        s = base[:i] + "c" + base[i + 1:]
        v, mask = crc(s) ^ c0, 1 << i
        for pv, pm in rows:
            if v ^ pv < v:
                v, mask = v ^ pv, mask ^ pm
        if v:
            rows.append((v, mask))
            rows.sort(reverse=True)
    return c0, rows


@functools.lru_cache(None)
def with_hash(h):
    """a text whose crc32 is h"""
    c0, rows = basis()
    v, mask = h ^ c0, 0
    for pv, pm in rows:
        if v ^ pv < v:
            v, mask = v ^ pv, mask ^ pm
    assert v == 0, h
    s = "".join("c" if mask >> i & 1 else "b" for i in range(N))
    assert crc(s) == h
    return s


TOP = 2 ** 32


def boundary(ps):
    hs = {0, 1, TOP - 2, TOP - 1, TOP // 3}
    for p in ps:
        for scale in (TOP, TOP - 1):
            for q in (p, 100.0 - p):
                x = q / 100.0 * scale
                hs |= {h for h in (math.floor(x) - 1, math.floor(x), math.ceil(x), math.ceil(x) + 1) if 0 <= h < TOP}
    return sorted(hs)


def split_rows(hs):
    rows = []
    for h in hs:
        for seq in (1, 2):
            rows.append(mk({0: 1.0}, {0: 1.0}, seq=seq, mdp=with_hash(h)))
    return rows


def members(rows, rng):
    got = query(rows, True, sample=rng)
    count = {}
    for r in got:
        count[r["mdp_id"]] = count.get(r["mdp_id"], 0) + 1
    expect(all(c == 2 for c in count.values()), "episodes are cut: %s", count)
    return set(count)


def splits(ctx):
    every = [float(p) for p in range(0, 101)]
    odd = [0.1, 1 / 3, 12.5, 33.3, 66.7, 99.9, 57.4, 50.0005]
    for src, f in (("training", training.get_sample_range), ("manual_data_module", mdm.get_sample_range)):
        for p in every + odd:
            def case(q):
                spec = TableSpec(table_name="input", table_sample=p, eval_table_sample=q)
                r = f(spec, True)
                hs = boundary({p, q})
                rows = split_rows(hs)
                tr, ev = members(rows, r.train_sample_range), members(rows, r.eval_sample_range)
                expect(not tr & ev, "episodes in both the training and the evaluation set: %s of table_sample=%s eval_table_sample=%s", sorted(tr & ev), p, q)
                if p + q >= 100.0 and p == int(p * 8) / 8:
                    same(sorted(tr | ev), hs, "episodes in neither set")
                for h in hs:
                    if abs(h - p / 100 * TOP) > 2:
                        same(h in tr, h < p / 100 * TOP, "hash %d in the training set of %s%%" % (h, p))
                    if abs(h - (100 - q) / 100 * TOP) > 2 and q > 0 and (p + q <= 100):
                        same(h in ev, h > (100 - q) / 100 * TOP, "hash %d in the evaluation set of %s%%" % (h, q))

            for q in sorted({100.0 - p, max(0.0, 100.0 - p - 25), (100.0 - p) / 2, 100.0 - p + 0.0009}):
                ctx.state((p, q))
                ctx.step(2)
                ctx.run((src, p, q), case, q)

        def whole():
            for p in every[1:] + odd:
                r = f(TableSpec(table_name="input", table_sample=p), False)
                hs = boundary({p})
                tr = members(split_rows(hs), r.train_sample_range)
                for h in hs:
                    if abs(h - p / 100 * TOP) > 2 or p == 100:
                        same(h in tr, p == 100 or h < p / 100 * TOP, "hash %d sampled at %s%%" % (h, p))
            hs = boundary(set(every))
            same(sorted(members(split_rows(hs), f(TableSpec(table_name="input"), False).train_sample_range)), hs, "table without sampling")
            same(sorted(members(split_rows(hs), None)), hs, "query without a sample range")

        ctx.run((src, "without evaluation"), whole)

        def refused(p, q):
            raises(lambda: f(TableSpec(table_name="input", table_sample=p, eval_table_sample=q), True))

        for p, q in ((None, 10.0), (10.0, None), (None, None), (60.0, 41.0), (100.0, 1.0), (99.0, 1.1)):
            ctx.run((src, "refused", p, q), refused, p, q)
    for rng in ((-1.0, 50.0), (50.0, 101.0), (60.0, 50.0)):
        def bad():
            raises(lambda: query([mk()], True, sample=rng))

        ctx.run(("range", rng), bad)

    # columns of the two parts of a split mean the same features
    for where in itertools.product((0, 1), repeat=3):
        def columns():
            rows = []
            for side, h in enumerate((0, TOP - 1)):
                for seq in (1, 2):
                    m = {0: float(seq)}
                    m.update({k + 1: 10.0 * k + side for k, w in enumerate(where) if w == side})
                    rows.append(mk(m, {0: 9.0}, {"reward": 1.0, "m%d" % side: 1.0}, seq=seq, mdp=with_hash(h)))
            full = reference(rows, True, ACTIONS, None)
            for side, rng in enumerate(((0.0, 50.0), (50.0, 100.0))):
                check_table(query(rows, True, sample=rng), [w for w, r in zip(full, rows) if crc(r["mdp_id"]) == (0, TOP - 1)[side]], True)

        ctx.run(("columns", where), columns)


# -- feature identification --------------------------------------------------------------------------
def values(kind, n, k=0):
    return {
        "CONTINUOUS": [(-1) ** i * 1.5 * i + 0.25 * k for i in range(n)],
        "BINARY": [float((i + k) % 2) for i in range(n)],
        "PROBABILITY": [0.01 + 0.9 * i / n + 0.01 * k for i in range(n)],
        "ENUM": [float(3 + (i * 7 + k) % 3) for i in range(n)],
        "CONTINUOUS_ACTION": [-2.0 + 0.125 * i - k for i in range(n)],
        "DO_NOT_PREPROCESS": [100.0 + i for i in range(n)],
    }[kind]


def opts(**kw):
    o = dict(num_samples=20, max_unique_enum_values=10, quantile_size=4, quantile_k2_threshold=1000.0)
    o.update(kw)
    return PreprocessingOptions(**o)


def norm_ref(name, vs, o):
    return get_feature_norm_metadata(name, vs, dict(
        max_unique_enum_values=o.max_unique_enum_values, quantile_size=o.quantile_size, quantile_k2_threshold=o.quantile_k2_threshold,
        skip_box_cox=o.skip_box_cox, skip_quantiles=o.skip_quantiles, feature_overrides=o.feature_overrides))


def feature_table(kinds, n=20, missing=()):
    """n rows; feature ids -> kind; missing: (feature, row) pairs"""
    vals = {f: values(k, n, f) for f, k in kinds.items()}
    return [{f: vals[f][i] for f in kinds if (f, i) not in missing} for i in range(n)]


def identification(ctx):
    kinds = ("CONTINUOUS", "BINARY", "PROBABILITY", "ENUM")
    for combo in itertools.product(kinds, repeat=3):
        for wl in (None, (1,), (1, 3), (3, 1, 2)):
            def case(n, column, override):
                maps = feature_table(dict(zip((1, 2, 3), combo)), n)
                rows = [mk(m, {9: 1.0}, seq=i) for i, m in enumerate(maps)]
                if column == "action":
                    for r, m in zip(rows, maps):
                        r["state_features"], r["action"] = {8: 1.0}, m
                sparkstub.TABLES.clear()
                sparkstub.TABLES["t"] = sparkstub.DF(rows)
                o = opts(num_samples=n, whitelist_features=list(wl) if wl else None, skip_box_cox=True, feature_overrides={2: "DO_NOT_PREPROCESS"} if override else None)
                got = flow.identify_normalization_parameters(TableSpec(table_name="t"), column, o)
                want = {f: norm_ref(f, [m[f] for m in maps], o) for f in (1, 2, 3) if not wl or f in wl}
                same(sorted(got), sorted(want), "features identified")
                for f in want:
                    same(got[f], want[f], "parameters of feature %d" % f)

            for n, column, override in ((20, "state_features", False), (24, "action", False), (20, "state_features", True)):
                ctx.state((combo, wl, n))
                ctx.step()
                ctx.run((combo, wl, n, column, override), case, n, column, override)

    def uncovered():
        rows = [mk(m) for m in feature_table({1: "CONTINUOUS", 2: "BINARY"}, 20)]
        sparkstub.TABLES.clear()
        sparkstub.TABLES["t"] = sparkstub.DF(rows)
        f = lambda **kw: flow.identify_normalization_parameters(TableSpec(table_name="t"), "state_features", opts(**kw))
        raises(lambda: f(whitelist_features=[1, 7]))
        same(sorted(f(whitelist_features=[1, 7], assert_whitelist_feature_coverage=False)), [1], "features without coverage check")
        raises(lambda: f(num_samples=21))

    ctx.run("coverage", uncovered)

    # a sample holds values of its own feature only
    def sampled(n):
        maps = feature_table({1: "CONTINUOUS", 2: "PROBABILITY"}, 60, {(2, i) for i in range(0, 60, 3)})
        sparkstub.TABLES.clear()
        sparkstub.TABLES["t"] = sparkstub.DF([mk(m) for m in maps])
        df = flow.create_normalization_spec_spark(sparkstub.TABLES["t"], "state_features", n)
        rows = df.collect()
        same(sorted(r["feature_name"] for r in rows), [1, 2], "features sampled")
        for r in rows:
            mine = [m[r["feature_name"]] for m in maps if r["feature_name"] in m]
            same(len(r["feature_values"]), n, "samples of feature %s" % r["feature_name"])
            expect(all(v in mine for v in r["feature_values"]), "sampled values of another feature")

    for n in (20, 30, 40):
        ctx.run(("sampled", n), sampled, n)

    def url():
        same(spark_utils.get_table_url("some_table"), "file:///some_table", "table location")

    ctx.run("url", url)


# -- data modules and managers: batches from a table ----------------------------------------------------
KINDS = ("CONTINUOUS", "BINARY", "PROBABILITY", "ENUM")


def dqn(features, po, **kw):
    from reagent.models.model_feature_config_provider import RawModelFeatureConfigProvider
    from reagent.training import DQNTrainerParameters
    from reagent.types import FloatFeatureInfo
    from reagent.workflow.model_managers.discrete import DiscreteDQN
    from reagent.workflow.types import ModelFeatureConfigProvider__Union

    rl = RLParameters(gamma=0.5, multi_steps=kw.pop("multi_steps", None))
    prov = ModelFeatureConfigProvider__Union(raw=RawModelFeatureConfigProvider(float_feature_infos=[FloatFeatureInfo(name="f%d" % f, feature_id=f) for f in features]))
    m = DiscreteDQN(trainer_param=DQNTrainerParameters(actions=ACTIONS, rl=rl), state_feature_config_provider=prov, preprocessing_options=po,
                    eval_parameters=EvaluationParameters(calc_cpe_in_training=kw.pop("cpe", False)))
    m._use_gpu = False
    return m


def episodes(maps, next_maps=None):
    """two-step episodes over the given maps: row 2k -> row 2k+1 -> end"""
    rows = []
    for i, m in enumerate(maps):
        last = i % 2 == 1
        nxt = {} if last else maps[i + 1]
        rows.append(mk(m, nxt, {"reward": float(i)}, ACTIONS[i % 3], "" if last else ACTIONS[(i + 1) % 3], ("L", "R", "U")[: 1 + i % 3] + (ACTIONS[i % 3],),
                       ("",) if last else tuple({ACTIONS[(i + 1) % 3], "L"}), reward=float(i) - 3.5, mdp="m%d" % (i // 2), seq=i % 2 + 1, td=1 + i % 2, prob=1 / (1 + i % 4)))
    return rows


def pre(params, m):
    return prep_ref.row(params, {f: 0.0 if m.get(f) is None else float(m[f]) for f in params}, {f: m.get(f) is not None for f in params})


def check_state(batch, params, ms, what):
    close(batch.float_features, [pre(params, m) for m in ms], what, rtol=2e-5, atol=2e-5)


def check_batches(batches, rows, params, bs, n=None, gamma=None, reward=None):
    chunks = [rows[i:i + bs] for i in range(0, len(rows), bs)]
    same(len(batches), len(chunks), "number of batches")
    nth = lambda v: v if n is None else v[min(len(v), n) - 1]
    for b, rs in zip(batches, chunks):
        check_state(b.state, params, [r["state_features"] for r in rs], "states")
        check_state(b.next_state, params, [nth(r["next_state_features"]) for r in rs], "next states")
        rw = [[reward(r)] if reward else [r["reward"]] if n is None else [sum(gamma ** i * x for i, x in enumerate(r["reward"]))] for r in rs]
        close(b.reward, rw, "rewards", rtol=1e-5, atol=1e-5)
        same(b.time_diff.tolist(), [[nth(r["time_diff"])] for r in rs], "time differences")
        same(b.step.tolist(), [[1 if n is None else min(n, len(r["next_action"]))] for r in rs], "steps")
        same(b.extras.mdp_id.tolist(), [[crc(r["mdp_id"])] for r in rs], "episodes")
        same(b.extras.sequence_number.tolist(), [[r["sequence_number_ordinal"]] for r in rs], "sequence numbers")
        close(b.extras.action_probability, [[r["action_probability"]] for r in rs], "propensities")
        same([[float(x) for x in y] for y in b.not_terminal.tolist()], [[0.0 if nth(r["next_action"]) in ("", {}) else 1.0] for r in rs], "not_terminal")


def check_dqn(batches, rows, params, bs, n=None, gamma=None, reward=None):
    check_batches(batches, rows, params, bs, n, gamma, reward)
    oh = lambda a: [int(a == x) for x in ACTIONS]
    nth = lambda v: v if n is None else v[min(len(v), n) - 1]
    for b, rs in zip(batches, [rows[i:i + bs] for i in range(0, len(rows), bs)]):
        same([[int(x) for x in y] for y in b.action.tolist()], [oh(r["action"]) for r in rs], "actions")
        same([[int(x) for x in y] for y in b.next_action.tolist()], [oh(nth(r["next_action"])) for r in rs], "next actions")
        same([[int(x) for x in y] for y in b.possible_actions_mask.tolist()], [[int(a in r["possible_actions"]) for a in ACTIONS] for r in rs], "possible actions")
        same([[int(x) for x in y] for y in b.possible_next_actions_mask.tolist()], [[int(a in nth(r["possible_next_actions"])) for a in ACTIONS] for r in rs], "possible next actions")


def load(rows):
    sparkstub.TABLES.clear()
    sparkstub.SAVED.clear()
    sparkstub.TABLES["t"] = sparkstub.DF(rows)


def check_norm(got, want_features, maps, o):
    same(sorted(got), sorted(want_features), "features identified")
    for f in want_features:
        same(got[f], norm_ref(f, [m[f] for m in maps if m.get(f) is not None], o), "parameters of feature %d" % f)


def discrete_module(tier):
    def fn(ctx):
        ids = (2, 3, 10)
        for combo in itertools.product(KINDS, repeat=3):
            for wl in ((), (2, 3, 10), (10, 2, 3), (10, 3), (2, 10)):
                if tier == "quick" and wl in ((2, 3, 10), (2, 10)) and len(set(combo)) < 3:
                    continue

                def case(bs):
                    missing = {(ids[k], 20 + k) for k in range(3)} | {(3, 23), (2, 23)}
                    maps = feature_table(dict(zip(ids, combo)), 24, missing)
                    rows = episodes(maps)
                    load(rows)
                    o = opts(skip_box_cox=True, num_samples=20)
                    # sampling keeps 20 values of every feature
                    kept = {f: [m[f] for m in maps if f in m][:20] for f in ids}
                    m = dqn(wl, o)
                    dm = m.get_data_module(input_table_spec=TableSpec(table_name="t"), reward_options=RewardOptions(), reader_options=ReaderOptions(minibatch_size=bs))
                    dm.prepare_data()
                    dm.setup()
                    params = dm.get_normalization_data_map(dm.required_normalization_keys)["state"].dense_normalization_parameters
                    same(sorted(params), sorted(wl or ids), "features identified")
                    for f in params:
                        same(params[f], norm_ref(f, kept[f], o), "parameters of feature %d" % f)
                    same(dm.state_normalization_data.dense_normalization_parameters, params, "state_normalization_data")
                    for _ in range(2):
                        check_dqn(list(dm.train_dataloader()), rows, params, bs)
                    same(dm.test_dataloader(), None, "evaluation data without CPE")

                for bs in (5,) if tier == "quick" else (1, 5, 24, 30):
                    ctx.state((combo, wl))
                    ctx.step(2)
                    ctx.run((combo, wl, bs), case, bs)
    return fn


def discrete_options(ctx):
    # rewards, several steps, evaluation sets and saved preparations
    for cpe, expr, n, saved in itertools.product((False, True), (None, "reward * 2"), (None, 1, 2), ("no", "normalization", "everything")):
        def case():
            maps = feature_table({1: "CONTINUOUS", 4: "BINARY"}, 24)
            rows = episodes(maps)
            if n is not None:
                if expr:
                    return
                for i, r in enumerate(rows):
                    take = [rows[j] for j in range(i, i - i % 2 + 2)][:n]
                    r["_new"] = {c: [t[c] for t in take] for c in ("next_state_features", "next_action", "reward", "time_diff", "metrics", "possible_next_actions")}
                for r in rows:
                    r.update(r.pop("_new"))
            hs = [i * (TOP // 12) + 17 for i in range(12)]
            for i, r in enumerate(rows):
                r["mdp_id"] = with_hash(hs[i // 2])
            load(rows)
            o = opts(skip_box_cox=True)
            spec = TableSpec(table_name="t", table_sample=75.0, eval_table_sample=25.0) if cpe else TableSpec(table_name="t")
            ro = RewardOptions(custom_reward_expression=expr)
            rd = ReaderOptions(minibatch_size=7)
            m = dqn((), o, multi_steps=n, cpe=cpe)
            dm = m.get_data_module(input_table_spec=spec, reward_options=ro, reader_options=rd)
            data = dm.prepare_data()
            want = {f: norm_ref(f, [x[f] for x in maps][:20], o) for f in (1, 4)}
            if saved == "normalization":
                # the saved parameters are used instead of those of the table
                want = {1: NormalizationParameters(feature_type="CONTINUOUS", mean=5.0, stddev=2.0), 4: want[4]}
                nd = pickle.loads(data["normalization_data_map"])
                nd["state"] = type(nd["state"])(dense_normalization_parameters=want)
                sparkstub.SAVED.clear()
                m = dqn((), o, multi_steps=n, cpe=cpe)
                dm = m.get_data_module(input_table_spec=spec, reward_options=ro, reader_options=rd, saved_setup_data={"normalization_data_map": pickle.dumps(nd)})
                data = dm.prepare_data()
            elif saved == "everything":
                m = dqn((), o, multi_steps=n, cpe=cpe)
                tables = dict(sparkstub.SAVED)
                dm = m.get_data_module(setup_data=data, reader_options=rd)
                same(dm.prepare_data(), None, "data prepared again")
                same(sorted(sparkstub.SAVED), sorted(tables), "tables written again")
            dm.setup()
            dm.setup()
            same(dm.get_normalization_data_map(["state"])["state"].dense_normalization_parameters, want, "normalisation")
            f = (lambda r: 2 * r["reward"]) if expr else None
            part = lambda lo, hi: [r for r in rows if lo <= crc(r["mdp_id"]) / TOP * 100 < hi]
            check_dqn(list(dm.train_dataloader()), part(0, 75) if cpe else rows, want, 7, n, 0.5, f)
            if cpe:
                check_dqn(list(dm.test_dataloader()), part(75, 100), want, 7, n, 0.5, f)
            else:
                same(dm.test_dataloader(), None, "evaluation data")

        ctx.state((cpe, expr, n, saved))
        ctx.step(2)
        ctx.run((cpe, expr, n, saved), case)

    # the two parts of a split have the features of the whole table
    for side in (0, 1):
        def rare():
            maps = feature_table({1: "CONTINUOUS", 4: "BINARY", 6: "CONTINUOUS"}, 40, {(4, i) for i in range(40) if (i // 2 % 2) != side})
            rows = episodes(maps)
            for i, r in enumerate(rows):
                r["mdp_id"] = with_hash((i // 2 % 2) * (TOP // 2) + 1000 + i // 2)
            load(rows)
            m = dqn((), opts(skip_box_cox=True), cpe=True)
            dm = m.get_data_module(input_table_spec=TableSpec(table_name="t", table_sample=50.0, eval_table_sample=50.0), reward_options=RewardOptions(), reader_options=ReaderOptions(minibatch_size=40))
            dm.prepare_data()
            dm.setup()
            params = dm.get_normalization_data_map(["state"])["state"].dense_normalization_parameters
            same(sorted(params), [1, 4, 6], "features identified")
            check_dqn(list(dm.train_dataloader()), [r for i, r in enumerate(rows) if i // 2 % 2 == 0], params, 40)
            check_dqn(list(dm.test_dataloader()), [r for i, r in enumerate(rows) if i // 2 % 2 == 1], params, 40)

        ctx.run(("rare feature", side), rare)


def actor_critic(tier):
    def fn(ctx):
        from reagent.training import SACTrainerParameters, TD3TrainerParameters
        from reagent.workflow.model_managers.actor_critic.sac import SAC
        from reagent.workflow.model_managers.actor_critic.td3 import TD3

        ids, aids = (1, 2), (5, 11)
        combos = list(itertools.product(KINDS, repeat=2))
        for mgr, combo, swl, awl, over in itertools.product(("sac", "td3"), combos, ((1, 2), (2, 1), (2,)), ((5, 11), (11,)), (None, "DO_NOT_PREPROCESS", "CONTINUOUS")):
            if tier == "quick" and (over or len(awl) == 1) and combo[0] == combo[1]:
                continue

            def case():
                maps = feature_table(dict(zip(ids, combo)), 20)
                amaps = feature_table({5: "CONTINUOUS_ACTION", 11: "CONTINUOUS_ACTION"}, 20)
                rows = episodes(maps)
                for i, r in enumerate(rows):
                    r["action"], r["next_action"] = amaps[i], {} if i % 2 else amaps[i + 1]
                load(rows)
                so, ao = opts(skip_box_cox=True), opts(skip_box_cox=True)
                kw = dict(state_preprocessing_options=so, action_preprocessing_options=ao, state_float_features=[(f, "s") for f in swl], action_float_features=[(f, "a") for f in awl],
                          action_feature_override=over, eval_parameters=EvaluationParameters(calc_cpe_in_training=False))
                m = SAC(trainer_param=SACTrainerParameters(rl=RLParameters(gamma=0.9)), **kw) if mgr == "sac" else TD3(trainer_param=TD3TrainerParameters(rl=RLParameters(gamma=0.9)), **kw)
                spec = TableSpec(table_name="t")
                nd = m.run_feature_identification(spec)
                same(sorted(nd), ["action", "state"], "normalisation keys")
                sp, ap = nd["state"].dense_normalization_parameters, nd["action"].dense_normalization_parameters
                check_norm(sp, swl, maps, so)
                o = opts(skip_box_cox=True, feature_overrides={f: over or "CONTINUOUS_ACTION" for f in awl})
                check_norm(ap, awl, amaps, o)
                ds = m.query_data(spec, (0.0, 100.0), RewardOptions())
                m._use_gpu, m._normalization_data_map = False, nd
                bp = m.build_batch_preprocessor()
                batches = list(wutils.get_petastorm_dataloader(ds, 6, bp, False, ReaderOptions()))
                check_batches(batches, rows, sp, 6)
                for b, rs in zip(batches, [rows[i:i + 6] for i in range(0, 20, 6)]):
                    check_state(b.action, ap, [r["action"] for r in rs], "actions")
                    check_state(b.next_action, ap, [r["next_action"] for r in rs], "next actions")

            ctx.state((mgr, combo, swl, awl, over))
            ctx.step(4)
            ctx.run((mgr, combo, swl, awl, over), case)
    return fn


def other_managers(ctx):
    """feature identification of the managers that have no table query here"""
    from reagent.training import ParametricDQNTrainerParameters, SlateQTrainerParameters
    from reagent.workflow.model_managers.parametric.parametric_dqn import ParametricDQN
    from reagent.workflow.model_managers.ranking.slate_q import SlateQ

    for combo, swl, awl, given in itertools.product(itertools.product(KINDS, repeat=2), ((1, 2), (2,)), ((5, 11), (11,)), (False, True)):
        def parametric():
            maps, amaps = feature_table(dict(zip((1, 2), combo)), 20), feature_table(dict(zip((5, 11), combo[::-1])), 20)
            rows = episodes(maps)
            for r, a in zip(rows, amaps):
                r["action"] = a
            load(rows)
            so, ao = opts(skip_box_cox=True), opts(max_unique_enum_values=2, skip_box_cox=True)
            m = ParametricDQN(trainer_param=ParametricDQNTrainerParameters(rl=RLParameters(gamma=0.9)), state_preprocessing_options=so, action_preprocessing_options=ao,
                              state_float_features=[(f, "s") for f in swl], action_float_features=[(f, "a") for f in awl])
            nd = m.run_feature_identification(TableSpec(table_name="t"))
            check_norm(nd["state"].dense_normalization_parameters, swl, maps, so)
            check_norm(nd["action"].dense_normalization_parameters, awl, amaps, ao)

        def slate():
            maps, amaps = feature_table(dict(zip((1, 2), combo)), 20), feature_table(dict(zip((5, 11), combo[::-1])), 20)
            rows = episodes(maps)
            for r, a in zip(rows, amaps):
                r["state_sequence_features"] = a
            load(rows)
            so = opts(skip_box_cox=True)
            ao = opts(max_unique_enum_values=2, skip_box_cox=True)
            m = SlateQ(slate_feature_id=3, slate_score_id=(1, 2), slate_size=2, num_candidates=3, trainer_param=SlateQTrainerParameters(rl=RLParameters(gamma=0.9)),
                       state_preprocessing_options=so, item_preprocessing_options=ao, state_float_features=[(f, "s") for f in swl], item_float_features=[(f, "a") for f in awl])
            nd = m.run_feature_identification(TableSpec(table_name="t"))
            check_norm(nd["state"].dense_normalization_parameters, swl, maps, so)
            check_norm(nd["item"].dense_normalization_parameters, awl, amaps, ao)

        if not given:
            ctx.run(("parametric", combo, swl, awl), parametric)
        else:
            ctx.run(("slate", combo, swl, awl), slate)
        ctx.state((combo, swl, awl))
        ctx.step()


def groups(tier):
    return [
        ("rows", one_row), ("actions", action_rows), ("tables", two_rows), ("multi-step", multi_steps), ("split", splits),
        ("identification", identification), ("discrete", discrete_module(tier)), ("options", discrete_options), ("actor-critic", actor_critic(tier)), ("managers", other_managers),
    ]

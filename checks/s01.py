"""S01: served predictors against reference preprocessing followed by the source network, one row at a time."""
import copy
import io
import itertools

import numpy as np
import torch

from mc.core import close, expect, raises, same, seed_all
from mc import prep_ref
from mc.rng import ScriptedRandom

import reagent.types as rlt
from reagent import models
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mdn_rnn import MDNRNN
from reagent.models.mlp_scorer import MLPScorer
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate import Seq2SlateTransformerNet
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
from reagent.net_builder import categorical_dqn, continuous_actor, discrete_actor, discrete_dqn, parametric_dqn, quantile_dqn
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.prediction import predictor_wrapper as pw
from reagent.prediction.ranking.predictor_wrapper import DeterminantalPointProcessPredictorWrapper
from reagent.preprocessing.preprocessor import Preprocessor

LEVEL = "model_checking"
RULE = (
    "every predictor kind x network options x feature types; every row of the product of feature values and presence, "
    "alone, in pairs and in one batch; every small id list and score list, in every dictionary order; every pair of state "
    "and action rows; every candidate count; compared with reference preprocessing and the eager source network row by row, "
    "again after saving and loading and after changing the source network. Non-trivial: a missing feature or several rows"
)
ASSUMPTIONS = ["float32 tolerance", "weights from fixed pseudo-random sets", "the network's own function is judged in M01 and T01-T10"]

NP = NormalizationParameters


def cont(m=0.0, s=1.0):
    return NP(feature_type="CONTINUOUS", mean=m, stddev=s)


NORMS = {
    "cont": {3: cont(1.0, 2.0), 1: cont(-0.5, 0.5)},
    "mixed": {7: NP(feature_type="ENUM", possible_values=[5, 1, 9]), 2: NP(feature_type="BINARY"), 1: NP(feature_type="PROBABILITY")},
    "order": {1: NP(feature_type="QUANTILE", quantiles=[0.0, 1.0, 4.0], mean=0.0, stddev=1.0), 2: cont(0.5, 1.5)},
    "raw": {5: NP(feature_type="DO_NOT_PREPROCESS"), 9: NP(feature_type="CONTINUOUS_ACTION", min_value=-2.0, max_value=4.0)},
    "enums": {2: NP(feature_type="ENUM", possible_values=[1, 2]), 1: NP(feature_type="ENUM", possible_values=[3, 4])},
}
VALUES = {"CONTINUOUS": [0.0, 1.5, -30.0], "ENUM": [1, 9, 3], "BINARY": [0.0, 2.0], "PROBABILITY": [0.3, 1.0],
          "QUANTILE": [-1.0, 0.5, 3.0], "DO_NOT_PREPROCESS": [0.25, -4.0], "CONTINUOUS_ACTION": [1.0, 5.0]}


def data(params):
    return NormalizationData(dense_normalization_parameters=params)


def rows_of(params, limit=None):
    """[(values in column order, presence in column order)]"""
    feats = prep_ref.order_features(params)
    axes = [[(v, p) for v in VALUES[params[f].feature_type] for p in (1, 0)] for f in feats]
    out = [([c[0] for c in r], [c[1] for c in r]) for r in itertools.product(*axes)]
    return out if limit is None else out[:: max(1, len(out) // limit)][:limit]


def reference(params, row):
    feats = prep_ref.order_features(params)
    return prep_ref.row(params, dict(zip(feats, row[0])), {f: bool(p) for f, p in zip(feats, row[1])})


def tensors(rows, presence_dtype=torch.uint8):
    return (torch.tensor([[float(v) for v in r[0]] for r in rows]), torch.tensor([r[1] for r in rows], dtype=presence_dtype))


def fd(vec):
    return rlt.FeatureData(torch.tensor([vec], dtype=torch.float32))


def batches(n, tier, pairs=5):
    out = [[i] for i in range(n)] + [list(range(n)), list(reversed(range(n)))]
    k = min(n, pairs if tier == "quick" else 12)
    pick = [i * n // k for i in range(k)]
    return out + [[i, j] for i in pick for j in pick]


def prepare(net, dim, k, action_dim=None):
    """weights and running statistics of a trained network"""
    g = np.random.RandomState(50 + k)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor(g.normal(size=tuple(p.shape)) * 0.6, dtype=torch.float32))
    net.train()
    args = [rlt.FeatureData(torch.tensor(g.normal(size=(6, dim)), dtype=torch.float32))]
    if action_dim:
        args.append(rlt.FeatureData(torch.tensor(g.normal(size=(6, action_dim)), dtype=torch.float32)))
    with torch.no_grad():
        net(*args)
    return net


def state_of(net):
    return {k: v.clone() for k, v in net.state_dict().items()}, {n: m.training for n, m in net.named_modules()}


def undisturbed(net, before, what):
    sd, modes = state_of(net)
    same(modes, before[1], what + ": training modes of the source network")
    expect(all(torch.equal(sd[k], before[0][k]) for k in before[0]), what + ": parameters of the source network changed")


def wreck(net):
    """further training of the source network"""
    with torch.no_grad():
        for t in itertools.chain(net.parameters(), net.buffers()):
            if t.is_floating_point():
                t.add_(3.0).mul_(-1.7)
    net.train()


def reload_(mod):
    f = io.BytesIO()
    torch.jit.save(mod, f)
    f.seek(0)
    return torch.jit.load(f)


def serving(vp, lists=None, scores=None):
    return rlt.ServingFeatureData(float_features_with_presence=vp, id_list_features=lists or {}, id_score_list_features=scores or {})


# --- discrete value predictors ---------------------------------------------
def q_builders():
    D, Q, C = discrete_dqn, quantile_dqn, categorical_dqn
    cfg = rlt.ModelFeatureConfig()
    out = {}
    for act in ("relu", "tanh"):
        out["fc-" + act] = (D.fully_connected.FullyConnected(sizes=[4], activations=[act]), lambda b, nd, A: b.build_q_network(cfg, nd, A), None)
    out["fc-linear"] = (D.fully_connected.FullyConnected(sizes=[], activations=[]), lambda b, nd, A: b.build_q_network(cfg, nd, A), None)
    out["fc-dropout"] = (D.fully_connected.FullyConnected(sizes=[6, 4], activations=["relu", "leaky_relu"], dropout_ratio=0.5), lambda b, nd, A: b.build_q_network(cfg, nd, A), None)
    out["fc-batchnorm"] = (D.fully_connected.FullyConnected(sizes=[4], activations=["relu"], use_batch_norm=True), lambda b, nd, A: b.build_q_network(cfg, nd, A), None)
    out["dueling"] = (D.dueling.Dueling(sizes=[4, 4], activations=["relu", "tanh"]), lambda b, nd, A: b.build_q_network(cfg, nd, A), None)
    out["categorical"] = (C.categorical.Categorical(sizes=[4], activations=["relu"]), lambda b, nd, A: b.build_q_network(nd, A, num_atoms=3, qmin=-1, qmax=5), None)
    mean = lambda v: [sum(a) / len(a) for a in v]
    out["quantile"] = (Q.quantile.Quantile(sizes=[4], activations=["relu"], dropout_ratio=0.3), lambda b, nd, A: b.build_q_network(nd, A, num_atoms=3), mean)
    out["dueling-quantile"] = (Q.dueling_quantile.DuelingQuantile(sizes=[4, 4], activations=["relu", "tanh"]), lambda b, nd, A: b.build_q_network(nd, A, num_atoms=3), mean)
    return out


def dqn(kind, norm, A, tier):
    params = NORMS[norm]
    builder, make, post = q_builders()[kind]
    dim = len(reference(params, rows_of(params)[0]))
    net = prepare(make(builder, data(params), A), dim, A)
    before = state_of(net)
    names = ["act_%s" % c for c in "zbya"[:A]]
    pred = builder.build_serving_module(net, data(params), list(names), rlt.ModelFeatureConfig())
    undisturbed(net, before, "building the predictor")
    src = copy.deepcopy(net).eval()
    rows = rows_of(params)
    want = []
    with torch.no_grad():
        for r in rows:
            v = src(fd(reference(params, r))).double().tolist()[0]
            want.append(post(v) if post else v)
    expect(len({tuple(w) for w in want}) > 1, "degenerate case")
    bs = batches(len(rows), tier)

    def run(p, some, dtype=torch.uint8):
        for b in some:
            got_names, q = p(serving(tensors([rows[i] for i in b], dtype)))
            same(list(got_names), names, "action names")
            close(q, [want[i] for i in b], "values of rows %s" % b[:6])

    run(pred, bs)
    run(pred, bs[-3:] + bs[:2], torch.bool)
    run(pred, bs[-3:] + bs[:2], torch.float32)
    full = [list(range(len(rows)))]
    for i in (0, len(rows) - 1):
        n2, q2 = pw.DiscreteDqnPredictorUnwrapper(pred)(tensors([rows[i]]), {}, {})
        same(list(n2), names, "names")
        close(q2, [want[i]], "unwrapped values")
    run(reload_(pred), full + bs[:3])
    wreck(net)
    run(pred, full + bs[:3])
    return len(bs) + 2


def g_dqn(ctx, kinds, norms, actions, tier):
    for kind in kinds:
        for norm in norms:
            for A in actions:
                n = ctx.run("%s/%s/%d" % (kind, norm, A), lambda: ctx.step(dqn(kind, norm, A, tier)))


# --- sparse features ---------------------------------------------------------
def sparse(tier, ctx, only):
    params = NORMS["cont"]
    cfg = rlt.ModelFeatureConfig(
        float_feature_infos=[rlt.FloatFeatureInfo(name="f%d" % f, feature_id=f) for f in (1, 3)],
        id_mapping_config={"m": rlt.IdMapping(ids=[5, 7, 9]), "k": rlt.IdMapping(ids=[200, 100])},
        id_list_feature_configs=[rlt.IdListFeatureConfig(name="A", feature_id=11, id_mapping_name="m"),
                                 rlt.IdListFeatureConfig(name="B", feature_id=10, id_mapping_name="m")],
        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name="S", feature_id=20, id_mapping_name="k")],
    )
    b = discrete_dqn.fully_connected_with_embedding.FullyConnectedWithEmbedding(sizes=[4], activations=["tanh"], embedding_dim=2)
    net = b.build_q_network(cfg, data(params), 2)
    g = np.random.RandomState(7)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor(g.normal(size=tuple(p.shape)) * 0.6, dtype=torch.float32))
    before = state_of(net)
    pred = b.build_serving_module(net, data(params), ["x", "y"], cfg)
    undisturbed(net, before, "building the predictor")
    src = copy.deepcopy(net).eval()
    table = {"m": [5, 7, 9], "k": [200, 100]}
    lists = [[]] + [[a] for a in (5, 9)] + [[a, c] for a in (5, 7, 9) for c in (7, 9)]
    scores = [[], [(100, 0.5)], [(200, 2.0), (100, -1.0)]]
    rows = [([1.5, 0.0], [1, 1]), ([0.0, 1.5], [0, 1])]
    singles = [(rows[i % 2], a, c, s) for i, (a, c, s) in enumerate(itertools.product(lists, lists[:5], scores))]

    def inputs(batch, order, extra):
        def lst(k):
            off, vals = [], []
            for r in batch:
                off.append(len(vals))
                vals += r[k]
            return torch.tensor(off, dtype=torch.long), torch.tensor(vals, dtype=torch.long)

        off, keys, w = [], [], []
        for r in batch:
            off.append(len(keys))
            keys += [x[0] for x in r[3]]
            w += [x[1] for x in r[3]]
        d = {11: lst(1), 10: lst(2)}
        if order:
            d = {10: d[10], 11: d[11]}
        if extra:
            d = {99: (torch.zeros(len(batch), dtype=torch.long), torch.tensor([4], dtype=torch.long)), **d}
        sc = {20: (torch.tensor(off, dtype=torch.long), torch.tensor(keys, dtype=torch.long), torch.tensor(w, dtype=torch.float32))}
        return d, sc

    cache = {}

    def want(r):
        k = repr(r)
        if k not in cache:
            emb = src[0].embedding_bags
            vec = []
            with torch.no_grad():
                for k2 in (1, 2):
                    t = np.zeros(2)
                    for x in r[k2]:
                        t = t + emb["m"].weight[table["m"].index(x)].double().numpy()
                    vec += t.tolist()
                t = np.zeros(2)
                for x, w in r[3]:
                    t = t + w * emb["k"].weight[table["k"].index(x)].double().numpy()
                vec += t.tolist() + reference(params, r[0])
                cache[k] = src[2](fd(vec)).tolist()[0]
        return cache[k]

    def evaluate(p, batch, order, extra):
        d, sc = inputs(batch, order, extra)
        names, q = p(serving(tensors([r[0] for r in batch]), d, sc))
        same(list(names), ["x", "y"], "names")
        close(q, [want(r) for r in batch], "values")

    step = 7 if tier == "quick" else 2
    groups = [[r] for r in singles] + [[a, c] for a in singles[::step] for c in singles[3::step]] + [singles[:7], singles[10:16]]
    lo = reload_(pred)
    state = {"done": False}
    for i, batch in enumerate(groups):
        def case():
            evaluate(pred, batch, i % 2, i % 3 == 0)
            if i % 5 == 0:
                evaluate(pred, batch, 1 - i % 2, i % 3 != 0)
                evaluate(lo, batch, i % 2, False)
            # the source network itself, fed with either order of the same features
            d, sc = inputs(batch, i % 2, False)
            conv = {11: "A", 10: "B", 20: "S"}
            idx = lambda tab, t: torch.tensor([table[tab].index(int(x)) for x in t], dtype=torch.long)
            with torch.no_grad():
                q = src(rlt.FeatureData(
                    float_features=torch.tensor([reference(params, r[0]) for r in batch], dtype=torch.float32),
                    id_list_features={conv[k]: (v[0], idx("m", v[1])) for k, v in d.items()},
                    id_score_list_features={"S": (sc[20][0], idx("k", sc[20][1]), sc[20][2])}))
            close(q, [want(r) for r in batch], "source network")
        ctx.run("sparse/%d" % i, case, nontrivial=len(batch) > 1 or bool(batch[0][1]))

    def later():
        wreck(net)
        for batch in groups[::11]:
            evaluate(pred, batch, 0, False)
    ctx.run("later-training", later)


# --- parametric --------------------------------------------------------------
def parametric(opts, sn, an, tier):
    sp, ap = NORMS[sn], NORMS[an]
    b = parametric_dqn.fully_connected.FullyConnected(sizes=[5], activations=["tanh"], **opts)
    sdim, adim = len(reference(sp, rows_of(sp)[0])), len(reference(ap, rows_of(ap)[0]))
    net = prepare(b.build_q_network(data(sp), data(ap)), sdim, 3, adim)
    before = state_of(net)
    pred = b.build_serving_module(net, data(sp), data(ap))
    undisturbed(net, before, "building the predictor")
    src = copy.deepcopy(net).eval()
    srows, arows = rows_of(sp, 7), rows_of(ap, 7)
    pairs = list(itertools.product(range(len(srows)), range(len(arows))))
    with torch.no_grad():
        want = {(i, j): src(fd(reference(sp, srows[i])), fd(reference(ap, arows[j]))).tolist()[0] for i, j in pairs}
    k = 3 if tier == "quick" else 1
    bs = [[p] for p in pairs] + [pairs, pairs[::-1]] + [[p, q] for p in pairs[::k * 3] for q in pairs[1::k * 4]]

    def run(p, some):
        for b_ in some:
            names, v = p(tensors([srows[i] for i, _ in b_]), tensors([arows[j] for _, j in b_]))
            same(list(names), ["Q"], "names")
            close(v, [want[x] for x in b_], "values of pairs %s" % b_[:4])

    run(pred, bs)
    run(pw.ParametricDqnPredictorUnwrapper(pred), bs[-3:])
    run(reload_(pred), bs[-3:] + bs[:2])
    wreck(net)
    run(pred, [pairs] + bs[:3])
    return len(bs)


def g_parametric(ctx, tier):
    for opts in ({}, {"use_batch_norm": True}, {"use_layer_norm": True}):
        for sn, an in [("cont", "raw"), ("mixed", "cont"), ("raw", "enums"), ("order", "mixed")]:
            ctx.run("parametric/%s/%s-%s" % (",".join(opts), sn, an), lambda: ctx.step(parametric(opts, sn, an, tier)))


# --- actors --------------------------------------------------------------------
ACTION = {8: NP(feature_type="CONTINUOUS_ACTION", min_value=-1.0, max_value=3.0), 4: NP(feature_type="CONTINUOUS_ACTION", min_value=0.0, max_value=10.0)}
RAW_ACTION = {f: NP(feature_type="DO_NOT_PREPROCESS") for f in (4, 8)}


def unscale(params, a):
    eps = prep_ref.EPS
    out = []
    for f, x in zip(sorted(params), a):
        p = params[f]
        if p.feature_type == "DO_NOT_PREPROCESS":
            out.append(x)
        else:
            x = max(-1 + eps, min(1 - eps, x))
            out.append((1 - eps + x) * (p.max_value - p.min_value) / (2 * (1 - eps)) + p.min_value)
    return out


def noise(n):
    return [((k * 7) % 11 - 5) / 4.0 for k in range(n)]


def actor_kinds():
    C = continuous_actor
    return {
        "fc": (C.fully_connected.FullyConnected(sizes=[4], activations=["relu"]), ACTION, {}, "det"),
        "fc-sigmoid-bn": (C.fully_connected.FullyConnected(sizes=[4], activations=["relu"], use_batch_norm=True, action_activation="sigmoid"), ACTION, {}, "det"),
        "fc-noise": (C.fully_connected.FullyConnected(sizes=[4], activations=["relu"], exploration_variance=0.5), ACTION, {}, "noise"),
        "gauss": (C.gaussian_fully_connected.GaussianFullyConnected(sizes=[4], activations=["relu"]), ACTION, {}, "noise"),
        "gauss-mean": (C.gaussian_fully_connected.GaussianFullyConnected(sizes=[4], activations=["relu"]), ACTION, {"serve_mean_policy": True}, "mean"),
        "gauss-ln-mean": (C.gaussian_fully_connected.GaussianFullyConnected(sizes=[4], activations=["tanh"], use_layer_norm=True), ACTION, {"serve_mean_policy": True}, "mean"),
        "gauss-l2": (C.gaussian_fully_connected.GaussianFullyConnected(sizes=[4], activations=["tanh"], use_l2_normalization=True, use_batch_norm=True), RAW_ACTION, {}, "noise"),
        "dirichlet": (C.dirichlet_fully_connected.DirichletFullyConnected(sizes=[4], activations=["relu"]), RAW_ACTION, {}, "dirichlet"),
    }


def actor(kind, norm, tier):
    params = NORMS[norm]
    b, action, kw, mode = actor_kinds()[kind]
    dim = len(reference(params, rows_of(params)[0]))
    net = prepare(b.build_actor(data(params), data(action)), dim, 5)
    before = state_of(net)
    pred = b.build_serving_module(net, data(params), data(action), **kw)
    undisturbed(net, before, "building the predictor")
    src = copy.deepcopy(net).eval()
    rows = rows_of(params)
    feats = [reference(params, r) for r in rows]
    bs = batches(len(rows), tier, 4)

    def out(batch, draws=None):
        x = rlt.FeatureData(torch.tensor([feats[i] for i in batch], dtype=torch.float32))
        with torch.no_grad():
            return src(x)

    def run(p, some):
        for b_ in some:
            inp = tensors([rows[i] for i in b_])
            if mode == "dirichlet":
                seed_all(3)
                got = p(inp)
                seed_all(3)
                close(got, out(b_).action, "actions")
                close(got.sum(1), [1.0] * len(b_), "simplex")
            elif mode == "noise":
                with ScriptedRandom(normal=noise):
                    got = p(inp)
                with ScriptedRandom(normal=noise):
                    e = out(b_)
                want = [unscale(action, a) for a in e.action.double().tolist()]
                close(got, want, "actions of rows %s" % b_[:4], rtol=1e-3, atol=1e-4)
            else:
                got = p(inp)
                want = []
                for i in b_:
                    e = out([i])
                    want.append(unscale(action, (e.squashed_mean if mode == "mean" else e.action)[0].double().tolist()))
                close(got, want, "actions of rows %s" % b_[:4], rtol=1e-3, atol=1e-4)
            same(tuple(got.shape), (len(b_), 2), "shape")

    run(pred, bs)
    run(pw.ActorPredictorUnwrapper(pred), bs[-2:])
    run(reload_(pred), bs[-2:] + bs[:1])
    wreck(net)
    run(pred, bs[-3:] + bs[:2])
    return len(bs)


def discrete_act(norm, tier):
    params = NORMS[norm]
    b = discrete_actor.fully_connected.FullyConnected(sizes=[4], activations=["relu"], action_activation="linear")
    dim = len(reference(params, rows_of(params)[0]))
    net = prepare(b.build_actor(data(params), 3), dim, 6)
    before = state_of(net)
    pred = b.build_serving_module(net, data(params), [0, 1, 2])
    undisturbed(net, before, "building the predictor")
    src = copy.deepcopy(net).eval()
    rows = rows_of(params)
    with torch.no_grad():
        want = [src(fd(reference(params, r))).action.tolist()[0] for r in rows]
    bs = batches(len(rows), tier, 4)
    for b_ in bs:
        close(pred(tensors([rows[i] for i in b_])), [want[i] for i in b_], "scores")
    wreck(net)
    for b_ in bs[-3:]:
        close(pred(tensors([rows[i] for i in b_])), [want[i] for i in b_], "scores after further training")
    return len(bs)


def ranking(norm, cand, n, tier):
    sp, cp = NORMS[norm], NORMS[cand]
    srows, crows = rows_of(sp, 5), rows_of(cp, 5)
    b = continuous_actor.fully_connected.FullyConnected(sizes=[4], activations=["relu"])
    sdim, cdim = len(reference(sp, srows[0])), len(reference(cp, crows[0]))
    net = prepare(models.FullyConnectedActor(sdim + n * cdim, 2, [4], ["relu"]), sdim + n * cdim, 8)
    before = state_of(net)
    pred = b.build_ranking_serving_module(net, data(sp), data(cp), n, data(ACTION))
    undisturbed(net, before, "building the predictor")
    src = copy.deepcopy(net).eval()
    allc = list(itertools.product(range(len(crows)), repeat=n))
    cases = [(i, c) for i in range(len(srows)) for c in (allc if tier != "quick" else allc[::max(1, len(allc) // 12)])]

    def want(i, c):
        v = reference(sp, srows[i])
        for j in c:
            v = v + reference(cp, crows[j])
        with torch.no_grad():
            return unscale(ACTION, src(fd(v)).action[0].double().tolist())

    bs = [[x] for x in cases] + [cases, cases[::-1]] + [[x, y] for x in cases[::9] for y in cases[::7]]
    for p, some in ((pred, bs), (reload_(pred), bs[-3:])):
        for b_ in some:
            got = p(tensors([srows[i] for i, _ in b_]), [tensors([crows[c[k]] for _, c in b_]) for k in range(n)])
            close(got, [want(*x) for x in b_], "actions", rtol=1e-3, atol=1e-4)
    first = pred(tensors([srows[0]]), [tensors([crows[1]])] * n).clone()
    wreck(net)
    close(pred(tensors([srows[0]]), [tensors([crows[1]])] * n), first, "after further training")
    return len(bs)


def g_actor(ctx, tier):
    norms = ["cont", "mixed", "raw"] if tier == "quick" else list(NORMS)
    for kind in actor_kinds():
        for norm in norms:
            ctx.run("actor/%s/%s" % (kind, norm), lambda: ctx.step(actor(kind, norm, tier)))
    for norm in norms:
        ctx.run("discrete-actor/%s" % norm, lambda: ctx.step(discrete_act(norm, tier)))
    for norm, cand in [("cont", "mixed"), ("mixed", "cont"), ("raw", "order")]:
        for n in (1, 2, 3):
            ctx.run("ranking-actor/%s-%s/%d" % (norm, cand, n), lambda: ctx.step(ranking(norm, cand, n, tier)))


# --- slates ---------------------------------------------------------------------
def slate_inputs(sp, cp, srows, crows, batch):
    """batch: [(state row, candidate rows)] -> serving tensors and reference features"""
    s = tensors([srows[i] for i, _ in batch])
    cv = torch.tensor([[[float(v) for v in crows[j][0]] for j in c] for _, c in batch])
    cpres = torch.tensor([[crows[j][1] for j in c] for _, c in batch], dtype=torch.uint8)
    rs = torch.tensor([reference(sp, srows[i]) for i, _ in batch], dtype=torch.float32)
    rc = torch.tensor([[reference(cp, crows[j]) for j in c] for _, c in batch], dtype=torch.float32)
    return s, (cv, cpres), rs, rc


def slate_batches(ns, nc, n, tier):
    allc = [c for c in itertools.product(range(nc), repeat=n)]
    allc = allc[:: max(1, len(allc) // (6 if tier == "quick" else 30))]
    cases = [(i, c) for i in range(ns) for c in allc]
    return [[x] for x in cases] + [cases] + [[x, y] for x in cases[::5] for y in cases[::3]]


def vm_slate(ctx, concat, log, norm, cand, tier):
    sp, cp = NORMS[norm], NORMS[cand]
    srows, crows = rows_of(sp, 4), rows_of(cp, 4)
    sdim, cdim = len(reference(sp, srows[0])), len(reference(cp, crows[0]))
    mlp = MLPScorer(input_dim=cdim + (sdim if concat else 0), layer_sizes=[4], output_dim=1, concat=concat, log_transform=log)
    g = np.random.RandomState(9)
    with torch.no_grad():
        for p in mlp.parameters():
            p.copy_(torch.tensor(g.normal(size=tuple(p.shape)) * 0.6, dtype=torch.float32))
    mod = pw.LearnVMSlateWithPreprocessor(mlp, Preprocessor(sp, use_gpu=False), Preprocessor(cp, use_gpu=False)).eval()
    compiled = torch.jit.trace(mod, mod.input_prototype())
    src = copy.deepcopy(mlp).eval()
    k = 0
    for n in (1, 2, 5, 6):
        for batch in slate_batches(len(srows), len(crows), n, tier):
            s, c, rs, rc = slate_inputs(sp, cp, srows, crows, batch)
            want = []
            with torch.no_grad():
                for b in range(len(batch)):
                    row = []
                    for j in range(n):
                        x = torch.cat([rs[b], rc[b, j]]) if concat else rc[b, j]
                        if log:
                            x = x.clip(1e-12).log()
                        row.append(src.mlp(x[None]).item())
                    want.append(row)
            with torch.no_grad():
                close(mod(s, c), want, "scores", rtol=1e-3, atol=1e-4)
                close(compiled(s, c), want, "compiled scores", rtol=1e-3, atol=1e-4)
            k += 2
    ctx.step(k)


def seq2slate(ctx, arch, norm, cand, tier, greedy):
    sp, cp = NORMS[norm], NORMS[cand]
    srows, crows = rows_of(sp, 4), rows_of(cp, 5)
    sdim, cdim = len(reference(sp, srows[0])), len(reference(cp, crows[0]))
    seed_all(5)
    net = Seq2SlateTransformerNet(state_dim=sdim, candidate_dim=cdim, num_stacked_layers=1, num_heads=2, dim_model=8, dim_feedforward=8,
                                  max_src_seq_len=4, max_tgt_seq_len=4, output_arch=arch, temperature=0.7).eval()
    pred = pw.Seq2SlatePredictorWrapper(pw.Seq2SlateWithPreprocessor(copy.deepcopy(net), Preprocessor(sp, use_gpu=False), Preprocessor(cp, use_gpu=False), greedy=greedy))
    lo = reload_(pred)
    k = 0
    for n in (1, 2, 3, 4):
        for i, batch in enumerate(slate_batches(len(srows), len(crows), n, tier)):
            s, c, rs, rc = slate_inputs(sp, cp, srows, crows, batch)
            probs, idx = None, None
            with torch.no_grad():
                seed_all(11)
                e = net(rlt.PreprocessedRankingInput.from_tensors(state=rs, src_seq=rc), mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=n, greedy=greedy)
                for p in (pred, lo) if i % 7 == 0 else (pred,):
                    seed_all(11)
                    probs, idx = p(s, c)
                    distinct = all(len({tuple(round(x, 4) for x in reference(cp, crows[j])) for j in cs}) == n for _, cs in batch)
                    same(tuple(idx.shape), (len(batch), n), "shape")
                    for r in idx.tolist():
                        same(sorted(r), list(range(n)), "ranking")
                    if distinct:
                        same(idx, (e.ranked_tgt_out_idx - 2), "ranking")
                    close(probs, e.ranked_per_seq_probs, "probability of the ranking")
            k += 1
    ctx.step(k)


def slate_reward(ctx, cls, norm, cand, S, T, tier):
    sp, cp = NORMS[norm], NORMS[cand]
    srows, crows = rows_of(sp, 4), rows_of(cp, 5)
    sdim, cdim = len(reference(sp, srows[0])), len(reference(cp, crows[0]))
    seed_all(6)
    kw = dict(state_dim=sdim, candidate_dim=cdim, num_stacked_layers=1, dim_model=4, max_src_seq_len=S, max_tgt_seq_len=T)
    net = (cls(num_heads=2, dim_feedforward=4, **kw) if cls is Seq2SlateTransformerRewardNet else cls(**kw)).eval()
    mod = pw.Seq2SlateRewardWithPreprocessor(copy.deepcopy(net), Preprocessor(sp, use_gpu=False), Preprocessor(cp, use_gpu=False)).eval()
    same(mod.state_sorted_features, prep_ref.order_features(sp), "state features")
    same(mod.candidate_sorted_features, prep_ref.order_features(cp), "candidate features")
    compiled = torch.jit.trace(mod, mod.input_prototype())
    k = 0
    for batch in slate_batches(len(srows), len(crows), S, tier):
        s, c, rs, rc = slate_inputs(sp, cp, srows, crows, batch)
        want = []
        with torch.no_grad():
            for b in range(len(batch)):
                idx = torch.arange(T)[None]
                want.append(net(rlt.PreprocessedRankingInput.from_tensors(
                    state=rs[b:b + 1], src_seq=rc[b:b + 1], src_src_mask=torch.ones(1, S, S), tgt_out_seq=rc[b:b + 1, :T], tgt_out_idx=idx + 2)).predicted_reward.tolist()[0])
            close(mod(s, c), want, "rewards")
            close(compiled(s, c), want, "compiled rewards")
        k += 1
    ctx.step(k)


def g_vm(ctx, tier):
    for concat, log in itertools.product((False, True), repeat=2):
        for norm, cand in [("cont", "mixed"), ("mixed", "raw")]:
            ctx.run("vm/%d%d/%s-%s" % (concat, log, norm, cand), lambda: vm_slate(ctx, concat, log, norm, cand, tier))


def g_seq2slate(ctx, tier):
    for arch in (Seq2SlateOutputArch.AUTOREGRESSIVE, Seq2SlateOutputArch.FRECHET_SORT):
        for norm, cand in [("cont", "mixed"), ("mixed", "raw")]:
            for greedy in (True, False):
                if arch == Seq2SlateOutputArch.FRECHET_SORT and not greedy:
                    continue
                ctx.run("seq2slate/%s/%s-%s/%d" % (arch.value, norm, cand, greedy), lambda: seq2slate(ctx, arch, norm, cand, tier, greedy))


def g_slate_reward(ctx, tier):
    for cls in (Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet):
        for S, T in [(1, 1), (2, 1), (3, 2), (3, 3)]:
            ctx.run("slate-reward/%s/%d-%d" % (cls.__name__, S, T), lambda: slate_reward(ctx, cls, "cont", "mixed", S, T, tier))


# --- sequence models --------------------------------------------------------------
def seq2reward(ctx, norm, T, A, planner, tier):
    params = NORMS[norm]
    rows = rows_of(params)
    dim = len(reference(params, rows[0]))
    seed_all(7)
    net = Seq2RewardNetwork(state_dim=dim, action_dim=A, num_hiddens=3, num_hidden_layers=2)
    g = np.random.RandomState(3)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor(g.normal(size=tuple(p.shape)), dtype=torch.float32))
    prep = Preprocessor(params, use_gpu=False)
    step_net = None
    if planner:
        step_net = FullyConnectedNetwork([dim, T], ["linear"])
        mod = pw.Seq2RewardPlanShortSeqWithPreprocessor(copy.deepcopy(net), copy.deepcopy(step_net), prep, T, A)
    else:
        mod = pw.Seq2RewardWithPreprocessor(copy.deepcopy(net), prep, T, A)
    mod.eval()
    names = ["n%d" % a for a in range(A)][::-1]
    pred = pw.DiscreteDqnPredictorWrapper(mod, names, rlt.ModelFeatureConfig())

    def best(vec, length):
        out = [-1e30] * A
        for seq in itertools.product(range(A), repeat=length):
            act = torch.zeros(length, 1, A)
            for t, a in enumerate(seq):
                act[t, 0, a] = 1.0
            st = torch.tensor([[vec]] * length, dtype=torch.float32)
            with torch.no_grad():
                v = net(rlt.FeatureData(st), rlt.FeatureData(act)).acc_reward.item()
            out[seq[0]] = max(out[seq[0]], v)
        return out

    want = []
    for r in rows:
        vec = reference(params, r)
        if not planner:
            want.append(best(vec, T))
        else:
            with torch.no_grad():
                logit = step_net(torch.tensor([vec], dtype=torch.float32))[0].double()
            p = torch.softmax(logit, 0).tolist()
            per = [best(vec, l) for l in range(1, T + 1)]
            want.append([sum(p[l] * per[l][a] for l in range(T)) for a in range(A)])
    bs = batches(len(rows), tier, 3)
    for p, some in ((pred, bs), (reload_(pred), bs[-2:])):
        for b_ in some:
            got_names, q = p(serving(tensors([rows[i] for i in b_])))
            same(list(got_names), names, "names")
            close(q, [want[i] for i in b_], "best predicted reward of rows %s" % b_[:4])
    ctx.step(len(bs))


def mdn(ctx, norm, tier):
    params = NORMS[norm]
    rows = rows_of(params)
    dim = len(reference(params, rows[0]))
    seed_all(8)
    net = MDNRNN(dim, 2, 3, 1, 2)
    mod = pw.MDNRNNWithPreprocessor(copy.deepcopy(net), Preprocessor(params, use_gpu=False), 1, 2).eval()
    compiled = torch.jit.trace(mod, mod.input_prototype())
    acts = [[1.0, 0.0], [0.0, 1.0], [0.3, 0.7]]
    for b_ in batches(len(rows), tier, 3):
        a = torch.tensor([[acts[i % 3] for i in b_]])
        with torch.no_grad():
            outs = [mod(tensors([rows[i] for i in b_]), a), compiled(tensors([rows[i] for i in b_]), a)]
            for pos, i in enumerate(b_):
                e = net(a[:, pos:pos + 1], torch.tensor([[reference(params, rows[i])]], dtype=torch.float32))
                for o in outs:
                    for k in range(6):
                        close(o[k][:, pos:pos + 1], e[k], "output %d" % k)
                    for k in range(2):
                        close(o[6][k][:, pos:pos + 1], e[6][k], "hidden")
        ctx.step(1)


def compress(ctx, norm, tier):
    params = NORMS[norm]
    rows = rows_of(params)
    dim = len(reference(params, rows[0]))
    net = FullyConnectedNetwork([dim, 4, 2], ["relu", "linear"], dropout_ratio=0.5)
    mod = pw.CompressModelWithPreprocessor(copy.deepcopy(net), Preprocessor(params, use_gpu=False), rlt.ModelFeatureConfig()).eval()
    mod.model.input_prototype = lambda: rlt.FeatureData(torch.randn(1, dim))
    pred = pw.DiscreteDqnPredictorWrapper(mod, ["p", "q"], rlt.ModelFeatureConfig())
    net.eval()
    with torch.no_grad():
        want = [net(torch.tensor([reference(params, r)], dtype=torch.float32)).tolist()[0] for r in rows]
    for b_ in batches(len(rows), tier, 3):
        n, q = pred(serving(tensors([rows[i] for i in b_])))
        close(q, [want[i] for i in b_], "values")
        ctx.step(1)


def g_sequence(ctx, tier):
    for norm in (["cont", "mixed"] if tier == "quick" else list(NORMS)):
        for T, A in [(1, 2), (2, 2), (3, 2), (2, 3)] + ([] if tier == "quick" else [(4, 2), (3, 3)]):
            for planner in (False, True):
                ctx.run("seq2reward/%s/%d-%d/%d" % (norm, T, A, planner), lambda: seq2reward(ctx, norm, T, A, planner, tier))
    for norm in NORMS:
        ctx.run("mdnrnn/%s" % norm, lambda: mdn(ctx, norm, tier))
        ctx.run("compress/%s" % norm, lambda: compress(ctx, norm, tier))


# --- diversified ranking ------------------------------------------------------------
def dpp(alpha, q, f):
    n = len(q)
    pred = DeterminantalPointProcessPredictorWrapper(alpha=alpha)
    chosen, dets, L, B = pred(torch.tensor([[x] for x in q]), torch.tensor(f))
    fn = [np.array(v) / max(np.linalg.norm(v), 1e-12) for v in f]
    Lw = np.array([[q[i] ** 2 if i == j else alpha * q[i] * q[j] * float(fn[i] @ fn[j]) for j in range(n)] for i in range(n)])
    close(L, Lw.tolist(), "kernel")
    close(B, [(alpha ** 0.5 * q[i] * fn[i]).tolist() for i in range(n)], "factors")
    order = chosen.tolist()
    same(sorted(order), list(range(n)), "every item is chosen once")
    for step in range(n):
        prefix = order[:step]
        vals = {}
        for i in range(n):
            if i in prefix:
                continue
            idx = prefix + [i]
            vals[i] = float(np.linalg.det(Lw[np.ix_(idx, idx)]))
            close(dets[step, i], vals[i], "determinant", rtol=1e-3, atol=1e-4)
        expect(vals[order[step]] >= max(vals.values()) - 1e-4, "step %d chose %d among %s" % (step, order[step], vals))
        for i in prefix:
            expect(float(dets[step, i]) < min(vals.values()), "a chosen item is never better than a remaining one")


def g_dpp(ctx, n, tier):
    vecs = [[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [-1.0, 0.5]]
    qs = [0.5, 1.0, 2.0] if tier != "quick" or n < 3 else [0.5, 2.0]
    for alpha in (0.0, 0.5, 1.0):
        for q in itertools.product(qs, repeat=n):
            for f in itertools.product(vecs if n < 4 else vecs[:3], repeat=n):
                ctx.run("dpp/%s/%s/%s" % (alpha, q, [vecs.index(x) for x in f]), lambda: dpp(alpha, list(q), [list(x) for x in f]), nontrivial=n > 1)


def groups(tier):
    kinds = list(q_builders())
    quick = tier == "quick"
    out = []
    for k in kinds:
        out.append(("dqn_" + k, lambda ctx, k=k: g_dqn(ctx, [k], list(NORMS), (2,) if quick else (1, 2, 3, 4), tier)))
    out.append(("sparse", lambda ctx: sparse(tier, ctx, None)))
    out.append(("parametric", lambda ctx: g_parametric(ctx, tier)))
    out.append(("actor", lambda ctx: g_actor(ctx, tier)))
    out.append(("vm", lambda ctx: g_vm(ctx, tier)))
    out.append(("seq2slate", lambda ctx: g_seq2slate(ctx, tier)))
    out.append(("slate_reward", lambda ctx: g_slate_reward(ctx, tier)))
    out.append(("sequence", lambda ctx: g_sequence(ctx, tier)))
    for n in (1, 2, 3) + (() if quick else (4,)):
        out.append(("dpp%d" % n, lambda ctx, n=n: g_dpp(ctx, n, tier)))
    return out

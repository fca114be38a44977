"""D01: typed batches keep their fields through every conversion."""
import copy
import dataclasses
import io
import itertools
import math
import pickle
import typing

import numpy as np
import torch

import reagent.types as rlt
from mc.core import SEED, close, expect, raises, same
from reagent import torch_utils
from reagent.preprocessing.types import InputColumn as IC

LEVEL = "exploration"
RULE = (
    "every typed batch class x every presence pattern of its optional fields (thorough: all; quick: all patterns with at most two fields "
    "present or absent) x every conversion; every from_dict x every subset of optional and every missing required column; every ranking of up "
    "to 4 candidates; all small masks, tilings, gathers, softmaxes and rescalings against their definition; a case is non-trivial when the "
    "batch has more than one row"
)
ASSUMPTIONS = ["there is no GPU: moving to it is a stand-in that marks the tensors it was asked to move", "float32 tolerance", "values and masks that from_dict fills in for documents are only judged for their shape"]

B = 3
CLASSES = [c for c in vars(rlt).values() if isinstance(c, type) and issubclass(c, rlt.TensorDataClass) and c is not rlt.TensorDataClass]
COUNT = itertools.count(1)


def leaf(*shape, dtype=torch.float32):
    """a tensor whose entries are found nowhere else"""
    n = int(np.prod(shape)) if shape else 1
    return (torch.arange(n, dtype=torch.float64) + 1000 * next(COUNT)).reshape(shape or ()).to(dtype)


def features(kind=0):
    kw = {}
    if kind & 1:
        kw["id_list_features"] = {"a": (torch.tensor([0, 1, 2]), leaf(3, dtype=torch.int64)), "b": (torch.tensor([0, 0, 1]), leaf(2, dtype=torch.int64))}
    if kind & 2:
        kw["id_score_list_features"] = {"c": (torch.tensor([0, 1, 2]), leaf(3, dtype=torch.int64), leaf(3))}
    if kind & 4:
        kw["candidate_docs"] = rlt.DocList(float_features=leaf(B, 2, 2), mask=torch.ones(B, 2, dtype=torch.bool), value=leaf(B, 2))
    if kind & 8:
        kw["stacked_float_features"] = leaf(2, B, 2)
    if kind & 16:
        kw["time_since_first"] = leaf(B, 1)
    return rlt.FeatureData(float_features=leaf(B, 2), **kw)


def optional(t):
    return type(None) in typing.get_args(t)


def make(t, kind=0):
    args = [a for a in typing.get_args(t) if a is not type(None)]
    if typing.get_origin(t) is typing.Union:
        return make(args[0], kind)
    if t is torch.Tensor:
        return leaf(B, 2)
    if t is rlt.FeatureData:
        return features(kind)
    if t is rlt.DocList:
        return rlt.DocList(float_features=leaf(B, 2, 2), mask=torch.ones(B, 2, dtype=torch.bool), value=leaf(B, 2))
    if t is rlt.ExtraData:
        return rlt.ExtraData(mdp_id=leaf(B, 1), action_probability=leaf(B, 1), max_num_actions=7)
    if t is rlt.IdListFeature:
        return features(1).id_list_features
    if t is rlt.IdScoreListFeature:
        return features(2).id_score_list_features
    if t is int:
        return next(COUNT)
    if t is float:
        return next(COUNT) + 0.5
    if t is str:
        return "name%d" % next(COUNT)
    if isinstance(t, type) and dataclasses.is_dataclass(t):
        return build(t, ())
    raise Exception("no value for %r" % (t,))


def fields(cls):
    h = typing.get_type_hints(cls)
    return [(f.name, h[f.name], f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING) for f in dataclasses.fields(cls)]


def build(cls, present, kind=0):
    if cls is rlt.DocList:
        return make(cls)
    kw = {}
    for name, t, default in fields(cls):
        if default and name not in present:
            continue
        kw[name] = make(t, kind)
    if cls is rlt.FeatureData:
        kw["float_features"] = leaf(B, 2)
        if "stacked_float_features" in kw:
            kw["stacked_float_features"] = leaf(2, B, 2)
    return cls(**kw)


def walk(v, f, path=""):
    """apply f to every tensor, keep everything else"""
    if isinstance(v, torch.Tensor):
        return f(v)
    if dataclasses.is_dataclass(v):
        return {fl.name: walk(getattr(v, fl.name), f) for fl in dataclasses.fields(v)}
    if isinstance(v, dict):
        return {k: walk(x, f) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return [walk(x, f) for x in v]
    return v


def view(v):
    return walk(v, lambda t: (str(t.dtype), t.tolist()))


def kinds(v, w, what):
    """same classes all the way down"""
    same(type(w).__name__, type(v).__name__, what + ": class")
    if dataclasses.is_dataclass(v):
        for fl in dataclasses.fields(v):
            kinds(getattr(v, fl.name), getattr(w, fl.name), what + "." + fl.name)
    elif isinstance(v, dict):
        for k in v:
            kinds(v[k], w[k], what + "." + str(k))
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            kinds(x, w[i], what + "." + str(i))


def leaves(v):
    out = []
    walk(v, lambda t: out.append(t))
    return out


CONV = {
    "cpu": (lambda x: x.cpu(), lambda t: t),
    "clone": (lambda x: x.clone(), lambda t: t),
    "detach": (lambda x: x.detach(), lambda t: t),
    "to-dtype": (lambda x: x.to(torch.float64), lambda t: t.to(torch.float64)),
    "to-device": (lambda x: x.to("cpu", non_blocking=True), lambda t: t),
    "double": (lambda x: x.double(), lambda t: t.double()),
    "long": (lambda x: x.long(), lambda t: t.long()),
    "index_select": (lambda x: x.index_select(0, torch.tensor([1, 0])), lambda t: t.index_select(0, torch.tensor([1, 0]))),
    "repeat_interleave": (lambda x: x.repeat_interleave(2, dim=0), lambda t: t.repeat_interleave(2, dim=0)),
}


class Moved:
    """moving a tensor to the GPU returns a marked copy"""

    def __enter__(self):
        self.old = torch.Tensor.cuda
        self.calls = []

        def cuda(t, *a, **k):
            self.calls.append((a, k))
            r = t.clone()
            r.on_gpu = True
            return r
        torch.Tensor.cuda = cuda
        return self

    def __exit__(self, *a):
        torch.Tensor.cuda = self.old


def convert(x):
    before = view(x)
    for name, (op, ref) in CONV.items():
        y = op(x)
        kinds(x, y, name)
        same(view(y), walk(x, lambda t: (str(ref(t).dtype), ref(t).tolist())), name)
        same(view(x), before, "the original after " + name)
    c = x.clone()
    for a, b in zip(leaves(x), leaves(c)):
        expect(a.data_ptr() != b.data_ptr() or a.numel() == 0, "clone shares memory")
    for name, y in (("deepcopy", copy.deepcopy(x)), ("copy", copy.copy(x)), ("pickle", pickle.loads(pickle.dumps(x))), ("_replace", x._replace())):
        kinds(x, y, name)
        same(view(y), before, name)
    with Moved():
        y = x.cuda()
    kinds(x, y, "cuda")
    same(view(y), before, "cuda")
    expect(all(getattr(t, "on_gpu", False) for t in leaves(y)), "not everything was moved to the GPU: %s", walk(y, lambda t: getattr(t, "on_gpu", False)))
    same(view(x), before, "the original after cuda")
    for f in dataclasses.fields(x):
        v = getattr(x, f.name)
        new = v.clone() + 1 if isinstance(v, torch.Tensor) and v.dtype != torch.bool else copy.deepcopy(v)
        y = x._replace(**{f.name: new})
        kinds(x, y, "_replace")
        want = dict(before)
        want[f.name] = view(new)
        same(view(y), want, "_replace of " + f.name)
        same(view(x), before, "the original after _replace")


def patterns(names, full):
    for p in itertools.product((False, True), repeat=len(names)):
        if full or sum(p) <= 2 or len(p) - sum(p) <= 2:
            yield tuple(n for n, q in zip(names, p) if q)


def conversions(tier, part, parts):
    def fn(ctx):
        i = 0
        for cls in CLASSES:
            opt = [n for n, t, d in fields(cls) if d]
            has_fd = any(t in (rlt.FeatureData, typing.Optional[rlt.FeatureData]) for _, t, _ in fields(cls))
            for p in patterns(opt, tier == "thorough" or len(opt) <= 6):
                for kind in ((0, 1, 2, 4, 8, 16, 31) if has_fd and (not p or len(p) == len(opt)) else (0,)):
                    i += 1
                    if i % parts != part:
                        continue

                    def case():
                        x = build(cls, p, kind)
                        for n in opt:
                            if n not in p and cls is not rlt.DocList:
                                expect(getattr(x, n) is None or n in ("extras", "id_list_features", "id_score_list_features"), "absent %s is %s", n, getattr(x, n))
                        convert(x)
                        ctx.state((cls.__name__, p, kind))
                        ctx.step(len(CONV) + 5)
                    ctx.run((cls.__name__, "+".join(p), kind), case)
    return fn


def access(ctx):
    for cls in CLASSES:
        def case():
            x = build(cls, ())
            for a in ("no_such_thing", "_private", "__no_dunder__"):
                e = raises(lambda: getattr(x, a), "attribute " + a)
                expect(isinstance(e, AttributeError) and not hasattr(x, a) and getattr(x, a, 5) == 5, "an unknown attribute is %r", e)
            raises(lambda: x.no_such_thing(), "unknown method")
            raises(lambda: cls(**{"no_such_field": 1}), "unknown field")
            raises(lambda: x._replace(no_such_field=1), "unknown field")
        ctx.run(cls.__name__, case)


# -- documents and features ----------------------------------------------------------------------
def documents(ctx):
    def shapes():
        for s in ((), (2,), (2, 2), (1, 1, 1, 1)):
            raises(lambda: rlt.DocList(float_features=torch.ones(s)), "documents of shape %s" % (s,))
        for b, n, d in itertools.product((0, 1, 2), (0, 1, 3), (1, 2)):
            x = rlt.DocList(float_features=torch.ones(b, n, d))
            same([x.mask.dtype == torch.bool, list(x.mask.shape), bool(x.mask.all())], [True, [b, n], True], "default mask")
            same(x.value, torch.ones(b, n), "default value")
        for s in ((), (2,), (1, 1, 1, 1)):
            raises(lambda: rlt.FeatureData(float_features=torch.ones(s)), "features of shape %s" % (s,))
        same(rlt.FeatureData(float_features=torch.ones(2, 3, 4)).float_features.shape, [2, 3, 4], "sequence features")
        t = rlt.TensorFeatureData()
        x = leaf(2, 2)
        y = t(x)
        expect(isinstance(y, rlt.FeatureData), "wrapped features")
        same(y.float_features, x, "wrapped features")
        raises(lambda: t(y), "wrapping features twice")
        for k in range(32):
            same(features(k).has_float_features_only, not (k & (1 | 2 | 4 | 16)), "has_float_features_only of kind %d" % k)
    ctx.run("shapes", shapes)
    for n, k in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3)):
        perms = list(itertools.product(range(n), repeat=k))
        for b in (1, 2):
            for acts in itertools.product(perms, repeat=b):
                if b == 2 and hash((acts, SEED * 0)) % 3 and n == 3:
                    continue

                def slate():
                    f, v = leaf(b, n, 2), leaf(b, n)
                    for m in itertools.product((False, True), repeat=b * n):
                        mask = torch.tensor(m).reshape(b, n)
                        x = rlt.DocList(float_features=f, mask=mask, value=v)
                        a = torch.tensor(acts)
                        if not all(mask[i, j] for i in range(b) for j in acts[i]):
                            raises(lambda: x.select_slate(a), "a slate with an absent document")
                            continue
                        y = x.select_slate(a)
                        same(y.float_features, [[f[i, j].tolist() for j in acts[i]] for i in range(b)], "selected documents")
                        same(y.value, [[v[i, j].item() for j in acts[i]] for i in range(b)], "values of the selected documents")
                        same(y.mask, [[True] * k] * b, "mask of the selected documents")
                        same(y.as_feature_data().float_features, [f[i, j].tolist() for i in range(b) for j in acts[i]], "documents as rows")
                        ctx.step()
                    ctx.state((n, k, acts))
                ctx.run(("slate", n, acts), slate, nontrivial=b > 1)
    for b, s, n, d in itertools.product((1, 2, 3), (1, 2), (1, 2, 3), (1, 2)):
        def combine():
            f, c = leaf(b, s), leaf(b, n, d)
            x = rlt.FeatureData(float_features=f, candidate_docs=rlt.DocList(float_features=c))
            same(x.concat_user_doc(), [[f[i].tolist() + c[i, j].tolist() for j in range(n)] for i in range(b)], "user and document")
            same(rlt._embed_states(x).float_features, [f[i].tolist() + [v for j in range(n) for v in c[i, j].tolist()] for i in range(b)], "user and all documents")
            raises(lambda: rlt.FeatureData(float_features=f).concat_user_doc(), "no documents")
            raises(lambda: rlt._embed_states(rlt.FeatureData(float_features=f)), "no documents")
            raises(lambda: x.get_tiled_batch(2), "tiling documents")
            raises(lambda: rlt.FeatureData(float_features=leaf(b + 1, s), candidate_docs=rlt.DocList(float_features=c)).concat_user_doc(), "documents of fewer users")
            for t in (1, 2, 3):
                same(rlt.FeatureData(float_features=f).get_tiled_batch(t).float_features, [f[i].tolist() for i in range(b) for _ in range(t)], "tiled rows")
            ctx.state((b, s, n, d))
        ctx.run(("combine", b, s, n, d), combine, nontrivial=b > 1)


# -- from_dict -----------------------------------------------------------------------------------
def ids():
    return {"a": (torch.tensor([0, 1, 2]), leaf(3, dtype=torch.int64))}


def scores():
    return {"c": (torch.tensor([0, 1, 2]), leaf(3, dtype=torch.int64), leaf(3))}


BASE = [IC.STATE_FEATURES, IC.NEXT_STATE_FEATURES, IC.REWARD, IC.TIME_DIFF, IC.NOT_TERMINAL]


def base_row():
    return {IC.STATE_FEATURES: leaf(B, 2), IC.NEXT_STATE_FEATURES: leaf(B, 2), IC.REWARD: leaf(B, 1), IC.TIME_DIFF: leaf(B, 1), IC.NOT_TERMINAL: leaf(B, 1)}


OPT = {
    IC.STEP: lambda: leaf(B, 1), IC.STATE_ID_LIST_FEATURES: ids, IC.STATE_ID_SCORE_LIST_FEATURES: scores, IC.NEXT_STATE_ID_LIST_FEATURES: ids,
    IC.NEXT_STATE_ID_SCORE_LIST_FEATURES: scores, IC.CANDIDATE_FEATURES: lambda: leaf(B, 2, 3), IC.NEXT_CANDIDATE_FEATURES: lambda: leaf(B, 3, 3),
}


def check_base(x, d, what=""):
    same(x.state.float_features, d[IC.STATE_FEATURES], "state")
    same(x.next_state.float_features, d[IC.NEXT_STATE_FEATURES], "next state")
    for f, n in (("reward", IC.REWARD), ("time_diff", IC.TIME_DIFF), ("not_terminal", IC.NOT_TERMINAL)):
        same(getattr(x, f), d[n], f)
    expect(x.step is None if d.get(IC.STEP) is None else torch.equal(x.step, d[IC.STEP]), "step")
    for s, a, b, c in ((x.state, IC.STATE_ID_LIST_FEATURES, IC.STATE_ID_SCORE_LIST_FEATURES, IC.CANDIDATE_FEATURES),
                       (x.next_state, IC.NEXT_STATE_ID_LIST_FEATURES, IC.NEXT_STATE_ID_SCORE_LIST_FEATURES, IC.NEXT_CANDIDATE_FEATURES)):
        same(view(s.id_list_features), view(d.get(a) or {}), a)
        same(view(s.id_score_list_features), view(d.get(b) or {}), b)
        if d.get(c) is None:
            expect(s.candidate_docs is None, "%s appeared", c)
        else:
            same(s.candidate_docs.float_features, d[c], c)
            same([list(s.candidate_docs.mask.shape), list(s.candidate_docs.value.shape)], [list(d[c].shape[:2])] * 2, "shapes of mask and value of " + c)
    same(len(x), B, "length")
    same(x.batch_size(), B, "batch size")


def from_dict(ctx):
    def optional_sets():
        for p in itertools.product((0, 1, 2), repeat=len(OPT)):  # absent, None, present
            if sum(1 for q in p if q == 1) <= 1 or set(p) <= {0, 1}:
                yield p

    classes = {
        "base": (rlt.BaseInput, {}, {}),
        "discrete": (rlt.DiscreteDqnInput, {IC.ACTION: lambda: leaf(B, 2), IC.NEXT_ACTION: lambda: leaf(B, 2), IC.POSSIBLE_ACTIONS_MASK: lambda: leaf(B, 2), IC.POSSIBLE_NEXT_ACTIONS_MASK: lambda: leaf(B, 2), IC.EXTRAS: lambda: make(rlt.ExtraData)}, {}),
        "policy": (rlt.PolicyNetworkInput, {IC.ACTION: lambda: leaf(B, 2), IC.NEXT_ACTION: lambda: leaf(B, 2)}, {IC.EXTRAS: lambda: make(rlt.ExtraData)}),
    }
    for name, (cls, req, extra) in classes.items():
        for p in optional_sets():
            if p[5] != 2 and p[6] == 2:
                def refused():
                    d = base_row()
                    d.update({k: f() for k, f in req.items()})
                    d[IC.NEXT_CANDIDATE_FEATURES] = leaf(B, 2, 3)
                    raises(lambda: cls.from_dict(d), "candidates of the next state only")
                if not any(p[:6]):
                    ctx.run((name, "next-candidates-only"), refused)
                continue
            for ex in range(2 ** len(extra)):
                def case():
                    d = base_row()
                    d.update({k: f() for k, f in req.items()})
                    for q, (k, f) in zip(p, OPT.items()):
                        if q:
                            d[k] = f() if q == 2 else None
                    if ex:
                        d[IC.EXTRAS] = make(rlt.ExtraData)
                    before = view(d)
                    x = cls.from_dict(d)
                    same(type(x).__name__, cls.__name__, "class")
                    check_base(x, d)
                    same(view(d), before, "the dictionary")
                    if name == "discrete":
                        for f in (IC.ACTION, IC.NEXT_ACTION, IC.POSSIBLE_ACTIONS_MASK, IC.POSSIBLE_NEXT_ACTIONS_MASK):
                            same(getattr(x, f), d[f], f)
                        expect(x.extras is d[IC.EXTRAS], "extras")
                    if name == "policy":
                        same(x.action.float_features, d[IC.ACTION], "action")
                        same(x.next_action.float_features, d[IC.NEXT_ACTION], "next action")
                        expect(x.extras is d.get(IC.EXTRAS), "extras")
                    if name == "base":
                        same(list(x.as_dict_shallow()), ["state", "next_state", "reward", "time_diff", "step", "not_terminal"], "shallow dictionary")
                        expect(all(v is getattr(x, k) for k, v in x.as_dict_shallow().items()), "shallow dictionary")
                    ctx.state((name, p, ex))
                ctx.run((name, "".join(map(str, p)), ex), case)
        for miss in BASE + list(req):
            def missing():
                d = base_row()
                d.update({k: f() for k, f in req.items()})
                d.pop(miss)
                raises(lambda: cls.from_dict(d), "%s without %s" % (name, miss))
            ctx.run((name, "without", miss), missing)

    PAR = {IC.STATE_FEATURES: "state", IC.NEXT_STATE_FEATURES: "next_state", IC.ACTION: "action", IC.NEXT_ACTION: "next_action", IC.POSSIBLE_ACTIONS: "possible_actions", IC.POSSIBLE_NEXT_ACTIONS: "possible_next_actions",
           IC.POSSIBLE_ACTIONS_MASK: "possible_actions_mask", IC.POSSIBLE_NEXT_ACTIONS_MASK: "possible_next_actions_mask", IC.REWARD: "reward", IC.NOT_TERMINAL: "not_terminal", IC.TIME_DIFF: "time_diff", IC.STEP: "step"}

    def par_row():
        d = {k: leaf(B, 2) for k in PAR}
        d[IC.EXTRAS] = make(rlt.ExtraData)
        return d

    def parametric():
        d = par_row()
        x = rlt.ParametricDqnInput.from_dict(d)
        for k, f in PAR.items():
            v = getattr(x, f)
            same(v.float_features if isinstance(v, rlt.FeatureData) else v, d[k], f)
        expect(x.extras is d[IC.EXTRAS], "extras")
        same(x.batch_size(), B, "batch size")
        for k in list(PAR) + [IC.EXTRAS]:
            e = par_row()
            e.pop(k)
            raises(lambda: rlt.ParametricDqnInput.from_dict(e), "without " + k)
            ctx.step()
    ctx.run("parametric", parametric)

    SL = [IC.STATE_FEATURES, IC.NEXT_STATE_FEATURES, IC.CANDIDATE_FEATURES, IC.NEXT_CANDIDATE_FEATURES, IC.ITEM_MASK, IC.NEXT_ITEM_MASK, IC.ITEM_PROBABILITY, IC.NEXT_ITEM_PROBABILITY, IC.ACTION, IC.NEXT_ACTION,
          IC.POSITION_REWARD, IC.REWARD_MASK, IC.TIME_DIFF, IC.NOT_TERMINAL]
    EX = [f.name for f in dataclasses.fields(rlt.ExtraData)]

    def slate_row():
        return {k: leaf(B, 2, 2) if k in (IC.CANDIDATE_FEATURES, IC.NEXT_CANDIDATE_FEATURES) else leaf(B, 2) for k in SL}
    for p in itertools.product((False, True), repeat=len(EX)):
        def slate():
            d = slate_row()
            for n, q in zip(EX, p):
                if q:
                    d[n] = leaf(B, 1)
            d["something_else"] = leaf(1)
            x = rlt.SlateQInput.from_dict(d)
            for s, pre in ((x.state, ""), (x.next_state, "next_")):
                same(s.float_features, d[pre + "state_features"], pre + "state")
                same(s.candidate_docs.float_features, d[pre + "candidate_features"], pre + "candidates")
                same(s.candidate_docs.mask, d[pre + "item_mask"], pre + "mask")
                same(s.candidate_docs.value, d[pre + "item_probability"], pre + "probability")
            for f, k in (("action", IC.ACTION), ("next_action", IC.NEXT_ACTION), ("reward", IC.POSITION_REWARD), ("reward_mask", IC.REWARD_MASK), ("time_diff", IC.TIME_DIFF), ("not_terminal", IC.NOT_TERMINAL)):
                same(getattr(x, f), d[k], f)
            expect(x.step is None, "step")
            for n in EX:
                expect(getattr(x.extras, n) is d.get(n), "extra %s", n)
            y = rlt.ExtraData.from_dict(d)
            same(view(y), view(x.extras), "extras")
            ctx.state(("slate", p))
        ctx.run(("slate", "".join(str(int(q)) for q in p)), slate)
    for k in SL:
        ctx.run(("slate", "without", k), lambda: raises(lambda: rlt.SlateQInput.from_dict({a: b for a, b in slate_row().items() if a != k}), "without " + k))

    def lengths():
        mk = lambda x: rlt.MemoryNetworkInput(state=rlt.FeatureData(float_features=x), next_state=rlt.FeatureData(float_features=x), reward=x, time_diff=x, step=None, not_terminal=x, action=x)
        same(len(mk(leaf(4, 2))), 4, "rows")
        same(len(mk(leaf(5, 4, 2))), 4, "sequences")
        same(mk(leaf(5, 4, 2)).batch_size(), 4, "sequences")
        p = rlt.PolicyGradientInput.input_prototype()
        n = p.state.float_features.shape[0]
        same([p.action.shape[0], p.reward.shape[0], p.log_prob.shape[0], p.possible_actions_mask.shape[0]], [n] * 4, "rows of the prototype")
        same(p.action.shape[1], p.possible_actions_mask.shape[1], "actions of the prototype")
        same(rlt.PreprocessedTrainingBatch(training_input=build(rlt.PreprocessedRankingInput, ())).batch_size(), B, "rows")
    ctx.run("lengths", lengths)


# -- ranking inputs ------------------------------------------------------------------------------
def ranking(ctx):
    for n in (1, 2, 3, 4):
        for k in range(1, n + 1):
            perms = list(itertools.permutations(range(n), k))
            for r, a in enumerate(perms):
                def case():
                    b = 2
                    acts = [a, perms[(r + 1) % len(perms)]]
                    opts = [perms[(r + 2) % len(perms)], a]
                    for on in itertools.product((False, True), repeat=6):
                        st, ca = leaf(b, 2), leaf(b, n, 2)
                        act, opt, prop, sr, pr, ex = on
                        kw = {}
                        if act:
                            kw["action"] = torch.tensor(acts)
                        if opt:
                            kw["optimal_action"] = torch.tensor(opts)
                        if prop:
                            kw["logged_propensities"] = leaf(b, 1)
                        if sr:
                            kw["slate_reward"] = leaf(b, 1)
                        if pr:
                            kw["position_reward"] = leaf(b, k)
                        if ex:
                            kw["extras"] = make(rlt.ExtraData)
                        mk = lambda **over: rlt.PreprocessedRankingInput.from_input(**dict(dict(state=st, candidates=ca, device=torch.device("cpu"), **kw), **over))
                        if pr and not act:
                            raises(mk, "rewards of positions without a slate")
                            continue
                        x = mk()
                        same(x.batch_size(), b, "batch size")
                        same(x.state.float_features, st, "state")
                        same(x.src_seq.float_features, ca, "candidates")
                        same(x.src_in_idx, [[j + 2 for j in range(n)]] * b, "candidate symbols")
                        same(x.src_src_mask, [[[1] * n] * n] * b, "candidate mask")
                        for on_, rows, ii, oi, si, so in ((act, acts, "tgt_in_idx", "tgt_out_idx", "tgt_in_seq", "tgt_out_seq"), (opt, opts, "optim_tgt_in_idx", "optim_tgt_out_idx", "optim_tgt_in_seq", "optim_tgt_out_seq")):
                            if not on_:
                                expect(all(getattr(x, f) is None for f in (ii, oi, si, so)), "fields of an absent slate")
                                continue
                            same(getattr(x, oi), [[j + 2 for j in q] for q in rows], oi)
                            same(getattr(x, ii), [[1] + [j + 2 for j in q[:-1]] for q in rows], ii)
                            same(getattr(x, so).float_features, [[ca[i, j].tolist() for j in q] for i, q in enumerate(rows)], so)
                            same(getattr(x, si).float_features, [[[0.0, 0.0]] + [ca[i, j].tolist() for j in q[:-1]] for i, q in enumerate(rows)], si)
                        if act:
                            same(torch.as_tensor(x.tgt_tgt_mask).int(), [[[int(j <= i) for j in range(k)] for i in range(k)]], "no position sees a later one")
                        else:
                            expect(x.tgt_tgt_mask is None, "mask of an absent slate")
                        for f, q in (("tgt_out_probs", "logged_propensities"), ("slate_reward", "slate_reward"), ("position_reward", "position_reward")):
                            expect(getattr(x, f) is None if q not in kw else torch.equal(getattr(x, f), kw[q]), f)
                        expect(x.extras is kw.get("extras"), "extras")
                        ctx.step()
                    ctx.state((n, acts, opts))
                ctx.run((n, a), case)

    def refused():
        st, ca = leaf(2, 2), leaf(2, 3, 2)
        mk = lambda **o: rlt.PreprocessedRankingInput.from_input(**dict(dict(state=st, candidates=ca, device=torch.device("cpu")), **o))
        act = torch.tensor([[0, 1], [2, 0]])
        for what, o in (("flat state", dict(state=leaf(2))), ("flat candidates", dict(candidates=leaf(2, 3))), ("flat action", dict(action=torch.tensor([0, 1]))), ("flat propensities", dict(logged_propensities=leaf(2))),
                        ("propensities of positions", dict(logged_propensities=leaf(2, 2))), ("flat slate reward", dict(slate_reward=leaf(2))), ("slate reward of positions", dict(slate_reward=leaf(2, 2))),
                        ("rewards of fewer positions", dict(action=act, position_reward=leaf(2, 1))), ("rewards of more slates", dict(action=act, position_reward=leaf(3, 2)))):
            raises(lambda: mk(**o), what)
            ctx.step()
        good = {n: leaf(2, 2) for n, t, d in fields(rlt.PreprocessedRankingInput) if n != "extras"}
        x = rlt.PreprocessedRankingInput.from_tensors(**good)
        for n, v in good.items():
            g = getattr(x, n)
            same(g.float_features if isinstance(g, rlt.FeatureData) else g, v, n)
        for n in good:
            raises(lambda: rlt.PreprocessedRankingInput.from_tensors(**dict(good, **{n: [[1.0, 2.0]]})), "%s is not a tensor" % n)
            ctx.step()
        raises(lambda: rlt.PreprocessedRankingInput.from_tensors(**dict(good, extras={"a": 1})), "extras are not typed")
        for n in ("state", "src_seq", "tgt_in_seq", "tgt_out_seq", "optim_tgt_in_seq", "optim_tgt_out_seq"):
            kw = dict(state=features(), src_seq=features())
            kw[n] = leaf(2, 2)
            raises(lambda: rlt.PreprocessedRankingInput(**kw), "%s is a tensor" % n)
            ctx.step()
        only = rlt.PreprocessedRankingInput.from_tensors(state=leaf(2, 2), src_seq=leaf(2, 2))
        expect(all(getattr(only, n) is None for n in good if n not in ("state", "src_seq")), "absent fields")
    ctx.run("refused", refused)


# -- feature configurations ----------------------------------------------------------------------
def feature_configs(ctx):
    for ls, ss in itertools.product((0, 1, 2), repeat=2):
        for idn in itertools.product((1, 2, 3), repeat=ls + ss):
            for nm in itertools.product("ab", repeat=ls + ss) if ls + ss > 2 else itertools.product("abc", repeat=ls + ss):
                if ls + ss > 2 and nm != tuple("abababab"[: ls + ss]) and len(set(idn)) < ls + ss:
                    continue

                def case():
                    items = list(zip(idn, nm))
                    mk = lambda: rlt.ModelFeatureConfig(id_mapping_config={"t": rlt.IdMapping(ids=[7, 5])},
                                                        id_list_feature_configs=[rlt.IdListFeatureConfig(name=n, feature_id=i, id_mapping_name="t") for i, n in items[:ls]],
                                                        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name=n, feature_id=i, id_mapping_name="t") for i, n in items[ls:]])
                    if len(set(idn)) < len(idn) or len(set(nm)) < len(nm):
                        raises(mk, "two features of the same id or name: %s" % (items,))
                        return
                    c = mk()
                    same(c.only_dense, not items, "only dense")
                    same(c.id2name, dict(items), "names")
                    same(c.name2id, {n: i for i, n in items}, "ids")
                    cfgs = list(c.id_list_feature_configs) + list(c.id_score_list_feature_configs)
                    same(sorted(c.id2config), sorted(idn), "configs by id")
                    same(sorted(c.name2config), sorted(nm), "configs by name")
                    for (i, n), g in zip(items, cfgs):
                        expect(c.id2config[i] == g and c.name2config[n] == g, "config of %s", n)
                    ctx.state((ls, ss, idn, nm))
                ctx.run((ls, ss, idn, "".join(nm)), case)

    def mapping():
        for k in range(5):
            for p in itertools.permutations((9, 4, 0, 12), k):
                m = rlt.IdMapping(ids=list(p))
                same(m.table_size, k, "table size")
                same(m.id2index, {v: i for i, v in enumerate(p)}, "index of an id")
                same(m.id2index, {v: i for i, v in enumerate(p)}, "index of an id, again")
                ctx.step()
        a, b = rlt.IdMapping(), rlt.IdMapping()
        a.ids.append(1)
        same(b.ids, [], "default ids of another mapping")
        same(hash(rlt.IdMapping(ids=[1, 2])) == hash(rlt.IdMapping(ids=[1, 2])), True, "hash")
    ctx.run("mapping", mapping)


# -- tensor helpers ------------------------------------------------------------------------------
def helpers(ctx):
    vals = (-2.0, 0.0, 1.0, 30.0)
    for n in (1, 2, 3):
        for x in itertools.product(vals, repeat=n):
            def soft():
                for t, shift in itertools.product((0.1, 1.0, 10.0), (0.0, 1000.0, -1000.0)):
                    v = torch.tensor([list(x), list(reversed(x))]) + shift
                    keep = v.clone()

                    def ref(row, m):
                        if not any(m):
                            return [0.0] * n
                        top = max(a for a, q in zip(row, m) if q)
                        e = [math.exp((a - top) / t) if q else 0.0 for a, q in zip(row, m)]
                        return [a / sum(e) for a in e]
                    close(torch_utils.softmax(v, t), [ref(r, [1] * n) for r in v.tolist()], "softmax", 1e-3, 1e-5)
                    for m in itertools.product((0.0, 1.0), repeat=2 * n):
                        mask = torch.tensor(m).reshape(2, n)
                        close(torch_utils.masked_softmax(v, mask, t), [ref(r, q) for r, q in zip(v.tolist(), mask.tolist())], "masked softmax of %s by %s" % (v.tolist(), m), 1e-3, 1e-5)
                        ctx.step()
                    same(v, keep, "the input")
                ctx.state(x)
            ctx.run(("softmax", x), soft)
    for b, d1, d, k in itertools.product((1, 2), (1, 2, 3), (1, 2), (1, 2, 3)):
        for ix in itertools.product(range(d1), repeat=b * k):
            def gat():
                x = leaf(b, d1, d)
                i = torch.tensor(ix).reshape(b, k)
                same(torch_utils.gather(x, i), [[x[r, j].tolist() for j in i[r].tolist()] for r in range(b)], "gather")
                ctx.state((b, d1, d, k, ix))
            if b * k <= 4:
                ctx.run(("gather", b, d1, d, k, ix), gat)
    for n, m in itertools.product((1, 2, 3), (1, 2)):
        def resc():
            ranges = list(itertools.product((-1.0, 0.0, 2.0), (3.0, 10.0)))
            for i, (p, q) in enumerate(itertools.product(ranges, ranges)):
                lo, hi = torch.tensor([[p[0]] * m]), torch.tensor([[p[1], p[1] + 1][:m]])
                nlo, nhi = torch.tensor([[q[0], q[0] - 1][:m]]), torch.tensor([[q[1]] * m])
                x = torch.tensor([[-1.0 + r + c * 2 for c in range(m)] for r in range(n)])
                y = torch_utils.rescale_torch_tensor(x, nlo, nhi, lo, hi)
                close(y, [[(x[r, c] - lo[0, c]) / (hi[0, c] - lo[0, c]) * (nhi[0, c] - nlo[0, c]) + nlo[0, c] for c in range(m)] for r in range(n)], "rescaled")
                close(torch_utils.rescale_torch_tensor(y, lo, hi, nlo, nhi), x, "rescaled back", 1e-4, 1e-4)
                ctx.step()
            w = torch.ones(1, m + 1)
            g = torch.ones(1, m)
            for k in range(4):
                a = [g, g + 1, g, g + 1]
                a[k] = w
                raises(lambda: torch_utils.rescale_torch_tensor(torch.ones(n, m), *a), "a range of more columns")
        ctx.run(("rescale", n, m), resc)
    for k, s in itertools.product((1, 2, 3), ((1,), (2,), (2, 3), (1, 2, 2))):
        def stk():
            xs = [leaf(*s) for _ in range(k)]
            same(torch_utils.stack(xs), [x.tolist() for x in xs], "stack")
        ctx.run(("stack", k, s), stk)

    def rest():
        d = {"a": np.array([[1.0, 2.0]]), "b": np.array([3, 4]), "c": np.array([True])}
        t = torch_utils.dict_to_tensor(d)
        same({k: v.tolist() for k, v in t.items()}, {k: v.tolist() for k, v in d.items()}, "dict_to_tensor")
        m = torch.jit.script(torch.nn.Sequential(torch.nn.Linear(2, 1)))
        b = torch_utils.export_module_to_buffer(m)
        b.seek(0)
        x = torch.tensor([[1.0, 2.0], [0.5, -1.0]])
        same(torch.jit.load(io.BytesIO(b.getvalue()))(x), m(x), "exported module")
        same(str(torch_utils.get_device(m)), "cpu", "device")
    ctx.run("export", rest)


def groups(tier):
    parts = 6
    return [("conversions-%d" % i, conversions(tier, i, parts)) for i in range(parts)] + [
        ("access", access),
        ("documents", documents),
        ("from-dict", from_dict),
        ("ranking", ranking),
        ("feature-configs", feature_configs),
        ("helpers", helpers),
    ]

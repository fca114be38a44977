"""E06: reward-model trainers and the value containers of the OPE package."""
import itertools
import logging
import os
import pickle
import tempfile
import types

import numpy as np
import sklearn.linear_model as sklm
import sklearn.tree as sktree
import torch

from mc.core import close, expect, raises, same

import reagent.ope.trainers.linear_trainers as lt
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace, Trainer, TrainingData, TypeWrapper

logging.disable(logging.ERROR)

LEVEL = "model_checking"
RULE = (
    "containers: every sequence of up to three (four) operations from every initial content, against a dictionary; trainers: every ordering of the candidates' "
    "validation scores in one and two iterations, every subset drawn as sample, every sequence of up to four train/reset/save/load operations; "
    "classifiers on every labelling of small data sets. Non-trivial: more than one operation, candidate or row. Oracle: dictionaries and lists in plain Python"
)
ASSUMPTIONS = [
    "scikit-learn estimators are replaced by recording stand-ins where the choice between candidates is decided (parts of the pinned API are gone from the installed version)",
    "distributions have positive total mass; ties in a sorting may be returned in any order",
]


# -- containers ---------------------------------------------------------------------------------
VALS = (2.0, 0.0, 0.5, -1.0, 3.0)
KEYS = [Action(7), Action(3), Action(5)]


class Ref:
    def __init__(self, keys, vals):
        self.d = dict(zip(keys, vals))

    def copy(self):
        return Ref(list(self.d), list(self.d.values()))


def build(kind, vals):
    if kind == "list":
        return ActionDistribution(list(vals))
    if kind == "tensor":
        return ActionDistribution(torch.tensor(vals, dtype=torch.float))
    if kind == "array":
        return ActionDistribution(np.array(vals, dtype=np.float32))
    return ActionDistribution({k: v for k, v in zip(KEYS, vals)})


def container_ops(n):
    ops = [("sort", True), ("sort", False), ("greedy", 1), ("greedy", 2), ("probability",), ("sample",), ("values",), ("iterate",)]
    ops += [("set", i, v) for i in range(n) for v in (4.0, -2.0)]
    ops += [("replace", how, keep) for how in ("sequence", "tensor", "array", "mapping") for keep in (True, False)]
    return ops


def check_all(obj, ref):
    ks = list(ref.d)
    same(len(obj), len(ks), "length")
    same([k for k in obj.keys] == ks, True, "keys")
    close(obj.values, list(ref.d.values()), "values")
    close([obj[k] for k in ks], list(ref.d.values()), "items")
    same([obj.index_of(k) for k in ks], list(range(len(ks))), "indices")


def apply(ctx, obj, ref, op, kind):
    ks = list(ref.d)
    if op[0] == "sort":
        keys, vals = obj.sort(descending=op[1])
        close(vals, sorted(ref.d.values(), reverse=op[1]), "sorted values")
        expect(set(keys) == set(ks) and len(keys) == len(ks), "sorted keys %s", keys)
        close([ref.d[k] for k in keys], vals.tolist(), "values of the sorted keys")
    elif op[0] == "greedy":
        got = obj.greedy(op[1])
        close([ref.d[k] for k in got], sorted(ref.d.values(), reverse=True)[:op[1]], "greedy")
        expect(len(set(got)) == len(got), "repeated keys")
    elif op[0] in ("probability", "sample"):
        pos = [max(v, 0.0) for v in ref.d.values()]
        if sum(pos) <= 0:
            return obj, ref
        want = [v / sum(pos) for v in pos]
        if op[0] == "probability":
            close([obj.probability(k) for k in ks], want, "probabilities")
        else:
            for i in range(len(ks)):
                seen = []

                def draw(p, size, *a, **k):
                    seen.append((p.tolist(), size))
                    return torch.tensor([(i + j) % len(ks) for j in range(size)])
                old, torch.multinomial = torch.multinomial, draw
                try:
                    got = obj.sample(2)
                finally:
                    torch.multinomial = old
                expect(got == [ks[i], ks[(i + 1) % len(ks)]], "sampled %s", got)
                close(seen[0][0], want, "weights of the draw")
    elif op[0] == "values":
        v = obj.values
        v[0] = 99.0
        expect(obj[ks[0]] == ref.d[ks[0]], "the returned values share the content")
    elif op[0] == "iterate":
        got = list(obj)
        expect([k for k, _ in got] == ks, "keys")
        close([v for _, v in got], list(ref.d.values()), "items")
    elif op[0] == "set":
        obj[ks[op[1]]] = op[2]
        ref.d[ks[op[1]]] = op[2]
    else:
        new = [1.5 * (i + 1) - (3.0 if i == 1 else 0.0) for i in range(len(ks))]
        r2 = Ref(ks, new)
        if op[1] == "sequence":
            o2 = obj.replace(list(new))
        elif op[1] == "tensor":
            o2 = obj.replace(torch.tensor(new, dtype=torch.float))
        elif op[1] == "array":
            o2 = obj.replace(np.array(new))
        else:
            o2 = obj.replace({ks[-1]: 6.0})
            r2 = ref.copy()
            r2.d[ks[-1]] = 6.0
        expect(o2 is not obj and type(o2) is type(obj), "replace returned %s", type(o2))
        check_all(obj, ref)
        check_all(o2, r2)
        if op[2]:
            # a change of the copy is not a change of the original
            o2[ks[0]] = -7.0
            check_all(obj, ref)
            return obj, ref
        return o2, r2
    return obj, ref


def containers(kind, depth):
    def fn(ctx):
        for n in (2, 3):
            ops = container_ops(n)
            for vals in itertools.permutations(VALS[:n + 1], n):
                d = depth if n == 2 else depth - 1
                for seq in itertools.product(range(len(ops)), repeat=d):
                    def case():
                        obj, ref = build(kind, vals), Ref(KEYS[:n] if kind == "map" else [Action(i) for i in range(n)], vals)
                        expect(obj.is_sequence == (kind != "map"), "is_sequence")
                        for i in seq:
                            obj, ref = apply(ctx, obj, ref, ops[i], kind)
                            ctx.step()
                        check_all(obj, ref)
                        ctx.state((kind, tuple(ref.d.values())))
                    ctx.run((n, vals, tuple("/".join(map(str, ops[i])) for i in seq)), case)
            for bad in ([Action(n), Action(-1)] if kind != "map" else [Action(0), Action(99)]):
                def missing():
                    obj = build(kind, VALS[:n])
                    raises(lambda: obj.index_of(bad), "index of a missing key")
                    if kind == "map":
                        raises(lambda: obj[bad], "value of a missing key")
                ctx.run((n, "missing", bad.value), missing)
    return fn


def wrappers(ctx):
    mk = {
        "int": lambda v: v[0], "float": lambda v: float(v[0]), "tuple": tuple, "list": list,
        "tensor": lambda v: torch.tensor(v), "array": lambda v: np.array(v)}
    vals = list(itertools.product((0, 1, 2), repeat=2))
    for a, b in itertools.product(vals, repeat=2):
        for k, f in mk.items():
            if k in ("int", "float") and (a[1] or b[1]):
                continue

            def case():
                x, y = TypeWrapper(f(a)), TypeWrapper(f(b))
                expect((x == y) is (a == b) or bool(x == y) == (a == b), "equality of %s and %s", a, b)
                expect((x != y) == (a != b), "inequality")
                if a == b:
                    expect(hash(x) == hash(y), "equal values have different hashes")
                    expect(y in {x: 1}, "lookup")
                lt_want = all(p < q for p, q in zip(a, b)) if k in ("tensor", "array") else (a[0] < b[0] if k in ("int", "float") else a < b)
                expect(bool(x < y) == lt_want, "%s < %s is %s", a, b, x < y)
                expect(not (x == a) and (x != a), "a wrapper equals a plain value")
                if k in ("int", "float"):
                    expect(int(x) == a[0] and list(range(5))[x] == a[0], "index")
                elif k in ("tuple", "list"):
                    raises(lambda: int(x), "int of a tuple")
                    raises(lambda: [1, 2, 3][x], "index of a tuple")
                ctx.step()
                ctx.state((k, a, b))
            ctx.run((k, a, b), case)
    for n in (1, 2, 3):
        sp = ActionSpace(n)
        named = ActionSpace(KEYS[:n])
        for m in range(0, n + 2):
            for vals in itertools.product((0.0, 0.5, 2.0), repeat=m):
                def fill():
                    pad = (list(vals) + [0.0] * n)[:n]
                    for v in (list(vals), torch.tensor(vals), np.array(vals)):
                        close([float(x) for x in sp.fill(v)], pad, "filled sequence")
                        got = named.fill(v)
                        expect(list(got) == KEYS[:n], "keys")
                        close([float(x) for x in got.values()], pad, "filled names")
                        for space in (sp, named):
                            dist = space.distribution(v)
                            expect(list(dist.keys) == list(space), "keys of the distribution")
                            close(dist.values, pad, "distribution")
                    if m <= n:
                        for space in (sp, named):
                            items = list(space)
                            for sub in itertools.combinations(range(n), m):
                                mp = {items[i]: v for i, v in zip(sub, vals)}
                                want = [mp.get(items[i], 0.0) for i in range(n)]
                                close(space.distribution(mp).values, want, "distribution of a mapping")
                    ctx.state((n, vals))
                ctx.run(("fill", n, vals), fill)

        def space_case():
            for space in (sp, named):
                expect(len(space) == n and [space.index_of(a) for a in space] == list(range(n)), "indices")
                expect([space[i] for i in range(n)] == list(space) == list(space.space), "items")
                raises(lambda: space.index_of(Action(50)), "index of an unknown action")
            expect(sp.is_sequence and not named.is_sequence, "kind")
        ctx.run(("space", n), space_case)


# -- trainers -----------------------------------------------------------------------------------
class Est:
    """stand-in for an estimator; its candidates' scores are scripted"""
    log = None
    scores = None

    def __init__(self, **kw):
        self.kw = kw
        self.no = len(Est.log)
        self.fits, self.asked = [], []
        Est.log.append(self)

    def fit(self, x, y, w=None, sample_weight=None):
        self.fits.append((np.array(x), np.array(y), None if (w is None and sample_weight is None) else np.array(w if w is not None else sample_weight)))
        return self


class Regressor(Est):
    def predict(self, x):
        self.asked.append((np.array(x), None, None))
        # squared error of the prediction decides; targets are zero
        return np.full(len(x), {2: 0.0, 1: 1.0, 0: 2.0}[Est.scores[self.no]])


class Classifier(Est):
    def score(self, x, y, sample_weight=None):
        self.asked.append((np.array(x), np.array(y), None if sample_weight is None else np.array(sample_weight)))
        return Est.scores[self.no] / 2.0

    def predict(self, x):
        return np.zeros(len(x))


TRAINERS = {  # trainer, name in the module, base, candidates, weights used in fitting
    "lasso": (lt.LassoTrainer, "Lasso", Regressor, 7, "alpha", 10.0 ** np.arange(-4, 3)),
    "decision_tree": (lt.DecisionTreeTrainer, "DecisionTreeRegressor", Regressor, 7, "max_depth", [None, 3, 6, 9, 12, 15, 18]),
    "decision_tree_classifier": (lt.DecisionTreeClassifierTrainer, "DecisionTreeClassifier", Classifier, 6, "max_depth", [3, 6, 9, 12, 15, 18]),
    "logistic_regression": (lt.LogisticRegressionTrainer, "LogisticRegression", Classifier, 10, "C", 10.0 ** np.arange(-5, 5)),
    "sgd_classifier": (lt.SGDClassifierTrainer, "SGDClassifier", Classifier, 8, "alpha", 10.0 ** np.arange(-8, 0)),
}
WEIGHTED = ("decision_tree", "decision_tree_classifier", "logistic_regression")


class Stub:
    def __init__(self, name, scores):
        _c, self.attr, self.base, *_ = TRAINERS[name]
        self.scores = scores

    def __enter__(self):
        Est.log, Est.scores = [], self.scores
        self.old = getattr(lt, self.attr)
        setattr(lt, self.attr, self.base)
        return self

    def __exit__(self, *a):
        setattr(lt, self.attr, self.old)


def data(weights, n=3):
    x = torch.tensor([[float(i), 10.0 + i] for i in range(n)])
    y = torch.tensor([100.0 + i for i in range(n)])
    w = torch.tensor([0.5 + i for i in range(n)]) if weights else None
    vx = torch.tensor([[50.0, 51.0], [60.0, 61.0]])
    vy = torch.zeros(2)
    vw = torch.tensor([1.0, 3.0]) if weights else None
    return TrainingData(x, y, w, vx, vy, vw)


def select_case(ctx, name, scores, iterations, weights, num_samples, subsets):
    cls, _a, base, k, par, grid = TRAINERS[name]
    d = data(weights)
    drawn = list(subsets)

    def choice(n, size, replace=True):
        expect(n == 3 and size == num_samples and replace is False, "drew %s of %s, replace %s", size, n, replace)
        return np.array(drawn.pop(0))
    tr = cls()
    same(tr.name, name)
    expect(not tr.is_trained, "trained before training")
    old, np.random.choice = np.random.choice, choice
    try:
        with Stub(name, scores):
            tr.train(d, iterations=iterations, num_samples=num_samples)
            log = Est.log
    finally:
        np.random.choice = old
    expect(tr.is_trained, "not trained")
    expect(not drawn, "%d samples were not drawn", len(drawn))
    best = max(scores[e.no] for e in log)
    expect(scores[tr._model.no] == best, "kept candidate %d with score %s, best is %s", tr._model.no, scores[tr._model.no], best)
    per = []
    for e in log:
        expect(len(e.fits) == 1 and len(e.asked) == 1, "candidate fitted %d times and validated %d times", len(e.fits), len(e.asked))
        x, y, w = e.fits[0]
        rows = [int(v) for v in x[:, 0]]
        close(x[:, 1], [10.0 + r for r in rows], "features")
        close(y, [100.0 + r for r in rows], "targets of the sample")
        if weights and name in WEIGHTED:
            expect(w is not None, "fitted without weights")
        if w is not None:
            close(w, [0.5 + r for r in rows], "weights of the sample")
        per.append(tuple(rows))
        vx, vy, vw = e.asked[0]
        close(vx, d.validation_x.tolist(), "validation features")
        if vy is not None:
            close(vy, d.validation_y.tolist(), "validation targets")
            same(vw, None if not weights else d.validation_weight.tolist(), "validation weights")
    # every iteration tries every candidate on its own sample
    n_done = 0
    for it in range(iterations):
        want_rows = tuple(subsets[it]) if 0 < num_samples < 3 else (0, 1, 2)
        tried = []
        while n_done < len(log) and len(tried) < k and not (it > 0 and name == "decision_tree" and len(tried) == k - 1):
            expect(per[n_done] == want_rows, "candidate %d was fitted on rows %s, want %s", n_done, per[n_done], want_rows)
            tried.append(log[n_done].kw.get(par))
            n_done += 1
        g = list(grid) if not (it > 0 and name == "decision_tree") else list(grid)[1:]
        expect(len(tried) == len(g) and all((a is None) == (b is None) and (a is None or abs(a - b) <= 1e-9 * abs(b)) for a, b in zip(sorted(tried, key=str), sorted(g, key=str))),
               "tried %s, want %s", tried, g)
    expect(n_done == len(log), "%d candidates more", len(log) - n_done)
    ctx.step(len(log))
    ctx.state((name, scores, per[0]))


def selection(name, big):
    def fn(ctx):
        k = TRAINERS[name][3]
        for scores in itertools.product((0, 1, 2) if big or k <= 7 else (0, 2), repeat=k):
            if not big and k <= 7 and 2 not in scores:
                continue
            ctx.run((name, scores), select_case, ctx, name, scores, 1, True, 0, ())
        # the best of all iterations is kept
        for i, j in itertools.product(range(2 * k), repeat=2):
            s = [0] * (2 * k)
            s[i] = 2
            s[j] = max(s[j], 1)
            for wts in (True, False):
                ctx.run((name, "two", i, j, wts), select_case, ctx, name, tuple(s), 2, wts, 0, ())
        for m in (1, 2, 3, 4):
            for a, b in itertools.product(itertools.permutations(range(3), m), repeat=2) if m < 3 else [((), ())]:
                for wts in (True, False):
                    ctx.run((name, "sample", m, a, b, wts), select_case, ctx, name, (1,) * (2 * k), 2, wts, m, (a, b) if m < 3 else ())
    return fn


class Model:
    """picklable model with a name"""

    def __init__(self, tag):
        self.tag = tag

    def predict(self, x):
        return np.full(len(x), float(self.tag))


class Simple(lt.LinearTrainer):
    @property
    def name(self):
        return "simple"

    def train(self, data, iterations=1, num_samples=0):
        self._model = Model(data)


class Unpicklable(Model):
    def __reduce__(self):
        raise RuntimeError("cannot be pickled")


def lifecycle(depth):
    def fn(ctx):
        ops = ["train1", "train2", "bad", "reset", "saveA", "saveB", "loadA", "loadB", "corruptA", "removeB"]
        for seq in itertools.product(ops, repeat=depth):
            def case():
                with tempfile.TemporaryDirectory() as tmp:
                    tr, cur, files = Simple(), None, {}
                    for op in seq:
                        f = op[-1]
                        path = os.path.join(tmp, f)
                        if op.startswith("train"):
                            tr.train(int(f))
                            cur = int(f)
                        elif op == "bad":
                            tr._model = Unpicklable(9)
                            cur = 9
                        elif op == "reset":
                            tr.reset()
                            cur = None
                        elif op.startswith("save"):
                            tr.save_model(path)
                            if cur == 9:
                                # nothing usable was written; what was there before may be gone
                                files[f] = "?"
                            elif cur is not None:
                                files[f] = cur
                        elif op.startswith("load"):
                            tr.load_model(path)
                            if isinstance(files.get(f), int):
                                cur = files[f]
                            elif files.get(f) == "?":
                                cur = None if tr._model is None else tr._model.tag
                        elif op.startswith("corrupt"):
                            if isinstance(files.get(f), int):
                                data = open(path, "rb").read()
                                open(path, "wb").write(data[:len(data) // 2])
                                files[f] = "torn"
                        elif op.startswith("remove"):
                            if os.path.exists(path):
                                os.unlink(path)
                            files.pop(f, None)
                        expect(tr.is_trained == (cur is not None), "is_trained is %s", tr.is_trained)
                        if cur is None:
                            raises(lambda: tr.predict(torch.zeros(2, 1)), "prediction of an untrained model")
                        else:
                            r = tr.predict(torch.zeros(2, 1))
                            close(r.scores, [float(cur)] * 2, "prediction after %s" % op)
                            expect(r.predictions is None and r.probabilities is None, "a regressor predicts no class")
                        ctx.step()
                    ctx.state((cur, tuple(sorted(files.items()))))
            ctx.run(seq, case)
        # every torn file
        def torn():
            with tempfile.TemporaryDirectory() as tmp:
                p = os.path.join(tmp, "m")
                tr = Simple()
                tr.train(3)
                tr.save_model(p)
                blob = open(p, "rb").read()
                for cut in range(len(blob)):
                    open(p, "wb").write(blob[:cut])
                    t2 = Simple()
                    t2.train(5)
                    t2.load_model(p)
                    expect(t2.is_trained and t2._model.tag == 5, "a file torn after %d bytes replaced the model", cut)
                    ctx.step()
        ctx.run("torn", torn)
    return fn


# -- predictions --------------------------------------------------------------------------------
def predictions(ctx):
    labels = (0, 1, 2, 5)
    for y in itertools.product(labels, repeat=4):
        if len(set(y)) < 2:
            continue

        def case():
            # four well separated groups of points, labelled in every way
            x = torch.tensor([[float(g) * 10 + 0.1 * j] for g in range(4) for j in range(6)])
            yy = torch.tensor([y[g] for g in range(4) for _ in range(6)])
            tr = lt.DecisionTreeClassifierTrainer()
            tr.train(TrainingData(x, yy, None, x, yy, None))
            keep = x.clone()
            r = tr.predict(x)
            same(x, keep, "input")
            own = tr._model.predict(x.numpy())
            close(r.predictions, own.tolist(), "predicted labels")
            cl = sorted(set(y))
            close(r.probabilities.sum(1), [1.0] * len(x), "probabilities")
            close(r.scores, [sum(p * c for p, c in zip(row, cl)) for row in r.probabilities.tolist()], "expected label")
            close(tr.score(x, yy), sum(1 for a, b in zip(own.tolist(), yy.tolist()) if a == b) / len(x), "accuracy")
            w = torch.tensor([1.0 + (i % 3) for i in range(len(x))])
            close(tr.score(x, yy, w), sum(v for a, b, v in zip(own.tolist(), yy.tolist(), w.tolist()) if a == b) / w.sum().item(), "weighted accuracy")
            ctx.step()
            ctx.state(y)
            ctx.outcome((y, tuple(own.tolist())))
        ctx.run(("tree", y), case)
    # scripted probabilities
    for probs in itertools.product([(1.0, 0.0), (0.25, 0.75), (0.625, 0.375)], repeat=2):
        for cl in ([0, 1], [1, 2], [-1, 4], [0.5, 2.5]):
            def scripted():
                tr = lt.LinearTrainer.__new__(type("T", (lt.LinearTrainer,), dict(name=None, train=None)))
                lt.LinearTrainer.__init__(tr, True)
                raises(lambda: tr.predict(torch.zeros(1, 1)), "untrained")
                tr._model = types.SimpleNamespace(classes_=np.array(cl), predict_proba=lambda x: np.array(probs), predict=None)
                r = tr.predict(torch.zeros(2, 1))
                close(r.predictions, [cl[0] if p[0] > p[1] else cl[1] for p in probs], "labels")
                close(r.scores, [p[0] * cl[0] + p[1] * cl[1] for p in probs], "scores")
                expect(r.scores.dtype == torch.float, "scores are %s", r.scores.dtype)
                close(r.probabilities, [list(p) for p in probs], "probabilities")
                tr._model = types.SimpleNamespace()
                raises(lambda: tr.predict(torch.zeros(1, 1)), "a model that cannot predict")
            ctx.run(("scripted", probs, tuple(cl)), scripted)
    # regressors
    for y in itertools.product((0.0, 1.0, 3.0), repeat=3):
        def regress():
            tr = Simple()
            for tag in (0, 1, 2):
                tr.train(tag)
                x, t = torch.zeros(3, 1), torch.tensor(y)
                close(tr.score(x, t), 2.0 ** -(sum((v - tag) ** 2 for v in y) / 3), "score")
                w = torch.tensor([1.0, 2.0, 0.0])
                close(tr.score(x, t, w), 2.0 ** -(sum(k * (v - tag) ** 2 for v, k in zip(y, (1, 2, 0))) / 3), "weighted score")
                ctx.step()
        ctx.run(("regressor", y), regress)
    for y in itertools.product((-1.0, 0.5, 2.0), repeat=3):
        def lasso():
            x = torch.tensor([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]])
            t = torch.tensor(y)
            tr = lt.LassoTrainer()
            tr.train(TrainingData(x, t, None, x, t, None))
            r = tr.predict(x)
            close(r.scores, tr._model.predict(x.numpy()).tolist(), "prediction")
            best = tr.score(x, t)
            for a in 10.0 ** np.arange(-4, 3):
                m = sklm.Lasso(alpha=a, fit_intercept=False, max_iter=10000).fit(x.numpy(), t.numpy())
                s = 2.0 ** -float(((m.predict(x.numpy()) - t.numpy()) ** 2).mean())
                expect(best >= s - 1e-4, "alpha %s scores %s, the kept model %s", a, s, best)
            ctx.state(y)
        ctx.run(("lasso", y), lasso)


# -- the linear net -----------------------------------------------------------------------------
class Tiny(torch.nn.Module):
    made = None

    def __init__(self, d_in, h, d_out):
        super().__init__()
        self.w = torch.nn.Parameter(torch.full((d_in, d_out), 0.1))
        self.b = torch.nn.Parameter(torch.full((d_out,), 0.03))
        Tiny.made = (d_in, h, d_out)

    def forward(self, x):
        return x.requires_grad_(True) @ self.w + self.b


def adam(w, grads_of, steps, lr=1e-3):
    m, v = torch.zeros_like(w), torch.zeros_like(w)
    for t in range(1, steps + 1):
        g = grads_of(w)
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
        w = w - lr * (m / (1 - 0.9 ** t)) / ((v / (1 - 0.999 ** t)).sqrt() + 1e-8)
    return w


def nets(ctx):
    rows = [((1.0, 0.0), 1.0), ((0.0, 2.0), -1.0), ((1.0, 1.0), 0.5)]
    for n in (1, 2, 3):
        for sel in itertools.product(rows, repeat=n):
            for two_d, iters, epochs in ((False, 3, 1), (True, 2, 2), (False, 11, 1)):
                def case():
                    x = torch.tensor([r[0] for r in sel])
                    y = torch.tensor([[r[1]] for r in sel] if two_d else [r[1] for r in sel])
                    tr = lt.NNTrainer()
                    raises(lambda: tr.predict(x), "untrained")
                    raises(lambda: tr.score(x, y), "untrained")
                    old, lt.LinearNet = lt.LinearNet, Tiny
                    try:
                        tr.train(TrainingData(x, y, None, x, y, None), iterations=iters, epochs=epochs)
                    finally:
                        lt.LinearNet = old
                    same(Tiny.made[0] * 10 + Tiny.made[2], 21, "dimensions")
                    X = torch.cat([x.detach(), torch.ones(n, 1)], 1)
                    Y = y.reshape(-1, 1)
                    w = adam(torch.tensor([[0.1], [0.1], [0.03]]), lambda w: 2 * X.T @ (X @ w - Y) / n, iters * epochs)
                    close(torch.cat([tr._model.w.detach(), tr._model.b.detach().reshape(1, 1)]), w.tolist(), "weights", rtol=1e-4, atol=1e-5)
                    q = torch.tensor([[2.0, 3.0], [-1.0, 0.5]])
                    want = (torch.cat([q, torch.ones(2, 1)], 1) @ w).flatten().tolist()
                    r = tr.predict(q)
                    close(r.scores.flatten(), want, "prediction", rtol=1e-4, atol=1e-5)
                    q.numpy()
                    expect(not q.requires_grad, "the prediction changed its input")
                    t = torch.tensor([1.0, -2.0])
                    close(tr.score(q, t), sum((a - b) ** 2 for a, b in zip(want, t.tolist())) / 2, "loss", rtol=1e-3, atol=1e-4)
                    close(tr.score(q, t.reshape(2, 1)), sum((a - b) ** 2 for a, b in zip(want, t.tolist())) / 2, "loss", rtol=1e-3, atol=1e-4)
                    ctx.step(iters * epochs)
                    ctx.state((sel, two_d, iters))
                ctx.run((sel, two_d, iters, epochs), case, nontrivial=n > 1)
    for layers in (0, 1, 2):
        for act in (torch.nn.ReLU, torch.nn.Tanh):
            def net():
                torch.manual_seed(layers)
                m = lt.LinearNet(2, 3, 4, hidden_layers=layers, activation=act)
                x = torch.tensor([[1.0, -2.0], [0.5, 0.25]])
                lin = [k for k in m.modules() if isinstance(k, torch.nn.Linear)]
                same([(k.in_features, k.out_features) for k in lin], [(2, 3)] * (layers > 0) + [(3, 3)] * max(layers - 1, 0) + [(3 if layers else 2, 4)], "layers")
                h = x.clone()
                for i, k in enumerate(lin):
                    h = h @ k.weight.T + k.bias
                    if i < len(lin) - 1:
                        h = act()(h)
                close(m(x.clone()), h.tolist(), "output")
            ctx.run(("net", layers, act.__name__), net)

    def empty():
        tr = lt.NNTrainer()
        expect(tr.train(TrainingData(torch.zeros(2, 0), torch.zeros(2), None, torch.zeros(2, 0), torch.zeros(2), None)) is None and not tr.is_trained, "trained without features")
    ctx.run("empty", empty)


def samples(ctx):
    for n in (1, 2, 3):
        x = torch.tensor([[float(i), i + 0.5] for i in range(n)])
        for wts in (True, False):
            w = torch.arange(n) + 20.0 if wts else None
            for m in range(0, n + 2):
                for pick in itertools.permutations(range(n), m) if 0 < m < n else [None]:
                    def case():
                        def choice(k, size, replace=True):
                            expect(pick is not None and k == n and size == m and not replace, "drew %s of %s", size, k)
                            return np.array(pick)
                        old, np.random.choice = np.random.choice, choice
                        try:
                            for order in (True, False):
                                a, b, c = Trainer._sample(x, x[:, 0] + 5, w, m, order)
                                rows = list(pick) if pick is not None else list(range(n))
                                close(a, [[float(i), i + 0.5] for i in rows], "features")
                                close(b, [i + 5.0 for i in rows], "targets")
                                expect((c is None) == (w is None), "weights")
                                if wts:
                                    close(c, [i + 20.0 for i in rows], "weights")
                        finally:
                            np.random.choice = old
                        ctx.state((n, wts, m, pick))
                    ctx.run((n, wts, m, pick), case, nontrivial=n > 1)
    ctx.run("mismatch", lambda: raises(lambda: Trainer._sample(torch.zeros(2, 1), torch.zeros(3)), "different lengths"))


def groups(tier):
    big = tier == "thorough"
    return [("containers-" + k, containers(k, 4 if big else 3)) for k in ("list", "tensor", "array", "map")] + [("wrappers", wrappers)] + [
        ("select-" + n, selection(n, big)) for n in TRAINERS] + [
        ("lifecycle", lifecycle(5 if big else 4)), ("predictions", predictions), ("nets", nets), ("samples", samples)]

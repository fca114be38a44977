"""S03: serving decision plans compile to the graph the code wrote."""
import contextlib
import copy
import io
import itertools
import json
import os
import shutil
import tempfile
from enum import Enum
from typing import Dict, List, Optional, Tuple, Union

import reagent
from mc.core import Mismatch, expect, raises, same

# the serving package lives beside the training package, under the same name
reagent.__path__.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(reagent.__file__))), "serving", "reagent"))

import importlib.machinery

if not hasattr(importlib.machinery.FileFinder, "find_module"):
    # gone from Python 3.12; the applications package finds its modules with it
    def _find_module(self, name):
        spec = self.find_spec(name)
        return spec.loader if spec else None

    importlib.machinery.FileFinder.find_module = _find_module

import reagent.serving.config.builder as B
import reagent.serving.config.config as C
import reagent.serving.config.main as M
import reagent.serving.config.serialize as S

LEVEL = "exploration"
RULE = (
    "programs: all expression graphs up to the operator bound over a source, a unary and two binary operators, every operand being every "
    "earlier operator (shared or not) or a constant, compiled in every order of builder calls, repeatedly and by several builders; "
    "constants: all strings, numbers, lists and maps up to the size bound; exports: all subsets of applications and plans into new and used "
    "directories; a case is non-trivial when the plan has an operator"
)
ASSUMPTIONS = [
    "the plan format is the one the server reads: the last operator is the result, operands are names of operators or constants, a constant has one key naming its type",
]

# -- reading a plan like the server does ----------------------------------------------------------------
TYPES = {
    "string_value": lambda v: type(v) is str,
    "int_value": lambda v: isinstance(v, int),
    "double_value": lambda v: isinstance(v, float) or type(v) is int,
    "list_string_value": lambda v: isinstance(v, list) and all(type(x) is str for x in v),
    "list_int_value": lambda v: isinstance(v, list) and all(isinstance(x, int) for x in v),
    "list_double_value": lambda v: isinstance(v, list) and all(isinstance(x, (int, float)) for x in v),
    "map_string_value": lambda v: isinstance(v, dict) and all(type(x) is str for x in v.values()),
    "map_int_value": lambda v: isinstance(v, dict) and all(isinstance(x, int) for x in v.values()),
    "map_double_value": lambda v: isinstance(v, dict) and all(isinstance(x, (int, float)) for x in v.values()),
}


def read(plan, what="plan"):
    """canonical graph of a plan: list of (op_name, {argument: ("op", index) | ("const", value)}) from the root; and the head"""
    text = json.dumps(plan)
    plan = json.loads(text)
    same(sorted(plan), ["constants", "num_actions_to_choose", "operators", "reward_aggregator", "reward_function"], "fields of the " + what)
    ops, consts = {}, {}
    for o in plan["operators"]:
        same(sorted(o), ["input_dep_map", "name", "op_name"], "fields of an operator")
        expect(o["name"] not in ops, "%s: two operators are called %s", what, o["name"])
        ops[o["name"]] = o
    for c in plan["constants"]:
        same(sorted(c), ["name", "value"], "fields of a constant")
        expect(c["name"] not in consts and c["name"] not in ops, "%s: two operands are called %s", what, c["name"])
        expect(isinstance(c["value"], dict) and len(c["value"]) == 1, "%s: constant %s", what, c)
        (t, v), = c["value"].items()
        expect(t in TYPES, "%s: unknown type of constant %s", what, c)
        expect(TYPES[t](v), "%s: %s is not a %s", what, v, t)
        consts[c["name"]] = (t, v)
    expect(plan["operators"], "%s has no operators", what)
    root = plan["operators"][-1]["name"]
    index, out, used = {}, [], set()

    def visit(name, path):
        expect(name not in path, "%s: operator %s depends on itself", what, name)
        if name in index:
            return index[name]
        o = ops[name]
        deps = {}
        for a in sorted(o["input_dep_map"]):
            d = o["input_dep_map"][a]
            expect((d in ops) != (d in consts), "%s: operand %s of %s does not exist", what, d, name)
            if d in ops:
                deps[a] = ("op", visit(d, path + [name]))
            else:
                deps[a] = ("const",) + consts[d]
                used.add(d)
        index[name] = len(out)
        out.append((o["op_name"], deps))
        return index[name]

    visit(root, [])
    same(sorted(index), sorted(ops), "operators of the %s that contribute to its result" % what)
    same(sorted(used), sorted(consts), "constants of the %s that are used" % what)
    return out, (plan["num_actions_to_choose"], plan["reward_function"], plan["reward_aggregator"])


def typed(v):
    if isinstance(v, str):
        return "string_value", v
    if isinstance(v, bool) or isinstance(v, int):
        return "int_value", v
    if isinstance(v, float):
        return "double_value", v
    vals = list(v.values()) if isinstance(v, dict) else list(v)
    p = "map" if isinstance(v, dict) else "list"
    if all(isinstance(x, str) for x in vals):
        t = "string"
    elif all(isinstance(x, int) for x in vals):
        t = "int"
    else:
        t = "double"
    return "%s_%s_value" % (p, t), v


def written(root):
    """the same canonical form, from what was written: node = (op name, {argument: node or constant}, identity)"""
    index, out = {}, []

    def visit(n):
        if id(n) in index:
            return index[id(n)]
        deps = {}
        for a in sorted(n["args"]):
            v = n["args"][a]
            if v is None:
                continue
            if isinstance(v, dict) and "op" in v and "args" in v:
                deps[a] = ("op", visit(v))
            else:
                deps[a] = ("const",) + typed(v)
        index[id(n)] = len(out)
        out.append((n["op"], deps))
        return index[id(n)]

    visit(root)
    return out


def program(spec):
    """spec: tuple of (operator, operands); an operand is the index of an earlier operator, or a constant"""
    nodes, ops = [], []
    for name, operands in spec:
        args = {}
        for a, v in operands:
            args[a] = v
        real, shadow = {}, {}
        for a, v in operands:
            if isinstance(v, tuple) and v[0] == "ref":
                real[a], shadow[a] = ops[v[1]], nodes[v[1]]
            else:
                real[a], shadow[a] = copy.deepcopy(v), v
        cls = getattr(B, name)
        ops.append(cls(**real))
        full = dict(DEFAULTS.get(name, {}))
        full.update(shadow)
        nodes.append({"op": name, "args": full})
    return ops, nodes


DEFAULTS = {"UCB": {"batch_size": 1}, "EpsilonGreedyRanker": {"seed": None}, "Frechet": {"seed": None}, "SoftmaxRanker": {"seed": None}}
VAL = {"a": 1.5, "b": -2.0}


def head(h=(1, "", "max")):
    return h


def graphs(n, rich):
    """all programs of n operators"""
    def options(i):
        refs = [("ref", j) for j in range(i)]
        vals = refs + [VAL]
        yield ("InputFromRequest", ())
        for v in vals:
            yield ("Softmax", (("temperature", 0.5), ("values", v)))
        for a, b in itertools.product(vals, vals):
            yield ("PropensityFit", (("input", a), ("targets", b)))
        if rich:
            for v, s in itertools.product(vals, [None, 3] + refs):
                yield ("EpsilonGreedyRanker", (("epsilon", 0.1), ("values", v)) + ((("seed", s),) if s is not None else ()))
            for e in refs + ["a+b"]:
                yield ("Expression", (("equation", e),))

    def rec(prefix):
        if len(prefix) == n:
            yield prefix
            return
        for o in options(len(prefix)):
            yield from rec(prefix + (o,))

    yield from rec(())


def compile_case(spec, ctx):
    ops, nodes = program(spec)
    plan = B.DecisionPlanBuilder().set_root(ops[-1]).build()
    got, h_ = read(plan)
    same(got, written(nodes[-1]), "compiled plan")
    same(h_, head(), "head of the plan")
    # unused operators do not appear; sharing survives; compiling leaves the program usable
    again, _ = read(B.DecisionPlanBuilder().set_root(ops[-1]).build(), "plan compiled again")
    same(again, written(nodes[-1]), "plan compiled again")
    ctx.state(json.dumps(got))
    ctx.step(2 * len(spec))


def programs(n, rich, part, parts):
    def fn(ctx):
        for i, spec in enumerate(graphs(n, rich)):
            if i % parts == part:
                ctx.run((n, i), compile_case, spec, ctx)

    return fn


# -- builder histories --------------------------------------------------------------------------------------
def builder_histories(depth):
    def fn(ctx):
        aggs = list(C.DecisionRewardAggreation)
        want_agg = {"DRA_INVALID": None, "DRA_SUM": "sum", "DRA_MAX": "max"}

        def case(seq):
            spec = (("InputFromRequest", ()), ("Softmax", (("temperature", 0.5), ("values", ("ref", 0)))),
                    ("PropensityFit", (("input", ("ref", 0)), ("targets", ("ref", 1)))), ("Softmax", (("temperature", 2.0), ("values", VAL))))
            ops, nodes = program(spec)
            builders = [B.DecisionPlanBuilder(), B.DecisionPlanBuilder()]
            model = [{"root": None, "n": 1, "f": "", "a": "max"} for _ in builders]
            kept = []
            for who, what, x in seq:
                b, m = builders[who], model[who]
                if what == "root":
                    expect(b.set_root(ops[x]) is b, "set_root does not chain")
                    m["root"] = x
                elif what == "num":
                    b.set_num_actions_to_choose(x)
                    m["n"] = x
                elif what == "fun":
                    b.set_reward_function(x)
                    m["f"] = x
                elif what == "agg":
                    b.set_reward_aggregator(getattr(C.DecisionRewardAggreation, x))
                    m["a"] = want_agg[x]
                elif m["root"] is None:
                    raises(b.build, "building a plan without a root")
                else:
                    kept.append((b.build(), m["root"], (m["n"], m["f"], m["a"])))
                for plan, r, h_ in kept:
                    got, gh = read(plan)
                    same(got, written(nodes[r]), "plan")
                    same(gh, h_, "head of the plan")
            ctx.state(repr(model))
            ctx.step(len(seq))

        alphabet = [(w, k, x) for w in (0, 1) for k, x in
                    [("build", 0), ("root", 1), ("root", 2), ("root", 3)]] + [(0, "num", 3), (0, "fun", "a*2"), (0, "agg", "DRA_SUM"), (0, "agg", "DRA_INVALID")]
        for L in range(1, depth + 1):
            for seq in itertools.product(alphabet, repeat=L):
                if seq[-1][1] != "build":
                    continue
                ctx.run(tuple("%d%s%s" % s for s in seq), case, seq)
        for a in aggs:
            ctx.run(("agg", a.name), case, ((0, "root", 1), (0, "agg", a.name), (0, "build", 0)))

        def bad(x):
            b = B.DecisionPlanBuilder().set_root(x)
            raises(b.build, "building a plan whose root is not an operator")

        for x in (3, "op", {"a": 1.0}, [1]):
            ctx.run(("bad", x), bad, x)

    return fn


# -- operators and constants ------------------------------------------------------------------------------------
SIGNATURES = {
    "ActionValueScoring": (["model_id", "snapshot_id"], {}),
    "EpsilonGreedyRanker": (["epsilon", "values"], {"seed": None}),
    "Expression": (["equation"], {}),
    "Frechet": (["values", "rho", "gamma"], {"seed": None}),
    "InputFromRequest": ([], {}),
    "PropensityFit": (["input", "targets"], {}),
    "Softmax": (["temperature", "values"], {}),
    "SoftmaxRanker": (["temperature", "values"], {"seed": None}),
    "UCB": (["method"], {"batch_size": 1}),
}


def operators(ctx):
    def case(name, given, positional):
        req, opt = SIGNATURES[name]
        names = req + list(opt)
        vals = {a: (1.25 * (i + 1)) for i, a in enumerate(names)}
        cls = getattr(B, name)
        pos = [vals[a] for a in names[:positional]]
        kw = {a: vals[a] for a in given if a not in names[:positional]}
        have = set(names[:positional]) | set(kw)
        if not set(req) <= have:
            raises(lambda: cls(*pos, **kw), "%s without %s" % (name, sorted(set(req) - have)))
            return
        op = cls(*pos, **kw)
        got, _ = read(B.DecisionPlanBuilder().set_root(op).build())
        want = {a: vals[a] if a in have else opt[a] for a in names}
        same(got, [(name, {a: ("const",) + typed(v) for a, v in sorted(want.items()) if v is not None})], "plan of " + name)
        raises(lambda: cls(*pos, **kw, nonsense=1), "unknown argument")
        ctx.step()

    for name, (req, opt) in SIGNATURES.items():
        names = req + list(opt)
        for k in range(len(names) + 1):
            for given in itertools.combinations(names, k):
                for positional in range(len(names) + 1):
                    ctx.run((name, given, positional), case, name, given, positional)


def constants(size):
    def fn(ctx):
        atoms = ["", "x", "1", 0, 1, -3, 2 ** 40, True, 0.0, 1.5, -2.25, 1e300, 1e-12]
        plain = {"str": ["", "x"], "int": [0, -7], "float": [0.5, -1e9]}

        def ok(v, ctx):
            op = B.Softmax(temperature=v, values=B.Expression(equation=v))
            got, _ = read(B.DecisionPlanBuilder().set_root(op).build())
            t = ("const",) + typed(v)
            same(got, [("Expression", {"equation": t}), ("Softmax", {"temperature": t, "values": ("op", 0)})], "plan with the constant %r" % (v,))
            ctx.outcome(t)
            ctx.step()

        def bad(v, ctx):
            raises(lambda: B.DecisionPlanBuilder().set_root(B.Expression(equation=v)).build(), "the constant %r" % (v,))

        for v in atoms:
            ctx.run(("atom", repr(v)), ok, v, ctx)

        def two(v, w):
            """constants of one plan keep their own types, equal or not"""
            op = B.PropensityFit(input=B.Expression(equation=v), targets=B.Softmax(temperature=w, values=v))
            got, _ = read(B.DecisionPlanBuilder().set_root(op).build())
            tv, tw = ("const",) + typed(v), ("const",) + typed(w)
            want = [("Expression", {"equation": tv}), ("Softmax", {"temperature": tw, "values": tv}),
                    ("PropensityFit", {"input": ("op", 0), "targets": ("op", 1)})]
            same(repr(got), repr(want), "plan with the constants %r and %r" % (v, w))
            ctx.step()

        near = [0, 0.0, False, 1, 1.0, True, "1", "", [1], [1.0], ["1"], {"a": 1}, {"a": 1.0}, {"a": "1"}, 2 ** 53, float(2 ** 53)]
        for v, w in itertools.product(near, repeat=2):
            ctx.run(("two", repr(v), repr(w)), two, v, w)
        pool = [x for xs in plain.values() for x in xs]
        for n in range(0, size + 1):
            for vs in itertools.product(pool, repeat=n):
                kinds = {type(x) for x in vs}
                good = n > 0 and (kinds == {str} or str not in kinds)
                for c in (list(vs), {"k%d" % i: x for i, x in enumerate(vs)}):
                    ctx.run((type(c).__name__, repr(c)), ok if good else bad, c, ctx)
        for v in ([None], [[1.0]], {"a": {"b": 1.0}}, {1: 2.0}, {1: "x"}, object(), {"a": None}, (1.0,), {"a", "b"}, b"x"):
            ctx.run(("bad", repr(v)[:20]), bad, v, ctx)

    return fn


# -- the serializer on every kind of configuration -----------------------------------------------------------------
class Color(Enum):
    RED = "red"
    BLUE = 7


class Leaf(C.ConfigBase):
    x: int
    y: float = 1.5


class Child(Leaf):
    z: str = "z"
    color: Color = Color.RED


class Tree(C.ConfigBase):
    leaf: Leaf
    maybe: Optional[int]
    many: List[Leaf]
    named: Dict[str, Leaf]
    pair: Tuple[int, Leaf]
    row: Tuple[Leaf, ...]
    color: Color
    child: Optional[Child] = None
    either: Union[int, str] = 3


def serializer(ctx):
    leaf = lambda i: Leaf(x=i) if i % 2 else Leaf(x=i, y=float(i))
    js = lambda i: {"x": i, "y": 1.5 if i % 2 else float(i)}

    def case(maybe, k, r, color, child, either):
        t = Tree(leaf=leaf(1), maybe=maybe, many=[leaf(i) for i in range(k)], named={"n%d" % i: leaf(i) for i in range(k)}, pair=(4, leaf(2)),
                 row=tuple(leaf(i) for i in range(r)), color=color, **({"child": Child(x=5, color=color)} if child else {}), **({"either": either} if either is not None else {}))
        got = json.loads(json.dumps(S.config_to_json(Tree, t)))
        want = {
            "leaf": js(1), "maybe": maybe, "many": [js(i) for i in range(k)], "named": {"n%d" % i: js(i) for i in range(k)}, "pair": [4, js(2)],
            "row": [js(i) for i in range(r)], "color": color.value, "child": {"x": 5, "y": 1.5, "z": "z", "color": color.value} if child else None,
            "either": {"string_value": either} if isinstance(either, str) else {"int_value": 3 if either is None else either},
        }
        same(got, want, "serialized configuration")
        expect(t == t._replace() and t == copy.deepcopy(t), "equal configurations are different")
        expect(t != t._replace(maybe=99), "different configurations are equal")
        same(t._replace(maybe=99).maybe, 99, "replaced field")
        same(t.maybe, maybe, "field of the original")
        ctx.step()

    for args in itertools.product((None, 0, 5), range(4), range(5), list(Color), (False, True), (None, 0, "s")):
        ctx.run(args, case, *args)

    def fields(given):
        kw = {a: 1 for a in given}
        ok = "x" in given and "w" not in given
        if not ok:
            e = raises(lambda: Child(**kw), "a configuration from %s" % (given,))
            expect(isinstance(e, TypeError), "refused with %s", type(e).__name__)
            return
        c = Child(**kw)
        same(dict(c.items()), {"x": 1, "y": 1 if "y" in given else 1.5, "z": 1 if "z" in given else "z", "color": 1 if "color" in given else Color.RED}, "fields")

    names = ("x", "y", "z", "color", "w")
    for k in range(6):
        for given in itertools.combinations(names, k):
            ctx.run(("fields", given), fields, given)


# -- exporting -----------------------------------------------------------------------------------------------------
APPS = {"one": ("p", "q"), "two": ("p",), "three": ("r.v2", "s", "p")}


def exporting(ctx):
    def case(apps, subset, app_id, state, home):
        d = tempfile.mkdtemp(prefix="s03-")
        saved, env = dict(B.DECISION_PLANS), os.environ.get("HOME")
        try:
            B.DECISION_PLANS.clear()
            want = {}
            for a in apps:
                plans = {}
                for i, p in enumerate(APPS[a][:subset]):
                    plans[p] = B.DecisionPlanBuilder().set_root(B.Softmax(temperature=float(len(want) + 1), values=VAL)).build()
                    want[a, p] = json.loads(json.dumps(plans[p]))
                B.export(app_id=a, configs=plans)
            target = os.path.join(d, "out")
            old = {}
            if state != "new":
                for rel, text in (("one/p.json", "old"), ("other/x.json", "other"), ("one/z.json", "z")):
                    f = os.path.join(target, rel)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "w") as fh:
                        fh.write(text * 500)
                    old[os.path.join(target, rel)] = text * 500
            kw = {"app_id": app_id, "config_dir": target}
            if home is not None:
                os.environ["HOME"] = d
                kw["config_dir"] = None
                if home == "configerator":
                    os.makedirs(os.path.join(d, "configerator/raw_configs"))
                    target = os.path.join(d, "configerator/raw_configs/reagent/serving")
                else:
                    target = os.path.join(d, "reagent/serving")
            if app_id is not None and app_id not in apps:
                raises(lambda: M.export.callback(**kw), "exporting an unknown application")
                exported = {}
            else:
                for _ in range(2):
                    with contextlib.redirect_stdout(io.StringIO()):
                        M.export.callback(**kw)
                exported = {k: v for k, v in want.items() if app_id in (None, k[0])}
            files = {}
            for base, _, names in os.walk(d):
                for n in names:
                    with open(os.path.join(base, n)) as f:
                        files[os.path.join(base, n)] = f.read()
            expected = dict(old)
            expected.update({os.path.join(target, a, p + ".json"): v for (a, p), v in exported.items()})
            same(sorted(files), sorted(expected), "exported files")
            for f, v in expected.items():
                same(files[f] if isinstance(v, str) else json.loads(files[f]), v, "contents of %s" % os.path.relpath(f, d))
            ctx.state((apps, subset, app_id, state, home))
            ctx.step(len(exported))
        finally:
            B.DECISION_PLANS.clear()
            B.DECISION_PLANS.update(saved)
            if env is not None:
                os.environ["HOME"] = env
            shutil.rmtree(d, ignore_errors=True)

    for k in range(4):
        for apps in itertools.permutations(APPS, k):
            for subset in (1, 2, 3):
                for app_id in (None,) + tuple(APPS):
                    for state in ("new", "used"):
                        ctx.run((apps, subset, app_id, state), case, apps, subset, app_id, state, None)
                    for home in ("plain", "configerator"):
                        ctx.run((apps, subset, app_id, home), case, apps, subset, app_id, "new", home)

    def example(name, want):
        got, h_ = read(B.DECISION_PLANS["example"][name])
        same(got, want, "example plan")
        same(h_, head(), "head of the example plan")

    v = ("const", "map_double_value", {"action1": 10.0, "action2": 20.0})
    c = lambda x: ("const",) + typed(x)
    ex = {
        "softmax": [("Softmax", {"temperature": c(1.0), "values": v})],
        "softmaxranker": [("SoftmaxRanker", {"temperature": c(1.0), "values": c({"Bacon": 1.1, "Ribs": 1.0})})],
        "epsilongreedyranker": [("EpsilonGreedyRanker", {"epsilon": c(0.1), "values": v})],
        "frechet": [("Frechet", {"rho": c(0.5), "gamma": c(1.0), "values": v})],
        "ucb": [("UCB", {"method": c("UCB1"), "batch_size": c(8)})],
        "input_from_request": [("InputFromRequest", {}), ("Softmax", {"temperature": c(1.0), "values": ("op", 0)})],
    }
    ctx.run(("example", "names"), lambda: same(sorted(B.DECISION_PLANS["example"]), sorted(ex), "plans of the example"))
    for name, want in ex.items():
        ctx.run(("example", name), example, name, [(o, dict(sorted(a.items()))) for o, a in want])


def groups(tier):
    q = tier == "quick"
    out = [("programs-%d" % n, programs(n, True, 0, 1)) for n in (1, 2)]
    P = 4 if q else 8
    out += [("programs-3-%d" % k, programs(3, True, k, P)) for k in range(P)]
    out += [("programs-4-%d" % k, programs(4, not q, k, P)) for k in range(P)]
    if not q:
        out += [("programs-5-%d" % k, programs(5, False, k, P)) for k in range(P)]
    out.append(("builders", builder_histories(4 if q else 5)))
    out.append(("operators", operators))
    out.append(("constants", constants(3 if q else 4)))
    out.append(("serializer", serializer))
    out.append(("exporting", exporting))
    return out

"""C02: configuration objects: registries, unions, generated config classes, hashing, serialization, optimizers."""
import abc
import dataclasses
import glob
import itertools
import math
import typing
from typing import Dict, List, Optional

import torch

from mc import sparkstub
from mc.core import close, expect, raises, same

sparkstub.install()
# torch 2 renamed the schedulers' base class; the code under test looks for the torch 1 name
torch.optim.lr_scheduler._LRScheduler = torch.optim.lr_scheduler.LRScheduler
from reagent import parameters as rlp
from reagent.core.configuration import make_config_class, param_hash, resolve_defaults
from reagent.core.dataclasses import dataclass, field
from reagent.core.multiprocess_utils import unwrap_function_outputs, wrap_function_arguments
from reagent.core.registry_meta import RegistryMeta
from reagent.core.tagged_union import TaggedUnion
from reagent.core.utils import lazy_property
from reagent.json_serialize import json_to_object, object_to_json

LEVEL = "model_checking"
RULE = (
    "all sequences of class definitions/fills up to depth 4 against a registry machine; all single-member and invalid unions; all "
    "function signatures of up to 4 parameters x call shapes; all pairs of assignments of every parameter class; every optimizer "
    "x hyperparameter grid and every ordered pair of schedulers x step counts against closed forms"
)
ASSUMPTIONS = ["the scheduler base class is aliased to its torch 1 name", "torch's own optimizers and schedulers are correct", "values are JSON representable (no NaN, no enums)"]


# -- registry machine ---------------------------------------------------------
def registry(ctx):
    ops = ["concrete1", "concrete2", "abstract", "named", "grandchild", "fill"]
    for d in range(1, 6):
        for seq in itertools.product(range(len(ops)), repeat=d):
            names = [ops[i] for i in seq]
            def case():
                class Base(metaclass=RegistryMeta):
                    @abc.abstractmethod
                    def f(self):
                        pass
                want, frozen, union = {}, False, None
                parent = Base
                for n in names:
                    if n == "fill":
                        class U(TaggedUnion):
                            pass
                        union = Base.fill_union()(U)
                        frozen = True
                        same(sorted(f.name for f in dataclasses.fields(union)), sorted(want), "members of the union")
                        for k, c in want.items():
                            u = union(**{k: c()})
                            expect(u.value is getattr(u, k) and isinstance(u.value, c), "selected member")
                            v = union.make_union_instance(c())
                            expect(isinstance(v.value, c), "make_union_instance")
                            expect(isinstance(union.make_union_instance(c(), c).value, c), "make_union_instance with class")
                            for k2 in want:
                                if k2 != k:
                                    expect(getattr(u, k2) is None, "other members unset")
                                    raises(lambda: union(**{k: c(), k2: want[k2]()}).value, "two selected members")
                            raises(lambda: setattr(u, k, c()), "unions are immutable")
                        raises(lambda: union().value, "no selected member")
                        continue
                    attrs = {} if n == "abstract" else {"f": lambda self: 1}
                    cname, reg = {"concrete1": ("C1", "C1"), "concrete2": ("C2", "C2"), "abstract": ("Abs", None),
                                  "named": ("Cn", "other_name"), "grandchild": ("G", "G")}[n]
                    if n == "named":
                        attrs["__registry_name__"] = "other_name"
                    base = parent if n == "grandchild" and "__registry_name__" not in vars(parent) else Base
                    bad = frozen or (reg is not None and reg in want)
                    mk = lambda: dataclass(RegistryMeta(cname, (base,), attrs))
                    if bad:
                        raises(mk, "registering %s" % n)
                    else:
                        c = mk()
                        if reg:
                            want[reg] = c
                        parent = c
                    same(sorted(Base.REGISTRY), sorted(want), "registry after %s" % n)
                    for k in want:
                        expect(Base.REGISTRY[k] is want[k], "registered class %s", k)
                same(Base.REGISTRY_NAME, "Base", "name")
                ctx.outcome((sorted(want), frozen))
            ctx.state(names); ctx.step(d)
            ctx.run(names, case)
    def separate():
        class B1(metaclass=RegistryMeta):
            pass
        class B2(metaclass=RegistryMeta):
            pass
        class X(B1):
            pass
        same((sorted(B1.REGISTRY), sorted(B2.REGISTRY)), (["X"], []), "registries are separate")
    ctx.run("separate", separate)


def unions(ctx):
    """the selected member is found by being set, whatever its value"""
    class Falsy:
        def __len__(self):
            return 0
        def __eq__(self, o):
            return isinstance(o, Falsy)
    @dataclass
    class P:
        x: int = 0
    members = {"i": (Optional[int], [0, 5]), "s": (Optional[str], ["", "q"]), "l": (Optional[List[int]], [[], [1]]),
               "p": (Optional[P], [P(), P(3)])}
    ns = {"__annotations__": {k: t for k, (t, _) in members.items()}}
    ns.update({k: None for k in members})
    U = dataclass(frozen=True)(type("U", (TaggedUnion,), ns))
    opts = [[None] + vals for _, vals in members.values()]
    for combo in itertools.product(*opts):
        def case():
            u = U(**{k: v for k, v in zip(members, combo) if v is not None})
            chosen = [v for v in combo if v is not None]
            if len(chosen) == 1:
                v = u.value
                expect(v == chosen[0] and type(v) == type(chosen[0]), "value %r", v)
            else:
                raises(lambda: u.value, "%d selected members" % len(chosen))
        ctx.state(combo); ctx.step()
        ctx.run([repr(c) for c in combo], case)


# -- generated config classes --------------------------------------------------
def configs(ctx):
    made = [0]
    kinds = {
        "req": ("a{i}: int", "R"),
        "int": ("a{i}: int = {i}", "D"),
        "inferred": ("a{i}={i}.5", "D"),
        "list": ("a{i}: List[int] = field(default_factory=lambda: [{i}])", "F"),
        "opt": ("a{i}: Optional[float] = None", "D"),
        "module": ("a{i}: nn.Module = None", "B"),
        "optmodule": ("a{i}: Optional[nn.Linear] = None", "B"),
        "fixed": ("a{i}: int = field(default=4{i})", "F"),
    }
    env = dict(List=List, Optional=Optional, nn=torch.nn, field=field, resolve_defaults=resolve_defaults)
    for n in range(0, 4):
        for ks in itertools.product(sorted(kinds), repeat=n):
            # defaults must follow required parameters
            if any(k == "req" and any(p != "req" for p in ks[:i]) for i, k in enumerate(ks)):
                continue
            def case():
                src = "@resolve_defaults\ndef f(%s):\n    return dict(%s)\n" % (
                    ", ".join(kinds[k][0].format(i=i) for i, k in enumerate(ks)),
                    ", ".join("a{i}=a{i}".format(i=i) for i in range(n)))
                e = dict(env)
                exec(src, e)
                f = e["f"]
                default = {"int": lambda i: i, "inferred": lambda i: i + 0.5, "list": lambda i: [i], "opt": lambda i: None,
                           "module": lambda i: None, "optmodule": lambda i: None, "fixed": lambda i: int("4%d" % i)}
                # direct calls: every number of positional arguments, every subset of keywords
                nreq = ks.count("req")
                for npos in range(0, n + 1):
                    for kw in itertools.chain.from_iterable(itertools.combinations(range(npos, n), r) for r in range(n - npos + 1)):
                        given = set(range(npos)) | set(kw)
                        args = ["v%d" % i for i in range(npos)]
                        call = lambda: f(*args, **{"a%d" % i: "v%d" % i for i in kw})
                        if not set(range(nreq)) <= given:
                            raises(call, "missing required argument")
                            continue
                        got = call()
                        want = {"a%d" % i: ("v%d" % i if i in given else default[ks[i]](i)) for i in range(n)}
                        same(got, want, "resolved defaults")
                        for v in (None, 0, [], False, ""):
                            odd = f(*[v] * npos, **{"a%d" % i: v for i in kw})
                            same(odd, {"a%d" % i: (v if i in given else default[ks[i]](i)) for i in range(n)}, "arguments that are %r" % (v,))
                        got2 = call()
                        for i, k in enumerate(ks):
                            if k == "list" and i not in given:
                                expect(got["a%d" % i] is not got2["a%d" % i], "default lists must not be shared between calls")
                raises(lambda: f(*range(n + 1)), "too many arguments")
                # config class
                @make_config_class(f)
                class C:
                    pass
                names = ["a%d" % i for i, k in enumerate(ks) if k not in ("module", "optmodule")]
                same([x.name for x in dataclasses.fields(C)], names, "config fields")
                req = {"a%d" % i: 70 + i for i, k in enumerate(ks) if k == "req"}
                if req:
                    raises(lambda: C(), "missing required fields")
                c = C(**req)
                want = {"a%d" % i: (70 + i if k == "req" else default[k](i)) for i, k in enumerate(ks) if "a%d" % i in names}
                same(c.asdict(), want, "config values")
                same(f(**c.asdict()), {**{"a%d" % i: None for i in range(n)}, **want}, "call with the config")
                c2 = C(**req)
                expect(c == c2 and hash(c) == hash(c2), "equal configs hash equally")
                raises(lambda: setattr(c, names[0], 1) if names else (_ for _ in ()).throw(TypeError()), "configs are immutable")
                for i, k in enumerate(ks):
                    if k == "list":
                        expect(getattr(c, "a%d" % i) is not getattr(c2, "a%d" % i), "default lists must not be shared")
                # whitelist / blacklist
                for sub in itertools.chain.from_iterable(itertools.combinations(names, r) for r in range(len(names))):
                    if sub:
                        @make_config_class(f, blacklist=list(sub))
                        class D:
                            pass
                        same([x.name for x in dataclasses.fields(D)], [x for x in names if x not in sub], "blacklist")
                        @make_config_class(f, whitelist=list(sub))
                        class W:
                            pass
                        same([x.name for x in dataclasses.fields(W)], list(sub), "whitelist")
                raises(lambda: make_config_class(f, whitelist=["a0"], blacklist=["a0"]), "both lists")
                ctx.outcome(want)
            ctx.state(ks); ctx.step(2 ** n)
            ctx.run(("sig",) + ks, case)


# -- parameter classes: hashing, replacing, JSON --------------------------------
def param_classes():
    return [c for c in vars(rlp).values() if isinstance(c, type) and dataclasses.is_dataclass(c)
            and c.__module__ == "reagent.parameters" and c.__name__ not in ("Seq2SlateParameters",)]


def alternatives(tp, depth=0):
    if getattr(tp, "__origin__", None) is typing.Union:
        return [None] + alternatives([a for a in tp.__args__ if a is not type(None)][0], depth)
    if getattr(tp, "__origin__", None) in (list, List):
        el = alternatives(tp.__args__[0], depth + 1)
        return [[], [el[0]], [el[0], el[-1]], [el[-1], el[0]]]
    if getattr(tp, "__origin__", None) in (dict, Dict):
        ks, vs = alternatives(tp.__args__[0], depth + 1), alternatives(tp.__args__[1], depth + 1)
        return [{}, {ks[0]: vs[0]}, {ks[0]: vs[0], ks[-1]: vs[-1]}, {ks[-1]: vs[-1], ks[0]: vs[0]}, {ks[0]: vs[-1]}]
    if tp is bool:
        return [True, False]
    if tp is int:
        return [0, 3, 17]
    if tp is float:
        return [0.25, -1.5, 0.0]
    if tp is str:
        return ["CONTINUOUS", "mse", ""]
    if dataclasses.is_dataclass(tp):
        req = {f.name: alternatives(f.type, depth + 1)[0] for f in dataclasses.fields(tp)
               if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING}
        out = [tp(**req)]
        if depth < 2:
            f = dataclasses.fields(tp)[0]
            out.append(tp(**{**req, f.name: alternatives(f.type, depth + 1)[-1]}))
        return out
    return [tp()]


def hashing(ctx):
    for cls in param_classes():
        fs = dataclasses.fields(cls)
        req = {f.name: alternatives(f.type)[0] for f in fs
               if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING}
        assigns = [dict(req)]
        for f in fs:
            assigns += [{**req, f.name: v} for v in alternatives(f.type)]
        for f, g in itertools.combinations(fs[:6], 2):
            assigns.append({**req, f.name: alternatives(f.type)[-1], g.name: alternatives(g.type)[-1]})
        objs = []
        for i, a in enumerate(assigns):
            def case():
                o = cls(**a)
                for f in fs:
                    if f.name in a:
                        expect(getattr(o, f.name) == a[f.name], "field %s", f.name)
                o2 = cls(**{k: (dict(reversed(list(v.items()))) if isinstance(v, dict) else v) for k, v in a.items()})
                expect(o == o2, "equal assignments compare equal")
                hashable = True
                expect(hash(o) == hash(o2), "equal parameters hash equally")
                raises(lambda: setattr(o, fs[0].name, 1), "parameters are immutable")
                r = o._replace()
                expect(r == o, "replace nothing")
                for f in fs:
                    v = alternatives(f.type)[-1]
                    r = o._replace(**{f.name: v})
                    expect(getattr(r, f.name) == v, "replaced %s", f.name)
                    for g in fs:
                        if g.name != f.name:
                            expect(getattr(r, g.name) == getattr(o, g.name), "%s must not change", g.name)
                back = json_to_object(object_to_json(o), cls)
                expect(back == o and type(back) is cls, "JSON round trip: %s -> %s", o, back)
                for f in fs:
                    expect(type(getattr(back, f.name)) == type(getattr(o, f.name)), "type of %s", f.name)
                objs.append((a, o))
                ctx.outcome(repr(o))
            ctx.state((cls.__name__, i)); ctx.step(3)
            ctx.run((cls.__name__, i), case)
        def pairs():
            for (a, o), (b, p) in itertools.combinations(objs, 2):
                eq = all(getattr(o, f.name) == getattr(p, f.name) for f in fs)
                expect((o == p) == eq, "equality of %s and %s", o, p)
                if eq:
                    expect(hash(o) == hash(p), "hash of equal parameters")
                else:
                    expect(hash(o) != hash(p), "%s and %s have the same hash", o, p)
        ctx.run((cls.__name__, "pairs"), pairs)


def json_nested(ctx):
    @dataclass
    class Leaf:
        x: int
        y: Optional[float] = None
    @dataclass
    class Node:
        leaves: List[Leaf]
        named: Dict[str, Leaf]
        opt: Optional[Leaf] = None
        deep: Optional[Dict[str, List[Leaf]]] = None
        tag: str = "t"
    leafs = [Leaf(1), Leaf(-2, 0.5)]
    for ls in ([], leafs[:1], leafs):
        for nm in ({}, {"a": leafs[1]}, {"a": leafs[0], "b": leafs[1]}):
            for opt in (None, leafs[0], leafs[1]):
                for deep in (None, {}, {"q": []}, {"q": leafs, "r": leafs[:1]}):
                    def case():
                        n = Node(leaves=ls, named=nm, opt=opt, deep=deep, tag="z")
                        b = json_to_object(object_to_json(n), Node)
                        expect(b == n, "round trip %s -> %s", n, b)
                        expect(all(isinstance(x, Leaf) for x in b.leaves + list(b.named.values())), "leaf types")
                    ctx.state((repr(ls), repr(nm), repr(opt), repr(deep))); ctx.step()
                    ctx.run((len(ls), len(nm), repr(opt), repr(deep)), case)
    def bad():
        raises(lambda: object_to_json({"a": 1}), "not a dataclass")
        raises(lambda: json_to_object('{"zzz": 1}', Leaf), "unknown field")
        raises(lambda: json_to_object("{}", dict), "not a dataclass type")
        raises(lambda: json_to_object('{"leaves": {}, "named": {}}', Node), "dict instead of list")
        raises(lambda: json_to_object('{"leaves": [], "named": []}', Node), "list instead of dict")
    ctx.run("bad", bad)


# -- optimizers ------------------------------------------------------------------
def optimizers(ctx):
    from reagent.optimizer.union import Optimizer__Union, classes
    from reagent.optimizer import uninferrable_schedulers as S
    grids = {
        "Adam": dict(lr=[0.001, 0.5], betas=[(0.9, 0.999), (0.5, 0.6)], eps=[1e-8, 1e-3], weight_decay=[0, 0.1], amsgrad=[False, True]),
        "SGD": dict(lr=[0.1, 0.01], momentum=[0.0, 0.9], weight_decay=[0.0, 0.1], nesterov=[False]),
        "AdamW": dict(lr=[0.1], betas=[(0.8, 0.9)], weight_decay=[0.0, 0.3], amsgrad=[False, True]),
        "Adagrad": dict(lr=[0.1, 0.2], lr_decay=[0, 0.5], weight_decay=[0, 0.1]),
        "RMSprop": dict(lr=[0.1, 0.2], alpha=[0.99, 0.5], momentum=[0, 0.3], centered=[False, True]),
        "Adadelta": dict(lr=[1.0, 0.5], rho=[0.9, 0.3]),
        "ASGD": dict(lr=[0.1, 0.2]),
        "Rprop": dict(lr=[0.1], etas=[(0.5, 1.2), (0.4, 1.5)]),
    }
    for name, grid in grids.items():
        for combo in itertools.product(*grid.values()):
            args = dict(zip(grid, combo))
            for via in ("class", "union", "dict", "default"):
                if via == "default" and name != "Adam":
                    continue
                def case():
                    p = torch.nn.Parameter(torch.tensor([1.0, -2.0]))
                    q = torch.nn.Parameter(torch.tensor([1.0, -2.0]))
                    if via == "class":
                        o = classes[name](**args).make_optimizer([p])
                    elif via == "union":
                        o = Optimizer__Union(**{name: classes[name](**args)}).make_optimizer([p])
                    elif via == "dict":
                        o = Optimizer__Union(**{name: args}).make_optimizer([p])
                    else:
                        o = Optimizer__Union.default(**args).make_optimizer([p])
                    expect(type(o.optimizer) is getattr(torch.optim, name), "optimizer type")
                    ref = getattr(torch.optim, name)([q], **args)
                    for k in args:
                        expect(o.param_groups[0][k] == args[k], "%s is %s", k, o.param_groups[0][k])
                    for i in range(3):
                        for v, opt in ((p, o), (q, ref)):
                            opt.zero_grad()
                            ((v - i) ** 2).sum().backward()
                            opt.step()
                        close(p, q, "parameters after step %d" % (i + 1), rtol=1e-6)
                    h1 = hash(classes[name](**args))
                    expect(h1 == hash(classes[name](**args)) and classes[name](**args) == classes[name](**args), "hash")
                    ctx.outcome(p)
                ctx.state((name, repr(args), via)); ctx.step(3)
                ctx.run((name, sorted(args.items()), via), case)
    # schedulers: one call of step() advances the optimizer once and every scheduler once, in order
    def exp(n, base):
        return base * 0.5 ** n
    scheds = {
        "exp": (lambda: S.ExponentialLR(gamma=0.5), lambda n: 0.5 ** n),
        "step": (lambda: S.StepLR(step_size=2, gamma=0.1), lambda n: 0.1 ** (n // 2)),
        "multi": (lambda: S.MultiStepLR(milestones=[1, 3], gamma=0.3), lambda n: 0.3 ** ((n >= 1) + (n >= 3))),
        "lambda": (lambda: S.LambdaLR(lr_lambda="lambda e: 1.0 / (1 + e)"), None),
        "mult": (lambda: S.MultiplicativeLR(lr_lambda="lambda e: 0.7"), lambda n: 0.7 ** n),
    }
    for r in (0, 1, 2, 3):
        for names in itertools.product([k for k in scheds if k != "lambda"], repeat=r) if r != 1 else [(k,) for k in scheds]:
            for n in range(0, 6):
                def case():
                    p = torch.nn.Parameter(torch.tensor([1.0]))
                    o = classes["SGD"](lr=0.8, lr_schedulers=[scheds[k][0]() for k in names]).make_optimizer([p])
                    same(len(o.lr_schedulers), r, "schedulers")
                    lr = lambda m: 0.8 / (1 + m) if names == ("lambda",) else 0.8 * math.prod(scheds[k][1](m) for k in names)
                    x = 1.0
                    for i in range(n):
                        close(o.param_groups[0]["lr"], lr(i), "learning rate before step %d" % i, rtol=1e-5, atol=1e-9)
                        o.zero_grad(); p.sum().backward(); o.step()
                        x -= lr(i)
                        close(p, [x], "parameter after step %d" % i)
                    close(o.param_groups[0]["lr"], lr(n), "learning rate after %d steps" % n, rtol=1e-5, atol=1e-9)
                ctx.state((names, n)); ctx.step(n)
                ctx.run(("sched",) + names + (n,), case)


def _collect(*a, **k):
    return [list(a), dict(k), 10]


# -- the rest --------------------------------------------------------------------
def misc(ctx):
    for npos in range(3):
        for nkw in range(3):
            for late in range(3):
                def case():
                    w = wrap_function_arguments(_collect, *["p%d" % i for i in range(npos)], **{"k%d" % i: i for i in range(nkw)})
                    outs = [w(*["l%d" % i for i in range(late)], late_kw=j) for j in range(2)]
                    got = unwrap_function_outputs(outs)
                    for j in range(2):
                        same(got[j], [["p%d" % i for i in range(npos)] + ["l%d" % i for i in range(late)],
                                      {**{"k%d" % i: i for i in range(nkw)}, "late_kw": j}, 10], "wrapped call")
                ctx.state((npos, nkw, late)); ctx.step()
                ctx.run(("wrap", npos, nkw, late), case)
    for reads in range(1, 4):
        def case():
            n = [0]
            class K:
                @lazy_property
                def v(self):
                    n[0] += 1
                    return n[0] * 10
            a, b = K(), K()
            for _ in range(reads):
                same(a.v, 10, "lazy value")
            same(n[0], 1, "computed once")
            for _ in range(reads):
                same(b.v, 20, "per instance")
        ctx.state(("lazy", reads)); ctx.step(reads)
        ctx.run(("lazy", reads), case)
    # CLI: only the relevant keys of a config file reach the workflow
    from reagent.workflow.cli import select_relevant_params
    @dataclass
    class W:
        a: int = 1
        b: str = "x"
        c: Optional[Dict[str, int]] = None
    for sub in itertools.chain.from_iterable(itertools.combinations(["a", "b", "c", "other", "A"], r) for r in range(6)):
        def case():
            d = {k: {"a": 5, "b": "y", "c": {"k": 1}, "other": 2, "A": 3}[k] for k in sub}
            got = select_relevant_params(d, W)
            same(got, {k: v for k, v in d.items() if k in "abc"}, "relevant parameters")
        ctx.state(("cli", sub)); ctx.step()
        ctx.run(("cli",) + sub, case)


def sample_configs(ctx):
    """every shipped configuration file names existing options and survives parsing"""
    from ruamel.yaml import YAML
    from reagent.workflow.model_managers.union import ModelManager__Union
    files = sorted(glob.glob("/repo/reagent/gym/tests/configs/**/*.yaml", recursive=True)
                   + glob.glob("/repo/reagent/workflow/sample_configs/**/*.yaml", recursive=True))
    for path in files:
        rel = path.split("/reagent/")[1]
        if "recsim" in rel or "world_model" in rel:
            continue
        def case():
            d = YAML(typ="safe").load(open(path).read())
            expect(isinstance(d, dict), "config is a mapping")
            if "model" not in d:
                return
            mm = ModelManager__Union(**d["model"])
            inst = mm.value
            (name, args), = d["model"].items()
            same(type(inst).__name__, name, "model manager")
            def walk(cfg, obj, path):
                if isinstance(cfg, dict) and not isinstance(obj, dict):
                    for k, v in cfg.items():
                        expect(hasattr(obj, k), "%s.%s does not exist", path, k)
                        if getattr(obj, k) is None and v is not None:
                            raise AssertionError("%s.%s was dropped" % (path, k))
                        walk(v, getattr(obj, k), path + "." + k)
                elif isinstance(cfg, list):
                    expect(len(cfg) == len(obj), "%s length", path)
                    for a, b in zip(cfg, obj):
                        walk(a, b, path + "[]")
                elif isinstance(cfg, (int, float, bool)) and isinstance(obj, (int, float, bool)):
                    expect(float(cfg) == float(obj), "%s: %s became %s", path, cfg, obj)
                elif isinstance(cfg, str) and isinstance(obj, str):
                    expect(cfg == obj, "%s: %s became %s", path, cfg, obj)
            walk(args, inst, name)
            u2 = ModelManager__Union(**{name: inst})
            expect(u2.value is inst or u2.value == inst, "union of an instance")
        ctx.state(rel); ctx.step()
        ctx.run(rel, case)


def groups(tier):
    return [
        ("registry", registry), ("unions", unions), ("configs", configs), ("hashing", hashing), ("json", json_nested),
        ("optimizers", optimizers), ("misc", misc), ("sample-configs", sample_configs),
    ]

"""C03: JSON round trips and the command line."""
import dataclasses
import itertools
import json
import logging
import os
import sys
import tempfile
import types
from typing import Dict, List, NamedTuple, Optional

from click.testing import CliRunner

from mc.core import expect, raises, same
from mc import sparkstub

sparkstub.install()
from reagent import debug_on_error
from reagent.core.dataclasses import dataclass as reagent_dataclass
from reagent.json_serialize import from_json, json_to_object, object_to_json, prepare_for_json
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.workflow import cli

logging.getLogger("reagent").setLevel(logging.ERROR)

LEVEL = "exploration"
RULE = (
    "every value of every field type (numbers, strings, optional, lists, dictionaries with string and numeric keys, named tuples, nested data classes, up to two levels of "
    "nesting) is written and read back; every subset of parameters, defaults and unrelated keys in a configuration file is run through the command line. "
    "Non-trivial: nested values or more than one parameter"
)
ASSUMPTIONS = [
    "fields have JSON-representable contents: optional values only directly in fields, no tuples without names, keys are strings or numbers",
    "one process; the workflow is a recording function in a scratch module",
]


class Pair(NamedTuple):
    a: int
    b: Optional[float] = None


class Deep(NamedTuple):
    p: Pair
    names: List[str]
    table: Dict[int, float]


@dataclasses.dataclass
class Inner:
    x: int
    y: Optional[str] = None


@dataclasses.dataclass
class Lists:
    v: List[Inner]
    w: List[List[int]]
    n: List[Pair]


@dataclasses.dataclass
class Dicts:
    s: Dict[str, Inner]
    i: Dict[int, float]
    f: Dict[float, List[Pair]]
    d: Dict[int, Dict[str, int]]


@dataclasses.dataclass
class Mixed:
    i: int
    f: float
    b: bool
    s: str
    o: Optional[Inner]
    p: Optional[Pair]
    q: Deep
    l: Optional[List[Inner]] = None
    k: Optional[Dict[int, Inner]] = None


@reagent_dataclass
class Checked:
    i: int
    d: Dict[int, List[float]]
    o: Optional[str] = None


def types_of(x):
    """a copy of the value with the types of all parts"""
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return (type(x), [types_of(v) for v in x])
    if dataclasses.is_dataclass(x):
        return (type(x), [types_of(getattr(x, f.name)) for f in dataclasses.fields(x)])
    if isinstance(x, list):
        return [types_of(v) for v in x]
    if isinstance(x, dict):
        return {k: (type(k), types_of(v)) for k, v in x.items()}
    return type(x)


def there_and_back(ctx, o):
    before, t0 = repr(o), types_of(o)
    j = object_to_json(o)
    expect(repr(o) == before, "serialization changed the object")
    json.loads(j)
    r = json_to_object(j, type(o))
    expect(r == o and types_of(r) == t0, "%s came back as %s", o, r)
    same(object_to_json(r), j, "second serialization")
    ctx.step(2)
    ctx.state(before)
    ctx.outcome(j)


INNERS = [Inner(0), Inner(-3, "k"), Inner(7, "")]
PAIRS = [Pair(1), Pair(-2, 0.5)]


def round_trips(big):
    def fn(ctx):
        il = [[], [INNERS[0]], [INNERS[1], INNERS[2]], [INNERS[2], INNERS[0], INNERS[1]]]
        for v, w, n in itertools.product(il, [[], [[]], [[1], [2, 3]]], [[], PAIRS[:1], PAIRS]):
            ctx.run(("lists", repr((v, w, n))), there_and_back, ctx, Lists(v, w, n), nontrivial=len(v) + len(n) > 1)
        for s, i, f, d in itertools.product(
                [{}, {"1": INNERS[0]}, {"a": INNERS[1], "": INNERS[2]}], [{}, {0: 1.5}, {-1: 0.0, 12: 2.5}], [{}, {0.5: PAIRS}, {2.0: [], -1e9: PAIRS[:1]}],
                [{}, {3: {}}, {3: {"x": 1}, -4: {"y": 2, "1": 3}}]):
            ctx.run(("dicts", repr((s, i, f, d))), there_and_back, ctx, Dicts(s, i, f, d), nontrivial=len(s) + len(i) + len(f) + len(d) > 1)
        for i, f, b, s in itertools.product((0, -5), (0.25, 1e300, -0.0), (True, False), ("", "a\"\n\u00e9", "null")):
            for o, p in itertools.product([None] + INNERS, [None] + PAIRS):
                for q in (Deep(PAIRS[0], [], {}), Deep(PAIRS[1], ["x", "y"], {1: 0.5, -2: 1.5})):
                    for l, k in itertools.product([None, [], INNERS[:2]], [None, {}, {4: INNERS[1], 5: INNERS[0]}]):
                        if not big and (len(s) + i + bool(o)) % 3:
                            continue
                        ctx.run(("mixed", repr((i, f, b, s, o, p, q, l, k))), there_and_back, ctx, Mixed(i, f, b, s, o, p, q, l, k))
        for i, d, o in itertools.product((0, 3), ({}, {0: []}, {2: [0.5], -7: [1.0, 2.0]}), (None, "x")):
            ctx.run(("checked", repr((i, d, o))), there_and_back, ctx, Checked(i=i, d=d, o=o))
        for n in range(0, 3):
            for ks in itertools.permutations((0, 1, 10, -3), n):
                for ft in itertools.product(("CONTINUOUS", "ENUM", "QUANTILE"), repeat=n):
                    o = NormalizationData(dense_normalization_parameters={
                        k: NormalizationParameters(feature_type=t, mean=0.5 * k, stddev=None if t == "ENUM" else 2.0, possible_values=[1, 5] if t == "ENUM" else None,
                                                   quantiles=[0.0, 0.5] if t == "QUANTILE" else None) for k, t in zip(ks, ft)})
                    ctx.run(("normalization", ks, ft), there_and_back, ctx, o, nontrivial=n > 1)
    return fn


def refusals(ctx):
    def missing():
        # absent fields take their defaults, unknown ones are refused
        r = json_to_object('{"x": 4}', Inner)
        expect(r == Inner(4), "read %s", r)
        raises(lambda: json_to_object('{"x": 4, "z": 1}', Inner), "unknown field of a data class")
        raises(lambda: from_json({"a": 1, "c": 2}, Pair), "unknown field of a named tuple")
        expect(from_json({"a": 1}, Pair) == Pair(1), "default of a named tuple")
        raises(lambda: json_to_object('{"y": "s"}', Inner), "missing field")
        raises(lambda: json_to_object('{"v": {}, "w": [], "n": []}', Lists), "a dictionary for a list")
        raises(lambda: json_to_object('{"s": [], "i": {}, "f": {}, "d": {}}', Dicts), "a list for a dictionary")
        raises(lambda: object_to_json(3), "a number")
        raises(lambda: object_to_json([Inner(1)]), "a list")
        raises(lambda: json_to_object("{}", dict), "not a data class")
        raises(lambda: json_to_object('{"x": ', Inner), "broken JSON")
        expect(from_json(None, Inner) is None, "null")
        same(prepare_for_json(Deep(PAIRS[1], ["x"], {1: 2.0})), {"p": {"a": -2, "b": 0.5}, "names": ["x"], "table": {1: 2.0}}, "prepared named tuple")
        ctx.step()
        ctx.state("refusals")
    ctx.run("refusals", missing)


# -- command line -------------------------------------------------------------------------------
CALLS = []


def flow_plain(n: int, name: str = "dflt", ratio: float = 0.5, items: Optional[List[int]] = None):
    CALLS.append(dict(n=n, name=name, ratio=ratio, items=items))


def flow_nested(spec: NormalizationParameters, table: Optional[Dict[str, int]] = None, flag: bool = False):
    CALLS.append(dict(spec=spec, table=table, flag=flag))


def flow_fails(n: int = 1):
    CALLS.append(n)
    raise RuntimeError("workflow failed")


MOD = "verif_flows"


def run_cli(text, flow):
    mod = types.ModuleType(MOD)
    mod.flow_plain, mod.flow_nested, mod.flow_fails = flow_plain, flow_nested, flow_fails
    sys.modules[MOD] = mod
    hook, env = sys.excepthook, os.environ.get("USE_VANILLA_DATACLASS")
    h = list(logging.getLogger().handlers)
    lv = logging.getLogger().level
    try:
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "c.yaml")
            with open(p, "w") as f:
                f.write(text)
            del CALLS[:]
            return CliRunner().invoke(cli.reagent, ["run", MOD + "." + flow, p])
    finally:
        sys.excepthook = hook
        logging.getLogger().handlers[:] = h
        logging.getLogger().setLevel(lv)
        if env is None:
            os.environ.pop("USE_VANILLA_DATACLASS", None)
        else:
            os.environ["USE_VANILLA_DATACLASS"] = env


def to_yaml(d, ind=0):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out.append("%s%s:" % (" " * ind, k) + ("" if v else " {}"))
            out += [to_yaml(v, ind + 2)] if v else []
        else:
            out.append("%s%s: %s" % (" " * ind, k, json.dumps(v)))
    return "\n".join(out)


def command_line(ctx):
    opt = dict(name=("x", "7"), ratio=(0.25, 2), items=([], [3, 1]), unrelated=(1, "z"), n_=(5,))
    for n in (0, 3):
        for keys in itertools.chain.from_iterable(itertools.combinations(opt, k) for k in range(len(opt) + 1)):
            for vals in itertools.product(*(opt[k] for k in keys)):
                for last in (True, False):
                    def plain():
                        d = dict(zip(keys, vals))
                        conf = dict(d, n=n) if last else dict([("n", n)], **d)
                        r = run_cli(to_yaml(conf), "flow_plain")
                        expect(r.exit_code == 0, "exit code %s: %r", r.exit_code, r.exception)
                        want = dict(n=n, name=d.get("name", "dflt"), ratio=d.get("ratio", 0.5), items=d.get("items"))
                        same(CALLS, [want], "calls of the workflow")
                        expect(type(CALLS[0]["ratio"]) is float and type(CALLS[0]["n"]) is int, "types of the parameters")
                        ctx.step()
                        ctx.state((n, keys, vals))
                    ctx.run(("plain", n, keys, vals, last), plain, nontrivial=len(keys) > 0)
    for ft, mean, table, flag in itertools.product(("CONTINUOUS", "ENUM"), (None, 1.5), (None, {}, {"a": 1, "b": 2}), (None, True, False)):
        def nested():
            conf = dict(spec=dict(feature_type=ft))
            if mean is not None:
                conf["spec"]["mean"] = mean
            if table is not None:
                conf["table"] = table
            if flag is not None:
                conf["flag"] = flag
            r = run_cli(to_yaml(conf), "flow_nested")
            expect(r.exit_code == 0, "exit code %s: %r", r.exit_code, r.exception)
            expect(len(CALLS) == 1, "called %d times", len(CALLS))
            expect(CALLS[0]["spec"] == NormalizationParameters(feature_type=ft, mean=mean), "spec is %s", CALLS[0]["spec"])
            same(CALLS[0]["table"], table, "table")
            same(CALLS[0]["flag"], bool(flag), "flag")
            ctx.step()
            ctx.state((ft, mean, repr(table), flag))
        ctx.run(("nested", ft, mean, repr(table), flag), nested)
    for text, flow, calls in (
            ("", "flow_plain", 0), ("name: x\n", "flow_plain", 0), ("n: notanumber\n", "flow_plain", 0), ("n: [1\n", "flow_plain", 0), ("n: 1\n", "no_such_flow", 0),
            ("n: 4\n", "flow_fails", 1), ("spec: 3\n", "flow_nested", 0), ("spec:\n  feature_typo: x\n", "flow_nested", 0)):
        def fails():
            r = run_cli(text, flow)
            expect(r.exit_code != 0, "exit code 0 for %r", text)
            same(len(CALLS), calls, "calls")
            ctx.step()
        ctx.run(("fails", text, flow), fails)

    def select():
        C = dataclasses.make_dataclass("C", [("a", int), ("b", int)])
        for keys in itertools.chain.from_iterable(itertools.permutations("abcd", k) for k in range(5)):
            d = {k: i for i, k in enumerate(keys)}
            same(cli.select_relevant_params(d, C), {k: v for k, v in d.items() if k in "ab"}, "selected")
            same(d, {k: i for i, k in enumerate(keys)}, "the configuration")
    ctx.run("select", select)

    def hook():
        old = sys.excepthook
        try:
            debug_on_error.start()
            expect(sys.excepthook is not old, "no hook")
            seen, o2 = [], sys.__excepthook__
            sys.__excepthook__ = lambda *a: seen.append(a)
            try:
                sys.excepthook(ValueError, ValueError("x"), None)
            finally:
                sys.__excepthook__ = o2
            same(len(seen), 1, "calls of the default hook without a terminal")
        finally:
            sys.excepthook = old
    ctx.run("hook", hook)


def groups(tier):
    big = tier == "thorough"
    return [("round-trips", round_trips(big)), ("refusals", refusals), ("command-line", command_line)]

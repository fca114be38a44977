"""S02: published models can always be found, complete, under their own identity."""
import builtins
import contextlib
import dataclasses
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile

import torch
import torch.optim.lr_scheduler as _lrs

if not hasattr(_lrs, "_LRScheduler"):
    _lrs._LRScheduler = _lrs.LRScheduler

from mc import sparkstub

sparkstub.install()

from mc.core import CaseTimeout, Mismatch, close, expect, raises, same
from checks.t05 import make_manager
import reagent.types as rlt
from reagent.core.result_types import NoPublishingResults, NoValidationResults
from reagent.parameters import (
    EvaluationParameters, NormalizationData, NormalizationParameters, RLParameters)
from reagent.publishers.no_publishing import NoPublishing
from reagent.publishers.union import FileSystemPublisher, ModelPublisher__Union
from reagent.tensorboardX import SummaryWriterContext
from reagent.validators.model_validator import ModelValidator
from reagent.validators.no_validation import NoValidation
from reagent.validators.union import ModelValidator__Union
from reagent.workflow import training
from reagent.workflow.training_reports import DQNTrainingReport
from reagent.workflow.model_managers import model_manager as mm_module
from reagent.workflow.model_managers.union import ModelManager__Union
from reagent.workflow.types import (
    Dataset, PublishingResult__Union, ReaderOptions, ResourceOptions, RewardOptions, RLTrainingOutput, RLTrainingReport, TableSpec, ValidationResult__Union)

LEVEL = "fault_enumeration"
RULE = (
    "histories: all sequences, up to the depth bound, of publishing (one or two modules, absolute and relative paths), failing publications "
    "and changes of the reading instance over three configurations and two publisher instances on one file, everything observed after "
    "every operation or only at the end; faults: the publishing process is killed before every file operation and inside every write at "
    "the enumerated cut points, or that operation fails with an error; identities: every field of every model manager's configuration; "
    "training: every servable model manager, under one and the same clock reading; a case is non-trivial when something was published"
)
ASSUMPTIONS = [
    "overlapping publications run on one machine and are preempted at their operations on the registry file",
    "a killed process loses what it had not handed to the operating system; what it had handed over stays",
]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="s02-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def configs():
    a, b, c = make_manager("dqn"), make_manager("dqn"), make_manager("c51")
    b.trainer_param = dataclasses.replace(b.trainer_param, minibatch_size=b.trainer_param.minibatch_size * 2)
    b = dataclasses.replace(b)
    return [a, b, c]


def pub(path):
    return FileSystemPublisher(publishing_file=path)


def publish(p, manager, out, ids=None):
    r = p.publish(manager, out, ids or {"default_model": 1}, 987, None)
    expect(isinstance(r, PublishingResult__Union), "publish returned %s", type(r).__name__)
    expect(isinstance(r.value, NoPublishingResults) and r.value.success is True, "publish reported %s", r)
    return r


def content(path):
    with open(path) as f:
        return f.read()


def lookup(p, manager, module):
    """file content of the newest published model; None when there is none"""
    try:
        path = p.get_latest_published_model(manager, module)
    except ValueError:
        return None
    return content(path)


# -- histories ---------------------------------------------------------------------------------------
MODULES = ("default_model", "dqn")


class World:
    def __init__(self, d, managers, second=True):
        self.d, self.managers = d, managers
        self.file = os.path.join(d, "registry")
        self.other = os.path.join(d, "elsewhere")
        os.makedirs(self.other, exist_ok=True)
        self.pubs = [pub(self.file), pub(self.file)]
        self.model, self.n = {}, 0

    def artefact(self, tag):
        self.n += 1
        name = "m%d_%s" % (self.n, tag)
        with open(os.path.join(self.d, name), "w") as f:
            f.write(name)
        return name

    def do(self, op):
        """op = (publisher, configuration, kind)"""
        who, c, kind = op
        p, manager = self.pubs[who], self.managers[c]
        if kind == "reopen":
            self.pubs[who] = pub(self.file)
            return
        mods = {"one": MODULES[:1], "two": MODULES, "relative": MODULES[:1], "missing": MODULES, "missing-first": MODULES, "all-missing": MODULES[:1]}[kind]
        names = {m: self.artefact(m) for m in mods}
        paths = {m: (n if kind == "relative" else os.path.join(self.d, n)) for m, n in names.items()}
        if kind == "missing":
            os.remove(paths[MODULES[1]])
        if kind in ("missing-first", "all-missing"):
            os.remove(paths[MODULES[0]])
        before = dict(paths)
        out = RLTrainingOutput(output_paths=paths)
        if kind.endswith("missing") or kind == "missing-first":
            raises(lambda: publish(p, manager, out), "publishing a model that does not exist")
        else:
            publish(p, manager, out)
            for m in mods:
                self.model[c, m] = names[m]
        same(out.output_paths, before, "training output after publishing")

    def observe(self, reader=None, cwd=True):
        os.chdir(self.other if cwd else self.d)
        try:
            for who in ([reader] if reader is not None else [0, 1]):
                for c, manager in enumerate(self.managers):
                    for m in MODULES:
                        same(lookup(self.pubs[who], manager, m), self.model.get((c, m)), "newest %s of configuration %d, seen by instance %d" % (m, c, who))
        finally:
            os.chdir(self.d)


def history(managers, ops, when, ctx):
    with scratch() as d:
        w = World(d, managers)
        for i, op in enumerate(ops):
            w.do(op)
            ctx.step()
            if when == "always":
                w.observe()
            elif when == "writer":
                w.observe(op[0], cwd=False)
        w.observe()
        ctx.state(tuple(sorted(w.model.items())))


def histories(kinds, cs, depth, when):
    def fn(ctx):
        managers = configs()
        alphabet = [(w, c, k) for w in (0, 1) for c in cs for k in kinds if not (k == "reopen" and c != cs[0])]
        for L in range(1, depth + 1):
            for ops in itertools.product(alphabet, repeat=L):
                if ops[0][0] == 1:
                    continue  # the instances are interchangeable
                ctx.run((when,) + tuple("%d%d%s" % o for o in ops), history, managers, ops, when, ctx)

    return fn


def constructed_late(ctx):
    """instances created at any point of the history, equal configurations built separately"""
    managers, again = configs(), configs()

    def case(order, late):
        with scratch() as d:
            w = World(d, managers)
            for i, c in enumerate(order):
                if i == late:
                    w.pubs[1] = pub(w.file)
                w.managers = (managers, again)[i % 2]
                w.do((i % 2, c, "two" if c else "one"))
                ctx.step()
            for ms in (managers, again):
                w.managers = ms
                w.observe()
            relative = os.path.relpath(w.file)
            w.pubs = [pub(relative), pub(w.file)]
            w.observe()

    for L in (1, 2, 3):
        for order in itertools.product((0, 1, 2), repeat=L):
            for late in range(L):
                ctx.run((order, late), case, order, late)


# -- identities --------------------------------------------------------------------------------------
def nd(p):
    return NormalizationData(dense_normalization_parameters=p)


CONT = NormalizationParameters(feature_type="CONTINUOUS", mean=0.5, stddev=2.0)
NORMS = {
    "state": nd({1: CONT, 2: CONT}),
    "item": nd({3: CONT, 4: CONT}),
    "action": nd({7: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=-1.0, max_value=1.0)}),
}


def manager(kind):
    from reagent.workflow.model_managers.model_based.cross_entropy_method import CrossEntropyMethod
    from reagent.workflow.model_managers.model_based.seq2reward_model import Seq2RewardModel
    from reagent.workflow.model_managers.model_based.world_model import WorldModel
    from reagent.workflow.model_managers.parametric.parametric_dqn import ParametricDQN
    from reagent.workflow.model_managers.ranking.slate_q import SlateQ
    from reagent.parameters import CEMTrainerParameters, MDNRNNTrainerParameters, Seq2RewardTrainerParameters
    from reagent.training import ParametricDQNTrainerParameters

    ev = EvaluationParameters(calc_cpe_in_training=False)
    if kind == "pdqn":
        return ParametricDQN(trainer_param=ParametricDQNTrainerParameters(rl=RLParameters(gamma=0.9)), eval_parameters=ev,
                             state_float_features=[(1, "s1"), (2, "s2")], action_float_features=[(7, "a")])
    if kind == "slateq":
        from reagent.training.parameters import SlateQTrainerParameters as P

        return SlateQ(slate_feature_id=20, slate_score_id=(1, 2), slate_size=2, num_candidates=3, trainer_param=P(),
                      state_float_features=[(1, "s1"), (2, "s2")], item_float_features=[(3, "i3"), (4, "i4")])
    if kind == "world":
        return WorldModel(trainer_param=MDNRNNTrainerParameters(action_dim=2))
    if kind == "seq2reward":
        return Seq2RewardModel(trainer_param=Seq2RewardTrainerParameters())
    if kind == "cem":
        return CrossEntropyMethod(trainer_param=CEMTrainerParameters(mdnrnn=MDNRNNTrainerParameters(action_dim=2), rl=RLParameters()))
    return make_manager(kind)


def variants(x, path=""):
    """(path, altered copy) for every leaf of a configuration"""
    if x is None:
        return
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            if f.name.startswith("__") or not f.init:
                continue
            v = getattr(x, f.name)
            for p, nv in variants(v, "%s.%s" % (path, f.name)):
                try:
                    yield p, dataclasses.replace(x, **{f.name: nv})
                except (CaseTimeout, KeyboardInterrupt):
                    raise
                except Exception:
                    pass  # not a configuration
        return
    if isinstance(x, bool):
        yield path, not x
    elif isinstance(x, int):
        yield path, x + 1
    elif isinstance(x, float):
        yield path, x * 0.5 + 0.1234567
        if x * (1 + 1e-12) != x:
            yield path + "(1e-12)", x * (1 + 1e-12)
    elif isinstance(x, str):
        yield path, x + "x"
    elif isinstance(x, dict):
        for k in x:
            for p, nv in variants(x[k], "%s[%r]" % (path, k)):
                yield p, {**x, k: nv}
        yield path + "+", {**x, (list(x)[-1] + type(list(x)[-1])(1) if x and not isinstance(list(x)[-1], str) else "another"): (list(x.values())[-1] if x else 1.0)}
    elif isinstance(x, (list, tuple)):
        for i in range(len(x)):
            for p, nv in variants(x[i], "%s[%d]" % (path, i)):
                yield p, type(x)(list(x[:i]) + [nv] + list(x[i + 1:]))
        if isinstance(x, list) and x:
            yield path + "+", x + [x[-1]]
            yield path + "-", x[:-1]


def identities(kinds):
    def fn(ctx):
        for kind in kinds:
            base = manager(kind)
            for path, other in variants(base):
                def case(path=path, other=other):
                    with scratch() as d:
                        p = pub(os.path.join(d, "registry"))
                        one, two, three = (os.path.join(d, n) for n in ("one", "two", "three"))
                        for f in (one, two, three):
                            with open(f, "w") as fh:
                                fh.write(f)
                        publish(p, base, RLTrainingOutput(output_paths={"default_model": one}))
                        same(lookup(p, manager(kind), "default_model"), one, "model of an equal configuration")
                        same(lookup(p, base, "other_model"), None, "model of another module")
                        same(lookup(p, other, "default_model"), None, "model published for a configuration that differs in %s" % path)
                        publish(p, other, RLTrainingOutput(output_paths={"default_model": two}))
                        same(lookup(p, base, "default_model"), one, "model of the first configuration")
                        same(lookup(p, other, "default_model"), two, "model of the second configuration")
                        publish(p, base, RLTrainingOutput(output_paths={"default_model": three}))
                        same(lookup(p, base, "default_model"), three, "newest model of the first configuration")
                        same(lookup(p, other, "default_model"), two, "model of the second configuration")
                        ctx.state((kind, path))
                        ctx.step(3)

                ctx.run((kind, path), case)

    return fn


# -- faults ------------------------------------------------------------------------------------------
class Fault(OSError):
    pass


class Injector:
    """counts the file operations under a directory; the n-th one is cut: the process dies, or the operation fails"""

    def __init__(self, d, n=None, cut=0, mode="kill"):
        self.d, self.n, self.cut, self.mode = os.path.realpath(d), n, cut, mode
        self.events = []

    def stop(self):
        if self.mode == "kill":
            os._exit(77)
        raise Fault(28, "No space left on device")

    def mine(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.d)
        except TypeError:
            return False

    def event(self, name, size=None):
        """True: this is the operation to cut"""
        self.events.append((name, size))
        return self.n is not None and len(self.events) - 1 == self.n

    @contextlib.contextmanager
    def installed(self):
        inj = self
        real_open, saved = io.open, {}

        class File:
            def __init__(self, f):
                self.__dict__["_f"] = f

            def __getattr__(self, a):
                return getattr(self._f, a)

            def __setattr__(self, a, v):
                setattr(self._f, a, v)

            def __iter__(self):
                return iter(self._f)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def write(self, data):
                if inj.event("write", len(data)):
                    k = min(inj.cut if inj.cut >= 0 else len(data) + 1 + inj.cut, len(data))
                    self._f.write(data[:k])
                    self._f.flush()
                    inj.stop()
                return self._f.write(data)

            def writelines(self, lines):
                for x in lines:
                    self.write(x)

            def truncate(self, *a):
                if inj.event("truncate"):
                    inj.stop()
                return self._f.truncate(*a)

            def flush(self):
                if inj.event("flush"):
                    inj.stop()
                return self._f.flush()

            def close(self):
                if not self._f.closed and self._f.writable() and inj.event("close"):
                    if inj.mode == "kill":
                        inj.stop()
                    self._f.close()
                    inj.stop()
                return self._f.close()

        def opener(file, mode="r", *a, **k):
            if isinstance(file, int) or not inj.mine(file):
                return real_open(file, mode, *a, **k)
            if any(x in mode for x in "wa+x"):
                if inj.event("open:" + mode):
                    inj.stop()
            return File(real_open(file, mode, *a, **k))

        def fs(name):
            real = getattr(os, name)

            def call(*a, **k):
                if (name == "fsync" or any(isinstance(x, (str, bytes, os.PathLike)) and inj.mine(x) for x in a)) and inj.event(name):
                    inj.stop()
                return real(*a, **k)

            return real, call

        names = ("replace", "rename", "remove", "unlink", "truncate", "link", "symlink", "fsync")
        for n in names:
            saved[n], new = fs(n)
            setattr(os, n, new)
        builtins.open = io.open = opener
        try:
            yield self
        finally:
            builtins.open = io.open = real_open
            for n in names:
                setattr(os, n, saved[n])


def in_child(fn):
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            fn()
            code = 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


SETUPS = {
    "empty": [],
    "others": [(1, "two"), (2, "one")],
    "again": [(1, "one"), (0, "two"), (2, "one")],
    "only": [(0, "two")],
    "long": [(0, "two"), (1, "two"), (2, "two"), (1, "one"), (0, "one")],
}


def faulty(managers, setup, kind, mode, n, cut, ctx, fresh):
    """returns the operations of the publication"""
    with scratch() as d:
        w = World(d, managers)
        for c, k in SETUPS[setup]:
            w.do((0, c, k))
        mods = MODULES if kind == "two" else MODULES[:1]
        names = {m: w.artefact(m) for m in mods}
        # every file operation below the scratch directory is an event
        inj = Injector(d, n, cut, mode)
        old = dict(w.model)

        def attempt():
            with inj.installed():
                p = pub(w.file) if fresh else w.pubs[0]
                publish(p, managers[0], RLTrainingOutput(output_paths={m: os.path.join(d, x) for m, x in names.items()}))

        if mode == "kill":
            if n is None:
                attempt()
                code = 0
            else:
                code = in_child(attempt)
                expect(code in (0, 77), "publication died with exit code %d", code)
        else:
            try:
                attempt()
                code = 0
            except Fault:
                code = 77
        if n is None:
            for m in mods:
                w.model[0, m] = names[m]
            w.observe()
            return inj.events
        readers = [pub(w.file)] + (w.pubs if mode != "kill" else [])
        for p in readers:
            for c, mg in enumerate(managers):
                for m in MODULES:
                    got = lookup(p, mg, m)
                    allowed = [old.get((c, m))]
                    if c == 0 and m in mods:
                        allowed = [names[m]] if code == 0 else allowed + [names[m]]
                    expect(got in allowed, "after an interrupted publication, %s of configuration %d is %s (allowed: %s)", m, c, got, allowed)
        # the next publication works
        for m in mods:
            got = lookup(readers[0], managers[0], m)
            if got is not None:
                w.model[0, m] = got
        w.pubs = [readers[0], pub(w.file)]
        w.do((0, 0, kind))
        w.do((1, 1, "one"))
        w.observe()
        ctx.state((setup, kind, mode, n, cut))
        ctx.step(3)


def faults(setups, kinds, mode, tier):
    def fn(ctx):
        managers = configs()
        for setup in setups:
            for kind in kinds:
                for fresh in (True, False):
                    events = []
                    if not ctx.run((setup, kind, mode, fresh, "whole"), lambda: events.extend(faulty(managers, setup, kind, mode, None, 0, ctx, fresh))):
                        pass
                    if not events:
                        events = faulty(managers, setup, kind, mode, None, 0, ctx, fresh)
                    ctx.note("file operations of a publication", len(events))
                    for n, (name, size) in enumerate(events):
                        if name != "write":
                            cuts = [0]
                        elif tier == "quick":
                            cuts = sorted({0, 1, size // 2, size - 1, size})
                        else:
                            cuts = sorted({0, 1, 2, size - 2, size - 1, size} | set(range(0, size, max(1, size // 40))))
                        for cut in cuts:
                            ctx.run((setup, kind, mode, fresh, n, name, cut), faulty, managers, setup, kind, mode, n, cut, ctx, fresh)

    return fn


# -- training ----------------------------------------------------------------------------------------
SERVABLE = ("dqn", "c51", "qr", "crr", "sac", "td3", "pdqn", "slateq")


@contextlib.contextmanager
def frozen_clock(t=1600000000.4):
    import time

    real = time.time
    time.time = lambda: t
    try:
        yield
    finally:
        time.time = real


def answer(module, kind, name):
    """what a served model answers to a fixed request"""
    sp = (torch.tensor([[1.0, -2.0], [0.5, 3.0]]), torch.ones(2, 2, dtype=torch.uint8))
    ap = (torch.tensor([[0.3], [-0.7]]), torch.ones(2, 1, dtype=torch.uint8))
    ip = (torch.tensor([[1.0, 2.0], [0.0, -1.0], [3.0, 0.5]]), torch.ones(3, 2, dtype=torch.uint8))
    if kind == "pdqn":
        args = (sp, ap)
    elif kind == "slateq":
        args = ((sp[0][[0, 0, 0]], sp[1][[0, 0, 0]]), ip)
    elif kind in ("sac", "td3"):
        args = (sp,)
    else:
        args = (rlt.ServingFeatureData(sp, {}, {}),)
    if kind == "crr" and name == "default_model":
        args = (sp,)
    torch.manual_seed(3)
    with torch.no_grad():
        return flatten(module(*args))


def flatten(x):
    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatten(y)]
    if isinstance(x, dict):
        return [z for k in sorted(x) for z in flatten(x[k])]
    return [x]


def bump(tr, k):
    """training stand-in: moves every parameter"""
    g = torch.Generator().manual_seed(17 + k)
    with torch.no_grad():
        for p in tr.parameters():
            p.add_(0.1 * torch.randn(p.shape, generator=g))


class DataModule:
    def __init__(self, name, kw):
        self.name, self.kw, self.ready = name, kw, False

    def prepare_data(self):
        return {"prepared": b"data"}

    def setup(self):
        same(self.kw.get("setup_data"), {"prepared": b"data"}, "setup data")
        self.ready = True

    def get_normalization_data_map(self, keys):
        expect(self.ready, "the data module was used before its setup")
        return {k: NORMS[k] for k in keys}


def train_workflow(ctx, kinds):
    for kind in kinds:
        def case(runs, via):
            made = {}  # path -> content, from earlier runs
            with scratch(), frozen_clock():
                p = pub("registry")
                latest = {}
                for r in range(runs):
                    SummaryWriterContext._reset_globals()
                    torch.manual_seed(r)
                    m = manager(kind)
                    result = RLTrainingOutput(training_report=None, validation_result=None)
                    want = {}

                    def train(train_dataset, eval_dataset, data_module, num_epochs, reader_options, resource_options, m=m, r=r, want=want):
                        if data_module is None:
                            same((train_dataset.parquet_url, eval_dataset), ("train%d" % r, None), "training data")
                        else:
                            same((data_module.name, train_dataset, eval_dataset), ("module%d" % r, None, None), "training data")
                        same(num_epochs, 2 + r, "training request")
                        bump(m.trainer, r)
                        for name, mod in m.build_serving_modules().items():
                            want[name] = answer(mod, kind, name)
                        return result

                    m.__dict__["train"] = train
                    discrete = via == "query" and kind in ("dqn", "c51", "qr", "crr")
                    m.__dict__["get_data_module"] = lambda discrete=discrete, r=r, **kw: DataModule("module%d" % r, kw) if discrete else None
                    ids = {n: 1 for n in m.serving_module_names()}
                    kw = dict(num_epochs=2 + r, use_gpu=False)
                    if via == "workflow":
                        out = m.train_workflow(
                            Dataset(parquet_url="train%d" % r), None, named_model_ids=ids, child_workflow_id=1,
                            normalization_data_map=NORMS, reward_options=RewardOptions(), **kw)
                    else:
                        m.__dict__["query_data"] = lambda input_table_spec, sample_range, reward_options, r=r: Dataset(parquet_url="train%d" % r)
                        out = training.query_and_train(
                            TableSpec(table_name="t"), Holder(m), normalization_data_map=None if discrete else NORMS, validator=Holder(NoValidation()), publisher=Holder(p), **kw)
                        expect(isinstance(out.validation_result.value, NoValidationResults), "validation result %s", out.validation_result)
                        expect(isinstance(out.publishing_result.value, NoPublishingResults), "publishing result %s", out.publishing_result)
                    same(sorted(out.output_paths), sorted(m.serving_module_names()), "saved modules")
                    same(sorted(want), sorted(m.serving_module_names()), "modules that can be served")
                    for name, path in out.output_paths.items():
                        expect(os.path.isfile(path), "%s was not saved", path)
                        expect(os.path.abspath(path) not in made, "training overwrote a file saved before: %s", path)
                        with open(path, "rb") as f:
                            made[os.path.abspath(path)] = f.read()
                        got = answer(torch.jit.load(path), kind, name)
                        same(len(got), len(want[name]), "answers of %s" % name)
                        for a, b in zip(got, want[name]):
                            (close if isinstance(a, torch.Tensor) else same)(a, b, "answer of the saved %s" % name)
                    latest = dict(want)
                    if via == "workflow":
                        publish(p, m, out)
                for path, data in made.items():
                    with open(path, "rb") as f:
                        expect(f.read() == data, "a file saved before was changed")
                again = manager(kind)
                for name in latest:
                    got = answer(torch.jit.load(p.get_latest_published_model(again, name)), kind, name)
                    for a, b in zip(got, latest[name]):
                        (close if isinstance(a, torch.Tensor) else same)(a, b, "answer of the newest published %s" % name)
                ctx.state((kind, runs, via))
                ctx.step(runs)

        for runs in (1, 2, 3):
            for via in ("workflow", "query"):
                ctx.run((kind, runs, via), case, runs, via)


class Holder:
    """stands for a tagged union"""

    def __init__(self, v):
        self.value = v


# -- data flow ---------------------------------------------------------------------------------------
REPORT = RLTrainingReport(dqn_report=DQNTrainingReport(td_loss=0.25, mc_loss=0.5))


class RecValidator:
    def __init__(self, log, ok):
        self.log, self.ok = log, ok

    def validate(self, out):
        self.log.append(("validate", out))
        return ValidationResult__Union(no_validation_results=NoValidationResults(should_publish=self.ok))


class RecPublisher:
    def __init__(self, log, ok):
        self.log, self.ok = log, ok

    def publish(self, manager, out, ids, child, period):
        self.log.append(("publish", manager, out, dict(ids), child, period))
        return PublishingResult__Union(no_publishing_results=NoPublishingResults(success=self.ok))


class RecManager:
    def __init__(self, log, cpe, module, names):
        self.log, self.should_generate_eval_dataset, self.module, self.names = log, cpe, module, names

    def serving_module_names(self):
        return self.names

    def get_data_module(self, **kw):
        self.log.append(("module", kw))
        return self.module

    def run_feature_identification(self, spec):
        self.log.append(("identify", spec))
        return {"state": "norm"}

    def query_data(self, input_table_spec, sample_range, reward_options):
        self.log.append(("query", input_table_spec, sample_range, reward_options))
        return Dataset(parquet_url=str(sample_range))

    def train_workflow(self, train_dataset, eval_dataset, **kw):
        self.log.append(("train", train_dataset, eval_dataset, kw))
        return self.result


class RecModule:
    def __init__(self, log):
        self.log = log

    def prepare_data(self):
        self.log.append(("prepare",))
        return {"setup": b"bytes"}


def flow(ctx):
    spec = lambda a, b: TableSpec(table_name="t", table_sample=a, eval_table_sample=b)

    def ranges(cpe, a, b):
        if not cpe:
            return (0.0, 100.0 if a is None else a), None
        return (0.0, a), (100.0 - b, 100.0)

    def case(entry, module, cpe, validator, publisher, a, b, given, ids, opts):
        log = []
        extra = dict(training_report=REPORT) if opts else {}
        m = RecManager(log, cpe, RecModule(log) if module else None, ["default_model", "x"])
        rew, read, res = (RewardOptions(custom_reward_expression="r"), ReaderOptions(minibatch_size=7), ResourceOptions()) if opts else (None, None, None)
        m.result = RLTrainingOutput(output_paths={"default_model": "p", "x": "q"}, **extra)
        v = Holder(RecValidator(log, validator == "yes")) if validator else None
        p = Holder(RecPublisher(log, publisher == "yes")) if publisher else None
        kw = dict(reward_options=rew, reader_options=read, resource_options=res, warmstart_path="warm" if opts else None, validator=v, publisher=p)
        norm = {"state": "norm"}
        if entry == "identify":
            out = training.identify_and_train_network(spec(a, b), Holder(m), 3, use_gpu=False, **kw)
        else:
            if ids:
                kw["named_model_ids"] = {"default_model": 5, "x": 6}
            if given == "setup":
                kw["setup_data"] = {"given": b"bytes"}
            elif given == "norm":
                kw["normalization_data_map"] = norm
            out = training.query_and_train(spec(a, b), Holder(m), 3, False, **kw)
        names = [e[0] for e in log]
        tr = [e for e in log if e[0] == "train"]
        same(len(tr), 1, "number of trainings")
        _, tds, eds, tkw = tr[0]
        setup = {"given": b"bytes"} if given == "setup" and entry == "query" else {"setup": b"bytes"} if module else None
        same(tkw["setup_data"], setup, "setup data given to the training")
        same(tkw["normalization_data_map"], norm if setup is None else None, "normalization data given to the training")
        if setup is None:
            want_t, want_e = ranges(cpe, a, b)
            same(tds.parquet_url, str(want_t), "training data")
            same(eds and eds.parquet_url, str(want_e) if want_e else None, "evaluation data")
            for e in log:
                if e[0] == "query":
                    same(e[1], spec(a, b), "table")
                    same(e[3], rew or RewardOptions(), "reward options of the query")
        else:
            same((tds, eds), (None, None), "data sets")
            expect("query" not in names, "the table was queried although there is a data module")
        same((tkw["num_epochs"], tkw["use_gpu"], tkw["warmstart_path"]), (3, False, "warm" if opts else None), "training request")
        same(tkw["reward_options"], rew or RewardOptions(), "reward options")
        same(tkw["reader_options"], read or ReaderOptions(), "reader options")
        got_ids = tkw["named_model_ids"]
        same(sorted(got_ids), ["default_model", "x"], "named models")
        expect(len(set(got_ids.values())) == 2, "models share an id")
        if ids and entry == "query":
            same(got_ids, {"default_model": 5, "x": 6}, "named model ids")
        order = [n for n in names if n in ("train", "validate", "publish")]
        same(order, ["train"] + (["validate"] if v else []) + (["publish"] if p else []), "stages")
        want = m.result
        if v:
            e = [e for e in log if e[0] == "validate"][0]
            same(e[1], want, "result given to the validator")
            want = dataclasses.replace(want, validation_result=ValidationResult__Union(no_validation_results=NoValidationResults(should_publish=validator == "yes")))
        if p:
            e = [e for e in log if e[0] == "publish"][0]
            expect(e[1] is m, "another configuration was published")
            same(e[2], want, "result given to the publisher")
            same(e[3], got_ids, "ids given to the publisher")
            same(e[4], tkw["child_workflow_id"], "workflow id given to the publisher")
            want = dataclasses.replace(want, publishing_result=PublishingResult__Union(no_publishing_results=NoPublishingResults(success=publisher == "yes")))
        same(out, want, "result")
        same(m.result, RLTrainingOutput(output_paths={"default_model": "p", "x": "q"}, **extra), "training result")
        ctx.state((entry, module, cpe, validator, publisher, a, b, given, ids, opts))
        ctx.step(len(log))

    samples = [(None, None), (100.0, 0.0), (90.0, 10.0), (50.0, 20.0), (12.5, 87.5)]
    for entry, module, cpe, v, p, (a, b), given, ids, opts in itertools.product(
            ("identify", "query"), (False, True), (False, True), (None, "yes", "no"), (None, "yes", "no"), samples, ("setup", "norm"), (False, True), (False, True)):
        if cpe and a is None and not (module or (entry == "query" and given == "setup")):
            continue
        if entry == "identify" and (given != "norm" or ids):
            continue
        ctx.run((entry, module, cpe, v, p, a, b, given, ids, opts), case, entry, module, cpe, v, p, a, b, given, ids, opts)

    def refused(a, b):
        log = []
        m = RecManager(log, True, None, ["default_model"])
        raises(lambda: training.query_and_train(spec(a, b), Holder(m), 3, False, normalization_data_map={"state": "norm"}), "evaluation ranges that overlap")
        same([e[0] for e in log if e[0] in ("train", "query")], [], "stages")

    for a, b in [(None, None), (None, 10.0), (10.0, None), (90.0, 20.0), (100.0, 1.0)]:
        ctx.run(("refused", a, b), refused, a, b)


def twice(ctx):
    """a result that already went through a stage is refused, and nothing is validated or published again"""
    def case(stage):
        log = []
        out = RLTrainingOutput(
            output_paths={"default_model": "p"},
            validation_result=ValidationResult__Union(no_validation_results=NoValidationResults(should_publish=True)),
            publishing_result=PublishingResult__Union(no_publishing_results=NoPublishingResults(success=True)))
        if stage == "validate":
            raises(lambda: training.run_validator(Holder(RecValidator(log, True)), out))
        else:
            raises(lambda: training.run_publisher(Holder(RecPublisher(log, True)), Holder(None), out, {}, 1, None))
        same(log, [], "stages")

    for s in ("validate", "publish"):
        ctx.run(("twice", s), case, s)

    def wrappers(ok):
        r = NoValidation().validate(RLTrainingOutput())
        expect(isinstance(r, ValidationResult__Union) and r.value.should_publish is True, "NoValidation: %s", r)
        r = NoPublishing().publish(make_manager("dqn"), RLTrainingOutput(output_paths={"default_model": "nowhere"}), {}, 1, None)
        expect(isinstance(r, PublishingResult__Union) and r.value.success is True, "NoPublishing: %s", r)

    ctx.run(("wrappers",), wrappers, True)


# -- overlapping publications: processes under a scheduler that holds each of them before every operation on the registry ------------
class Held:
    """a process that publishes; it waits for a word from the scheduler before each operation"""

    def __init__(self, d, fn):
        up, down = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(up[0]), os.close(down[1])
                self.r, self.w, self.d = down[0], up[1], d
                self.install()
                self.wait("start")
                fn()
                os.write(self.w, b"D")
                code = 0
            except BaseException as e:
                os.write(self.w, b"E" + repr(e).encode()[:300])
            finally:
                os._exit(code)
        os.close(up[1]), os.close(down[0])
        self.r, self.w = up[0], down[1]
        self.live, self.blocked, self.ops, self.killed = True, False, 0, False
        self.hear()

    # in the child
    def wait(self, what):
        os.write(self.w, b"B" if what == "blocked" else b"O")
        if os.read(self.r, 1) != b"g":
            os._exit(3)

    def mine(self, x):
        try:
            return os.path.realpath(os.fspath(x)).startswith(self.d)
        except TypeError:
            return False

    def install(self):
        import fcntl

        held, real_open = self, io.open

        class File:
            def __init__(self, f):
                self.__dict__["_f"] = f

            def __getattr__(self, a):
                return getattr(self._f, a)

            def __setattr__(self, a, v):
                setattr(self._f, a, v)

            def __iter__(self):
                return iter(self._f)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def read(self, *a):
                held.wait("read")
                return self._f.read(*a)

            def flush(self):
                held.wait("flush")
                return self._f.flush()

            def truncate(self, *a):
                held.wait("truncate")
                return self._f.truncate(*a)

            def close(self):
                if not self._f.closed and self._f.writable():
                    held.wait("close")
                return self._f.close()

        def opener(file, mode="r", *a, **k):
            if isinstance(file, int) or not self.mine(file):
                return real_open(file, mode, *a, **k)
            self.wait("open")
            return File(real_open(file, mode, *a, **k))

        builtins.open = io.open = opener
        for n in ("replace", "rename", "remove", "unlink", "link", "symlink", "mkdir"):
            def call(*a, real=getattr(os, n), **k):
                if any(self.mine(x) for x in a if isinstance(x, (str, bytes, os.PathLike))):
                    self.wait("fs")
                return real(*a, **k)
            setattr(os, n, call)

        def lock(real):
            def call(fd, op, *a):
                fd = fd._f if isinstance(fd, File) else fd
                self.wait("lock")
                while True:
                    try:
                        return real(fd, op | fcntl.LOCK_NB if op & (fcntl.LOCK_EX | fcntl.LOCK_SH) else op, *a)
                    except OSError:
                        if op & fcntl.LOCK_NB:
                            raise
                        self.wait("blocked")
            return call
        fcntl.flock, fcntl.lockf = lock(fcntl.flock), lock(fcntl.lockf)
        real_os_open = os.open

        def os_open(path, flags, *a, **k):
            if self.mine(path):
                self.wait("open")
            return real_os_open(path, flags, *a, **k)
        os.open = os_open
        import time
        time.sleep = lambda s: self.wait("blocked")

    # in the scheduler
    def hear(self):
        m = os.read(self.r, 400)
        self.blocked = m == b"B"
        if m[:1] not in (b"O", b"B"):
            self.live = False
            self.error = None if m == b"D" else (m[1:] or b"died").decode()
            os.waitpid(self.pid, 0)
            self.pid = None

    def go(self):
        os.write(self.w, b"g")
        self.ops += 1
        self.hear()

    def kill(self):
        os.kill(self.pid, 9)
        os.waitpid(self.pid, 0)
        self.pid, self.live, self.killed, self.error = None, False, True, "killed"

    def end(self):
        if self.pid:
            os.kill(self.pid, 9)
            os.waitpid(self.pid, 0)
        os.close(self.r), os.close(self.w)


def overlapping(setup, plans, bound, kills=0):
    """plans: (configuration, modules) of each process; every schedule with at most `bound` preemptions and `kills` killed processes

    a schedule is a list of process numbers; -1-i kills process i"""

    def fn(ctx):
        managers = configs()

        def run(prefix):
            """follow the prefix, then never preempt; returns the alternatives met on the way"""
            with scratch() as d:
                w = World(d, managers)
                for c, k in SETUPS[setup]:
                    w.do((0, c, k))
                names = [{m: w.artefact(m) for m in mods} for _, mods in plans]
                old = dict(w.model)
                procs = []
                try:
                    for (c, mods), nm in zip(plans, names):
                        procs.append(Held(d, lambda c=c, nm=nm: publish(pub(w.file), managers[c], RLTrainingOutput(output_paths={m: os.path.join(d, x) for m, x in nm.items()}))))
                    trace, alts, cur, idle = [], [], 0, 0
                    while any(p.live for p in procs):
                        live = [i for i, p in enumerate(procs) if p.live]
                        ready = [i for i in live if not procs[i].blocked]
                        if len(trace) < len(prefix):
                            pick = prefix[len(trace)]
                            expect((pick if pick >= 0 else -1 - pick) in live, "schedule diverged")
                        elif cur in ready:
                            pick = cur
                        else:
                            pick = (ready or live)[0] if ready or len(live) == 1 else live[(live.index(cur) + 1) % len(live)] if cur in live else live[0]
                        if pick < 0:
                            procs[-1 - pick].kill()
                            for p in procs:
                                p.blocked = False
                            trace.append(pick)
                            alts.append([])
                            continue
                        switch = cur in ready and pick != cur
                        alts.append([i for i in live if i != pick and not (procs[i].blocked and i == cur)] if cur in ready and not switch else [])
                        idle = idle + 1 if procs[pick].blocked else 0
                        procs[pick].go()
                        if not procs[pick].live or not procs[pick].blocked:
                            for p in procs:
                                p.blocked = p.blocked and p is procs[pick]
                        expect(idle < 60, "the publications wait for each other forever")
                        cur = pick
                        trace.append(pick)
                        ctx.step()
                        if len(trace) % 3 == 0:
                            compare(w, old, names, [p.live or p.error for p in procs], managers, "while publishing")
                        expect(len(trace) < 400, "a publication does not end")
                    for p, (c, _) in zip(procs, plans):
                        expect(p.error is None or p.killed, "publishing configuration %d failed: %s", c, p.error)
                    compare(w, old, names, [p.killed for p in procs], managers, "after all publications")
                    # and the registry goes on working
                    w.pubs = [pub(w.file), pub(w.file)]
                    for c, mg in enumerate(managers):
                        for m in MODULES:
                            got = lookup(w.pubs[0], mg, m)
                            if got is not None:
                                w.model[c, m] = got
                    w.do((0, 1, "one"))
                    w.observe()
                finally:
                    for p in procs:
                        p.end()
                ctx.state((setup, tuple(trace)))
                return trace, alts

        def compare(w, old, names, pending, managers, when):
            p = pub(w.file)
            for c, mg in enumerate(managers):
                for m in MODULES:
                    writers = [i for i, (k, mods) in enumerate(plans) if k == c and m in mods]
                    allowed = [names[i][m] for i in writers]
                    if not writers or any(pending[i] for i in writers):
                        allowed.append(old.get((c, m)))
                    got = lookup(p, mg, m)
                    expect(got in allowed, "%s, %s of configuration %d is %s (allowed: %s)", when, m, c, got, allowed)

        todo = [((), 0, 0)]
        while todo:
            prefix, used, killed = todo.pop()
            res = {}

            def case():
                res["r"] = run(prefix)

            ctx.run(("schedule", "".join(str(i) if i >= 0 else "k%d" % (-1 - i) for i in prefix) or "-"), case)
            if "r" not in res:
                continue
            trace, alts = res["r"]
            if used < bound:
                for k in range(len(prefix), len(trace)):
                    for a in alts[k]:
                        todo.append((tuple(trace[:k]) + (a,), used + 1, killed))
            if killed < kills:
                for k in range(len(prefix), len(trace)):
                    if trace[k] >= 0:
                        todo.append((tuple(trace[:k]) + (-1 - trace[k],), used, killed + 1))

    return fn


def groups(tier):
    q = tier == "quick"
    out = []
    K = ("one", "two", "missing", "reopen")
    out.append(("histories-writer", histories(K, (0, 1), 2 if q else 3, "writer")))
    out.append(("histories-always", histories(("one", "two"), (0, 1), 3 if q else 4, "always")))
    out.append(("histories-end", histories(("one", "two"), (0, 1), 3 if q else 4, "end")))
    out.append(("histories-kinds", histories(("one", "two", "relative", "missing", "missing-first", "all-missing", "reopen"), (0,), 3 if q else 4, "end")))
    out.append(("histories-three", histories(("one", "missing"), (0, 1, 2), 2 if q else 3, "always")))
    out.append(("late", constructed_late))
    for ks in (("dqn", "c51", "qr"), ("crr", "td3"), ("sac", "pdqn"), ("slateq", "world", "seq2reward", "cem")):
        out.append(("identity-" + ks[0], identities(ks)))
    for mode in ("kill", "error"):
        for s in SETUPS:
            out.append(("fault-%s-%s" % (mode, s), faults((s,), ("one", "two"), mode, tier)))
    for ks in (("dqn", "c51"), ("qr", "crr"), ("sac", "td3"), ("pdqn", "slateq")):
        out.append(("train-" + ks[0], lambda ctx, ks=ks: train_workflow(ctx, ks)))
    two = [(0, MODULES), (1, MODULES[:1])]
    out.append(("overlap-others", overlapping("others", two, 2 if q else 3)))
    out.append(("overlap-empty", overlapping("empty", [(0, MODULES[:1]), (2, MODULES[:1])], 2 if q else 3)))
    out.append(("overlap-same", overlapping("again", [(0, MODULES[:1]), (0, MODULES[:1])], 2 if q else 3)))
    out.append(("overlap-three", overlapping("only", [(0, MODULES[:1]), (1, MODULES[:1]), (2, MODULES[:1])], 1 if q else 2)))
    out.append(("overlap-kill", overlapping("others", [(0, MODULES[:1]), (1, MODULES[:1])], 1 if q else 2, 1)))
    out.append(("flow", flow))
    out.append(("twice", twice))
    return out

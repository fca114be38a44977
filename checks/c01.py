"""C01: everything reported during training reaches every observer, is aggregated exactly once, and is never mixed up."""
import itertools
import math

import numpy as np
import torch

from mc.core import close, expect, raises, same

from reagent.core import aggregators as agg
from reagent.core.observers import (
    CompositeObserver,
    EpochEndObserver,
    IntervalAggregatingObserver,
    TensorBoardScalarObserver,
    ValueListObserver,
)
from reagent.core.report_utils import calculate_recent_window_average, get_mean_of_recent_values
from reagent.core.tracker import Aggregator, ObservableMixin, Observer, observable
from reagent.tensorboardX import SummaryWriter, SummaryWriterContext, summary_writer_context

LEVEL = "model_checking"
RULE = (
    "all operation sequences up to the stated depth over {report value, report several, report nothing, register observer, "
    "epoch end, push/pop writer, advance step}; the implementation is replayed from scratch along every sequence and compared "
    "with an abstract machine after every operation"
)
ASSUMPTIONS = [
    "a SummaryWriter subclass that records calls stands in for the event-file writer",
    "distributions over zero counted actions are outside the domain",
]


class Rec(SummaryWriter):
    """records instead of writing event files"""

    def __init__(self, name="w", fail=(), ignore=None):
        self.name, self.calls, self.fail = name, [], set(fail)
        if ignore is not None:
            self.exceptions_to_ignore = ignore

    def _rec(self, kind, key, val, kw):
        if key in self.fail:
            raise KeyError(key)
        self.calls.append((kind, key, val if not isinstance(val, torch.Tensor) else val.tolist(), kw.get("global_step")))
        return len(self.calls)

    def add_scalar(self, key, val, **kw):
        return self._rec("scalar", key, val if not isinstance(val, torch.Tensor) else val.item(), kw)

    def add_histogram(self, key, val, **kw):
        return self._rec("hist", key, val, kw)

    def add_custom_scalars(self, layout):
        self.calls.append(("layout", layout))


class Spy(Observer):
    def __init__(self, keys):
        super().__init__(list(keys))
        self.seen = []

    def update(self, key, value):
        self.seen.append((key, value))


# -- subject / observer machine ----------------------------------------------
def make_subject(kind):
    if kind == "decorated":
        @observable(a=torch.Tensor, b=torch.Tensor, c=str)
        class S:
            def __init__(self, x):
                self.x = x
        return S(3)

    class M(ObservableMixin):
        @property
        def _observable_value_types(self):
            return {"a": torch.Tensor, "b": torch.Tensor, "c": str}
    return M()


SPY_KEYS = [("a",), ("b", "a"), ("c",), ("zzz", "a")]
OPS = (
    [("obs", i) for i in range(4)]
    + [("note", {"a": 2}), ("note", {"a": [1.0, 2.0]}), ("note", {"b": None, "a": 5.0}), ("note", {"c": "s", "b": 1.5}), ("note", {"a": None}),
       ("note", {"c": None, "a": torch.tensor([[3.0]])})]
)


def subject(kind, depth):
    def fn(ctx):
        for d in range(1, depth + 1):
            for seq in itertools.product(range(len(OPS)), repeat=d):
                if d == depth and (OPS[seq[-1]][0] != "note" or OPS[seq[0]][0] != "obs"):
                    continue
                def case():
                    s = make_subject(kind)
                    spies = [Spy(k) for k in SPY_KEYS]
                    want = [[] for _ in spies]
                    order = {"a": [], "b": [], "c": []}
                    for i in seq:
                        op, arg = OPS[i]
                        if op == "obs":
                            expect(s.add_observer(spies[arg]) is s, "add_observer returns the subject")
                            for k in SPY_KEYS[arg]:
                                if k in order and arg not in order[k]:
                                    order[k].append(arg)
                        else:
                            s.notify_observers(**arg)
                            for k, v in arg.items():
                                if v is None:
                                    continue
                                for j in order[k]:
                                    want[j].append((k, v if k == "c" else (torch.as_tensor(v).reshape(1) if torch.as_tensor(v).dim() == 0 else torch.as_tensor(v))))
                    for sp, w in zip(spies, want):
                        same([(k, v.tolist() if torch.is_tensor(v) else v) for k, v in sp.seen],
                             [(k, v.tolist() if torch.is_tensor(v) else v) for k, v in w], "observed values")
                    ctx.outcome([len(w) for w in want])
                ctx.state((kind, seq)); ctx.step(d)
                ctx.run((kind,) + seq, case)
        def unknown():
            s = make_subject(kind)
            raises(lambda: s.notify_observers(nope=1), "unknown key")
            s.notify_observers(nope=None)
            x = torch.tensor([1.0], requires_grad=True)
            sp = Spy(["a"])
            s.add_observers([sp])
            s.notify_observers(a=x * 2)
            expect(not sp.seen[0][1].requires_grad, "reported tensors are detached")
        ctx.run((kind, "unknown"), unknown)
        def odd_values():
            vals = [0, 0.0, False, -0.0, float("nan"), float("inf"), [], [0.0], np.float32(2.0), np.int64(0), torch.zeros(0), torch.tensor(0.0), torch.tensor([float("nan")])]
            for k in (1, 2):
                for vs in itertools.product(vals, repeat=k):
                    s = make_subject(kind)
                    sp, cs = Spy(["a"]), Spy(["c"])
                    s.add_observers([sp, cs])
                    for i, v in enumerate(vs):
                        s.notify_observers(a=v, c=("", 0)[i % 2])
                    same(len(sp.seen), k, "values delivered of %s" % (vs,))
                    same([v for _, v in cs.seen], ["", 0][:k], "values of another type")
                    for (key, got), v in zip(sp.seen, vs):
                        w = torch.as_tensor(v)
                        w = w.reshape(1) if w.dim() == 0 else w
                        same(repr(got.tolist()), repr(w.tolist()), "value delivered for %r" % (v,))
                    ctx.step(k)
        ctx.run((kind, "odd-values"), odd_values)
        def two_instances():
            s, t = make_subject(kind), make_subject(kind)
            p, q = Spy(["a"]), Spy(["a"])
            s.add_observer(p); t.add_observer(q)
            s.notify_observers(a=1)
            same((len(p.seen), len(q.seen)), (1, 0), "subjects are independent")
        ctx.run((kind, "independent"), two_instances)
    return fn


# -- interval aggregation -----------------------------------------------------
class Collect(Aggregator):
    def __init__(self, key):
        super().__init__(key)
        self.got, self.kept = [], []

    def aggregate(self, values):
        self.got.append(list(values))
        self.kept.append(values)


def interval(ctx):
    for iv in (None, 1, 2, 3, 4):
        for epoch in (True, False):
            for d in range(0, 8):
                for seq in itertools.product("ve", repeat=d):
                    def case():
                        c = Collect("k")
                        o = IntervalAggregatingObserver(iv, c, observe_epoch_end=epoch)
                        same(sorted(o.get_observing_keys()), sorted(["k"] + (["epoch_end"] if epoch else [])), "keys")
                        want, buf, n = [], [], 0
                        for i, op in enumerate(seq):
                            if op == "v":
                                o.update("k", i)
                                buf.append(i); n += 1
                                if iv and n % iv == 0:
                                    want.append(buf); buf = []
                            else:
                                if epoch:
                                    o.update("epoch_end", 0)
                                else:
                                    o.flush()
                                n = 0
                                if buf:
                                    want.append(buf)
                                buf = []
                            same(c.got, want, "aggregated chunks after %d operations" % (i + 1))
                        o.flush(); o.flush()
                        same([x for ch in c.got for x in ch], [i for i, op in enumerate(seq) if op == "v"], "every value exactly once")
                        same(c.kept, c.got, "the lists handed to the aggregator, looked at later")
                        ctx.outcome(want)
                    ctx.state((iv, epoch, seq)); ctx.step(d)
                    ctx.run((iv, epoch, "".join(seq)), case)
    def wrong():
        raises(lambda: Collect("k")("other", [1]), "wrong key")
    ctx.run("wrong-key", wrong)


# -- composite / simple observers --------------------------------------------
def composite(ctx):
    kinds = {
        "e": lambda: Spy(["epoch_end"]), "a": lambda: ValueListObserver("a"), "b": lambda: ValueListObserver("b"), "ab": lambda: Spy(["a", "b"]),
        "a2": lambda: ValueListObserver("a"),
    }
    for r in range(0, 4):
        for names in itertools.product(sorted(kinds), repeat=r):
            for seq in itertools.product(("a", "b", "epoch_end"), repeat=3):
                def case():
                    obs = [kinds[n]() for n in names]
                    c = CompositeObserver(iter(obs))
                    keys = {k for o in obs for k in o.get_observing_keys()}
                    same(sorted(c.get_observing_keys()), sorted(keys), "keys")
                    for i, k in enumerate(seq):
                        if k in keys:
                            c.update(k, i)
                    for o in obs:
                        w = [(k, i) for i, k in enumerate(seq) if k in o.get_observing_keys()]
                        same(o.seen if isinstance(o, Spy) else [("x", v) for v in o.values],
                             w if isinstance(o, Spy) else [("x", i) for _, i in w], "dispatched")
                ctx.state((names, seq)); ctx.step(3)
                ctx.run((names, seq), case)
    def simple():
        o = ValueListObserver("a")
        o.update("a", 1); o.update("a", 2)
        same(o.values, [1, 2], "values"); o.reset(); same(o.values, [], "reset"); o.update("a", 3); same(o.values, [3], "after reset")
        got = []
        EpochEndObserver(got.append).update("epoch_end", 4)
        same(got, [4], "epoch callback")
        same(EpochEndObserver(got.append, key="other").get_observing_keys(), ["other"], "custom key")
        w = Rec()
        with summary_writer_context(w):
            TensorBoardScalarObserver("k", None).update("k", 2.5)
            TensorBoardScalarObserver("k", "log/k").update("k", 3.5)
        same([c[:3] for c in w.calls], [("scalar", "k", 2.5), ("scalar", "log/k", 3.5)], "scalars")
    ctx.run("simple", simple)


# -- aggregators --------------------------------------------------------------
VALS = [-1.5, 0.0, 2.0]


def chunks():
    """sequences of batches, each batch a list of tensors"""
    flat = [list(t) for n in (1, 2) for t in itertools.product(VALS, repeat=n)]
    for b1 in flat:
        for b2 in flat:
            yield [[b1, b2]]
            if len(b1) + len(b2) <= 3:
                for b3 in flat[:6]:
                    yield [[b1], [b2, b3]]


def mean_recent(ctx):
    for n, groups in enumerate(chunks()):
        for col in (False, True):
            def case():
                m = agg.MeanAggregator("k")
                recs = {s: agg.RecentValuesAggregator("k", s) for s in (1, 2, 3)}
                big = agg.RecentValuesAggregator("k")
                want, hist = [], []
                w = Rec()
                with summary_writer_context(w):
                    tb = agg.TensorBoardHistogramAndMeanAggregator("k", "log")
                    for g in groups:
                        ts = [torch.tensor(b).reshape(-1, 1) if col else torch.tensor(b) for b in g]
                        flat = [x for b in g for x in b]
                        for a in (m, big, tb) + tuple(recs.values()):
                            a("k", ts)
                        want.append(sum(flat) / len(flat)); hist += flat
                        close(w.calls[-2][2], [[x] for x in flat] if col else flat, "histogram")
                        same(w.calls[-2][:2], ("hist", "log"), "histogram key")
                        same(w.calls[-1][:2], ("scalar", "log/mean"), "mean key")
                        close(w.calls[-1][2], want[-1], "logged mean")
                close(m.values, want, "means")
                close(list(big.values), hist, "recent")
                for s, a in recs.items():
                    close(list(a.values), hist[-s:], "recent %d" % s)
                ctx.outcome(want)
            ctx.state((n, col)); ctx.step(len(groups))
            ctx.run((n, col, groups), case)


def by_action(ctx):
    names = ["A", "B", "C"]
    for na in (1, 2, 3):
        acts = names[:na]
        rows = list(itertools.product([0.0, 1.0, -2.5], repeat=na))[:: (1 if na < 3 else 4)]
        for n in (2, 3):
            for batch in itertools.product(rows, repeat=n) if n == 2 else itertools.product(rows[:4], repeat=3):
                for cut in range(1, n + 1):
                    def case():
                        f = agg.FunctionsByActionAggregator("k", acts, {"mean": torch.mean, "std": torch.std, "sum": torch.sum})
                        t = torch.tensor(batch)
                        parts = [t[:cut], t[cut:]] if cut < n else [t]
                        w = Rec()
                        SummaryWriterContext._reset_globals()
                        with summary_writer_context(w):
                            tb = agg.TensorBoardActionHistogramAndMeanAggregator("k", "cat", "title", acts)
                            tb2 = agg.TensorBoardActionHistogramAndMeanAggregator("k", "cat", "title2", acts, log_key_prefix="pre")
                            for rep in range(2):
                                f("k", parts if rep == 0 else [t * 2])
                            tb("k", parts); tb2("k", parts)
                        for j, a in enumerate(acts):
                            col = [r[j] for r in batch]
                            mu = sum(col) / n
                            sd = math.sqrt(sum((x - mu) ** 2 for x in col) / (n - 1))
                            close(f.values["mean"][a], [mu, 2 * mu], "mean of " + a)
                            close(f.values["std"][a], [sd, 2 * sd], "std of " + a)
                            close(f.values["sum"][a], [mu * n, 2 * mu * n], "sum of " + a)
                            got = {(c[0], c[1]): c[2] for c in w.calls}
                            for pre in ("cat/title", "pre"):
                                close(got[("hist", "%s/%s" % (pre, a))], col, "histogram of " + a)
                                close(got[("scalar", "%s/%s/mean" % (pre, a))], mu, "logged mean of " + a)
                        same(SummaryWriterContext._custom_scalars["cat"]["title"][1], ["cat/title/%s/mean" % a for a in acts], "chart")
                        SummaryWriterContext._reset_globals()
                    ctx.state((na, batch, cut)); ctx.step(2)
                    ctx.run((na, batch, cut), case)
        # action counts
        for n1 in (1, 2):
            for b1 in itertools.product(range(na), repeat=n1):
                for b2 in itertools.product(range(na), repeat=2):
                    def case():
                        SummaryWriterContext._reset_globals()
                        c = agg.ActionCountAggregator("k", acts)
                        w = Rec()
                        with summary_writer_context(w):
                            tb = agg.TensorBoardActionCountAggregator("k", "t", acts)
                            c("k", [torch.tensor(b1).reshape(-1, 1)]); tb("k", [torch.tensor(b1)])
                            c("k", [torch.tensor([x]) for x in b2]); tb("k", [torch.tensor([x]) for x in b2])
                        dist, cum = c.get_distributions(), c.get_cumulative_distributions()
                        for j, a in enumerate(acts):
                            k = [b1.count(j), b2.count(j)]
                            same(c.values[a], k, "counts")
                            close(dist[a], [k[0] / n1, k[1] / 2], "distribution")
                            close(cum[a], sum(k) / (n1 + 2), "cumulative")
                            same([x[2] for x in w.calls if x[1] == "actions/t/" + a], k, "logged counts")
                        SummaryWriterContext._reset_globals()
                    ctx.state((na, b1, b2, "count")); ctx.step(2)
                    ctx.run((na, "count", b1, b2), case)
    # rows whose action is none of the actions are not counted
    for na in (1, 2, 3):
        acts = names[:na]
        for seq in itertools.product(range(-1, na + 1), repeat=3):
            if all(x in (-1, na) for x in seq):
                continue
            def case():
                for cuts in ([3], [1, 2], [2, 1], [1, 1, 1]):
                    c = agg.ActionCountAggregator("k", acts)
                    i = 0
                    for n in cuts:
                        c("k", [torch.tensor(seq[i : i + n])])
                        i += n
                    cum, tot = c.get_cumulative_distributions(), sum(seq.count(j) for j in range(na))
                    for j, a in enumerate(acts):
                        same(sum(c.values[a]), seq.count(j), "counts")
                        close(cum[a], seq.count(j) / tot, "cumulative distribution")
            ctx.state((na, seq, "foreign")); ctx.step(3)
            ctx.run((na, "foreign", seq), case)
    def bad():
        SummaryWriterContext._reset_globals()
        a = agg.TensorBoardActionHistogramAndMeanAggregator("k", "c", "t", ["A", "B"])
        raises(lambda: a("k", [torch.zeros(2, 3)]), "wrong number of actions")
        raises(lambda: agg.TensorBoardHistogramAndMeanAggregator("k", "c")("k", [torch.zeros(2, 3)]), "not a column")
        raises(lambda: agg.TensorBoardActionHistogramAndMeanAggregator("k", "c", "t", ["A"]), "duplicate chart title")
        SummaryWriterContext._reset_globals()
    ctx.run("bad-shapes", bad)


# -- summary writer context ---------------------------------------------------
def writers(ctx):
    ops = ["enter0", "enter1", "enterN", "exit", "exitx", "step", "scalar", "scalarX", "scalar0", "hist"]
    for d in range(1, 6):
        for seq in itertools.product(range(len(ops)), repeat=d):
            names = [ops[i] for i in seq]
            if d == 5 and "scalarX" in names:
                continue
            if names[-1] in ("step",) or (d == 5 and not names[0].startswith("enter")):
                continue
            def case():
                SummaryWriterContext._reset_globals()
                base = list(SummaryWriterContext._writer_stacks)
                ws = [Rec("0"), Rec("1", fail=["bad"], ignore=(KeyError,))]
                want = [[], []]
                stack, mine, step = [], [], 0
                for n, op in enumerate(names):
                    if op.startswith("enter"):
                        w = None if op[-1] == "N" else ws[int(op[-1])]
                        cm = summary_writer_context(w)
                        cm.__enter__()
                        stack.append((cm, w))
                    elif op in ("exit", "exitx"):
                        if stack:
                            cm, w = stack.pop()
                            if op == "exit":
                                cm.__exit__(None, None, None)
                            else:
                                e = ValueError("x")
                                try:
                                    r = cm.__exit__(ValueError, e, None)
                                except ValueError:
                                    r = False
                                expect(not r, "the context must not swallow errors")
                    elif op == "step":
                        SummaryWriterContext.increase_global_step(); step += 1
                    else:
                        active = [int(w.name) for _, w in stack if w is not None]
                        key = "k%d" % n
                        if op == "scalar":
                            SummaryWriterContext.add_scalar(key, float(n))
                            ent = ("scalar", key, float(n), step)
                        elif op == "scalarX":
                            SummaryWriterContext.add_scalar(key, float(n), global_step=77)
                            ent = ("scalar", key, float(n), 77)
                        elif op == "scalar0":
                            SummaryWriterContext.add_scalar(key, 0.0, global_step=0)
                            ent = ("scalar", key, 0.0, 0)
                        else:
                            SummaryWriterContext.add_histogram(key, torch.tensor([1.0, n]))
                            ent = ("hist", key, [1.0, float(n)], step)
                        if active:
                            want[active[-1]].append(ent)
                        same([w.calls for w in ws], want, "writer calls after %s" % names[: n + 1])
                while stack:
                    stack.pop()[0].__exit__(None, None, None)
                same(len(SummaryWriterContext._writer_stacks), len(base), "writer stack after leaving all contexts")
                SummaryWriterContext._reset_globals()
            ctx.state(names); ctx.step(d)
            ctx.run(names, case)
    def misc():
        w = Rec("0", fail=["bad"])
        with summary_writer_context(w):
            raises(lambda: SummaryWriterContext.add_scalar("bad", 1.0), "writer errors surface")
        w = Rec("0", fail=["bad"], ignore=(KeyError,))
        with summary_writer_context(w):
            SummaryWriterContext.add_scalar("bad", 1.0)
        raises(lambda: SummaryWriterContext.push("not a writer"), "not a writer")
        SummaryWriterContext._reset_globals()
        SummaryWriterContext.add_custom_scalars_multilinechart(["x"], category="c", title="t")
        SummaryWriterContext.add_custom_scalars_multilinechart(["y"], category="c", title="u")
        raises(lambda: SummaryWriterContext.add_custom_scalars_multilinechart(["z"], category="c", title="t"), "duplicate")
        raises(lambda: SummaryWriterContext.add_custom_scalars_multilinechart(["z"], category="c"), "no title")
        SummaryWriterContext.add_custom_scalars(w)
        same(w.calls[-1], ("layout", {"c": {"t": ["Multiline", ["x"]], "u": ["Multiline", ["y"]]}}), "layout")
        SummaryWriterContext._reset_globals()
    ctx.run("misc", misc)


# -- reporters ---------------------------------------------------------------
def reporters():
    from reagent.workflow.reporters.actor_critic_reporter import ActorCriticReporter
    from reagent.workflow.reporters.discrete_crr_reporter import DiscreteCRRReporter
    from reagent.workflow.reporters.discrete_dqn_reporter import DiscreteDQNReporter
    from reagent.workflow.reporters.parametric_dqn_reporter import ParametricDQNReporter
    from reagent.workflow.reporters.sac_reporter import SACReporter
    from reagent.workflow.reporters.slate_q_reporter import SlateQReporter
    from reagent.workflow.reporters.td3_reporter import TD3Reporter

    A = ["x", "y"]
    col = lambda i: torch.tensor([[float(i)], [i + 0.5]])
    mat = lambda i: torch.tensor([[float(i), -1.0], [i + 2.0, 3.0]])
    idx = lambda i: torch.tensor([[i % 2], [(i // 2) % 2]])
    disc = dict(td_loss=lambda i: 1.0 * i, reward_loss=lambda i: 0.5 * i, model_values=mat, logged_actions=idx,
                model_action_idxs=lambda i: idx(i + 1), logged_rewards=col)
    tb = dict(logged_propensities=col, model_propensities=mat, model_rewards=mat)
    ac = dict(td_loss=lambda i: 1.0 * i, logged_rewards=col, model_values_on_logged_actions=lambda i: col(i) * 3)
    return {
        "dqn": (lambda iv: DiscreteDQNReporter(A, report_interval=iv), dict(disc, **tb), True),
        "crr": (lambda iv: DiscreteCRRReporter(A, report_interval=iv), dict(disc, q1_loss=lambda i: 2.0 * i, **tb), True),
        "parametric": (lambda iv: ParametricDQNReporter(report_interval=iv), dict(ac, reward_loss=lambda i: 3.0 * i), False),
        "actor_critic": (lambda iv: ActorCriticReporter(report_interval=iv), ac, False),
        "sac": (lambda iv: SACReporter(report_interval=iv), dict(ac, q1_value=col), False),
        "td3": (lambda iv: TD3Reporter(report_interval=iv), dict(ac, q1_loss=lambda i: 1.5 * i), False),
        "slate_q": (lambda iv: SlateQReporter(report_interval=iv), ac, False),
    }


def ref_values(key, fns, events, iv):
    """chunks of raw values for `key` under the reporter's interval and epoch ends"""
    out, buf, n = [], [], 0
    for i, e in enumerate(events):
        if e == "e":
            if buf:
                out.append(buf)
            buf, n = [], 0
        elif key in e[1]:
            buf.append(torch.as_tensor(fns[key](i)).reshape(-1) if torch.as_tensor(fns[key](i)).dim() == 0 else fns[key](i))
            n += 1
            if n % iv == 0:
                out.append(buf); buf = []
    return out


def reporter_group(name):
    def fn(ctx):
        make, fns, disc = reporters()[name]
        keys = sorted(fns)
        subsets = [tuple(keys), ("td_loss",), tuple(k for k in keys if k != "td_loss")]
        alphabet = [("r", s) for s in subsets] + ["e"]
        for iv in (1, 2, 3):
            for d in range(1, 6 if name == "dqn" else 5):
                for seq in itertools.product(range(4), repeat=d):
                    def case():
                        SummaryWriterContext._reset_globals()
                        events = [alphabet[i] for i in seq]
                        w = Rec()
                        with summary_writer_context(w):
                            r = make(iv)
                            other = None
                            if d == 2:
                                SummaryWriterContext._reset_globals()
                                other = make(iv)
                            for i, e in enumerate(events):
                                if e == "e":
                                    r.log(epoch_end=i) if i % 2 else r.flush(i)
                                else:
                                    r.log(**{k: fns[k](i) for k in e[1]}, **({"cpe_details": ("cpe", i)} if len(e[1]) > 1 else {}))
                        ch = {k: [torch.cat(c, 0) for c in ref_values(k, fns, events, iv)] for k in keys}
                        close(r.td_loss.values, [c.mean().item() for c in ch["td_loss"]], "td loss means")
                        close(list(r.recent_rewards.values), [x for c in ch["logged_rewards"] for x in c.flatten().tolist()], "recent rewards")
                        same([list(v) for v in r.cpe_results.values],
                             [["cpe", i] for i, e in enumerate(events) if e != "e" and len(e[1]) > 1], "evaluation results")
                        if disc:
                            for f, g in (("mean", torch.mean), ("std", torch.std)):
                                for j, a in enumerate("xy"):
                                    close(r.model_values.values[f][a], [g(c, dim=0)[j].item() for c in ch["model_values"]], "model values " + f)
                            for attr, k in (("logged_action", "logged_actions"), ("model_action", "model_action_idxs")):
                                for j, a in enumerate("xy"):
                                    same(getattr(r, attr).values[a], [int((c == j).sum()) for c in ch[k]], attr)
                            close(r.reward_loss.values, [c.mean().item() for c in ch["reward_loss"]], "reward loss")
                        elif name == "parametric":
                            close(r.model_values_on_logged_actions.values, [c.mean().item() for c in ch["model_values_on_logged_actions"]], "values")
                        else:
                            close(r.logged_action_q_value.values, [c.mean().item() for c in ch["model_values_on_logged_actions"]], "values")
                        close([c[2] for c in w.calls if c[1] == "reward/logged/mean"], [c.mean().item() for c in ch["logged_rewards"]], "logged mean reward")
                        close([c[2] for c in w.calls if c[1] == "td_loss/mean"], [c.mean().item() for c in ch["td_loss"]], "logged td loss")
                        if other is not None:
                            same(len(other.td_loss.values), 0, "reporters share no state")
                        raises(lambda: r.log(unknown_metric=1.0), "unknown metric")
                        r.generate_training_report()
                        SummaryWriterContext._reset_globals()
                        ctx.outcome(r.td_loss.values)
                    ctx.state((iv, seq)); ctx.step(d)
                    ctx.run((iv,) + seq, case)
    return fn


def report_utils(ctx):
    for n in range(1, 31):
        for win in (1, 2, 5, 10, 20):
            def case():
                v = [float((7 * i) % 11) for i in range(n)]
                w = max(win, math.ceil(0.1 * n))
                got = get_mean_of_recent_values({"a": v, "b": [-x for x in v]}, min_window_size=win)
                m = sum(v[-w:]) / len(v[-w:])
                close(got, {"a": m, "b": -m}, "recent mean")
                close(calculate_recent_window_average(v, win, 1), sum(v[-win:]) / len(v[-win:]), "window average")
                arr = [[x, 2 * x] for x in v]
                close(calculate_recent_window_average(arr, win, 2), [sum(v[-win:]) / len(v[-win:]), 2 * sum(v[-win:]) / len(v[-win:])], "columns")
            ctx.state((n, win)); ctx.step()
            ctx.run((n, win), case)
    def empty():
        expect(math.isnan(calculate_recent_window_average([], 3, 1)), "nan for nothing")
        same(len(calculate_recent_window_average([], 3, 4)), 4, "one nan per entry")
    ctx.run("empty", empty)


def groups(tier):
    deep = 1 if tier == "thorough" else 0
    return [
        ("subject-decorated", subject("decorated", 4 + deep)),
        ("subject-mixin", subject("mixin", 3 + deep)),
        ("interval", interval),
        ("composite", composite),
        ("mean-recent", mean_recent),
        ("by-action", by_action),
        ("writers", writers),
        ("report-utils", report_utils),
    ] + [("reporter-" + n, reporter_group(n)) for n in
         ("dqn", "crr", "parametric", "actor_critic", "sac", "td3", "slate_q")]

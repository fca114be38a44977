"""T11: the trainer base class and the loss reporter."""
import itertools
import logging
import math
import types

import torch

from mc.core import close, expect, raises, same
from mc.trainkit import Tab, attach, col, fd, onehot, sgd, snapshot, unchanged

import reagent.training.loss_reporter as lr
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.tensorboardX import SummaryWriter, SummaryWriterContext, summary_writer_context
from reagent.training.imitator_training import ImitatorTrainer, get_valid_actions_from_imitator
from reagent.training.rl_trainer_pytorch import RLTrainer, RLTrainerMixin
from reagent.training.trainer import Trainer

logging.getLogger("reagent").setLevel(logging.CRITICAL)

LEVEL = "model_checking"
RULE = (
    "reporter: every sequence of up to five (six) report/flush operations over an alphabet of batches, every report interval, lockstep with running averages; "
    "trainer base: every sequence of up to three batches, updates every one to three batches, with and without extra metrics, in both learning modes. "
    "Non-trivial: more than one operation or batch. Oracle: plain Python"
)
ASSUMPTIONS = [
    "every batch between two flushes reports the same fields (the reporter asserts this)",
    "networks are linear look-up tables and the optimiser is plain SGD, so that every weight can be computed by hand",
]


class Rec(SummaryWriter):
    def __init__(self):
        self.got = []

    def add_scalar(self, k, v, *a, global_step=None, **kw):
        self.got.append(("scalar", k, float(v), a[0] if a else global_step))

    def add_histogram(self, k, v, *a, global_step=None, **kw):
        self.got.append(("hist", k, [float(x) for x in v.flatten()], global_step))


ACTS = ["a", "b"]
# every batch: dict of lists; "full" has all fields, "td" only the loss
FULL = [
    dict(td_loss=1.0, reward_loss=0.5, logged_actions=[[0], [1]], logged_propensities=[[0.5], [0.25]], logged_rewards=[[1.0], [-2.0]], logged_values=[[3.0], [4.0]],
         model_propensities=[[0.25, 0.75], [0.5, 0.5]], model_rewards=[[1.0, 2.0], [3.0, 5.0]], model_values=[[0.0, 1.0], [4.0, -1.0]],
         model_values_on_logged_actions=[[0.0], [-1.0]], model_action_idxs=[[1], [1]]),
    dict(td_loss=3.0, reward_loss=2.5, logged_actions=[[1], [1], [1]], logged_propensities=[[0.5], [0.5], [1.0]], logged_rewards=[[0.0], [2.0], [7.0]],
         logged_values=[[1.0], [0.0], [0.5]], model_propensities=[[1.0, 0.0], [0.0, 1.0], [0.5, 0.5]], model_rewards=[[0.0, 0.0], [1.0, -1.0], [2.0, 2.0]],
         model_values=[[2.0, 2.0], [1.0, 0.0], [0.5, 0.25]], model_values_on_logged_actions=[[2.0], [0.0], [0.25]], model_action_idxs=[[0], [1], [0]]),
]
ONLY = [dict(td_loss=0.25), dict(td_loss=[1.0, 2.0, 6.0])]
IMIT = [dict(td_loss=0.25, imitator_loss=2.0), dict(td_loss=[1.0], imitator_loss=[4.0, 1.0], reward_loss=None)]


def flat(v):
    return [float(x) for x in torch.tensor(v).flatten()] if not isinstance(v, float) else [v]


def mean(v):
    return sum(v) / len(v)


class Model:
    """what a reporter knows, kept in lists"""

    def __init__(self, acts):
        self.acts = acts or []
        self.td, self.rw, self.im, self.qv, self.rewards = [], [], [], [], []
        self.mv, self.sd, self.cnt, self.dist = ({a: [] for a in self.acts} for _ in range(4))
        self.logged = {a: 0 for a in self.acts}
        self.cum = {a: 0 for a in self.acts}
        self.pend = []
        self.log = []

    def cat(self, f):
        return [r for b in self.pend for r in (b[f] if isinstance(b[f], list) else [b[f]])]

    def has(self, f):
        return self.pend[0].get(f) is not None

    def flush(self, step):
        if not self.pend:
            return
        new = []
        if self.acts:
            for f, k in (("logged_actions", "actions/logged"), ("model_action_idxs", "actions/model")):
                if self.has(f):
                    v = flat(self.cat(f))
                    new += [("scalar", "%s/%s" % (k, a), float(v.count(float(i))), step) for i, a in enumerate(self.acts)]
        for f, k in (("td_loss", "td_loss"), ("imitator_loss", "imitator_loss"), ("reward_loss", "reward_loss"), ("logged_propensities", "propensities/logged"),
                     ("logged_rewards", "reward/logged"), ("logged_values", "value/logged"), ("model_values_on_logged_actions", "value/model_logged_action")):
            if self.has(f):
                v = flat(self.cat(f))
                new += [("hist", k, v, step), ("scalar", k + "/mean", mean(v), step)]
        for f, k in (("model_propensities", "propensities/model"), ("model_rewards", "reward/model"), ("model_values", "value/model")):
            if self.has(f):
                rows = self.cat(f)
                for i, a in enumerate(self.acts):
                    v = [r[i] for r in rows]
                    new += [("hist", "%s/%s" % (k, a), v, step), ("scalar", "%s/%s/mean" % (k, a), mean(v), step)]
        self.log += sorted(new)
        self.td.append(mean(flat(self.cat("td_loss"))))
        if self.has("logged_rewards"):
            self.rewards += flat(self.cat("logged_rewards"))
        for f, dst in (("reward_loss", self.rw), ("imitator_loss", self.im), ("model_values_on_logged_actions", self.qv)):
            if self.has(f):
                dst.append(mean(flat(self.cat(f))))
        if self.has("model_values"):
            rows = self.cat("model_values")
            for i, a in enumerate(self.acts):
                v = [r[i] for r in rows]
                m = mean(v)
                self.mv[a].append(m)
                self.sd[a].append(math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1)))
        if self.has("logged_actions") and self.has("model_action_idxs"):
            lo, mo = flat(self.cat("logged_actions")), flat(self.cat("model_action_idxs"))
            for i, a in enumerate(self.acts):
                self.logged[a] += lo.count(float(i))
                self.cum[a] += mo.count(float(i))
                self.cnt[a].append(mo.count(float(i)))
                self.dist[a].append(mo.count(float(i)) / len(mo))
        self.pend = []


def compare(rep, m, w):
    same(rep.num_batches, len(m.td), "number of reports")
    close(rep.td_loss, m.td, "td loss")
    close(rep.reward_loss, m.rw, "reward loss")
    close(rep.imitator_loss, m.im, "imitator loss")
    close(rep.logged_action_q_value, m.qv, "value of the logged action")
    close(list(rep.get_recent_rewards()), m.rewards, "rewards")
    for got, want, what in ((rep.model_values, m.mv, "model values"), (rep.model_value_stds, m.sd, "deviations"), (rep.model_action_counts, m.cnt, "action counts"), (rep.model_action_distr, m.dist, "action distribution")):
        got = dict(got.items())
        same(sorted(got), sorted(want), "actions")
        for a in want:
            close(got[a], want[a], what)
    same(rep.logged_action_counts, m.logged, "logged counts")
    same(rep.model_action_counts_cumulative, m.cum, "cumulative counts")
    if sum(m.cum.values()):
        close(rep.get_model_action_distribution(), {a: v / sum(m.cum.values()) for a, v in m.cum.items()}, "model distribution")
        close(rep.get_logged_action_distribution(), {a: v / sum(m.logged.values()) for a, v in m.logged.items()}, "logged distribution")
    for got, want in ((rep.get_recent_td_loss(), m.td), (rep.get_recent_reward_loss(), m.rw), (rep.get_recent_imitator_loss(), m.im)):
        if want:
            close(got, mean(want[-100:]), "recent loss")
        else:
            expect(math.isnan(got), "recent loss without data is %s", got)
    for n in range(len(m.td) + 2):
        close(rep.get_td_loss_after_n(n), m.td[n:], "losses after %d" % n)
    same(len(rep.incoming_stats), len(m.pend), "pending reports")


def tensors(b, kind):
    out = {}
    for k, v in b.items():
        if kind == "plain" or v is None:
            out[k] = v
        else:
            t = torch.tensor(v)
            out[k] = t.requires_grad_(True) * 1.0 if t.is_floating_point() else t
    return out


def reporter(alphabet, acts, depth):
    def fn(ctx):
        ops = ["flush"] + list(range(len(alphabet)))
        for n in range(1, depth + 1):
            for seq in itertools.product(ops, repeat=n):
                for interval in (1, 2, 3):
                    def case():
                        SummaryWriterContext._reset_globals()
                        rep, m, w = lr.LossReporter(acts), Model(acts), Rec()
                        rep.loss_report_interval = interval
                        with summary_writer_context(w):
                            for i, op in enumerate(seq):
                                SummaryWriterContext.increase_global_step()
                                if op == "flush":
                                    rep.flush()
                                    m.flush(i + 1)
                                else:
                                    kw = tensors(alphabet[op], "plain" if (i + op) % 2 else "tensor")
                                    before = snapshot([v for v in kw.values() if torch.is_tensor(v)])
                                    rep.report(**kw)
                                    unchanged(before, [v for v in kw.values() if torch.is_tensor(v)])
                                    m.pend.append(alphabet[op])
                                    if len(m.pend) >= interval:
                                        m.flush(i + 1)
                                compare(rep, m, w)
                                expect(not any(v is not None and v.requires_grad for b in rep.incoming_stats for v in b), "the reporter keeps gradients alive")
                                ctx.step()
                                ctx.state((len(m.pend), tuple(m.td), tuple(m.rw)))
                            expect(len(w.got) == len(m.log), "wrote %d entries, want %d", len(w.got), len(m.log))
                            for s in sorted({x[3] for x in m.log}):
                                g, x = sorted(e for e in w.got if e[3] == s), [e for e in m.log if e[3] == s]
                                same([e[:2] for e in g], [e[:2] for e in x], "entries of step %d" % s)
                                for a, b in zip(g, x):
                                    close(a[2], b[2], a[1])
                            del w.got[:]
                            rep.log_to_tensorboard(epoch=7)
                            want = [("Training/%s_loss" % k, mean(v[-100:]) if v else 0.0) for k, v in (("td", m.td), ("reward", m.rw), ("imitator", m.im))]
                            same([(e[1], e[3]) for e in w.got], [(k, 7) for k, _ in want], "entries of the epoch")
                            close([e[2] for e in w.got], [v for _, v in want], "losses of the epoch")
                        SummaryWriterContext._reset_globals()
                    ctx.run((interval, seq), case)
    return fn


def pieces(ctx):
    def reset(f):
        def g():
            SummaryWriterContext._reset_globals()
            f()
            SummaryWriterContext._reset_globals()
        return g
    # merging
    opts = [None, [1.0], [2.0, 3.0]]
    for n in (1, 2, 3):
        for vals in itertools.product(opts, repeat=n):
            for other in itertools.product((0, 1), repeat=n):
                def merge():
                    l = [lr.BatchStats(td_loss=None if v is None else torch.tensor(v), logged_actions=torch.tensor([k])) for v, k in zip(vals, other)]
                    mixed = any(v is None for v in vals) and any(v is not None for v in vals)
                    if mixed:
                        raises(lambda: lr.merge_tensor_namedtuple_list(l, lr.BatchStats), "fields reported by some batches only")
                        return
                    r = lr.merge_tensor_namedtuple_list(l, lr.BatchStats)
                    same(None if r.td_loss is None else r.td_loss.tolist(), None if vals[0] is None else [x for v in vals for x in v], "merged")
                    same(r.logged_actions.tolist(), list(other), "merged actions")
                    expect(r.model_values is None and r.reward_loss is None, "unreported fields")
                    ctx.state((vals, other))
                ctx.run(("merge", vals, other), merge, nontrivial=n > 1)
    # statistics by action
    entries = [{}, {"a": 1}, {"b": torch.tensor(2.5)}, {"a": 3.0, "b": 4}, {"c": 1}]
    for n in (1, 2, 3):
        for seq in itertools.product(range(len(entries)), repeat=n):
            def stats():
                s = lr.StatsByAction(ACTS)
                want = {a: [] for a in ACTS}
                for i in seq:
                    if "c" in entries[i]:
                        raises(lambda: s.append(dict(entries[i])), "unknown action")
                    else:
                        s.append(dict(entries[i]))
                        for a in ACTS:
                            want[a].append(float(entries[i].get(a, 0)))
                    same({k: [float(x) for x in v] for k, v in s.items()}, want, "statistics")
                    expect(all(not torch.is_tensor(x) for _, v in s.items() for x in v), "tensors are kept")
                    same(len(s), 2, "number of actions")
                    ctx.step()
                ctx.state((seq,))
            ctx.run(("stats", seq), stats, nontrivial=n > 1)
    # windows
    for size in (1, 2, 3):
        for n in range(0, 5):
            for vals in itertools.product((0.0, 1.0, 3.0), repeat=n):
                def window():
                    for k in (1, 2):
                        r = lr.LossReporter.calculate_recent_window_average([list((v,) * k) if k > 1 else v for v in vals], size, k)
                        if vals:
                            close(r, mean(vals[-size:]) if k == 1 else [mean(vals[-size:])] * 2, "window")
                        else:
                            expect(math.isnan(r) if k == 1 else len(r) == 2 and all(math.isnan(x) for x in r), "empty window gives %s", r)
                ctx.run(("window", size, vals), window)
    # the default interval, the default window
    for n in (99, 100, 101, 200, 201):
        def many():
            rep = lr.LossReporter(None)
            for i in range(n):
                rep.report(td_loss=float(i))
            same(rep.num_batches, n // 100, "reports")
            same(len(rep.incoming_stats), n % 100, "pending")
            close(rep.td_loss, [mean(range(k * 100, k * 100 + 100)) for k in range(n // 100)], "losses")
            rep2 = lr.LossReporter(None)
            rep2.loss_report_interval = 1
            for i in range(n):
                rep2.report(td_loss=float(i))
            close(rep2.get_recent_td_loss(), mean(list(map(float, range(n)))[-100:]), "recent")
            ctx.step(n)
        ctx.run(("many", n), reset(many))

    def shapes():
        w = Rec()
        with summary_writer_context(w):
            for bad in (dict(td_loss=torch.zeros(2, 2)), dict(model_values=torch.zeros(2, 3)), dict(model_values=torch.zeros(2, 1)), dict(model_rewards=torch.zeros(2))):
                raises(lambda: lr.BatchStats(**bad).write_summary(ACTS), "wrong shape")
            lr.BatchStats(model_values=torch.tensor([[1.0], [3.0]])).write_summary([])
            same([e[:2] for e in w.got], [("hist", "value/model"), ("scalar", "value/model/mean")], "entries")
            close(w.got[-1][2], 2.0, "mean")
    ctx.run("shapes", reset(shapes))

    def charts():
        lr.LossReporter(["x", "y"])
        same(SummaryWriterContext._custom_scalars, {
            "propensities": {"model": ["Multiline", ["propensities/model/x/mean", "propensities/model/y/mean"]], "logged": ["Multiline", ["propensities/logged/x/mean", "propensities/logged/y/mean"]]},
            "actions": {"logged": ["Multiline", ["actions/logged/x", "actions/logged/y"]], "model": ["Multiline", ["actions/model/x", "actions/model/y"]]}}, "charts")
        raises(lambda: lr.LossReporter([]), "no actions")
        nop = lr.NoOpLossReporter()
        expect(nop.report(td_loss=1) is None and nop.flush() is None, "no-op")
    ctx.run("charts", reset(charts))


# -- the trainer base class ---------------------------------------------------------------------
def mixin(ctx):
    for m1, s1, q1 in itertools.product((None, 3), (True, False), (True, False)):
        for seq in itertools.product(("multi_steps", "maxq_learning", "use_seq_num_diff_as_time_diff"), (None, 2, True, False), repeat=2):
            def case():
                rl = RLParameters(gamma=0.7, target_update_rate=0.2, temperature=0.3, multi_steps=m1, use_seq_num_diff_as_time_diff=s1, maxq_learning=q1)
                x = RLTrainerMixin()
                x.rl_parameters = rl
                want = dict(multi_steps=m1, maxq_learning=q1, use_seq_num_diff_as_time_diff=s1)
                base = dict(want)
                other = RLTrainerMixin()
                other.rl_parameters = rl
                for name, v in (seq[:2], seq[2:]):
                    setattr(x, name, v)
                    want[name] = base[name] if v is None else v
                    for k in want:
                        same(getattr(x, k), want[k], k)
                        same(getattr(other, k), base[k], k + " of another trainer")
                    ctx.step()
                close([x.gamma, x.tau, x.rl_temperature], [0.7, 0.2, 0.3], "parameters")
                ctx.state((m1, s1, q1, seq))
            ctx.run((m1, s1, q1, seq), case)
    for loss, f in (("mse", torch.nn.functional.mse_loss), ("huber", torch.nn.functional.smooth_l1_loss)):
        for metrics in (None, [], ["m"], ["n", "m"]):
            def make():
                given = None if metrics is None else list(metrics)
                t = RLTrainer(RLParameters(q_network_loss=loss), False, metrics_to_score=given)
                expect(t.q_network_loss is f, "loss")
                same(t.metrics_to_score, (metrics or []) + ["reward"], "metrics")
                same(given, metrics, "the caller's list")
                raises(lambda: t.num_actions, "number of actions of an action-free trainer")
                raises(lambda: t.train(None), "training of the base class")
                raises(lambda: t.state_dict(), "state of the base class")
            ctx.run(("make", loss, metrics), make)
    ctx.run("bad", lambda: raises(lambda: RLTrainer(RLParameters(q_network_loss="what"), False), "unknown loss"))


def optimizers(ctx):
    grads = (1.0, -2.0, 0.5)
    for k in (1, 2, 3):
        for n in (1, 2, 3, 4, 5):
            for seq in itertools.product(grads, repeat=n):
                def case():
                    t = RLTrainer(RLParameters(), False)
                    p, q, unused = (torch.nn.Parameter(torch.tensor([v])) for v in (1.0, 5.0, 9.0))
                    opt = torch.optim.SGD([{"params": [p, unused]}, {"params": [q], "lr": 0.5}], lr=0.25)
                    src, tgt = Tab([[1.0]]), Tab([[-3.0]])
                    wp, wq, wt, acc = 1.0, 5.0, -3.0, []
                    for g in seq:
                        t.minibatch += 1
                        (p * g + 2 * q * g).sum().backward()
                        acc.append(g)
                        t._maybe_run_optimizer(opt, k)
                        t._maybe_soft_update(src, tgt, 0.25, k)
                        if t.minibatch % k == 0:
                            wp -= 0.25 * sum(acc) / k
                            wq -= 0.5 * 2 * sum(acc) / k
                            wt = 0.25 * 1.0 + 0.75 * wt
                            acc = []
                            expect(not any(x.grad is not None and x.grad.abs().sum() > 0 for x in (p, q)), "gradients are left")
                        close([p.item(), q.item(), unused.item()], [wp, wq, 9.0], "weights")
                        close([tgt.w.item(), src.w.item()], [wt, 1.0], "target")
                        ctx.step()
                        ctx.state((k, wp, len(acc)))
                ctx.run((k, seq), case, nontrivial=n > 1)
    for tau in (0.0, 0.25, 1.0):
        for shared in (True, False):
            def soft():
                t = RLTrainer(RLParameters(), False)
                a, b = torch.nn.Linear(2, 1), torch.nn.Linear(2, 1)
                if shared:
                    b.weight = a.weight
                wa, wb, ba, bb = (x.detach().clone() for x in (a.weight, b.weight, a.bias, b.bias))
                t._soft_update(a, b, tau)
                close(b.weight, (tau * wa + (1 - tau) * wb).tolist(), "weight")
                close(b.bias, (tau * ba + (1 - tau) * bb).tolist(), "bias")
                close([a.weight, a.bias], [wa.tolist(), ba.tolist()], "source")
                expect((b.weight is a.weight) == shared, "sharing")
            ctx.run(("soft", tau, shared), soft)


def softmax(x, mask, temp):
    e = [math.exp(v / temp) if m else 0.0 for v, m in zip(x, mask)]
    return [v / sum(e) if sum(e) else 0.0 for v in e]


SMP = [  # state, next state, action, reward, metric, possible, next possible, next action, discount, not done
    (0, 1, 0, 1.0, -1.0, (1, 1), (1, 1), 1, 0.9, 1.0),
    (1, 0, 1, -0.5, 2.0, (0, 1), (1, 0), 0, 0.81, 1.0),
    (1, 1, 0, 2.0, 0.25, (1, 1), (0, 1), 1, 0.9, 0.0),
]


def cpe_case(ctx, rows_seq, nm, maxq, k, loss, on):
    rl = RLParameters(maxq_learning=maxq, temperature=0.5, target_update_rate=0.25, q_network_loss=loss)
    t = RLTrainer(rl, False, metrics_to_score=["m"] if nm == 2 else None, actions=ACTS, evaluation_parameters=EvaluationParameters(calc_cpe_in_training=on),
                  loss_reporter=lr.NoOpLossReporter())
    t.minibatches_per_step = k
    same(t.num_actions, 2)
    W = [[[0.5 * (s + 1) + 0.25 * j - 0.125 * i for j in range(2 * nm)] for s in range(2)] for i in range(3)]
    nets = [Tab(w) for w in W]
    if on:
        raises(lambda: t._initialize_cpe(None, nets[1], nets[2], sgd(0.5)), "no reward network")
        raises(lambda: t._initialize_cpe(nets[0], None, nets[2], sgd(0.5)), "no q network")
    t._initialize_cpe(*nets, optimizer=sgd(0.5))
    R, Q, T = ([list(r) for r in w] for w in W)
    gR, gQ = ([[0.0] * (2 * nm) for _ in range(2)] for _ in range(2))
    for rows in rows_seq:
        t.minibatch += 1
        b = [SMP[i] for i in rows]
        scores = torch.tensor([[0.1 * (s[0] + 1), 0.3 - 0.2 * s[0]] for s in b])
        nscores = torch.tensor([[0.4 * s[1], 0.2] for s in b])
        batch = types.SimpleNamespace(
            reward=col([s[3] for s in b]), extras=types.SimpleNamespace(metrics=col([s[4] for s in b]) if nm == 2 else None),
            possible_actions_mask=torch.tensor([s[5] for s in b], dtype=torch.float), possible_next_actions_mask=torch.tensor([s[6] for s in b], dtype=torch.float),
            action=onehot([s[2] for s in b], 2), next_action=onehot([s[7] for s in b], 2))
        args = [batch, onehot([s[0] for s in b], 2), onehot([s[1] for s in b], 2), scores, nscores, col([s[2] for s in b], torch.long), col([s[8] for s in b]), col([s[9] for s in b])]
        before = snapshot(args[1:])
        rl_, mr, mp = t._calculate_cpes(*args)
        unchanged(before, args[1:])
        if not on:
            expect(rl_ is None and mr is None and mp is None and t.reward_network is None, "CPE is off")
            continue
        n = len(b)
        real = [[s[3], s[4]][:nm] for s in b]
        close(mr, [R[s[0]][:2] for s in b], "predicted rewards")
        close(mp, [softmax(v, s[5] if maxq else [s[2] == 0, s[2] == 1], 0.5) for v, s in zip(scores.tolist(), b)], "propensities")
        errs = [[R[s[0]][2 * i + s[2]] - real[j][i] for i in range(nm)] for j, s in enumerate(b)]
        close(rl_, sum(e * e for r in errs for e in r) / (n * nm), "reward loss")
        for j, s in enumerate(b):
            pn = softmax(nscores.tolist()[j], s[6] if maxq else [s[7] == 0, s[7] == 1], 0.5)
            for i in range(nm):
                gR[s[0]][2 * i + s[2]] += 2 * errs[j][i] / (n * nm)
                tgt = real[j][i] + s[8] * s[9] * sum(T[s[1]][2 * i + a] * pn[a] for a in range(2))
                d = Q[s[0]][2 * i + s[2]] - tgt
                gQ[s[0]][2 * i + s[2]] += (2 * d if loss == "mse" else max(-1.0, min(1.0, d))) / (n * nm)
        if t.minibatch % k == 0:
            R = [[w - 0.5 * g / k for w, g in zip(a, c)] for a, c in zip(R, gR)]
            Q = [[w - 0.5 * g / k for w, g in zip(a, c)] for a, c in zip(Q, gQ)]
            T = [[0.25 * q + 0.75 * w for q, w in zip(a, c)] for a, c in zip(Q, T)]
            gR, gQ = ([[0.0] * (2 * nm) for _ in range(2)] for _ in range(2))
        for net, want, what in zip(nets, (R, Q, T), ("reward network", "q network", "target network")):
            close(net.w, want, what, rtol=1e-4, atol=1e-5)
        ctx.step()
        ctx.state((rows, nm, maxq, k, loss, round(R[0][0], 6)))
    if on:
        ctx.outcome(tuple(round(v, 4) for r in Q for v in r))


def cpe(big):
    def fn(ctx):
        bats = [(0,), (1,), (2,), (0, 1), (2, 1, 0)]
        for n in (1, 2, 3) if big else (1, 2):
            for seq in itertools.product(bats, repeat=n):
                for nm, maxq, k, loss in itertools.product((1, 2), (True, False), (1, 2), ("mse", "huber")):
                    ctx.run((seq, nm, maxq, k, loss), cpe_case, ctx, seq, nm, maxq, k, loss, True, nontrivial=n > 1)
        ctx.run("off", cpe_case, ctx, [(0, 1)], 1, True, 1, "mse", False)
    return fn


def imitation(ctx):
    W0 = [[0.5, -0.5, 0.25], [0.0, 1.0, -1.0]]
    al = [(0, 0), (0, 2), (1, 1)]
    for k in (1, 2):
        for n in (1, 2, 3):
            for seq in itertools.product([(0,), (1, 2), (0, 1, 2), (2, 2)], repeat=n):
                for train in (True, False):
                    def case():
                        net = Tab(W0)
                        t = ImitatorTrainer(net, optimizer=sgd(0.5), minibatches_per_step=k)
                        w, acc = torch.tensor(W0, requires_grad=True), 0.0
                        for j, rows in enumerate(seq):
                            st, a = onehot([al[i][0] for i in rows], 2), onehot([al[i][1] for i in rows], 3)
                            got = t.train(types.SimpleNamespace(training_input=types.SimpleNamespace(state=fd(st), action=a)), train=train)
                            wv = w.tolist()
                            acc_want = sum(1 for i in rows if max(range(3), key=lambda c: wv[al[i][0]][c]) == al[i][1]) / len(rows)
                            close(got, round(acc_want, 3), "accuracy")
                            if train:
                                acc = acc - sum(torch.log_softmax(w[al[i][0]], 0)[al[i][1]] for i in rows) / len(rows)
                                if (j + 1) % k == 0:
                                    g, = torch.autograd.grad(acc / k, w)
                                    w, acc = (w - 0.5 * g).detach().requires_grad_(True), 0.0
                                else:
                                    g, = torch.autograd.grad(acc, w, retain_graph=True)
                            close(net.w, w.tolist(), "weights")
                            ctx.step()
                            ctx.state((k, rows, train, j))
                    ctx.run((k, seq, train), case, nontrivial=n > 1)
    rows = list(itertools.product((0.0, 1.0, 2.0), repeat=3))
    for n, thr in itertools.product((1, 2), (0.0, 0.3, 0.5, 1.0)):
        for b in itertools.product(rows, repeat=n) if n == 1 else itertools.product(rows[::3], rows[::4]):
            def valid():
                x = torch.tensor(b)
                for kind in ("net", "function"):
                    if kind == "net":
                        m = get_valid_actions_from_imitator(torch.nn.Identity() if False else _Pass(), fd(x), thr)
                        p = torch.softmax(x.double(), 1).tolist()
                    else:
                        p = [[math.exp(v) for v in r] for r in b]
                        p = [[v / sum(r) for v in r] for r in p]
                        m = get_valid_actions_from_imitator(lambda f: p, fd(x), thr)
                    same(m.tolist(), [[1.0 if v / max(r) >= thr - 1e-9 else 0.0 for v in r] for r in p], "valid actions")
                ctx.state((b, thr))
            ctx.run(("valid", n, thr, b), valid, nontrivial=n > 1)


class _Pass(torch.nn.Module):
    def forward(self, x):
        return x


def warm_start(ctx):
    class T(Trainer):
        def __init__(self, parts, w):
            self.parts = parts
            for i, p in enumerate(("a", "b", "c")):
                setattr(self, p, Tab([[w + i]]))

        def warm_start_components(self):
            return self.parts
    for n in range(0, 4):
        for parts in itertools.permutations(("a", "b", "c"), n):
            def case():
                x, y = T(list(parts), 1.0), T(list(parts), 10.0)
                s = x.state_dict()
                same(sorted(s), sorted(parts), "components")
                y.load_state_dict(s)
                for i, p in enumerate(("a", "b", "c")):
                    close(getattr(y, p).w.item(), (1.0 if p in parts else 10.0) + i, p)
                if parts:
                    raises(lambda: y.load_state_dict({}), "missing component")
                ctx.step()
                ctx.state(parts)
            ctx.run(parts, case, nontrivial=n > 1)


def groups(tier):
    big = tier == "thorough"
    d = 6 if big else 5
    return [("report-full", reporter(FULL, ACTS, d)), ("report-td", reporter(ONLY, None, d)), ("report-td-actions", reporter(ONLY, ACTS, d)),
            ("report-imitator", reporter(IMIT, None, d)), ("pieces", pieces), ("mixin", mixin), ("optimizers", optimizers), ("cpe", cpe(big)),
            ("imitation", imitation), ("warm-start", warm_start)]

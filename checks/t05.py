"""T05: epochs, batches, checkpoints and evaluation data of real training runs, with restarts and crashes."""
import contextlib
import glob
import itertools
import logging
import os
import shutil
import tempfile
import threading
import time
import types

from mc import sparkstub

sparkstub.install()

import torch
import torch.nn as nn

import pytorch_lightning as pl
from torch.utils.tensorboard import SummaryWriter
import reagent.workflow.data.manual_data_module as mdm
import reagent.workflow.utils as wutils
from checks import t01
from mc.core import close, expect, raises, same
from mc.trainkit import Spy, Tab, col, fd, onehot, sgd
from mc.trainers import cpe_nets

import reagent.types as rlt
from reagent.optimizer import SoftUpdate
from reagent.parameters import EvaluationParameters, NormalizationData, NormalizationParameters, RLParameters
from reagent.tensorboardX import SummaryWriterContext, summary_writer_context
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from reagent.workflow.model_managers.model_manager import ModelManager
from reagent.workflow.types import RewardOptions

for n in ("pytorch_lightning", "lightning"):
    logging.getLogger(n).setLevel(logging.ERROR)

# writers of runs in removed scratch directories end noisily
threading.excepthook = lambda args: None

LEVEL = "fault_enumeration"
RULE = (
    "training through the repository's own train/evaluate entry point: every sequence of up to three runs (1-3 epochs, 1-3 batches each) "
    "joined by saved checkpoints, with no fault and with a crash or interruption at every batch of the run before the resumption; an "
    "execution is non-trivial when it resumes or crashes. Epochs, batches, parameters (with optimizer state), report flushes, summary "
    "steps and evaluation batches are compared with a counting model"
)
ASSUMPTIONS = [
    "single process; the automatic checkpoint of the training library counts an interrupted epoch as done",
    "a checkpoint saved by the model manager marks its run as finished",
]


class Boom(Exception):
    pass


@contextlib.contextmanager
def scratch():
    d, old = tempfile.mkdtemp(prefix="t05"), os.getcwd()
    os.chdir(d)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
            yield d
    finally:
        os.chdir(old)
        for _ in range(50):
            shutil.rmtree(d, ignore_errors=True)  # summary files may still be written
            if not os.path.exists(d):
                break
            time.sleep(0.02)


class Writer(SummaryWriter):
    def __init__(self):  # nothing is written
        self.seen = []

    def add_scalar(self, key, value, global_step=None, **kw):
        self.seen.append((float(value), global_step))


class Toy(ReAgentLightningModule):
    """two optimizers: momentum SGD on `a` and plain SGD on `b`, plus a target of `a`"""

    LR, MOM = 0.1, 0.5

    def __init__(self, fault=None):
        super().__init__()
        self.a, self.b, self.t = (nn.Parameter(torch.zeros(1)) for _ in range(3))
        self.seen, self.tested, self.fault = [], [], fault

    def configure_optimizers(self):
        return [torch.optim.SGD([self.a], lr=self.LR, momentum=self.MOM), torch.optim.SGD([self.b], lr=1.0), SoftUpdate([self.t], [self.a], tau=0.5)]

    def train_step_gen(self, training_batch, batch_idx: int):
        if self.fault and self.fault[0] == len(self.seen):
            raise self.fault[1]()
        if len(self.seen) > 40:
            raise RuntimeError("training goes on and on")
        self.seen.append((self.current_epoch, batch_idx, float(training_batch)))
        SummaryWriterContext.add_scalar("x", float(training_batch))
        yield (self.a - training_batch).pow(2).sum()
        yield self.b.sum()
        yield self.soft_update_result()

    def test_step(self, batch, batch_idx):
        return batch

    def test_epoch_end(self, outputs):
        self.tested.append(([float(o) for o in outputs], float(self.a)))


class Data(pl.LightningDataModule):
    def __init__(self, n, m=2):
        super().__init__()
        self.n, self.m, self.loads = n, m, 0

    def train_dataloader(self):
        self.loads += 1
        return iter([torch.tensor([float(i + 1)]) for i in range(self.n)])

    def test_dataloader(self):
        return iter([torch.tensor([10.0 + i]) for i in range(self.m)])


class Ref:
    """the counting model: parameters, momentum and epochs"""

    def __init__(self):
        self.a = self.b = self.t = 0.0
        self.v = None
        self.epoch, self.goal = 0, 0

    def batch(self, x):
        g = 2 * (self.a - x)
        self.v = g if self.v is None else Toy.MOM * self.v + g
        self.a -= Toy.LR * self.v
        self.b -= 1.0
        self.t = 0.5 * self.a + 0.5 * self.t


def save(trainer, module, path):
    """through the model manager's own save"""
    ns = types.SimpleNamespace(_lightning_trainer=trainer, trainer=module)
    ModelManager.save_trainer(ns, path)


def newest():
    return max(glob.glob("lightning_logs/version_*/checkpoints/*.ckpt"), key=os.path.getmtime, default=None)


def run(module, data, epochs, path):
    return wutils.train_eval_lightning(None, None, module, data, epochs, False, checkpoint_path=path)


def segment(ref, n, batches, path, fault_at=None, exc=None):
    """one training run of n epochs, checked against the reference; returns (module, pl trainer or None)"""
    m = Toy([fault_at, exc] if fault_at is not None else None)
    spy = Spy()
    m.set_reporter(spy)
    data = Data(batches)
    w = Writer()
    want, flushed, crashed = [], [], False
    for e in range(ref.epoch, ref.goal):
        for j in range(batches):
            if fault_at is not None and len(want) == fault_at:
                crashed = True
                break
            want.append((e, j, j + 1.0))
            ref.batch(j + 1.0)
        if crashed:
            break
        flushed.append(e)
    t = None
    with summary_writer_context(w):
        try:
            t = run(m, data, n, path)
        except Boom:
            pass
    expect(crashed == (fault_at is not None), "harness: the fault is outside the run")
    same(m.seen, want, "epochs and batches trained")
    same(spy.flushed, flushed, "epochs reported")
    close([float(m.a), float(m.b), float(m.t)], [ref.a, ref.b, ref.t], "parameters")
    steps = [s for _, s in w.seen]
    same([v for v, _ in w.seen], [x for _, _, x in want], "summaries")
    if steps:
        same([s - steps[0] for s in steps], list(range(len(steps))), "summary steps")
    if t is not None:
        same(len(m.tested), 1, "evaluations")
        same(m.tested[0][0], [10.0, 11.0], "evaluation batches")
        close(m.tested[0][1], float(m.a), "evaluated parameters")
    ref.epoch += len(flushed)
    return m, t


def clean_runs(plans):
    def fn(ctx):
        for plan in plans:
            def case():
                with scratch():
                    ref, path = Ref(), None
                    for k, (n, batches) in enumerate(plan):
                        ref.goal += n
                        m, t = segment(ref, n, batches, path)
                        path = os.path.abspath("c%d.ckpt" % k)
                        save(t, m, path)
                    ctx.outcome((ref.a, ref.epoch))
            ctx.state(plan)
            ctx.step(sum(n * b for n, b in plan))
            ctx.run(("clean", plan), case)
    return fn


def crashes(ctx_plans):
    def fn(ctx):
        for first, batches, n2, at in ctx_plans:
            def case(exc):
                with scratch():
                    ref = Ref()
                    path = None
                    if first:  # a finished run before
                        ref.goal = first
                        m, t = segment(ref, first, batches, None)
                        path = os.path.abspath("c.ckpt")
                        save(t, m, path)
                        for f in glob.glob("lightning_logs/version_*/checkpoints/*.ckpt"):
                            os.remove(f)
                    ref.goal += n2
                    if at == n2 * batches:  # everything trained, but the manager never saved
                        segment(ref, n2, batches, path)
                    else:
                        segment(ref, n2, batches, path, at, exc)
                    auto = newest()
                    expect(auto is not None or at == 0, "no automatic checkpoint")
                    if at < n2 * batches and auto:  # the training library may count the interrupted epoch as done
                        done = torch.load(auto)["epoch"]
                        expect(done in (ref.epoch, ref.epoch + 1), "automatic checkpoint of epoch %s, trained %s", done, ref.epoch)
                        ref.epoch = done
                    ref.goal = max(ref.goal, ref.epoch + 1)  # a resumed run trains at least one epoch
                    m, t = segment(ref, n2, batches, auto or path)
                    path = os.path.abspath("d.ckpt")
                    save(t, m, path)
                    ref.goal += 1
                    segment(ref, 1, batches, path)
                    ctx.outcome((ref.a, ref.epoch))
            for exc in (Boom,):
                ctx.state((first, batches, n2, at, exc.__name__))
                ctx.step(batches * (first + n2 + 1))
                ctx.run(("crash", first, batches, n2, at, exc.__name__), case, exc)
    return fn


# -- evaluation data of the DQN trainer ---------------------------------------------------
MDP = {"k": 1, "m": 2, "n": 3, "o": 4, "p": 5}


def gather(ctx):
    A = 2
    rows = [r for r in t01.transitions(A, True) if r[7]]
    logs = []  # (mdp, sequence number, row)
    k = 0
    for mdp, length in (("m", 2), ("n", 1), ("k", 3), ("o", 1), ("p", 1)):
        for s in range(length):
            logs.append((mdp, s, rows[(17 * k) % len(rows)]))
            k += 1

    def batch_of(part):
        b = t01.batch_of([r for _, _, r in part], A)
        b.extras = rlt.ExtraData(
            mdp_id=torch.tensor([[MDP[m]] for m, _, _ in part]), sequence_number=torch.tensor([[s] for _, s, _ in part]),
            action_probability=col([0.5] * len(part)), metrics=None)
        return b

    orders = [(0, 1, 2, 3, 4, 5, 6, 7), (7, 6, 5, 4, 3, 2, 1, 0), (3, 0, 6, 5, 1, 7, 4, 2), (2, 7, 3, 0, 4, 1, 6, 5)]
    splits = [(8,), (7, 1), (1, 7), (4, 4), (3, 2, 3), (1, 2, 5), (1, 1, 1, 1, 1, 1, 1, 1)]
    for order, split, epochs in itertools.product(orders, splits, (1, 2)):
        def case():
            perm = [logs[i] for i in order]
            parts, i = [], 0
            for n in split:
                parts.append(perm[i:i + n])
                i += n

            class D(pl.LightningDataModule):
                def train_dataloader(self):
                    return iter([t01.batch_of(rows[3 * j:3 * j + 2], A) for j in range(2)])

                def test_dataloader(self):
                    return iter([batch_of(p) for p in parts])

            kw = cpe_nets(A, A)
            tr = DQNTrainer(Tab([r[:A] for r in t01.Q3]), Tab([r[:A] for r in t01.T3]), actions=["a", "b"], rl=RLParameters(gamma=0.9, temperature=0.7), optimizer=sgd(0.1), **kw)
            spy = Spy()
            tr.set_reporter(spy)
            pages = []
            real = tr.evaluator.evaluate_post_training

            def probe(edp):
                pages.append(edp)
                return real(edp)

            tr.evaluator.evaluate_post_training = probe
            with scratch():
                run(tr, D(), epochs, None)
            same(len(pages), 1, "evaluations")
            p = pages[0]
            want = sorted(logs, key=lambda x: (MDP[x[0]], x[1]))
            same([(a, b) for a, b in zip(p.mdp_id.flatten().tolist(), p.sequence_number.flatten().tolist())],
                 [(MDP[m], s) for m, s, _ in want], "steps evaluated, in order")
            close(p.logged_rewards.flatten(), [r[2] for _, _, r in want], "rewards")
            close(p.action_mask, onehot([r[1] for _, _, r in want], A), "actions")
            q = tr.q_network.w.tolist()
            close(p.optimal_q_values, [q[r[0]] for _, _, r in want], "values of the final network")
            # discounted sum of the rewards of the rest of the episode
            vals = []
            for m, s, r in want:
                vals.append(sum(0.9 ** (s2 - s) * r2[2] for m2, s2, r2 in want if m2 == m and s2 >= s))
            close(p.logged_values.flatten(), vals, "logged values")
            same(len([1 for d in spy.logs if "cpe_details" in d]), 1, "reported evaluations")
            # evaluating other logs of the same size afterwards
            flip = {k: 9 - v for k, v in MDP.items()}
            again = []
            for part in parts:
                b = batch_of([(m, s_, r) for m, s_, r in part])
                b.extras.mdp_id = torch.tensor([[flip[m]] for m, _, _ in part])
                b.reward = -2 * b.reward
                again.append(b)
            tr.test_epoch_end(again)
            same(len(pages), 2, "evaluations")
            order2 = sorted(logs, key=lambda x: (flip[x[0]], x[1]))
            same(pages[1].mdp_id.flatten().tolist(), [flip[m] for m, _, _ in order2], "second evaluation")
            close(pages[1].logged_rewards.flatten(), [-2 * r[2] for _, _, r in order2], "rewards of the second evaluation")
            close(pages[1].logged_values.flatten(), [-2 * vals[want.index(x)] for x in order2], "logged values of the second evaluation")
            ctx.outcome(vals)

        ctx.state((order, split, epochs))
        ctx.step(len(split))
        ctx.run(("gather", order, split, epochs), case)


# -- saving and warm-starting through the model managers ----------------------------------------
NORM = {1: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0), 2: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0)}
ANORM = {7: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=-1.0, max_value=1.0)}


def make_manager(kind):
    from reagent.optimizer.union import Optimizer__Union, classes
    from reagent.net_builder.unions import DiscreteActorNetBuilder__Union, DiscreteDQNNetBuilder__Union  # noqa
    from reagent.workflow.model_managers.actor_critic.sac import SAC
    from reagent.workflow.model_managers.actor_critic.td3 import TD3
    from reagent.workflow.model_managers.discrete import DiscreteC51DQN, DiscreteCRR, DiscreteDQN, DiscreteQRDQN
    from reagent.training import (
        C51TrainerParameters, CRRTrainerParameters, DQNTrainerParameters, QRDQNTrainerParameters, SACTrainerParameters, TD3TrainerParameters)

    ev = EvaluationParameters(calc_cpe_in_training=False)
    rl = RLParameters(gamma=0.9, target_update_rate=0.2)
    acts = ["a", "b"]
    if kind == "dqn":
        return DiscreteDQN(trainer_param=DQNTrainerParameters(actions=acts, rl=rl), eval_parameters=ev)
    if kind == "c51":
        return DiscreteC51DQN(trainer_param=C51TrainerParameters(actions=acts, rl=rl, num_atoms=5, qmin=-3, qmax=3), eval_parameters=ev)
    if kind == "qr":
        return DiscreteQRDQN(trainer_param=QRDQNTrainerParameters(actions=acts, rl=rl, num_atoms=3), eval_parameters=ev)
    if kind == "crr":
        return DiscreteCRR(trainer_param=CRRTrainerParameters(actions=acts, rl=rl), eval_parameters=ev)
    feats = dict(state_float_features=[(1, "s1"), (2, "s2")], action_float_features=[(7, "a")], eval_parameters=ev)
    if kind == "sac":
        return SAC(trainer_param=SACTrainerParameters(rl=rl), **feats)
    return TD3(trainer_param=TD3TrainerParameters(rl=rl), **feats)


def manager_batches(kind, epoch):
    f = lambda k, c: torch.tensor([[((k * 7 + 3 * i + 5 * j) % 11 - 5) / 5.0 for j in range(c)] for i in range(4)])
    out = []
    for k in range(2):
        k = k + 3 * epoch
        base = dict(state=fd(f(k, 2)), next_state=fd(f(k + 1, 2)), reward=f(k + 2, 1), time_diff=torch.ones(4, 1), step=None, not_terminal=(f(k + 3, 1) > -0.5).float(),
                    extras=rlt.ExtraData(action_probability=torch.full((4, 1), 0.5)))
        if kind in ("dqn", "c51", "qr", "crr"):
            oh = (f(k, 1) > 0).long().flatten()
            eye = torch.eye(2)
            out.append(rlt.DiscreteDqnInput(action=eye[oh], next_action=eye[1 - oh], possible_actions_mask=torch.ones(4, 2), possible_next_actions_mask=torch.ones(4, 2), **base))
        else:
            out.append(rlt.PolicyNetworkInput(action=fd(f(k, 1) * 0.9), next_action=fd(f(k + 1, 1) * 0.9), **base))
    return out


def managers(kinds):
    def fn(ctx):
        for kind in kinds:
            def build(warm=None):
                SummaryWriterContext._reset_globals()
                torch.manual_seed(5)
                mm = make_manager(kind)
                nd = lambda p: NormalizationData(dense_normalization_parameters=p)
                mm.initialize_trainer(False, RewardOptions(), {"state": nd(NORM), "action": nd(ANORM)}, warmstart_path=warm)
                return mm

            class D(pl.LightningDataModule):
                def __init__(self, first):
                    super().__init__()
                    self.e = first

                def train_dataloader(self):
                    torch.manual_seed(100 + self.e)
                    self.e += 1
                    return iter(manager_batches(kind, self.e - 1))

                def test_dataloader(self):
                    return None

            def train(mm, n, first):
                mm.train(None, None, D(first), n, None, None)
                return {k: v.clone() for k, v in mm.trainer.state_dict().items() if "stop" not in k}

            def case(n1, n2):
                with scratch():
                    ref = train(build(), n1 + n2, 0)
                    mm = build()
                    mid = train(mm, n1, 0)
                    mm.save_trainer("w.ckpt")
                    mm2 = build("w.ckpt")
                    got = train(mm2, n2, n1)
                same(sorted(got), sorted(ref), "state")
                moved = 0
                for k in ref:
                    close(got[k], ref[k], "%s after a warm start" % k)
                    moved += not torch.equal(mid[k], ref[k])
                expect(moved, "nothing was trained after the warm start")

            for n1, n2 in itertools.product((1, 2), (1, 2)):
                ctx.state((kind, n1, n2))
                ctx.step(2 * (n1 + n2))
                ctx.run(("warm-start", kind, n1, n2), case, n1, n2)
    return fn


# -- data modules: every batch of the data set once per epoch ---------------------------------
class Reader:
    def __init__(self, url, num_epochs=None, reader_pool_type=None):
        self.url, self.num_epochs, self.pool = url, num_epochs, reader_pool_type


class Loader:
    open = []

    def __init__(self, reader, batch_size, collate_fn):
        same(reader.num_epochs, 1, "epochs read by one loader")
        self.reader, self.n, self.fn = reader, batch_size, collate_fn
        Loader.open.append(self)

    def __iter__(self):
        data = TABLES[self.reader.url]
        for i in range(0, len(data), self.n):
            yield self.fn(data[i:i + self.n])

    def __exit__(self, *a):
        Loader.open.remove(self)


TABLES = {}


class Pre:
    def __call__(self, batch):
        return torch.tensor([float(x) for x in batch])


def datamodules(ctx):
    from reagent.workflow.types import Dataset, ReaderOptions

    class Manual(mdm.ManualDataModule):
        should_generate_eval_dataset = True
        required_normalization_keys = ["state"]

        def run_feature_identification(self, spec):
            return {}

        def query_data(self, input_table_spec, sample_range, reward_options):
            return Dataset(parquet_url="%s-%s" % sample_range)

        def build_batch_preprocessor(self):
            return Pre()

    for size, bs, esize, epochs in itertools.product((1, 2, 3, 5), (1, 2, 4), (0, 1, 3), (1, 2)):
        def case(kind):
            from reagent.workflow.types import TableSpec

            TABLES.clear()
            TABLES.update({"file:///t": list(range(size)), "file:///e": [100 + i for i in range(esize)],
                           "0.0-80.0": list(range(size)), "80.0-100.0": [100 + i for i in range(esize)]})
            Loader.open.clear()
            old = (wutils.make_batch_reader, wutils.DataLoader, wutils.decimal_friendly_collate, mdm.make_batch_reader, mdm.DataLoader, mdm.decimal_friendly_collate)
            wutils.make_batch_reader = mdm.make_batch_reader = Reader
            wutils.DataLoader = mdm.DataLoader = Loader
            wutils.decimal_friendly_collate = mdm.decimal_friendly_collate = lambda x: x
            seen, tested = [], []

            class T(Toy):
                def train_step_gen(self, training_batch, batch_idx: int):
                    seen.append((self.current_epoch, training_batch.tolist()))
                    yield (self.a - training_batch.sum()).pow(2).sum()
                    yield self.b.sum()
                    yield self.soft_update_result()

                def test_epoch_end(self, outputs):
                    tested.append([o.tolist() for o in outputs])

            try:
                opts = ReaderOptions(minibatch_size=bs)
                if kind == "petastorm":
                    dm, a = None, dict(train_dataset=Dataset(parquet_url="file:///t"), eval_dataset=Dataset(parquet_url="file:///e"), batch_preprocessor=Pre())
                else:
                    dm = Manual(input_table_spec=TableSpec(table_name="x", table_sample=80.0, eval_table_sample=20.0), reader_options=opts, reward_options=RewardOptions())
                    if kind == "resumed":
                        saved = dm.prepare_data()
                        dm = Manual(setup_data=saved, reader_options=opts)
                        same(dm.prepare_data(), None, "data prepared twice")
                    else:
                        dm.prepare_data()
                    a = dict(train_dataset=None, eval_dataset=None)
                with scratch():
                    wutils.train_eval_lightning(trainer_module=T(), data_module=dm, num_epochs=epochs, use_gpu=False, reader_options=opts, **a)
            finally:
                (wutils.make_batch_reader, wutils.DataLoader, wutils.decimal_friendly_collate, mdm.make_batch_reader, mdm.DataLoader, mdm.decimal_friendly_collate) = old
            chunks = lambda xs: [[float(x) for x in xs[i:i + bs]] for i in range(0, len(xs), bs)]
            same(seen, [(e, c) for e in range(epochs) for c in chunks(list(range(size)))], "batches")
            if esize:
                same(tested, [chunks([100 + i for i in range(esize)])], "evaluation batches")
            else:
                expect(tested in ([], [[]]), "evaluation batches of an empty data set: %s", tested)
            same(len(Loader.open), 0, "loaders left open")

        for kind in ("petastorm", "manual", "resumed"):
            ctx.state((kind, size, bs, esize, epochs))
            ctx.step(epochs)
            ctx.run((kind, size, bs, esize, epochs), case, kind)


def groups(tier):
    big = tier == "thorough"
    seg = [(n, b) for n in (1, 2, 3) for b in (1, 2, 3)]
    plans = [(x,) for x in seg] + [(x, y) for x in seg for y in seg] + [((n1, b), (n2, b), (n3, b)) for n1 in (1, 2) for n2 in (1, 2) for n3 in (1, 2) for b in ((1, 2, 3) if big else (1, 2))]
    cr = [(f, b, n, at) for f in ((0, 1, 2) if big else (0, 1)) for b in (1, 2, 3) for n in (1, 2, 3) for at in range(n * b + 1)]
    return (
        [("clean-%d" % i, clean_runs(plans[i::5])) for i in range(5)] + [("crash-%d" % i, crashes(cr[i::4])) for i in range(4)]
        + [("gather", gather), ("managers-0", managers(("dqn", "c51", "qr"))), ("managers-1", managers(("crr", "sac", "td3"))), ("datamodules", datamodules)])

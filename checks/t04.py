"""T04: in the real training loop each optimizer steps exactly on the loss of its own parameters."""
import itertools
import logging
import os
import tempfile

import torch
import torch.nn as nn

import pytorch_lightning as pl
from mc.core import close, expect, raises, same
from mc.trainers import LR, TAU, changed, factories, gen_step, owned, snap
from mc.trainkit import Spy, Tab, fd, onehot, sgd

import reagent.types as rlt
from reagent.optimizer import SoftUpdate
from reagent.training.reagent_lightning_module import ReAgentLightningModule

logging.getLogger("pytorch_lightning").setLevel(logging.ERROR)
logging.getLogger("lightning").setLevel(logging.ERROR)

LEVEL = "model_checking"
RULE = (
    "every trainer in every structurally different configuration, driven by the real Lightning training loop; state = (trainer, batch, "
    "optimizer index); every state is visited without fault and with an interruption or an error injected before it, then training "
    "continues; parameters after every optimizer step are compared with the trainer's own loss sequence applied loss i -> optimizer i, "
    "and the set of parameters each step changes with the set it owns"
)
ASSUMPTIONS = ["plain SGD as configured optimizer, so that a step is determined by its gradient", "single process, CPU"]


class Boom(Exception):
    pass


def pl_trainer(epochs, **kw):
    return pl.Trainer(max_epochs=epochs, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None, **dict(dict(logger=False), **kw))


def quiet(fn):
    with open(os.devnull, "w") as null:
        import contextlib

        with contextlib.redirect_stdout(null):
            return fn()


def instrument(tr, record, fault=None):
    """wrap every optimizer's step on the instance: record what each step changes; raise `fault` at a chosen step"""
    make = tr.configure_optimizers

    def configure():
        opts = make()
        for i, o in enumerate(opts):
            def step(closure=None, i=i, o=o, real=o.step):
                pos = len(record)
                if fault and fault[0] == pos:
                    fault[0] = -1
                    raise fault[1]()
                before = snap(tr)
                r = real(closure)
                record.append((i, changed(before, snap(tr)), owned(tr, o), snap(tr)))
                return r
            object.__setattr__(o, "step", step)
        return opts

    tr.configure_optimizers = configure


def loop_group(names):
    def fn(ctx):
        F = factories()
        for name in names:
            mk, batches, skipped = F[name]
            n_opt = len(mk().configure_optimizers())

            def plain(epochs, nb):
                bs = batches(nb)
                tr, rec = mk(), []
                spy = Spy()
                tr.set_reporter(spy)
                instrument(tr, rec)
                quiet(lambda: pl_trainer(epochs).fit(tr, bs))
                ref = mk()
                ref.set_reporter(Spy())
                from mc.trainkit import attach
                attach(ref)
                opts = ref.configure_optimizers()
                same([r[0] for r in rec], list(range(n_opt)) * (epochs * nb), "order of optimizer steps")
                k = 0
                for e in range(epochs):
                    for j, b in enumerate(batches(nb)):
                        gen_step(ref, b, j, opts)
                        want = {n: p for n, p in ref.named_parameters()}
                        for i in range(n_opt):
                            _, ch, own, after = rec[k]
                            expect(ch <= own, "step %d of batch %d changed parameters it does not own: %s", i, j, sorted(ch - own))
                            if i in skipped(j):
                                expect(not ch, "step %d of batch %d should be skipped but changed %s", i, j, sorted(ch))
                            else:
                                expect(ch, "step %d of batch %d changed nothing", i, j)
                            k += 1
                        for n in want:
                            close(after[n], want[n], "%s after batch %d of epoch %d" % (n, j, e))
                same(spy.flushed, list(range(epochs)), "reporter flushes")
                ctx.outcome({n: p.tolist() for n, p in want.items()})

            for epochs, nb in ((1, 1), (1, 4), (2, 3)):
                ctx.state((name, epochs, nb))
                ctx.step(epochs * nb * n_opt)
                ctx.run((name, "plain", epochs, nb), plain, epochs, nb)

            def faulty(j, i, exc, follow):
                bs = batches(4)
                tr, rec = mk(), []
                tr.set_reporter(Spy())
                fault = [j * n_opt + i, exc]
                instrument(tr, rec, fault)

                def go():
                    try:
                        pl_trainer(1).fit(tr, bs[:2])
                    except Boom:
                        pass

                quiet(go)
                same(fault[0], -1, "the fault was injected")
                rec2_start = len(rec)
                quiet(lambda: pl_trainer(1).fit(tr, bs[follow:follow + 2]))
                ref = mk()
                from mc.trainkit import attach
                attach(ref)
                opts = ref.configure_optimizers()
                for b in range(j):
                    gen_step(ref, bs[b], b, opts)
                gen_step(ref, bs[j], j, opts, stop_at=i)
                same(rec2_start, j * n_opt + i, "steps before the fault")
                for b in range(2):
                    gen_step(ref, bs[follow + b], b, opts)
                same(len(rec), rec2_start + 2 * n_opt, "steps after the fault")
                for n, p in ref.named_parameters():
                    close(dict(tr.named_parameters())[n], p, "%s after the fault at batch %d step %d" % (n, j, i))

            for j, i, exc in itertools.product((0, 1), range(n_opt), (KeyboardInterrupt, Boom)):
                ctx.state((name, j, i, exc.__name__))
                ctx.step(4 * n_opt)
                ctx.run((name, "fault", j, i, exc.__name__), faulty, j, i, exc, 2)

            def failing_batch(j):
                """the loss computation itself fails on a bad batch; the next fit must start afresh"""
                bs = batches(4)
                tr = mk()
                tr.set_reporter(Spy())
                bad = 3.14

                def go():
                    try:
                        pl_trainer(1).fit(tr, bs[:j] + [bad])
                    except (AssertionError, AttributeError, TypeError):
                        return
                    raise AssertionError("a batch that is no batch was accepted")

                quiet(go)
                quiet(lambda: pl_trainer(1).fit(tr, bs[2:4]))
                ref = mk()
                from mc.trainkit import attach
                attach(ref)
                opts = ref.configure_optimizers()
                for b in range(j):
                    gen_step(ref, bs[b], b, opts)
                for b in range(2):
                    gen_step(ref, bs[2 + b], b, opts)
                for n, p in ref.named_parameters():
                    close(dict(tr.named_parameters())[n], p, "%s after a failed batch" % n)

            for j in (0, 1):
                ctx.state((name, "bad", j))
                ctx.run((name, "bad-batch", j), failing_batch, j)

    return fn


# -- the soft update by itself ---------------------------------------------------------
def soft_update(ctx):
    alphabet = (-1.0, 0.5, 2.0)
    for tau in (0.0, 0.1, 0.5, 1.0):
        for n in (1, 2, 3):
            for shared in itertools.product((False, True), repeat=n):
                for shape in ((), (2,), (2, 3)):
                    def case():
                        mkp = lambda v: nn.Parameter(torch.full(shape, v) if shape else torch.tensor(v))
                        src = [mkp(alphabet[i % 3]) for i in range(n)]
                        tgt = [s if sh else mkp(alphabet[(i + 1) % 3] * 3) for i, (s, sh) in enumerate(zip(src, shared))]
                        want = [float(t.flatten()[0]) if t.dim() else float(t) for t in tgt]
                        sv = [float(s.flatten()[0]) if s.dim() else float(s) for s in src]
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            o = SoftUpdate(iter(tgt), iter(src), tau=tau)
                        for k in range(3):
                            if k == 0:
                                o.step()
                            elif k == 1:
                                seen = []
                                r = o.step(lambda: seen.append(torch.is_grad_enabled()) or torch.tensor(7.0))
                                same((float(r), seen), (7.0, [True]), "the closure's loss is returned")
                            else:
                                same(o.step(lambda: None), None, "skipped")
                            if k < 2:
                                want = [w if sh else tau * s + (1 - tau) * w for w, s, sh in zip(want, sv, shared)]
                            for t, w, s, v in zip(tgt, want, src, sv):
                                close(t, torch.full(shape, w), "target after step %d" % k)
                                if t is not s:
                                    close(s, torch.full(shape, v), "source")
                        ctx.outcome(want)
                    ctx.state((tau, n, shared, shape))
                    ctx.step(3)
                    ctx.run(("soft", tau, n, shared, shape), case)

    def refusals():
        p = lambda *s: nn.Parameter(torch.zeros(*s))
        raises(lambda: SoftUpdate([p(2)], [p(2), p(2)]), "different numbers of parameters")
        raises(lambda: SoftUpdate([p(2)], [p(3)]), "different shapes")
        raises(lambda: SoftUpdate([p(2)], [p(2)], tau=1.01), "tau above 1")
        raises(lambda: SoftUpdate([p(2)], [p(2)], tau=-0.01), "tau below 0")

    ctx.run("soft-refusals", refusals)


# -- the generator protocol on a synthetic module ------------------------------------------
class Toy(ReAgentLightningModule):
    def __init__(self, n_opt, n_yield, nones=()):
        super().__init__()
        self.ps = nn.ParameterList([nn.Parameter(torch.tensor([float(i)])) for i in range(n_opt)])
        self.n_yield, self.nones = n_yield, nones
        self.began, self.ended = [], 0

    def configure_optimizers(self):
        return [torch.optim.SGD([p], lr=1.0) for p in self.ps]

    def train_step_gen(self, training_batch, batch_idx: int):
        self.began.append((float(training_batch), batch_idx))
        for i in range(self.n_yield):
            if (batch_idx, i) in self.nones:
                yield None
            else:
                yield self.ps[i % len(self.ps)].sum() * float(training_batch)
        self.ended += 1


def protocol(ctx):
    for n_opt in (2, 3, 4):
        for n_yield in range(1, n_opt + 3):
            def case():
                tr = Toy(n_opt, n_yield)
                go = lambda: quiet(lambda: pl_trainer(1).fit(tr, [torch.tensor([1.0]), torch.tensor([2.0])]))
                if n_yield != n_opt:
                    raises(go, "%d losses for %d optimizers" % (n_yield, n_opt))
                    return
                go()
                same(tr.began, [(1.0, 0), (2.0, 1)], "batches seen")
                close([float(p) for p in tr.ps], [i - 3.0 for i in range(n_opt)], "parameters")
            ctx.state((n_opt, n_yield))
            ctx.step(2 * n_opt)
            ctx.run(("yields", n_opt, n_yield), case)
        for nones in itertools.product((0, 1), repeat=2 * n_opt):
            if n_opt == 4 and sum(nones) > 2:
                continue
            def case():
                sk = {(b, i) for b in range(2) for i in range(n_opt) if nones[b * n_opt + i]}
                tr = Toy(n_opt, n_opt, sk)
                quiet(lambda: pl_trainer(1).fit(tr, [torch.tensor([1.0]), torch.tensor([2.0])]))
                close([float(p) for p in tr.ps], [i - sum([1.0, 2.0][b] for b in range(2) if (b, i) not in sk) for i in range(n_opt)], "parameters")
            ctx.state((n_opt, nones))
            ctx.step(2 * n_opt)
            ctx.run(("nones", n_opt, nones), case)


# -- dictionaries as batches ------------------------------------------------------------
def dict_batches(ctx):
    F = factories()

    def todict(b):
        if isinstance(b, rlt.SlateQInput):
            return dict(
                state_features=b.state.float_features, candidate_features=b.state.candidate_docs.float_features, item_mask=b.state.candidate_docs.mask,
                item_probability=b.state.candidate_docs.value, next_state_features=b.next_state.float_features,
                next_candidate_features=b.next_state.candidate_docs.float_features, next_item_mask=b.next_state.candidate_docs.mask,
                next_item_probability=b.next_state.candidate_docs.value, action=b.action, next_action=b.next_action, position_reward=b.reward,
                reward_mask=b.reward_mask, time_diff=b.time_diff, not_terminal=b.not_terminal)
        d = dict(state_features=b.state.float_features, next_state_features=b.next_state.float_features, reward=b.reward, time_diff=b.time_diff,
                 step=b.step, not_terminal=b.not_terminal, extras=b.extras)
        ff = lambda x: x.float_features if hasattr(x, "float_features") else x
        for k in ("action", "next_action", "possible_actions", "possible_actions_mask", "possible_next_actions", "possible_next_actions_mask"):
            if hasattr(b, k):
                d[k] = ff(getattr(b, k))
        if isinstance(b, rlt.DiscreteDqnInput):
            d.update(mdp_id=None, sequence_number=None, action_probability=b.extras.action_probability)
        return d

    for name in ("dqn-cpe0", "c51", "parametric", "slateq", "sac-v0-q1-a1-c0", "td3-q1-d2", "crr-q1-d2-c0"):
        mk, batches, _ = F[name]

        def case():
            a, b = mk(), mk()
            for tr in (a, b):
                tr.set_reporter(Spy())
            quiet(lambda: pl_trainer(1).fit(a, batches(3)))
            quiet(lambda: pl_trainer(1).fit(b, [todict(x) for x in batches(3)]))
            for (n, p), (_, q) in zip(a.named_parameters(), b.named_parameters()):
                close(q, p, n)

        ctx.state(("dict", name))
        ctx.step(3)
        ctx.run(("dict", name), case)


def writer(ctx):
    def case(kind):
        d = tempfile.mkdtemp()
        try:
            tb = pl.loggers.TensorBoardLogger(d)
            csv = pl.loggers.CSVLogger(d)
            lg, want = {"single": (tb, tb), "list": ([csv, tb], tb), "other": (csv, None), "none": (False, None)}[kind]
            tr = Toy(2, 2)
            seen = []
            gen = tr.train_step_gen

            def probing(training_batch, batch_idx: int):
                seen.append(tr.summary_writer)
                yield from gen(training_batch, batch_idx)

            tr.train_step_gen = probing
            quiet(lambda: pl_trainer(1, logger=lg).fit(tr, [torch.tensor([1.0]), torch.tensor([2.0])]))
            same(len(seen), 2, "batches")
            for s in seen:
                expect(s is (want.experiment if want else None), "the writer of the loggers %s is %s", kind, s)
        finally:
            import shutil
            shutil.rmtree(d)

    for kind in ("single", "list", "other", "none"):
        ctx.state(("writer", kind))
        ctx.run(("writer", kind), case, kind)


def groups(tier):
    names = sorted(factories())
    return [("loop-%d" % i, loop_group(names[i::8])) for i in range(8)] + [
        ("soft-update", soft_update), ("protocol", protocol), ("dict-batches", dict_batches), ("writer", writer)]

"""Factories of every Lightning trainer in every structurally different configuration, with small batches."""
import torch

from checks import t01, t02, t03
from mc.trainkit import Tab, TabSA, col, fd, onehot, sgd

import reagent.types as rlt
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from reagent.training.sac_trainer import CRRWeightFn, SACTrainer
from reagent.training.slate_q_trainer import SlateQTrainer
from reagent.training.td3_trainer import TD3Trainer

LR, TAU = 0.05, 0.25


OVERRIDE, EXTRA = {}, {}  # of the RL parameters; further arguments of the trainer


def rl():
    return RLParameters(**{**dict(gamma=0.9, target_update_rate=TAU, maxq_learning=True), **OVERRIDE})


def cpe_nets(A, W):
    W *= 1 + len(EXTRA.get("metrics_to_score", []))
    mk = lambda f: Tab([[f * (i + 1) * (-1) ** j + 0.07 * j for j in range(W)] for i in range(3)])
    return dict(reward_network=mk(0.1), q_network_cpe=mk(0.2), q_network_cpe_target=mk(0.3))


def discrete_batches(A, n):
    rows = [r for r in t01.transitions(A, True) if r[7]]
    return [t01.batch_of([rows[(11 * i + 5 * j) % len(rows)] for j in range(3)], A) for i in range(n)]


def policy_batches(D, n):
    bs = t03.batches(D)
    return [t03.make_batch(bs[(5 * i + 6) % len(bs)]) for i in range(n)]


def parametric_batches(n):
    rows = t02.p_rows()
    return [t02.p_batch([rows[(13 * i + 7 * j) % len(rows)] for j in range(3)], torch.float32, 0) for i in range(n)]


def slate_batches(n):
    rows = t02.sq_rows(2)
    return [t02.sq_batch([rows[(13 * i + 7 * j) % len(rows)] for j in range(3)]) for i in range(n)]


def factories():
    """name -> (make trainer, make n batches, {skipped steps: fn(batch_idx) -> set of optimizer indices that must not act})"""
    out = {}
    A, acts = 2, ["a", "b"]
    none = lambda k: set()
    ev = lambda c: EvaluationParameters(calc_cpe_in_training=c)
    q2 = lambda m: [r[:A] for r in m]

    def dqn(cpe):
        kw = cpe_nets(A, A) if cpe else dict(reward_network=None)
        return DQNTrainer(Tab(q2(t01.Q3)), Tab(q2(t01.T3)), actions=acts, rl=rl(), optimizer=sgd(LR), evaluation=ev(cpe), **kw, **EXTRA)

    def qr(cpe):
        q, t = t01.qr_tables(A, 3)
        kw = dict(cpe_nets(A, A), cpe_optimizer=sgd(LR)) if cpe else {}
        return QRDQNTrainer(Tab(t01.flat(q), (A, 3)), Tab(t01.flat(t), (A, 3)), actions=acts, rl=rl(), num_atoms=3, optimizer=sgd(LR), evaluation=ev(cpe), **kw, **EXTRA)

    def c51():
        q, t = t01.c51_tables(A, 3)
        mk = lambda w: CategoricalDQN(Tab(t01.flat(w), (A, 3)), qmin=-2.0, qmax=2.0, num_atoms=3)
        return C51Trainer(mk(q), mk(t), actions=acts, rl=rl(), num_atoms=3, qmin=-2.0, qmax=2.0, optimizer=sgd(LR), **EXTRA)

    for c in (False, True):
        out["dqn-cpe%d" % c] = ((lambda c=c: dqn(c)), (lambda n: discrete_batches(A, n)), none)
        out["qr-cpe%d" % c] = ((lambda c=c: qr(c)), (lambda n: discrete_batches(A, n)), none)
    out["c51"] = (c51, (lambda n: discrete_batches(A, n)), none)
    out["parametric"] = (
        lambda: ParametricDQNTrainer(TabSA(t02.Q), TabSA(t02.T), t02.TabReward(t02.R, 1), rl=rl(), optimizer=sgd(LR), **EXTRA), parametric_batches, none)
    out["slateq"] = (
        lambda: SlateQTrainer(TabSA(t02.Q), TabSA(t02.T), rl=RLParameters(**{**dict(gamma=0.9, target_update_rate=TAU), **OVERRIDE, **dict(maxq_learning=False)}), optimizer=sgd(LR), **EXTRA),
        slate_batches, none)

    def sac(value, q2_, alpha, crr):
        D = 2
        return SACTrainer(
            t03.ActorNet(t03.MU, [-1.2, 2.0, 0.8]), t03.qnet(t03.Q1, D), t03.qnet(t03.Q2, D) if q2_ else None, t03.VNet(t03.V0) if value else None,
            rl=rl(), q_network_optimizer=sgd(LR), value_network_optimizer=sgd(LR), actor_network_optimizer=sgd(LR),
            alpha_optimizer=sgd(LR) if alpha else None, entropy_temperature=0.5, target_entropy=-0.7, crr_config=CRRWeightFn(exponent_beta=0.7) if crr else None, **EXTRA)

    for v in (0, 1):
        for q in (0, 1):
            for a in (0, 1):
                for c in (0, 1) if v else (0,):
                    out["sac-v%d-q%d-a%d-c%d" % (v, q, a, c)] = ((lambda v=v, q=q, a=a, c=c: sac(v, q, a, c)), (lambda n: policy_batches(2, n)), none)

    def td3(q2_, d):
        return TD3Trainer(
            t03.ActorNet(t03.MU, t03.CC), t03.qnet(t03.Q1, 2), t03.qnet(t03.Q2, 2) if q2_ else None, rl=rl(), q_network_optimizer=sgd(LR),
            actor_network_optimizer=sgd(LR), noise_variance=0.0, delayed_policy_update=d, **EXTRA)

    for q in (0, 1):
        for d in (1, 2, 3):
            out["td3-q%d-d%d" % (q, d)] = (
                (lambda q=q, d=d: td3(q, d)), (lambda n: policy_batches(2, n)), (lambda k, q=q, d=d: set() if k % d == 0 else {1 + q, 2 + q}))

    def crr(q2_, d, cpe):
        kw = cpe_nets(3, 3) if cpe else dict(reward_network=None)
        return DiscreteCRRTrainer(
            t03.ActTab(t03.AC), Tab(t03.QA), q2_network=Tab(t03.QB) if q2_ else None, actions=["x", "y", "z"], evaluation=ev(cpe), rl=rl(),
            q_network_optimizer=sgd(LR), actor_network_optimizer=sgd(LR), delayed_policy_update=d, **kw, **EXTRA)

    for q in (0, 1):
        for d in (1, 2, 3):
            for c in (False, True):
                out["crr-q%d-d%d-c%d" % (q, d, c)] = (
                    (lambda q=q, d=d, c=c: crr(q, d, c)), (lambda n: discrete_batches(3, n)),
                    (lambda k, q=q, d=d, c=c: set() if k % d == 0 else {1 + q, 2 + q + 2 * c}))
    return out


def gen_step(tr, batch, batch_idx, opts, stop_at=None):
    """the reference protocol, on the trainer's own loss generator: the i-th loss goes to the i-th optimizer"""
    gen = tr.train_step_gen(batch, batch_idx)
    for i, opt in enumerate(opts):
        if i == stop_at:
            return
        for p in tr.parameters():
            p.requires_grad = False
        for g in opt.param_groups:
            for p in g["params"]:
                p.requires_grad = True
        loss = next(gen)
        if loss is None:
            continue
        if type(opt).__name__ == "SoftUpdate":
            ps = opt.param_groups[0]["params"]
            n = len(ps) // 2
            with torch.no_grad():
                for t, s in zip(ps[:n], ps[n:]):
                    if t is not s:
                        t.copy_(TAU * s + (1 - TAU) * t)
        else:
            own = [p for g in opt.param_groups for p in g["params"]]
            gr = torch.autograd.grad(loss.sum(), own, allow_unused=True)
            with torch.no_grad():
                for p, g in zip(own, gr):
                    if g is not None:
                        p -= LR * g


def owned(tr, opt):
    """names of the parameters this optimizer may change"""
    ps = [p for g in opt.param_groups for p in g["params"]]
    if type(opt).__name__ == "SoftUpdate":
        ps = ps[: len(ps) // 2]
    ids = {id(p) for p in ps}
    return {n for n, p in tr.named_parameters() if id(p) in ids}


def snap(tr):
    return {n: p.detach().clone() for n, p in tr.named_parameters()}


def changed(a, b):
    return {n for n in a if not torch.equal(a[n], b[n])}


# ------------------------------------------------------------------ history: what a batch yields does not depend on the batches before it
SIZES = (3, 1, 3, 2)


def sized_batches(name):
    fam = name.split("-")[0]
    if fam in ("dqn", "qr", "c51", "crr"):
        A = 3 if fam == "crr" else 2
        rows = [r for r in t01.transitions(A, True) if r[7]]
        return [t01.batch_of([rows[(11 * i + 5 * j + 2) % len(rows)] for j in range(m)], A) for i, m in enumerate(SIZES)]
    if fam in ("sac", "td3"):
        bs = t03.batches(2)
        return [t03.make_batch([r for q in range(3) for r in bs[(7 * i + 6 + q) % len(bs)]][:m]) for i, m in enumerate(SIZES)]
    if fam == "parametric":
        rows = t02.p_rows()
        return [t02.p_batch([rows[(13 * i + 7 * j) % len(rows)] for j in range(m)], torch.float32, 0) for i, m in enumerate(SIZES)]
    rows = t02.sq_rows(2)
    return [t02.sq_batch([rows[(13 * i + 7 * j) % len(rows)] for j in range(m)]) for i, m in enumerate(SIZES)]


def history_variants(name):
    fam = name.split("-")[0]
    yield {}, {}
    if fam in ("dqn", "qr", "c51", "parametric", "crr"):
        for d in (dict(multi_steps=3), dict(use_seq_num_diff_as_time_diff=True)):
            if fam != "crr":
                yield d, {}
        yield dict(maxq_learning=False), {}
    if fam in ("dqn", "qr", "c51"):
        yield dict(reward_boost={"a": 0.5, "b": -1.0}), dict(double_q_learning=False)
    if fam == "slateq":
        yield {}, dict(single_selection=False)


def history_group(fams, depth):
    """every sequence of at most `depth` batches of different sizes; the losses and reports of the last one are those of a fresh trainer"""
    import itertools

    from mc.core import close, expect, same, seed_all
    from mc.trainkit import attach

    def fn(ctx):
        for name, (make, _, _) in factories().items():
            if name.split("-")[0] not in fams:
                continue
            for vi, (rl_, kw) in enumerate(history_variants(name)):
                fresh = {}

                def go(seq):
                    OVERRIDE.clear(); OVERRIDE.update(rl_)
                    EXTRA.clear(); EXTRA.update(kw)
                    try:
                        tr = make()
                    finally:
                        OVERRIDE.clear(); EXTRA.clear()
                    spy = attach(tr)
                    before = snap(tr)
                    for i, k in seq:
                        seed_all(11)
                        del spy.logs[:]
                        losses = [None if x is None else x.detach().tolist() for x in tr.train_step_gen(sized_batches(name)[i], k)]
                        ctx.step()
                    expect(not changed(before, snap(tr)), "computing losses changed parameters")
                    return losses, [{a: (v.tolist() if torch.is_tensor(v) else v) for a, v in d.items()} for d in spy.logs]

                def case(prefix, last, k):
                    if (last, k) not in fresh:
                        fresh[last, k] = go([(last, k)])
                    got, reps = go([(i, 6) for i in prefix] + [(last, k)])
                    want, wreps = fresh[last, k]
                    same([x is None for x in got], [x is None for x in want], "which losses there are")
                    close([x for x in got if x is not None], [x for x in want if x is not None], "losses after other batches", rtol=1e-5, atol=1e-6)
                    same([sorted(d) for d in reps], [sorted(d) for d in wreps], "names reported")
                    for d, w in zip(reps, wreps):
                        for a in w:
                            close(d[a], w[a], "reported %s after other batches" % a, rtol=1e-5, atol=1e-6)
                    ctx.outcome(want)

                for n in range(1, depth):
                    for prefix in itertools.product(range(len(SIZES)), repeat=n):
                        for last in range(len(SIZES)):
                            ctx.state((name, vi, prefix, last))
                            ctx.run((name, vi, prefix, last), case, prefix, last, 0 if last % 2 else 6)
    return fn

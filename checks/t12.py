"""T12: what the trainers report about a batch is what they computed for it."""
import copy
import itertools
import logging
import math

import torch

from mc import trainers
from mc.core import close, expect, same
from mc.trainkit import attach, col

from reagent.tensorboardX import SummaryWriterContext
from reagent.workflow.reporters.actor_critic_reporter import ActorCriticReporter
from reagent.workflow.reporters.discrete_crr_reporter import DiscreteCRRReporter
from reagent.workflow.reporters.discrete_dqn_reporter import DiscreteDQNReporter
from reagent.workflow.reporters.parametric_dqn_reporter import ParametricDQNReporter
from reagent.workflow.reporters.sac_reporter import SACReporter
from reagent.workflow.reporters.slate_q_reporter import SlateQReporter
from reagent.workflow.reporters.td3_reporter import TD3Reporter

logging.getLogger("reagent").setLevel(logging.CRITICAL)

LEVEL = "model_checking"
RULE = (
    "every trainer configuration (critics, CPE, value network, temperature, delay, learning mode, reward boost, ...) x every reporting interval of the Lightning trainer "
    "(1-3) x every batch of a bounded set x every batch number 0-5: one pass of the step generator, the set of reported names and every reported value against "
    "formulas over the initial networks; then every configuration with its own reporter over every sequence of up to three (four) batches and epoch ends. "
    "Non-trivial: everything. Oracle: formulas written here, over copies of the networks"
)
ASSUMPTIONS = [
    "the generator is run without applying the yielded losses, so that 'the value of the network' has one meaning throughout the step",
    "tabular networks; noise is replaced by a constant in the actor and switched off in TD3",
]

AN = {"crr": ["x", "y", "z"]}


def pick(values, allowed):
    """index of the best allowed entry, first one on ties, as a column"""
    out = []
    for v, m in zip(values.tolist(), allowed.tolist()):
        js = [j for j in range(len(v)) if m[j] > 0]
        out.append([max(js, key=lambda j: (v[j], -j))])
    return out


def soft(values, allowed, temperature):
    out = []
    for v, m in zip(values.tolist(), allowed.tolist()):
        w = [math.exp(x / temperature) if ok > 0 else 0.0 for x, ok in zip(v, m)]
        out.append([x / sum(w) for x in w])
    return out


def discrete(o, tr, b, q, losses, cpe_at):
    """what all trainers with a finite action set report; q: value of every action"""
    actions = b.action.argmax(1, keepdim=True)
    allowed = b.possible_actions_mask if o["maxq"] else b.action
    boost = torch.tensor([[o["boost"].get(a, 0.0) for a in o["names"]]])
    out = dict(
        td_loss=losses[0], logged_actions=actions, logged_propensities=b.extras.action_probability,
        logged_rewards=b.reward + boost.gather(1, actions.T).T, model_values=q, model_action_idxs=pick(q, allowed))
    if cpe_at is not None:
        A = len(o["names"])
        out.update(reward_loss=losses[cpe_at], model_propensities=soft(q, allowed, o["temp"]), model_rewards=tr.reward_network(b.state)[:, :A])
    return out


def ref_dqn(o, tr, b, k, losses):
    return discrete(o, tr, b, tr.q_network(b.state), losses, 1 if o["cpe"] else None)


def ref_qr(o, tr, b, k, losses):
    return discrete(o, tr, b, tr.q_network(b.state).mean(2), losses, 1 if o["cpe"] else None)


def ref_c51(o, tr, b, k, losses):
    if k % o["every"]:
        return {}
    z = torch.linspace(-2.0, 2.0, 3)
    q = (torch.softmax(tr.q_network.distributional_network(b.state), 2) * z).sum(2)
    return discrete(o, tr, b, q, losses, None)


def ref_crr(o, tr, b, k, losses):
    q1 = tr.q1_network(b.state)
    at = 2 + o["q2"]
    out = discrete(o, tr, b, q1, losses, at if o["cpe"] else None)
    if k % o["every"]:
        return out
    pi = torch.softmax((tr.actor_network_target if o["target_actor"] else tr.actor_network)(b.next_state).action, 1)
    v = (tr.q1_network_target(b.next_state) * pi).sum(1, keepdim=True)
    if o["q2"]:
        v = torch.min(v, (tr.q2_network_target(b.next_state) * pi).sum(1, keepdim=True))
        out.update(q2_loss=losses[1], q2_value=(tr.q2_network(b.state) * b.action).sum(1, keepdim=True))
    out.update(
        q1_loss=losses[0], q1_value=(q1 * b.action).sum(1, keepdim=True), next_q_value=v,
        target_q_value=torch.tensor(to_list(out["logged_rewards"])) + 0.9 * b.not_terminal * v)
    if k % o["delay"] == 0:
        out.update(actor_loss=losses[1 + o["q2"]], actor_q1_value=(q1 * torch.softmax(tr.actor_network(b.state).action, 1)).sum(1, keepdim=True))
    return out


def to_list(x):
    return x.tolist() if torch.is_tensor(x) else x


def ref_parametric(o, tr, b, k, losses):
    return dict(td_loss=losses[0], reward_loss=losses[1], logged_rewards=b.reward, model_values_on_logged_actions=tr.q_network(b.state, b.action))


def ref_slateq(o, tr, b, k, losses):
    rows = []
    for i in range(b.reward.shape[0]):
        q = []
        for d in b.action[i].tolist():
            s = b.state.float_features[i]
            q.append(float(s @ tr.q_network.w @ b.state.candidate_docs.float_features[i, d]))
        rows.append(q)
    if o["single"]:
        v = [x for q, m in zip(rows, b.reward_mask.tolist()) for x, ok in zip(q, m) if ok]
    else:
        v = [[sum(q)] for q in rows]
    return dict(td_loss=losses[0], model_values_on_logged_actions=v)


def ref_sac(o, tr, b, k, losses):
    q = tr.q1_network(b.state, b.action)
    out = dict(td_loss=losses[0], logged_rewards=b.reward, model_values_on_logged_actions=q)
    if k % o["every"]:
        return out
    import reagent.types as rlt

    act = tr.actor_network(b.state)
    mine = rlt.FeatureData(act.action)
    mq = tr.q1_network(b.state, mine)
    if o["q2"]:
        mq = torch.min(mq, tr.q2_network(b.state, mine))
    if o["value"]:
        nv = tr.value_network_target(b.next_state.float_features)
        lp = torch.zeros_like(mq) if o["uniform"] else act.log_prob.clamp(-20, 20)
        out["target_state_value"] = mq - 0.5 * lp
    else:
        na = tr.actor_network(b.next_state)
        nxt = rlt.FeatureData(na.action)
        nv = tr.q1_network_target(b.next_state, nxt)
        if o["q2"]:
            nv = torch.min(nv, tr.q2_network_target(b.next_state, nxt))
        lp = na.log_prob.clamp(-20, 20)
        nv = nv - 0.5 * lp
    if o["crr"]:
        adv = mq - tr.value_network(b.state.float_features)
        al = -act.log_prob * torch.exp(adv / 0.7)
    else:
        al = 0.5 * act.log_prob - mq
    out.update(
        q1_value=q, entropy_temperature=[0.5] if o["alpha"] else 0.5, log_prob_a=lp, next_state_value=nv, target_q_value=b.reward + 0.9 * b.not_terminal * nv, min_q_actor_value=mq,
        actor_output_log_prob=act.log_prob, actor_loss=al)
    if o["q2"]:
        out["q2_value"] = tr.q2_network(b.state, b.action)
    if o["kld"]:
        x = act.squashed_mean if o["on_mean"] else act.action
        m, v = x.mean(0), ((x - x.mean(0)) ** 2).sum(0) / (x.shape[0] - 1)
        em, ev = torch.tensor(EM), torch.tensor(EV)
        out.update(action_batch_mean=m, action_batch_var=v, kld=0.5 * sum(float((v[i] + (m[i] - em[i]) ** 2) / ev[i] - 1 + ev[i].log() - v[i].log()) for i in range(2)))
    return out


EM, EV = [0.2, -0.1], [0.3, 0.6]


def ref_td3(o, tr, b, k, losses):
    if k % o["every"]:
        return {}
    import reagent.types as rlt

    a2 = rlt.FeatureData(tr.actor_network_target(b.next_state).action.clamp(-1, 1))
    nv = tr.q1_network_target(b.next_state, a2)
    out = dict(q1_loss=losses[0], q1_value=tr.q1_network(b.state, b.action))
    if o["q2"]:
        nv = torch.min(nv, tr.q2_network_target(b.next_state, a2))
        out.update(q2_loss=losses[1], q2_value=tr.q2_network(b.state, b.action))
    out.update(next_q_value=nv, target_q_value=b.reward + 0.9 * b.not_terminal * nv)
    if k % o["delay"] == 0:
        out.update(actor_loss=losses[1 + o["q2"]], actor_q1_value=tr.q1_network(b.state, rlt.FeatureData(tr.actor_network(b.state).action)))
    return out


REFS = dict(dqn=ref_dqn, qr=ref_qr, c51=ref_c51, crr=ref_crr, parametric=ref_parametric, slateq=ref_slateq, sac=ref_sac, td3=ref_td3)
# families that also report the loss to Lightning: on every step, or (c51) on the reporting schedule
LIGHTNING = dict(c51="every", crr="always", slateq="always", sac="always", td3="always")


def flat(x):
    return torch.as_tensor(x, dtype=torch.float64).reshape(-1)


def flag(name, f):
    """'...-q1-...' -> 1"""
    for p in name.split("-")[1:]:
        if p[: len(f)] == f and p[len(f):].isdigit():
            return int(p[len(f):])
    return 0


def variants(name):
    """(options, overrides of the RL parameters, further arguments)"""
    fam = name.split("-")[0]
    o = dict(fam=fam, maxq=True, boost={}, temp=0.01, names=AN.get(fam, ["a", "b"]), q2=flag(name, "q"), delay=flag(name, "d") or 1, every=1, single=True,
             metrics=0, value=flag(name, "v"), alpha=flag(name, "a"), target_actor=False, crr=flag(name, "c") if fam == "sac" else 0, uniform=True, kld=False, on_mean=False,
             cpe=flag(name, "cpe") or (flag(name, "c") if fam == "crr" else 0))
    if fam in ("dqn", "qr", "c51", "crr"):
        for maxq in (True, False):
            for boost in ({}, {o["names"][0]: 0.5, o["names"][-1]: -1.5}):
                for temp in (1.0, 0.35):
                    yield dict(o, maxq=maxq, boost=boost, temp=temp), dict(maxq_learning=maxq, reward_boost=boost or None, temperature=temp), {}
        if o["cpe"]:
            yield dict(o, metrics=1, temp=1.0), dict(temperature=1.0), dict(metrics_to_score=["clicks"])
        if fam == "crr":
            yield dict(o, target_actor=True, temp=1.0), dict(temperature=1.0), dict(use_target_actor=True)
    elif fam == "slateq":
        for single in (True, False):
            yield dict(o, single=single), {}, dict(single_selection=single)
    elif fam == "sac":
        for uniform in (True, False) if o["value"] else (True,):
            yield dict(o, uniform=uniform), {}, dict(logged_action_uniform_prior=uniform)
        for on_mean in (False, True):
            kw = dict(action_embedding_kld_weight=0.3, action_embedding_mean=EM, action_embedding_variance=EV, apply_kld_on_mean=on_mean)
            yield dict(o, kld=True, on_mean=on_mean), {}, kw
    else:
        yield o, {}, {}


def build(make, rl, kw):
    trainers.OVERRIDE.clear(); trainers.OVERRIDE.update(rl)
    trainers.EXTRA.clear(); trainers.EXTRA.update(kw)
    try:
        tr = make()
        with torch.no_grad():
            for n, p in tr.named_parameters():
                if "_target" in n:  # tell the copies apart from their sources
                    p += 0.1 * torch.arange(1, p.numel() + 1).reshape(p.shape).remainder(4)
        return tr
    finally:
        trainers.OVERRIDE.clear(); trainers.EXTRA.clear()


def prepare(o, b):
    """a batch with distinguishable propensities, and metrics if the trainer scores them"""
    if o["metrics"]:
        b.extras.metrics = b.reward * 3 + 1
    if b.extras.action_probability is not None:
        n = b.reward.shape[0]
        b.extras.action_probability = col([0.25 + 0.125 * i for i in range(n)])
    return b


def exhaust(tr, b, k):
    """the losses, in order (the last item is the marker of the soft update)"""
    return [None if x is None else x.detach().clone() for x in tr.train_step_gen(b, k)]


def one_pass(name, nbatch):
    def fn(ctx):
        make, batches, _ = trainers.factories()[name]
        for vi, (o, rl, kw) in enumerate(variants(name)):
            for bi in range(nbatch):
                for every, k in itertools.product((1, 2, 3), range(6)):
                    if vi and every == 3:
                        continue

                    def case():
                        tr = build(make, rl, kw)
                        spy = attach(tr)
                        tr.trainer.log_every_n_steps = every
                        b = prepare(o, batches(bi + 1)[bi])
                        before = {n: p.detach().clone() for n, p in tr.named_parameters()}
                        losses = exhaust(tr, b, k)
                        got = {}
                        for d in spy.logs:
                            for key, v in d.items():
                                expect(key not in got, "%s is reported twice", key)
                                got[key] = v
                        for n, p in tr.named_parameters():
                            expect(torch.equal(p, before[n]), "running the generator changed %s", n)
                        with torch.no_grad():
                            want = REFS[o["fam"]](dict(o, every=every), tr, b, k, losses)
                        same(sorted(got), sorted(want), "names reported at batch %d, every %d" % (k, every))
                        for key, w in want.items():
                            if w is not None:
                                close(flat(got[key]), flat(w), key)  # the reporters flatten; their own group judges the shapes
                        mode = LIGHTNING.get(o["fam"])
                        n = 0 if mode is None or (mode == "every" and k % every) else 1
                        close(spy.lightning, [("td_loss", losses[0])] * n, "Lightning's log")
                        ctx.outcome({a: to_list(v) for a, v in got.items()})
                    ctx.state((vi, bi, every, k)); ctx.step()
                    ctx.run((vi, bi, every, k), case)
    return fn


def reporter_of(fam, iv):
    A = AN.get(fam, ["a", "b"])
    return dict(
        dqn=lambda: DiscreteDQNReporter(A, report_interval=iv), qr=lambda: DiscreteDQNReporter(A, report_interval=iv), c51=lambda: DiscreteDQNReporter(A, report_interval=iv),
        crr=lambda: DiscreteCRRReporter(A, report_interval=iv), parametric=lambda: ParametricDQNReporter(report_interval=iv),
        slateq=lambda: SlateQReporter(report_interval=iv), sac=lambda: SACReporter(report_interval=iv), td3=lambda: TD3Reporter(report_interval=iv))[fam]()


def with_reporter(names, depth):
    """the trainer with its own reporter: batches ('0', '1') and epoch ends ('e') in every order"""
    def fn(ctx):
        for name in names:
            make, batches, _ = trainers.factories()[name]
            fam = name.split("-")[0]
            vs = list(variants(name))
            for vi in sorted({0, len(vs) - 1}):
                o, rl, kw = vs[vi]
                for iv in (1, 2, 3):
                    for n in range(1, depth + 1):
                        for seq in itertools.product("01e", repeat=n):
                            if iv > n and n < depth:
                                continue

                            def case():
                                SummaryWriterContext._reset_globals()
                                tr = build(make, rl, kw)
                                attach(tr)
                                rep = reporter_of(fam, iv)
                                tr.set_reporter(rep)
                                bs = [prepare(o, b) for b in batches(2)]
                                chunks, buf, cnt, k = [], [], 0, 0
                                for c in seq:
                                    if c == "e":
                                        rep.flush(k)
                                        chunks += [buf] if buf else []
                                        buf, cnt = [], 0
                                        continue
                                    loss = exhaust(tr, bs[int(c)], k)[0]
                                    k += 1
                                    b, disc = bs[int(c)], fam in ("dqn", "qr", "c51", "crr")
                                    with torch.no_grad():
                                        mine = REFS[fam](o, tr, b, k, [loss] * 9)["model_action_idxs"] if disc else None
                                    buf.append((float(loss), to_list(b.reward), to_list(b.action) if disc else None, mine))
                                    cnt += 1
                                    if cnt % iv == 0:
                                        chunks.append(buf); buf = []
                                # TD3 gives its reporter the losses of the networks, none of them as "td_loss"
                                close(rep.td_loss.values, [] if fam == "td3" else [sum(x[0] for x in c) / len(c) for c in chunks], "mean loss per report")
                                if fam not in ("td3", "slateq") and not o["boost"]:
                                    close(list(rep.recent_rewards.values), [r for c in chunks for x in c for row in x[1] for r in row], "recent rewards")
                                if fam in ("dqn", "qr", "c51", "crr"):
                                    for j, a in enumerate(o["names"]):
                                        same(rep.logged_action.values[a], [sum(int(row[j]) for x in c for row in x[2]) for c in chunks], "logged actions " + a)
                                        same(rep.model_action.values[a], [sum(row == [j] for x in c for row in x[3]) for c in chunks], "actions of the model " + a)
                                SummaryWriterContext._reset_globals()
                                ctx.outcome((name, rep.td_loss.values))
                            ctx.state((name, vi, iv, seq)); ctx.step(n)
                            ctx.run((name, vi, iv, "".join(seq)), case)
    return fn


def groups(tier):
    big = tier == "thorough"
    names = sorted(trainers.factories())
    out = [("pass-" + n, one_pass(n, 12 if big else 3)) for n in names]
    fams = {}
    for n in names:
        fams.setdefault(n.split("-")[0], []).append(n)
    return out + [("reporter-" + f, with_reporter(ns, 4 if big else 3)) for f, ns in sorted(fams.items())]

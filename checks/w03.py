"""W03: model managers assemble exactly the configured training run."""
import contextlib
import copy
import dataclasses
import itertools
import math

from mc import prep_ref, sparkstub

sparkstub.install()

import numpy as np
import torch
import torch.nn.functional as F

import reagent.training as training_pkg
import reagent.types as rlt
from mc.core import close, expect, raises, same
from mc.trainkit import attach, col, one_step, sgd
from reagent.evaluation.evaluator import get_metrics_to_score
from reagent.models.model_feature_config_provider import RawModelFeatureConfigProvider
from reagent.net_builder import categorical_dqn, continuous_actor, discrete_actor, discrete_dqn, parametric_dqn, quantile_dqn, unions, value
from reagent.parameters import (
    CEMTrainerParameters, EvaluationParameters, MDNRNNTrainerParameters, NormalizationData, NormalizationParameters as NP, RLParameters, Seq2RewardTrainerParameters)
from reagent.tensorboardX import SummaryWriterContext
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.workflow.model_managers.actor_critic.sac import SAC
from reagent.workflow.model_managers.actor_critic.td3 import TD3
from reagent.workflow.model_managers.discrete import DiscreteC51DQN, DiscreteCRR, DiscreteDQN, DiscreteQRDQN
from reagent.workflow.model_managers.model_based import CrossEntropyMethod, Seq2RewardModel, WorldModel
from reagent.workflow.model_managers.parametric.parametric_dqn import ParametricDQN
from reagent.workflow.model_managers.ranking.slate_q import SlateQ
from reagent.workflow.types import PreprocessingOptions, RewardOptions

LEVEL = "exploration"
RULE = (
    "every manager x every combination of action count, metrics, evaluation switch, second critic, value network, network builder and feature "
    "types, each trainer option alone at a value other than its default and all together; the built trainer and one made by hand from copies "
    "of its networks and the written options take the same steps on the same batches; serving modules and policies before and after training "
    "on all feature rows and score orders; a case is non-trivial when parameters moved or decisions differed"
)
ASSUMPTIONS = ["trainers and predictors by themselves are judged in T01-T09 and S01", "float32 tolerance", "gradient steps by plain gradient descent where the optimizer isn't the option under test"]

T = training_pkg
NORMS = {
    "cont": {3: NP(feature_type="CONTINUOUS", mean=1.0, stddev=2.0), 1: NP(feature_type="CONTINUOUS", mean=-0.5, stddev=0.5)},
    "mixed": {7: NP(feature_type="ENUM", possible_values=[5, 1, 9]), 2: NP(feature_type="BINARY"), 1: NP(feature_type="PROBABILITY")},
}
ROWS = {"cont": [[-0.5, 1.0], [0.0, 3.0], [2.0, -1.0], [-3.0, 0.5]], "mixed": [[0.0, 0.3, 5], [2.0, 0.9, 1], [0.0, 0.5, 9], [1.0, 0.1, 3]]}
ANORM = {9: NP(feature_type="CONTINUOUS_ACTION", min_value=-2.0, max_value=4.0), 4: NP(feature_type="CONTINUOUS_ACTION", min_value=0.0, max_value=1.0)}
ONEHOT = {0: NP(feature_type="DO_NOT_PREPROCESS"), 1: NP(feature_type="DO_NOT_PREPROCESS"), 2: NP(feature_type="DO_NOT_PREPROCESS")}


def nd(params):
    return NormalizationData(dense_normalization_parameters=params)


def dim(params):
    return sum(len(p.possible_values) if p.feature_type == "ENUM" else 1 for p in params.values())


def pre(params, row, presence=None):
    feats = prep_ref.order_features(params)
    return prep_ref.row(params, dict(zip(feats, row)), {f: True for f in feats} if presence is None else dict(zip(feats, presence)))


def features(norm, idx):
    return torch.tensor([pre(NORMS[norm], ROWS[norm][i % len(ROWS[norm])]) for i in idx], dtype=torch.float32)


def raw(norm, idx):
    v = torch.tensor([[float(x) for x in ROWS[norm][i % len(ROWS[norm])]] for i in idx])
    return v, torch.ones_like(v)


def fd(x):
    return rlt.FeatureData(x)


def wobble(nets, k=0):
    """weights of no particular structure, the same on every run"""
    g = np.random.RandomState(7 + k)
    with torch.no_grad():
        for n in nets:
            for p in n.parameters():
                p.copy_(torch.tensor(g.normal(size=tuple(p.shape)) * 0.7, dtype=torch.float32))


def networks(tr):
    return {n: m for n, m in tr.named_children() if isinstance(m, torch.nn.Module) and len(list(m.parameters()))}


def params_of(tr):
    return {k: v.detach().clone() for k, v in tr.state_dict().items() if "stop" not in k}


def start(mgr, norms, metrics=None, gpu=False):
    torch.manual_seed(3)
    SummaryWriterContext._reset_globals()
    return mgr.initialize_trainer(gpu, RewardOptions(metric_reward_values=metrics), norms)


# -- batches -------------------------------------------------------------------------------------
def f(k, n, c):
    return torch.tensor([[((k * 7 + 3 * i + 5 * j) % 11 - 5) / 5.0 for j in range(c)] for i in range(n)])


def discrete_batch(norm, A, metrics=0, k=0, n=4):
    eye = torch.eye(A)
    a = [(i + k) % A for i in range(n)]
    return rlt.DiscreteDqnInput(
        state=fd(features(norm, range(k, k + n))), next_state=fd(features(norm, range(k + 1, k + 1 + n))), reward=f(k + 2, n, 1) * 3, time_diff=torch.tensor([[1.0], [2.0], [3.0], [1.0]])[:n],
        step=torch.tensor([[1], [2], [2], [1]])[:n], not_terminal=torch.tensor([[1.0], [0.0], [1.0], [1.0]])[:n], action=eye[a], next_action=eye[[(x + 1) % A for x in a]],
        possible_actions_mask=torch.ones(n, A), possible_next_actions_mask=torch.ones(n, A).index_put((torch.tensor([1]), torch.tensor([0])), torch.tensor(0.0)),
        extras=rlt.ExtraData(mdp_id=torch.zeros(n, 1, dtype=torch.long), sequence_number=torch.arange(n).reshape(-1, 1), action_probability=torch.full((n, 1), 0.5), metrics=f(k + 5, n, metrics) if metrics else torch.zeros(n, 0)))


def actor_batch(norm, k=0, n=4):
    act = lambda j: fd(f(k + j, n, 2) * 0.9)
    return rlt.PolicyNetworkInput(
        state=fd(features(norm, range(k, k + n))), next_state=fd(features(norm, range(k + 1, k + 1 + n))), reward=f(k + 2, n, 1) * 3, time_diff=torch.tensor([[1.0], [2.0], [3.0], [1.0]])[:n], step=None,
        not_terminal=torch.tensor([[1.0], [0.0], [1.0], [1.0]])[:n], action=act(0), next_action=act(1), extras=rlt.ExtraData(action_probability=torch.full((n, 1), 0.5)))


def parametric_batch(norm, A, k=0, n=4, metrics=0):
    eye = torch.eye(A)
    a = [(i + k) % A for i in range(n)]
    return rlt.ParametricDqnInput(
        state=fd(features(norm, range(k, k + n))), next_state=fd(features(norm, range(k + 1, k + 1 + n))), reward=f(k + 2, n, 1) * 3, time_diff=torch.tensor([[1.0], [2.0], [3.0], [1.0]])[:n], step=torch.tensor([[1], [2], [2], [1]])[:n],
        not_terminal=torch.tensor([[1.0], [0.0], [1.0], [1.0]])[:n], action=fd(eye[a]), next_action=fd(eye[[(x + 1) % A for x in a]]), possible_actions=fd(eye.repeat(n, 1)), possible_actions_mask=torch.ones(n, A),
        possible_next_actions=fd(eye.repeat(n, 1)), possible_next_actions_mask=torch.ones(n, A), extras=rlt.ExtraData(metrics=f(k + 5, n, metrics) if metrics else None))


def train(tr, batches, seed):
    attach(tr)
    tr.train()
    opts = tr.configure_optimizers()
    opts = [o["optimizer"] if isinstance(o, dict) else o for o in opts]
    out = []
    for i, b in enumerate(batches):
        torch.manual_seed(seed + i)
        out.append(one_step(tr, b, i, opts))
    return out


def agree(built, by_hand, batches, ctx):
    """the trainer the manager built behaves like one made by hand"""
    by_hand.load_state_dict(built.state_dict())
    before = params_of(built)
    la, lb = train(built, batches, 11), train(by_hand, batches, 11)
    a, b = params_of(built), params_of(by_hand)
    same(sorted(a), sorted(b), "state")
    for x, y in zip(la, lb):
        same(len(x), len(y), "losses per step")
        for p, q in zip(x, y):
            if isinstance(p, float) and isinstance(q, float):
                close(p, q, "loss of the built trainer")
            else:
                same(p, q, "loss of the built trainer")
    for key in b:
        close(a[key], b[key], "%s after training" % key)
    expect(any(not torch.equal(before[k], a[k]) for k in a), "nothing was trained")
    ctx.step(2 * len(batches))


def distinct(nets, what):
    seen = {}
    for name, net in nets:
        for p in net.parameters():
            expect(id(p) not in seen or seen[id(p)] == name, "%s: %s and %s share parameters", what, name, seen.get(id(p)))
            seen[id(p)] = name


def equal_nets(a, b, what):
    sa, sb = a.state_dict(), b.state_dict()
    same(sorted(sa), sorted(sb), what)
    for k in sa:
        expect(torch.equal(sa[k], sb[k]), "%s: %s differs", what, k)


# -- discrete managers ---------------------------------------------------------------------------
RL = dict(gamma=0.5, target_update_rate=0.25, maxq_learning=False, reward_boost={"b": 2.0, "a": -1.0}, q_network_loss="huber", time_diff_unit_length=2.0, use_seq_num_diff_as_time_diff=True, multi_steps=2)
# options that exist in RLParameters but steer other code than training
BASE_RL = dict(gamma=0.9, target_update_rate=0.5)
ACTS = ["b", "a", "c"]


def prov(norm):
    return unions_provider(RawModelFeatureConfigProvider(float_feature_infos=[rlt.FloatFeatureInfo(name="f%d" % i, feature_id=i) for i in NORMS[norm]]))


def unions_provider(p):
    from reagent.workflow.types import ModelFeatureConfigProvider__Union

    return ModelFeatureConfigProvider__Union(raw=p)


def d_builder(kind):
    D, Q, C, U = discrete_dqn, quantile_dqn, categorical_dqn, unions
    return {
        ("dqn", 0): U.DiscreteDQNNetBuilder__Union(FullyConnected=D.fully_connected.FullyConnected(sizes=[5], activations=["tanh"])),
        ("dqn", 1): U.DiscreteDQNNetBuilder__Union(Dueling=D.dueling.Dueling(sizes=[3, 4], activations=["relu", "tanh"])),
        ("c51", 0): U.CategoricalDQNNetBuilder__Union(Categorical=C.categorical.Categorical(sizes=[5], activations=["tanh"])),
        ("qr", 0): U.QRDQNNetBuilder__Union(Quantile=Q.quantile.Quantile(sizes=[5], activations=["tanh"])),
        ("qr", 1): U.QRDQNNetBuilder__Union(DuelingQuantile=Q.dueling_quantile.DuelingQuantile(sizes=[4, 4], activations=["relu", "tanh"])),
        ("crr", 0): U.DiscreteDQNNetBuilder__Union(FullyConnected=D.fully_connected.FullyConnected(sizes=[5], activations=["tanh"])),
        ("crr", 1): U.DiscreteDQNNetBuilder__Union(Dueling=D.dueling.Dueling(sizes=[3, 4], activations=["relu", "tanh"])),
    }.get(kind)


CLASSES = {"dqn": (DiscreteDQN, T.DQNTrainerParameters, T.DQNTrainer), "c51": (DiscreteC51DQN, T.C51TrainerParameters, T.C51Trainer),
           "qr": (DiscreteQRDQN, T.QRDQNTrainerParameters, T.QRDQNTrainer), "crr": (DiscreteCRR, T.CRRTrainerParameters, T.DiscreteCRRTrainer)}
OPTIONS = {
    "dqn": dict(double_q_learning=False, minibatch_size=8, minibatches_per_step=2, optimizer=lambda: sgd(0.3)),
    "c51": dict(double_q_learning=False, minibatch_size=8, minibatches_per_step=2, optimizer=lambda: sgd(0.3), num_atoms=5, qmin=-4, qmax=6),
    "qr": dict(double_q_learning=False, minibatch_size=8, minibatches_per_step=2, optimizer=lambda: sgd(0.3), cpe_optimizer=lambda: sgd(0.2), num_atoms=4),
    "crr": dict(double_q_learning=False, minibatch_size=8, minibatches_per_step=2, q_network_optimizer=lambda: sgd(0.3), actor_network_optimizer=lambda: sgd(0.2), use_target_actor=True, delayed_policy_update=2),
}
FIXED = {"dqn": dict(optimizer=lambda: sgd(0.1)), "c51": dict(optimizer=lambda: sgd(0.1), num_atoms=3, qmin=-2, qmax=3), "qr": dict(optimizer=lambda: sgd(0.1), cpe_optimizer=lambda: sgd(0.1), num_atoms=3),
         "crr": dict(q_network_optimizer=lambda: sgd(0.1), actor_network_optimizer=lambda: sgd(0.1))}


def made(d):
    return {k: v() if callable(v) else v for k, v in d.items()}


def choices(options, rl, fixed, big):
    """(name, trainer options, rl options): nothing, each alone, everything, and pairs in the thorough tier"""
    single = [("o", k) for k in options] + [("r", k) for k in rl]
    # the two ways to discount by time exclude each other
    ok = lambda p: not {("r", "multi_steps"), ("r", "use_seq_num_diff_as_time_diff")} <= set(p)
    all_ = [tuple(s for s in single if s[1] != x) for x in (("multi_steps", "use_seq_num_diff_as_time_diff") if "multi_steps" in rl else ("",))]
    picks = [()] + [(s,) for s in single] + all_
    if big:
        picks += [p for p in itertools.combinations(single, 2) if ok(p)]
    for p in picks:
        o = dict(fixed, **{k: options[k] for t, k in p if t == "o"})
        r = dict(BASE_RL, **{k: rl[k] for t, k in p if t == "r"})
        yield "+".join(k for _, k in p) if len(p) < 3 else "all" if p == all_[0] else "all-steps", o, r


def discrete_manager(kind, net, A, o, r, norm, cpe, **kw):
    M, P, _ = CLASSES[kind]
    nb = {"critic_net_builder" if kind == "crr" else "net_builder": d_builder((kind, net))}
    if kind == "crr":
        nb["actor_net_builder"] = unions.DiscreteActorNetBuilder__Union(FullyConnected=discrete_actor.fully_connected.FullyConnected(sizes=[5], activations=["tanh"]))
    if kind != "c51":
        nb["cpe_net_builder"] = d_builder(("dqn", 0))
    return M(trainer_param=P(actions=ACTS[:A], rl=RLParameters(**r), **made(o)), state_feature_config_provider=prov(norm), eval_parameters=EvaluationParameters(calc_cpe_in_training=cpe), **nb, **kw)


def by_hand_discrete(kind, tr, A, o, r, metrics, cpe):
    c = copy.deepcopy
    kw = made(o)
    kw.update(actions=ACTS[:A], rl=RLParameters(**r))
    ev = dict(metrics_to_score=sorted(metrics or {}), evaluation=EvaluationParameters(calc_cpe_in_training=cpe))
    if cpe and kind != "c51":
        ev.update(reward_network=c(tr.reward_network), q_network_cpe=c(tr.q_network_cpe), q_network_cpe_target=c(tr.q_network_cpe_target))
    elif kind != "c51":
        ev.update(reward_network=None)
    if kind == "crr":
        return T.DiscreteCRRTrainer(actor_network=c(tr.actor_network), q1_network=c(tr.q1_network), q2_network=c(tr.q2_network) if o.get("double_q_learning", True) else None, **ev, **kw)
    if kind == "c51":
        return T.C51Trainer(q_network=c(tr.q_network), q_network_target=c(tr.q_network_target), **kw)
    return CLASSES[kind][2](q_network=c(tr.q_network), q_network_target=c(tr.q_network_target), **ev, **kw)


METRICS = {0: None, 1: {"m": 1.0}, 2: {"z": 0.5, "b": 2.0}}


def discrete(kind, big):
    def fn(ctx):
        def case(net, A, name, o, r, norm, cpe, nm):
            mgr = discrete_manager(kind, net, A, o, r, norm, cpe)
            same(mgr.required_normalization_keys, ["state"], "required keys")
            same(mgr.action_names, ACTS[:A], "actions")
            same(mgr.multi_steps, r.get("multi_steps"), "steps")
            same(list(mgr.serving_module_names()), ["default_model", "dqn", "actor_dqn"] if kind == "crr" else ["default_model"], "serving modules")
            tr = start(mgr, {"state": nd(NORMS[norm])}, METRICS[nm])
            expect(mgr.trainer is tr, "the trainer of the manager")
            same(type(tr), CLASSES[kind][2], "trainer")
            same(mgr.use_gpu, False, "use_gpu")
            same(mgr.metrics_to_score, sorted(METRICS[nm] or {}), "metrics")
            d = dim(NORMS[norm])
            x = fd(features(norm, range(3)))
            cpe_nets = cpe and kind != "c51"
            nets = []
            if kind == "crr":
                same(list(tr.actor_network(x).action.shape), [3, A], "actor output")
                same(list(tr.q1_network(x).shape), [3, A], "critic output")
                expect((tr.q2_network is not None) == o.get("double_q_learning", True), "second critic")
                nets = [("actor", tr.actor_network), ("q1", tr.q1_network), ("actor target", tr.actor_network_target), ("q1 target", tr.q1_network_target)]
                equal_nets(tr.actor_network, tr.actor_network_target, "target actor")
                equal_nets(tr.q1_network, tr.q1_network_target, "target critic")
                if tr.q2_network is not None:
                    equal_nets(tr.q2_network, tr.q2_network_target, "second target critic")
                    nets += [("q2", tr.q2_network), ("q2 target", tr.q2_network_target)]
                    expect(not all(torch.equal(p, q) for p, q in zip(tr.q1_network.parameters(), tr.q2_network.parameters())), "the critics start out equal")
            else:
                shape = [3, A]
                q = tr.q_network(x)
                if kind == "c51":
                    same(list(tr.q_network.log_dist(x).shape), [3, A, o["num_atoms"]], "distributions")
                    close(tr.q_network.support, np.linspace(o["qmin"], o["qmax"], o["num_atoms"]), "support of the distributions")
                elif kind == "qr":
                    shape = [3, A, o["num_atoms"]]
                same(list(q.shape), shape, "network output")
                equal_nets(tr.q_network, tr.q_network_target, "target network")
                nets = [("online", tr.q_network), ("target", tr.q_network_target)]
            for _, n in nets:
                first = next(p for p in n.parameters() if p.dim() == 2)
                same(first.shape[1], d, "state features of the network")
            if cpe_nets:
                out = (nm + 1) * A
                for n in ("reward_network", "q_network_cpe", "q_network_cpe_target"):
                    same(list(getattr(tr, n)(x).shape), [3, out], "%s output" % n)
                    nets.append((n, getattr(tr, n)))
                equal_nets(tr.q_network_cpe, tr.q_network_cpe_target, "evaluation target")
                same(tr.metrics_to_score, sorted(METRICS[nm] or {}) + ["reward"], "metrics of the trainer")
            elif kind != "c51":
                same(getattr(tr, "reward_network", None), None, "reward network without evaluation")
            distinct(nets, "networks")
            wobble([n for _, n in nets], net)
            hand = by_hand_discrete(kind, tr, A, o, r, METRICS[nm], cpe)
            agree(tr, hand, [discrete_batch(norm, A, nm, k) for k in range(3)], ctx)

        for net in ((0,) if kind == "c51" else (0, 1)):
            for A in (2, 3):
                for norm in NORMS:
                    for cpe, nm in ((False, 0), (False, 2), (True, 0), (True, 1), (True, 2)):
                        full = (norm, A, cpe, nm) in (("cont", 2, False, 0), ("mixed", 3, True, 2))
                        for name, o, r in choices(OPTIONS[kind], RL, FIXED[kind], big and full):
                            if not full and name not in ("", "all", "all-steps", "double_q_learning"):
                                continue
                            ctx.state((kind, net, A, norm, cpe, nm, name))
                            ctx.run((kind, net, A, norm, "cpe" if cpe else "plain", nm, name), case, net, A, name, o, r, norm, cpe, nm)
    return fn


# -- actor-critic managers ----------------------------------------------------------------------
AC_OPTIONS = {
    "sac": dict(q_network_optimizer=lambda: sgd(0.3), value_network_optimizer=lambda: sgd(0.2), actor_network_optimizer=lambda: sgd(0.15), alpha_optimizer=lambda: sgd(0.25), minibatch_size=8, entropy_temperature=0.3,
                logged_action_uniform_prior=False, target_entropy=-0.5, backprop_through_log_prob=False),
    "td3": dict(q_network_optimizer=lambda: sgd(0.3), actor_network_optimizer=lambda: sgd(0.2), minibatch_size=8, noise_variance=0.7, noise_clip=0.1, delayed_policy_update=1, minibatches_per_step=2),
}
AC_FIXED = {
    "sac": dict(q_network_optimizer=lambda: sgd(0.1), value_network_optimizer=lambda: sgd(0.1), actor_network_optimizer=lambda: sgd(0.1), alpha_optimizer=lambda: sgd(0.1)),
    "td3": dict(q_network_optimizer=lambda: sgd(0.1), actor_network_optimizer=lambda: sgd(0.1)),
}
AC_RL = dict(gamma=0.5, target_update_rate=0.25)


def ac_builders(kind, a):
    CA, PD, U = continuous_actor, parametric_dqn, unions
    actor = {
        "gauss": lambda: U.ContinuousActorNetBuilder__Union(GaussianFullyConnected=CA.gaussian_fully_connected.GaussianFullyConnected(sizes=[4], activations=["tanh"])),
        "fc": lambda: U.ContinuousActorNetBuilder__Union(FullyConnected=CA.fully_connected.FullyConnected(sizes=[4], activations=["tanh"])),
        "dirichlet": lambda: U.ContinuousActorNetBuilder__Union(DirichletFullyConnected=CA.dirichlet_fully_connected.DirichletFullyConnected(sizes=[4], activations=["tanh"])),
    }[a]()
    return dict(actor_net_builder=actor, critic_net_builder=U.ParametricDQNNetBuilder__Union(FullyConnected=PD.fully_connected.FullyConnected(sizes=[5], activations=["tanh"])))


def ac_manager(kind, actor, o, r, norm, two=True, vnet=True, **kw):
    M, P = (SAC, T.SACTrainerParameters) if kind == "sac" else (TD3, T.TD3TrainerParameters)
    kw.update(ac_builders(kind, actor))
    if kind == "sac":
        kw["value_net_builder"] = unions.ValueNetBuilder__Union(FullyConnected=value.fully_connected.FullyConnected(sizes=[3], activations=["tanh"])) if vnet else None
    return M(trainer_param=P(rl=RLParameters(**r), **made(o)), use_2_q_functions=two, state_float_features=[(i, "s") for i in NORMS[norm]], action_float_features=[(i, "a") for i in ANORM],
             eval_parameters=EvaluationParameters(calc_cpe_in_training=False), **kw)


def actor_critic(kind, big):
    def fn(ctx):
        def case(actor, name, o, r, norm, two, vnet):
            mgr = ac_manager(kind, actor, o, r, norm, two, vnet)
            same(sorted(mgr.required_normalization_keys), ["action", "state"], "required keys")
            same(mgr.should_generate_eval_dataset, False, "evaluation data")
            tr = start(mgr, {"state": nd(NORMS[norm]), "action": nd(ANORM)})
            x = fd(features(norm, range(3)))
            same(list(tr.actor_network(x).action.shape), [3, 2], "actor output")
            same(list(tr.q1_network(x, fd(torch.zeros(3, 2))).shape), [3, 1], "critic output")
            expect((tr.q2_network is not None) == two, "second critic")
            nets = [("actor", tr.actor_network), ("q1", tr.q1_network)]
            if two:
                nets.append(("q2", tr.q2_network))
                expect(not all(torch.equal(p, q) for p, q in zip(tr.q1_network.parameters(), tr.q2_network.parameters())), "the critics start out equal")
            if kind == "sac":
                expect((tr.value_network is not None) == vnet, "value network")
                if vnet:
                    same(list(tr.value_network(features(norm, range(3))).shape), [3, 1], "value output")
                    nets.append(("value", tr.value_network))
            distinct(nets, "networks")
            c = copy.deepcopy
            kw = made(o)
            kw.update(rl=RLParameters(**r), actor_network=c(tr.actor_network), q1_network=c(tr.q1_network), q2_network=c(tr.q2_network) if two else None)
            if kind == "sac":
                kw["value_network"] = c(tr.value_network) if vnet else None
            hand = (T.SACTrainer if kind == "sac" else T.TD3Trainer)(**kw)
            agree(tr, hand, [actor_batch(norm, k) for k in range(4)], ctx)

        actors = ("gauss", "dirichlet") if kind == "sac" else ("fc",)
        for actor, norm, two, vnet in itertools.product(actors, NORMS, (True, False), (True, False) if kind == "sac" else (True,)):
            full = norm == "cont" and actor != "dirichlet"
            for name, o, r in choices(AC_OPTIONS[kind], AC_RL, AC_FIXED[kind], big and full):
                if not full and name not in ("", "all"):
                    continue
                ctx.state((kind, actor, norm, two, vnet, name))
                ctx.run((kind, actor, norm, "two" if two else "one", "value" if vnet else "no-value", name), case, actor, name, o, r, norm, two, vnet)
    return fn


# -- parametric and slate managers ----------------------------------------------------------------
def p_builder():
    return unions.ParametricDQNNetBuilder__Union(FullyConnected=parametric_dqn.fully_connected.FullyConnected(sizes=[5], activations=["tanh"]))


def parametric(big):
    def fn(ctx):
        opts = dict(double_q_learning=False, minibatch_size=8, minibatches_per_step=2, optimizer=lambda: sgd(0.3))
        rl = {k: RL[k] for k in ("gamma", "target_update_rate", "maxq_learning", "q_network_loss", "time_diff_unit_length", "use_seq_num_diff_as_time_diff", "multi_steps")}

        def case(norm, o, r, nm):
            mgr = ParametricDQN(trainer_param=T.ParametricDQNTrainerParameters(rl=RLParameters(**r), **made(o)), net_builder=p_builder(), state_float_features=[(i, "s") for i in NORMS[norm]], action_float_features=[(i, "a") for i in ONEHOT])
            same(sorted(mgr.required_normalization_keys), ["action", "state"], "required keys")
            tr = start(mgr, {"state": nd(NORMS[norm]), "action": nd(ONEHOT)}, METRICS[nm])
            x, a = fd(features(norm, range(3))), fd(torch.eye(3))
            same(list(tr.q_network(x, a).shape), [3, 1], "network output")
            same(list(tr.reward_network(x, a).shape), [3, nm + 1], "reward network output")
            equal_nets(tr.q_network, tr.q_network_target, "target network")
            distinct([("q", tr.q_network), ("target", tr.q_network_target), ("reward", tr.reward_network)], "networks")
            c = copy.deepcopy
            hand = T.ParametricDQNTrainer(q_network=c(tr.q_network), q_network_target=c(tr.q_network_target), reward_network=c(tr.reward_network), rl=RLParameters(**r), **made(o))
            agree(tr, hand, [parametric_batch(norm, 3, k, metrics=nm) for k in range(3)], ctx)

        for norm in NORMS:
            for nm in (0, 1, 2):
                for name, o, r in choices(opts, rl, dict(optimizer=lambda: sgd(0.1)), big):
                    ctx.state((norm, nm, name))
                    ctx.run(("parametric", norm, nm, name), case, norm, o, r, nm)

        def slate(norm, single, lr, cpe):
            SQ = T.SlateQTrainerParameters
            rl = RLParameters(gamma=0.5, target_update_rate=0.25, maxq_learning=False)
            kw = dict(rl=rl, optimizer=sgd(lr), single_selection=single, minibatch_size=8)
            mk = lambda **k: SlateQ(slate_feature_id=3, slate_score_id=(1, 2), **dict(dict(slate_size=2, num_candidates=3, trainer_param=SQ(evaluation=EvaluationParameters(calc_cpe_in_training=cpe), **kw), net_builder=p_builder()), **k))
            for bad in (dict(slate_size=0), dict(slate_size=-1), dict(num_candidates=0), dict(num_candidates=-3), dict(item_preprocessing_options=PreprocessingOptions(whitelist_features=[1])),
                        dict(state_preprocessing_options=PreprocessingOptions(whitelist_features=[1])), dict(item_preprocessing_options=PreprocessingOptions(sequence_feature_id=3))):
                raises(lambda: mk(**bad), "%s" % (bad,))
            mgr = mk()
            same(sorted(mgr.required_normalization_keys), ["item", "state"], "required keys")
            same(mgr.should_generate_eval_dataset, cpe, "evaluation data")
            tr = start(mgr, {"state": nd(NORMS[norm]), "item": nd(ONEHOT)})
            same(list(tr.q_network(fd(features(norm, range(3))), fd(torch.eye(3))).shape), [3, 1], "network output")
            equal_nets(tr.q_network, tr.q_network_target, "target network")
            distinct([("q", tr.q_network), ("target", tr.q_network_target)], "networks")
            c = copy.deepcopy
            hand = T.SlateQTrainer(q_network=c(tr.q_network), q_network_target=c(tr.q_network_target), evaluation=EvaluationParameters(calc_cpe_in_training=False), **dict(kw, optimizer=sgd(lr)))

            def batch(k):
                docs = lambda j: rlt.DocList(float_features=torch.stack([torch.eye(3)[[(i + j + q) % 3 for q in range(3)]] for i in range(4)]), mask=torch.ones(4, 3, dtype=torch.bool), value=f(k + j, 4, 3))
                st = lambda j: rlt.FeatureData(features(norm, range(k + j, k + j + 4)), candidate_docs=docs(j))
                sl = lambda j: torch.tensor([[(i + j) % 3, (i + j + 1) % 3] for i in range(4)])
                return rlt.SlateQInput(state=st(0), next_state=st(1), action=sl(0), next_action=sl(1), reward_mask=torch.ones(4, 2, dtype=torch.bool) if not single else torch.tensor([[True, False], [False, True]] * 2), reward=f(k + 2, 4, 2),
                                       time_diff=torch.ones(4, 1), step=None, not_terminal=torch.tensor([[1.0], [0.0], [1.0], [1.0]]), extras=rlt.ExtraData())
            agree(tr, hand, [batch(k) for k in range(3)], ctx)

        for norm, single, lr, cpe in itertools.product(NORMS, (True, False), (0.1, 0.3), (False, True)):
            ctx.state((norm, single, lr, cpe))
            ctx.run(("slate", norm, "single" if single else "multi", lr, cpe), slate, norm, single, lr, cpe)
    return fn


# -- world models ----------------------------------------------------------------------------------
OPTS = ("hidden_size", "num_hidden_layers", "num_gaussians", "action_dim", "reward_loss_weight", "next_state_loss_weight", "not_terminal_loss_weight", "minibatch_size", "learning_rate")


def world(big):
    def fn(ctx):
        def seq(norm, A, k, n=3, L=2):
            eye = torch.eye(A)
            st = torch.stack([features(norm, range(k + t, k + t + n)) for t in range(L)])
            return rlt.MemoryNetworkInput(state=fd(st), next_state=fd(torch.stack([features(norm, range(k + t + 1, k + t + 1 + n)) for t in range(L)])), action=torch.stack([eye[[(i + t + k) % A for i in range(n)]] for t in range(L)]),
                                          reward=torch.stack([f(k + t, n, 1)[:, 0] for t in range(L)]), time_diff=torch.ones(L, n), step=None, not_terminal=torch.ones(L, n), extras=None)

        def world_model(norm, A, hidden, layers, gaussians, weights):
            p = MDNRNNTrainerParameters(hidden_size=hidden, num_hidden_layers=layers, num_gaussians=gaussians, action_dim=A, reward_loss_weight=weights[0], next_state_loss_weight=weights[1], not_terminal_loss_weight=weights[2], minibatch_size=3, learning_rate=0.01)
            mgr = WorldModel(trainer_param=p)
            same(sorted(mgr.required_normalization_keys), ["action", "state"], "required keys")
            same(mgr.should_generate_eval_dataset, False, "evaluation data")
            tr = start(mgr, {"state": nd(NORMS[norm]), "action": nd(ONEHOT)})
            b = seq(norm, A, 0)
            out = tr.memory_network(b.state, fd(b.action))
            same(list(out.mus.shape), [2, 3, gaussians, dim(NORMS[norm])], "means")
            same(list(out.sigmas.shape), [2, 3, gaussians, dim(NORMS[norm])], "deviations")
            same(list(out.logpi.shape), [2, 3, gaussians], "mixture weights")
            same(list(out.all_steps_lstm_hidden.shape), [2, 3, hidden], "hidden state")
            same(tr.memory_network.mdnrnn.rnn.num_layers, layers, "layers")
            hand = MDNRNNTrainer(memory_network=copy.deepcopy(tr.memory_network), params=MDNRNNTrainerParameters(**{k: getattr(p, k) for k in OPTS}))
            for k in range(3):
                a, b_ = tr.train(seq(norm, A, k)), hand.train(seq(norm, A, k))
                for key in ("loss", "gmm", "bce", "mse"):
                    close(a[key], b_[key], "%s of the built trainer" % key)
            for key, v in params_of(hand.memory_network).items():
                close(tr.memory_network.state_dict()[key], v, "%s after training" % key)
            ctx.step(2)

        for norm, A, hidden, layers, g in itertools.product(NORMS, (2, 3), (4, 6), (1, 2), (1, 3)):
            for w in ((1.0, 1.0, 1.0), (2.0, 0.5, 0.25)):
                ctx.state((norm, A, hidden, layers, g, w))
                ctx.run(("world", norm, A, hidden, layers, g, w), world_model, norm, A, hidden, layers, g, w)

        def cem(order, nw, terminal, horizon, seed):
            params = {k: CEM_ACTIONS[k] for k in order}
            p = CEMTrainerParameters(plan_horizon_length=horizon, num_world_models=nw, cem_population_size=5, cem_num_iterations=3, ensemble_population_size=2, num_elites=3, alpha=0.5, epsilon=0.0625, rl=RLParameters(gamma=0.5),
                                     mdnrnn=MDNRNNTrainerParameters(hidden_size=3, num_hidden_layers=1, num_gaussians=2, action_dim=len(order), not_terminal_loss_weight=terminal))
            mgr = CrossEntropyMethod(trainer_param=p)
            tr = start(mgr, {"state": nd(NORMS["cont"]), "action": nd(params)})
            net = tr.cem_planner_network
            same(len(tr.world_model_trainers), nw, "world models")
            same([t.memory_network for t in tr.world_model_trainers] == list(net.mem_net_list), True, "the planner plans with the models that are trained")
            distinct([(str(i), m) for i, m in enumerate(net.mem_net_list)], "world models")
            want = dict(cem_num_iterations=3, cem_pop_size=5, ensemble_pop_size=2, num_elites=3, plan_horizon_length=horizon, state_dim=2, action_dim=len(order), terminal_effective=terminal > 0, gamma=0.5, alpha=0.5, epsilon=0.0625, discrete_action=False)
            for k, v in want.items():
                same(getattr(net, k), v, k)
            cols = prep_ref.order_features(params)
            close(net.orig_action_lower, [params[k].min_value for k in cols], "lower bounds, in the order of the action's columns")
            close(net.orig_action_upper, [params[k].max_value for k in cols], "upper bounds, in the order of the action's columns")
            # the bounds in action: with a constant reward nothing is preferred, and every plan lies within the bounds of its own column
            pol = mgr.create_policy(serving=False)
            np.random.seed(seed)
            torch.manual_seed(seed)
            seen = []
            old = net.acc_rewards_of_all_solutions
            net.acc_rewards_of_all_solutions = lambda state, sols: seen.append(sols.clone()) or np.arange(float(len(sols)))
            a = pol.act(fd(features("cont", [0])))
            net.acc_rewards_of_all_solutions = old
            same(list(a.action.shape), [1, len(order)], "action")
            expect(bool((a.action.abs() <= 0.999999).all()), "action %s outside the canonical range", a.action)
            for s in seen:
                for j, k in enumerate(cols):
                    lo, hi = params[k].min_value, params[k].max_value
                    expect(bool(((s[:, :, j] >= lo - 1e-5) & (s[:, :, j] <= hi + 1e-5)).all()), "candidate values of action feature %s outside [%s, %s]", k, lo, hi)
            before = [params_of(t.memory_network) for t in tr.world_model_trainers]
            b = seq("cont", 2, 0)
            if len(order) == 2:
                tr.train(b)
                for i, t in enumerate(tr.world_model_trainers):
                    expect(any(not torch.equal(before[i][k], v) for k, v in params_of(t.memory_network).items()), "world model %d was not trained", i)
                same(tr.minibatch, 1, "batches")
            ctx.step(4)

        for order in itertools.permutations((4, 9)):
            for nw, term, hor in itertools.product((1, 2, 3), (0.0, 0.5), (1, 2)):
                ctx.state((order, nw, term, hor))
                for seed in range(2 if not big else 6):
                    ctx.run(("cem", order, nw, term, hor, seed), cem, order, nw, term, hor, seed)
        for order in itertools.permutations((4, 9, 11)):
            ctx.state((order, "three"))
            ctx.run(("cem", order), cem, order, 2, 0.5, 2, 0)

        def cem_discrete(A, reward):
            p = CEMTrainerParameters(plan_horizon_length=1, num_world_models=1, cem_population_size=40, cem_num_iterations=1, ensemble_population_size=1, num_elites=1, rl=RLParameters(gamma=0.5),
                                     mdnrnn=MDNRNNTrainerParameters(hidden_size=3, num_hidden_layers=1, num_gaussians=1, action_dim=A))
            mgr = CrossEntropyMethod(trainer_param=p)
            tr = start(mgr, {"state": nd(NORMS["cont"]), "action": nd({0: NP(feature_type="ENUM", possible_values=list(range(A)))})})
            net = tr.cem_planner_network
            same(net.discrete_action, True, "discrete actions")
            same(net.action_dim, A, "actions")
            import random

            random.seed(1)
            net.acc_rewards_of_all_solutions = lambda state, sols: np.array([reward[int(s[0].argmax())] for s in sols])
            out = mgr.create_policy(False).act(fd(features("cont", [0])))
            best = max(range(A), key=lambda i: reward[i])
            same(out.action.tolist(), [[1.0 if i == best else 0.0 for i in range(A)]], "planned action")
            ctx.step()

        for A in (2, 3):
            for rw in itertools.permutations([-1.0, 0.5, 2.0][:A]):
                ctx.run(("cem-discrete", A, rw), cem_discrete, A, rw)

        def seq2reward(norm, A, steps, size):
            p = Seq2RewardTrainerParameters(action_names=ACTS[:A], multi_steps=steps, step_predict_net_size=size, batch_size=3, gamma=0.5, view_q_value=True)
            mgr = Seq2RewardModel(trainer_param=p, net_builder=unions.ValueNetBuilder__Union(Seq2RewardNetBuilder=value.seq2reward_rnn.Seq2RewardNetBuilder(action_dim=A, num_hiddens=4, num_hidden_layers=1)))
            tr = start(mgr, {"state": nd(NORMS[norm]), "action": nd(ONEHOT)})
            same(list(tr.all_permut.shape), [steps, A ** steps, A], "action sequences")
            b = seq(norm, A, 0, L=steps)
            same(list(tr.seq2reward_network(b.state, fd(b.action)).acc_reward.shape), [3, 1], "predicted rewards")
            same(list(tr.step_predict_network(b.state.float_features[0]).shape), [3, steps], "predicted lengths")
            same(next(q for q in tr.step_predict_network.parameters()).shape[0], size, "size of the step network")
            same(tr.minibatch_size, 3, "batch size")
            ctx.step()

        for norm, A, steps, size in itertools.product(NORMS, (2, 3), (1, 2, 3), (4, 5)):
            ctx.state((norm, A, steps, size))
            ctx.run(("seq2reward", norm, A, steps, size), seq2reward, norm, A, steps, size)
    return fn


CEM_ACTIONS = {9: NP(feature_type="CONTINUOUS_ACTION", min_value=-2.0, max_value=-1.0), 4: NP(feature_type="CONTINUOUS_ACTION", min_value=0.0, max_value=1.0), 11: NP(feature_type="CONTINUOUS_ACTION", min_value=5.0, max_value=9.0)}


# -- serving modules and policies ---------------------------------------------------------------
def serve(m, norm, idx):
    if "Actor" in m.original_name:
        return m(raw(norm, idx))
    return m(rlt.ServingFeatureData(float_features_with_presence=raw(norm, idx), id_list_features={}, id_score_list_features={}))


def serving(big):
    def fn(ctx):
        def discrete_case(kind, net, A, norm, k, trained):
            mgr = discrete_manager(kind, net, A, FIXED[kind], BASE_RL, norm, False)
            tr = start(mgr, {"state": nd(NORMS[norm])})
            nets = [m for m in networks(tr).values()]
            wobble(nets, k)
            if trained:
                train(tr, [discrete_batch(norm, A, 0, j) for j in range(2)], 3)
            mods = mgr.build_serving_modules()
            same(sorted(mods), sorted(mgr.serving_module_names()), "serving modules")
            idx = range(4)
            x = fd(features(norm, idx))
            ref = {}
            with torch.no_grad():
                if kind == "crr":
                    ref["dqn"] = copy.deepcopy(tr.q1_network).eval()(x)
                    ref["actor_dqn"] = copy.deepcopy(tr.actor_network).eval()(x).action
                else:
                    v = copy.deepcopy(tr.q_network).eval()(x)
                    ref["default_model"] = v.mean(2) if kind == "qr" else v
            for name, want in ref.items():
                got_names, q = serve(mods[name], norm, idx)
                same(list(got_names), ACTS[:A], "action names of %s" % name)
                close(q, want, "values of %s" % name)
            if kind == "crr":
                got = serve(mods["default_model"], norm, idx)
                same(torch.as_tensor(got if torch.is_tensor(got) else got[0]).shape[0], 4, "rows of the actor")
                src = copy.deepcopy(tr.actor_network).eval()
                with torch.no_grad():
                    close(got if torch.is_tensor(got) else got[0], src(x).action, "served actor")
            # policies: the best action of the current networks, online and served
            for serving_ in (False, True):
                pol = mgr.create_policy(serving_)
                best = ref["actor_dqn"] if kind == "crr" else ref["default_model"]
                if kind == "crr":
                    if serving_:
                        continue
                    modes = tr.actor_network.training
                    close(pol.act(x).action, best, "online action")
                    continue
                for i in idx:
                    for mask in [None] + [m for m in itertools.product((0, 1), repeat=A) if any(m)]:
                        ok = [j for j in range(A) if mask is None or mask[j]]
                        o = pol.act(raw(norm, [i]) if serving_ else fd(features(norm, [i])), None if mask is None else np.array(mask, dtype=bool))
                        want = max(ok, key=lambda j: best[i, j])
                        same(o.action.tolist()[0], [int(j == want) for j in range(A)], "%s action in row %d with mask %s" % ("served" if serving_ else "online", i, mask))
                        ctx.step()
            ctx.outcome((kind, A, tuple(v.shape for v in ref.values())))

        for kind in CLASSES:
            for net in ((0,) if kind == "c51" else (0, 1)):
                for A, norm, k, trained in itertools.product((2, 3), NORMS, range(2 if not big else 6), (False, True)):
                    ctx.state((kind, net, A, norm, k, trained))
                    ctx.run((kind, net, A, norm, k, "trained" if trained else "fresh"), discrete_case, kind, net, A, norm, k, trained)

        def softmax_served(temp):
            """a softmax policy is served as one, with its own temperature"""
            mgr = discrete_manager("dqn", 0, 3, FIXED["dqn"], dict(BASE_RL, softmax_policy=True, temperature=temp), "cont", False)
            tr = start(mgr, {"state": nd(NORMS["cont"])})
            wobble(list(networks(tr).values()))
            with torch.no_grad():
                q = tr.q_network(fd(features("cont", range(4))))
            pol = mgr.create_policy(True)
            for i in range(4):
                torch.manual_seed(i)
                o = pol.act(raw("cont", [i]))
                close(o.log_prob.flatten(), [float(F.log_softmax(q[i] / temp, 0)[int(o.action.argmax())])], "log-probability of the served action", rtol=1e-3)
                ctx.step()

        for temp in (0.5, 1.0, 4.0):
            ctx.run(("softmax", temp), softmax_served, temp)

        def ac_case(kind, actor, norm, k, mean, trained):
            kw = dict(serve_mean_policy=mean) if kind == "sac" else {}
            mgr = ac_manager(kind, actor, AC_FIXED[kind], BASE_RL, norm, **kw)
            tr = start(mgr, {"state": nd(NORMS[norm]), "action": nd(ANORM)})
            if trained:
                train(tr, [actor_batch(norm, j) for j in range(2)], 3)
            wobble([tr.actor_network], k)
            x = fd(features(norm, range(4)))
            src = copy.deepcopy(tr.actor_network).eval()
            with torch.no_grad():
                torch.manual_seed(4)
                out = src(x)
            a = out.squashed_mean if kind == "sac" and mean and out.squashed_mean is not None else out.action
            cols = prep_ref.order_features(ANORM)
            scaled = torch.stack([(a[:, j] + 0.999999) / 1.999998 * (ANORM[c].max_value - ANORM[c].min_value) + ANORM[c].min_value for j, c in enumerate(cols)], 1)
            mods = mgr.build_serving_modules()
            same(sorted(mods), ["default_model"], "serving modules")
            torch.manual_seed(4)
            got = serve(mods["default_model"], norm, range(4))
            got = got[0] if isinstance(got, (tuple, list)) else got
            if actor == "dirichlet":
                close(got, a, "served actions")
            else:
                close(got, scaled, "served actions", rtol=1e-3, atol=1e-4)
            torch.manual_seed(4)
            o = mgr.create_policy(False).act(x)
            close(o.action, out.action, "online actions")
            ctx.step(2)

        for kind, actor in (("sac", "gauss"), ("td3", "fc")):
            for norm, k, mean, trained in itertools.product(NORMS, range(2 if not big else 6), (True, False) if kind == "sac" else (True,), (False, True)):
                ctx.state((kind, actor, norm, k, mean, trained))
                ctx.run((kind, actor, norm, k, "mean" if mean else "sample", "trained" if trained else "fresh"), ac_case, kind, actor, norm, k, mean, trained)

        def pdqn(norm, k, temp):
            mgr = ParametricDQN(trainer_param=T.ParametricDQNTrainerParameters(rl=RLParameters(temperature=temp), optimizer=sgd(0.1)), net_builder=p_builder(), state_float_features=[(i, "s") for i in NORMS[norm]], action_float_features=[(i, "a") for i in ONEHOT])
            tr = start(mgr, {"state": nd(NORMS[norm]), "action": nd(ONEHOT)})
            wobble([tr.q_network], k)
            rows = [(i, a) for i in range(4) for a in range(3)]
            with torch.no_grad():
                q = tr.q_network(fd(features(norm, [i for i, _ in rows])), fd(torch.eye(3)[[a for _, a in rows]])).reshape(4, 3)
            mods = mgr.build_serving_modules()
            same(sorted(mods), ["default_model"], "serving modules")
            av = torch.eye(3)[[a for _, a in rows]]
            _, got = mods["default_model"](raw(norm, [i for i, _ in rows]), (av, torch.ones_like(av)))
            close(got.reshape(4, 3), q, "served values")
            pol, served = mgr.create_policy(False), mgr.create_policy(True)
            for i in range(4):
                for s in range(3):
                    torch.manual_seed(s)
                    o = pol.act(fd(features(norm, [i])))
                    close(o.log_prob.flatten(), [float(F.log_softmax(q[i] / temp, 0)[int(o.action.argmax())])], "log-probability of the online action", rtol=1e-3)
                o = served.act(raw(norm, [i]))
                same(int(o.action.argmax()), int(q[i].argmax()), "served action")
                ctx.step(4)

        for norm, k, temp in itertools.product(NORMS, range(2 if not big else 6), (0.5, 2.0)):
            ctx.state((norm, k, temp))
            ctx.run(("parametric", norm, k, temp), pdqn, norm, k, temp)

        def slate(k, size, n):
            ident = {i: NP(feature_type="DO_NOT_PREPROCESS") for i in (1, 2)}
            items = {i: NP(feature_type="DO_NOT_PREPROCESS") for i in range(3)}
            mgr = SlateQ(slate_feature_id=3, slate_score_id=(1, 2), slate_size=size, num_candidates=n, trainer_param=T.SlateQTrainerParameters(optimizer=sgd(0.1)), net_builder=p_builder())
            tr = start(mgr, {"state": nd(ident), "item": nd(items)})
            wobble([tr.q_network], k)
            docs = rlt.DocList(float_features=f(k, n, 3).unsqueeze(0), mask=torch.ones(1, n, dtype=torch.bool), value=f(k + 1, 1, n))
            st = rlt.FeatureData(f(k + 2, 1, 2), candidate_docs=docs)
            with torch.no_grad():
                q = tr.q_network(fd(f(k + 2, 1, 2).repeat(n, 1)), fd(docs.float_features[0]))[:, 0]
            score = F.softmax(docs.value, 1)[0] * q
            want = sorted(range(n), key=lambda i: -score[i])[:size]
            for s in (False, True):
                same(mgr.create_policy(s).act(st).action.tolist(), [want], "slate of the %s policy" % ("served" if s else "online"))
                ctx.step()

        for k, (size, n) in itertools.product(range(6 if not big else 30), ((1, 2), (2, 2), (2, 3), (3, 4))):
            ctx.state((k, size, n))
            ctx.run(("slate", k, size, n), slate, k, size, n)
    return fn


# -- refusals ---------------------------------------------------------------------------------------
def refusals(ctx):
    def all_managers():
        d = {k: discrete_manager(k, 0, 2, FIXED[k], BASE_RL, "cont", False) for k in CLASSES}
        d["sac"], d["td3"] = ac_manager("sac", "gauss", AC_FIXED["sac"], BASE_RL, "cont"), ac_manager("td3", "fc", AC_FIXED["td3"], BASE_RL, "cont")
        d["parametric"] = ParametricDQN(trainer_param=T.ParametricDQNTrainerParameters(), net_builder=p_builder())
        d["slate"] = SlateQ(slate_feature_id=3, slate_score_id=(1, 2), slate_size=2, num_candidates=3, net_builder=p_builder())
        d["world"] = WorldModel()
        return d

    full = {"state": nd(NORMS["cont"]), "action": nd(ANORM), "item": nd(ONEHOT)}
    for name in all_managers():
        keys = all_managers()[name].required_normalization_keys
        for r in range(len(keys) + 1):
            for miss in itertools.combinations(keys, r):
                for how in ("absent", "none"):
                    def case():
                        mgr = all_managers()[name]
                        raises(lambda: mgr.trainer, "the trainer before it exists")
                        raises(lambda: mgr.use_gpu, "use_gpu before it's set")
                        raises(lambda: mgr.reward_options, "reward options before they're set")
                        raises(lambda: mgr.state_normalization_data, "normalisation data before it's set")
                        norms = dict(full)
                        for m in miss:
                            norms.pop(m)
                            if how == "none":
                                norms[m] = None
                        if miss:
                            raises(lambda: start(mgr, norms), "missing normalisation data of %s" % (miss,))
                            raises(lambda: mgr.trainer, "a trainer after a refused initialisation")
                            return
                        tr = start(mgr, norms)
                        expect(mgr.trainer is tr, "trainer")
                        for k in norms:
                            expect(getattr(mgr, k + "_normalization_data") is norms[k], "normalisation data of %s", k)
                        raises(lambda: mgr.other_normalization_data, "normalisation data of an unknown key")
                        raises(lambda: mgr.no_such_thing, "an unknown attribute")
                        raises(lambda: start(mgr, norms), "initialising twice")
                        expect(mgr.trainer is tr, "the trainer after a refused initialisation")
                        mgr.destroy_trainer()
                        raises(lambda: mgr.trainer, "a destroyed trainer")
                        ctx.step(8)
                    if miss or how == "absent":
                        ctx.state((name, miss, how))
                        ctx.run((name, "+".join(miss) or "complete", how), case)

    def actions(kind):
        M, P, _ = CLASSES[kind]
        for acts in ([], ["a"]):
            raises(lambda: M(trainer_param=P(actions=acts)), "%d actions" % len(acts))
        if kind in ("c51", "qr"):
            for mb in (1, 7, 12, 1023):
                raises(lambda: M(trainer_param=P(actions=["a", "b"], minibatch_size=mb)), "batches of %d" % mb)
        for mb in (8, 64):
            M(trainer_param=P(actions=["a", "b"], minibatch_size=mb))

    for kind in CLASSES:
        ctx.run(("actions", kind), actions, kind)

    def white(kind):
        for k in ("state_preprocessing_options", "action_preprocessing_options"):
            po = {k: PreprocessingOptions(whitelist_features=[1])}
            if kind == "parametric":
                raises(lambda: ParametricDQN(trainer_param=T.ParametricDQNTrainerParameters(), **po), k)
            else:
                raises(lambda: ac_manager(kind, "gauss", AC_FIXED[kind], BASE_RL, "cont", **po), k)

    for kind in ("sac", "td3", "parametric"):
        ctx.run(("whitelist", kind), white, kind)


def groups(tier):
    big = tier != "quick"
    return [(k, discrete(k, big)) for k in CLASSES] + [
        ("sac", actor_critic("sac", big)), ("td3", actor_critic("td3", big)), ("parametric", parametric(big)), ("world", world(big)), ("serving", serving(big)), ("refusals", refusals)]

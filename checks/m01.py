"""M01: networks compute their documented function for every configuration."""
import copy
import itertools
import math
import types

import torch
import torch.nn as nn

import reagent.models as models
import reagent.types as rlt
from mc.core import close, expect, raises, same
from mc.trainkit import fd
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.models.actor import DirichletFullyConnectedActor, FullyConnectedActor, GaussianFullyConnectedActor, StochasticActor
from reagent.models.base import ModelBase
from reagent.models.bcq import BatchConstrainedDQN
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.models.containers import Sequential
from reagent.models.convolutional_network import ConvolutionalNetwork
from reagent.models.critic import FullyConnectedCritic
from reagent.models.dqn import FullyConnectedDQN
from reagent.models.dueling_q_network import DuelingQNetwork, ParametricDuelingQNetwork
from reagent.models.embedding_bag_concat import EmbeddingBagConcat
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mdn_rnn import MDNRNNMemoryPool, gmm_loss
from reagent.models.mlp_scorer import MLPScorer
from reagent.models.no_soft_update_embedding import NoSoftUpdateEmbedding
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.seq2slate import Seq2SlateTransformerNet
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateRewardNetJITWrapper, Seq2SlateTransformerRewardNet
from reagent.models.world_model import MemoryNetwork
from reagent.net_builder import unions
from reagent.net_builder.slate_ranking.slate_ranking_transformer import SlateRankingTransformer
from reagent.net_builder.slate_reward.slate_reward_gru import SlateRewardGRU
from reagent.net_builder.slate_reward.slate_reward_transformer import SlateRewardTransformer
from reagent.net_builder.value.seq2reward_rnn import Seq2RewardNetBuilder
from reagent.parameters import GRUParameters, NormalizationData, NormalizationParameters, TransformerParameters

from reagent.gym.policies.samplers.discrete_sampler import GreedyActionSampler

LEVEL = "exploration"
RULE = (
    "every network class and builder x all small layer lists, activations, normalisation, dropout and output options x every row of a grid of "
    "inputs, as one batch, in every rotation and row by row; outputs are compared with a double precision evaluation of the definition over the "
    "network's own parameters; a case is non-trivial when its batch has more than one row"
)
ASSUMPTIONS = [
    "float32 tolerance", "parameters and running statistics from fixed pseudo-random sets",
    "log-probabilities of l2-normalised actions and weight initialisation are not judged",
    "moments of the exploration noise are those of one fixed generator state",
]

GRID = (-1.5, 0.0, 0.5, 2.0)
RT, AT = 3e-4, 3e-5


def rows(d, vals=GRID, cap=16):
    """grid^d, thinned evenly to at most `cap` rows"""
    a = list(itertools.product(vals, repeat=d))
    if len(a) > cap:
        a = [a[(i * len(a)) // cap] for i in range(cap - 1)] + [a[-1]]
    return torch.tensor(a)


def fill(net, seed=1):
    """fixed parameters and statistics"""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.rand(p.shape, generator=g) * 1.6 - 0.8)
        for m in net.modules():
            if isinstance(m, nn.BatchNorm1d):
                m.running_mean.copy_(torch.rand(m.running_mean.shape, generator=g) - 0.5)
                m.running_var.copy_(torch.rand(m.running_var.shape, generator=g) + 0.3)
    return net


ACT = {
    "tanh": torch.tanh,
    "relu": lambda x: x * (x > 0),
    "leaky_relu": lambda x: torch.where(x > 0, x, 0.01 * x),
    "linear": lambda x: x,
    "sigmoid": lambda x: 1 / (1 + torch.exp(-x)),
    "ELU": lambda x: torch.where(x > 0, x, torch.exp(x) - 1),
    "Softplus": lambda x: torch.log1p(torch.exp(x)),
}


def lin(m, x):
    return x @ m.weight.detach().double().T + m.bias.detach().double()


def layer_norm(m, x):
    mu = x.mean(-1, keepdim=True)
    var = ((x - mu) ** 2).mean(-1, keepdim=True)
    return (x - mu) / torch.sqrt(var + 1e-5) * m.weight.detach().double() + m.bias.detach().double()


def of(net, kind):
    return [m for m in net.modules() if isinstance(m, kind)]


def ref_fc(net, x, acts, batch_norm=False, layer_norm_=False, norm_out=False, train=False):
    """Linear stack over the net's own parameters; also checks the number of layers"""
    x = x.double()
    ls, bs, ns = of(net, nn.Linear), of(net, nn.BatchNorm1d), of(net, nn.LayerNorm)
    same(len(ls), len(acts), "linear layers")
    same(len(bs), len(acts) if batch_norm else 0, "batch norms")
    nn_ = (len(acts) - (0 if norm_out else 1)) if layer_norm_ else 0
    same(len(ns), nn_, "layer norms")
    for i, a in enumerate(acts):
        if batch_norm:
            b = bs[i]
            if train:
                mu, var = x.mean(0), x.var(0, unbiased=False)
            else:
                mu, var = b.running_mean.double(), b.running_var.double()
            x = (x - mu) / torch.sqrt(var + 1e-5) * b.weight.detach().double() + b.bias.detach().double()
        x = lin(ls[i], x)
        if i < nn_:
            x = layer_norm(ns[i], x)
        x = ACT[a](x)
    return x


def shapes(net, dims):
    same([(m.in_features, m.out_features) for m in of(net, nn.Linear)], [[a, b] for a, b in zip(dims, dims[1:])], "layer sizes")


def rowwise(f, n, what, out=lambda y: y):
    """f(list of row indices) -> tensor with one row per index; every row alone and every rotation gives the same rows"""
    full = f(list(range(n)))
    same(full.shape[0], n, what + ": rows")
    for i in range(n):
        close(f([i])[0], full[i], what + ": row %d alone" % i, RT, AT)
    for r in {1, n // 2, n - 1}:
        p = [(i + r) % n for i in range(n)]
        close(f(p), full[p], what + ": rotated", RT, AT)
    return full


def copies(ctx, net, call, what, shared=()):
    """target network and cpu copy compute the same and own their parameters"""
    want = call(net).clone()
    for mk in ("get_target_network", "cpu_model"):
        c = getattr(net, mk)()
        expect(c is not net, "%s is the network itself", mk)
        same(c.training, net.training, mk + ": mode")
        close(call(c), want, "%s: %s" % (what, mk))
        with torch.no_grad():
            for p in c.parameters():
                if not any(p is s for s in shared):
                    p.add_(1.0)
        close(call(net), want, "%s after changing its %s" % (what, mk))
    ctx.step(2)


# -- fully connected stacks ----------------------------------------------------------------------
SIZES = [[], [1], [3], [3, 2], [2, 4]]
ACTS = list(ACT)


def act_lists(n):
    return itertools.product(ACTS, repeat=n) if n < 2 else [(a, ACTS[(i + j) % len(ACTS)]) for i, a in enumerate(ACTS) for j in (1, 3)]


def fully_connected(ctx):
    for din, sizes, dout in itertools.product((1, 2), SIZES, (1, 2)):
        x = rows(din)
        n = len(x)
        for acts in act_lists(len(sizes)):
            for last, (bn, ln, norm) in itertools.product(("linear", "tanh", "ELU"), itertools.product((False, True), repeat=3)):
                if last == "ELU" and (bn or ln or norm):
                    continue

                def case():
                    a = list(acts) + [last]
                    net = fill(FullyConnectedNetwork([din] + sizes + [dout], a, use_batch_norm=bn, use_layer_norm=ln, normalize_output=norm, min_std=0.1), 7)
                    shapes(net, [din] + sizes + [dout])
                    expect(net.training, "a new network is in training mode")
                    net.eval()
                    same(net.input_prototype().shape, [1, din], "prototype")
                    same(net(net.input_prototype()).shape, [1, dout], "output for the prototype")
                    y = rowwise(lambda r: net(x[r]), n, "output")
                    close(y, ref_fc(net, x, a, bn, ln, norm), "output", RT, AT)
                    if bn:
                        net.double().train()
                        close(net(x.double()), ref_fc(net, x, a, bn, ln, norm, train=True), "output in training", RT, AT)
                    ctx.state((din, tuple(sizes), acts, last, bn, ln, norm))
                    ctx.outcome(y)
                ctx.run((din, sizes, dout, ".".join(acts), last, bn, ln, norm), case)


def fc_misc(ctx):
    def refuse():
        raises(lambda: FullyConnectedNetwork([2, 3], ["relu", "relu"]), "more activations than layers")
        raises(lambda: FullyConnectedNetwork([2, 3, 1], ["relu"]), "fewer activations than layers")
        raises(lambda: FullyConnectedNetwork([2, 1], ["no_such_activation"]), "unknown activation")
        for cls, kw in ((FullyConnectedDQN, {}), (FullyConnectedCritic, {}), (FullyConnectedActor, {}), (GaussianFullyConnectedActor, {}), (DirichletFullyConnectedActor, {})):
            raises(lambda: cls(2, 2, [3], ["relu", "relu"], **kw), cls.__name__ + " sizes and activations")
            raises(lambda: cls(0, 2, [3], ["relu"], **kw), cls.__name__ + " without state")
            raises(lambda: cls(2, 0, [3], ["relu"], **kw), cls.__name__ + " without action")
        raises(lambda: FullyConnectedActor(2, 2, [], [], exploration_variance=0.0), "no variance")
        raises(lambda: FullyConnectedActor(2, 2, [], [], exploration_variance=-1.0), "negative variance")
        raises(lambda: DuelingQNetwork.make_fully_connected(2, 2, [], []), "dueling without layers")
        raises(lambda: DuelingQNetwork.make_fully_connected(2, 2, [3], ["relu"]), "dueling with an odd embedding")
    ctx.run("refusals", refuse)
    for p, norm, layers in itertools.product((0.25, 0.5), (False, True), (1, 2)):
        def case():
            k = 6
            net = fill(FullyConnectedNetwork([1] + [k] * layers, ["linear"] * layers, dropout_ratio=p, normalize_output=norm), 3)
            with torch.no_grad():
                for m in of(net, nn.Linear)[1:]:
                    m.weight.copy_(torch.eye(k))
                    m.bias.zero_()
            net.eval()
            x = torch.ones(40, 1)
            base = net(x)
            close(base, ref_fc(net, x, ["linear"] * layers), "no dropout in evaluation", RT, AT)
            net.train()
            drops = layers - (0 if norm else 1)
            torch.manual_seed(5)
            seen = set()
            for _ in range(10):
                y = (net(x) / base).detach()
                for v in y.flatten().tolist():
                    best = min([0.0, (1 / (1 - p)) ** drops], key=lambda c: abs(c - v))
                    expect(abs(v - best) < 1e-3, "factor %s of a unit after %s dropouts", v, drops)
                    seen.add(round(best, 3))
            same(len(seen), 2 if drops else 1, "dropped and kept units")
            if drops == 1:
                kept = sum((net(x) / base > 0.5).float().mean().item() for _ in range(50)) / 50
                expect(abs(kept - (1 - p)) < 0.03, "kept fraction %s", kept)
            net.eval()
            close(net(x), base, "no dropout in evaluation")
        ctx.run(("dropout", p, norm, layers), case)


# -- q networks ---------------------------------------------------------------------------------
def q_networks(ctx):
    for ds, da, sizes, atoms, bn in itertools.product((1, 2), (1, 2, 3), ([], [2], [3, 2]), (None, 1, 3), (False, True)):
        x = rows(ds)
        n = len(x)
        acts = ["relu", "tanh"][: len(sizes)]

        def case():
            net = fill(FullyConnectedDQN(ds, da, sizes, acts, num_atoms=atoms, use_batch_norm=bn, dropout_ratio=0.5), 11).eval()
            shapes(net, [ds] + sizes + [da * (atoms or 1)])
            out = (da,) if atoms is None else (da, atoms)
            want = ref_fc(net, x, acts + ["linear"], bn).reshape(n, *out)
            pr = net.input_prototype()
            expect(isinstance(pr, rlt.FeatureData) and pr.has_float_features_only, "prototype")
            same(net(pr).shape, (1,) + out, "output for the prototype")
            close(rowwise(lambda r: net(fd(x[r])), n, "q"), want, "q", RT, AT)
            same(len(of(net, nn.Dropout)), len(sizes), "dropout layers")
            copies(ctx, net, lambda m: m(fd(x)), "q")
            if atoms is None:
                masks = list(itertools.product((0, 1), repeat=da))
                for k in range(len(masks)):
                    mask = torch.tensor([masks[(i + k) % len(masks)] for i in range(n)])
                    for mk in (mask, mask.float(), mask.bool()):
                        if mk.dtype == torch.bool:
                            mk = mk.to(torch.uint8)
                        q = net(fd(x), mk)
                        close(q * mask, want * mask, "q of possible actions", RT, AT)
                        expect(bool(((q < -1e9) | (mask == 1)).all()), "q of impossible actions %s", q.tolist())
            ctx.state((ds, da, tuple(sizes), atoms, bn))
            ctx.outcome(want)
        ctx.run(("dqn", ds, da, sizes, atoms, bn), case)


def ref_dueling(net, x, acts, bn, atoms, da):
    s = ref_fc(net.shared_network, x, acts[:-1] + ["linear"], bn)
    v = ref_fc(net.value_network, s, [acts[-1], "linear"])
    a = ref_fc(net.advantage_network, s, [acts[-1], "linear"])
    if atoms is None:
        return v + a - a.mean(1, keepdim=True), v
    a = a.reshape(len(x), da, atoms)
    v = v.reshape(len(x), 1, atoms)
    return v + a - a.mean((1, 2), keepdim=True), v


def dueling(ctx):
    for ds, da, layers, atoms, bn in itertools.product((1, 2), (1, 2, 3), ([2], [4], [3, 2], [2, 3, 4]), (None, 1, 3), (False, True)):
        x = rows(ds)
        n = len(x)
        acts = ["tanh", "relu", "sigmoid"][: len(layers)]

        def case():
            net = DuelingQNetwork.make_fully_connected(ds, da, layers, acts, num_atoms=atoms, use_batch_norm=bn)
            expect(net.training and all(m.training for m in net.modules()), "a new network is in training mode")
            fill(net, 13).eval()
            h = layers[-1] // 2
            shapes(net.shared_network, [ds] + layers)
            shapes(net.value_network, [layers[-1], h, atoms or 1])
            shapes(net.advantage_network, [layers[-1], h, da * (atoms or 1)])
            q = rowwise(lambda r: net(fd(x[r])), n, "q")
            want, v = ref_dueling(net, x, acts, bn, atoms, da)
            close(q, want, "q", RT, AT)
            if atoms is None:
                close(q.double().mean(1), v[:, 0], "mean of the action values is the state value", RT, AT)
            same(net(net.input_prototype()).shape, [1] + list(q.shape[1:]), "output for the prototype")
            copies(ctx, net, lambda m: m(fd(x)), "q")
            ctx.state((ds, da, tuple(layers), atoms, bn))
            ctx.outcome(want)
        ctx.run(("discrete", ds, da, layers, atoms, bn), case)
        if atoms is not None:
            continue

        def parametric():
            net = ParametricDuelingQNetwork.make_fully_connected(ds, da, layers, acts, use_batch_norm=bn)
            fill(net, 17).eval()
            a = rows(da, cap=n)
            a = a[[i % len(a) for i in range(n)]]
            s = ref_fc(net.shared_network, x, acts[:-1] + ["linear"], bn)
            want = ref_fc(net.value_network, s, [acts[-1], "linear"]) + ref_fc(net.advantage_network, torch.cat([s, a.double()], 1), [acts[-1], "linear"])
            close(rowwise(lambda r: net(fd(x[r]), fd(a[r])), n, "q"), want, "q", RT, AT)
            same(net(*net.input_prototype()).shape, [1, 1], "output for the prototype")
            copies(ctx, net, lambda m: m(fd(x), fd(a)), "q")
            ctx.outcome(want)
        ctx.run(("parametric", ds, da, layers, bn), parametric)


def wiring(ctx):
    def case():
        mk = lambda i, o, **k: FullyConnectedDQN(i, o, [2], ["relu"], **k)
        raises(lambda: DuelingQNetwork(shared_network=mk(2, 4), advantage_network=mk(4, 3), value_network=mk(3, 1)), "value network of another width")
        raises(lambda: DuelingQNetwork(shared_network=mk(2, 4), advantage_network=mk(3, 3), value_network=mk(4, 1)), "advantage network of another width")
        raises(lambda: DuelingQNetwork(shared_network=FullyConnectedNetwork([2, 4], ["relu"]), advantage_network=mk(4, 3), value_network=mk(4, 1)), "shared network without features")
        c = lambda s, a: FullyConnectedCritic(s, a, [2], ["relu"])
        raises(lambda: ParametricDuelingQNetwork(shared_network=mk(2, 4), advantage_network=c(3, 2), value_network=mk(4, 1)), "advantage network of another width")
        raises(lambda: ParametricDuelingQNetwork(shared_network=mk(2, 4), advantage_network=mk(4, 2), value_network=mk(4, 1)), "advantage network without action")
        q = c(2, 3)
        raises(lambda: q(fd(torch.ones(2, 2)), fd(torch.ones(1, 3))), "critic with fewer actions than states")
        raises(lambda: q(fd(torch.ones(2, 2)), fd(torch.ones(2, 1, 3))), "critic with nested actions")
        raises(lambda: q(fd(torch.ones(2, 1, 2)), fd(torch.ones(2, 1, 3))), "critic with nested states")
    ctx.run("refusals", case)


def categorical(ctx):
    for ds, da, (lo, hi), atoms in itertools.product((1, 2), (1, 2, 3), ((-1.0, 1.0), (0.0, 10.0), (-7.0, -2.0)), (2, 3, 5)):
        x = rows(ds)
        n = len(x)

        def case():
            inner = FullyConnectedDQN(ds, da, [3], ["tanh"], num_atoms=atoms)
            net = fill(CategoricalDQN(inner, qmin=lo, qmax=hi, num_atoms=atoms), 19).eval()
            logits = ref_fc(inner, x, ["tanh", "linear"]).reshape(n, da, atoms)
            e = torch.exp(logits - logits.max(-1, keepdim=True)[0])
            p = e / e.sum(-1, keepdim=True)
            z = torch.tensor([lo + (hi - lo) * i / (atoms - 1) for i in range(atoms)], dtype=torch.float64)
            q = rowwise(lambda r: net(fd(x[r])), n, "q")
            close(q, (p * z).sum(-1), "q", RT, AT)
            close(net.log_dist(fd(x)), torch.log(p), "distribution", RT, AT)
            expect(bool(((q >= lo - 1e-4) & (q <= hi + 1e-4)).all()), "q within the support")
            same(net(net.input_prototype()).shape, [1, da], "output for the prototype")
            copies(ctx, net, lambda m: m(fd(x)), "q")
            ctx.state((ds, da, lo, hi, atoms))
            ctx.outcome(q)
        ctx.run((ds, da, lo, hi, atoms), case)


class Given(ModelBase):
    def __init__(self, t, n):
        super().__init__()
        self.t, self.n = t, n

    def input_prototype(self):
        return fd(torch.zeros(1, 1))

    def forward(self, s):
        s = s.float_features if hasattr(s, "float_features") else s
        return self.t[s[:, 0].long()]


def bcq(ctx):
    probs = [p for p in itertools.product((1, 2, 4, 8), repeat=3)]
    qv = list(itertools.product((-1.0, 0.0, 2.0), repeat=3))
    for thr in (0.0, 0.1, 0.25, 0.3, 0.5, 1.0):
        for k in range(0, len(qv), 3):
            def case():
                q = torch.tensor([qv[(i + k) % len(qv)] for i in range(len(probs))])
                im = torch.log(torch.tensor(probs, dtype=torch.float32))
                net = BatchConstrainedDQN(1, Given(q, 3), Given(im, 3), thr)
                s = torch.arange(len(probs), dtype=torch.float32).unsqueeze(1)
                out = net(fd(s))
                for i, pr in enumerate(probs):
                    for a in range(3):
                        r = pr[a] / max(pr)
                        if abs(r - thr) < 1e-6 and thr < 1:
                            continue  # on the threshold: rounding decides
                        if r >= thr or pr[a] == max(pr):
                            close(out[i, a], q[i, a], "value of a likely action %s %s" % (pr, a))
                        else:
                            expect(out[i, a] < -1e9, "value %s of an unlikely action %s %s", out[i, a].item(), pr, a)
                    ctx.state((thr, pr, k))
                ctx.step(len(probs))
            ctx.run((thr, k), case)
    def proto():
        real = BatchConstrainedDQN(2, FullyConnectedDQN(2, 3, [2], ["relu"]), FullyConnectedNetwork([2, 3], ["linear"]), 0.3)
        same(real(real.input_prototype()).shape, [1, 3], "output for the prototype")
        raises(lambda: BatchConstrainedDQN(0, None, None, 0.1), "no state")
    ctx.run("prototype", proto)


def critic(ctx):
    for ds, da, sizes, bn, ln, od in itertools.product((1, 2), (1, 2), ([], [3], [3, 2]), (False, True), (False, True), (1, 3)):
        def case():
            acts = ["leaky_relu", "tanh"][: len(sizes)]
            net = fill(FullyConnectedCritic(ds, da, sizes, acts, use_batch_norm=bn, use_layer_norm=ln, output_dim=od), 23).eval()
            shapes(net, [ds + da] + sizes + [od])
            xa = rows(ds + da, cap=24)
            x, a = xa[:, :ds], xa[:, ds:]
            q = rowwise(lambda r: net(fd(x[r]), fd(a[r])), len(xa), "q")
            close(q, ref_fc(net, xa, acts + ["linear"], bn, ln), "q", RT, AT)
            same(net(*net.input_prototype()).shape, [1, od], "output for the prototype")
            copies(ctx, net, lambda m: m(fd(x), fd(a)), "q")
            ctx.state((ds, da, tuple(sizes), bn, ln, od))
            ctx.outcome(q)
        ctx.run((ds, da, sizes, bn, ln, od), case)


# -- actors --------------------------------------------------------------------------------------
def deterministic_actor(ctx):
    lim = 1 - 1e-6
    for ds, da, sizes, bn, act, var in itertools.product((1, 2), (1, 2, 3), ([], [3], [3, 2]), (False, True), ("tanh", "linear", "sigmoid"), (None, 0.1, 1.0)):
        def case():
            acts = ["relu", "tanh"][: len(sizes)]
            net = fill(FullyConnectedActor(ds, da, sizes, acts, use_batch_norm=bn, action_activation=act, exploration_variance=var), 29).eval()
            shapes(net, [ds] + sizes + [da])
            x = rows(ds)
            mean = ref_fc(net, x, acts + [act], bn)
            torch.manual_seed(3)
            if var is None:
                rowwise(lambda r: net(fd(x[r])).action, len(x), "action")
                o = net(fd(x))
                close(o.action, mean, "action", RT, AT)
                same(o.log_prob.tolist(), [[0.0]] * len(x), "log probability of a deterministic action")
                copies(ctx, net, lambda m: m(fd(x)).action, "action")
                ctx.outcome(o.action)
            else:
                free, inner = 0, []
                for _ in range(20):
                    o = net(fd(x))
                    same(o.action.shape, [len(x), da], "action")
                    same(o.log_prob.shape, [len(x), 1], "log probability")
                    expect(bool((o.action.abs() <= 1).all()), "actions within the training range: %s", o.action.tolist())
                    a = o.action.double()
                    ok = a.abs() < lim - 1e-6
                    noise = a - mean
                    for i in range(len(x)):
                        if bool(ok[i].all()):
                            free += 1
                            lp = sum(-(e / var) ** 2 / 2 - math.log(var) - 0.5 * math.log(2 * math.pi) for e in noise[i].tolist())
                            close(o.log_prob[i, 0], lp, "log probability", 3e-3, 1e-2)
                    inner += (noise / var)[ok].tolist()
                expect(free > 0 or act == "linear" or var == 1.0, "no unclamped action in 20 batches")
            same(net(net.input_prototype()).action.shape, [1, da], "action for the prototype")
            ctx.state((ds, da, tuple(sizes), bn, act, var))
        ctx.run((ds, da, sizes, bn, act, var), case)
    for da, var in itertools.product((1, 2), (0.05, 0.2)):
        def moments():
            net = fill(FullyConnectedActor(1, da, [], [], exploration_variance=var), 29).eval()
            with torch.no_grad():
                for p in net.parameters():
                    p.zero_()
            torch.manual_seed(4)
            n = 40000
            a = net(fd(torch.zeros(n, 1))).action.double() / var
            expect(bool((a.mean(0).abs() < 0.03).all()), "mean of the noise %s", a.mean(0).tolist())
            expect(bool(((a.std(0) - 1).abs() < 0.03).all()), "scale of the noise %s", a.std(0).tolist())
            if da > 1:
                expect(abs((a[:, 0] * a[:, 1]).mean().item()) < 0.03, "noise of the components is not independent")
            expect(abs((a[1:, 0] * a[:-1, 0]).mean().item()) < 0.03, "noise of the rows is not independent")
        ctx.run(("noise", da, var), moments)


def gaussian_actor(ctx):
    for ds, da, sizes, bn, ln, l2 in itertools.product((1, 2), (1, 2, 3), ([], [3], [3, 2]), (False, True), (False, True), (False, True)):
        def case():
            acts = ["relu", "tanh"][: len(sizes)]
            net = fill(GaussianFullyConnectedActor(ds, da, sizes, acts, use_batch_norm=bn, use_layer_norm=ln, use_l2_normalization=l2), 31).eval()
            x = rows(ds)
            n = len(x)
            shapes(net, [ds] + sizes + [2 * da])
            raw = ref_fc(net.fc, x, acts + ["linear"], bn, ln)
            loc, sl = raw[:, :da], raw[:, da:]
            if ln:
                a, b = [m for m in of(net, nn.LayerNorm) if not any(m is k for k in of(net.fc, nn.LayerNorm))]
                loc, sl = layer_norm(a, loc), layer_norm(b, sl)
            sl = sl.clamp(-20, 2)
            sq = lambda t: (lambda s: s / torch.sqrt((s ** 2).sum(1, keepdim=True)) if l2 else s)(torch.tanh(t))
            torch.manual_seed(6)
            zs = []
            for rep in range(12):
                o = net(fd(x))
                same([list(o.action.shape), list(o.log_prob.shape), list(o.squashed_mean.shape)], [[n, da], [n, 1], [n, da]], "shapes")
                close(o.squashed_mean, sq(loc), "mean action", RT, AT)
                a = o.action.double()
                expect(bool((a.abs() <= 1 + 1e-6).all()), "action in the unit box")
                if l2:
                    close((a ** 2).sum(1), [1.0] * n, "norm of the action")
                    continue
                u = torch.atanh(a)
                z = (u - loc) / torch.exp(sl)
                lp = (-(z ** 2) / 2 - sl - 0.5 * math.log(2 * math.pi) - torch.log(1 - a ** 2 + 1e-6)).sum(1, keepdim=True)
                ok = (a.abs() < 0.995).all(1)
                for i in range(n):
                    if bool(ok[i]):
                        close(o.log_prob[i], lp[i], "log probability of the sampled action", 2e-2, 2e-2)
                        zs += z[i].tolist()
                close(net.get_log_prob(fd(x), o.action), o.log_prob, "log probability asked for again", 1e-4, 1e-4)
                ctx.step(n)
            if not l2:
                # every action of a grid in every state
                for act in itertools.product((-0.9, -0.3, 0.0, 0.5, 0.95), repeat=min(da, 2)):
                    act = (act + (0.2,))[:da] if da < 3 else act + (0.2,)
                    t = torch.tensor([act] * n)
                    u = torch.atanh(t.double())
                    z = (u - loc) / torch.exp(sl)
                    lp = (-(z ** 2) / 2 - sl - 0.5 * math.log(2 * math.pi) - torch.log(1 - t.double() ** 2 + 1e-6)).sum(1, keepdim=True)
                    close(net.get_log_prob(fd(x), t), lp, "log probability of %s" % (act,), 1e-3, 1e-3)
                    rowwise(lambda r: net.get_log_prob(fd(x[r]), t[r]), n, "log probability") if act[0] == 0.5 else None
            copies(ctx, net, lambda m: m(fd(x)).squashed_mean, "mean action")
            same(net(net.input_prototype()).action.shape, [1, da], "action for the prototype")
            ctx.state((ds, da, tuple(sizes), bn, ln, l2))
            ctx.outcome(sq(loc))
        ctx.run((ds, da, sizes, bn, ln, l2), case)

    def moments():
        for loc, sl in itertools.product((0.0, 0.3), (-1.0, -30.0, 0.0)):
            net = GaussianFullyConnectedActor(1, 2, [], [])
            with torch.no_grad():
                m, = of(net, nn.Linear)
                m.weight.zero_()
                m.bias.copy_(torch.tensor([loc, -loc, sl, sl]))
            torch.manual_seed(8)
            a = net(fd(torch.zeros(40000, 1))).action.double()
            z = (torch.atanh(a) - torch.tensor([loc, -loc])) / math.exp(max(sl, -20))
            if sl < -20:
                close(a[:10], [[math.tanh(loc), math.tanh(-loc)]] * 10, "action of a tiny scale")
                continue
            expect(bool((z.mean(0).abs() < 0.03).all()) and bool(((z.std(0) - 1).abs() < 0.03).all()), "moments of the noise %s %s", z.mean(0).tolist(), z.std(0).tolist())
            expect(abs((z[:, 0] * z[:, 1]).mean().item()) < 0.03 and abs((z[1:, 0] * z[:-1, 0]).mean().item()) < 0.03, "noise is not independent")
        # an extreme mean stays finite
        net = GaussianFullyConnectedActor(1, 1, [], [])
        with torch.no_grad():
            m, = of(net, nn.Linear)
            m.weight.zero_()
            for big in (30.0, -30.0, 100.0):
                m.bias.copy_(torch.tensor([big, 0.0]))
                o = net(fd(torch.zeros(3, 1)))
                expect(bool(torch.isfinite(o.log_prob).all()) and bool(torch.isfinite(o.action).all()), "saturated action %s %s", o.action.tolist(), o.log_prob.tolist())
    ctx.run("moments", moments)


def dirichlet_actor(ctx):
    for ds, da, sizes, bn in itertools.product((1, 2), (2, 3), ([], [3], [3, 2]), (False, True)):
        def case():
            acts = ["relu", "tanh"][: len(sizes)]
            net = fill(DirichletFullyConnectedActor(ds, da, sizes, acts, use_batch_norm=bn), 37)
            shapes(net, [ds] + sizes + [da])
            x = rows(ds)
            n = len(x)

            def logp(conc, a):
                return [math.lgamma(sum(c)) - sum(math.lgamma(k) for k in c) + sum((k - 1) * math.log(v) for k, v in zip(c, b)) for c, b in zip(conc.tolist(), a.double().tolist())]
            torch.manual_seed(9)
            for train in (False, True):
                net.train(train)
                conc = torch.exp(ref_fc(net, x, acts + ["linear"], bn, train=train)) + 1e-6
                for _ in range(6):
                    o = net(fd(x))
                    a = o.action
                    same(a.shape, [n, da], "action")
                    close(a.sum(1), [1.0] * n, "components sum to one")
                    expect(bool((a >= 0).all()), "negative component")
                    if train:
                        safe = [bool((a[i] > 1e-4).all()) for i in range(n)]
                        lp = logp(conc, a.clamp(min=1e-30))
                        for i in range(n):
                            if safe[i]:
                                close(o.log_prob[i], [lp[i]], "log probability", 2e-3, 2e-3)
                net.eval()
                conc = torch.exp(ref_fc(net, x, acts + ["linear"], bn)) + 1e-6
                for w in itertools.product((1, 2, 5), repeat=da):
                    a = torch.tensor([w], dtype=torch.float32).repeat(n, 1)
                    a = a / a.sum(1, keepdim=True)
                    got = net.get_log_prob(fd(x), a)
                    close(got, [[v] for v in logp(conc, a)], "log probability of %s" % (w,), 2e-3, 2e-3)
                    expect(not got.requires_grad, "gradient")
            ctx.state((ds, da, tuple(sizes), bn))
            ctx.outcome(conc)
            same(net(net.input_prototype()).action.shape, [1, da], "action for the prototype")
            # expectation of the sampled actions
            i = min(3, n - 1)
            big = x[i : i + 1].repeat(20000, 1)
            close(net(fd(big)).action.mean(0), conc[i] / conc[i].sum(), "mean action", 0.0, 0.03)
        ctx.run((ds, da, sizes, bn), case)


def stochastic_actor(ctx):
    def case():
        sc = fill(FullyConnectedDQN(2, 3, [2], ["tanh"]), 41).eval()
        net = StochasticActor(sc, GreedyActionSampler())
        x = rows(2)
        o = net(fd(x))
        same(o.action.argmax(1).tolist(), sc(fd(x)).argmax(1).tolist(), "action of the sampler")
        same(net(net.input_prototype()).action.shape, [1, 3], "action for the prototype")
    ctx.run("greedy", case)


# -- features ------------------------------------------------------------------------------------
def feature_config(nl, ns, share):
    tables = {"t0": 4} if share else {"t%d" % i: 4 + i for i in range(nl + ns)}
    names = list(tables)
    lists = [rlt.IdListFeatureConfig(name="l%d" % i, feature_id=i, id_mapping_name=names[0 if share else i]) for i in range(nl)]
    scores = [rlt.IdScoreListFeatureConfig(name="s%d" % i, feature_id=10 + i, id_mapping_name=names[0 if share else nl + i]) for i in range(ns)]
    maps = {k: rlt.IdMapping(ids=list(range(100, 100 + v))) for k, v in tables.items()}
    return rlt.ModelFeatureConfig(float_feature_infos=[], id_mapping_config=maps, id_list_feature_configs=lists, id_score_list_feature_configs=scores)


LISTS = [[], [0], [3], [1, 1], [0, 2, 3]]


def embedding(ctx):
    def bag(vals, scores=None):
        off, flat, w = [], [], []
        for v in vals:
            off.append(len(flat))
            flat += v
        t = (torch.tensor(off, dtype=torch.long), torch.tensor(flat, dtype=torch.long))
        if scores is not None:
            t += (torch.tensor([s for r in scores for s in r], dtype=torch.float32),)
        return t

    for nl, ns, share, dim, ds in itertools.product((0, 1, 2), (0, 1, 2), (False, True), (1, 2), (1, 2)):
        if nl + ns == 0 or (share and nl + ns == 1):
            continue
        for k in range(len(LISTS)):
            def case():
                cfg = feature_config(nl, ns, share)
                net = fill(EmbeddingBagConcat(ds, cfg, dim), 43).eval()
                same(net.output_dim, ds + (nl + ns) * dim, "output width")
                tabs = [m.weight.detach().double() for m in of(net, nn.EmbeddingBag)]
                same([list(t.shape) for t in tabs], [[len(m.ids), dim] for m in cfg.id_mapping_config.values()], "embedding tables")
                x = rows(ds, cap=5)[:5]
                n = len(x)
                ids = {"%s%d" % (c, i): [LISTS[(r + k + 2 * i + (c == "s")) % len(LISTS)] for r in range(n)] for c, m in (("l", nl), ("s", ns)) for i in range(m)}
                sc = {f: [[0.5 * (j + 1) * (-1 if r % 2 else 1) for j in range(len(v))] for r, v in enumerate(vs)] for f, vs in ids.items() if f[0] == "s"}

                def call(r):
                    return net(rlt.FeatureData(float_features=x[r], id_list_features={f: bag([v[i] for i in r]) for f, v in ids.items() if f[0] == "l"},
                                               id_score_list_features={f: bag([ids[f][i] for i in r], [sc[f][i] for i in r]) for f in sc}))
                y = rowwise(call, n, "output")
                keys = list(cfg.id_mapping_config)
                order = ["l%d" % i for i in range(nl)] + ["s%d" % i for i in range(ns)]
                want = []
                for r in range(n):
                    row = []
                    for j, f in enumerate(order):
                        t = tabs[0 if share else j]
                        acc = [0.0] * dim
                        for e, i in enumerate(ids[f][r]):
                            w = sc[f][r][e] if f[0] == "s" else 1.0
                            acc = [a + w * v for a, v in zip(acc, t[i].tolist())]
                        row += acc
                    want.append(row + x[r].tolist())
                close(y, want, "output", RT, AT)
                same(net(net.input_prototype()).shape, [1, net.output_dim], "output for the prototype")
                ctx.state((nl, ns, share, dim, ds, k))
                ctx.outcome(y)
                # in front of a q network
                q = fill(Sequential(net, rlt.TensorFeatureData(), FullyConnectedDQN(net.output_dim, 2, [2], ["relu"])), 44).eval()
                same(q(q.input_prototype()).shape, [1, 2], "value for the prototype")
            ctx.run((nl, ns, share, dim, ds, k), case)

    def seq():
        net = fill(Sequential(FullyConnectedDQN(2, 3, [2], ["relu"]), nn.Tanh(), nn.Linear(3, 1)), 45)
        x = rows(2)
        close(rowwise(lambda r: net(fd(x[r])), len(x), "output"), lin(net[2], torch.tanh(ref_fc(net[0], x, ["relu", "linear"]))), "output", RT, AT)
        same(net(net.input_prototype()).shape, [1, 1], "output for the prototype")
        copies(ctx, net, lambda m: m(fd(x)), "output")
        raises(lambda: Sequential(nn.Linear(2, 2)).input_prototype(), "prototype of a plain module")
    ctx.run("sequential", seq)

    def shared():
        class Net(ModelBase):
            def __init__(self):
                super().__init__()
                self.e = NoSoftUpdateEmbedding(3, 2)
                self.l = nn.Linear(2, 1)

            def forward(self, i):
                return self.l(self.e(i))
        net = fill(Net(), 46)
        t = net.get_target_network()
        expect(t.e.weight is net.e.weight, "the embedding of a target network is the embedding of the network")
        expect(t.l.weight is not net.l.weight, "the other parameters are its own")
        i = torch.tensor([0, 1, 2, 1])
        with torch.no_grad():
            net.e.weight.add_(1.0)
            net.l.weight.add_(1.0)
            close(t.e(i), net.e(i), "embedding")
            close(net(i) - t(i), net.e(i).sum(1, keepdim=True), "difference of the outputs")
        close(net.e(i), net.e.weight[i], "lookup")
    ctx.run("no-soft-update", shared)


def mlp_scorer(ctx):
    for ds, dc, layers, concat, log in itertools.product((1, 2), (1, 2), ([], [3], [3, 2]), (False, True), (False, True)):
        for docs in (1, 2, 3):
            def case():
                din = dc + (ds if concat else 0)
                net = fill(MLPScorer(input_dim=din, layer_sizes=list(layers), concat=concat, log_transform=log), 47)
                shapes(net, [din] + layers + [1])
                n = 4
                vals = (0.0, 0.5, 1.0, 3.0) if log else GRID
                x = torch.tensor([[vals[(i + j) % 4] for j in range(ds)] for i in range(n)])
                c = torch.tensor([[[vals[(i * docs + k + 2 * j) % 4] for j in range(dc)] for k in range(docs)] for i in range(n)])

                def call(r):
                    return net(rlt.FeatureData(float_features=x[r], candidate_docs=rlt.DocList(float_features=c[r], mask=torch.ones(len(r), docs, dtype=torch.bool), value=torch.zeros(len(r), docs))))
                y = rowwise(call, n, "score")
                f = (lambda t: torch.log(t.double().clamp(min=1e-12))) if log else (lambda t: t.double())
                inp = f(c)
                if concat:
                    inp = torch.cat([f(x).unsqueeze(1).repeat(1, docs, 1), inp], 2)
                want = inp
                ls = of(net, nn.Linear)
                for i, m in enumerate(ls):
                    want = lin(m, want)
                    if i < len(ls) - 1:
                        want = ACT["relu"](want)
                close(y, want.squeeze(-1), "score", RT, AT)
                close(c, c.clone(), "input")
                ctx.state((ds, dc, tuple(layers), concat, log, docs))
                ctx.outcome(y)
            ctx.run((ds, dc, layers, concat, log, docs), case)
    for dim, concat, log in itertools.product((2, 4, 7), (False, True), (False, True)):
        def proto():
            net = MLPScorer(input_dim=dim, layer_sizes=[3], concat=concat, log_transform=log)
            p = net.input_prototype()
            expect(isinstance(p, rlt.FeatureData), "no prototype: %s", p)
            y = net(p)
            same(list(y.shape), [p.candidate_docs.float_features.shape[0], p.candidate_docs.float_features.shape[1]], "scores for the prototype")
        ctx.run(("prototype", dim, concat, log), proto)


def convolution(ctx):
    for ch, (h, w), k, pool, layers in itertools.product((1, 2), ((4, 4), (5, 4)), ((1, 1), (2, 2), (2, 1)), (1, 2), (1, 2)):
        if layers == 2 and (pool == 2 or k == (2, 2)):
            continue

        def case():
            dims = [ch, 2, 3][: layers + 1]
            par = types.SimpleNamespace(conv_dims=dims, conv_height_kernels=[k[0]] * layers, conv_width_kernels=[k[1]] * layers, pool_types=["max"] * layers,
                                pool_kernels_strides=[pool] * layers, num_input_channels=ch, input_height=h, input_width=w)
            net = fill(ConvolutionalNetwork(par, [-1, 3, 2], ["relu", "linear"]), 53).eval()
            g = torch.Generator().manual_seed(2)
            x = torch.rand(5, ch, h, w, generator=g) * 3 - 1.5
            y = rowwise(lambda r: net(x[r]), 5, "output")
            t = x.double()
            for m in of(net, nn.Conv2d):
                W, b = m.weight.detach().double(), m.bias.detach().double()
                co, ci, kh, kw = W.shape
                same([kh, kw], list(k), "kernel")
                H, Wd = t.shape[2] - kh + 1, t.shape[3] - kw + 1
                o = b.reshape(1, co, 1, 1).repeat(5, 1, H, Wd)
                for c_, i, j in itertools.product(range(ci), range(kh), range(kw)):
                    o = o + W[:, c_, i, j].reshape(1, co, 1, 1) * t[:, c_ : c_ + 1, i : i + H, j : j + Wd]
                o = ACT["relu"](o)
                H, Wd = H // pool, Wd // pool
                t = torch.stack([torch.stack([o[:, :, i * pool : (i + 1) * pool, j * pool : (j + 1) * pool].amax((2, 3)) for j in range(Wd)], -1) for i in range(H)], -2)
            a, b = of(net, nn.Linear)
            close(y, lin(b, ACT["relu"](lin(a, t.reshape(5, -1)))), "output", RT, AT)
            ctx.state((ch, h, w, k, pool, layers))
            ctx.outcome(y)
        ctx.run((ch, h, w, k, pool, layers), case)


# -- recurrent networks --------------------------------------------------------------------------
def ref_lstm(m, xs, h0, c0):
    """xs: (T, B, D) -> outputs, (h, c) per layer"""
    sig = ACT["sigmoid"]
    hs, cs = [], []
    out = [x for x in xs.double()]
    H = m.hidden_size
    for l in range(m.num_layers):
        wi, wh, bi, bh = [getattr(m, "%s_l%d" % (k, l)).detach().double() for k in ("weight_ih", "weight_hh", "bias_ih", "bias_hh")]
        h, c = h0[l].double(), c0[l].double()
        new = []
        for x in out:
            g = x @ wi.T + bi + h @ wh.T + bh
            i, f, z, o = g[:, :H], g[:, H : 2 * H], g[:, 2 * H : 3 * H], g[:, 3 * H :]
            c = sig(f) * c + sig(i) * torch.tanh(z)
            h = sig(o) * torch.tanh(c)
            new.append(h)
        hs.append(h)
        cs.append(c)
        out = new
    return torch.stack(out), torch.stack(hs), torch.stack(cs)


def seqs(T, B, D, seed):
    g = torch.Generator().manual_seed(seed)
    return torch.rand(T, B, D, generator=g) * 3 - 1.5


def seq2reward(ctx):
    for ds, da, H, L, T in itertools.product((1, 2), (1, 2), (1, 3), (1, 2), (1, 2, 3)):
        for B in (1, 2, 3):
            def case():
                net = fill(Seq2RewardNetwork(ds, da, H, L), 59).eval()
                s, a = seqs(T, B, ds, 1), seqs(T, B, da, 2)
                h0 = (s[0].double() @ net.map_linear.weight.detach().double().T + net.map_linear.bias.detach().double()).unsqueeze(0).repeat(L, 1, 1)
                out, _, _ = ref_lstm(net.rnn, a, h0, torch.zeros(L, B, H))
                r = lin(net.lstm_linear, out)
                close(net(fd(s), fd(a)).acc_reward, r[-1], "reward of the sequence", RT, AT)
                rowwise(lambda i: net(fd(s[:, i]), fd(a[:, i])).acc_reward, B, "reward")
                s2 = s.clone()
                s2[1:] += 1
                close(net(fd(s2), fd(a)).acc_reward, r[-1], "only the first state is looked at", RT, AT)
                for ln in itertools.product(range(1, T + 1), repeat=B):
                    got = net(fd(s), fd(a), torch.tensor(ln)).acc_reward
                    close(got, torch.stack([r[v - 1, i] for i, v in enumerate(ln)]), "rewards of lengths %s" % (ln,), RT, AT)
                    ctx.state((ds, da, H, L, T, ln))
                same(net(*net.input_prototype()).acc_reward.shape, [1, 1], "reward for the prototype")
                ctx.outcome(r)
            ctx.run((ds, da, H, L, T, B), case)


def world_model(ctx):
    for ds, da, H, L, G in itertools.product((1, 2), (1, 2), (1, 3), (1, 2), (1, 2, 3)):
        for T, B in ((1, 1), (1, 2), (2, 3), (3, 1)):
            def case():
                net = fill(MemoryNetwork(ds, da, H, L, G), 61).eval()
                s, a = seqs(T, B, ds, 3), seqs(T, B, da, 4)
                o = net(fd(s), fd(a))
                m = net.mdnrnn
                out, h, c = ref_lstm(m.rnn, torch.cat([a, s], 2), torch.zeros(L, B, H), torch.zeros(L, B, H))
                y = lin(m.gmm_linear, out)
                same(y.shape[-1], (2 * ds + 1) * G + 2, "outputs")
                mu = y[..., : G * ds].reshape(T, B, G, ds)
                sg = torch.exp(y[..., G * ds : 2 * G * ds].reshape(T, B, G, ds))
                lp = y[..., 2 * G * ds : 2 * G * ds + G]
                lp = lp - torch.log(torch.exp(lp).sum(-1, keepdim=True))
                close(o.mus, mu, "means", RT, AT)
                close(o.sigmas, sg, "deviations", RT, AT)
                close(o.logpi, lp, "mixture weights", RT, AT)
                close(o.reward, y[..., -2], "reward", RT, AT)
                close(o.not_terminal, y[..., -1], "terminal signal", RT, AT)
                close(o.all_steps_lstm_hidden, out, "hidden states", RT, AT)
                close(o.last_step_lstm_hidden, h, "last hidden state", RT, AT)
                close(o.last_step_lstm_cell, c, "last cell state", RT, AT)
                rowwise(lambda i: net(fd(s[:, i]), fd(a[:, i])).mus.transpose(0, 1), B, "means")
                z = m.get_initial_hidden_state(B)
                close(m(a, s, z)[0], mu, "from the initial hidden state", RT, AT)
                if T > 1:  # the state carries over
                    first = m(a[:1], s[:1])
                    close(m(a[1:], s[1:], first[-1])[0], mu[1:], "continued from the state after one step", RT, AT)
                nx = seqs(T, B, ds, 5)
                ll = -0.5 * ((nx.double().unsqueeze(2) - mu) / sg) ** 2 - torch.log(sg) - 0.5 * math.log(2 * math.pi)
                mix = torch.log(torch.exp(lp + ll.sum(-1)).sum(-1))
                close(gmm_loss(nx, o.mus, o.sigmas, o.logpi), -mix.mean(), "mixture loss", 1e-3, 1e-3)
                close(gmm_loss(nx, o.mus, o.sigmas, o.logpi, reduce=False), -mix, "mixture losses", 1e-3, 1e-3)
                same(net(*net.input_prototype()).mus.shape, [1, 1, G, ds], "means for the prototype")
                ctx.state((ds, da, H, L, G, T, B))
                ctx.outcome(mu)
            ctx.run((ds, da, H, L, G, T, B), case)
    for cap, n in itertools.product((1, 2, 3), (1, 2, 3, 5)):
        def pool():
            import numpy as np
            p = MDNRNNMemoryPool(cap)
            for i in range(n):
                same(p.memory_size, min(i, cap), "size")
                t = torch.arange(2.0) + 10 * i
                p.insert_into_memory(t.unsqueeze(1), -t.unsqueeze(1), t.unsqueeze(1) + 1, t + 0.5, torch.ones(2) * i)
            same(p.memory_size, min(n, cap), "size")
            seen = set()
            np.random.seed(1)
            for _ in range(12):
                b = p.sample_memories(3)
                same([list(b.state.float_features.shape), list(b.action.shape), list(b.reward.shape)], [[2, 3, 1], [2, 3, 1], [2, 3]], "shapes")
                for j in range(3):
                    i = int(b.not_terminal[0, j])
                    seen.add(i)
                    expect(n - min(n, cap) <= i < n, "sequence %s is not in a memory of %s after %s", i, cap, n)
                    t = torch.arange(2.0) + 10 * i
                    same(b.state.float_features[:, j, 0], t, "states")
                    same(b.action[:, j, 0], -t, "actions")
                    same(b.next_state.float_features[:, j, 0], t + 1, "next states")
                    same(b.reward[:, j], t + 0.5, "rewards")
            same(seen, set(range(n - min(n, cap), n)), "sampled sequences") if False else same(sorted(seen), list(range(n - min(n, cap), n)), "sampled sequences")
        ctx.run(("pool", cap, n), pool)


# -- slate reward networks -----------------------------------------------------------------------
def ref_attention(m, q, k, v, mask):
    a, b, c, d = of(m, nn.Linear)
    B, Tq, D = q.shape
    hd, nh = m.d_k, m.num_heads
    same(hd * nh, D, "heads x width")
    Q, K, V = lin(a, q), lin(b, k), lin(c, v)
    out = []
    for h in range(nh):
        sl = slice(h * hd, (h + 1) * hd)
        sc = Q[..., sl] @ K[..., sl].transpose(1, 2) / math.sqrt(hd)
        sc = sc.masked_fill(mask == 0, float("-inf"))
        w = torch.exp(sc - sc.max(-1, keepdim=True)[0])
        out.append((w / w.sum(-1, keepdim=True)) @ V[..., sl])
    return lin(d, torch.cat(out, -1))


def ref_ff(m, x):
    a, b = of(m, nn.Linear)
    return lin(b, ACT["relu"](lin(a, x)))


def ref_pos(m, x):
    B, T, D = x.shape
    pos = torch.arange(T, dtype=torch.float64).reshape(1, T, 1).repeat(B, 1, 1)
    return ACT["relu"](lin(of(m, nn.Linear)[0], torch.cat([x, pos], 2)))


def ref_emb(m, x):
    return lin(m.linear, x.double()) * math.sqrt(m.linear.out_features)


def slate_data(B, ds, dc, n, m, perm0=0):
    st, ca = seqs(1, B, ds, 6)[0], seqs(B, n, dc, 7)
    perms = list(itertools.permutations(range(n), m))
    idx = torch.tensor([perms[(perm0 + i) % len(perms)] for i in range(B)])
    out = torch.stack([ca[i][idx[i]] for i in range(B)])
    return st, ca, idx, out


def slate_input(st, ca, idx, out):
    n = ca.shape[1]
    return rlt.PreprocessedRankingInput.from_tensors(state=st, src_seq=ca, tgt_out_seq=out, src_src_mask=torch.ones(len(st), n, n), tgt_out_idx=idx + 2)


def reward_gru(ctx):
    for ds, dc, L, D, (n, m) in itertools.product((1, 2), (1, 2), (1, 2), (2, 4), ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3))):
        def case():
            net = fill(Seq2SlateGRURewardNet(ds, dc, L, D, n, m), 67).eval()
            B = 4
            for p0 in range(len(list(itertools.permutations(range(n), m)))):
                st, ca, idx, out = slate_data(B, ds, dc, n, m, p0)
                got = rowwise(lambda r: net(slate_input(st[r], ca[r], idx[r], out[r])).predicted_reward, B, "reward")
                rest = [[j for j in range(n) if j not in idx[i].tolist()] for i in range(B)]
                seq = torch.stack([torch.cat([out[i], ca[i][rest[i]], net.end_of_seq_vec.detach().unsqueeze(0)], 0) for i in range(B)])
                x = torch.cat([ref_emb(net.state_embedder, st).unsqueeze(1).repeat(1, n + 1, 1), ref_emb(net.candidate_embedder, seq)], 2)
                g = net.gru
                hs = [v for v in x.transpose(0, 1)]
                for l in range(L):
                    wi, wh, bi, bh = [getattr(g, "%s_l%d" % (k, l)).detach().double() for k in ("weight_ih", "weight_hh", "bias_ih", "bias_hh")]
                    h, new = torch.zeros(B, D, dtype=torch.float64), []
                    for v in hs:
                        gi, gh = v @ wi.T + bi, h @ wh.T + bh
                        r, z = ACT["sigmoid"](gi[:, :D] + gh[:, :D]), ACT["sigmoid"](gi[:, D : 2 * D] + gh[:, D : 2 * D])
                        nn_ = torch.tanh(gi[:, 2 * D :] + r * gh[:, 2 * D :])
                        h = (1 - z) * nn_ + z * h
                        new.append(h)
                    hs = new
                o = torch.stack(hs, 1)
                last = hs[-1]
                w = torch.exp((o * last.unsqueeze(1)).sum(2) / math.sqrt(dc))
                w = w / w.sum(1, keepdim=True)
                want = lin(net.proj, torch.cat([last, (w.unsqueeze(2) * o).sum(1)], 1))
                close(got, want, "reward", RT, AT)
                ctx.state((ds, dc, L, D, n, m, p0))
            ctx.outcome(got)
            same(net(net.input_prototype()).predicted_reward.shape, [1, 1], "reward for the prototype")
            jit(net, ds, dc, n, m)
        ctx.run((ds, dc, L, D, n, m), case)


def jit(net, ds, dc, n, m):
    w = Seq2SlateRewardNetJITWrapper(net)
    t = torch.jit.trace(w, w.input_prototype(), check_trace=False)
    for B in (1, 2, 5):
        st, ca, idx, out = slate_data(B, ds, dc, n, m, 1)
        want = net(slate_input(st, ca, idx, out)).predicted_reward
        a = (st, ca, out, torch.ones(B, n, n), idx + 2)
        close(w(*a), want, "exported reward")
        close(t(*a), want, "traced reward of %d rows" % B)


def reward_transformer(ctx):
    for ds, dc, L, (nh, D), F_, (n, m) in itertools.product((1, 2), (1, 2), (1, 2), ((1, 2), (1, 4), (2, 4)), (2, 3), ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3))):
        if F_ == 3 and (ds, dc) != (2, 2):
            continue

        def case():
            net = fill(Seq2SlateTransformerRewardNet(ds, dc, L, nh, D, F_, n, m), 71).eval()
            B = 4
            for p0 in range(len(list(itertools.permutations(range(n), m)))):
                st, ca, idx, out = slate_data(B, ds, dc, n, m, p0)
                got = rowwise(lambda r: net(slate_input(st[r], ca[r], idx[r], out[r])).predicted_reward, B, "reward")
                se = ref_emb(net.state_embedder, st).unsqueeze(1)
                x = ref_pos(net.positional_encoding_encoder, torch.cat([se.repeat(1, n, 1), ref_emb(net.candidate_embedder, ca)], 2))
                full = torch.ones(B, n, n)
                for ly in net.encoder.layers:
                    y = layer_norm(ly.sublayer[0].norm, x)
                    x = x + ref_attention(ly.self_attn, y, y, y, full)
                    x = x + ref_ff(ly.feed_forward, layer_norm(ly.sublayer[1].norm, x))
                mem = layer_norm(net.encoder.norm, x)
                seq = torch.cat([net.decoder_start_vec.detach().reshape(1, 1, dc).repeat(B, 1, 1), out], 1)
                x = ref_pos(net.positional_encoding_decoder, torch.cat([se.repeat(1, m + 1, 1), ref_emb(net.candidate_embedder, seq)], 2))
                tri = torch.tril(torch.ones(1, m + 1, m + 1))
                for ly in net.decoder.layers:
                    y = layer_norm(ly.sublayer[0].norm, x)
                    x = x + ref_attention(ly.self_attn, y, y, y, tri)
                    x = x + ref_attention(ly.src_attn, layer_norm(ly.sublayer[1].norm, x), mem, mem, torch.ones(B, m + 1, n))
                    x = x + ref_ff(ly.feed_forward, layer_norm(ly.sublayer[2].norm, x))
                want = lin(net.proj, layer_norm(net.decoder.norm, x)[:, -1])
                close(got, want, "reward", 1e-3, 1e-4)
                ctx.state((ds, dc, L, nh, D, F_, n, m, p0))
            ctx.outcome(got)
            same(net(net.input_prototype()).predicted_reward.shape, [1, 1], "reward for the prototype")
            jit(net, ds, dc, n, m)
        ctx.run((ds, dc, L, nh, D, F_, n, m), case)


# -- builders ------------------------------------------------------------------------------------
def norm(n, kinds=("CONTINUOUS",), enum=0, first=0):
    p = {first + i: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0) for i in range(n - enum)}
    if enum:
        p[first + 50] = NormalizationParameters(feature_type="ENUM", possible_values=list(range(10, 10 + enum)))
    return NormalizationData(dense_normalization_parameters=p)


def union(u, name, kw):
    cls = getattr(unions, u)
    return cls(**{name: type_of(cls, name)(**kw)}).value


def type_of(u, name):
    import dataclasses
    import typing
    t = {f.name: f.type for f in dataclasses.fields(u)}[name]
    args = typing.get_args(t)
    return [a for a in args if a is not type(None)][0] if args else t


def agree(a, b, calls, what):
    b.load_state_dict(a.state_dict())
    a.eval()
    b.eval()
    for c in calls:
        close(c(a), c(b), what)


BSIZES = [([3], ["tanh"]), ([4, 2], ["relu", "sigmoid"]), ([2], ["leaky_relu"]), ([], [])]


def builders(ctx):
    D = "DiscreteDQNNetBuilder__Union"
    cfg = rlt.ModelFeatureConfig(float_feature_infos=[])
    for (sizes, acts), ds, enum, out in itertools.product(BSIZES, (1, 2, 3), (0, 2), (1, 2, 3)):
        if enum >= ds and enum:
            continue
        nd = norm(ds, enum=enum)
        x = rows(ds)
        call = lambda m: m(fd(x))
        base = dict(sizes=sizes, activations=acts)
        for drop, bn in itertools.product((0.0, 0.5), (False, True)):
            def dqn():
                net = fill(union(D, "FullyConnected", dict(base, dropout_ratio=drop, use_batch_norm=bn)).build_q_network(cfg, nd, out), 1).eval()
                shapes(net, [ds] + sizes + [out])
                close(call(net), ref_fc(net, x, acts + ["linear"], bn), "q", RT, AT)
                same([m.p for m in of(net, nn.Dropout)], [drop] * len(sizes) if drop else [], "dropout layers")
                ctx.state(("dqn", ds, tuple(sizes), out, drop, bn))
            ctx.run(("dqn", sizes, ds, enum, out, drop, bn), dqn)
        def others():
            if sizes and sizes[-1] % 2 == 0:
                net = fill(union(D, "Dueling", base).build_q_network(cfg, nd, out), 1).eval()
                close(call(net), ref_dueling(net, x, acts, False, None, out)[0], "dueling q", RT, AT)
                net = fill(union("QRDQNNetBuilder__Union", "DuelingQuantile", base).build_q_network(nd, out, 3), 1).eval()
                close(call(net), ref_dueling(net, x, acts, False, 3, out)[0], "dueling quantiles", RT, AT)
            elif sizes:
                raises(lambda: union(D, "Dueling", base).build_q_network(cfg, nd, out), "dueling with an odd embedding")
            for drop in (0.0, 0.5):
                net = fill(union("QRDQNNetBuilder__Union", "Quantile", dict(base, dropout_ratio=drop)).build_q_network(nd, out, 3), 1).eval()
                close(call(net), ref_fc(net, x, acts + ["linear"]).reshape(len(x), out, 3), "quantiles", RT, AT)
                same([m.p for m in of(net, nn.Dropout)], [drop] * len(sizes) if drop else [], "dropout layers")
            net = fill(union("CategoricalDQNNetBuilder__Union", "Categorical", base).build_q_network(nd, out, 4, -3, 5), 1).eval()
            lg = torch.log_softmax(ref_fc(net, x, acts + ["linear"]).reshape(len(x), out, 4), -1)
            close(call(net), (torch.exp(lg) * torch.linspace(-3, 5, 4)).sum(-1), "categorical q", RT, AT)
            for ln in (False, True):
                net = fill(union("ValueNetBuilder__Union", "FullyConnected", dict(base, use_layer_norm=ln)).build_value_network(nd, out), 1).eval()
                shapes(net, [ds] + sizes + [out])
                close(net(x), ref_fc(net, x, acts + ["linear"], False, ln), "value", RT, AT)
            net = union("ValueNetBuilder__Union", "FullyConnected", base).build_value_network(nd)
            shapes(net, [ds] + sizes + [1])
            for dim, drop in itertools.product((1, 3), (0.0, 0.5)):
                fc = feature_config(1, 1, False)
                net = fill(union(D, "FullyConnectedWithEmbedding", dict(base, embedding_dim=dim, dropout_ratio=drop)).build_q_network(fc, nd, out), 1).eval()
                shapes(net, [ds + 2 * dim] + sizes + [out])
                same([m.p for m in of(net, nn.Dropout)], [drop] * len(sizes) if drop else [], "dropout layers")
                ids = (torch.tensor([0, 1]), torch.tensor([2, 0, 3]))
                xx = x[:2]
                inp = rlt.FeatureData(float_features=xx, id_list_features={"l0": ids}, id_score_list_features={"s0": ids + (torch.tensor([1.0, 2.0, -1.0]),)})
                e0, e1 = [m.weight.detach().double() for m in of(net, nn.EmbeddingBag)]
                emb = torch.cat([torch.stack([e0[2], e0[0] + e0[3]]), torch.stack([e1[2], 2 * e1[0] - e1[3]]), xx.double()], 1)
                close(net(inp), ref_fc(net, emb, acts + ["linear"]), "q with embeddings", RT, AT)
                same(net(net.input_prototype()).shape, [1, out], "q for the prototype")
            ctx.step(8)
        ctx.run(("values", sizes, ds, enum, out), others)

        def actors():
            act_nd = norm(out, first=100)
            for bn, ln in itertools.product((False, True), repeat=2):
                kw = dict(base, use_batch_norm=bn, use_layer_norm=ln)
                for od in (1, 2):
                    net = fill(union("ParametricDQNNetBuilder__Union", "FullyConnected", kw).build_q_network(nd, act_nd, output_dim=od), 1).eval()
                    shapes(net, [ds + out] + sizes + [od])
                    xa = rows(ds + out)
                    close(net(fd(xa[:, :ds]), fd(xa[:, ds:])), ref_fc(net, xa, acts + ["linear"], bn, ln), "parametric q", RT, AT)
                shapes(union("ParametricDQNNetBuilder__Union", "FullyConnected", kw).build_q_network(nd, act_nd), [ds + out] + sizes + [1])
                for aa, ev in itertools.product(("tanh", "sigmoid", "linear"), (None, 0.1)):
                    for u, mk in (("ContinuousActorNetBuilder__Union", lambda b: b.build_actor(nd, act_nd)), ("DiscreteActorNetBuilder__Union", lambda b: b.build_actor(nd, out))):
                        b = union(u, "FullyConnected", dict(kw, action_activation=aa, exploration_variance=ev))
                        net = fill(mk(b), 1).eval()
                        shapes(net, [ds] + sizes + [out])
                        want = ref_fc(net, x, acts + [aa], bn, ln)
                        if ev is None:
                            close(call(net).action, want, "%s action" % u, RT, AT)
                        else:
                            torch.manual_seed(1)
                            o = call(net)
                            inner = (o.action.abs() < 0.999).all(1)
                            e = (o.action.double() - want) / ev
                            lp = (-(e ** 2) / 2 - math.log(ev) - 0.5 * math.log(2 * math.pi)).sum(1, keepdim=True)
                            close(o.log_prob[inner], lp[inner], "log probability", 3e-3, 1e-2)
                for l2 in (False, True):
                    net = fill(union("ContinuousActorNetBuilder__Union", "GaussianFullyConnected", dict(kw, use_l2_normalization=l2)).build_actor(nd, act_nd), 1).eval()
                    agree(net, GaussianFullyConnectedActor(ds, out, sizes, acts, use_batch_norm=bn, use_layer_norm=ln, use_l2_normalization=l2),
                          [lambda m: call(m).squashed_mean] + ([] if l2 else [lambda m: m.get_log_prob(fd(x), torch.full((len(x), out), 0.3))]), "gaussian actor")
                    if l2:
                        close((call(net).action ** 2).sum(1), [1.0] * len(x), "norm of the action")
                if not ln:
                    net = fill(union("ContinuousActorNetBuilder__Union", "DirichletFullyConnected", dict(base, use_batch_norm=bn)).build_actor(nd, act_nd), 1).eval()
                    shapes(net, [ds] + sizes + [out])
                    if out > 1:
                        w = torch.full((len(x), out), 1.0 / out)
                        agree(net, DirichletFullyConnectedActor(ds, out, sizes, acts, use_batch_norm=bn), [lambda m: m.get_log_prob(fd(x), w)], "dirichlet actor")
            ctx.step(8)
        ctx.run(("actors", sizes, ds, enum, out), actors)

    def misc():
        bad = dict(sizes=[3], activations=["relu", "relu"])
        for u, names in (("DiscreteDQNNetBuilder__Union", ("FullyConnected", "Dueling", "FullyConnectedWithEmbedding")), ("QRDQNNetBuilder__Union", ("Quantile", "DuelingQuantile")),
                         ("CategoricalDQNNetBuilder__Union", ("Categorical",)), ("ParametricDQNNetBuilder__Union", ("FullyConnected",)), ("ValueNetBuilder__Union", ("FullyConnected",)),
                         ("ContinuousActorNetBuilder__Union", ("FullyConnected", "GaussianFullyConnected", "DirichletFullyConnected")), ("DiscreteActorNetBuilder__Union", ("FullyConnected",))):
            for nme in names:
                raises(lambda: union(u, nme, bad), "%s.%s with more activations than sizes" % (u, nme))
                b = union(u, nme, {})
                same(len(b.sizes), len(b.activations), "default sizes")
                b2 = union(u, nme, {})
                b.sizes.append(7)
                expect(b2.sizes != b.sizes, "defaults of two builders are one list")
        for nme, p in (("FullyConnected", "CONTINUOUS_ACTION"), ("GaussianFullyConnected", "CONTINUOUS_ACTION"), ("DirichletFullyConnected", "DO_NOT_PREPROCESS")):
            same(union("ContinuousActorNetBuilder__Union", nme, {}).default_action_preprocessing, p, "action preprocessing of " + nme)
    ctx.run("refusals", misc)


def sequence_builders(ctx):
    for ds, da, H, L in itertools.product((1, 2), (2, 3), (2, 3), (1, 2)):
        def s2r():
            net = fill(union("ValueNetBuilder__Union", "Seq2RewardNetBuilder", dict(action_dim=da, num_hiddens=H, num_hidden_layers=L)).build_value_network(norm(ds)), 1)
            s, a = seqs(2, 2, ds, 1), seqs(2, 2, da, 2)
            agree(net, Seq2RewardNetwork(ds, da, H, L), [lambda m: m(fd(s), fd(a)).acc_reward], "seq2reward")
            ctx.state((ds, da, H, L))
        ctx.run(("seq2reward", ds, da, H, L), s2r)
    for n, m in ((1, 1), (2, 1), (3, 2), (3, 3)):
        for L, D in itertools.product((1, 2), (2, 4)):
            def rewards():
                st, ca, idx, out = slate_data(3, 2, 1, n, m)
                call = lambda k: k(slate_input(st, ca, idx, out)).predicted_reward
                for wise in (True, False):
                    b = SlateRewardGRU(gru=GRUParameters(dim_model=D, num_stacked_layers=L), fit_slate_wise_reward=wise)
                    same(b.expect_slate_wise_reward, wise, "slate wise")
                    agree(fill(b.build_slate_reward_network(2, 1, n, m), 1), Seq2SlateGRURewardNet(2, 1, L, D, n, m), [call], "gru reward")
                    for nh, F_ in ((1, 2), (2, 3)):
                        b = SlateRewardTransformer(transformer=TransformerParameters(num_heads=nh, dim_model=D, dim_feedforward=F_, num_stacked_layers=L), fit_slate_wise_reward=wise)
                        same(b.expect_slate_wise_reward, wise, "slate wise")
                        net = fill(b.build_slate_reward_network(2, 1, n, m), 1)
                        agree(net, Seq2SlateTransformerRewardNet(2, 1, L, nh, D, F_, n, m), [call], "transformer reward")
                for arch, nh, F_, se in itertools.product(Seq2SlateOutputArch, (1, 2), (2, 3), (None, 1)):
                    b = SlateRankingTransformer(output_arch=arch, temperature=1.0, transformer=TransformerParameters(num_heads=nh, dim_model=D, dim_feedforward=F_, num_stacked_layers=L, state_embed_dim=se))
                    net = fill(b.build_slate_ranking_network(2, 1, n, m), 1)
                    one = Seq2SlateTransformerNet(state_dim=2, candidate_dim=1, num_stacked_layers=L, dim_model=D, max_src_seq_len=n, max_tgt_seq_len=m, output_arch=arch, temperature=1.0, num_heads=nh, dim_feedforward=F_, state_embed_dim=se)
                    inp = rlt.PreprocessedRankingInput.from_input(state=st, candidates=ca, device=torch.device("cpu"), action=idx)
                    rank = lambda k: k(inp, mode=Seq2SlateMode.RANK_MODE, greedy=True).ranked_tgt_out_idx
                    calls = [rank] + ([] if arch == Seq2SlateOutputArch.ENCODER_SCORE else [lambda k: k(inp, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs])
                    agree(net, one, calls, "ranking %s" % arch)
                    same(rank(net).shape, [3, m], "length of the slate")
                    ctx.state((n, m, L, D, str(arch), nh, F_, se))
                ctx.step(20)
            ctx.run(("slate", n, m, L, D), rewards)


def groups(tier):
    return [
        ("fully-connected", fully_connected),
        ("stack-options", fc_misc),
        ("q-networks", q_networks),
        ("dueling", dueling),
        ("wiring", wiring),
        ("categorical", categorical),
        ("bcq", bcq),
        ("critic", critic),
        ("deterministic-actor", deterministic_actor),
        ("gaussian-actor", gaussian_actor),
        ("dirichlet-actor", dirichlet_actor),
        ("stochastic-actor", stochastic_actor),
        ("embedding", embedding),
        ("mlp-scorer", mlp_scorer),
        ("convolution", convolution),
        ("seq2reward", seq2reward),
        ("world-model", world_model),
        ("reward-gru", reward_gru),
        ("reward-transformer", reward_transformer),
        ("builders", builders),
        ("sequence-builders", sequence_builders),
    ]

"""T09: world models, sequence-to-reward and cross-entropy planning against scalar references."""
import copy
import itertools
import math
import random

import numpy as np
import torch
import torch.nn as nn

from mc.core import close, expect, same
from mc.rng import ScriptedRandom

import reagent.types as rlt
from reagent.core.tracker import Observer
from reagent.evaluation.compress_model_evaluator import CompressModelEvaluator
from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator
from reagent.evaluation.world_model_evaluator import FeatureImportanceEvaluator, FeatureSensitivityEvaluator, LossEvaluator
from reagent.models.cem_planner import CEMPlannerNetwork
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mdn_rnn import MDNRNNMemoryPool, gmm_loss
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import CEMTrainerParameters, MDNRNNTrainerParameters, Seq2RewardTrainerParameters
from reagent.training.cem_trainer import CEMTrainer
from reagent.training.utils import gen_permutations
from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer, get_Q

LEVEL = "model_checking"
RULE = (
    "every shape (sequence length, batch, mixtures, layers), every loss weighting and option, every valid length combination; every choice of "
    "candidates, world models, mixture components and terminal draws of the planner; compared with a step-by-step LSTM, mixture likelihood, "
    "discounted sum and elite update. Non-trivial: more than one step or candidate"
)
ASSUMPTIONS = ["float32 tolerance", "weights, and the real-valued candidates of continuous planning, from a few fixed pseudo-random sets",
               "planner bounds with upper > lower; no ties between candidate values"]


def rnd(*shape, k=0, scale=1.0):
    return torch.tensor(np.random.RandomState(100 + k).normal(size=shape) * scale, dtype=torch.float32)


def fill(m, k, scale=0.7):
    g = np.random.RandomState(k)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.tensor(g.normal(size=tuple(p.shape)) * scale, dtype=torch.float32))
    return m


def sig(x):
    return 1 / (1 + np.exp(-x))


def lstm(sd, prefix, xs, layers, h0=None):
    """xs: list of vectors of one sequence -> hidden of the last layer at every step"""
    for l in range(layers):
        wi, wh, bi, bh = (sd["%s%s_l%d" % (prefix, n, l)].double().numpy() for n in ("weight_ih", "weight_hh", "bias_ih", "bias_hh"))
        n = wh.shape[1]
        h = np.zeros(n) if h0 is None else h0
        c = np.zeros(n)
        out = []
        for x in xs:
            z = wi @ x + bi + wh @ h + bh
            i, f, g, o = sig(z[:n]), sig(z[n:2 * n]), np.tanh(z[2 * n:3 * n]), sig(z[3 * n:])
            c = f * c + i * g
            h = o * np.tanh(c)
            out.append(h)
        xs = out
    return xs


def ref_out(m, states, actions, S, G, layers):
    """per step: mu[G][S], sigma[G][S], logpi[G], reward, not-terminal logit"""
    sd = {k: v for k, v in m.state_dict().items()}
    hs = lstm(sd, "mdnrnn.rnn.", [np.concatenate([a, s]) for a, s in zip(actions, states)], layers)
    w, b = sd["mdnrnn.gmm_linear.weight"].double().numpy(), sd["mdnrnn.gmm_linear.bias"].double().numpy()
    out = []
    for h in hs:
        y = w @ h + b
        mu = y[:G * S].reshape(G, S)
        sg = np.exp(y[G * S:2 * G * S].reshape(G, S))
        lp = y[2 * G * S:2 * G * S + G]
        lp = lp - (lp.max() + math.log(np.exp(lp - lp.max()).sum()))
        out.append((mu, sg, lp, y[-2], y[-1]))
    return out


def nll(x, mu, sg, lp):
    t = [lp[g] + sum(-0.5 * ((x[d] - mu[g][d]) / sg[g][d]) ** 2 - math.log(sg[g][d]) - 0.5 * math.log(2 * math.pi) for d in range(len(x))) for g in range(len(lp))]
    m = max(t)
    return -(m + math.log(sum(math.exp(v - m) for v in t)))


def mdn_batch(L, B, S, A, k=0, nt=None):
    nt = nt if nt is not None else (rnd(L, B, k=k + 5) > 0).float()
    return rlt.MemoryNetworkInput(
        state=rlt.FeatureData(rnd(L, B, S, k=k)), action=rnd(L, B, A, k=k + 1), next_state=rlt.FeatureData(rnd(L, B, S, k=k + 2)),
        reward=rnd(L, B, k=k + 3), time_diff=torch.ones(L, B), not_terminal=nt, step=None)


def ref_losses(m, b, S, G, layers, weights, last, norm):
    L, B = b.reward.shape
    gm, bc, ms = [], [], []
    for i in range(B):
        outs = ref_out(m, b.state.float_features[:, i].double().numpy(), b.action[:, i].double().numpy(), S, G, layers)
        for t in range(L):
            if last and t != L - 1:
                continue
            mu, sg, lp, r, nt = outs[t]
            gm.append(nll(b.next_state.float_features[t, i].double().numpy(), mu, sg, lp))
            y = float(b.not_terminal[t, i])
            bc.append(max(nt, 0) - nt * y + math.log(1 + math.exp(-abs(nt))))
            ms.append((r - float(b.reward[t, i])) ** 2)
    wr, wn, wt = weights
    g, c, e = np.mean(gm) * wn, np.mean(bc) * wt, np.mean(ms) * wr
    return dict(gmm=g, bce=c, mse=e, loss=(g / (S + 2) if norm else g) + c + e)


def torch_loss(m, b, S, G, weights, last):
    """the same objective from the network's own outputs, for gradients"""
    o = m(b.state, rlt.FeatureData(b.action))
    L, B = b.reward.shape
    terms = []
    for t in range(L - 1 if last else 0, L):
        for i in range(B):
            z = (b.next_state.float_features[t, i] - o.mus[t, i]) / o.sigmas[t, i]
            ll = torch.logsumexp(o.logpi[t, i] + (-0.5 * z ** 2 - torch.log(o.sigmas[t, i]) - 0.5 * math.log(2 * math.pi)).sum(1), 0)
            nt, y = o.not_terminal[t, i], b.not_terminal[t, i]
            bce = -(y * torch.log(torch.sigmoid(nt)) + (1 - y) * torch.log(torch.sigmoid(-nt)))
            terms.append(-ll * weights[1] / (S + 2) + bce * weights[2] + (o.reward[t, i] - b.reward[t, i]) ** 2 * weights[0])
    return sum(terms) / len(terms)


WEIGHTS = [(1.0, 1.0, 1.0), (2.0, 0.5, 0.0), (0.0, 3.0, 1.5)]


def mdnrnn(part, big):
    def fn(ctx):
        for L, B, S, A, G, layers in itertools.product((1, 2, 3), (1, 2, 3) if big else (1, 2), (1, 2), (1, 2), (1, 2, 3), (1, 2)):
            if (L + B + S + A + G + layers) % 4 != part:
                continue
            for weights, last, seed in itertools.product(WEIGHTS, (False, True), range(3 if big else 1)):
                def case():
                    m = fill(MemoryNetwork(S, A, 3, layers, G), 7 + seed)
                    p = MDNRNNTrainerParameters(learning_rate=0.05, reward_loss_weight=weights[0], next_state_loss_weight=weights[1],
                                                not_terminal_loss_weight=weights[2], fit_only_one_next_step=last, num_gaussians=G)
                    tr = MDNRNNTrainer(m, p)
                    rm = copy.deepcopy(m)
                    opt = torch.optim.Adam(rm.parameters(), lr=0.05)
                    for t in range(2):
                        b = mdn_batch(L, B, S, A, 10 * t + seed)
                        want = ref_losses(m, b, S, G, layers, weights, last, True)
                        ev = LossEvaluator(tr, S).evaluate(b)
                        expect(m.mdnrnn.training, "evaluation left the network in evaluation mode")
                        un = tr.get_loss(b)
                        w2 = ref_losses(m, b, S, G, layers, weights, last, False)
                        got = tr.train(b)
                        for k in ("gmm", "bce", "mse", "loss"):
                            close(got[k], want[k], k, rtol=1e-3)
                            close(ev[k], want[k], "evaluated " + k, rtol=1e-3)
                            close(float(un[k]), w2[k], "unnormalized " + k, rtol=1e-3)
                        for name, q in (("loss", tr.cum_loss), ("gmm", tr.cum_gmm), ("bce", tr.cum_bce), ("mse", tr.cum_mse)):
                            same(len(q), t + 1, "history")
                            close(q[-1], want[name], "history of " + name, rtol=1e-3)
                        opt.zero_grad()
                        torch_loss(rm, b, S, G, weights, last).backward()
                        opt.step()
                        for (n_, a), c in zip(m.named_parameters(), rm.parameters()):
                            d = (a - c).abs().max()
                            expect(d < 4e-3 or torch.allclose(a, c, rtol=1e-3), "parameter %s after step %d differs by %s", n_, t, float(d))
                        rm.load_state_dict(m.state_dict())
                        ctx.step()
                        ctx.state((L, B, S, A, G, layers, weights, last, seed, t))
                        ctx.outcome(round(want["loss"], 5))
                ctx.run((L, B, S, A, G, layers, weights, last, seed), case, nontrivial=L > 1)
    return fn


def mixture(ctx):
    for lead in ((), (1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2), (2, 1, 2)):
        for G, S in itertools.product((1, 2, 3), (1, 2)):
            def case():
                for k in range(4):
                    x, mu = rnd(*lead, S, k=k), rnd(*lead, G, S, k=k + 1)
                    sg = torch.exp(rnd(*lead, G, S, k=k + 2))
                    lp = torch.log_softmax(rnd(*lead, G, k=k + 3, scale=(1, 30)[k % 2]), -1)
                    want = {}
                    for idx in itertools.product(*[range(v) for v in lead]):
                        want[idx] = nll(x[idx].double().numpy(), mu[idx].double().numpy(), sg[idx].double().numpy(), lp[idx].double().numpy())
                    got = gmm_loss(x, mu, sg, lp, reduce=False)
                    same(tuple(got.shape), tuple(lead), "shape of the unreduced loss")
                    for idx, w in want.items():
                        close(float(got[idx]), w, "loss of %s" % (idx,), rtol=1e-3)
                    close(float(gmm_loss(x, mu, sg, lp)), np.mean(list(want.values())), "mean loss", rtol=1e-3)
                    far = gmm_loss(x + 60, mu, sg * 0.05, lp)
                    expect(math.isfinite(float(far)), "an unlikely state has no finite loss")
                    ctx.step()
                    ctx.state((lead, G, S, k))
            ctx.run(("mixture", lead, G, S), case, nontrivial=G > 1)


def pool(ctx):
    for cap, n in itertools.product((1, 2, 3), (1, 2, 3, 5)):
        def case():
            p = MDNRNNMemoryPool(cap)
            for i in range(n):
                p.insert_into_memory(torch.full((2, 3), float(i)), torch.full((2, 1), i + 0.1), torch.full((2, 3), i + 0.2), torch.tensor([i + 0.3, i + 0.35]), torch.tensor([1.0, float(i % 2)]))
                same(p.memory_size, min(i + 1, cap), "size")
            seen = set()
            for k in range(12):
                np.random.seed(k)
                b = p.sample_memories(4)
                same(tuple(b.state.float_features.shape), (2, 4, 3), "state shape")
                for j in range(4):
                    i = float(b.state.float_features[0, j, 0])
                    seen.add(i)
                    expect(n - min(n, cap) <= i < n and i == int(i), "memory %s is not stored", i)
                    close(b.state.float_features[:, j], [[i] * 3] * 2, "state")
                    close(b.action[:, j], [[i + 0.1]] * 2, "action")
                    close(b.next_state.float_features[:, j], [[i + 0.2] * 3] * 2, "next state")
                    close(b.reward[:, j], [i + 0.3, i + 0.35], "reward")
                    close(b.not_terminal[:, j], [1.0, float(i % 2)], "not terminal")
            same(len(seen), min(n, cap), "every stored memory can be sampled")
            ctx.step(n)
            ctx.state((cap, n))
        ctx.run(("pool", cap, n), case)


# -- feature importance and sensitivity -----------------------------------------------------------
def importance(ctx):
    for L, B, sb, ab, discrete, last in itertools.product((1, 2), (1, 3), ([0, 1], [0, 2], [0]), ([0, 1, 2], [0, 2], [0]), (True, False), (False, True)):
        S, A = 3, 3

        def case():
            if discrete and ab != [0, 1, 2]:
                return
            m = fill(MemoryNetwork(S, A, 3, 1, 2), 9)
            tr = MDNRNNTrainer(m, MDNRNNTrainerParameters(num_gaussians=2, fit_only_one_next_step=last))
            b = mdn_batch(L, B, S, A, 3)

            def onehots(x, bounds, dim, k):
                """multi-column features are one-hot"""
                x = x.clone()
                ends = bounds[1:] + [dim]
                for s, e in zip(bounds, ends):
                    if e - s > 1:
                        c = torch.tensor(np.random.RandomState(k).randint(e - s, size=x.shape[:-1]))
                        x[..., s:e] = nn.functional.one_hot(c, e - s).float()
                return x
            if discrete:
                acts = nn.functional.one_hot(torch.tensor(np.random.RandomState(4).randint(A, size=(L, B))), A).float()
            else:
                acts = onehots(b.action, ab, A, 5)
            st = onehots(b.state.float_features, sb, S, 6)
            b = rlt.MemoryNetworkInput(state=rlt.FeatureData(st), action=acts, next_state=b.next_state, reward=b.reward, time_diff=b.time_diff, not_terminal=b.not_terminal, step=None)
            keep = (st.clone(), acts.clone())

            def loss(s, a):
                x = rlt.MemoryNetworkInput(state=rlt.FeatureData(s), action=a, next_state=b.next_state, reward=b.reward, time_diff=b.time_diff, not_terminal=b.not_terminal, step=None)
                return ref_losses(m, x, S, 2, 1, WEIGHTS[0], last, True)["loss"]

            def typical(x, s, e):
                x = x.clone()
                flat = x[..., s:e].reshape(-1, e - s)
                if e - s == 1:
                    v = flat.mean(0)
                else:
                    cnt = flat.sum(0).tolist()
                    mid = sorted(cnt)[(len(cnt) - 1) // 2]
                    v = torch.zeros(e - s)
                    v[cnt.index(mid)] = 1
                x[..., s:e] = v
                return x
            o = loss(st, acts)
            want = []
            for i, (s, e) in enumerate(zip(ab, ab[1:] + [A])):
                if discrete:
                    z = torch.zeros_like(acts)
                    z[..., i] = 1
                    want.append(loss(st, z) - o)
                else:
                    want.append(loss(st, typical(acts, s, e)) - o)
            for s, e in zip(sb, sb[1:] + [S]):
                want.append(loss(typical(st, s, e), acts) - o)
            got = FeatureImportanceEvaluator(tr, discrete, len(sb), len(ab), list(ab), list(sb)).evaluate(b)
            close(got["feature_loss_increase"], want, "importance", rtol=2e-3, atol=2e-4)
            expect(m.mdnrnn.training, "left in evaluation mode")
            expect(torch.equal(keep[0], b.state.float_features) and torch.equal(keep[1], b.action), "the batch was changed")
            for perm in itertools.permutations(range(B)):
                try:
                    with ScriptedRandom(perm=lambda n: list(perm)):
                        sens = FeatureSensitivityEvaluator(tr, len(sb), list(sb)).evaluate(b)["feature_sensitivity"]
                except RuntimeError as e:
                    if "unexpected random draw" not in str(e):
                        raise
                    return
                diff = np.zeros((L, B, 2, S))
                for i in range(B):
                    a0 = ref_out(m, st[:, i].double().numpy(), acts[:, i].double().numpy(), S, 2, 1)
                    a1 = ref_out(m, st[:, i].double().numpy(), acts[:, perm[i]].double().numpy(), S, 2, 1)
                    for t in range(L):
                        diff[t, i] = np.abs(a0[t][0] - a1[t][0])
                close(sens, [diff[..., s:e].sum(-1).mean() for s, e in zip(sb, sb[1:] + [S])], "sensitivity", rtol=2e-3, atol=1e-4)
            ctx.step()
            ctx.state((L, B, sb, ab, discrete, last))
        ctx.run(("importance", L, B, sb, ab, discrete, last), case)


# -- sequence to reward -----------------------------------------------------------------------------
class Spy(Observer):
    def __init__(self, keys):
        super().__init__(list(keys))
        self.got = []

    def update(self, key, value):
        value = value.tolist() if torch.is_tensor(value) else value
        if isinstance(value, list) and len(value) == 1 and isinstance(value[0], (int, float)):
            value = value[0]
        self.got.append((key, value))


def s2r_ref(net, layers, s0, acts):
    sd = net.state_dict()
    h0 = sd["map_linear.weight"].double().numpy() @ s0 + sd["map_linear.bias"].double().numpy()
    hs = lstm(sd, "rnn.", acts, layers, h0)
    w, b = sd["lstm_linear.weight"].double().numpy(), sd["lstm_linear.bias"].double().numpy()
    return [float(w[0] @ h + b[0]) for h in hs]


def q_ref(net, layers, s0, A, steps):
    best = [-1e30] * A
    for seq in itertools.product(range(A), repeat=steps):
        v = s2r_ref(net, layers, s0, [np.eye(A)[a] for a in seq])[-1]
        best[seq[0]] = max(best[seq[0]], v)
    return best


def permutations(ctx):
    for n, a in itertools.product((1, 2, 3, 4), (1, 2, 3)):
        def case():
            g = gen_permutations(n, a)
            want = sorted(itertools.product(range(a), repeat=n))
            same([tuple(r) for r in g.argmax(2).T.tolist()], want, "sequences")
            same(g.sum(2).tolist(), [[1.0] * len(want)] * n, "one-hot")
            ctx.step()
            ctx.state((n, a))
        ctx.run(("permutations", n, a), case)


def seq2reward(big):
    def fn(ctx):
        S = 2
        for L, B, A, layers, steps in itertools.product((1, 2, 3), (1, 2), (2, 3), (1, 2), (1, 2, 3)):
            if steps < L:
                continue
            for lens in itertools.product(range(1, L + 1), repeat=B):
                for gamma, view in ((1.0, True), (0.5, True), (0.9, False)):
                    if not big and (layers == 2 or steps == 3) and gamma != 0.5:
                        continue

                    def case():
                        names = [str(i) for i in range(A)]
                        net = fill(Seq2RewardNetwork(S, A, 3, layers), 11)
                        p = Seq2RewardTrainerParameters(learning_rate=0.05, multi_steps=steps, action_names=names, gamma=gamma, view_q_value=view,
                                                        step_predict_net_size=4, compress_model_learning_rate=0.05)
                        tr = Seq2RewardTrainer(net, p)
                        fill(tr.step_predict_network, 12)
                        spy = Spy(["mse_loss", "step_entropy_loss", "q_values"])
                        tr.add_observer(spy)
                        st, r = rnd(L, B, S, k=1), rnd(L, B, k=2)
                        idx = np.random.RandomState(3).randint(A, size=(L, B))
                        act = nn.functional.one_hot(torch.tensor(idx), A).float()
                        b = rlt.MemoryNetworkInput(state=rlt.FeatureData(st), action=act, next_state=rlt.FeatureData(rnd(L, B, S, k=4)), reward=r, time_diff=torch.ones(L, B),
                                                   not_terminal=torch.ones(L, B), step=None, valid_next_seq_len=torch.tensor(lens).reshape(B, 1))
                        rnet, rstep = copy.deepcopy(net), copy.deepcopy(tr.step_predict_network)
                        err, ent = [], []
                        for i in range(B):
                            pred = s2r_ref(net, layers, st[0, i].double().numpy(), list(act[:, i].double().numpy()))[lens[i] - 1]
                            err.append((pred - sum(gamma ** t * float(r[t, i]) for t in range(lens[i]))) ** 2)
                            z = tr.step_predict_network(st[0])[i].double().detach().numpy()
                            ent.append(-(z[lens[i] - 1] - z.max() - math.log(np.exp(z - z.max()).sum())))
                        # evaluation first, then one step
                        ev = Seq2RewardEvaluator(tr)
                        spy2 = Spy(["mse_loss", "step_entropy_loss", "q_values", "action_distribution"])
                        ev.add_observer(spy2)
                        q0 = [q_ref(net, layers, st[0, i].double().numpy(), A, steps) for i in range(B)]
                        got = ev.evaluate(b)
                        dist = [sum(1.0 for q in q0 if int(np.argmax(q)) == a) / B for a in range(A)]
                        close(got, (np.mean(err), np.mean(ent), np.mean(q0, 0).tolist(), dist), "evaluation", rtol=1e-3, atol=1e-4)
                        close(dict(spy2.got), dict(mse_loss=np.mean(err), step_entropy_loss=np.mean(ent), q_values=[np.mean(q0, 0).tolist()], action_distribution=[dist]), "reported evaluation", rtol=1e-3, atol=1e-4)
                        close(get_Q(net, st[0], gen_permutations(steps, A)), q0, "values of the first actions", rtol=1e-3, atol=1e-4)
                        out = tr.train(b)
                        close(out[:2], (np.mean(err), np.mean(ent)), "losses", rtol=1e-3, atol=1e-4)
                        # gradients
                        opt = [torch.optim.Adam(rnet.parameters(), lr=0.05), torch.optim.Adam(rstep.parameters(), lr=0.05)]
                        o = rnet(b.state, rlt.FeatureData(act), torch.tensor(lens)).acc_reward[:, 0]
                        loss = sum((o[i] - sum(gamma ** t * r[t, i] for t in range(lens[i]))) ** 2 for i in range(B)) / B
                        loss.backward()
                        z = rstep(st[0])
                        (sum(torch.logsumexp(z[i], 0) - z[i, lens[i] - 1] for i in range(B)) / B).backward()
                        for x in opt:
                            x.step()
                        for a, c in zip(list(net.parameters()) + list(tr.step_predict_network.parameters()), list(rnet.parameters()) + list(rstep.parameters())):
                            expect((a - c).abs().max() < 4e-3, "parameters after the step differ by %s", float((a - c).abs().max()))
                        q1 = np.mean([q_ref(net, layers, st[0, i].double().numpy(), A, steps) for i in range(B)], 0).tolist() if view else [0] * A
                        close(out[2], q1, "values after the step", rtol=1e-3, atol=1e-4)
                        close(dict(spy.got), dict(mse_loss=np.mean(err), step_entropy_loss=np.mean(ent), q_values=[q1]), "reported", rtol=1e-3, atol=1e-4)
                        # the compressed model
                        cm = fill(FullyConnectedNetwork([S, 4, A], ["relu", "linear"]), 13)
                        ct = CompressModelTrainer(cm, net, p)
                        rc = copy.deepcopy(cm)
                        frozen = [x.clone() for x in net.parameters()]
                        q2 = [q_ref(net, layers, st[0, i].double().numpy(), A, steps) for i in range(B)]
                        y = cm(st[0]).detach()
                        mse = np.mean([(float(y[i, a]) - q2[i][a]) ** 2 for i in range(B) for a in range(A)])
                        acc = np.mean([int(np.argmax(q2[i])) == int(y[i].argmax()) for i in range(B)])
                        ce = CompressModelEvaluator(ct)
                        spy3 = Spy(["mse_loss", "accuracy", "q_values", "action_distribution"])
                        ce.add_observer(spy3)
                        d2 = [sum(1.0 for q in q2 if int(np.argmax(q)) == a) / B for a in range(A)]
                        close(ce.evaluate(b), (mse, np.mean(q2, 0).tolist(), d2, acc), "compressed evaluation", rtol=1e-3, atol=1e-4)
                        close(dict(spy3.got), dict(mse_loss=mse, accuracy=acc, q_values=[np.mean(q2, 0).tolist()], action_distribution=[d2]), "reported compressed evaluation", rtol=1e-3, atol=1e-4)
                        spy4 = Spy(["mse_loss", "accuracy"])
                        ct.add_observer(spy4)
                        close(ct.train(b), (mse, acc), "compressed training", rtol=1e-3, atol=1e-4)
                        close(dict(spy4.got), dict(mse_loss=mse, accuracy=acc), "reported compressed training", rtol=1e-3, atol=1e-4)
                        x = torch.optim.Adam(rc.parameters(), lr=0.05)
                        ((rc(st[0]) - torch.tensor(q2, dtype=torch.float32)) ** 2).mean().backward()
                        x.step()
                        for a, c in zip(cm.parameters(), rc.parameters()):
                            expect((a - c).abs().max() < 4e-3, "the compressed model after the step differs by %s", float((a - c).abs().max()))
                        expect(all(torch.equal(a, c) for a, c in zip(net.parameters(), frozen)), "compression changed the sequence model")
                        ctx.step()
                        ctx.state((L, B, A, layers, steps, lens, gamma, view))
                        ctx.outcome(round(float(np.mean(err)), 5))
                    ctx.run((L, B, A, layers, steps, lens, gamma, view), case, nontrivial=L > 1)
    return fn


# -- planning ---------------------------------------------------------------------------------------
class World(nn.Module):
    """A deterministic (or scripted) world model that records what it is asked."""

    def __init__(self, step, log, name, sigma=1e-9):
        super().__init__()
        self.step, self.log, self.name, self.sigma = step, log, name, sigma

    def forward(self, state, action):
        s, a = state.float_features.reshape(-1).tolist(), action.float_features.reshape(-1).tolist()
        mus, logits, r, nt = self.step(s, a)
        self.log.append((self.name, tuple(s), tuple(a)))
        G, S = len(mus), len(mus[0])
        z = torch.zeros(1)
        return rlt.MemoryNetworkOutput(mus=torch.tensor(mus).reshape(1, 1, G, S), sigmas=torch.full((1, 1, G, S), self.sigma), logpi=torch.log_softmax(torch.tensor(logits).reshape(1, 1, G), -1),
                                       reward=torch.tensor([[float(r)]]), not_terminal=torch.tensor([[float(nt)]]), last_step_lstm_hidden=z, last_step_lstm_cell=z, all_steps_lstm_hidden=z)


def worlds(term, flat=False):
    """two models; state is one number; action one-hot (discrete) or a number; flat: rewards -1, 0 and 1"""
    if flat:
        def whole(w):
            def step(s, a):
                mus, logits, r, nt = w(s, a)
                return mus, logits, round(r), nt
            return step
        return tuple(whole(w) for w in worlds(term))

    def w0(s, a):
        v = sum((i + 1) * x for i, x in enumerate(a))
        return [[s[0] + 0.5 * v]], [0.0], math.sin(3 * s[0] + 2 * v) + 0.3 * v, (-200.0 if s[0] + 0.5 * v > term else 200.0)

    def w1(s, a):
        v = sum((i + 1) * x for i, x in enumerate(a))
        return [[s[0] - 0.25 * v + 0.1]], [0.0], math.cos(2 * s[0] + v) - 0.2 * v, (-200.0 if s[0] - 0.25 * v + 0.1 < -term else 200.0)
    return w0, w1


def split(log, step_of, s0, horizon, terminal):
    """the recorded queries as trajectories: (model, actions, discountable rewards)"""
    out, i = [], 0
    while i < len(log):
        name, s, a = log[i]
        close(s, s0, "first state of a trajectory")
        acts, rews = [], []
        cur = s
        for j in range(horizon):
            expect(i < len(log), "the last trajectory ends early")
            n2, s, a = log[i]
            same(n2, name, "world model within one trajectory")
            close(s, cur, "state %d of a trajectory" % j, rtol=1e-4, atol=1e-5)
            i += 1
            mus, _, r, nt = step_of[name](list(s), list(a))
            acts.append(a)
            rews.append(r)
            cur = tuple(mus[0])
            if terminal and nt < 0:
                break
        out.append((name, acts, rews))
    return out


def discrete(big):
    def fn(ctx):
        for A, H in ((2, 1), (2, 2), (3, 1), (3, 2), (2, 3)):
            seqs = list(itertools.product(range(A), repeat=H))
            for pop in (1, 2, 3) + ((4,) if big else ()):
                for ens, gamma, terminal, term, flat in itertools.product((1, 2), (1.0, 0.5), (True, False), (0.4, 1.2), (False, True)):
                    picks = list(itertools.product(range(len(seqs)), repeat=pop))
                    if len(picks) > 130 and not big:
                        picks = picks[:: len(picks) // 100]

                    def case():
                        for pick in picks:
                            for models in ((0,), (0, 1), (1, 0, 0)):
                                log, fs = [], worlds(term, flat)
                                planner = CEMPlannerNetwork(
                                    mem_net_list=[World(fs[0], log, 0), World(fs[1], log, 1)], cem_num_iterations=1, cem_population_size=pop, ensemble_population_size=ens,
                                    num_elites=1, plan_horizon_length=H, state_dim=1, action_dim=A, discrete_action=True, terminal_effective=terminal, gamma=gamma)
                                it = itertools.cycle(models)
                                choices, randint = random.choices, np.random.randint
                                used = []

                                def fake(population, *a, **k):
                                    used.append(1)
                                    pp = sorted(population)
                                    return [pp[i % len(pp)] for i in pick]
                                random.choices = fake
                                np.random.randint = lambda *a, **k: next(it)
                                try:
                                    idx, hot = planner(rlt.FeatureData(torch.tensor([[0.3]])))
                                finally:
                                    random.choices, np.random.randint = choices, randint
                                tj = split(log, fs, (0.3,), H, terminal)
                                same(len(tj), pop * ens, "trajectories")
                                tot, cnt = [0.0] * A, [0] * A
                                for i in range(pop):
                                    vs = []
                                    for e in range(ens):
                                        name, acts, rews = tj[i * ens + e]
                                        if used:
                                            want = [tuple(float(a == q) for q in range(A)) for a in seqs[pick[i]]][: len(acts)]
                                            same([tuple(a) for a in acts], want, "actions of candidate %d" % i)
                                        vs.append(sum(gamma ** t * r for t, r in enumerate(rews)))
                                    first = max(range(A), key=lambda q: acts[0][q])
                                    tot[first] += np.mean(vs)
                                    cnt[first] += 1
                                avg = {a: tot[a] / cnt[a] for a in range(A) if cnt[a]}
                                best = max(avg.values())
                                expect(avg.get(int(idx), -1e9) >= best - 1e-5, "action %s chosen among %s", idx, avg)
                                same(hot.tolist(), [float(a == int(idx)) for a in range(A)], "one-hot action")
                                ctx.step(len(log))
                                ctx.state((A, H, pop, ens, gamma, terminal, term, flat, pick, models))
                                ctx.outcome(int(idx))
                    ctx.run(("discrete", A, H, pop, ens, gamma, terminal, term) + (("flat",) if flat else ()), case, nontrivial=pop > 1)
    return fn


def continuous(big):
    def fn(ctx):
        for A, H, iters, pop, elites, ens in itertools.product((1, 2), (1, 2), (1, 2, 3), (4, 11), (1, 3, 4), (1, 2)):
            for alpha, eps, terminal, (lo, hi) in itertools.product((0.25, 0.0), (0.001, 0.3), (True, False), ((-1.0, 1.0), (0.0, 3.0), (-2.0, -0.5))):
                if not big and ens == 2 and (alpha == 0.0 or A == 2):
                    continue

                def case():
                    for seed in range(3 if big else 1):
                        log, fs = [], worlds(1.0)
                        lower, upper = np.array([lo] * A) - np.arange(A) * 0.5, np.array([hi] * A)
                        planner = CEMPlannerNetwork(
                            mem_net_list=[World(fs[0], log, 0), World(fs[1], log, 1)], cem_num_iterations=iters, cem_population_size=pop, ensemble_population_size=ens,
                            num_elites=elites, plan_horizon_length=H, state_dim=1, action_dim=A, discrete_action=False, terminal_effective=terminal, gamma=0.8, alpha=alpha, epsilon=eps,
                            action_upper_bounds=upper, action_lower_bounds=lower)
                        np.random.seed(seed + 17)
                        act = planner(rlt.FeatureData(torch.tensor([[0.3]])))
                        tj = split(log, fs, (0.3,), H, terminal)
                        per = pop * ens
                        expect(len(tj) % per == 0 and per <= len(tj) <= per * iters, "%d trajectories", len(tj))
                        mean, var = np.tile((lower + upper) / 2, H), np.tile((upper - lower) ** 2 / 16, H)
                        lowH, upH = np.tile(lower, H), np.tile(upper, H)
                        full = True
                        for it in range(iters):
                            expect(len(tj) >= per * (it + 1), "planning stopped after %d iterations", it)
                            cands, vals = [], []
                            cv = np.minimum(np.minimum(((mean - lowH) / 2) ** 2, ((upH - mean) / 2) ** 2), var)
                            for i in range(pop):
                                group = tj[per * it + i * ens:per * it + (i + 1) * ens]
                                acts = max((g[1] for g in group), key=len)
                                for g in group:
                                    same(g[1], acts[: len(g[1])], "actions of one candidate")
                                c = np.array([x for a in acts for x in a])
                                if len(acts) < H:
                                    full = False
                                n = len(c)
                                expect(np.all(c >= lowH[:n] - 1e-5) and np.all(c <= upH[:n] + 1e-5), "candidate %s outside of the bounds", c)
                                expect(np.all(np.abs(c - mean[:n]) <= 2 * np.sqrt(cv[:n]) + 1e-4) if full else True, "candidate %s is not drawn around %s", c, mean)
                                cands.append(np.concatenate([c, np.full(A * H - n, np.nan)]))
                                vals.append(np.mean([sum(0.8 ** t * r for t, r in enumerate(g[2])) for g in group]))
                            best = sorted(range(pop), key=lambda i: vals[i])[-elites:]
                            e = np.array([cands[i] for i in best])
                            mean = alpha * mean + (1 - alpha) * e.mean(0)
                            var = alpha * var + (1 - alpha) * e.var(0)
                            if not np.isfinite(var).all():
                                # a terminated candidate hides its later actions
                                break
                            if np.max(var) <= eps:
                                same(len(tj), per * (it + 1), "trajectories when the variance is small")
                                break
                        got = act.reshape(-1).tolist()
                        expect(len(got) == A and all(-1.0 - 1e-6 <= v <= 1.0 + 1e-6 for v in got), "action %s", got)
                        # the first action is always visible
                        if np.isfinite(mean[:A]).all() and (np.isfinite(var).all() or iters == 1):
                            want = [(mean[i] - lower[i]) / (upper[i] - lower[i]) * 2 - 1 for i in range(A)]
                            close(got, want, "planned action", rtol=1e-3, atol=1e-4)
                        ctx.step(len(log))
                        ctx.state((A, H, iters, pop, elites, ens, alpha, eps, terminal, lo, seed))
                        ctx.outcome([round(v, 3) for v in got])
                ctx.run(("continuous", A, H, iters, pop, elites, ens, alpha, eps, terminal, lo), case)
    return fn


def sampling(ctx):
    """one sampled step of a stochastic world model"""
    mus, logits = [[1.0, -2.0], [5.0, 7.0], [0.0, 0.5]], [0.2, -1.0, 1.3]
    pi = np.exp(logits) / np.exp(logits).sum()
    for terminal, nt, comp in itertools.product((True, False), (-1.0, 0.0, 2.0), range(3)):
        def case():
            for z, u in itertools.product(itertools.product((-1.0, 0.5), repeat=2), (0.05, 0.4, 0.6, 0.95)):
                log = []
                w = World(lambda s, a: (mus, logits, 0.75, nt), log, 0, sigma=0.5)
                planner = CEMPlannerNetwork(mem_net_list=[w], cem_num_iterations=1, cem_population_size=1, ensemble_population_size=1, num_elites=1, plan_horizon_length=1, state_dim=2,
                                            action_dim=2, discrete_action=True, terminal_effective=terminal, gamma=1.0)
                p = 1 / (1 + math.exp(-nt))

                def pick(row, n, repl):
                    close(np.array(row) / sum(row), pi, "mixture probabilities")
                    return [comp] * n
                with ScriptedRandom(normal=lambda n: z[:n], uniform=lambda n: [u] * n, multinomial=pick):
                    r, nxt, alive, prob = planner.sample_reward_next_state_terminal(rlt.FeatureData(torch.zeros(1, 1, 2)), rlt.FeatureData(torch.zeros(1, 1, 2)), w)
                close(float(r), 0.75, "reward")
                close(nxt, [mus[comp][0] + 0.5 * z[0], mus[comp][1] + 0.5 * z[1]], "next state")
                close(float(prob), p if terminal else 1.0, "probability of going on")
                same(bool(alive), (u < p) if terminal else True, "going on")
                ctx.step()
                ctx.state((terminal, nt, comp, z, u))
        ctx.run(("sampling", terminal, nt, comp), case)


def ensemble(ctx):
    for k in (1, 2, 3):
        def case():
            ms = [fill(MemoryNetwork(2, 2, 3, 1, 2), 30 + i) for i in range(k)]
            refs = [copy.deepcopy(m) for m in ms]
            p = MDNRNNTrainerParameters(learning_rate=0.05, num_gaussians=2)
            tr = CEMTrainer(nn.Linear(1, 1), [MDNRNNTrainer(m, p) for m in ms], CEMTrainerParameters(mdnrnn=p))
            alone = [MDNRNNTrainer(m, p) for m in refs]
            for t in range(3):
                b = mdn_batch(2, 2, 2, 2, 40 + t)
                tr.train(b)
                for a in alone:
                    a.train(b)
                for m, r in zip(ms, refs):
                    for a, c in zip(m.parameters(), r.parameters()):
                        close(a, c, "parameters of the ensemble")
                same(tr.minibatch, t + 1, "minibatches")
                ctx.step()
                ctx.state((k, t))
        ctx.run(("ensemble", k), case)


def groups(tier):
    big = tier == "thorough"
    return [("mdnrnn-%d" % i, mdnrnn(i, big)) for i in range(4)] + [
        ("mixture", mixture), ("pool", pool), ("importance", importance), ("permutations", permutations), ("seq2reward", seq2reward(big)),
        ("discrete", discrete(big)), ("continuous", continuous(big)), ("sampling", sampling), ("ensemble", ensemble)]

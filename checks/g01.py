"""G01: exploration policies draw actions with exactly the probability they report."""
import itertools
import math

import gym
import numpy as np
import torch

from mc.core import close, expect, raises, same, seed_all
from mc.rng import ScriptedRandom

import reagent.types as rlt
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
from reagent.gym.policies.random_policies import make_random_policy_for_env
from reagent.gym.policies.samplers.continuous_sampler import GaussianSampler
from reagent.gym.policies.samplers.discrete_sampler import EpsilonGreedyActionSampler, GreedyActionSampler, SoftmaxActionSampler
from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.gym.policies.scorers.continuous_scorer import sac_scorer
from reagent.gym.policies.scorers.discrete_scorer import (
    apply_possible_actions_mask, discrete_dqn_scorer, discrete_dqn_serving_scorer, parametric_dqn_scorer, parametric_dqn_serving_scorer,
)
from reagent.gym.policies.scorers.slate_q_scorer import slate_q_scorer, slate_q_serving_scorer
from reagent.gym.types import GaussianSamplerScore
from reagent.models.actor import FullyConnectedActor, GaussianFullyConnectedActor
from reagent.parameters import RLParameters

LEVEL = "exploration"
RULE = (
    "every score vector over a small alphabet (with impossible actions) for two to four actions, every temperature and epsilon, every outcome the random source can "
    "have, every pair of rows in a batch; every mask; every sequence of up to four epsilon updates. Non-trivial: more than one action possible. The weights handed to "
    "the random source are the draw probabilities; they are compared with the closed form and with every reported log-probability"
)
ASSUMPTIONS = ["at least one action is possible", "scores of greedy ties may go to either action", "a sampler that draws by other means than a categorical draw is judged by its log-probabilities only"]
NEG = -math.inf


class Draw:
    """scripts categorical draws: row i takes picks[i]; records the probabilities"""

    def __init__(self, picks):
        self.picks, self.rows = list(picks), []

    def __call__(self, row, n, replacement):
        tot = sum(row)
        k = self.picks[len(self.rows) % len(self.picks)]
        self.rows.append([x / tot for x in row])
        return [k] * n


def draw(fn, picks):
    d = Draw(picks)
    try:
        with ScriptedRandom(multinomial=d):
            return fn(), d.rows
    except RuntimeError as e:
        if "unexpected random draw" in str(e):
            return None, []
        raise


def softmax(x, t=1.0):
    m = max(x)
    e = [0.0 if v == NEG else math.exp((v - m) / t) for v in x]
    return [v / sum(e) for v in e]


def ln(p):
    return NEG if p <= 0 else math.log(p)


def vectors(n, alphabet):
    return [v for v in itertools.product(alphabet, repeat=n) if any(x != NEG for x in v)]


def check_sampler(ctx, sampler, rows, want, what):
    """rows: batch of score rows, want: their draw probabilities"""
    n = len(rows[0])
    scores = torch.tensor(rows)
    for picks in itertools.product(range(n), repeat=len(rows)):
        if any(want[i][k] == 0 for i, k in enumerate(picks)):
            continue
        out, probs = draw(lambda: sampler.sample_action(scores.clone()), picks)
        ctx.step()
        if out is not None and probs:
            close(probs, want, what + ": draw probabilities")
            same(out.action.argmax(1), list(picks), what + ": drawn action")
            same(out.action.sum(1), [1] * len(rows), what + ": one-hot action")
            close(out.log_prob.reshape(-1), [ln(want[i][k]) for i, k in enumerate(picks)], what + ": log-probability of the drawn action", atol=2e-5)
    for picks in itertools.product(range(n), repeat=len(rows)):
        action = torch.eye(n)[list(picks)]
        lp = sampler.log_prob(scores.clone(), action).reshape(-1).tolist()
        for i, k in enumerate(picks):
            if want[i][k] > 0:
                close(lp[i], ln(want[i][k]), what + ": log-probability of a logged action", atol=2e-5)
            else:
                expect(lp[i] < -15, "%s: log-probability %s of an action that is never drawn", what, lp[i])
    seed_all(5)
    for _ in range(2):
        out = sampler.sample_action(scores.clone())
        for i, k in enumerate(out.action.argmax(1).tolist()):
            expect(want[i][k] > 0, "%s: drew an impossible action", what)
            close(out.log_prob.reshape(-1)[i], ln(want[i][k]), what + ": reported log-probability", atol=2e-5)


def batches(vs):
    for i, v in enumerate(vs):
        yield (v,)
        yield (v, vs[(i * 7 + 3) % len(vs)])
    yield tuple(vs[:3])


def softmax_sampler(big):
    def fn(ctx):
        for n, alphabet in ((2, (0.0, 1.0, -2.0, NEG)), (3, (0.0, 1.5, NEG) if not big else (0.0, 1.5, -1.0, NEG)), (4, (0.0, 2.0) if not big else (0.0, 2.0, NEG))):
            for t in (0.5, 1.0, 4.0):
                for rows in batches(vectors(n, alphabet)):
                    def case():
                        s = SoftmaxActionSampler(temperature=t)
                        want = [softmax(r, t) for r in rows]
                        check_sampler(ctx, s, rows, want, "softmax")
                        ent = [-sum(p * math.log(p) for p in w if p > 0) for w in want]
                        if all(x != NEG for r in rows for x in r):
                            close(s.entropy(torch.tensor(rows)), sum(ent) / len(ent), "entropy", atol=2e-5)
                        ctx.outcome(want)
                    ctx.run((n, t, rows), case)
        for t in (0.0, -1.0):
            ctx.run(("invalid", t), lambda: raises(lambda: SoftmaxActionSampler(temperature=t), "temperature"), nontrivial=False)
    return fn


def unique_max(r):
    return sum(x == max(r) for x in r) == 1


def greedy_samplers(big):
    def fn(ctx):
        for n, alphabet in ((2, (0.0, 1.0, -2.0, NEG)), (3, (0.0, 1.5, -1.0, NEG)), (4, (0.0, 2.0, 3.0))):
            vs = [v for v in vectors(n, alphabet) if unique_max(v)]
            for rows in batches(vs):
                best = [list(r).index(max(r)) for r in rows]

                def greedy():
                    want = [[float(k == b) for k in range(n)] for b in best]
                    check_sampler(ctx, GreedyActionSampler(), rows, want, "greedy")
                    out = GreedyActionSampler().sample_action(torch.tensor(rows))
                    same(out.action.argmax(1), best, "greedy action")
                    close(out.log_prob.reshape(-1), [0.0] * len(rows), "greedy log-probability")
                ctx.run(("greedy", rows), greedy)
                for e in (0.0, 0.1, 0.5, 1.0):
                    def eps():
                        want = []
                        for r, b in zip(rows, best):
                            ok = sum(x != NEG for x in r)
                            want.append([0.0 if x == NEG else e / ok + (1 - e) * (k == b) for k, x in enumerate(r)])
                        check_sampler(ctx, EpsilonGreedyActionSampler(e), rows, want, "epsilon greedy")
                        ctx.outcome(want)
                    ctx.run(("epsilon", e, rows), eps)
    return fn


def epsilon_decay(ctx):
    for e, d, m in itertools.product((1.0, 0.5, 0.1), (1.0, 0.5, 0.9), (0.0, 0.2, 0.5)):
        def case():
            s = EpsilonGreedyActionSampler(e, epsilon_decay=d, minimum_epsilon=m)
            cur, scores = e, torch.tensor([[0.0, 1.0, 0.5]])
            for k in range(5):
                want = [[cur / 3, 1 - cur + cur / 3, cur / 3]]
                check_sampler(ctx, s, [(0.0, 1.0, 0.5)], want, "after %d updates" % k)
                s.update()
                cur = max(cur * d, m)
                ctx.state((e, d, m, k))
            for other in (SoftmaxActionSampler(), GreedyActionSampler()):
                other.update()
                close(other.sample_action(torch.tensor([[0.0, 100.0]])).action, [[0, 1]], "sampler after an update")
        ctx.run((e, d, m), case)


def topk(ctx):
    for n in (2, 3, 4):
        for perm in itertools.permutations(range(n)):
            for k in range(1, n + 1):
                for B in (1, 2):
                    def case():
                        rows = [[float(x) for x in perm]] + [[float(-x) for x in perm]] * (B - 1)
                        out = TopKSampler(k=k).sample_action(torch.tensor(rows))
                        same(out.action, [sorted(range(n), key=lambda j: -r[j])[:k] for r in rows], "top-k items")
                        close(out.log_prob.reshape(-1), [0.0] * B, "log-probability")
                    ctx.run((perm, k, B), case)


# ------------------------------------------------------------------ scorers
class Net(torch.nn.Module):
    def __init__(self, fn):
        super().__init__()
        self.fn, self.modes = fn, []

    def forward(self, *a, **k):
        self.modes.append(self.training)
        return self.fn(*a, **k)


def fd(rows):
    return rlt.FeatureData(float_features=torch.tensor(rows))


def masks(n):
    return [None] + [m for m in itertools.product((0, 1), repeat=n) if any(m)]


def discrete_scorers(ctx):
    for n in (2, 3, 4):
        vals = [0.5, -1.0, 2.0, 0.25][:n]
        for m in masks(n):
            for kind in ("q", "quantiles", "serving"):
                def case():
                    def q(x):
                        return torch.tensor([vals]) + x.reshape(-1, 1)
                    mask = None if m is None else np.array(m)
                    want = [NEG if m is not None and not m[k] else vals[k] + 3.0 for k in range(n)]
                    if kind == "serving":
                        net = Net(lambda fp, a, b: (["x"] * n, q(fp[0])))
                        sc = discrete_dqn_serving_scorer(net)
                        obs = rlt.ServingFeatureData(float_features_with_presence=(torch.tensor([[3.0]]), torch.ones(1, 1)), id_list_features={}, id_score_list_features={})
                    else:
                        net = Net((lambda f: q(f.float_features)) if kind == "q" else (lambda f: torch.stack([q(f.float_features) - 1.0, q(f.float_features) + 1.0], dim=2)))
                        sc = discrete_dqn_scorer(net)
                        obs = fd([[3.0]])
                    for _ in range(2):
                        got = sc(obs) if m is None else sc(obs, mask)
                        close(got, [want], "scores")
                    if kind != "serving":
                        same(net.modes, [False, False], "network mode while scoring")
                        expect(net.training, "network left in evaluation mode")
                        if m is None:
                            close(sc(fd([[3.0], [-1.0]])), [want, [v - 1.0 for v in vals]], "scores of a batch")
                    out = Policy(sc, GreedyActionSampler()).act(obs, mask)
                    same(out.action.argmax(1), [max(range(n), key=lambda k: want[k])], "greedy action under the mask")
                    out, probs = draw(lambda: Policy(sc, SoftmaxActionSampler()).act(obs, mask), [want.index(max(want))])
                    if probs:
                        close(probs, [softmax(want)], "draw probabilities under the mask")
                    out, probs = draw(lambda: Policy(sc, EpsilonGreedyActionSampler(0.5)).act(obs, mask), [want.index(max(want))])
                    if probs:
                        ok = sum(w != NEG for w in want)
                        close(probs, [[0.0 if w == NEG else 0.5 / ok + 0.5 * (w == max(want)) for w in want]], "epsilon-greedy draw probabilities under the mask")
                    ctx.step(5)
                ctx.run((n, m, kind), case)
            def direct():
                s = torch.tensor([vals])
                want = [0.0 if m is not None and not m[k] else vals[k] for k in range(n)]
                close(apply_possible_actions_mask(s.clone(), None if m is None else np.array(m), invalid_score=0.0), [want], "masked scores")
                if m is not None:
                    raises(lambda: apply_possible_actions_mask(s.clone(), np.array(m + (1,))), "mask of another size")
            ctx.run((n, m, "direct"), direct)


def parametric_scorers(ctx):
    for n in (1, 2, 3):
        for B in (1, 2, 3):
            for kind in ("trainer", "serving"):
                def case():
                    w = [0.5, -1.0, 2.0][:n]
                    rows = [[float(i), 0.5 * i - 1.0] for i in range(B)]

                    def val(s, a):
                        return (s[:, 0] * 2 + s[:, 1] + (a * torch.tensor([w])).sum(1) * (1 + s[:, 0])).reshape(-1, 1)
                    if kind == "trainer":
                        net = Net(lambda s, a: val(s.float_features, a.float_features))
                        sc, obs = parametric_dqn_scorer(n, net), fd(rows)
                    else:
                        def serve(state_with_presence, action_with_presence):
                            expect(bool(state_with_presence[1].all()) and bool(action_with_presence[1].all()), "presence")
                            return ["Q"], val(state_with_presence[0], action_with_presence[0])
                        sc, obs = parametric_dqn_serving_scorer(n, Net(serve)), (torch.tensor(rows), torch.ones(B, 2))
                    want = [[r[0] * 2 + r[1] + w[k] * (1 + r[0]) for k in range(n)] for r in rows]
                    close(sc(obs), want, "scores")
                    if kind == "trainer":
                        same(net.modes, [False], "network mode while scoring")
                        expect(net.training, "network left in evaluation mode")
                    out = Policy(sc, GreedyActionSampler()).act(obs)
                    if all(unique_max(r) for r in want):
                        same(out.action.argmax(1), [r.index(max(r)) for r in want], "greedy actions")
                ctx.run((n, B, kind), case, nontrivial=n > 1 or B > 1)


def slate_scorers(ctx):
    for n in (1, 2, 3):
        for B in (1, 2):
            for kind in ("trainer", "serving"):
                for vals in itertools.product((0.0, 1.0), repeat=n):
                    def case():
                        rows = [[1.0 + i, -0.5] for i in range(B)]
                        docs = [[[0.5 * j + i, 1.0 - j] for j in range(n)] for i in range(B)]
                        value = [list(vals) if i == 0 else list(reversed(vals)) for i in range(B)]
                        cd = rlt.DocList(float_features=torch.tensor(docs), mask=torch.ones(B, n, dtype=torch.bool), value=torch.tensor(value))
                        obs = rlt.FeatureData(float_features=torch.tensor(rows), candidate_docs=cd)

                        def val(s, a):
                            return (s[:, 0] * a[:, 0] + s[:, 1] + a[:, 1]).reshape(-1, 1)
                        if kind == "trainer":
                            net = Net(lambda s, a: val(s.float_features, a.float_features))
                            sc = slate_q_scorer(n, net)
                        else:
                            net = Net(lambda s, a: (["Q"], val(s[0], a[0])))
                            sc = slate_q_serving_scorer(n, net)
                        want = [[softmax(value[i])[j] * (rows[i][0] * docs[i][j][0] + rows[i][1] + docs[i][j][1]) for j in range(n)] for i in range(B)]
                        close(sc(obs), want, "scores")
                        same(net.modes, [False], "network mode while scoring")
                        expect(net.training, "network left in evaluation mode")
                        for k in range(1, n + 1):
                            if all(len(set(round(x, 5) for x in r)) == n for r in want):
                                same(Policy(sc, TopKSampler(k)).act(obs).action, [sorted(range(n), key=lambda j: -r[j])[:k] for r in want], "slate of %d" % k)
                    ctx.run((n, B, kind, vals), case, nontrivial=n > 1)


# ------------------------------------------------------------------ continuous
def normal_lp(r, sl):
    return -r * r / 2 - sl - 0.5 * math.log(2 * math.pi)


def gaussian(big):
    def fn(ctx):
        locs, logs, rs = (0.0, 0.7, -0.4), (-1.0, 0.0, 0.5), (-1.0, 0.0, 0.5)
        for D in (1, 2):
            space = list(itertools.product(itertools.product(locs, repeat=D), itertools.product(logs, repeat=D), itertools.product(rs, repeat=D)))
            for i in range(0, len(space), 1 if D == 1 or big else 5):
                for B in (1, 2):
                    def case():
                        rows = [space[i]] + [space[(i * 3 + 1) % len(space)]] * (B - 1)
                        seed_all(2)
                        net = GaussianFullyConnectedActor(1, D, [4], ["relu"])
                        s = GaussianSampler(net)
                        score = GaussianSamplerScore(loc=torch.tensor([r[0] for r in rows]), scale_log=torch.tensor([r[1] for r in rows]))
                        flat = [x for r in rows for x in r[2]]
                        try:
                            with ScriptedRandom(normal=lambda n: flat[:n]):
                                out = s.sample_action(score)
                        except RuntimeError as e:
                            if "unexpected random draw" not in str(e):
                                raise
                            out = None
                        acts, lps = [], []
                        for loc, sl, r in rows:
                            a = [math.tanh(l + x * math.exp(v)) for l, v, x in zip(loc, sl, r)]
                            acts.append(a)
                            lps.append(sum(normal_lp(x, v) - math.log(1 - y * y + 1e-6) for x, v, y in zip(r, sl, a)))
                        if out is not None:
                            close(out.action, acts, "squashed action", atol=1e-5)
                            close(out.log_prob.reshape(-1), lps, "log-probability", atol=2e-3)
                        close(s.log_prob(score, torch.tensor(acts)).reshape(-1), lps, "log-probability of a logged action", atol=2e-3)
                        seed_all(7)
                        free = s.sample_action(score)
                        close(s.log_prob(score, free.action).reshape(-1), free.log_prob.reshape(-1), "log-probability of the drawn action", atol=2e-3)
                        ctx.outcome(lps)
                    ctx.run((D, i, B), case)
        # scorer and sampler reproduce the actor
        for B in (1, 2, 3):
            for seed in range(4):
                def case():
                    seed_all(seed)
                    net = GaussianFullyConnectedActor(2, 2, [4], ["relu"])
                    obs = torch.randn(B, 2)
                    score = sac_scorer(net)(rlt.FeatureData(obs))
                    noise = [0.3, -0.7, 1.1, 0.0, -1.2, 0.5]
                    seen = []
                    try:
                        with ScriptedRandom(normal=lambda n: (seen.append(n), noise[:n])[1]):
                            a = net(rlt.FeatureData(obs))
                        with ScriptedRandom(normal=lambda n: noise[:n]):
                            b = Policy(sac_scorer(net), GaussianSampler(net)).act(rlt.FeatureData(obs))
                    except RuntimeError as e:
                        if "unexpected random draw" not in str(e):
                            raise
                        return
                    close(b.action, a.action, "policy action")
                    close(b.log_prob.reshape(-1), a.log_prob.reshape(-1), "policy log-probability", atol=1e-3)
                    expect(net.training, "actor left in evaluation mode")
                    close(score.loc.shape, (B, 2), "score shape")
                ctx.run(("actor", B, seed), case)
    return fn


def noisy_actor(ctx):
    """deterministic actors with exploration noise"""
    for D in (1, 2):
        for var in (None, 0.1, 0.5):
            for noise in itertools.product((-3.0, -0.5, 0.0, 1.0), repeat=D):
                def case():
                    seed_all(4)
                    net = FullyConnectedActor(2, D, [3], ["relu"], exploration_variance=var)
                    seed_all(4)
                    plain = FullyConnectedActor(2, D, [3], ["relu"])
                    plain.load_state_dict(net.state_dict())
                    obs = rlt.FeatureData(torch.tensor([[0.5, -1.0], [1.0, 2.0]]))
                    mu = plain(obs).action.tolist()
                    try:
                        with ScriptedRandom(normal=lambda n: (list(noise) * 2)[:n]):
                            out = net(obs)
                    except RuntimeError as e:
                        if "unexpected random draw" not in str(e):
                            raise
                        return
                    if var is None:
                        close(out.action, mu, "action")
                        close(out.log_prob.reshape(-1), [0.0, 0.0], "log-probability")
                    else:
                        lim = 1 - 1e-6
                        close(out.action, [[max(-lim, min(lim, m + var * z)) for m, z in zip(r, noise)] for r in mu], "noisy action")
                        close(out.log_prob.reshape(-1), [sum(normal_lp(z, math.log(var)) for z in noise)] * 2, "log-probability of the noise")
                ctx.run((D, var, noise), case, nontrivial=var is not None)


# ------------------------------------------------------------------ random policies
class SpaceEnv:
    def __init__(self, space):
        self.action_space = space


def random_policies(ctx):
    obs = fd([[1.0, 2.0]])
    for n in (1, 2, 3, 4):
        for m in masks(n):
            for k in range(n):
                if m is not None and not m[k]:
                    continue

                def case():
                    p = make_random_policy_for_env(SpaceEnv(gym.spaces.Discrete(n)))
                    mask = None if m is None else np.array(m)
                    ok = n if m is None else sum(m)
                    want = [1.0 / ok if m is None or m[j] else 0.0 for j in range(n)]
                    out, probs = draw(lambda: p.act(obs, mask), [k])
                    if probs:
                        close(probs, [want], "draw probabilities")
                        same(out.action, [[int(j == k) for j in range(n)]], "action")
                        close(out.log_prob.reshape(-1), [math.log(1.0 / ok)], "log-probability")
                    seed_all(k)
                    out = p.act(obs, mask)
                    expect(want[out.action.argmax().item()] > 0, "impossible action")
                    close(out.log_prob.reshape(-1), [math.log(1.0 / ok)], "log-probability")
                ctx.run(("discrete", n, m, k), case, nontrivial=n > 1)
    for vec in ([2], [2, 3], [3, 1, 2]):
        for picks in itertools.product(*[range(n) for n in vec]):
            for B in (1, 2):
                def case():
                    p = make_random_policy_for_env(SpaceEnv(gym.spaces.MultiDiscrete(vec)))
                    out, probs = draw(lambda: p.act(fd([[1.0, 2.0]] * B)), picks)
                    if probs and len(probs) == len(vec):
                        close(probs, [[1.0 / n] * n for n in vec], "draw probabilities")
                        same(out.action, [list(picks)] * B, "action")
                    if out is not None:
                        close(out.log_prob.reshape(-1), [-sum(math.log(n) for n in vec)] * B, "log-probability")
                ctx.run(("multi", vec, picks, B), case)
    for D in (1, 2, 3):
        for us in itertools.product((0.0, 0.25, 0.9), repeat=D):
            for B in (1, 2):
                def case():
                    p = make_random_policy_for_env(SpaceEnv(gym.spaces.Box(-5.0, 5.0, (D,))))
                    try:
                        with ScriptedRandom(uniform=lambda n: (list(us) * B)[:n]):
                            out = p.act(fd([[1.0, 2.0]] * B))
                        close(out.action, [[-1 + 2 * u for u in us]] * B, "action", atol=1e-4)
                    except RuntimeError as e:
                        if "unexpected random draw" not in str(e):
                            raise
                        out = p.act(fd([[1.0, 2.0]] * B))
                    expect(bool((out.action.abs() <= 1.0).all()), "action outside the training range")
                    close(out.log_prob.reshape(-1), [-D * math.log(2.0)] * B, "log-probability", atol=1e-4)
                ctx.run(("box", D, us, B), case)
    ctx.run("unsupported", lambda: raises(lambda: make_random_policy_for_env(SpaceEnv(gym.spaces.Tuple((gym.spaces.Discrete(2),)))), "tuple space"), nontrivial=False)


class Serving(torch.nn.Module):
    def __init__(self, name, fn):
        super().__init__()
        self.original_name, self.fn = name, fn

    def forward(self, *a, **k):
        return self.fn(*a, **k)


def predictor_policies(ctx):
    vals = [0.5, 2.0, -1.0]
    for t in (None, 0.5, 2.0):
        for m in masks(3):
            for k in range(3):
                if m is not None and not m[k]:
                    continue

                def case():
                    seen = []

                    def q(state):
                        seen.append(state)
                        return ["a", "b", "c"], torch.tensor([vals]) + state.float_features_with_presence[0]
                    params = None if t is None else RLParameters(temperature=t, softmax_policy=True)
                    p = create_predictor_policy_from_model(Serving("DiscreteDqnPredictorWrapper", q), rl_parameters=params)
                    obs = (torch.tensor([[1.0]]), torch.tensor([[1.0]]))
                    mask = None if m is None else np.array(m)
                    want = [NEG if m is not None and not m[j] else vals[j] + 1.0 for j in range(3)]
                    if t is None:
                        out = p.act(obs, mask)
                        same(out.action.argmax(1), [want.index(max(want))], "greedy action")
                        close(out.log_prob.reshape(-1), [0.0], "log-probability")
                        if mask is None:
                            same(p.act(obs).action, out.action, "action without a mask argument")
                    else:
                        out, probs = draw(lambda: p.act(obs, mask), [k])
                        if probs:
                            close(probs, [softmax(want, t)], "draw probabilities")
                            same(out.action.argmax(1), [k], "action")
                            close(out.log_prob.reshape(-1), [math.log(softmax(want, t)[k])], "log-probability", atol=2e-5)
                    same(len(seen), 1 if (t is not None or mask is not None) else 2, "predictor calls")
                    close(seen[0].float_features_with_presence[1], [[1.0]], "presence")
                    same((seen[0].id_list_features, seen[0].id_score_list_features), ({}, {}), "sparse features")
                    full = rlt.ServingFeatureData(float_features_with_presence=obs, id_list_features={3: (torch.tensor([0]), torch.tensor([1]))}, id_score_list_features={})
                    p.act(full, mask)
                    expect(3 in seen[-1].id_list_features, "sparse features were dropped")
                ctx.run(("dqn", t, m, k), case)
    for w in itertools.permutations((0.5, 2.0, -1.0)):
        def case():
            def q(state_with_presence, action_with_presence):
                return ["Q"], (action_with_presence[0] * torch.tensor([list(w)])).sum(1, keepdim=True) + state_with_presence[0][:, :1]
            p = create_predictor_policy_from_model(Serving("ParametricDqnPredictorWrapper", q), max_num_actions=3)
            out = p.act((torch.tensor([[1.0, 0.0], [2.0, 5.0]]), torch.ones(2, 2)))
            same(out.action.argmax(1), [w.index(2.0)] * 2, "greedy action")
            raises(lambda: create_predictor_policy_from_model(Serving("ParametricDqnPredictorWrapper", q)), "without the number of actions")

            def sq(s, a):
                return ["Q"], a[0].sum(1, keepdim=True)
            ps = create_predictor_policy_from_model(Serving("ParametricDqnPredictorWrapper", sq), max_num_actions=3, slate_size=2)
            cd = rlt.DocList(float_features=torch.tensor([[[x] for x in w]]), mask=torch.ones(1, 3, dtype=torch.bool), value=torch.zeros(1, 3))
            out = ps.act(rlt.FeatureData(float_features=torch.tensor([[1.0]]), candidate_docs=cd))
            same(out.action, [[w.index(2.0), w.index(0.5)]], "slate")
            pa = create_predictor_policy_from_model(Serving("ActorPredictorWrapper", lambda s: torch.tensor([[w[0], w[1]]])))
            close(pa.act((torch.ones(1, 1), torch.ones(1, 1))).action, [[w[0], w[1]]], "actor action")
            raises(lambda: create_predictor_policy_from_model(Serving("SomethingElse", q)), "unknown module")
        ctx.run(("others", w), case)


def groups(tier):
    big = tier == "thorough"
    return [
        ("softmax", softmax_sampler(big)), ("greedy", greedy_samplers(big)), ("epsilon-decay", epsilon_decay), ("top-k", topk), ("discrete-scorers", discrete_scorers),
        ("parametric-scorers", parametric_scorers), ("slate-scorers", slate_scorers), ("gaussian", gaussian(big)), ("noisy-actor", noisy_actor),
        ("random-policies", random_policies), ("predictor-policies", predictor_policies),
    ]

"""E05: sequential off-policy estimators and tabular learners against exact values of every small decision process."""
import contextlib
import io
import itertools
import logging
import math
import os
import tempfile
from unittest import mock

import numpy as np
import torch

from mc.core import close, expect, raises, same, seed_all

from reagent.ope.estimators.sequential_estimators import (
    DMEstimator, DoublyRobustEstimator, EpsilonGreedyRLPolicy, IPSEstimator, MAGICEstimator, NeuralDualDICE, RandomRLPolicy, RewardProbability,
    RLEstimatorInput, RLPolicy, State, StateReward, Transition, ValueFunction,
)
from reagent.ope.estimators.types import Action, ActionSpace
from reagent.ope.test.envs import Environment
from reagent.ope.trainers.rl_tabular_trainers import (
    DPTrainer, DPValueFunction, EstimatedStateValueFunction, MonteCarloTrainer, MonteCarloValueFunction, TabularPolicy,
)
from reagent.ope.utils import Clamper

logging.disable(logging.ERROR)

LEVEL = "exploration"
RULE = (
    "every decision process of two states and two actions whose transitions come from an alphabet of deterministic, stochastic, self-looping and terminal ones, "
    "for several policies and discounts; every set of up to three scripted episodes over two states; every log of up to two trajectories (three short ones) over an "
    "alphabet that includes missing actions and zero propensities; every sequence of up to three policy operations. Non-trivial: more than one transition. "
    "Values are compared with linear solves, exhaustive policy enumeration, plain averages and scalar recursions"
)
ASSUMPTIONS = [
    "discounts are below 1",
    "after the end of a trajectory rewards and values are zero and the importance ratio stays 1; a step without action or propensity has weight 0",
    "MAGIC's mixture is judged by its bounds: it lies between the smallest and the largest partial return",
    "Monte-Carlo policies are judged by the order of their action probabilities at equal visit counts",
]

S0, S1, END = State(0), State(1), State(9, True)
STATES = [S0, S1]
# outcomes: ((next, reward, probability), ...)
OUTCOMES = [
    (("E", 1.0, 1.0),), ((0, 0.0, 1.0),), ((1, 2.0, 1.0),), ((0, 1.0, 0.5), (1, -1.0, 0.5)), ((1, 0.5, 0.25), ("E", 4.0, 0.75)), ((0, -0.5, 0.5), ("E", 0.0, 0.5)),
]
SMALL = [OUTCOMES[i] for i in (0, 2, 3, 5)]


def st(x):
    return END if x == "E" else STATES[x]


class Mdp(Environment):
    """an environment given by a table; step() follows a script of (action, probability, next, reward)"""

    def __init__(self, table=None, episodes=None, states=STATES):
        super().__init__()
        self.table, self._states = table, states
        self.episodes = {k: list(v) for k, v in (episodes or {}).items()}
        self.played, self._todo = [], None

    def reset(self, state=None):
        super().reset(state)
        if self.episodes:
            q = self.episodes[state.value]
            self._todo = list(q.pop(0) if len(q) > 1 else q[0])
            self.played.append((state.value, tuple(self._todo)))
        return self.current_state

    def close(self):
        pass

    def step(self, policy):
        a, ns, r = self._todo.pop(0)
        last = self.current_state
        self.current_state = st(ns)
        return Transition(last_state=last, action=Action(a), action_prob=policy(last)[Action(a)], state=self.current_state, reward=r,
                          status=Transition.Status.NORMAL if self._todo else Transition.Status.TERMINATED)

    def next_state_reward_dist(self, state, action):
        return {st(n): RewardProbability(r, p) for n, r, p in self.table[(state.value, action.value)]}

    @property
    def observation_space(self):
        return (1,), ((0, 2),)

    @property
    def states(self):
        return iter(self._states)


def tabular(probs, eps=0.0, A=2):
    p = TabularPolicy(ActionSpace(A), eps)
    for s, pr in probs.items():
        p.update(State(s), list(pr))
    return p


def soft(pr, eps):
    return [x * (1 - eps) + eps / len(pr) for x in pr]


def exact(table, pi, g):
    """state values of policy pi (dict state -> probabilities) by a linear solve"""
    n = len(pi)
    P, R = np.zeros((n, n)), np.zeros(n)
    for s in range(n):
        for a, pa in enumerate(pi[s]):
            for ns, r, p in table[(s, a)]:
                R[s] += pa * p * r
                if ns != "E":
                    P[s, ns] += pa * p
    return np.linalg.solve(np.eye(n) - g * P, R)


def q_value(table, V, s, a, g):
    return sum(p * (r + (0.0 if ns == "E" else g * V[ns])) for ns, r, p in table[(s, a)])


def tables(alphabet):
    for t in itertools.product(range(len(alphabet)), repeat=4):
        yield t, {(0, 0): alphabet[t[0]], (0, 1): alphabet[t[1]], (1, 0): alphabet[t[2]], (1, 1): alphabet[t[3]]}


def dp_values(big):
    def fn(ctx):
        pis = [{0: (0.5, 0.5), 1: (0.25, 0.75)}, {0: (1.0, 0.0), 1: (0.0, 1.0)}] + ([{0: (0.0, 1.0), 1: (0.6, 0.4)}] if big else [])
        for key, table in tables(OUTCOMES if big else SMALL):
            for k, pi in enumerate(pis):
                for g in (0.0, 0.5, 0.9):
                    for eps in (0.0, 0.2):
                        def case():
                            env, pol = Mdp(table), tabular(pi, eps)
                            f = DPValueFunction(pol, env, g, 1e-7)
                            eff = {s: soft(p, eps) for s, p in pi.items()}
                            V = exact(table, eff, g)
                            for s in (1, 0):
                                ctx.step()
                                close(f(STATES[s]), V[s], "value of state %d" % s, atol=1e-5)
                                for a in (0, 1):
                                    close(f(STATES[s], Action(a)), q_value(table, V, s, a, g), "value of action %d in state %d" % (a, s), atol=1e-5)
                            close(f(END), 0.0, "terminal value")
                            # the policy changes, the values follow after a reset
                            pol.update(S0, [0.0, 1.0])
                            eff[0] = soft((0.0, 1.0), eps)
                            f.reset(clear_state_values=eps > 0)
                            V2 = exact(table, eff, g)
                            for s in (0, 1):
                                close(f(STATES[s]), V2[s], "value after the reset", atol=1e-5)
                            ctx.outcome([round(float(v), 4) for v in V])
                        ctx.run((key, k, g, eps), case)
    return fn


def dp_order(ctx):
    """action values asked first; unseen states have the uniform policy; the default threshold"""
    for key, table in tables(SMALL):
        for first in ((0, 0), (1, 1)):
            def case():
                g = 0.8
                f = DPValueFunction(TabularPolicy(ActionSpace(2)), Mdp(table), g)
                V = exact(table, {0: (0.5, 0.5), 1: (0.5, 0.5)}, g)
                close(f(STATES[first[0]], Action(first[1])), q_value(table, V, first[0], first[1], g), "first action value", atol=2e-3)
                close([f(S0), f(S1)], V, "values", atol=2e-3)
            ctx.run((key, first), case)


def dp_trainer(big):
    def fn(ctx):
        for key, table in tables(OUTCOMES if big else SMALL):
            for g in (0.5, 0.9):
                for eps in (0.0, 0.25) if big else (0.0,):
                    def case():
                        pol = TabularPolicy(ActionSpace(2), eps)
                        vf = DPTrainer(Mdp(table), pol).train(gamma=g, threshold=1e-9)
                        best = None
                        for c in itertools.product((0, 1), repeat=2):
                            V = exact(table, {s: soft([float(a == c[s]) for a in (0, 1)], eps) for s in (0, 1)}, g)
                            best = V if best is None else np.maximum(best, V)
                        got = exact(table, {s: pol(STATES[s]).values.tolist() for s in (0, 1)}, g)
                        close(got, best, "value of the trained policy", atol=1e-4)
                        close([vf(S0), vf(S1)], best, "returned value function", atol=1e-4)
                        for s in (0, 1):
                            q = [q_value(table, best, s, a, g) for a in (0, 1)]
                            p = pol(STATES[s]).values.tolist()
                            close(sum(p), 1.0, "probabilities")
                            for a in (0, 1):
                                if q[a] < max(q) - 1e-4:
                                    close(p[a], eps / 2, "probability of the worse action in state %d" % s)
                        ctx.outcome([round(float(v), 4) for v in best])
                        ctx.step(2)
                    ctx.run((key, g, eps), case)
    return fn


# ------------------------------------------------------------------ scripted episodes
def walks(maxlen, start):
    """episodes from a start state: lists of (action, next, reward)"""
    rewards = (1.0, -0.5, 2.0, 0.25)
    for n in range(1, maxlen + 1):
        for mid in itertools.product((0, 1), repeat=n - 1):
            for acts in itertools.product((0, 1), repeat=n):
                yield [(acts[i], mid[i] if i < n - 1 else "E", rewards[i] + 0.125 * acts[i]) for i in range(n)]


def visits(start, ep, g):
    """[(state, action, return)] in time order"""
    states = [start] + [e[1] for e in ep[:-1]]
    out, G = [], 0.0
    for s, e in reversed(list(zip(states, ep))):
        G = e[2] + g * G
        out.append((s, e[0], G))
    return out[::-1]


def firsts(vs, key):
    seen, out = set(), []
    for v in vs:
        if key(v) not in seen:
            seen.add(key(v))
            out.append(v)
    return out


def avg(xs):
    return sum(xs) / len(xs)


def noact(eps):
    """walks differ in their states and lengths; actions only tag the rewards"""
    return [e for e in eps if all(a == (i % 2) for i, (a, _, _) in enumerate(e))]


def mc_values(big):
    def fn(ctx):
        eps = {s: noact(walks(4 if big else 3, s)) for s in (0, 1)}
        for first in (True, False):
            for g in (0.5, 1.0):
                for a, b in itertools.product(range(len(eps[0])), range(len(eps[1]))):
                    for threshold in (1, 3):
                        def case():
                            e0, e1, f0 = eps[0][a], eps[1][b], eps[0][(a + 3) % len(eps[0])]
                            env = Mdp(None, {0: [e0, f0], 1: [e1]})
                            f = MonteCarloValueFunction(RandomRLPolicy(ActionSpace(2)), env, g, first_visit=first, count_threshold=threshold, max_iteration=5)
                            rets = {0: [], 1: []}
                            for s in (0, 1, 0):
                                done = len(env.played)
                                v = f(STATES[s])
                                had = len(rets[s])
                                for start, ep in env.played[done:]:
                                    same(start, s, "start of the sampled episode")
                                    expect(had < threshold, "sampled although the state had been visited often enough")
                                    vs = visits(start, list(ep), g)
                                    if first:
                                        vs = firsts(vs, lambda x: x[0])
                                    for x, _, G in vs:
                                        rets[x].append(G)
                                    had = len(rets[s])
                                expect(had >= threshold or len(env.played) - done == 5, "stopped after %d visits", had)
                                close(v, avg(rets[s]), "value of state %d" % s)
                                ctx.step()
                            same(f(END), 0.0, "terminal value") if threshold == 0 else None
                            f.reset(clear_state_values=True)
                            done = len(env.played)
                            f(S1)
                            expect(len(env.played) > done, "values survived the reset")
                        ctx.run((first, g, a, b, threshold), case, nontrivial=len(eps[0][a]) + len(eps[1][b]) > 2)
    return fn


def episode_values(big):
    def fn(ctx):
        eps = {s: noact(walks(4 if big else 3, s)) for s in (0, 1)}
        for g in (0.0, 0.5, 1.0):
            for a, b in itertools.product(range(len(eps[0])), range(len(eps[1]))):
                def case():
                    pairs = [eps[0][a], eps[0][(a + 2) % len(eps[0])], eps[0][(a + 5) % len(eps[0])]]
                    env = Mdp(None, {0: pairs, 1: [eps[1][b]]})
                    f = EstimatedStateValueFunction(RandomRLPolicy(ActionSpace(2)), env, g, num_episodes=3)
                    for s in (0, 1):
                        mine = [list(ep) for start, ep in env.played if start == s]
                        same(len(mine), 3, "episodes")
                        close(f(STATES[s]), avg([visits(s, e, g)[0][2] for e in mine]), "value of state %d" % s)
                    ctx.step(6)
                ctx.run((g, a, b), case, nontrivial=len(eps[0][a]) > 1)
    return fn


def mc_trainer(big):
    def fn(ctx):
        eps = list(walks(3, 0))
        for first in (True, False):
            for g in (0.5, 1.0):
                for a in range(len(eps)):
                    for b in range(len(eps)) if big else range(a % 7, len(eps), 7):
                        def case():
                            env = Mdp(None, {0: [eps[a], eps[b]]}, states=[S0])
                            pol = TabularPolicy(ActionSpace(2))
                            MonteCarloTrainer(env, pol).train(2, g, first_visit=first, update_interval=2)
                            rets = {}
                            for start, ep in env.played:
                                vs = visits(start, list(ep), g)
                                for s, act, G in firsts(vs, lambda x: (x[0], x[1])) if first else vs:
                                    rets.setdefault((s, act), []).append(G)
                            same(len(env.played), 2, "episodes")
                            p = pol(S0).values.tolist()
                            close(sum(p), 1.0, "probabilities")
                            r0, r1 = rets.get((0, 0)), rets.get((0, 1))
                            if r0 and r1 and len(r0) == len(r1):
                                d = avg(r0) - avg(r1)
                                if abs(d) > 1e-6:
                                    expect((p[0] > p[1]) == (d > 0), "returns %s and %s gave probabilities %s", r0, r1, p)
                                else:
                                    close(p[0], p[1], "probabilities at equal returns")
                                ctx.outcome([round(x, 3) for x in p])
                            # the same totals always give the same policy
                            ctx.step(2)
                            return (tuple(sorted((k, len(v), round(avg(v), 6)) for k, v in rets.items() if k[0] == 0)), [round(x, 6) for x in p])
                        ok, res = ctx.run((first, g, a, b), case)
                        if ok:
                            seen = ctx.notes.setdefault("_pol", {})
                            ctx_key = res[0]
                            old = seen.setdefault(ctx_key, res[1])

                            def agree():
                                close(res[1], old, "policy for the same action values")
                            ctx.run((first, g, a, b, "agree"), agree, trace=False)
        ctx.notes.pop("_pol", None)
    return fn


# ------------------------------------------------------------------ policies
def policies(big):
    def fn(ctx):
        space = {2: [(0.5, 0.5), (1.0, 0.0), (0.25, 0.75)], 3: [(0.2, 0.3, 0.5), (0.0, 1.0, 0.0)]}
        for A in (2, 3):
            ops = [("update", s, k) for s in (0, 1) for k in range(len(space[A]))] + [("save",), ("load",), ("badload",)]
            for eps in (0.0, 0.3, 0.9):
                for n in range(0, 4 if big else 3):
                    for seq in itertools.product(ops, repeat=n):
                        def case():
                            with tempfile.TemporaryDirectory() as tmp:
                                path = os.path.join(tmp, "p")
                                p = TabularPolicy(ActionSpace(A), eps)
                                model, e, saved = {}, eps, None
                                for op in seq:
                                    ctx.step()
                                    if op[0] == "update":
                                        new = list(space[A][op[2]])
                                        old = model.get(op[1], [1.0 / A] * A)
                                        d = p.update(State(op[1]), list(new))
                                        close(d, math.sqrt(sum((x - y) ** 2 for x, y in zip(old, new))), "distance of the update")
                                        model[op[1]] = new
                                    elif op[0] == "save":
                                        expect(p.save(path), "save failed")
                                        saved = (dict(model), e)
                                    elif op[0] == "load":
                                        q = TabularPolicy(ActionSpace(A), 0.5)
                                        q.update(S0, [1.0] + [0.0] * (A - 1))
                                        if saved is None:
                                            expect(not q.load(path), "load without a file")
                                        else:
                                            expect(q.load(path), "load failed")
                                            p, (model, e) = q, (dict(saved[0]), saved[1])
                                    else:
                                        expect(not p.load(os.path.join(tmp, "none")), "load without a file")
                                    check(p, model, e)
                                check(p, model, e)
                                w = EpsilonGreedyRLPolicy(p, 0.4)
                                same(len(w.action_space), A, "action space of the wrapper")
                                same([a.value for a in w.action_space], list(range(A)), "actions of the wrapper")
                                for s in (0, 1, 2):
                                    base = p(State(s)).values.tolist()
                                    close(w(State(s)).values, soft(base, 0.4), "epsilon-greedy distribution")
                                    close(p(State(s)).values, base, "the wrapped policy changed")
                                ctx.outcome(sorted(model.items()))

                        def check(p, model, e):
                            for s in (0, 1, 2):
                                want = soft(model[s], e) if s in model else [1.0 / A] * A
                                close(p(State(s)).values, want, "distribution in state %d" % s)
                                for a in range(A):
                                    close(p(State(s))[Action(a)], want[a], "probability")
                        ctx.run((A, eps, "-".join("".join(map(str, o)) for o in seq)), case, nontrivial=n > 1)
        for A in (1, 2, 3, 4):
            def case():
                p = RandomRLPolicy(ActionSpace(A))
                close(p(S0).values, [1.0 / A] * A, "uniform policy")
                for e in (0.0, 0.5):
                    close(EpsilonGreedyRLPolicy(p, e)(S0).values, [1.0 / A] * A, "epsilon-greedy uniform policy")
                    close(EpsilonGreedyRLPolicy(EpsilonGreedyRLPolicy(p, e), 0.25)(S0).values, [1.0 / A] * A, "nested epsilon-greedy")
                raises(lambda: EpsilonGreedyRLPolicy(p, 1.5), "epsilon above 1")
            ctx.run(("uniform", A), case)
        # a policy that hands out its own stored distribution: every order of asking wrapper and policy
        for e in (0.0, 0.3, 0.9):
            for n in (1, 2, 3, 4):
                for seq in itertools.product(("w0", "w1", "p0", "p1"), repeat=n):
                    def case():
                        p = Stored({0: (0.5, 0.5), 1: (0.875, 0.125)})
                        w = EpsilonGreedyRLPolicy(p, e)
                        for q in seq:
                            ctx.step()
                            s = int(q[1])
                            base = [(0.5, 0.5), (0.875, 0.125)][s]
                            close((w if q[0] == "w" else p)(State(s)).values, soft(base, e) if q[0] == "w" else base, "distribution asked from " + q)
                    ctx.run(("stored", e, "-".join(seq)), case, nontrivial=n > 1)
    return fn


class Stored(RLPolicy):
    def __init__(self, dist):
        super().__init__(ActionSpace(2))
        self.d = {s: self.action_space.distribution(list(d)) for s, d in dist.items()}

    def action_dist(self, state):
        return self.d[state.value]


# ------------------------------------------------------------------ estimators
class Fixed(RLPolicy):
    def __init__(self, dist):
        super().__init__(ActionSpace(2))
        self.d = dist

    def action_dist(self, state):
        return self.action_space.distribution(list(self.d[state.value]))


class Table(ValueFunction):
    def __init__(self, v, q):
        self.v, self.q = v, q

    def state_action_value(self, state, action):
        return self.q[state.value][action.value]

    def state_value(self, state):
        return self.v[state.value]

    def reset(self):
        pass


PI = {0: (0.25, 0.75), 1: (0.9, 0.1), 2: (0.0, 1.0)}
Q = {0: (1.0, 0.5), 1: (-0.5, 2.0), 2: (0.25, 3.0)}
V = {s: sum(p * q for p, q in zip(PI[s], Q[s])) for s in PI}
GT = Table({0: 1.5, 1: -2.0, 2: 4.0}, {})
# (state, action, propensity, reward)
STEPS = [(0, 0, 0.5, 1.0), (1, 1, 0.2, 2.0), (2, 1, 0.8, -1.0), (0, 1, 0.6, 0.5), (1, None, 0.0, 0.75), (2, 0, 0.5, 3.0), (0, 1, 0.0, 2.5)]


def transitions(traj):
    return [Transition(last_state=State(s), action=None if a is None else Action(a), action_prob=p, state=State(traj[i + 1][0] if i + 1 < len(traj) else 0), reward=r)
            for i, (s, a, p, r) in enumerate(traj)]


def ref_weights(log, weighted, lo, hi):
    n, H = len(log), max(len(t) for t in log)
    rho, valid = [[0.0] * H for _ in log], [[1.0] * H for _ in log]
    for i, t in enumerate(log):
        c = 1.0
        for j in range(H):
            if j < len(t):
                s, a, p, _ = t[j]
                if a is not None and p > 0:
                    c *= PI[s][a] / p
                else:
                    valid[i][j] = 0.0
            rho[i][j] = c * valid[i][j]
    out = [[0.0] * H for _ in log]
    for j in range(H):
        w = sum(r[j] for r in rho) if weighted else sum(v[j] for v in valid)
        if w < 1e-15:
            w += n
        for i in range(n):
            out[i][j] = max(lo, min(hi, rho[i][j] / w))
    return out


def log_sets(big):
    n = len(STEPS)
    trajs1 = [(i,) for i in range(n)]
    trajs2 = list(itertools.product(range(n), repeat=2))
    for t in trajs1 + trajs2:
        yield [t]
    for a, b in itertools.product(trajs1 + (trajs2 if big else trajs2[::4]), trajs1 + trajs2[::5 if big else 8]):
        yield [a, b]
    for c in itertools.product(range(n), repeat=3):
        yield [(c[0],), (c[1], c[2]), (c[2], c[0], c[1])]


def estimators(big):
    def fn(ctx):
        clamps = {"none": (-math.inf, math.inf), "tight": (0.1, 0.6)}
        for idx in log_sets(big):
            log = [[STEPS[i] for i in t] for t in idx]
            mdps = [transitions(t) for t in log]
            n, H = len(log), max(len(t) for t in log)
            key = "|".join("".join(map(str, t)) for t in idx)
            for g in (1.0, 0.5):
                def case():
                    ctx.step(sum(len(t) for t in log))
                    inp = RLEstimatorInput(gamma=g, log=mdps, target_policy=Fixed(PI), value_function=Table(V, Q), ground_truth=GT)
                    logged = avg([sum(t[3] * g ** j for j, t in enumerate(tr)) for tr in log])
                    gt = avg([GT.v[tr[0][0]] for tr in log])

                    def check(est, want, what):
                        r = est.evaluate(inp).results
                        same(len(r), 1, what + ": number of results")
                        close(r[0].log_reward, logged, what + ": logged reward")
                        close(r[0].ground_truth_reward, gt, what + ": ground truth")
                        close(r[0].estimated_reward, want, what, rtol=2e-4, atol=2e-5)
                    check(DMEstimator(), avg([V[tr[0][0]] for tr in log]), "direct method")
                    for weighted in (True, False):
                        for cn, (lo, hi) in clamps.items():
                            w = ref_weights(log, weighted, lo, hi)
                            ips = dr = 0.0
                            for i, tr in enumerate(log):
                                for j in range(H):
                                    r = tr[j][3] if j < len(tr) else 0.0
                                    ips += g ** j * w[i][j] * r
                                    q = v = rr = 0.0
                                    if j < len(tr) and tr[j][1] is not None:
                                        q, v, rr = Q[tr[j][0]][tr[j][1]], V[tr[j][0]], r
                                    lw = 1.0 / n if j == 0 else w[i][j - 1]
                                    dr += g ** j * (w[i][j] * (rr - q) + lw * v)
                            cl = Clamper(lo, hi)
                            check(IPSEstimator(cl, weighted), ips, "IPS weighted=%s %s" % (weighted, cn))
                            check(DoublyRobustEstimator(cl, weighted), dr, "DR weighted=%s %s" % (weighted, cn))
                    if n > 1:
                        w = ref_weights(log, True, -math.inf, math.inf)
                        gs = [0.0] * H
                        for i, tr in enumerate(log):
                            part = 0.0
                            for j in range(H):
                                q = v = rr = 0.0
                                if j < len(tr) and tr[j][1] is not None:
                                    q, v, rr = Q[tr[j][0]][tr[j][1]], V[tr[j][0]], tr[j][3]
                                part += g ** j * (w[i][j] * (rr - q) + (1.0 / n if j == 0 else w[i][j - 1]) * v)
                                nv = V[tr[j + 1][0]] if j + 1 < len(tr) and tr[j + 1][1] is not None else 0.0
                                gs[j] += part + w[i][j] * nv * g ** (j + 1)
                        seed_all(1)
                        with contextlib.redirect_stdout(io.StringIO()):
                            m = MAGICEstimator().evaluate(inp, num_resamples=20).results[0]
                        close(m.log_reward, logged, "MAGIC: logged reward")
                        expect(min(gs) - 1e-3 <= m.estimated_reward <= max(gs) + 1e-3, "MAGIC %s outside %s", m.estimated_reward, gs)
                        if H == 1:
                            close(m.estimated_reward, gs[0], "MAGIC with one step", atol=1e-4)
                    ctx.outcome([round(logged, 4), round(gt, 4)])
                ctx.run((key, g), case, nontrivial=n > 1 or H > 1)
    return fn


def no_ground_truth(ctx):
    for i, j in itertools.product(range(len(STEPS)), repeat=2):
        def case():
            mdps = [transitions([STEPS[i]]), transitions([STEPS[j], STEPS[i]])]
            a = RLEstimatorInput(gamma=0.5, log=mdps, target_policy=Fixed(PI), value_function=Table(V, Q), ground_truth=GT)
            b = RLEstimatorInput(gamma=0.5, log=mdps, target_policy=Fixed(PI), value_function=Table(V, Q))
            for E in (DMEstimator(), IPSEstimator(), IPSEstimator(weighted=False), DoublyRobustEstimator()):
                x, y = E.evaluate(a).results[0], E.evaluate(b).results[0]
                close(y.estimated_reward, x.estimated_reward, "estimate without ground truth")
                same(y.ground_truth_reward, 0.0, "ground truth")
            # the order of the trajectories does not matter
            c = RLEstimatorInput(gamma=0.5, log=mdps[::-1], target_policy=Fixed(PI), value_function=Table(V, Q))
            for E in (DMEstimator(), IPSEstimator(), IPSEstimator(weighted=False), DoublyRobustEstimator()):
                close(E.evaluate(c).results[0].estimated_reward, E.evaluate(b).results[0].estimated_reward, "estimate in another order")
        ctx.run((i, j), case)


# ------------------------------------------------------------------ DualDICE
def onehot_rows(a, n=2):
    return torch.eye(n)[torch.tensor(a)]


def dualdice(big):
    def fn(ctx):
        pi_det = {0: (0.0, 1.0), 1: (1.0, 0.0), 2: (0.0, 1.0)}
        trajs = [[(0, 1, 1.0)], [(0, 0, 1.0), (1, 1, -0.5)], [(1, 0, 2.0), (0, 1, 0.5), (1, 1, 1.0)]]
        nexts = [2, 0]
        g = 0.5
        for which in ([0], [1], [2], [0, 1], [1, 2]) if big else ([0], [1], [0, 2]):
            N = sum(len(trajs[k]) for k in which)
            for det in (True, False):
                for avg_next in (True, False):
                    for degree in (1.5, 2.0, 4.0):
                        for idx in (list(itertools.product(range(N), repeat=2)) if N <= 3 else [(0, N - 1), (1, 2), (N - 1, N - 1)]):
                            def case():
                                # a stochastic policy only matters where all actions are averaged; the initial action stays certain
                                pi = dict(pi_det)
                                if avg_next:
                                    pi[2] = (0.3, 0.7)
                                rows, mdps = [], []
                                for k in which:
                                    tr = trajs[k]
                                    ms = []
                                    for i, (s, a, r) in enumerate(tr):
                                        ns = tr[i + 1][0] if i + 1 < len(tr) else nexts[k % 2]
                                        rows.append((tr[0][0], s, a, ns, i, r))
                                        ms.append(Transition(last_state=State((float(s),)), action=Action(a), action_prob=0.5, state=State((float(ns),)), reward=r))
                                    mdps.append(ms)

                                class Pol(RLPolicy):
                                    def action_dist(self, state):
                                        return self.action_space.distribution(list(pi[int(state.value[0])]))
                                seed_all(3)
                                calls = []
                                d = NeuralDualDICE(state_dim=1, action_dim=2, deterministic_env=det, average_next_v=avg_next, polynomial_degree=degree, value_lr=0.05,
                                                   zeta_lr=0.02, hidden_dim=3, hidden_layers=1, training_samples=2, batch_size=2, reporting_frequency=1,
                                                   loss_callback_fn=lambda z, v, e: calls.append((z, v)))
                                import copy
                                v, zeta = copy.deepcopy(d.v_net), copy.deepcopy(d.zeta_net)
                                vo, zo = torch.optim.Adam(v.parameters(), lr=0.05), torch.optim.Adam(zeta.parameters(), lr=0.02)
                                asked = []

                                def choice(n, size=None, *a, **k):
                                    asked.append((n, size))
                                    return np.array(idx[:size] if len(asked) % 2 else idx[::-1][:size])
                                with mock.patch("numpy.random.choice", choice):
                                    res = d.evaluate(RLEstimatorInput(gamma=g, log=mdps, target_policy=Pol(ActionSpace(2)))).results[0]
                                if not asked:
                                    return  # batches come from another source of randomness
                                same(asked, [(N, 2)] * 2, "batches")

                                def net(f, s, a):
                                    return f(torch.cat((torch.tensor([[float(s)]]), onehot_rows([a])), dim=1))[0, 0]

                                def loss(use, determ):
                                    tot, wsum = 0.0, 0.0
                                    conj = degree / (degree - 1)
                                    for i in use:
                                        s0, s, a, ns, t, r = rows[i]
                                        if avg_next:
                                            nv = sum(pi[ns][b] * net(v, ns, b) for b in (0, 1))
                                        else:
                                            nv = net(v, ns, int(np.argmax(pi[ns])))
                                        delta = net(v, s, a) - g * nv
                                        init = (1 - g) * net(v, s0, int(np.argmax(pi[s0])))
                                        if determ:
                                            l = delta.abs() ** degree / degree - init
                                        else:
                                            z = net(zeta, s, a)
                                            l = delta * z - z.abs() ** conj / conj - init
                                        tot, wsum = tot + g ** t * l, wsum + g ** t
                                    return tot / wsum
                                for it in range(2):
                                    use = idx if it == 0 else idx[::-1]
                                    zl = -loss(use, False)
                                    zo.zero_grad()
                                    zl.backward()
                                    zo.step()
                                    vl = loss(use, det)
                                    vo.zero_grad()
                                    vl.backward()
                                    vo.step()
                                    close(calls[it], (zl.item(), vl.item()), "losses of step %d" % it, rtol=1e-3, atol=1e-4)
                                est = avg([sum(g ** i * r * net(zeta, s, a).item() for i, (s, a, r) in enumerate(trajs[k])) for k in which])
                                close(res.estimated_reward, est, "estimate", rtol=1e-3, atol=1e-4)
                                close(res.log_reward, avg([sum(g ** i * r for i, (_, _, r) in enumerate(trajs[k])) for k in which]), "logged reward")
                                for p, q in zip(list(d.v_net.parameters()) + list(d.zeta_net.parameters()), list(v.parameters()) + list(zeta.parameters())):
                                    close(p, q, "trained parameters", rtol=1e-3, atol=1e-4)
                                ctx.step(2)
                            ctx.run((which, det, avg_next, degree, idx), case)
    return fn


def groups(tier):
    big = tier == "thorough"
    return [
        ("dp-values", dp_values(big)), ("dp-order", dp_order), ("dp-trainer", dp_trainer(big)), ("mc-values", mc_values(big)), ("episode-values", episode_values(big)),
        ("mc-trainer", mc_trainer(big)), ("policies", policies(big)), ("estimators", estimators(big)), ("no-ground-truth", no_ground_truth), ("dualdice", dualdice(big)),
    ]

"""G03: episodes are recorded as they happened, and training happens as often as configured."""
import itertools

import numpy as np
import torch

from mc.core import close, expect, raises, same, seed_all
from mc.scriptenv import ScriptedEnv, ScriptedPolicy, action_of
from mc import world

world.poison_uninitialised()
import reagent.types as rlt
from reagent.gym.agents.agent import Agent
from reagent.gym.agents.post_episode import train_post_episode
from reagent.gym.agents.post_step import add_replay_buffer_post_step, train_with_replay_buffer_post_step
from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset
from reagent.gym.preprocessors import make_replay_buffer_inserter
from reagent.gym.runners.gymrunner import evaluate_for_n_episodes, run_episode
from reagent.gym.types import Trajectory, Transition
from reagent.gym.utils import fill_replay_buffer
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.tensorboardX import SummaryWriterContext

LEVEL = "exploration"
RULE = (
    "a scripted environment behind the real wrapper: every combination of up to three episodes of one to four steps (or endless), step limit, action space, masks, "
    "probabilities, training frequency, batch size, prefill and number of episodes; every sequence of up to three transitions with every optional field pattern. "
    "Non-trivial: more than one step or more than one episode. Every exchange between environment, agent and callbacks is recorded and compared"
)
ASSUMPTIONS = [
    "post-step training starts with enough stored transitions to sample from", "evaluation in one process (the pickling of closures for worker processes depends on the Python version)",
    "a stored transition can be sampled once its successor is known; training in a data set starts when that many transitions can be sampled", "a step limit of n means that the episode ends with step n",
]


def expected(e, length, limit, kind, masks, lp, mdp):
    n = min(x for x in (length or 99, limit or 99))
    out = []
    for t in range(n):
        out.append(dict(
            mdp_id=mdp, sequence_number=t, observation=[float(e), float(t)], action=action_of(e, t, kind)[1], reward=10 * e + t + 0.5, terminal=t == n - 1,
            log_prob=ScriptedPolicy.log_prob(e, t) if lp else None,
            possible_actions_mask=[True, (e + t) % 2 == 0, t % 3 == 1] if masks else None,
        ))
    return out


def check_transition(tr, want, what):
    for k, w in want.items():
        g = getattr(tr, k)
        if isinstance(g, (torch.Tensor, np.ndarray, np.generic)):
            g = g.tolist()
        if w is None:
            expect(g is None, "%s: %s is %r", what, k, g)
        elif k in ("terminal",):
            same((type(g), g), (bool, w), what + ": " + k)
        else:
            close(g, w, "%s: %s" % (what, k), atol=1e-5)


def episodes(big):
    def fn(ctx):
        for lengths in itertools.product((1, 2, 3, 4, 0), repeat=2):
            for limit in (None, 1, 2, 3, 5):
                if 0 in lengths and limit is None:
                    continue
                for kind in ("discrete", "box", "multi"):
                    for masks in (False, True) if kind == "discrete" else (False,):
                        for lp in (True, False):
                            for serving in (False, True) if kind != "box" else (False,):
                                if not big and lengths[0] == lengths[1] and len(set(lengths)) == 1 and kind != "discrete":
                                    continue

                                def case():
                                    env = ScriptedEnv(lengths=lengths, actions=kind, masks=masks)
                                    pol = ScriptedPolicy(kind, lp)
                                    steps, ends = [], []

                                    def post_step(tr):
                                        steps.append((tr, env.env.log[-1][0], len(env.env.log), len(pol.seen)))

                                    def post_episode(tj):
                                        ends.append((tj, len(steps)))

                                    make = Agent.create_for_env_with_serving_policy if serving else Agent.create_for_env
                                    agent = make(env, pol, post_transition_callback=post_step, post_episode_callback=post_episode)
                                    g0 = SummaryWriterContext._global_step
                                    done = 0
                                    for e in (0, 1, 2):
                                        want = expected(e, lengths[e % 2], limit, kind, masks, lp, mdp=7 + 2 * e)
                                        tj = run_episode(env, agent, mdp_id=7 + 2 * e, max_steps=limit)
                                        same(len(tj), len(want), "steps of episode %d" % e)
                                        for t, (tr, w) in enumerate(zip(tj.transitions, want)):
                                            check_transition(tr, w, "step %d of episode %d" % (t, e))
                                            s = steps[done + t]
                                            expect(s[0] is tr or s[0] == tr, "callback of step %d", t)
                                            same(s[1], "step", "callback comes after the step")
                                            same((s[2], s[3]), (done + t + 1 + e + 1, done + t + 1), "callback comes before the next step")
                                        same(len(steps), done + len(want), "callbacks per step")
                                        same(len(ends), e + 1, "callbacks per episode")
                                        expect(ends[-1][0] is tj and ends[-1][1] == len(steps), "callback after the episode")
                                        for t, w in enumerate(want):
                                            same(pol.seen[done + t], ((e, t), w["possible_actions_mask"]), "what the policy saw")
                                        for f in ("reward", "terminal", "sequence_number"):
                                            same(list(getattr(tj, f)), [w[f] for w in want], "trajectory." + f)
                                        done += len(want)
                                        ctx.step(len(want))
                                    same([x for x in env.env.log if x[0] == "reset"], [("reset", [float(e), 0.0]) for e in range(3)], "resets")
                                    if hasattr(SummaryWriterContext, "_global_step"):
                                        same(SummaryWriterContext._global_step - g0, done, "global steps")
                                    ctx.outcome((lengths, limit))
                                ctx.run((lengths, limit, kind, masks, lp, serving), case, nontrivial=lengths != (1, 1) and limit != 1)
    return fn


def evaluation(ctx):
    for n in (1, 2, 3):
        for lengths in itertools.product((1, 2, 3), repeat=2):
            for limit in (None, 1, 2):
                for gammas in ((1.0,), (0.5, 0.0), (0.0, 1.0, 0.9)):
                    def case():
                        env = ScriptedEnv(lengths=lengths)
                        ids = []
                        agent = Agent.create_for_env(env, ScriptedPolicy(), post_transition_callback=lambda tr: ids.append((tr.mdp_id, tr.sequence_number)))
                        got = evaluate_for_n_episodes(n, env, agent, max_steps=limit, gammas=gammas, num_processes=1)
                        want = [
                            [sum(w["reward"] * g ** t for t, w in enumerate(expected(e, lengths[e % 2], limit, "discrete", False, True, e))) for g in gammas] for e in range(n)
                        ]
                        close(got, want, "returns")
                        same(ids, [(e, t) for e in range(n) for t in range(min(lengths[e % 2], limit or 99))], "episodes and steps that the agent reported")
                        got = evaluate_for_n_episodes(1, ScriptedEnv(lengths=lengths), agent, max_steps=limit, gammas=gammas)
                        close(got, want[:1], "returns of one episode")
                    ctx.run((n, lengths, limit, gammas), case, nontrivial=n > 1)


def trajectories(ctx):
    def tr(i, lp, mask):
        return Transition(mdp_id=1, sequence_number=i, observation=np.array([i]), action=np.array(i), reward=[1.0, -2.0, 4.0][i], terminal=i == 2,
                          log_prob=-0.5 * i if lp else None, possible_actions_mask=np.array([1, i]) if mask else None)

    opts = list(itertools.product((False, True), repeat=2))
    for seq in itertools.chain(*(itertools.product(opts, repeat=n) for n in (1, 2, 3))):
        def case():
            tj = Trajectory()
            same(len(tj), 0, "empty")
            raises(lambda: tj.calculate_cumulative_reward(0.5), "return of an empty trajectory")
            kept = []
            for i, o in enumerate(seq):
                t = tr(i, *o)
                if o == seq[0]:
                    tj.add_transition(t)
                    kept.append(t)
                else:
                    raises(lambda: tj.add_transition(t), "transition with other optional fields")
                same(len(tj), len(kept), "length")
                expect(all(a is b for a, b in zip(tj.transitions, kept)), "transitions")
                ctx.step()
            for f in ("mdp_id", "reward", "terminal", "log_prob", "sequence_number"):
                same(list(getattr(tj, f)), [getattr(t, f) for t in kept], f)
            for g in (0.0, 0.5, 1.0):
                close(tj.calculate_cumulative_reward(g), sum(t.reward * g ** i for i, t in enumerate(kept)), "cumulative reward")
            close(tj.calculate_cumulative_reward(), sum(t.reward for t in kept), "undiscounted reward")
            for t, o in zip(kept, [seq[0]] * len(kept)):
                d = t.asdict()
                same(sorted(d), sorted(["mdp_id", "sequence_number", "observation", "action", "reward", "terminal"] + ["log_prob"] * o[0] + ["possible_actions_mask"] * o[1]), "fields")
                for k in d:
                    same(np.array(d[k]).tolist(), np.array(getattr(t, k)).tolist(), k)
        ctx.run(seq, case, nontrivial=len(seq) > 1)


def prefilled(n, capacity=50):
    rb = ReplayBuffer(replay_capacity=capacity, batch_size=1)
    for i in range(n):
        rb.add(mdp_id=100 + i, sequence_number=0, observation=np.array([-1.0, -1.0 - i], dtype=np.float32), action=0, reward=-7.0 - i, terminal=True, log_prob=-0.1)
    return rb


def stored(rb, start):
    """transitions of the buffer in order of insertion"""
    cols = {k: rb._store[k] if hasattr(rb, "_store") else None for k in ("observation", "action", "reward", "terminal", "mdp_id", "sequence_number")}
    n = int(rb.add_count)
    return [{k: cols[k][i].tolist() for k in cols} for i in range(start, n)]


class Recorder:
    def __init__(self):
        self.batches = []

    def train(self, training_batch: rlt.DiscreteDqnInput):
        self.batches.append(training_batch)


class PGRecorder:
    def __init__(self):
        self.batches = []

    def train(self, training_batch: rlt.PolicyGradientInput):
        self.batches.append(training_batch)


def check_dqn_batch(b, size, known):
    same(tuple(b.state.float_features.shape), (size, 2), "shape of the batch")
    known_rows = {tuple(k) for k in known}
    for r in range(size):
        s = tuple(b.state.float_features[r].tolist())
        expect(s in known_rows, "row %r was never stored", s)
        if s[0] >= 0:
            e, t = int(s[0]), int(s[1])
            close(b.reward.reshape(-1)[r], 10 * e + t + 0.5, "reward")
            same(int(b.action[r].argmax()), action_of(e, t, "discrete")[1], "action")
            close(b.extras.action_probability.reshape(-1)[r], np.exp(ScriptedPolicy.log_prob(e, t)), "probability of the action")


def stepping(big):
    def fn(ctx):
        for freq in (1, 2, 3, 4):
            for size in (1, 2, 3):
                for pre in (size, size + 2):
                    for lengths in itertools.product((1, 2, 3), repeat=3) if big else ((1, 1, 1), (1, 2, 3), (3, 2, 1), (2, 2, 2), (3, 1, 3)):
                        for default in (True, False):
                            def case():
                                seed_all(1)
                                env = ScriptedEnv(lengths=lengths)
                                rb = prefilled(pre)
                                tr = Recorder()
                                kw = {} if default else dict(trainer_preprocessor=lambda b: b, replay_buffer_inserter=lambda buf, t: (calls.append(t), make_replay_buffer_inserter(env)(buf, t)))
                                calls = []
                                cb = train_with_replay_buffer_post_step(rb, env, tr, training_freq=freq, batch_size=size, **kw)
                                count, due = [0], []

                                def post(t):
                                    cb(t)
                                    due.append(len(tr.batches))
                                    count[0] += 1
                                    same(rb.size, pre + count[0] - (not t.terminal), "transitions that can be sampled")
                                    same(len(tr.batches), (count[0] - 1) // freq + 1, "training steps after %d transitions" % count[0])
                                    if tr.batches and (count[0] - 1) % freq == 0:
                                        known = [(-1.0, -1.0 - i) for i in range(pre)] + [tuple(x["observation"]) for x in stored(rb, pre)]
                                        if default:
                                            check_dqn_batch(tr.batches[-1], size, known)
                                        else:
                                            same(tr.batches[-1].state.shape[0], size, "rows of the raw batch")
                                    ctx.step()
                                agent = Agent.create_for_env(env, ScriptedPolicy(), post_transition_callback=post)
                                want = []
                                for e in range(3):
                                    run_episode(env, agent, mdp_id=e)
                                    want += expected(e, lengths[e], None, "discrete", False, True, e)
                                if not default:
                                    same(len(calls), len(want), "calls of the inserter")
                                for g, w in zip(stored(rb, pre), want):
                                    for k in g:
                                        close(g[k], w[k], "stored " + k)
                                ctx.outcome((freq, due))
                            ctx.run((freq, size, pre, lengths, default), case, nontrivial=True)
        def plain():
            env = ScriptedEnv(lengths=(2, 3))
            rb = prefilled(0)
            agent = Agent.create_for_env(env, ScriptedPolicy(), post_transition_callback=add_replay_buffer_post_step(rb, env))
            want = []
            for e in range(3):
                run_episode(env, agent, mdp_id=e)
                want += expected(e, (2, 3)[e % 2], None, "discrete", False, True, e)
                same(rb.size, len(want), "stored transitions")
            for g, w in zip(stored(rb, 0), want):
                for k in g:
                    close(g[k], w[k], "stored " + k)
            rb = prefilled(1)
            env = ScriptedEnv(lengths=(2, 3))
            cb = train_with_replay_buffer_post_step(rb, env, Recorder(), training_freq=1, batch_size=5)
            agent = Agent.create_for_env(env, ScriptedPolicy(), post_transition_callback=cb)
            raises(lambda: run_episode(env, agent), "training without enough transitions")
        ctx.run("plain", plain)
    return fn


def datasets(big):
    def fn(ctx):
        for freq in (1, 2, 3):
            for size in (1, 2, 3):
                for pre in (1, 3):
                    for limit in (None, 1, 2):
                        for n in (1, 2, 3) if big else (1, 3):
                            for lengths in ((1, 2, 3), (3, 1, 2), (2, 2, 4), (4, 3, 1)) if big else ((1, 2, 3), (3, 1, 2)):
                                for via in ("plain", "trainer", "raw"):
                                    def case():
                                        seed_all(2)
                                        env = ScriptedEnv(lengths=lengths)
                                        rb = prefilled(pre)
                                        agent = Agent.create_for_env(env, ScriptedPolicy())
                                        kw = dict(env=env, agent=agent, replay_buffer=rb, batch_size=size, training_frequency=freq, num_episodes=n, max_steps=limit)
                                        if via == "trainer":
                                            ds = ReplayBufferDataset.create_for_trainer(Recorder(), **kw)
                                        else:
                                            pp = (lambda b: ("seen", b)) if via == "plain" else None
                                            ds = ReplayBufferDataset(trainer_preprocessor=pp, replay_buffer_inserter=make_replay_buffer_inserter(env), **kw)
                                        want = []
                                        for e in range(n):
                                            want += expected(e, lengths[e], limit, "discrete", False, True, e)
                                        due = [i for i in range(len(want)) if i % freq == 0 and pre + i + bool(want[i]["terminal"]) >= size]
                                        got = 0
                                        for b in ds:
                                            expect(got < len(due), "more batches than training steps")
                                            same(int(rb.add_count) - pre, due[got] + 1, "transitions stored when batch %d came" % got)
                                            known = [(-1.0, -1.0 - i) for i in range(pre)] + [tuple(x["observation"]) for x in stored(rb, pre)]
                                            if via == "trainer":
                                                expect(isinstance(b, rlt.DiscreteDqnInput), "type of the batch")
                                                check_dqn_batch(b, size, known)
                                            else:
                                                if via == "plain":
                                                    same(b[0], "seen", "preprocessed batch")
                                                    b = b[1]
                                                same(tuple(b.state.shape), (size, 2), "shape of the batch")
                                                expect(all(tuple(r) in known for r in b.state.tolist()), "rows of the batch")
                                            got += 1
                                            ctx.step()
                                        same(got, len(due), "number of batches")
                                        same(rb.size - pre, len(want), "stored transitions")
                                        for g, w in zip(stored(rb, pre), want):
                                            for k in g:
                                                close(g[k], w[k], "stored " + k)
                                        ctx.outcome((freq, size, len(due)))
                                    ctx.run((freq, size, pre, limit, n, lengths, via), case, nontrivial=n > 1)

        def endless():
            env = ScriptedEnv(lengths=(2, 3))
            rb = prefilled(2)
            ds = ReplayBufferDataset.create_for_trainer(Recorder(), env=env, agent=Agent.create_for_env(env, ScriptedPolicy()), replay_buffer=rb, batch_size=2)
            for i, b in enumerate(ds):
                if i == 20:
                    break
            same(int(rb.add_count), 23, "transitions of an endless data set")
            same(sum(1 for x in env.env.log if x[0] == "reset"), 9, "episodes of an endless data set")
        ctx.run("endless", endless)
    return fn


def filling(big):
    def fn(ctx):
        for have in (0, 1, 2):
            for desired in range(have + 1, 7):
                for lengths in itertools.product((1, 2, 4), repeat=2) if big else ((1, 1), (2, 4), (4, 1), (3, 3)):
                    for limit, name in ((0, "max_steps"), (1, "_max_episode_steps"), (2, "max_steps"), (3, "_max_episode_steps"), (9, "max_steps")):
                        for kind in ("discrete", "box"):
                            def case():
                                seed_all(3)
                                env = ScriptedEnv(lengths=lengths, actions=kind, limit=limit, limit_name=name)
                                same(env.max_steps, limit or None, "step limit of the environment")
                                rb = ReplayBuffer(replay_capacity=10, batch_size=1)
                                for i in range(have):
                                    a = 0 if kind == "discrete" else np.zeros(2, dtype=np.float32)
                                    rb.add(mdp_id=100 + i, sequence_number=0, observation=np.zeros(2, dtype=np.float32), action=a, reward=0.0, terminal=True, log_prob=0.0)
                                fill_replay_buffer(env, rb, desired)
                                same(rb.size, desired, "size of the buffer")
                                got, e, t = stored(rb, have), 0, 0
                                for i, g in enumerate(got):
                                    close((g["observation"], g["reward"], g["mdp_id"], g["sequence_number"]), ([float(e), float(t)], 10 * e + t + 0.5, e, t), "transition %d" % i)
                                    last = i == len(got) - 1
                                    end = t + 1 == lengths[e % 2] or t + 1 == limit or last
                                    same(bool(g["terminal"]), end, "terminal %d" % i)
                                    e, t = (e + 1, 0) if end else (e, t + 1)
                                ctx.step(len(got))
                                raises(lambda: fill_replay_buffer(env, rb, desired), "buffer that is already full enough")
                                raises(lambda: fill_replay_buffer(env, rb, 11), "more than the capacity")
                            ctx.run((have, desired, lengths, limit, name, kind), case, nontrivial=desired - have > 1)
    return fn


def after_episode(ctx):
    for lengths in itertools.product((1, 2, 3), repeat=2):
        for kind in ("discrete", "box"):
            for masks in (False, True) if kind == "discrete" else (False,):
                def case():
                    env = ScriptedEnv(lengths=lengths, actions=kind, masks=masks)
                    tr = PGRecorder()
                    agent = Agent.create_for_env(env, ScriptedPolicy(kind), post_episode_callback=train_post_episode(env, tr, use_gpu=False))
                    for e in (0, 1, 2):
                        run_episode(env, agent, mdp_id=e)
                        same(len(tr.batches), e + 1, "training steps")
                        w = expected(e, lengths[e % 2], None, kind, masks, True, e)
                        b = tr.batches[-1]
                        close(b.state.float_features, [x["observation"] for x in w], "states")
                        close(b.reward, [x["reward"] for x in w], "rewards")
                        close(b.log_prob, [x["log_prob"] for x in w], "log-probabilities")
                        acts = [x["action"] for x in w]
                        close(b.action.float(), [[float(i == a) for i in range(3)] for a in acts] if kind == "discrete" else acts, "actions")
                        if masks:
                            close(b.possible_actions_mask.float(), [[float(v) for v in x["possible_actions_mask"]] for x in w], "possible actions")
                        ctx.step()
                ctx.run((lengths, kind, masks), case)


def groups(tier):
    big = tier == "thorough"
    return [
        ("episodes", episodes(big)), ("evaluation", evaluation), ("trajectories", trajectories), ("stepping", stepping(big)), ("datasets", datasets(big)),
        ("filling", filling(big)), ("after-episode", after_episode),
    ]

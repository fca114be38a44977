"""R04: experience put into a replay buffer is exported without loss, duplication or mix-up."""
import itertools
import math
from collections import OrderedDict

import gym
import numpy as np
import torch

from mc.core import close, expect, raises, same
from mc import world
world.poison_uninitialised()
from reagent.gym.preprocessors.replay_buffer_inserters import (
    BasicReplayBufferInserter,
    RecSimReplayBufferInserter,
    make_replay_buffer_inserter,
)
from reagent.gym.types import Trajectory, Transition
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df

LEVEL = "model_checking"
RULE = (
    "state = distinct sequence of episodes inserted (lengths, terminal or cut, capacity, action kind); transition = one "
    "insertion; the exported table is compared with the list of inserted transitions that the buffer still holds"
)
ASSUMPTIONS = ["probabilities are float32", "RecSim is not installed: its observations are built from gym spaces by hand"]


def tr(kind, ep, k, n, term):
    t = ep * 10 + k
    if kind == "discrete":
        action = (ep + k) % 3
    else:
        action = np.array([0.25 * t, -1.0 * k], dtype=np.float32)
    kw = {}
    return Transition(
        mdp_id=ep + 3,
        sequence_number=k,
        observation=np.array([t + 0.5, -t, ep], dtype=np.float32),
        action=action,
        reward=float(1.5 * t - 2),
        terminal=term,
        log_prob=math.log((1 + (t % 4)) / 5.0),
        **kw,
    )


def alive(log, cap):
    """sampleable one-step transitions: still stored, and either terminal or followed by a stored step"""
    out = []
    lo = max(0, len(log) - cap)
    for s in range(lo, len(log)):
        if log[s].terminal or s + 1 < len(log):
            out.append(log[s])
    return out


def export_case(kind, eps, cap, ctx):
    buf = ReplayBuffer(stack_size=1, replay_capacity=cap, batch_size=1)
    ins = BasicReplayBufferInserter()
    log = []
    for e, (n, term) in enumerate(eps):
        for k in range(n):
            # an episode that is not the last one always ends with a terminal step
            x = tr(kind, e, k, n, term=(k == n - 1) and (term or e < len(eps) - 1))
            ins(buf, x)
            log.append(x)
            ctx.step()
    want = alive(log, cap)
    if not want:
        return
    df = replay_buffer_to_pre_timeline_df(kind == "discrete", buf)
    same(len(df), len(want), "rows exported")
    got = {}
    for _, r in df.iterrows():
        expect(isinstance(r["mdp_id"], str), "mdp_id is a %s", type(r["mdp_id"]))
        key = (int(r["mdp_id"]), int(r["sequence_number"]))
        expect(key not in got, "transition %s exported twice", key)
        got[key] = r
    acts = sorted({str(x.action) for x in want}) if kind == "discrete" else None
    for x in want:
        r = got.get((x.mdp_id, x.sequence_number))
        expect(r is not None, "transition (%d,%d) was not exported", x.mdp_id, x.sequence_number)
        close(r["state_features"], {i: float(v) for i, v in enumerate(x.observation)}, "state_features")
        close(r["reward"], x.reward, "reward")
        close(r["metrics"], {"reward": x.reward}, "metrics")
        close(r["action_probability"], math.exp(x.log_prob), "action_probability")
        if kind == "discrete":
            same(r["action"], str(x.action), "action")
            same(sorted(r["possible_actions"]), [] if x.terminal else acts, "possible_actions")
            same(list(r["possible_actions_mask"]), [] if x.terminal else [1] * len(acts), "possible_actions_mask")
        else:
            close(r["action"], {i: float(v) for i, v in enumerate(x.action)}, "action")
    ctx.outcome((kind, cap, len(want)))


def export_group(kind, caps, maxlen, maxeps):
    def go(ctx):
        for cap in caps:
            for m in range(1, maxeps + 1):
                for lens in itertools.product(range(1, maxlen + 1), repeat=m):
                    for term in (True, False):
                        eps = tuple((n, term if i == m - 1 else True) for i, n in enumerate(lens))
                        ctx.state((kind, cap, eps))
                        ctx.run((kind, cap, eps), export_case, kind, eps, cap, ctx)

    return ("export_%s" % kind, go)


# ------------------------------------------------------------------------- inserters
class FakeEnv:
    def __init__(self, space):
        self.observation_space = space
        self.unwrapped = self


def recsim_space(num_docs, num_resp, doc_kind, aug):
    box = lambda *s: gym.spaces.Box(low=-9, high=9, shape=s, dtype=np.float32)
    if doc_kind == "box":
        doc = box(2)
    elif doc_kind == "dict":
        doc = gym.spaces.Dict({"len": box(), "topic": gym.spaces.Discrete(4), "vec": box(2)})
    d = {
        "user": box(3),
        "doc": gym.spaces.Dict(OrderedDict((str(i), doc) for i in range(num_docs))),
        "response": gym.spaces.Tuple(
            tuple(gym.spaces.Dict({"click": gym.spaces.Discrete(2), "watch": box(), "q": box(2)}) for _ in range(num_resp))
        ),
    }
    if aug:
        d["augmentation"] = gym.spaces.Dict(
            OrderedDict((str(i), gym.spaces.Dict({"u": box(), "c": gym.spaces.Discrete(3)})) for i in range(num_docs))
        )
    return gym.spaces.Dict(d)


def recsim_case(num_docs, num_resp, doc_kind, aug, none_mask, rev, ctx):
    ins = RecSimReplayBufferInserter.create_for_env(FakeEnv(recsim_space(num_docs, num_resp, doc_kind, aug)))
    cap = 8
    buf = ReplayBuffer(stack_size=1, replay_capacity=cap, batch_size=1)
    n = len(none_mask)
    f = np.float32
    want = []
    for t in range(n):
        user = np.array([t, t + 1, 2 * t], dtype=f)
        docs, augs = OrderedDict(), OrderedDict()
        # documents are listed in any order, which may change from step to step
        order = [(num_docs - 1 - i if rev else (i + t) % num_docs) for i in range(num_docs)]
        for i in order:
            if doc_kind == "box":
                docs[str(i)] = np.array([10 * t + i, -i], dtype=f)
            else:
                docs[str(i)] = {"len": np.array(0.5 * i + t, dtype=f), "topic": (i + t) % 4, "vec": np.array([i, t], dtype=f)}
            augs[str(i)] = {"u": np.array(i - t, dtype=f), "c": (i * t) % 3}
        resp = (
            None
            if none_mask[t]
            else tuple({"click": (t + j) % 2, "watch": np.array(t + 0.25 * j, dtype=f), "q": np.array([j, t], dtype=f)} for j in range(num_resp))
        )
        obs = {"user": user, "doc": docs, "response": resp}
        if aug:
            obs["augmentation"] = augs
        ins(
            buf,
            Transition(
                mdp_id=1, sequence_number=t, observation=obs, action=np.array([t % num_docs] * num_resp), reward=float(t),
                terminal=t == n - 1, log_prob=-0.5,
            ),
        )
        ctx.step()
        w = {"state": user}
        if doc_kind == "box":
            w["doc"] = np.stack([docs[str(i)] for i in order])
        else:
            for k in ("len", "topic", "vec"):
                w["doc_" + k] = np.stack([docs[str(i)][k] for i in order])
        if aug:
            for k in ("u", "c"):
                w["augmentation_" + k] = np.stack([augs[str(i)][k] for i in order])
        w["response_click"] = np.array([r["click"] for r in resp]) if resp else np.zeros(num_resp)
        w["response_watch"] = np.array([r["watch"] for r in resp]) if resp else np.zeros(num_resp)
        w["response_q"] = np.stack([r["q"] for r in resp]) if resp else np.zeros((num_resp, 2))
        w["action"] = np.array([t % num_docs] * num_resp)
        w["reward"] = np.array([float(t)])
        want.append(w)
    batch = buf.sample_transition_batch(batch_size=n, indices=torch.arange(n))
    for t in range(n):
        for k, v in want[t].items():
            close(getattr(batch, k)[t], v.tolist(), "%s of step %d" % (k, t))
        if t + 1 < n:
            for k, v in want[t + 1].items():
                close(getattr(batch, "next_" + k)[t], v.tolist(), "next_%s of step %d" % (k, t))


def recsim_group(ctx):
    for num_docs in (1, 2, 3):
        for num_resp in (1, 2):
            for doc_kind in ("box", "dict"):
                for aug in (False, True):
                    for mask in ((True,), (False,), (True, False, False), (False, True), (True, True)):
                        for rev in (False, True):
                            c = (num_docs, num_resp, doc_kind, aug, mask, rev)
                            ctx.state(c)
                            ctx.run(c, recsim_case, *c, ctx)


def trajectory_group(ctx):
    """optional fields are all-or-none; columns keep order; discounted return"""

    def mk(t, lp, pm):
        return Transition(
            mdp_id=4, sequence_number=t, observation=t, action=2 * t, reward=float(t + 1), terminal=t == 2,
            log_prob=-0.5 * t - 0.25 if lp else None, possible_actions_mask=np.array([t, 1]) if pm else None,
        )

    def one(flags):
        tj = Trajectory()
        ok = []
        for t, (lp, pm) in enumerate(flags):
            x = mk(t, lp, pm)
            if flags[0] == (lp, pm):
                tj.add_transition(x)
                ok.append(x)
            else:
                raises(lambda: tj.add_transition(x), "transition with other optional fields")
            same(len(tj), len(ok), "length")
            ctx.step()
        same(tj.observation, [x.observation for x in ok], "observation column")
        same(tj.action, [x.action for x in ok], "action column")
        same(tj.reward, [x.reward for x in ok], "reward column")
        same(tj.log_prob, [x.log_prob for x in ok], "log_prob column")
        for g in (1.0, 0.5, 0.0):
            close(tj.calculate_cumulative_reward(g), sum(x.reward * g ** i for i, x in enumerate(ok)), "return")
        d = ok[0].asdict()
        same(("log_prob" in d, "possible_actions_mask" in d), flags[0], "asdict drops exactly the missing optionals")
        ctx.state(flags)

    kinds = list(itertools.product((False, True), repeat=2))
    for L in (1, 2, 3, 4):
        for flags in itertools.product(kinds, repeat=L):
            ctx.run(("traj", flags), one, flags)


def groups(tier):
    q = tier == "quick"
    return [
        export_group("discrete", (2, 3, 5, 9, 20), 3 if q else 5, 3),
        export_group("parametric", (2, 3, 5, 9, 20), 3 if q else 5, 3),
        ("recsim", recsim_group),
        ("trajectory", trajectory_group),
    ]

"""G05: environments follow their stated dynamics on every action sequence."""
import collections
import contextlib
import copy
import itertools
import math

import gym
import numpy as np
import torch
from scipy import stats

from mc.core import SEED, close, expect, raises, same, seed_all

import reagent.types as rlt
from reagent.gym.envs import ChangingArms, Gym
from reagent.gym.envs.dynamics.linear_dynamics import LinDynaEnv
from reagent.gym.envs.functionality.possible_actions_mask_tester import PossibleActionsMaskTester
from reagent.gym.envs.pomdp.pocman import MICRO, MINI, PocManEnv
from reagent.gym.envs.pomdp.state_embed_env import StateEmbedEnvironment
from reagent.gym.envs.pomdp.string_game import StringGameEnv
from reagent.gym.envs.pomdp.string_game_v1 import StringGameEnvV1
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import NormalizationKey

LEVEL = "model_checking"
RULE = (
    "the real environments are driven through every action sequence and every outcome of their random draws up to the bound (breadth first over distinct states for the maze "
    "game); each step is compared with an independent model of the documented dynamics, each reset with a fresh environment. Non-trivial: at least one step taken"
)
ASSUMPTIONS = [
    "actions come from the declared action space", "a ghost chases within its range by straight or by city-block distance, whichever the code uses", "ties of the hidden ranking of documents are not judged",
    "string games with at most the documented number of steps",
]


class Draws:
    """np.random.{choice,randint,rand} answer from a decision string; the alternatives are counted so that all strings can be enumerated"""

    def __init__(self, prefix=()):
        self.prefix, self.taken, self.width = list(prefix), [], []

    def pick(self, n):
        i = self.prefix[len(self.taken)] if len(self.taken) < len(self.prefix) else 0
        i = min(i, n - 1)
        self.taken.append(i)
        self.width.append(n)
        return i

    def choice(self, a, size=None, replace=True, p=None):
        if size is not None:
            return self.orig["choice"](a, size, replace, p)
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        return opts[self.pick(len(opts))]

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + self.pick(high - low)
        n = int(np.prod(size))
        return np.array([low + self.pick(high - low) for _ in range(n)], dtype=dtype).reshape(size)

    def __enter__(self):
        self.orig = {k: getattr(np.random, k) for k in ("choice", "randint")}
        np.random.choice, np.random.randint = self.choice, self.randint
        return self

    def __exit__(self, *a):
        np.random.choice, np.random.randint = self.orig["choice"], self.orig["randint"]


def all_draws(fn):
    """run fn under every outcome of its draws"""
    prefix = []
    while True:
        with Draws(prefix) as d:
            fn()
        t, w = d.taken, d.width
        while t and t[-1] + 1 >= w[-1]:
            t.pop()
            w.pop()
        if not t:
            return
        prefix = t[:-1] + [t[-1] + 1]


# ---------------------------------------------------------------- the maze game

MOVE = [(-1, 0), (0, 1), (1, 0), (0, -1)]


def nxt(maze, pos, a):
    q = (pos[0] + MOVE[a][0], pos[1] + MOVE[a][1])
    return q if 0 <= q[0] < len(maze) and 0 <= q[1] < len(maze[0]) and maze[q[0]][q[1]] else pos


def canon(env):
    s = env.internal_state
    return (tuple(s.agent_pos), tuple((tuple(g.pos), int(g.direction)) for g in s.ghosts), int(s.power_duration), tuple(map(tuple, env.maze.tolist())), bool(env.done))


def dists(p, q):
    return (math.hypot(p[0] - q[0], p[1] - q[1]), abs(p[0] - q[0]) + abs(p[1] - q[1]))


def ghost_moves(maze, pos, direction, agent, power, reach):
    around = {}
    for a in range(4):
        q = nxt(maze, pos, a)
        if q != pos:
            around[a] = q
    if not around:
        return {(pos, None)}
    out = set()
    for metric in (0, 1):
        if dists(agent, pos)[metric] < reach:
            ds = {a: dists(q, agent)[metric] for a, q in around.items()}
            best = max(ds.values()) if power else min(ds.values())
            out |= {(q, a) for a, q in around.items() if abs(ds[a] - best) < 1e-9}
        else:
            back = (direction + 2) % 4 if direction is not None and direction >= 0 else None
            opts = {a: q for a, q in around.items() if a != back} if len(around) > 1 else around
            out |= {(q, a) for a, q in opts.items()}
    return out


def observation(maze, agent, ghosts):
    sees, walls = [], []
    for a in range(4):
        seen = False
        for g in ghosts:
            q = agent
            while True:
                n = nxt(maze, q, a)
                if n == q:
                    break
                q = n
                if q == g:
                    seen = True
        sees.append(1.0 if seen else -1.0)
        walls.append(1.0 if nxt(maze, agent, a) == agent else 0.0)
    hear = any(dists(agent, g)[1] <= 2 for g in ghosts)
    smell = any(
        0 <= agent[0] + i < len(maze) and 0 <= agent[1] + j < len(maze[0]) and maze[agent[0] + i][agent[1] + j] == 3 for i in (-1, 0, 1) for j in (-1, 0, 1)
    )
    return sees, walls + [float(hear), float(smell)]


def check_step(board, before, a, out, env, cnt):
    agent, ghosts, power, maze, _ = before
    maze = [list(r) for r in maze]
    ob, reward, done, _ = out
    after = canon(env)
    agent = nxt(maze, agent, a)
    same(after[0], agent, "position of the agent")
    power = max(0, power - 1)
    want, dead, hit = -1.0, False, []
    moved = []
    for g, (pos, d) in enumerate(ghosts):
        if pos == agent:
            hit.append(g)
            moved.append({pos})
            continue
        opts = {q for q, _ in ghost_moves(maze, pos, d, agent, power > 0, board["_ghost_range"])}
        moved.append(opts)
    # which of the possible moves was taken shows in the new position, unless the ghost went home
    home = tuple(board["_ghost_home"])
    eaten = 0
    if power > 0:
        for g, opts in enumerate(moved):
            new = after[1][g][0]
            if g in hit or (agent in opts and new not in opts - {agent}):
                same(new, home, "ghost %d was eaten and goes home" % g)
                eaten += 1
            elif new == home and agent in opts and home not in opts:
                eaten += 1
            else:
                expect(new in opts, "ghost %d went to %r, possible are %r", g, new, sorted(opts))
        # a ghost that may have been eaten or may just have walked home: read it from the reward
        amb = sum(1 for g, opts in enumerate(moved) if g not in hit and agent in opts and home in opts and after[1][g][0] == home)
        lo, hi = eaten, eaten + amb
        base = want
        wants = {base + 25.0 * k for k in range(lo, hi + 1)}
    else:
        for g, opts in enumerate(moved):
            new = after[1][g][0]
            expect(new in opts, "ghost %d went to %r, possible are %r", g, new, sorted(opts))
            if new == agent:
                dead = True
        wants = {want - (100.0 if dead else 0.0)}
    bonus = 0
    wdone = dead or cnt >= board["_max_step"]
    cell = maze[agent[0]][agent[1]]
    if cell == 3:
        bonus += 10
        maze[agent[0]][agent[1]] = 1
        if not any(x == 3 for r in maze for x in r):
            wdone = True
    if cell == 2:
        bonus += 10
        maze[agent[0]][agent[1]] = 1
        power = board["_power_duration"]
    expect(any(abs(float(reward) - w - bonus) < 1e-6 for w in wants), "reward %r, expected %r", reward, sorted(w + bonus for w in wants))
    same(bool(done), wdone, "done")
    same((after[2], after[4]), (power, wdone), "power and end of the game")
    same([list(r) for r in after[3]], maze, "maze")
    pos = [g[0] for g in after[1]]
    sees, rest = observation(maze, agent, pos)
    if agent not in pos:
        close(list(ob[:4]), sees, "ghosts in sight")
    close(list(ob[4:]), rest, "walls, noise and smell")
    expect(env.observation_space.contains(np.array(ob)), "observation space")


def pocman(board, cap):
    def fn(ctx):
        def case():
            env = PocManEnv()
            env.board = board
            env.max_steps = board["_max_step"]
            starts = []

            def start():
                ob = env.reset()
                s = canon(env)
                same((s[0], s[2], s[3], s[4]), (tuple(board["_poc_home"]), 0, tuple(map(tuple, board["_maze"].tolist())), False), "start of the game")
                same([g[0] for g in s[1]], [tuple(board["_ghost_home"])] * board["_num_ghosts"], "ghosts at home")
                _, rest = observation(s[3], s[0], [g[0] for g in s[1]])
                close(list(ob[4:]), rest, "first observation")
                starts.append(copy.deepcopy(env))
            all_draws(start)
            seen = {canon(e): e for e in starts}
            todo = collections.deque(seen.values())
            n = 0
            while todo:
                e = todo.popleft()
                before = canon(e)
                ctx.state(before)
                if before[4]:
                    raises(lambda: copy.deepcopy(e).step(0), "step after the end")
                    continue
                for a in range(4):
                    def one():
                        f = copy.deepcopy(e)
                        f.step_cnt = cnt = (5, board["_max_step"] - 2)[n % 2]
                        out = f.step(a)
                        check_step(board, before, a, out, f, cnt + 1)
                        ctx.step()
                        k = canon(f)
                        if k not in seen and len(seen) < cap:
                            seen[k] = f
                            todo.append(f)
                    all_draws(one)
                    n += 1
            ctx.note("states", len(seen))
            # the end of the episode, and nothing left after a reset
            for a in range(4):
                e = copy.deepcopy(starts[0])
                e.step_cnt = board["_max_step"] - 1
                b = canon(e)
                with Draws():
                    out = e.step(a)
                check_step(board, b, a, out, e, board["_max_step"])
                expect(out[2], "the episode ends at its step limit")
                with Draws():
                    e.reset()
                same(canon(e)[2:4], canon(starts[0])[2:4], "fresh game")
                same(e.step_cnt, 0, "step counter")
        ctx.run("board", case)
    return fn


def pocman_walks(ctx):
    """whole games from the registered environment, under several seeds"""
    for seed in range(6):
        for plan in itertools.product(range(4), repeat=2):
            def case():
                env = Gym(env_name="Pocman-v0")
                env.seed(seed + SEED)
                for ep in range(2):
                    env.reset()
                    cnt = 0
                    inner = env.env.unwrapped
                    while not inner.done:
                        before = canon(inner)
                        a = (plan[cnt % 2] + (cnt // 7) * (seed % 3) + ep) % 4
                        out = env.step(a)
                        cnt += 1
                        check_step(MICRO, before, a, out, inner, cnt)
                        ctx.step()
                        expect(cnt <= env.max_steps, "longer than the step limit")
            ctx.run((seed, plan), case)


# ---------------------------------------------------------------- string games

class Kept:
    """observations that were handed out stay as they were"""

    def __init__(self):
        self.all = []

    def __call__(self, ob):
        self.all.append((ob, deep(ob)))

    def unchanged(self):
        for i, (ob, was) in enumerate(self.all):
            same(deep(ob), was, "observation %d was changed afterwards" % i)


def strings(ctx):
    value = {"ABB": 5, "BBB": -5}
    for limit in (1, 2, 3, 4, 5, 6):
        for acts in itertools.product((0, 1), repeat=limit):
            for pre in ((), (0,), (1, 1), (0, 1, 1)):
                if len(pre) > limit:
                    continue

                def case():
                    env = StringGameEnv(max_steps=limit) if limit < 6 else Gym(env_name="StringGame-v0")
                    same(env.max_steps, limit, "step limit")
                    env.reset()
                    for a in pre:
                        env.step(a)
                    ob = env.reset()
                    kept = Kept()
                    kept(ob)
                    close(list(ob), [0.0, 0.0], "first observation")
                    for t, a in enumerate(acts):
                        ob, r, done, info = env.step(a)
                        kept(ob)
                        close(list(ob), [float(a == 0), float(a == 1)], "observation")
                        s = "".join("AB"[x] for x in acts[max(0, t - 2):t + 1])
                        same(float(r), float(value.get(s, 0)), "reward for " + s)
                        same(bool(done), t == limit - 1, "done")
                        ctx.step()
                    raises(lambda: env.step(0), "step after the end")
                    close(list(env.reset()), [0.0, 0.0], "observation after a reset")
                    ob, r, done, _ = env.step(1)
                    same((float(r), bool(done)), (0.0, limit == 1), "first step after a reset")
                    kept.unchanged()
                    ctx.outcome(acts)
                ctx.run((limit, acts, pre), case)


def strings_v1(ctx):
    prob = {0: 0.5, 1: 0.1}
    value = {"AAA": 5.0, "BA": 4.0}
    for limit in (1, 2, 3):
        for acts in itertools.product((0, 1), repeat=limit):
            for us in itertools.product((0.0, 0.05, 0.0999, 0.1001, 0.3, 0.4999, 0.5001, 0.999), repeat=limit - 1):
                def case():
                    env = StringGameEnvV1(max_steps=limit) if limit < 3 else Gym(env_name="StringGame-v1")
                    draws = iter(us + (0.0,) * 9)
                    orig = np.random.rand
                    used = []
                    np.random.rand = lambda *a: (used.append(1), next(draws))[1] if not a else orig(*a)
                    try:
                        ob = env.reset()
                        kept = Kept()
                        kept(ob)
                        close(list(ob), [0.0, 0.0], "first observation")
                        done = False
                        for t, a in enumerate(acts):
                            n = len(used)
                            ob, r, done, _ = env.step(a)
                            kept(ob)
                            close(list(ob), [float(a == 0), float(a == 1)], "observation")
                            if len(used) > n:
                                same(bool(done), us[t] < prob[a] if t < limit - 1 else True, "done")
                            elif t == limit - 1:
                                expect(done, "the episode ends with step %d", limit)
                            s = "".join("AB"[x] for x in acts[:t + 1])
                            same(float(r), value.get(s, 0.0) if done else 0.0, "reward for " + s)
                            ctx.step()
                            if done:
                                break
                        expect(done, "end of the episode")
                        raises(lambda: env.step(0), "step after the end")
                        close(list(env.reset()), [0.0, 0.0], "observation after a reset")
                        kept.unchanged()
                    finally:
                        np.random.rand = orig
                ctx.run((limit, acts, us), case)


# ---------------------------------------------------------------- linear dynamics and masks

def linear(ctx):
    grid = (-4.0, -3.0, 0.0, 1.5, 5.0)
    for i, start in enumerate(itertools.product((-1, 0, 1), repeat=3)):
        for a0 in itertools.product(grid, repeat=2):
            def case():
                env = Gym(env_name="LinearDynamics-v0")
                same(env.max_steps, 4, "step limit")
                orig = np.random.randint
                np.random.randint = lambda *a, **k: np.array(start) if (k.get("size") or (len(a) > 2 and a[2])) else orig(*a, **k)
                try:
                    kept = Kept()
                    for ep in range(2):
                        x = env.reset()
                        kept(x)
                        x = np.array(x, dtype=float)
                        expect(x.shape == (3,) and all(v in (-1.0, 0.0, 1.0) for v in x), "start state %r", x)
                        A, B, Q, R = (getattr(env.env.unwrapped, k) for k in "ABQR")
                        for t in range(4):
                            u = np.array(a0 if t == 0 else [grid[(i + t) % 5], grid[(i * 3 + t + ep) % 5]])
                            keep = u.copy()
                            y, r, done, _ = env.step(u)
                            kept(y)
                            c = np.clip(u, -3, 3)
                            close(y, (A @ x + B @ c).tolist(), "next state")
                            close(float(r), -float(x @ Q @ x + c @ R @ c), "reward")
                            same(bool(done), t == 3, "done")
                            same(u.tolist(), keep.tolist(), "the action is left alone")
                            x = np.array(y)
                            ctx.step()
                        kept.unchanged()
                finally:
                    np.random.randint = orig
            ctx.run((start, a0), case)


def masks(ctx):
    for legal in itertools.product(range(4), repeat=3):
        for acts in itertools.product(range(4), repeat=2):
            def case():
                env = Gym(env_name="PossibleActionsMaskTester-v0")
                T = env.max_steps
                same(T, 20, "step limit")
                with Draws([legal[i % 3] for i in range(100)]):
                    for ep in range(2):
                        ob = env.reset()
                        kept, obs = [], Kept()
                        for t in range(T):
                            obs(ob)
                            close(list(ob), [float(k == t) for k in range(T)], "observation")
                            m = env.possible_actions_mask
                            same((m.dtype, m.shape, int(m.sum())), (np.dtype(bool), (4,), 1), "mask")
                            kept.append((m, m.tolist()))
                            a = (acts[t % 2] + t // 2) % 4
                            ob, r, done, _ = env.step(a)
                            same(float(r), 10.0 if kept[-1][1][a] else 0.0, "reward")
                            same(bool(done), t == T - 1, "done")
                            ctx.step()
                        close(list(ob), [0.0] * T, "last observation")
                        for m, l in kept:
                            same(m.tolist(), l, "a mask that was handed out changed")
                        obs.unchanged()
            ctx.run((legal, acts), case)


# ---------------------------------------------------------------- changing arms

class Arms:
    def __init__(self):
        self.mu, self.out, self.t = [100.0] * 5, [False] * 5, 0

    def step(self, a, legal):
        self.t += 1
        end = self.t >= 50
        if a == 5:
            return -500.0, end
        if not legal[a]:
            return -1000.0, True
        self.mu[a] -= 10.0
        if self.mu[a] <= 0:
            self.out[a] = True
        return 10.0, end


def play(env, acts, legals, ctx):
    it = iter(itertools.cycle(legals))
    orig = torch.bernoulli
    torch.bernoulli = lambda p, *a, **k: torch.tensor(next(it), dtype=p.dtype) if p.numel() == 5 else orig(p, *a, **k)
    try:
        ob = env.reset()
        m = Arms()
        for a in acts:
            same(tuple(ob.shape), (3, 5), "shape")
            close(list(ob[0]), m.mu, "means of the arms")
            close(list(ob[2]), [-10.0] * 5, "changes of the arms")
            expect(all(v in (0.0, 1.0) for v in ob[1].tolist()), "legal arms")
            for i in range(5):
                expect(not (m.out[i] and ob[1][i]), "exhausted arm %d is legal", i)
            expect(env.observation_space.contains(ob), "observation space")
            legal = ob[1].tolist()
            keep = ob.copy()
            new, r, done, _ = env.step(a)
            wr, wd = m.step(int(a), legal)
            close(float(r), wr, "reward")
            same(bool(done), wd, "done")
            same(ob.tolist(), keep.tolist(), "earlier observation changed")
            ob = new
            ctx.step()
            if done:
                return m
        return m
    finally:
        torch.bernoulli = orig


def arms(ctx):
    full = [[1.0] * 5]
    patterns = [full, [[1.0, 0.0, 1.0, 1.0, 0.0]], [[1.0] * 5, [0.0] * 5], [[0.0, 1.0, 1.0, 0.0, 1.0], [1.0] * 5, [1.0, 1.0, 0.0, 1.0, 1.0]]]
    env = ChangingArms()
    same(env.max_steps, 50, "step limit")
    for acts in itertools.product(range(6), repeat=3):
        for p, legals in enumerate(patterns):
            for arr in (False, True):
                def case():
                    play(env, [np.array(a) if arr else a for a in acts], legals, ctx)
                ctx.run((acts, p, arr), case)
    for first in range(6):
        for stride in range(5):
            def case():
                acts = [(first + stride * t) % 6 for t in range(60)]
                play(env, acts, full, ctx)
                play(env, [5] * 60, patterns[1], ctx)
                acts = [(first + t // 10) % 5 for t in range(60)]
                m = play(env, acts, full, ctx)
                same((m.t, m.mu), (50, [0.0] * 5), "optimal play exhausts all arms in one episode")
                raises(lambda: env.step(6), "action outside the space")
            ctx.run(("long", first, stride), case)


def arms_inputs(ctx):
    env = ChangingArms()
    rows = [[0] * 5, [1] * 5, [1, 0, 0, 0, 1], [0, 0, 1, 0, 0], [0, 1, 1, 1, 0]]
    for n in (1, 2, 3):
        for legal in itertools.product(range(len(rows)), repeat=n):
            def case():
                obs = []
                for i, l in enumerate(legal):
                    obs.append([[100.0 - 10 * i - k for k in range(5)], [float(x) for x in rows[l]], [-10.0 - k - i for k in range(5)]])
                t = torch.tensor(obs)
                out = env.trainer_preprocessor(t)
                close(out.float_features, [o[0] for o in obs], "means")
                off, ids = out.id_list_features["legal"]
                same(ids, [k for l in legal for k in range(5) if rows[l][k]], "legal arms")
                want, c = [], 0
                for l in legal:
                    want.append(c)
                    c += sum(rows[l])
                same(off, want, "offsets of the rows")
                off, keys, vals = out.id_score_list_features["mu_changes"]
                same(off, [5 * i for i in range(n)], "offsets of the changes")
                same(keys, list(range(5)) * n, "arms of the changes")
                close(vals, [v for o in obs for v in o[2]], "changes")
                for o, l in zip(obs, legal):
                    a = np.array(o, dtype=np.float32)
                    one = env.get_obs_preprocessor(device=torch.device("cpu"))(a)
                    ids = [k for k in range(5) if rows[l][k]]
                    close(one.float_features, [o[0]], "means")
                    same((one.id_list_features["legal"][0].tolist(), one.id_list_features["legal"][1].tolist()), ([0], ids), "legal arms")
                    x = one.id_score_list_features["mu_changes"]
                    same((x[0].tolist(), x[1].tolist()), ([0], list(range(5))), "arms of the changes")
                    close(x[2], o[2], "changes")
                    srv = env.get_serving_obs_preprocessor()(a)
                    close(srv.float_features_with_presence, ([o[0]], [[1.0] * 5]), "means for serving")
                    (k1, v1), = srv.id_list_features.items()
                    (k2, v2), = srv.id_score_list_features.items()
                    same((v1[0].tolist(), v1[1].tolist()), ([0], [1000000 + k for k in ids]), "legal arms for serving")
                    same((v2[0].tolist(), v2[1].tolist()), ([0], [1500000 + k for k in range(5)]), "arms for serving")
                    close(v2[2], o[2], "changes for serving")
                    d, li, sc = env.split_state_transform(torch.tensor(o))
                    close(d, {i: v for i, v in enumerate(o[0])}, "means in a table")
                    same({k: list(v) for k, v in li.items()}, {k1: [1000000 + k for k in ids]}, "legal arms in a table")
                    close(sc, {k2: {1500000 + k: v for k, v in enumerate(o[2])}}, "changes in a table")
                p = env.normalization_data[NormalizationKey.STATE].dense_normalization_parameters
                same(sorted(p), list(range(5)), "normalized features")
            ctx.run((n, legal), case, nontrivial=n > 1)


# ---------------------------------------------------------------- embedded states

def embedded(ctx):
    for kind in ("string", "linear"):
        for length in (1, 2, 3):
            for hidden in (1, 3):
                for seq, train in itertools.product(itertools.product(range(2), repeat=4), (True, False)):
                    def case():
                        seed_all(11 + hidden)
                        base = Gym(env_name="StringGame-v0" if kind == "string" else "LinearDynamics-v0")
                        sd, ad = (2, 2) if kind == "string" else (3, 2)
                        net = MemoryNetwork(state_dim=sd, action_dim=ad, num_hiddens=hidden, num_hidden_layers=1, num_gaussians=2)
                        net.train(train)
                        env = StateEmbedEnvironment(base, net, length, -9.0, 9.0)
                        kept = Kept()
                        same(tuple(env.observation_space.shape), (sd + hidden,), "shape of the embedded states")
                        same(env.max_steps, base.max_steps, "step limit")

                        def want(hist, cur):
                            h = hist[-length:] or [(np.zeros(sd), np.zeros(ad))]
                            was = net.training
                            net.eval()
                            with torch.no_grad():
                                s = torch.tensor(np.array([x[0] for x in h]), dtype=torch.float).unsqueeze(1)
                                a = torch.tensor(np.array([x[1] for x in h]), dtype=torch.float).unsqueeze(1)
                                o = net(rlt.FeatureData(s), rlt.FeatureData(a)).all_steps_lstm_hidden[-1].reshape(-1)
                            net.train(was)
                            return o.tolist() + list(cur)
                        for ep in range(2):
                            got = env.reset()
                            kept(got)
                            same({m.training for m in net.mdnrnn.modules()}, {train}, "the network is left in its mode")
                            cur = list(got[-sd:])
                            hist = []
                            close(list(got), want(hist, cur), "first embedded state", atol=1e-5)
                            for t, c in enumerate(seq):
                                c = (c + ep) % 2
                                a = c if kind == "string" else np.array([0.5 - c, 0.25 * t])
                                ob, r, done, _ = env.step(a)
                                kept(ob)
                                same({m.training for m in net.mdnrnn.modules()}, {train}, "the network is left in its mode")
                                hist.append((cur, [float(c == 0), float(c == 1)] if kind == "string" else a))
                                if kind == "string":
                                    close(list(ob[-sd:]), [float(c == 0), float(c == 1)], "raw state")
                                    s = "".join("AB"[(x + ep) % 2] for x in seq[max(0, t - 2):t + 1])
                                    same(float(r), {"ABB": 5.0, "BBB": -5.0}.get(s, 0.0), "reward")
                                else:
                                    same(bool(done), t == 3, "done")
                                cur = list(ob[-sd:])
                                close(list(ob), want(hist, cur), "embedded state %d" % t, atol=1e-5)
                                ctx.step()
                        kept.unchanged()
                    ctx.run((kind, length, hidden, seq, train), case)


# ---------------------------------------------------------------- grid worlds

def minigrid(ctx):
    VEC = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    size = 5
    for seq in itertools.product(range(3), repeat=5):
        def case():
            env = Gym(env_name="MiniGrid-Empty-5x5-v0")
            same(tuple(env.observation_space.shape), (size * size * 4,), "shape of the observations")
            kept = Kept()
            for ep in range(2):
                ob = env.reset()
                x, y, d = 1, 1, 0
                for t, a in enumerate((None,) + seq):
                    if a is not None:
                        ob, r, done, _ = env.step(a)
                        if a == 0:
                            d = (d - 1) % 4
                        elif a == 1:
                            d = (d + 1) % 4
                        else:
                            nx, ny = x + VEC[d][0], y + VEC[d][1]
                            if 1 <= nx <= 3 and 1 <= ny <= 3:
                                x, y = nx, ny
                        goal = a == 2 and (x, y) == (3, 3)
                        same(bool(done), goal, "done")
                        expect((r > 0) == goal, "reward %r", r)
                        ctx.step()
                    want = [0.0] * (size * size * 4)
                    want[x * size * 4 + y * 4 + d] = 1.0
                    close(list(ob), want, "observation at %r" % ((x, y, d),))
                    kept(ob)
                    if a is not None and done:
                        break
            kept.unchanged()
        ctx.run(seq, case)

    def goal():
        for path in ((2, 2, 1, 2, 2), (1, 2, 2, 0, 2, 2)):
            env = Gym(env_name="MiniGrid-Empty-5x5-v0")
            env.reset()
            for i, a in enumerate(path):
                ob, r, done, _ = env.step(a)
                same(bool(done), i == len(path) - 1, "done")
            expect(r > 0, "reward at the goal")
            env.reset()
            T = env.max_steps
            for t in range(T):
                _, r, done, _ = env.step(0)
                same(bool(done), t == T - 1, "end at the step limit")
    ctx.run("goal", goal)


# ---------------------------------------------------------------- recommender simulations

def deep(o):
    if isinstance(o, dict):
        return {k: deep(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [deep(v) for v in o]
    return np.array(o).tolist() if o is not None else None


def recsim(ctx):
    try:
        from reagent.gym.envs import RecSim
    except ImportError:
        return
    for docs, slate in ((2, 1), (3, 2), (2, 2)):
        for single, explore, resample in ((True, False, True), (True, False, False), (False, False, True), (True, True, True)):
            slates = list(itertools.permutations(range(docs), slate))
            for plan in itertools.product(slates, repeat=2):
                def case():
                    kw = dict(num_candidates=docs, slate_size=slate, resample_documents=resample, single_selection=single, is_interest_exploration=explore)
                    runs = []
                    for rep in range(2):
                        np.random.seed(5)
                        env = RecSim(**kw)
                        runs.append([])
                        for ep in range(2):
                            ob = env.reset()
                            expect(ob["response"] is None, "response before the first slate")
                            hist = [ob]
                            frozen = [deep(ob["user"])]
                            runs[-1].append(deep({k: ob[k] for k in ("user", "doc", "augmentation")}))
                            for a in plan + plan[:1]:
                                cand = list(ob["doc"].values())
                                new, r, done, _ = env.step(np.array(a))
                                same(len(new["doc"]), docs, "candidates")
                                same(len(new["response"]), slate, "responses")
                                for i, d in new["doc"].items():
                                    v = new["augmentation"][i]["value"]
                                    if explore:
                                        close(float(v), 0.0, "value")
                                    else:
                                        dot = float(np.inner(new["user"], d))
                                        close(float(v), dot if single else (dot + 1) / 2, "value of a document", atol=1e-5)
                                clicked = [x for x in new["response"] if x["click"]]
                                if single:
                                    expect(len(clicked) <= 1, "one click at most")
                                if not explore:
                                    close(float(r), sum(float(x["watch_time"]) for x in clicked), "reward is the watch time of the clicks")
                                    for x in new["response"]:
                                        expect(x["click"] or not float(x["watch_time"]), "watch time without a click")
                                if not resample:
                                    same(deep(sorted(new["doc"])), deep(sorted(ob["doc"])), "documents stay")
                                runs[-1].append((deep({k: new[k] for k in ("user", "doc", "augmentation", "response")}), float(r), bool(done)))
                                ob = new
                                hist.append(ob)
                                frozen.append(deep(ob["user"]))
                                ctx.step()
                                if done:
                                    break
                            for h, f in zip(hist, frozen):
                                same(deep(h["user"]), f, "an earlier observation of the user changed")
                    same(runs[0], runs[1], "the same seed gives the same episodes")
                    p = env.obs_preprocessor(ob)
                    close(p.float_features, [deep(ob["user"])], "user features")
                    same(tuple(p.candidate_docs.float_features.shape[:2]), (1, docs), "document features")
                    q = env.serving_obs_preprocessor(ob)
                    close(q.candidate_docs.float_features, p.candidate_docs.float_features, "document features for serving")
                ctx.run((docs, slate, single, explore, resample, plan), case)

    def refuse():
        raises(lambda: RecSim(num_candidates=2, slate_size=1, single_selection=False, is_interest_exploration=True), "multi-selection exploration")
    ctx.run("refuse", refuse)


def oracle(ctx):
    try:
        from reagent.gym.envs import OraclePVM
    except ImportError:
        return
    for n in (2, 3, 4):
        for seed in (1, 2, 3):
            for w in itertools.product((-1.0, -0.3, 0.5, 1.0), repeat=3):
                def case():
                    np.random.seed(seed)
                    env = OraclePVM(num_candidates=n, slate_size=n)
                    ob = env.reset()
                    same((len(ob["user"]), len(ob["doc"]), {len(d) for d in ob["doc"].values()}), (1, n, {3}), "shape of the observation")
                    docs = [np.array(d) for d in ob["doc"].values()]
                    truth = [float(d.sum()) for d in docs]
                    mine = [float((d * np.array(w)).sum()) for d in docs]
                    rank = lambda v: [sorted(v, reverse=True).index(x) for x in v]
                    _, r, done, _ = env.step(np.array(w))
                    expect(done, "one step per episode")
                    if rank(truth) == rank(mine):
                        close(float(r), 3.0, "reward of the right ranking")
                        expect(env.is_match(r), "match")
                    else:
                        close(float(r), float(stats.kendalltau(rank(truth), rank(mine))[0]), "reward is the rank correlation")
                        expect(not env.is_match(r), "match")
                    sp = env.action_space
                    same((sp.low.tolist(), sp.high.tolist()), ([-1.0] * 3, [1.0] * 3), "action space")
                    f = env.obs_preprocessor(ob)
                    close(f.float_features, [list(ob["user"]) + [x for d in docs for x in d]], "features")
                    ctx.step()
                    if w == (1.0, 1.0, 1.0):
                        kept = Kept()
                        kept(ob)
                        ob = env.reset()
                        kept.unchanged()
                        close(float(env.step(np.array([0.5, 0.5, 0.5]))[1]), 3.0, "scaled weights rank alike")
                ctx.run((n, seed, w), case)
    ctx.run("refuse", lambda: raises(lambda: OraclePVM(num_candidates=3, slate_size=2), "slate smaller than the candidates"))


def toyvm(ctx):
    try:
        from reagent.gym.envs import ToyVM
        from reagent.gym.envs.toy_vm import Document, simulate_reward
    except ImportError:
        return

    class Rolls:
        def __init__(self, us):
            self.us, self.i = us, 0

        def rand(self):
            self.i += 1
            return self.us[self.i - 1]

    tap, ab, q = (0.0, 0.4, 1.0), (0.2, 0.8), (1.0, 0.25)
    for n in (0, 1, 2, 3):
        for taps in tap:
            for abs_ in itertools.product(ab, repeat=n):
                for us in itertools.product((0.1, 0.3, 0.5, 0.9), repeat=min(n + 1, 3)):
                    def case():
                        slate = [Document(taps, q[i % 2] + i, a) for i, a in enumerate(abs_)]
                        u = list(us) + [0.15]
                        want, i = 0.0, 0
                        if n and not (taps < u[0]):
                            while True:
                                want += slate[i].quality
                                if (1 - slate[i].abandon) < u[i + 1] or i + 1 >= n:
                                    break
                                i += 1
                        close(simulate_reward(slate, Rolls(u + [0.15] * 3)), want, "reward of a session")
                        ctx.step()
                    ctx.run((n, taps, abs_, us), case, nontrivial=n > 0)
    for n in (1, 2, 3):
        for limit, seed in itertools.product((1, 3), (7, 0)):
            def case():
                runs = []
                for rep in range(2):
                    env = ToyVM(slate_size=n, max_episode_steps=limit, initial_seed=seed)
                    runs.append([])
                    kept = Kept()
                    for ep in range(2):
                        ob = env.reset()
                        for t in range(limit):
                            kept(ob)
                            expect(env.observation_space["doc"].contains(ob["doc"]) and env.observation_space["user"].contains(ob["user"]), "observation space")
                            same(len(ob["doc"]), n, "documents")
                            close([v["value"] for v in ob["augmentation"].values()], [0.0] * n, "values")
                            f = env.obs_preprocessor(ob)
                            close(f.candidate_docs.float_features, [[d.tolist() for d in ob["doc"].values()]], "document features")
                            a = env.get_action_extractor()(rlt.ActorOutput(action=torch.tensor([list(range(n))[::-1]]), log_prob=torch.zeros(1)))
                            same(np.array(a).tolist(), list(range(n))[::-1], "slate")
                            docs = deep(ob["doc"])
                            ob, r, done, info = env.step(a)
                            same(bool(done), t == limit - 1, "done")
                            expect(0 <= r <= n, "reward %r", r)
                            runs[-1].append((docs, float(r)))
                            ctx.step()
                    kept.unchanged()
                same(runs[0], runs[1], "the same seed gives the same episodes")
            ctx.run(("env", n, limit, seed), case)


def groups(tier):
    big = tier == "thorough"
    return [
        ("pocman-mini", pocman(MINI, 10 ** 6)), ("pocman-micro", pocman(MICRO, 60000 if big else 4000)), ("pocman-walks", pocman_walks), ("strings", strings), ("strings-v1", strings_v1),
        ("linear", linear), ("masks", masks), ("arms", arms), ("arms-inputs", arms_inputs), ("embedded", embedded), ("minigrid", minigrid), ("recsim", recsim), ("oracle", oracle), ("toyvm", toyvm),
    ]

"""R01: what a ReplayBuffer samples is exactly what its add history says."""
import itertools

import numpy as np
import torch

from mc.core import close, expect, same, explore_choices
from mc.world import randint_script
from mc import world
world.poison_uninitialised()
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

LEVEL = "model_checking"
RULE = (
    "state = distinct add history (terminal pattern, hence contents) x buffer configuration; transition = one add(); "
    "every history up to the depth bound is executed on the real ReplayBuffer and after every add the whole "
    "sampleable set is compared with a list-of-episodes reference"
)
ASSUMPTIONS = [
    "observation/action/reward/extra values are unique per add, so any mix-up of slots is visible",
    "contents of next_* fields of terminal transitions are documented as undefined and not compared",
]
OBS = (2,)


def item(t):
    """contents of the t-th add"""
    return dict(
        observation=np.array([10.0 * t + 1, -t - 1.0], dtype=np.float32),
        action=int(100 + t),
        reward=float(0.5 + (t % 7) * 1.25 + t * 0.125),
        extra1=np.array([t + 0.25], dtype=np.float32),
    )


class Ref:
    """list of adds incl. the zero padding an episode starts with"""

    def __init__(self, stack, n, cap, gamma):
        self.stack, self.n, self.cap, self.gamma = stack, n, cap, gamma
        self.log = []  # (None | t, episode, terminal)
        self.ep = -1
        self.open = False

    def add(self, t, terminal):
        if not self.open:
            self.ep += 1
            for _ in range(self.stack - 1):
                self.log.append((None, self.ep, False))
            self.open = True
        self.log.append((t, self.ep, terminal))
        if terminal:
            self.open = False

    def sampleable(self):
        """{slot: dict of expected contents}"""
        out = {}
        last = len(self.log) - 1
        oldest = max(0, len(self.log) - self.cap)
        for s in range(oldest, last + 1):
            t, ep, _ = self.log[s]
            if t is None:
                continue
            if s - (self.stack - 1) < oldest:
                continue  # part of the stack is overwritten
            steps, end = None, None
            for k in range(self.n):
                if s + k > last:
                    break
                if self.log[s + k][2]:
                    steps, end = k + 1, True
                    break
            if steps is None:
                if s + self.n > last:
                    continue
                steps, end = self.n, False
            out[s % self.cap] = dict(
                s=s,
                steps=steps,
                terminal=end,
                state=[self.log[j][0] for j in range(s - self.stack + 1, s + 1)],
                next=[
                    [self.log[j][0] for j in range(s + k - self.stack + 1, s + k + 1)] for k in range(1, steps + 1)
                ]
                if not end
                else [
                    [self.log[j][0] for j in range(s + k - self.stack + 1, s + k + 1)] for k in range(1, steps)
                ],
                ret=sum(self.gamma ** k * item(self.log[s + k][0])["reward"] for k in range(steps)),
                rewards=[item(self.log[s + k][0])["reward"] for k in range(steps)],
                rstack=[0.0 if self.log[j][0] is None else item(self.log[j][0])["reward"] for j in range(s - self.stack + 1, s + 1)],
            )
        return out


def val(key, t):
    it = item(t if t is not None else 0)
    v = it[key]
    if t is None:
        v = np.zeros_like(np.asarray(v))
    return np.asarray(v, dtype=np.float64)


def stacked(key, ts):
    """expected per-row value of a stacked key"""
    arr = np.stack([val(key, t) for t in ts], axis=-1)
    if len(ts) == 1:
        arr = arr[..., 0]
    return arr


def row_eq(what, got, want):
    got = np.asarray(got.tolist(), dtype=np.float64)
    want = np.asarray(want, dtype=np.float64)
    if want.shape == ():
        want = want.reshape(1)
    if got.shape == ():
        got = got.reshape(1)
    expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-5, atol=1e-5), "%s: got %s want %s" % (what, got.tolist(), want.tolist()))


def check(buf, ref, cfg):
    exp = ref.sampleable()
    stack, n, cap, mode = cfg
    same(int(buf.size), len(exp), "number of sampleable transitions")
    # paddings count as adds
    same(int(buf.add_count), len(ref.log), "add_count")
    same(bool(buf.is_empty()), len(ref.log) == 0, "is_empty")
    same(bool(buf.is_full()), len(ref.log) >= cap, "is_full")
    same([bool(buf.is_valid_transition(i)) for i in range(cap)], [i in exp for i in range(cap)], "valid slots")
    if not exp:
        return ()
    batch = buf.sample_all_valid_transitions()
    idx = batch.indices.squeeze(1).tolist()
    same(sorted(idx), sorted(exp), "slots of all valid transitions")
    check_batch(batch, idx, exp, cfg)
    return tuple(sorted((i, e["s"], e["steps"]) for i, e in exp.items()))


def check_batch(batch, idx, exp, cfg):
    stack, n, cap, mode = cfg
    for r, i in enumerate(idx):
        e = exp[i]
        row_eq("state of add %d" % e["s"], batch.state[r], stacked("observation", e["state"]))
        for key in ("action", "extra1"):
            got = getattr(batch, key)[r]
            if mode == "stack" or stack == 1:
                row_eq("%s of add %d" % (key, e["s"]), got, stacked(key, e["state"]))
            else:
                row_eq("%s of add %d" % (key, e["s"]), got[..., -1], val(key, e["state"][-1]) if key == "action" else stacked(key, e["state"][-1:]))
        same(bool(batch.terminal[r].item()), e["terminal"], "terminal of add %d" % e["s"])
        same(int(batch.step[r].item()), e["steps"], "steps of add %d" % e["s"])
        if mode == "timeline":
            same(len(batch.next_state[r]), e["steps"], "timeline length")
            for k, ts in enumerate(e["next"]):
                row_eq("next_state+%d of add %d" % (k + 1, e["s"]), batch.next_state[r][k], stacked("observation", ts))
                row_eq("next_action+%d of add %d" % (k + 1, e["s"]), batch.next_action[r][k].reshape(-1)[-1], val("action", ts[-1]))
                row_eq("next_extra+%d of add %d" % (k + 1, e["s"]), batch.next_extra1[r][k].reshape(-1)[-1], val("extra1", ts[-1]))
            same(len(batch.reward[r]), e["steps"], "timeline rewards")
            for k in range(e["steps"]):
                row_eq("reward+%d of add %d" % (k, e["s"]), batch.reward[r][k].reshape(-1)[-1], e["rewards"][k])
        else:
            if not e["terminal"]:
                ts = e["next"][-1]
                row_eq("next_state of add %d" % e["s"], batch.next_state[r], stacked("observation", ts))
                row_eq("next_action of add %d" % e["s"], batch.next_action[r].reshape(-1)[-1], val("action", ts[-1]))
                row_eq("next_extra of add %d" % e["s"], batch.next_extra1[r].reshape(-1)[-1], val("extra1", ts[-1]))
                row_eq("next_reward of add %d" % e["s"], batch.next_reward[r].reshape(-1)[-1], val("reward", ts[-1]))
            if mode == "stack":
                row_eq("reward stack of add %d" % e["s"], batch.reward[r], np.array(e["rstack"]))
            else:
                row_eq("n-step reward of add %d" % e["s"], batch.reward[r], np.array([e["ret"]]))


def execute(cfg, bits, ctx):
    stack, n, cap, mode = cfg
    gamma = 0.5
    buf = ReplayBuffer(
        stack_size=stack,
        replay_capacity=cap,
        batch_size=2,
        update_horizon=n,
        gamma=gamma,
        return_everything_as_stack=(mode == "stack"),
        return_as_timeline_format=(mode == "timeline"),
    )
    ref = Ref(stack, n, cap, gamma)
    for t, b in enumerate(bits):
        buf.add(terminal=bool(b), **item(t))
        ref.add(t, bool(b))
        ctx.step()
        if ctx.state((cfg, bits[: t + 1])):
            ctx.outcome((cfg, check(buf, ref, cfg)))
    return buf, ref


def history_group(stack, n, extra, mode, depth):
    def go(ctx):
        cap = stack + n + extra
        cfg = (stack, n, cap, mode)
        for bits in itertools.product((0, 1), repeat=depth):
            ctx.run(("adds", "".join(map(str, bits))), execute, cfg, bits, ctx)

    return ("s%d_n%d_c%d_%s" % (stack, n, stack + n + extra, mode), go)


def sampling(ctx):
    """every outcome of the random source, for batches of 1 and 2, over all short histories"""
    for stack, n, extra in ((1, 1, 2), (2, 2, 1), (1, 2, 3)):
        cap = stack + n + extra
        cfg = (stack, n, cap, "plain")

        def one(bits):
            buf, ref = execute(cfg, bits, ctx)
            exp = ref.sampleable()
            if not exp:
                try:
                    buf.sample_transition_batch(1)
                except Exception:
                    return
                expect(False, "sampled from a buffer without valid transitions")
                return
            for bs in (1, 2, None):
                counts = {}
                scripted = True
                total = 0

                def draw(ch):
                    with randint_script(ch.choose) as used:
                        b = buf.sample_transition_batch(batch_size=bs)
                    return b, sum(used)

                for taken, (b, used) in explore_choices(draw, 3000):
                    idx = b.indices.squeeze(1).tolist()
                    same(len(idx), bs or 2, "batch size")
                    expect(all(i in exp for i in idx), "sampled an invalid slot %s", idx)
                    check_batch(b, idx, exp, cfg)
                    counts[tuple(idx)] = counts.get(tuple(idx), 0) + 1
                    total += 1
                    scripted = scripted and used == len(idx)
                    ctx.step()
                if scripted:
                    # the random source was fully enumerated: the draw is uniform over batches
                    same(len(counts), len(exp) ** (bs or 2), "number of reachable batches")
                    expect(len(set(counts.values())) == 1, "sampling is not uniform: %s", counts)
            # explicit indices
            order = sorted(exp, reverse=True)
            b = buf.sample_transition_batch(batch_size=len(order), indices=torch.tensor(order))
            same(b.indices.squeeze(1).tolist(), order, "explicit indices")
            check_batch(b, order, exp, cfg)

        for depth in range(1, 7):
            for bits in itertools.product((0, 1), repeat=depth):
                ctx.run(("sample", stack, n, cap, "".join(map(str, bits))), one, bits)


def sparse(ctx):
    """id-list and id-score-list extras travel with their transition"""

    def ids(t):
        return {"a": [t + 7, 2 * t][: t % 3], "b": [t]}

    def scores(t):
        return {"c": ([t, t + 1, t + 2][: (t + 1) % 3], [0.5 * t, 1.5, 2.5][: (t + 1) % 3])}

    def one(bits, cap, n):
        buf = ReplayBuffer(stack_size=1, replay_capacity=cap, batch_size=1, update_horizon=n, gamma=0.5)
        ref = Ref(1, n, cap, 0.5)
        for t, b in enumerate(bits):
            it = item(t)
            it.pop("extra1")
            buf.add(terminal=bool(b), idl=ids(t), idsl=scores(t), **it)
            ref.add(t, bool(b))
            ctx.step()
            exp = ref.sampleable()
            if not exp:
                continue
            ctx.state((cap, n, bits[: t + 1]))
            order = sorted(exp)
            bt = buf.sample_transition_batch(batch_size=len(order), indices=torch.tensor(order))
            for name, pos in (("idl", 0), ("next_idl", 1)):
                for k in ("a", "b"):
                    off, vals = getattr(bt, name)[k]
                    off = off.tolist() + [len(vals)]
                    for r, i in enumerate(order):
                        if pos == 1 and exp[i]["terminal"]:
                            continue
                        tt = exp[i]["state"][-1] if pos == 0 else exp[i]["next"][-1][-1]
                        same(vals[off[r] : off[r + 1]].tolist(), ids(tt)[k], "%s[%s] of add %d" % (name, k, tt))
            for name, pos in (("idsl", 0), ("next_idsl", 1)):
                off, vals, sc = getattr(bt, name)["c"]
                off = off.tolist() + [len(vals)]
                for r, i in enumerate(order):
                    if pos == 1 and exp[i]["terminal"]:
                        continue
                    tt = exp[i]["state"][-1] if pos == 0 else exp[i]["next"][-1][-1]
                    same(vals[off[r] : off[r + 1]].tolist(), scores(tt)["c"][0], "%s ids" % name)
                    close(sc[off[r] : off[r + 1]], scores(tt)["c"][1], "%s scores" % name)

    for cap, n in ((3, 1), (4, 2), (5, 3)):
        for depth in range(1, 9):
            for bits in itertools.product((0, 1), repeat=depth):
                if depth == 8 or depth < 4:
                    ctx.run(("sparse", cap, n, "".join(map(str, bits))), one, bits, cap, n)


def frozen(x):
    """everything in a sampled batch, as plain values"""
    if torch.is_tensor(x):
        return [None if v != v else v for v in x.reshape(-1).tolist()]
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [frozen(v) for v in x]
    return repr(x)


def scribble(x):
    if torch.is_tensor(x):
        x.zero_() if x.dtype == torch.bool else x.fill_(77)
    elif isinstance(x, dict):
        [scribble(v) for v in x.values()]
    elif isinstance(x, (tuple, list)):
        [scribble(v) for v in x]


def held(depth):
    """samples are kept and their callers' arrays reused: neither earlier samples nor stored transitions change"""

    def go(ctx):
        def one(cfg, bits, fields):
            stack, n, cap, mode = cfg
            buf = ReplayBuffer(stack_size=stack, replay_capacity=cap, batch_size=2, update_horizon=n, gamma=0.5,
                               return_everything_as_stack=(mode == "stack"), return_as_timeline_format=(mode == "timeline"))
            ref, kept = Ref(stack, n, cap, 0.5), []
            obs, extra = np.zeros(2, dtype=np.float32), np.zeros(1, dtype=np.float32)  # reused for every transition
            ids, sc = {"a": [], "b": [1]}, {"c": ([], [])}
            for t, b in enumerate(bits):
                it = item(t)
                obs[:], extra[:] = it["observation"], it["extra1"]
                it["observation"], it["extra1"] = obs, extra
                if fields:
                    ids["a"][:] = [t, t + 1][: t % 3]
                    sc["c"][0][:], sc["c"][1][:] = [t], [0.5 * t]
                    it.update(idl=ids, idsl=sc)
                buf.add(terminal=bool(b), **it)
                obs[:], extra[:] = -5.0, -5.0
                ids["a"][:], sc["c"][0][:], sc["c"][1][:] = [99, 98, 97], [99], [9.0]
                ref.add(t, bool(b))
                exp = ref.sampleable()
                ctx.step()
                if exp:
                    order = sorted(exp)
                    got = [buf.sample_all_valid_transitions()]
                    for k in (1, 2):  # drawn at random, in both orders of asking
                        for _ in range(2):
                            got.append(buf.sample_transition_batch(batch_size=k))
                    for i in range(len(order)):
                        got.append(buf.sample_transition_batch(batch_size=len(order) - i, indices=torch.tensor(order[i:])))
                    for x in got:
                        idx = x.indices.squeeze(1).tolist()
                        expect(all(i in exp for i in idx), "sampled an invalid slot %s", idx)
                        check_batch(x, idx, exp, cfg)
                        if fields:
                            off, vals = x.idl["a"]
                            off = off.tolist() + [len(vals)]
                            for r, i in enumerate(idx):
                                tt = exp[i]["state"][-1]
                                same(vals[off[r] : off[r + 1]].tolist(), [tt, tt + 1][: tt % 3], "ids of add %d" % tt)
                                close(x.idsl["c"][1][r], tt, "scored id of add %d" % tt)
                                close(x.idsl["c"][2][r], 0.5 * tt, "score of add %d" % tt)
                    kept.append(got[t % len(got)])
                    kept.append(got[0])
                    snaps = [frozen(x) for x in kept]
                    for j, x in enumerate(got):
                        if not any(x is y for y in kept):
                            scribble(tuple(x))
                    same([frozen(x) for x in kept], snaps, "a sample changed when another sample was written to")
                    check(buf, ref, cfg)
                    if t:
                        same([frozen(x) for x in kept[: len(before)]], before, "a sample taken earlier changed")
                before = [frozen(x) for x in kept]
                ctx.state((cfg, fields, bits[: t + 1]))

        for stack, n, extra, mode, fields in ((1, 1, 2, "plain", False), (1, 1, 1, "plain", True), (1, 2, 1, "plain", False), (2, 1, 1, "plain", False), (2, 2, 1, "timeline", False), (1, 1, 2, "timeline", False), (2, 1, 1, "stack", False)):
            cfg = (stack, n, stack + n + extra, mode)
            for bits in itertools.product((0, 1), repeat=depth):
                ctx.run(("held", stack, n, mode, fields, "".join(map(str, bits))), one, cfg, bits, fields)

    return go


def absent(ctx):
    """an id list that is not given is empty"""
    def one(bits, missing):
        buf = ReplayBuffer(stack_size=1, replay_capacity=4, batch_size=1, update_horizon=1, gamma=0.5)
        want = []
        for t, b in enumerate(bits):
            it = item(t)
            it.pop("extra1")
            ids, sc = {"a": [t + 1], "b": [t + 2]}, {"c": ([t + 3], [0.5]), "d": ([], [])}
            if t and t % 2 == missing:
                del ids["a"], sc["c"]
            try:
                buf.add(terminal=bool(b), idl=ids, idsl=sc, **it)
            except Exception:
                expect(t % 2 == missing and t, "add refused")
                return  # refused as a whole, which is fine
            want.append((ids.get("a", []), ids["b"], sc.get("c", ([], []))[0]))
        if not int(buf.size):
            return
        x = buf.sample_all_valid_transitions()
        for r, (i, tt) in enumerate(zip(x.indices.squeeze(1).tolist(), x.state[:, 0].tolist())):
            t = round((tt - 1) / 10)
            for name, key, j in (("idl", "a", 0), ("idl", "b", 1), ("idsl", "c", 2)):
                off, vals = getattr(x, name)[key][:2]
                off = off.tolist() + [len(vals)]
                same(vals[off[r] : off[r + 1]].tolist(), want[t][j], "%s of add %d" % (key, t))
    for L in range(1, 6):
        for bits in itertools.product((0, 1), repeat=L):
            for m in (0, 1):
                ctx.run(("absent", "".join(map(str, bits)), m), one, bits, m)


def groups(tier):
    depth = 9 if tier == "quick" else 12
    gs = []
    for stack in (1, 2, 3):
        for n in (1, 2, 3):
            for mode in ("plain", "timeline", "stack"):
                for extra in (0, 1, 3) if tier == "quick" else (0, 1, 2, 3, 4):
                    if tier == "quick" and mode != "plain" and extra == 0 and stack + n == 2:
                        pass
                    gs.append(history_group(stack, n, extra, mode, depth if mode == "plain" else depth - 1))
    # long wrap-around histories: few terminals, twice around the ring
    gs.append(("sampling", sampling))
    gs.append(("sparse", sparse))
    gs.append(("held", held(7 if tier == "quick" else 10)))
    gs.append(("absent", absent))
    return gs

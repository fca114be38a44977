"""R03: prioritized replay = sum tree + validity, compared with plain lists."""
import contextlib
import itertools
import random
from unittest import mock

import numpy as np
import torch

from checks import r01
from mc.core import close, expect, explore_choices, raises, same
from mc import world
world.poison_uninitialised()
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
from reagent.replay_memory.sum_tree import SumTree

LEVEL = "model_checking"
RULE = (
    "sum tree: breadth-first search over all reachable leaf vectors under set(index, priority); every state is probed "
    "at every interval boundary. buffer: every sequence of add/set_priority up to the depth bound, every scripted "
    "outcome of the random source on a grid that hits every leaf"
)
ASSUMPTIONS = [
    "priorities are dyadic so that float sums are exact; documented rounding drift of other values is out of scope",
]


@contextlib.contextmanager
def scripted_random(choose, grid):
    """random.random / random.uniform return grid points picked by choose(n)"""

    def rnd():
        return grid[choose(len(grid))]

    def uni(a, b):
        return a + (b - a) * rnd()

    with mock.patch.object(random, "random", rnd), mock.patch.object(random, "uniform", uni):
        yield


def leaf_at(leaves, x):
    """the leaf whose half-open interval contains x; the end of the range belongs to the last non-zero leaf"""
    acc, last = 0.0, None
    for i, p in enumerate(leaves):
        if p > 0:
            last = i
            if acc <= x < acc + p:
                return i
            acc += p
    return last


def probe_tree(tree, leaves, maxp):
    for i, p in enumerate(leaves):
        same(float(tree.get(i)), p, "get(%d)" % i)
    same(float(tree.max_recorded_priority), maxp, "max_recorded_priority")
    total = sum(leaves)
    if total == 0:
        raises(lambda: tree.sample(), "sample of an empty tree")
        raises(lambda: tree.sample(0.5), "sample of an empty tree")
        raises(lambda: tree.stratified_sample(2), "stratified sample of an empty tree")
        return
    cuts = {0.0, total}
    acc = 0.0
    for p in leaves:
        cuts.update((acc, acc + p / 2, acc + p - 2 ** -20 if p else acc))
        acc += p
    for c in sorted(cuts):
        q = c / total
        if q * total != c or q > 1:  # not exactly representable: use the value the tree will see
            c = q * total
        same(int(tree.sample(query_value=q)), leaf_at(leaves, c), "sample(%r) of %s" % (q, leaves))
    raises(lambda: tree.sample(query_value=-0.25), "negative query")
    raises(lambda: tree.sample(query_value=1.25), "query above 1")
    # unseeded sampling: every scripted outcome
    grid = [0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875]
    for taken, got in explore_choices(lambda ch: sample_scripted(tree, ch, grid)):
        expect(0 <= got < len(leaves) and leaves[got] > 0, "sampled leaf %s of %s", got, leaves)
        if taken:
            same(got, leaf_at(leaves, grid[taken[0]] * total), "sample at %r of %s" % (grid[taken[0]], leaves))


def sample_scripted(tree, ch, grid):
    with scripted_random(ch.choose, grid):
        return int(tree.sample())


def tree_group(cap):
    def go(ctx):
        vals = [0.0, 0.5, 1.0, 4.0]

        def replay(hist):
            tree = SumTree(cap)
            for i, v in hist:
                tree.set(i, v)
            return tree

        def node(leaves, hist, maxp):
            tree = replay(hist)
            raises(lambda: tree.set(0, -0.5), "negative priority")
            probe_tree(tree, leaves, maxp)
            ctx.outcome(leaves)

        start = ((0.0,) * cap, 1.0)
        ctx.state(start)
        todo = [(start, [])]
        while todo:
            nxt = []
            for (leaves, maxp), hist in todo:
                ctx.run(("tree", cap) + tuple("%d=%g" % x for x in hist), node, list(leaves), hist, maxp)
                for i in range(cap):
                    for v in vals:
                        new = leaves[:i] + (v,) + leaves[i + 1 :]
                        st = (new, max(maxp, v))
                        ctx.step()
                        if ctx.state(st):
                            nxt.append((st, hist + [(i, v)]))
            todo = nxt

    return ("tree%d" % cap, go)


def overwrite_group(cap, depth):
    """long set histories on few leaves (state reached by different routes must behave the same)"""

    def go(ctx):
        ops = [(i, v) for i in range(cap) for v in (0.0, 0.5, 2.0)]

        def one(hist):
            tree = SumTree(cap)
            leaves, maxp = [0.0] * cap, 1.0
            for i, v in hist:
                tree.set(i, v)
                leaves[i] = v
                maxp = max(maxp, v)
                ctx.step()
            probe_tree(tree, leaves, maxp)
            ctx.state(("route", tuple(hist)))

        for hist in itertools.product(ops, repeat=depth):
            ctx.run(("route", cap) + tuple("%d=%g" % x for x in hist), one, hist)

    return ("routes%d" % cap, go)


def stratified(ctx):
    grid = [0.0, 0.25, 0.5, 0.75]

    def one(leaves, bs):
        tree = SumTree(len(leaves))
        for i, v in enumerate(leaves):
            tree.set(i, v)
        total = sum(leaves)

        def ex(ch):
            with scripted_random(ch.choose, grid):
                return [int(x) for x in tree.stratified_sample(bs)]

        for taken, got in explore_choices(ex, 5000):
            same(len(got), bs, "batch size")
            for k, g in enumerate(got):
                lo, hi = k / bs * total, (k + 1) / bs * total
                a = sum(leaves[:g])
                expect(leaves[g] > 0 and a < hi and a + leaves[g] > lo - 1e-12, "stratum %d drew leaf %d of %s", k, g, leaves)
                if len(taken) == bs:
                    x = lo + (hi - lo) * grid[taken[k]]
                    same(g, leaf_at(leaves, x), "stratum %d" % k)
            ctx.step()
            ctx.outcome((leaves, got))
        ctx.state((leaves, bs))

    for cap in (1, 2, 3, 4, 5):
        for leaves in itertools.product((0.0, 1.0, 3.0), repeat=cap):
            if sum(leaves):
                for bs in (1, 2, 4):
                    ctx.run(("strat", leaves, bs), one, list(leaves), bs)


# ------------------------------------------------------------------------------- buffer
class PRef(r01.Ref):
    """adds the priority stored in every slot"""

    def __init__(self, *a):
        super().__init__(*a)
        self.prio = [0.0] * self.cap

    def add(self, t, terminal, p):
        n0 = len(self.log)
        super().add(t, terminal)
        for s in range(n0, len(self.log)):
            self.prio[s % self.cap] = 0.0
        self.prio[(len(self.log) - 1) % self.cap] = p


def padd(buf, t, b, p):
    it = r01.item(t)
    buf.add(terminal=bool(b), priority=p, **it)


def check_pbuf(buf, ref, cfg, attempts, ctx):
    cap = cfg[2]
    exp = ref.sampleable()
    same(int(buf.size), len(exp), "size")
    close(buf.get_priority(np.arange(cap, dtype=np.int32)), ref.prio, "stored priorities")
    total = sum(ref.prio)
    if total == 0:
        raises(lambda: buf.sample_index_batch(1), "sampling without any priority")
        return
    # the random source aims at the middle of every leaf
    mids, acc = [], 0.0
    for i, p in enumerate(ref.prio):
        if p > 0:
            mids.append(((acc + p / 2) / total, i))
        acc += p
    grid = [m for m, _ in mids]
    owner = [i for _, i in mids]

    def ex(ch):
        with scripted_random(ch.choose, grid):
            try:
                b = buf.sample_transition_batch(batch_size=1)
            except RuntimeError as e:
                return e
            return b

    for taken, got in explore_choices(ex, 20000):
        ctx.step()
        drawn = [owner[c] for c in taken]
        good = [i for i in drawn if i in exp]
        if isinstance(got, Exception):
            expect(not good, "gave up although a valid index was drawn: %s", drawn)
            expect(len(drawn) >= 1 + attempts or not drawn, "gave up after %d draws", len(drawn))
            ctx.outcome("gave up")
            continue
        idx = got.indices.squeeze(1).tolist()
        expect(idx[0] in exp, "sampled an invalid slot %s (drawn %s)", idx, drawn)
        if drawn:
            same(idx[0], good[0] if good else None, "first valid draw")
        r01.check_batch(got, idx, exp, cfg)
        same(list(got.sampling_probabilities.shape), [1, 1], "shape of sampling_probabilities")
        close(got.sampling_probabilities.reshape(-1), [ref.prio[i] for i in idx], "sampling_probabilities")
        ctx.outcome((tuple(ref.prio), idx))
    if any(ref.prio[i] > 0 for i in exp):
        for bs in (None, 3):
            got = None
            for _ in range(20):
                try:
                    got = buf.sample_transition_batch(batch_size=bs)
                    break
                except RuntimeError:
                    continue
            if got is None:
                continue
            idx = got.indices.squeeze(1).tolist()
            same(len(idx), bs or 2, "batch size")
            expect(all(i in exp and ref.prio[i] > 0 for i in idx), "sampled an invalid or zero-priority slot %s", idx)
            r01.check_batch(got, idx, exp, cfg)
            same(list(got.sampling_probabilities.shape), [bs or 2, 1], "shape of sampling_probabilities")
            close(got.sampling_probabilities.reshape(-1), [ref.prio[i] for i in idx], "sampling_probabilities")


def buffer_group(stack, n, extra, depth, attempts):
    cap = stack + n + extra
    cfg = (stack, n, cap, "plain")

    def go(ctx):
        ops = [("add", b, p) for b in (0, 1) for p in (0.0, 1.0, 4.0)] + [("set", "newest", 2.0), ("set", "oldest", 0.5)]

        def one(hist):
            buf = PrioritizedReplayBuffer(stack, cap, 2, update_horizon=n, gamma=0.5, max_sample_attempts=attempts)
            ref = PRef(stack, n, cap, 0.5)
            t = 0
            for op in hist:
                if op[0] == "add":
                    padd(buf, t, op[1], op[2])
                    ref.add(t, bool(op[1]), op[2])
                    t += 1
                else:
                    exp = sorted(ref.sampleable(), key=lambda i: ref.sampleable()[i]["s"])
                    if not exp:
                        continue
                    i = exp[-1] if op[1] == "newest" else exp[0]
                    buf.set_priority(np.array([i], dtype=np.int32), np.array([op[2]]))
                    ref.prio[i] = op[2]
                ctx.step()
            if ctx.state((cfg, hist)):
                check_pbuf(buf, ref, cfg, attempts, ctx)

        for L in range(1, depth + 1):
            for hist in itertools.product(ops, repeat=L):
                if hist[0][0] == "set":
                    continue
                ctx.run(["%s%s%s" % o for o in hist], one, hist)
        # longer histories around the ring, uniform step patterns
        for bits in itertools.product((0, 1), repeat=depth + 5):
            for pp in ((1.0,), (4.0, 0.5), (0.0, 1.0, 2.0)):
                hist = tuple(("add", b, pp[k % len(pp)]) for k, b in enumerate(bits))
                ctx.run(["%s%s%s" % o for o in hist], one, hist)

    return ("buf_s%d_n%d_c%d_a%d" % (stack, n, cap, attempts), go)


def groups(tier):
    q = tier == "quick"
    gs = [tree_group(c) for c in ((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6))]
    gs += [overwrite_group(2, 4 if q else 5), overwrite_group(3, 3 if q else 4), ("stratified", stratified)]
    for stack, n, extra in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 0)):
        gs.append(buffer_group(stack, n, extra, 3 if q else 4, 2))
    return gs

"""R02: replay buffer checkpoints restore the buffer, whatever the crash point of a save."""
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np
import torch

from mc.core import Mismatch, close, expect, same
from mc import world
from checks import r01
world.poison_uninitialised()
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer

LEVEL = "fault_enumeration"
RULE = (
    "round trips: every terminal pattern up to the depth bound is saved and restored into buffers in every kind of "
    "earlier state, then continued with every continuation; crashes: the saving process is killed before each of "
    "its file system operations, and every file of the newest checkpoint is cut at the enumerated lengths; "
    "a case is non-trivial when a checkpoint file was written"
)
ASSUMPTIONS = [
    "process crash and torn-file model: files opened earlier are complete, the file being written may be cut anywhere",
    "checkpoints are written with increasing iteration numbers, the newest possibly again, and restored into a buffer with the same element types",
]
GAMMA = 0.5


def make(cfg):
    stack, n, cap, mode = cfg
    return ReplayBuffer(stack_size=stack, replay_capacity=cap, batch_size=2, update_horizon=n, gamma=GAMMA)


def fill(buf, ref, bits, start=0):
    for t, b in enumerate(bits):
        buf.add(terminal=bool(b), **r01.item(start + t))
        if ref is not None:
            ref.add(start + t, bool(b))


def draws(buf, ref, cfg, ctx):
    """every batch of one that the random source can pick"""
    if not int(buf.size):
        return
    got = set()
    for _, b in r01.explore_choices(lambda ch: one_draw(buf, ch), 50):
        idx = b.indices.squeeze(1).tolist()
        got.add(idx[0])
        if ref is not None:
            exp = ref.sampleable()
            expect(idx[0] in exp, "sampled an invalid slot %s", idx)
            r01.check_batch(b, idx, exp, cfg)


def one_draw(buf, ch):
    with r01.randint_script(ch.choose):
        return buf.sample_transition_batch(batch_size=1)


def roundtrip(cfg, bits, warm, cont, ctx):
    stack, n, cap, mode = cfg
    d = tempfile.mkdtemp(prefix="r02-")
    try:
        src, ref = make(cfg), r01.Ref(stack, n, cap, GAMMA)
        fill(src, ref, bits)
        src.save(d, 1)
        dst = make(cfg)
        fill(dst, None, warm, start=50)
        draws(dst, None, cfg, ctx)
        dst.load(d, "1")
        r01.check(dst, ref, cfg)
        draws(dst, ref, cfg, ctx)
        # saving did not disturb the source
        r01.check(src, ref, cfg)
        fill(dst, ref, cont, start=len(bits))
        r01.check(dst, ref, cfg)
        draws(dst, ref, cfg, ctx)
        ctx.outcome((cfg, int(dst.size), int(dst.add_count)))
        ctx.step(len(bits) + len(warm) + len(cont) + 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def roundtrip_group(cfg, depth):
    def go(ctx):
        # the restored-into buffer: mid-episode, after a terminal, full and wrapped
        warms = [(0,), (1,), (0, 0, 1), (0,) * (cfg[2] + 2), None]
        conts = [c for k in (1, 2, 3) for c in itertools.product((0, 1), repeat=k)]
        for L in range(1, depth + 1):
            for bits in itertools.product((0, 1), repeat=L):
                for w, warm in enumerate(warms):
                    if warm is None:  # as many additions as were saved
                        warm = tuple(1 - b for b in bits)
                    # continuation cycles through all of them; every (history, continuation) pair is covered
                    for ci, c in enumerate(conts):
                        if ci % len(warms) != w:
                            continue
                        ctx.run(("rt", "".join(map(str, bits)), w, "".join(map(str, c))), roundtrip, cfg, bits, warm, c, ctx)

    return ("roundtrip_s%d_n%d_c%d" % cfg[:3], go)


# --------------------------------------------------------------------------- crash points
_ARMED = {"n": None, "count": 0, "dir": None}


def _hook(event, args):
    if _ARMED["n"] is None:
        return
    if event in ("open", "os.remove", "os.rename", "os.truncate", "os.mkdir", "os.rmdir"):
        path = args[0]
        if not isinstance(path, (str, bytes)):
            return
        if isinstance(path, bytes):
            path = path.decode()
        if not path.startswith(_ARMED["dir"]):
            return
        if event == "open":
            mode, flags = args[1], args[2]
            if not (flags & (os.O_WRONLY | os.O_RDWR)):
                return
        _ARMED["count"] += 1
        if _ARMED["count"] == _ARMED["n"]:
            os._exit(77)


_INSTALLED = []


def in_child(fn):
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            fn()
            code = 0
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def contents(buf):
    """everything observable about a buffer"""
    b = buf.sample_all_valid_transitions() if int(buf.size) else None
    out = [int(buf.size), int(buf.add_count), bool(buf.is_full())]
    if b is not None:
        idx = b.indices.squeeze(1).tolist()
        out.append(idx)
        for name in ("state", "action", "reward", "terminal", "step"):
            out.append(getattr(b, name).tolist())
        if hasattr(buf, "get_priority"):
            out.append([round(float(p), 5) for p in buf.get_priority(np.array(idx, dtype=np.int32))])
    return out


class Saver:
    """iterations 1..k of a growing buffer, saved one by one"""

    def __init__(self, cls, d):
        self.d = d
        self.buf = cls(stack_size=2, replay_capacity=6, batch_size=2, update_horizon=2, gamma=GAMMA)
        self.prio = cls is PrioritizedReplayBuffer
        self.t = 0
        self.want = {}

    def grow(self, k):
        for b in ((0, 0, 1), (0, 1), (0, 0), (1, 0, 0), (0, 0, 0, 1), (0,))[k % 6]:
            kw = r01.item(self.t)
            if self.prio:
                kw["priority"] = 0.5 + self.t
            self.buf.add(terminal=bool(b), **kw)
            self.t += 1

    def target(self):
        dst = type(self.buf)(stack_size=2, replay_capacity=6, batch_size=2, update_horizon=2, gamma=GAMMA)
        for t in (30, 31, 32, 33):
            kw = r01.item(t)
            if self.prio:
                kw["priority"] = 9.0
            dst.add(terminal=False, **kw)
        return dst

    def verify_load(self, j, must, must_not=False):
        dst = self.target()
        before = contents(dst)
        try:
            dst.load(self.d, str(j))
        except Exception as e:
            expect(not must, "checkpoint %d cannot be restored: %s: %s", j, type(e).__name__, e)
            same(contents(dst), before, "buffer after refusing to restore checkpoint %d" % j)
            return False
        expect(not must_not, "restored checkpoint %d although it is not complete", j)
        same(contents(dst), self.want[j], "restored contents of checkpoint %d" % j)
        return True


def crash_case(cls, k, n, ctx):
    """iterations 1..k-1 saved; the process saving iteration k dies before its n-th fs operation.
    Returns False when the save completes before that."""
    if not _INSTALLED:
        sys.addaudithook(_hook)
        _INSTALLED.append(1)
    d = tempfile.mkdtemp(prefix="r02-")
    try:
        s = Saver(cls, d)
        for j in range(1, k + 1):
            s.grow(j)
            s.want[j] = contents(s.buf)
            if j < k:
                s.buf.save(d, j)
                ctx.step()

        def child():
            _ARMED.update(n=n, count=0, dir=d)
            s.buf.save(d, k)

        code = in_child(child)
        expect(code in (0, 77), "save failed (exit %d)", code)
        done = code == 0
        for j in range(1, k + 1):
            if j == k:
                r = s.verify_load(j, must=done)
            elif j > k - 4:
                r = s.verify_load(j, must=True)
            else:
                # garbage collected: gone once the save that collects it is complete
                r = s.verify_load(j, must=False, must_not=done and j == k - 4)
            ctx.outcome((cls.__name__, k, j, r))
        return not done
    finally:
        shutil.rmtree(d, ignore_errors=True)


def again_case(cls, k, first, n, ctx):
    """iteration k was saved before, or its save was interrupted; the run is resumed with other contents and saves
    iteration k again: the process dies before the n-th operation of that save (n=None: it does not).
    Returns False when the save completes before that."""
    if not _INSTALLED:
        sys.addaudithook(_hook)
        _INSTALLED.append(1)
    d = tempfile.mkdtemp(prefix="r02-")
    try:
        s = Saver(cls, d)
        for j in range(1, k + 1):
            s.grow(j)
            s.want[j] = contents(s.buf)
            if j < k or first is None:
                s.buf.save(d, j)
        if first is not None:
            def interrupted():
                _ARMED.update(n=first, count=0, dir=d)
                s.buf.save(d, k)

            if in_child(interrupted) != 77:
                return False
        old = s.want[k]
        s.grow(k + 1)
        s.grow(k + 2)
        new = contents(s.buf)
        expect(old != new, "the contents did not change")

        def child():
            _ARMED.update(n=n, count=0, dir=d)
            s.buf.save(d, k)

        code = in_child(child)
        expect(code in (0, 77), "save failed (exit %d)", code)
        done = code == 0
        dst = s.target()
        before = contents(dst)
        try:
            dst.load(d, str(k))
            got = contents(dst)
        except Exception as e:
            expect(not done, "checkpoint %d cannot be restored: %s: %s", k, type(e).__name__, e)
            same(contents(dst), before, "buffer after refusing to restore checkpoint %d" % k)
        else:
            expect(got == new or (not done and got == old), "restored a mixture of two checkpoints: %s", got)
        for j in range(max(1, k - 3), k):
            s.verify_load(j, must=True)
        ctx.outcome((cls.__name__, k, done))
        ctx.step(2)
        return not done
    finally:
        shutil.rmtree(d, ignore_errors=True)


def again_group(cls, ks, step):
    def go(ctx):
        for k in ks:
            # a second save that completes, after a save interrupted anywhere
            for first in [None] + list(range(1, 60, step)):
                ctx.run(("after", cls.__name__, "iter", k, "op", first), again_case, cls, k, first, None, ctx)
            # a second save that is interrupted anywhere
            for n in range(1, 90):
                ctx.run(("again", cls.__name__, "iter", k, "op", n), again_case, cls, k, None, n, ctx)

    return ("again_%s" % cls.__name__, go)


def crash_group(cls, ks):
    def go(ctx):
        for k in ks:
            n = 1
            while True:
                ok, more = ctx.run(("crash", cls.__name__, "iter", k, "op", n), crash_case, cls, k, n, ctx)
                if ctx.only_case:
                    if n > 60:
                        break
                    n += 1
                    continue
                if not more:
                    break
                n += 1
                expect(n < 500, "a save makes implausibly many file operations")

    return ("crash_%s" % cls.__name__, go)


def torn_group(cls, step):
    def go(ctx):
        d = tempfile.mkdtemp(prefix="r02-")
        try:
            s = Saver(cls, d)
            for j in (1, 2):
                s.grow(j)
                s.want[j] = contents(s.buf)
                s.buf.save(d, j)
            names = sorted(f for f in os.listdir(d) if f.endswith(".2.gz"))
            expect(len(names) >= 4, "no checkpoint files found")

            def torn(name, size):
                p = os.path.join(d, name)
                full = open(p, "rb").read()
                try:
                    if size is None:
                        os.remove(p)
                    else:
                        with open(p, "r+b") as f:
                            f.truncate(size)
                    r = s.verify_load(2, must=False, must_not=size is None or size == 0)
                    ctx.outcome((name, r))
                    s.verify_load(1, must=True)
                finally:
                    with open(p, "wb") as f:
                        f.write(full)

            for name in names:
                size = os.path.getsize(os.path.join(d, name))
                cuts = sorted(set(range(0, size, step)) | set(range(max(0, size - 12), size)))
                for c in [None] + cuts:
                    ctx.run(("torn", name, c), torn, name, c)
            ctx.run(("intact",), lambda: (s.verify_load(1, must=True), s.verify_load(2, must=True)))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    return ("torn_%s" % cls.__name__, go)


def sparse_roundtrip(ctx):
    def one(bits):
        d = tempfile.mkdtemp(prefix="r02-")
        try:
            def mk():
                return ReplayBuffer(stack_size=1, replay_capacity=4, batch_size=1, update_horizon=1, gamma=GAMMA)

            def put(buf, t, b):
                it = r01.item(t)
                it.pop("extra1")
                buf.add(terminal=bool(b), idl={"a": [t, t + 1][: t % 3]}, idsl={"c": ([t], [0.5])}, **it)

            src, dst = mk(), mk()
            for t, b in enumerate(bits):
                put(src, t, b)
            put(dst, 40, 0)
            src.save(d, 1)
            dst.load(d, "1")

            def view(buf):
                if not int(buf.size):
                    return []
                x = buf.sample_all_valid_transitions()
                return [x.indices.tolist(), x.state.tolist(), [v.tolist() for v in x.idl["a"]], [v.tolist() for v in x.idsl["c"]]]

            same(view(dst), view(src), "restored sparse contents")
            ctx.step(len(bits))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    for L in range(1, 7):
        for bits in itertools.product((0, 1), repeat=L):
            ctx.run(("sparse", "".join(map(str, bits))), one, bits)


def groups(tier):
    q = tier == "quick"
    gs = []
    for stack, n, extra in ((1, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 0), (2, 3, 2)):
        cfg = (stack, n, stack + n + extra, "plain")
        gs.append(roundtrip_group(cfg, 5 if q else 8))
    for cls in (ReplayBuffer, PrioritizedReplayBuffer):
        gs.append(crash_group(cls, (1, 2, 5, 6) if q else (1, 2, 3, 4, 5, 6, 7, 9)))
        gs.append(again_group(cls, (2,) if q else (1, 2, 5), 4 if q else 1))
        gs.append(torn_group(cls, 5 if q else 1))
    gs.append(("sparse", sparse_roundtrip))
    return gs

"""Bounded exhaustive exploration harness.

A check module (checks/<id>.py) provides

    LEVEL       "model_checking" | "exploration" | "fault_enumeration"
    RULE        how cases are made and what makes one non-trivial
    ASSUMPTIONS list of strings
    def groups(tier) -> list of (name, fn) ; fn(ctx) enumerates its whole bounded space

Every group runs in a forked worker.  Inside a group each execution is started with
``ctx.run(key, fn, *args)``.  A wrong observation (``expect``/``close``/``same``) or any
exception out of the code under test is a violation identified by "<group>/<key>".
"""
import collections
import contextlib
import hashlib
import json
import math
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CASE_TIMEOUT = 150  # seconds of processor time, or of waiting; a machine that is busy with other things is given longer
CASE_WALL = 450
MAX_NEW_VIOLATIONS = 3


class Mismatch(Exception):
    pass


class CaseTimeout(Exception):
    pass


def expect(cond, msg="", *fmt):
    if not bool(cond):
        raise Mismatch(msg % fmt if fmt else str(msg))


def to_py(x):
    """tensors / arrays / containers -> plain python values"""
    import numpy as np
    import torch

    if isinstance(x, torch.Tensor):
        return x.detach().cpu().tolist()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: to_py(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_py(v) for v in x]
    return x


def _close(a, b, rtol, atol):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return False
        return len(a) == len(b) and all(_close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return all(_close(a[k], b[k], rtol, atol) for k in a)
    if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return a == b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * abs(b)


def close(got, want, what="value", rtol=1e-4, atol=1e-5):
    g, w = to_py(got), to_py(want)
    if not _close(g, w, rtol, atol):
        raise Mismatch("%s: got %s, want %s" % (what, str(g)[:600], str(w)[:600]))


def same(got, want, what="value"):
    g, w = to_py(got), to_py(want)
    if g != w:
        raise Mismatch("%s: got %s, want %s" % (what, str(g)[:600], str(w)[:600]))


def raises(fn, what="call"):
    """fn must refuse the request by raising"""
    try:
        r = fn()
    except (CaseTimeout, KeyboardInterrupt):
        raise
    except Exception as e:
        return e
    raise Mismatch("%s: expected an error, got %s" % (what, str(r)[:200]))


def h(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, group, known, case=None):
        self.group, self.known, self.only_case = group, known, case
        self.evaluations = 0
        self.distinct = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []  # (key, message)
        self.known_seen = []
        self.notes = {}

    # -- counters ------------------------------------------------------------
    def state(self, canon):
        """returns True when the canonical state is new"""
        k = h(canon)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, x):
        self.outcomes.add(h(to_py(x)))

    def note(self, k, v):
        self.notes[k] = v

    # -- executions ----------------------------------------------------------
    def run(self, key, fn, *args, nontrivial=True, trace=True, **kw):
        """one execution; returns (ok, result)"""
        key = key if isinstance(key, str) else ",".join(str(k) for k in key)
        key = key.replace(" ", "").replace("\n", "")
        if len(key) > 220:
            key = key[:180] + "~" + h(key)
        full = self.group + "/" + key
        if self.only_case is not None and self.only_case != full:
            return False, None
        self.evaluations += 1
        if trace:
            self.traces += 1
        if nontrivial:
            self.distinct.add(h(full))
        if len(self.samples) < 2:
            self.samples.append(full)
        _case[:] = [time.time(), time.process_time()]
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        try:
            r = fn(*args, **kw)
            signal.setitimer(signal.ITIMER_REAL, 0)
            return True, r
        except Mismatch as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.fail(full, str(e))
        except CaseTimeout:
            self.fail(full, "did not finish: %d s, of which %d s of work" % (time.time() - _case[0], time.process_time() - _case[1]))
        except Stop:
            raise
        except MemoryError:
            raise
        except BaseException as e:  # noqa: the code under test refused a legal request
            signal.setitimer(signal.ITIMER_REAL, 0)
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, SystemExit):
                raise
            tb = traceback.format_exc().strip().splitlines()
            self.fail(full, "%s: %s | %s" % (type(e).__name__, e, " <- ".join(t.strip() for t in tb[-6:-1])))
        return False, None

    def fail(self, full, msg):
        if full in self.known:
            if full not in self.known_seen:
                self.known_seen.append(full)
            return
        self.violations.append((full, msg))
        if len(self.violations) >= MAX_NEW_VIOLATIONS:
            raise Stop()


_case = [0.0, 0.0]


def _alarm(signum, frame):
    wall, cpu = time.time() - _case[0], time.process_time() - _case[1]
    if cpu < CASE_TIMEOUT * 0.9 and wall < (CASE_WALL if cpu > 0.05 * wall else 2 * CASE_TIMEOUT) - 1:
        signal.setitimer(signal.ITIMER_REAL, 30)
        return
    raise CaseTimeout()


def seed_all(s):
    import numpy as np
    import torch

    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def _worker(args):
    name, idx, known, case, fns = args
    signal.signal(signal.SIGALRM, _alarm)
    ctx = Ctx(name, known, case)
    t0 = time.time()
    seed_all(SEED)
    try:
        fns(ctx)
    except Stop:
        pass
    except CaseTimeout:
        ctx.violations.append((name + "/<group>", "timed out"))
    except BaseException as e:
        tb = traceback.format_exc().strip().splitlines()
        if not isinstance(e, Exception):
            raise
        full = name + "/<group>"
        if full in known:
            ctx.known_seen.append(full)
        else:
            ctx.violations.append(
                (full, "%s: %s | %s" % (type(e).__name__, e, " <- ".join(t.strip() for t in tb[-8:-1])))
            )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(
        name=name,
        evaluations=ctx.evaluations,
        distinct=len(ctx.distinct),
        states=len(ctx.states),
        transitions=ctx.transitions,
        traces=ctx.traces,
        outcomes=len(ctx.outcomes),
        samples=ctx.samples,
        violations=ctx.violations,
        known_seen=ctx.known_seen,
        notes=ctx.notes,
        wall=round(time.time() - t0, 2),
    )


_GROUPS = []


def _run_index(i):
    name, fn, known, case = _GROUPS[i]
    return _worker((name, i, known, case, fn))


def load_known(pid):
    known = {}
    path = os.path.join(HOME, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, desc = rest.split(" ", 1)
                known[key[len("key="):]] = desc
    return known


def run_check(pid, module, only=None, case=None, list_only=False):
    t0 = time.time()
    known = load_known(pid)
    groups = module.groups(TIER)
    if only:
        groups = [g for g in groups if g[0] == only]
    if case:
        gname = case.split("/", 1)[0]
        groups = [g for g in groups if g[0] == gname]
    if list_only:
        for g in groups:
            print(g[0])
        return 0
    _GROUPS[:] = [(n, f, known, case) for n, f in groups]
    procs = min(8, len(groups)) or 1
    results = []
    if procs == 1 or os.environ.get("VERIF_SERIAL"):
        results = [_run_index(i) for i in range(len(groups))]
    else:
        results = fork_map(len(groups), procs)
    violations, known_seen, samples = [], [], []
    tot = collections.Counter()
    notes = {}
    for r in results:
        for k in ("evaluations", "distinct", "states", "transitions", "traces", "outcomes"):
            tot[k] += r[k]
        violations += r["violations"]
        known_seen += r["known_seen"]
        samples += r["samples"][:1]
        notes.update(r["notes"])
    cov = {}
    level = module.LEVEL
    if level == "model_checking":
        cov = dict(
            states=tot["states"],
            transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"],
            samples=samples[:12],
            rule=module.RULE,
        )
    else:
        cov = dict(
            evaluations=tot["evaluations"],
            distinct_nontrivial=tot["distinct"],
            rule=module.RULE,
            samples=samples[:12],
        )
        if tot["transitions"]:
            cov["operations_applied"] = tot["transitions"]
    cov["distinct_outcomes"] = tot["outcomes"]
    cov["exhaustive"] = True
    cov["groups"] = {r["name"]: [r["evaluations"], r["wall"]] for r in results}
    if notes:
        cov["notes"] = notes
    ev = dict(
        property=pid,
        tier=TIER if TIER in ("quick", "thorough") else "quick",
        seed=SEED,
        level=level,
        coverage=cov,
        assumptions=list(module.ASSUMPTIONS),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(HOME, "evidence", "replay"), exist_ok=True)
    if not only and not case:
        with open(os.path.join(HOME, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    for k in sorted(set(known_seen)):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, known[k]))
    print(
        "%s: groups=%d executions=%d states=%d transitions=%d outcomes=%d violations=%d wall=%.1fs"
        % (pid, len(results), tot["evaluations"], tot["states"], tot["transitions"], tot["outcomes"],
           len(violations), time.time() - t0)
    )
    if tot["evaluations"] == 0 and not violations:
        violations.append(("<check>/empty", "nothing was explored"))
    for n, (key, msg) in enumerate(violations):
        path = os.path.join(HOME, "evidence", "replay", "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(
                dict(property=pid, case=key, observed=msg, tier=TIER,
                     replay="VERIF_TIER=%s ./run.sh %s --case '%s'" % (TIER, pid, key)),
                f, indent=1,
            )
        print("  %s: %s" % (key, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    return 1 if violations else 0


def fork_map(n, procs):
    """fork one worker per group (fresh copy-on-write image each), at most `procs` at a time"""
    import pickle

    results = [None] * n
    running = {}
    todo = collections.deque(range(n))
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or running:
        while todo and len(running) < procs:
            i = todo.popleft()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    out = pickle.dumps(_run_index(i))
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    if os.environ.get("VERIF_COV"):
                        from mc import cov

                        cov.dump()
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            running[r] = (i, pid)
        import select

        ready, _, _ = select.select(list(running), [], [])
        for r in ready:
            i, pid = running[r]
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            del running[r]
            if data:
                results[i] = pickle.loads(data)
                if os.environ.get("VERIF_FAILFAST") and results[i]["violations"]:
                    import signal

                    for _, q in running.values():
                        os.kill(q, signal.SIGKILL)
                    return [x for x in results if x is not None]
            else:
                name = _GROUPS[i][0]
                results[i] = dict(
                    name=name, evaluations=0, distinct=0, states=0, transitions=0, traces=0, outcomes=0,
                    samples=[], violations=[(name + "/<group>", "worker process died")], known_seen=[],
                    notes={}, wall=0.0,
                )
    return results


# ---------------------------------------------------------------------------
# Explicit choice: a controlled source of nondeterminism, explored exhaustively
# ---------------------------------------------------------------------------
class Choices:
    """One execution's choice points. choose(n) returns the scripted choice, then 0."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []

    def choose(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("replay diverged: choice %d of %d at point %d" % (c, n, i))
        self.taken.append(c)
        self.arity.append(n)
        return c


def explore_choices(execute, max_runs=None):
    """Run execute(Choices) for every sequence of choices (depth first). Yields (taken, result)."""
    stack = [()]
    runs = 0
    while stack:
        prefix = stack.pop()
        ch = Choices(prefix)
        res = execute(ch)
        runs += 1
        yield tuple(ch.taken), res
        for i in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            for alt in range(ch.arity[i] - 1, 0, -1):
                stack.append(tuple(ch.taken[:i]) + (alt,))
        if max_runs and runs >= max_runs:
            raise RuntimeError("choice exploration exceeded its stated bound %d" % max_runs)

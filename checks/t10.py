"""T10: evolution-strategy pools and workers under every order of the workers."""
import itertools
import math
import os
import tempfile
import threading

import torch
import torch.distributed as dist
import torch.multiprocessing as tmp

from mc.core import close, expect, same
from mc.rng import ScriptedRandom

from reagent.parameters import EvolutionParameters
from reagent.training.gradient_free.es_worker import EsWorker
from reagent.training.gradient_free.evolution_pool import EvolutionPool, OneMaxEvolutionPool

LEVEL = "model_checking"
RULE = (
    "every population size, tensor layout, seed and reward table from small alphabets; every number of workers up to 3 and every order in which "
    "the workers reach and leave each reduction of two epochs (each worker with its own random state, as a process has), compared with an "
    "independent Adam step on the reward-weighted mutations. Non-trivial: more than one worker or rewards that differ"
)
ASSUMPTIONS = ["workers interact only through the reduction, which is replaced by an in-process one with the documented signature for the enumeration; a real gloo group is used for the bindings"]

SIZES = [{"data": [3]}, {"a": [2], "b": [2, 1]}, {"data": [1]}]


class Adam:
    def __init__(self, lr):
        self.lr, self.t, self.m, self.v = lr, 0, None, None

    def step(self, x, g):
        self.t += 1
        if self.m is None:
            self.m, self.v = [0.0] * len(x), [0.0] * len(x)
        out = []
        for i, (p, d) in enumerate(zip(x, g)):
            self.m[i] = 0.9 * self.m[i] + 0.1 * d
            self.v[i] = 0.999 * self.v[i] + 0.001 * d * d
            out.append(p - self.lr * (self.m[i] / (1 - 0.9 ** self.t)) / (math.sqrt(self.v[i] / (1 - 0.999 ** self.t)) + 1e-8))
        return out


def flat(ts):
    return [x for k in sorted(ts) for x in ts[k].detach().reshape(-1).tolist()]


def ref_update(parent, children, rewards, power, adam):
    n = len(children)
    mean = sum(rewards) / n
    std = math.sqrt(sum((r - mean) ** 2 for r in rewards) / (n - 1)) if n > 1 else 0.0
    if std <= 1e-6:
        return parent
    g = [-sum((r - mean) / std * (c[i] - parent[i]) for r, c in zip(rewards, children)) / (n * power) for i in range(len(parent))]
    return adam.step(parent, g)


def make(n, power, lr, seed, sizes, cls=EvolutionPool):
    return cls(seed, EvolutionParameters(population_size=n, mutation_power=power, learning_rate=lr), sizes)


TABLES = [(0.0, 1.0), (1.0, 1.0), (-2.0, 5.0), (0.0, 1e-8), (3.0, 0.0)]


def updates(big):
    def fn(ctx):
        for sizes, n, power, lr in itertools.product(SIZES, (1, 2, 3), (0.1, 2.0), (0.01, 0.5)):
            for table in itertools.product((0.0, 1.0, -3.0), repeat=n):
                for seed in (0, 7, 99999) if big else (7,):
                    def case():
                        pool = make(n, power, lr, seed, sizes)
                        parent, adam = flat(pool.parent_tensors), Adam(lr)
                        for it in range(1, 4):
                            kids = [flat(c) for c in pool.population_tensors]
                            same(len(kids), n, "population")
                            rew = table if it != 2 else tuple(reversed(table))
                            rt = torch.tensor(rew)
                            pool.apply_global_reward(rt, it)
                            parent = ref_update(parent, kids, rew, power, adam)
                            close(flat(pool.parent_tensors), parent, "parent after update %d" % it, rtol=2e-3, atol=2e-4)
                            parent = flat(pool.parent_tensors)
                            same(rt.tolist(), list(rew), "rewards")
                            ctx.step()
                            ctx.state((str(sizes), n, power, lr, table, seed, it))
                            ctx.outcome([round(x, 4) for x in parent])
                    ctx.run((sorted(sizes), n, power, lr, table, seed), case, nontrivial=len(set(table)) > 1)
    return fn


def mutations(ctx):
    for sizes, n, power, seed in itertools.product(SIZES, (1, 2, 3), (0.1, 2.0), (0, 1, 99999)):
        def case():
            # exact draws
            count = [0]

            def draw(k):
                count[0] += k
                return [((count[0] - k + i) * 7 % 11 - 5) / 4 for i in range(k)]
            with ScriptedRandom(normal=draw):
                pool = make(n, power, 0.1, seed, sizes)
                dim = len(flat(pool.parent_tensors))
                for it in range(3):
                    parent = flat(pool.parent_tensors)
                    lo = count[0] - n * dim
                    if lo < 0:
                        return
                    want = []
                    i = lo
                    for _ in range(n):
                        one = {}
                        for name, size in sizes.items():
                            k = math.prod(size)
                            one[name] = [((i + j) * 7 % 11 - 5) / 4 for j in range(k)]
                            i += k
                        want.append([p + power * z for p, z in zip(parent, [x for k in sorted(one) for x in one[k]])])
                    close([flat(c) for c in pool.population_tensors], want, "children of iteration %d" % it)
                    pool.populate_children(it + 1)
                    ctx.step()
            # reproducible and distinct
            state = {}
            for run in range(2):
                torch.manual_seed(1234 + run)
                p = make(n, power, 0.1, seed, sizes)
                torch.randn(3 + run)
                kids = []
                for it in (0, 1, 2, 1):
                    torch.rand(run + 2)
                    p.populate_children(it)
                    kids.append([flat(c) for c in p.population_tensors])
                if run == 0:
                    state["first"] = kids, flat(p.parent_tensors)
                else:
                    same((kids, flat(p.parent_tensors)), state["first"], "mutations of a second run with the same seed")
                same(kids[1], kids[3], "mutations of the same iteration")
                expect(kids[0] != kids[1] and kids[1] != kids[2], "the mutations of two iterations are the same")
                if n > 1:
                    expect(len({str(k) for k in kids[0]}) == n, "two individuals of a population are the same")
            other = make(n, power, 0.1, (seed + 1) % 100000, sizes)
            expect(flat(other.parent_tensors) != state["first"][1], "another seed has the same parent")
            a = make(n, power, 0.1, 0, sizes)
            b = make(n, power, 0.1, 1, sizes)
            for i, j in itertools.product(range(4), repeat=2):
                a.populate_children(i)
                b.populate_children(j)
                da = [x - y for x, y in zip(flat(a.population_tensors[0]), flat(a.parent_tensors))]
                db = [x - y for x, y in zip(flat(b.population_tensors[0]), flat(b.parent_tensors))]
                expect(max(abs(x - y) for x, y in zip(da, db)) > 1e-4 * power, "seeds 0 and 1 use the same mutations in iterations %d and %d", i, j)
            ctx.state((str(sizes), n, power, seed))
        ctx.run((sorted(sizes), n, power, seed), case)


def onemax(ctx):
    for vals in itertools.product((-1.0, 0.0, 2.0), repeat=3):
        def case():
            pool = make(2, 0.1, 0.1, 3, {"data": [3]}, OneMaxEvolutionPool)
            w = sum((1 / (1 + math.exp(-v)) if i % 2 == 0 else 1 - 1 / (1 + math.exp(-v))) for i, v in enumerate(vals)) / 3
            close(float(pool.compute_local_reward({"data": torch.tensor(vals)})), w, "reward")
            r = pool.compute_all_local_rewards()
            close(r, [float(pool.compute_local_reward(c)) for c in pool.population_tensors], "rewards of the population")
            ctx.step()
            ctx.state(vals)
        ctx.run(("onemax",) + vals, case)


# -- workers ------------------------------------------------------------------------------------
class Sched:
    """runs the workers one at a time; a worker pauses at every reduction. `order` chooses who goes next."""

    def __init__(self, workers, script):
        self.n = workers
        self.script = list(script)
        self.branch = []
        self.turn = [threading.Semaphore(0) for _ in range(workers)]
        self.back = threading.Semaphore(0)
        self.where = ["start"] * workers
        self.posted = {}
        self.rng = [torch.get_rng_state() for _ in range(workers)]
        self.errors = []
        self.me = threading.local()

    def pick(self, opts):
        i = len(self.branch)
        c = self.script[i] if i < len(self.script) else 0
        self.branch.append((c, len(opts)))
        return opts[c]

    def all_reduce(self, tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        w = self.me.w
        expect(group == "group", "the reduction ran in group %s", group)
        expect(op == dist.ReduceOp.SUM, "the reduction is %s", op)
        self.posted.setdefault(self.epoch[w], {})[w] = tensor
        self.where[w] = "wait"
        self.pause(w)

    def pause(self, w):
        self.rng[w] = torch.get_rng_state()
        self.back.release()
        self.turn[w].acquire()
        torch.set_rng_state(self.rng[w])

    def run(self, bodies):
        self.epoch = [0] * self.n
        threads = []

        def body(w):
            self.me.w = w
            self.turn[w].acquire()
            torch.set_rng_state(self.rng[w])
            try:
                bodies[w](lambda: self.end_epoch(w))
            except BaseException as e:
                self.errors.append(e)
            self.where[w] = "done"
            self.rng[w] = torch.get_rng_state()
            self.back.release()
        for w in range(self.n):
            t = threading.Thread(target=body, args=(w,), daemon=True)
            t.start()
            threads.append(t)
        done_reduce = set()
        while True:
            # a complete reduction takes effect
            for e, d in self.posted.items():
                if len(d) == self.n and e not in done_reduce:
                    total = sum(t.clone() for t in d.values())
                    for w, t in d.items():
                        t.copy_(total)
                        self.where[w] = "ready"
                    done_reduce.add(e)
            opts = [w for w in range(self.n) if self.where[w] in ("start", "ready")]
            if not opts:
                break
            w = self.pick(opts)
            self.turn[w].release()
            self.back.acquire()
            if self.errors:
                raise self.errors[0]
        for t in threads:
            t.join(5)
        expect(all(x == "done" for x in self.where), "workers are stuck at %s", self.where)

    def end_epoch(self, w):
        self.epoch[w] += 1


def tabled(worker, tables):
    class P(EvolutionPool):
        def compute_local_reward(self, individual):
            # evaluating a policy draws random numbers, a different amount on every worker
            torch.rand(worker + 1)
            for i, c in enumerate(self.population_tensors):
                if c is individual:
                    self.seen = getattr(self, "seen", -1) + 1
                    return tables[worker][self.seen // len(self.population_tensors)][i]
            return sum(flat(individual)) + worker
    return P


def orders(W, epochs, big):
    def fn(ctx):
        n = 2
        alpha = [(0.0, 1.0), (2.0, -1.0), (1.0, 1.0)]
        for tables in itertools.product(itertools.product(alpha, repeat=epochs), repeat=W):
            if W == 3 and epochs > 1 and hash_(tables) % (9 if big else 61):
                continue

            def case():
                script = []
                first = None
                while True:
                    s = Sched(W, script)
                    pools = [make(n, 0.5, 0.1, 5, {"a": [2], "b": [1]}, tabled(w, tables)) for w in range(W)]
                    es = [EsWorker(p, p.es_params, "group", W) for p in pools]
                    results = [[] for _ in range(W)]
                    real = dist.all_reduce
                    dist.all_reduce = s.all_reduce

                    def body(w):
                        def f(end):
                            for e in range(epochs):
                                r = es[w].run_epoch()
                                results[w].append((float(r), flat(pools[w].parent_tensors), [flat(c) for c in pools[w].population_tensors], es[w].iteration))
                                end()
                        return f
                    try:
                        kids0 = [flat(c) for c in pools[0].population_tensors]
                        parent0 = flat(pools[0].parent_tensors)
                        s.run([body(w) for w in range(W)])
                    finally:
                        dist.all_reduce = real
                    adam, parent, kids = Adam(0.1), parent0, kids0
                    for e in range(epochs):
                        avg = [sum(tables[w][e][i] for w in range(W)) / W for i in range(n)]
                        parent = ref_update(parent, kids, avg, 0.5, adam)
                        for w in range(W):
                            r, p, k, it = results[w][e]
                            close(p, parent, "parent of worker %d after epoch %d" % (w, e), rtol=2e-3, atol=2e-4)
                            same(p, results[0][e][1], "parents of workers 0 and %d" % w)
                            same(k, results[0][e][2], "populations of workers 0 and %d" % w)
                            close(r, sum(p) + w, "reward of the new parent")
                            same(it, e + 1, "iteration")
                        expect(results[0][e][2] != kids, "the population of the next iteration is the same")
                        parent, kids = results[0][e][1], results[0][e][2]
                    first = first or results[0]
                    same(results[0], first, "the outcome depends on the order of the workers")
                    ctx.step(len(s.branch))
                    ctx.state((W, tables, tuple(c for c, _ in s.branch)))
                    ctx.outcome([round(x, 4) for x in parent])
                    # next order
                    b = s.branch
                    while b and b[-1][0] + 1 >= b[-1][1]:
                        b.pop()
                    if not b:
                        return
                    script = [c for c, _ in b[:-1]] + [b[-1][0] + 1]
            ctx.run((W, epochs, tables), case, nontrivial=W > 1)
    return fn


def hash_(t):
    return sum(int(10 * x) * (i + 1) for i, x in enumerate(x for a in t for b in a for x in b))


def worker_main(rank, W, path, q):
    try:
        dist.init_process_group("gloo", init_method="file://" + path, rank=rank, world_size=W)
        g = dist.new_group(list(range(W)))
        p = make(3, 0.5, 0.1, 5, {"data": [4]}, OneMaxEvolutionPool)
        es = EsWorker(p, p.es_params, g, W)
        out = []
        for _ in range(5):
            r = es.run_epoch()
            out.append((float(r), flat(p.parent_tensors)))
        q.put((rank, out))
        dist.barrier()
        dist.destroy_process_group()
    except BaseException as e:
        q.put((rank, "error: %r" % e))


def gloo(ctx):
    for W in (1, 2, 3):
        def case():
            d = tempfile.mkdtemp()
            try:
                mp = tmp.get_context("fork")
                q = mp.SimpleQueue()
                ps = [mp.Process(target=worker_main, args=(r, W, os.path.join(d, "store"), q)) for r in range(W)]
                for p in ps:
                    p.start()
                got = dict(q.get() for _ in ps)
                for p in ps:
                    p.join(20)
                    if p.is_alive():
                        p.kill()
                for r in range(W):
                    expect(not isinstance(got[r], str), "worker %d: %s", r, got[r])
                    same(got[r], got[0], "workers 0 and %d" % r)
                # same rewards on every worker: as one worker alone
                p = make(3, 0.5, 0.1, 5, {"data": [4]}, OneMaxEvolutionPool)
                for e in range(5):
                    p.apply_global_reward(p.compute_all_local_rewards(), e + 1)
                    close(got[0][e][1], flat(p.parent_tensors), "parent", rtol=1e-3, atol=1e-4)
                ctx.step(5 * W)
                ctx.state(W)
            finally:
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)
        ctx.run(("gloo", W), case, nontrivial=W > 1)


def groups(tier):
    big = tier == "thorough"
    return [("updates", updates(big)), ("mutations", mutations), ("onemax", onemax), ("orders-1", orders(1, 3, big)), ("orders-2", orders(2, 2, big)),
            ("orders-3", orders(3, 1, big)), ("orders-3x2", orders(3, 2, big)), ("gloo", gloo)]

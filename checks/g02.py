"""G02: Frechet / Gumbel sorting of slates and top-k selection, and the probabilities they report."""
import itertools
import math

import torch

from mc.core import close, expect, raises, same, seed_all
from mc.rng import ScriptedRandom

from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
from reagent.samplers.frechet import FrechetSort

LEVEL = "exploration"
RULE = (
    "every score vector over a small alphabet for one to four items, every shape, slate length and equivalence length, every perturbation order, every permutation "
    "as a logged slate (with and without padding); draw probabilities are integrated over a full grid of the noise. Non-trivial: more than one item"
)
ASSUMPTIONS = ["scores are positive (unless given as logarithms)", "logged slates are padded at their end; padding means that no other item was available"]


def noise_u(g, shape):
    """the uniform draw behind a Gumbel(0, 1/shape) draw of g"""
    return math.exp(-math.exp(-g * shape))


def pl(logs, perm, shape, upto):
    """Plackett-Luce log-probability of the first `upto` places"""
    tot = 0.0
    for i in range(min(upto, len(perm))):
        rest = [shape * logs[j] for j in perm[i:]]
        m = max(rest)
        tot += rest[0] - m - math.log(sum(math.exp(r - m) for r in rest))
    return tot


def scripted(fn, u):
    try:
        with ScriptedRandom(uniform=lambda n: (u * n)[:n] if len(u) < n else u[:n]):
            return fn()
    except RuntimeError as e:
        if "unexpected random draw" in str(e):
            return None
        raise


def configs(n):
    for topk in [None] + list(range(1, n + 2)):
        for eq in [None] + list(range(1, n + 2)):
            if topk is not None and eq is not None and eq > topk:
                continue
            yield topk, eq


def length(n, topk, eq):
    k = eq if eq is not None else (topk if topk is not None else n)
    return min(k, n)


SCORES = (1.0, 2.0, 0.5, 3.0)


def sampling(big):
    def fn(ctx):
        for n in (1, 2, 3, 4):
            vs = list(itertools.product(SCORES[: 3 if n < 4 else 2], repeat=n))
            for shape in (1.0, 0.5, 3.0):
                for topk, eq in configs(n):
                    for vi in range(0, len(vs), 1 if big or n < 3 else 5):
                        for logs in (False, True):
                            def case():
                                v = vs[vi]
                                w = vs[(vi + 1) % len(vs)]
                                fs = FrechetSort(shape=shape, topk=topk, equiv_len=eq, log_scores=logs)
                                rows = [v, w]
                                ls = [[math.log(x) for x in r] for r in rows]
                                scores = torch.tensor(ls if logs else rows)
                                perms = list(itertools.permutations(range(n)))
                                for pi, perm in enumerate(perms):
                                    other = perms[(pi * 5 + 1) % len(perms)]
                                    # perturbations that put the items in the wanted orders
                                    u = []
                                    for r, order in zip(ls, (perm, other)):
                                        g = [0.0] * n
                                        for place, j in enumerate(order):
                                            g[j] = 0.35 * (n - place) / shape - r[j] - 0.5 / shape
                                        u += [noise_u(x, shape) for x in g]
                                    if any(x < 1e-5 or x > 1 - 1e-5 for x in u):
                                        continue
                                    out = scripted(lambda: fs.sample_action(scores.clone()), u)
                                    if out is None:
                                        return
                                    ctx.step()
                                    k = n if topk is None else min(topk, n)
                                    same(out.action, [list(perm)[:k], list(other)[:k]], "slates")
                                    want = [pl(ls[0], perm, shape, length(n, topk, eq)), pl(ls[1], other, shape, length(n, topk, eq))]
                                    close(out.log_prob.reshape(-1), want, "log-probability of the drawn slates", atol=1e-4)
                                ctx.outcome((v, shape))
                            ctx.run((n, shape, topk, eq, vi, logs), case, nontrivial=n > 1)
    return fn


def free_sampling(ctx):
    """without a script: slates are distinct items and carry their own probability"""
    for n in (2, 3, 4):
        for topk, eq in configs(n):
            for seed in range(3):
                for B in (1, 2, 3, 5):
                    def case():
                        seed_all(seed)
                        fs = FrechetSort(shape=1.5, topk=topk, equiv_len=eq)
                        rows = [[SCORES[(i * 3 + j + seed) % 4] for j in range(n)] for i in range(B)]
                        out = fs.sample_action(torch.tensor(rows))
                        k = n if topk is None else min(topk, n)
                        same(tuple(out.action.shape), (B, k), "shape of the slates")
                        same(out.log_prob.numel(), B, "number of log-probabilities")
                        L = length(n, topk, eq)
                        for i in range(B):
                            a = out.action[i].tolist()
                            same(len(set(a)), k, "distinct items")
                            full = a + [j for j in range(n) if j not in a]
                            close(out.log_prob.reshape(-1)[i], pl([math.log(x) for x in rows[i]], full, 1.5, L), "log-probability", atol=1e-4)
                    ctx.run((n, topk, eq, seed, B), case)


def log_probs(big):
    def fn(ctx):
        for n in (1, 2, 3, 4):
            vs = list(itertools.product(SCORES[: 3 if n < 4 else 2], repeat=n))
            for shape in (1.0, 0.5, 3.0):
                for topk, eq in configs(n):
                    for vi in range(0, len(vs), 1 if big or n < 4 else 3):
                        for logs in (False, True):
                            def case():
                                v = vs[vi]
                                ls = [math.log(x) for x in v]
                                fs = FrechetSort(shape=shape, topk=topk, equiv_len=eq, log_scores=logs)
                                L = length(n, topk, eq)
                                perms = list(itertools.permutations(range(n)))
                                scores = torch.tensor([ls if logs else list(v)] * len(perms))
                                lp = fs.log_prob(scores, torch.tensor(perms)).tolist()
                                classes = {}
                                for p, x in zip(perms, lp):
                                    close(x, pl(ls, p, shape, L), "log-probability of %s" % (p,), atol=1e-4)
                                    classes.setdefault(p[:L], []).append(math.exp(x))
                                close(sum(c[0] for c in classes.values()), 1.0, "sum of the probabilities", atol=1e-4)
                                for p, x in zip(perms[:3], lp):
                                    one = fs.log_prob(scores[0], torch.tensor(p))
                                    close(one.reshape(-1), [x], "log-probability of a single slate", atol=1e-5)
                                ctx.step(len(perms))
                                ctx.outcome(lp)
                            ctx.run((n, shape, topk, eq, vi, logs), case, nontrivial=n > 1)
    return fn


def padding(ctx):
    for n in (2, 3, 4):
        for m in range(0, n + 1):
            for items in itertools.permutations(range(n), m):
                for topk, eq in ((None, None), (2, None), (2, 1), (n, n)):
                    def case():
                        fs = FrechetSort(shape=2.0, topk=topk, equiv_len=eq)
                        ls = [math.log(SCORES[j]) for j in range(n)]
                        action = list(items) + [n] * (n - m)
                        lp = fs.log_prob(torch.tensor([SCORES[:n], SCORES[:n]]), torch.tensor([action, list(range(n))]))
                        L = length(n, topk, eq)
                        close(lp, [pl(ls, items, 2.0, L), pl(ls, range(n), 2.0, L)], "log-probability of a padded slate", atol=1e-4)
                        scores = torch.tensor([SCORES[:n]], requires_grad=True)
                        fs.log_prob(scores, torch.tensor([action])).sum().backward()
                        expect(bool(torch.isfinite(scores.grad).all()), "gradient of a padded slate")
                        for j in range(n):
                            if j not in items:
                                close(scores.grad[0, j], 0.0, "gradient of an item outside the slate")
                    ctx.run((n, items, topk, eq), case)
        def refuse():
            fs = FrechetSort()
            raises(lambda: fs.log_prob(torch.ones(1, n), torch.zeros(1, n + 1, dtype=torch.long)), "longer slate")
            raises(lambda: fs.log_prob(torch.ones(1, n), torch.zeros(1, n - 1, dtype=torch.long)), "unpadded slate")
            raises(lambda: FrechetSort(topk=1, equiv_len=2), "equivalence longer than the slate")
            raises(lambda: fs.sample_action(torch.ones(n)), "scores without a batch")
        ctx.run(("refuse", n), refuse, nontrivial=False)


def gradients(ctx):
    """the log-probability is differentiable in the scores (the point of the sampler)"""
    for n in (2, 3):
        for perm in itertools.permutations(range(n)):
            for shape in (0.5, 2.0):
                for logs in (False, True):
                    def case():
                        base = [0.7, 1.3, 2.1][:n]
                        s = torch.tensor([base], requires_grad=True, dtype=torch.float64)
                        FrechetSort(shape=shape, log_scores=logs).log_prob(s, torch.tensor([perm])).sum().backward()
                        for j in range(n):
                            d = 1e-5
                            f = []
                            for e in (d, -d):
                                x = list(base)
                                x[j] += e
                                f.append(pl(x if logs else [math.log(y) for y in x], perm, shape, n))
                            close(s.grad[0, j], (f[0] - f[1]) / (2 * d), "gradient", rtol=1e-3, atol=1e-4)
                    ctx.run((perm, shape, logs), case)


def quadrature(big):
    """integrate the sampler over a full grid of its noise: the frequencies are the reported probabilities"""
    def fn(ctx):
        for n, m in ((2, 40 if not big else 120), (3, 14 if not big else 30)):
            grid = list(itertools.product([(i + 0.5) / m for i in range(m)], repeat=n))
            for v in itertools.product(SCORES[:3], repeat=n):
                for shape in (1.0, 2.0, 0.5):
                    for logs in (False, True):
                        def case():
                            ls = [math.log(x) for x in v]
                            fs = FrechetSort(shape=shape, log_scores=logs)
                            scores = torch.tensor([ls if logs else list(v)] * len(grid), dtype=torch.float64)
                            out = scripted(lambda: fs.sample_action(scores), [x for g in grid for x in g])
                            if out is None:
                                return
                            counts = {}
                            for a in map(tuple, out.action.tolist()):
                                counts[a] = counts.get(a, 0) + 1
                            for p in itertools.permutations(range(n)):
                                close(counts.get(p, 0) / len(grid), math.exp(pl(ls, p, shape, n)), "probability of drawing %s" % (p,), rtol=0, atol=0.045 if not big else 0.02)
                            ctx.step(len(grid))
                        ctx.run((v, shape, logs), case)
    return fn


def topk_batches(ctx):
    for n in (1, 2, 3, 4):
        perms = list(itertools.permutations([0.5, 1.5, -2.0, 3.0][:n]))
        for i, a in enumerate(perms):
            for k in range(1, n + 1):
                for step in (1, 3, 5):
                    def case():
                        rows = [a, perms[(i + step) % len(perms)], perms[(i * 2 + step) % len(perms)]]
                        out = TopKSampler(k=k).sample_action(torch.tensor(rows))
                        same(out.action, [sorted(range(n), key=lambda j: -r[j])[:k] for r in rows], "slates")
                        same(out.log_prob.numel(), 3, "log-probabilities")
                    ctx.run((a, k, step), case, nontrivial=n > 1)


def groups(tier):
    big = tier == "thorough"
    return [
        ("sampling", sampling(big)), ("free-sampling", free_sampling), ("log-prob", log_probs(big)), ("padding", padding), ("gradients", gradients),
        ("quadrature", quadrature(big)), ("top-k", topk_batches),
    ]

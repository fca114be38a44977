"""S04: greedy selection of diverse slates."""
import itertools
import math

import torch

from mc.core import close, expect, same
from mc.trainkit import snapshot, unchanged

from reagent.prediction.ranking.predictor_wrapper import DeterminantalPointProcessPredictorWrapper as DPP

LEVEL = "exploration"
RULE = (
    "every vector of quality scores and every choice of feature directions over an alphabet, up to four (five) items, every strength of diversity: the kernel, all "
    "candidate determinants of every round and the chosen order are compared with exact expansions by permutations. Non-trivial: more than one item"
)
ASSUMPTIONS = ["items that tie (up to rounding) may be chosen in any order", "quality scores are positive"]

FEATS = [(1, 0), (0, 1), (1, 1), (3, 4), (-1, 0), (2, 0)]


def det(m):
    n = len(m)
    if n == 0:
        return 1.0
    if n == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n) if m[0][j] != 0)


def case(ctx, w, alpha, q, fs, ints):
    n = len(q)
    qt = torch.tensor([[v] for v in q], dtype=torch.long if ints else torch.float)
    ft = torch.tensor([list(FEATS[i]) for i in fs], dtype=torch.long if ints else torch.float)
    before = snapshot([qt, ft])
    chosen, dets, L, B = w(qt, ft)
    unchanged(before, [qt, ft])
    unit = [[x / math.hypot(*FEATS[i]) for x in FEATS[i]] for i in fs]
    wb = [[math.sqrt(alpha) * q[i] * x for x in unit[i]] for i in range(n)]
    wl = [[q[i] ** 2 if i == j else alpha * q[i] * q[j] * sum(a * b for a, b in zip(unit[i], unit[j])) for j in range(n)] for i in range(n)]
    close(B, wb, "B")
    close(L, wl, "kernel", atol=1e-4)
    order = chosen.tolist()
    same(sorted(order), list(range(n)), "chosen items")
    scale = 1.0
    for r in range(n):
        row = dets[r].tolist()
        have = order[:r]
        scale *= max(1.0, max(q) ** 2)
        want = {}
        for i in range(n):
            if i in have:
                expect(row[i] < -3e38, "determinant of the chosen item %d in round %d is %s", i, r, row[i])
            else:
                idx = have + [i]
                want[i] = det([[wl[a][b] for b in idx] for a in idx])
                close(row[i], want[i], "determinant of %s" % idx, rtol=1e-3, atol=1e-4 * scale)
        expect(want[order[r]] >= max(want.values()) - 2e-4 * scale, "round %d chose %d, determinants %s", r, order[r], want)
        ctx.step()
    ctx.state((alpha, q, fs))
    ctx.outcome(tuple(order))


def select(n, big):
    def fn(ctx):
        for alpha in (0.0, 0.5, 1.0) if not big else (0.0, 0.25, 0.5, 1.0, 2.0):
            w = DPP(alpha=alpha)
            feats = range(len(FEATS)) if n < 4 else (0, 1, 2, 4)
            qs = (1, 2, 3, 5) if n < 4 else (1, 2, 4) if n == 4 else (1, 3)
            for q in itertools.product(qs, repeat=n):
                if not big and n >= 3 and q[0] > q[-1] and sum(q) % 2:
                    continue
                for fs in itertools.product(feats, repeat=n):
                    if not big and n >= 4 and sum(fs) % 3:
                        continue
                    ctx.run((alpha, q, fs), case, ctx, w, alpha, q, fs, sum(fs) % 2 == 0, nontrivial=n > 1)
    return fn


def groups(tier):
    big = tier == "thorough"
    return [("items-%d" % n, select(n, big)) for n in ((1, 2, 3, 4, 5) if big else (1, 2, 3, 4))]

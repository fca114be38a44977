"""T07: sequence-to-slate models against a numpy transformer and over all rankings."""
import itertools
import math

import numpy as np
import torch

from mc.core import close, expect, raises, same
from mc.rng import ScriptedRandom

import reagent.types as rlt
from reagent.model_utils.seq2slate_utils import (
    Seq2SlateMode, Seq2SlateOutputArch, attention, clones, mask_logits_by_idx, per_symbol_to_per_seq_log_probs, per_symbol_to_per_seq_probs,
    pytorch_decoder_mask, subsequent_and_padding_mask, subsequent_mask)
from reagent.models.seq2slate import BaselineNet, Generator, Seq2SlateTransformerNet

LEVEL = "model_checking"
RULE = (
    "every model shape (architecture, heads, layers, embedding split) with several weight sets, every number of candidates up to 4, every "
    "ranking of every length, batch sizes 1 to 3, every sampling outcome; all probabilities are compared with a step-by-step numpy "
    "transformer and summed over all rankings. Non-trivial: more than one candidate"
)
ASSUMPTIONS = ["float32 tolerance; weights from a few fixed pseudo-random sets; no padding inside slates (the code documents none)"]

S, C = 2, 2
AR, FS, ES = Seq2SlateOutputArch.AUTOREGRESSIVE, Seq2SlateOutputArch.FRECHET_SORT, Seq2SlateOutputArch.ENCODER_SCORE


def data(b, n, k=0):
    g = np.random.RandomState(10 + k)
    return torch.tensor(g.normal(size=(b, S)), dtype=torch.float32), torch.tensor(g.normal(size=(b, n, C)), dtype=torch.float32)


def net(arch, heads, layers, split, seed, n=4, temperature=1.0):
    torch.manual_seed(seed)
    m = Seq2SlateTransformerNet(state_dim=S, candidate_dim=C, num_stacked_layers=layers, dim_model=4, max_src_seq_len=n, max_tgt_seq_len=n,
                                output_arch=arch, temperature=temperature, num_heads=heads, dim_feedforward=6, state_embed_dim=split)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape) * 0.6)
    return m


def inp(state, cand, rank=None):
    return rlt.PreprocessedRankingInput.from_input(state=state, candidates=cand, device=torch.device("cpu"), action=rank)


# -- numpy reference ------------------------------------------------------------------------
class Ref:
    def __init__(self, m, heads):
        self.w = {k.replace("seq2slate.", "", 1): v.double().numpy() for k, v in m.state_dict().items()}
        self.h = heads
        self.layers = 1 + max(int(k.split(".")[3]) for k in self.w if k.startswith("encoder.transformer_encoder.layers."))

    def lin(self, x, name):
        return x @ self.w[name + ".weight"].T + self.w[name + ".bias"]

    def norm(self, x, name):
        m = x.mean(-1, keepdims=True)
        v = ((x - m) ** 2).mean(-1, keepdims=True)
        return (x - m) / np.sqrt(v + 1e-5) * self.w[name + ".weight"] + self.w[name + ".bias"]

    def mha(self, q, kv, name, hide=None):
        d = q.shape[1]
        W, b = self.w[name + ".in_proj_weight"], self.w[name + ".in_proj_bias"]
        Q, K, V = q @ W[:d].T + b[:d], kv @ W[d:2 * d].T + b[d:2 * d], kv @ W[2 * d:].T + b[2 * d:]
        k = d // self.h
        out, att = [], []
        for i in range(self.h):
            s = slice(i * k, (i + 1) * k)
            a = Q[:, s] @ K[:, s].T / math.sqrt(k)
            if hide is not None:
                a = np.where(hide, -np.inf, a)
            a = np.exp(a - a.max(1, keepdims=True))
            a = a / a.sum(1, keepdims=True)
            att.append(a)
            out.append(a @ V[:, s])
        return self.lin(np.concatenate(out, 1), name + ".out_proj"), sum(att) / self.h

    def ff(self, x, name):
        return self.lin(np.maximum(self.lin(x, name + ".linear1"), 0), name + ".linear2")

    def embed(self, x, name):
        return self.lin(x, name + ".linear") * math.sqrt(self.w[name + ".linear.bias"].shape[0])

    def encode(self, state, cand):
        se = self.embed(state, "state_embedder")
        x = np.stack([np.concatenate([se, self.embed(c, "candidate_embedder")]) for c in cand])
        for l in range(self.layers):
            p = "encoder.transformer_encoder.layers.%d" % l
            x = self.norm(x + self.mha(x, x, p + ".self_attn")[0], p + ".norm1")
            x = self.norm(x + self.ff(x, p), p + ".norm2")
        return x

    def scores(self, state, cand):
        return self.lin(self.encode(state, cand), "encoder_scorer")[:, 0]

    def steps(self, arch, state, cand, rank):
        """probability of every candidate at every step of the ranking"""
        n, m = len(cand), len(rank)
        if arch == FS:
            s = self.scores(state, cand)
            rows = []
            for t in range(m):
                e = [0.0 if i in rank[:t] else math.exp(s[i] - s.max()) for i in range(n)]
                rows.append([x / sum(e) for x in e])
            return np.array(rows)
        mem = self.encode(state, cand)
        se = self.embed(state, "state_embedder")
        prev = [np.zeros(C)] + [cand[i] for i in rank[:-1]]
        x = []
        for t, c in enumerate(prev):
            v = np.concatenate([se, self.embed(c, "candidate_embedder"), [t]])
            x.append(np.maximum(self.lin(v, "positional_encoding_decoder.pos_embed"), 0))
        x = np.stack(x)
        later = np.triu(np.ones((m, m), dtype=bool), 1)
        used = np.array([[i in rank[:t] for i in range(n)] for t in range(m)])
        for l in range(self.layers):
            p = "decoder.layers.%d" % l
            x = self.norm(x + self.mha(x, x, p + ".self_attn", later)[0], p + ".norm1")
            y, att = self.mha(x, mem, p + ".multihead_attn", used)
            if l == self.layers - 1:
                return att
            x = self.norm(x + y, p + ".norm2")
            x = self.norm(x + self.ff(x, p), p + ".norm3")


def chain(rows, rank):
    return float(np.prod([rows[t][i] for t, i in enumerate(rank)]))


SHAPES = [(heads, layers, split) for heads in (1, 2) for layers in (1, 2) for split in (None, 1, 3)]


def distributions(arch, big, shapes):
    def fn(ctx):
        for (heads, layers, split), seed, n in itertools.product(shapes, range(3 if big else 1), (1, 2, 3, 4)):
            m = net(arch, heads, layers, split, 20 + seed)
            ref = Ref(m, heads)
            for b, mode in itertools.product((1, 2, 3), ("train", "eval")):
                if mode == "eval" and b != 2 and not big:
                    continue
                getattr(m, mode)()
                state, cand = data(b, n, seed)
                st, ca = state.double().numpy(), cand.double().numpy()
                for length in range(1, n + 1):
                    ranks = list(itertools.permutations(range(n), length))
                    probs = [{} for _ in range(b)]

                    def logged(j):
                        # row i of the batch gets ranking j+i: every ranking appears in every row
                        rk = [ranks[(j + 5 * i) % len(ranks)] for i in range(b)]
                        x = inp(state, cand, torch.tensor(rk))
                        out = m(x, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs
                        dist = m(x, mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs
                        same(tuple(out.shape), (b, 1), "shape")
                        for i in range(b):
                            rows = ref.steps(arch, st[i], ca[i], rk[i])
                            close(dist[i].exp()[:, :2], [[0.0, 0.0]] * length, "probability of the special symbols")
                            close(dist[i].exp()[:, 2:], rows.tolist(), "step probabilities", rtol=2e-4, atol=2e-6)
                            close(out[i].exp(), [chain(rows, rk[i])], "probability of the ranking", rtol=5e-4, atol=1e-7)
                            probs[i][rk[i]] = float(out[i].exp())
                            for t in range(length):
                                for u in rk[i][:t]:
                                    expect(float(dist[i][t][u + 2].exp()) < 1e-30, "a ranked candidate can be ranked again")

                    for j in range(len(ranks)):
                        ctx.run((heads, layers, split, seed, n, b, mode, "logged", ranks[j]), logged, j, nontrivial=n > 1)
                        ctx.step(length)
                    ctx.state((heads, layers, split, seed, n, b, length))

                    def total():
                        for i in range(b):
                            same(len(probs[i]), len(ranks), "rankings")
                            close(sum(probs[i].values()), 1.0, "sum of the probabilities of all rankings", rtol=1e-3)
                            ctx.outcome(sorted(round(p, 5) for p in probs[i].values()))

                    if len(probs[0]) == len(ranks):
                        ctx.run((heads, layers, split, seed, n, b, mode, "total", length), total)

                    def ranked(want, greedy):
                        x = inp(state, cand)
                        step = [0]

                        def pick(row, k, repl):
                            i = step[0] % b
                            t = step[0] // b
                            step[0] += 1
                            j = ranks[(want + 5 * i) % len(ranks)][t] + 2
                            expect(row[j] > 0, "the ranking cannot be sampled")
                            return [j]

                        scripted = not greedy
                        try:
                            with ScriptedRandom(multinomial=pick):
                                out = m(x, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=length, greedy=greedy)
                        except RuntimeError as e:
                            if greedy or "unexpected random draw" not in str(e):
                                raise
                            scripted = False
                            torch.manual_seed(want)
                            out = m(x, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=length, greedy=greedy)
                        idx = (out.ranked_tgt_out_idx - 2).tolist()
                        for i in range(b):
                            expect(len(set(idx[i])) == length and all(0 <= c < n for c in idx[i]), "not a ranking: %s", idx[i])
                            rows = ref.steps(arch, st[i], ca[i], tuple(idx[i]))
                            if greedy:
                                for t in range(length):
                                    expect(rows[t][idx[i][t]] >= rows[t].max() - 1e-6, "step %d is not the most probable candidate", t)
                            elif scripted and step[0] == b * length:
                                same(tuple(idx[i]), ranks[(want + 5 * i) % len(ranks)], "sampled ranking")
                            close(out.ranked_per_symbol_probs[i][:, 2:], rows.tolist(), "step probabilities", rtol=2e-4, atol=2e-6)
                            close(out.ranked_per_symbol_probs[i][:, :2], [[0.0, 0.0]] * length, "special symbols")
                            close(out.ranked_per_seq_probs[i], [chain(rows, idx[i])], "probability of the ranking", rtol=5e-4, atol=1e-7)

                    for j in range(len(ranks)):
                        ctx.run((heads, layers, split, seed, n, b, mode, "sample", ranks[j]), ranked, j, False, nontrivial=n > 1)
                    ctx.run((heads, layers, split, seed, n, b, mode, "greedy", length), ranked, 0, True, nontrivial=n > 1)
    return fn


def encoder_scores(ctx):
    for (heads, layers, split), seed, n, b in itertools.product(SHAPES, (0, 1), (1, 2, 3, 4), (1, 2, 3)):
        m = net(ES, heads, layers, split, 20 + seed)
        ref = Ref(m, heads)
        state, cand = data(b, n, seed)
        want = [ref.scores(s, c) for s, c in zip(state.double().numpy(), cand.double().numpy())]
        for length in range(1, n + 1):
            ranks = list(itertools.permutations(range(n), length))

            def scores(j):
                rk = [ranks[(j + 5 * i) % len(ranks)] for i in range(b)]
                out = m(inp(state, cand, torch.tensor(rk)), mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores
                close(out, [[want[i][c] for c in rk[i]] for i in range(b)], "scores in ranking order", rtol=2e-4, atol=2e-5)

            for j in range(len(ranks)):
                ctx.run((heads, layers, split, seed, n, b, "scores", ranks[j]), scores, j, nontrivial=n > 1)
                ctx.step()

            def rank():
                for greedy in (True, False):
                    out = m(inp(state, cand), mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=length, greedy=greedy)
                    idx = (out.ranked_tgt_out_idx - 2).tolist()
                    for i in range(b):
                        top = sorted(want[i], reverse=True)[:length]
                        close([want[i][c] for c in idx[i]], top, "scores of the ranking", rtol=1e-4, atol=1e-5)
                        same(len(set(idx[i])), length, "distinct candidates")
                        same(out.ranked_per_symbol_probs[i].tolist(), [[1.0 if c == j + 2 else 0.0 for c in range(n + 2)] for j in idx[i]], "certain steps")
                    same(out.ranked_per_seq_probs.tolist(), [[1.0]] * b, "certain ranking")
                    ctx.outcome(idx)

            ctx.state((heads, layers, split, seed, n, b, length))
            ctx.run((heads, layers, split, seed, n, b, "rank", length), rank, nontrivial=n > 1)

    def other():
        m = net(FS, 1, 1, None, 3)
        state, cand = data(2, 3)
        raises(lambda: m(inp(state, cand, torch.tensor([[0, 1], [1, 2]])), mode=Seq2SlateMode.ENCODER_SCORE_MODE), "encoder scores of another architecture")
        raises(lambda: m(inp(state, cand), mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE), "log probabilities without a ranking")
    ctx.run("refused", other)


def temperature(ctx):
    for arch in (AR, FS):
        def case():
            state, cand = data(2, 3)
            rk = torch.tensor([[0, 1, 2], [2, 0, 1]])
            outs = [net(arch, 1, 1, None, 20, temperature=t)(inp(state, cand, rk), mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs.tolist() for t in (1.0, 4.0)]
            expect(outs[0] != outs[1], "the decoder temperature has no effect")
        ctx.run(("temperature", arch.value), case)


def utils(ctx):
    # every partial ranking in every row of the batch
    for n, b in itertools.product((1, 2, 3), (1, 2)):
        for length in range(1, n + 2):
            rows = [(1,) + p for p in itertools.permutations(range(2, n + 2), length - 1)]
            for rk in itertools.product(rows, repeat=b):
                def case(heads):
                    idx = torch.tensor(rk)
                    g = torch.arange(b * length * (n + 2), dtype=torch.float32).reshape(b, length, n + 2) / 7
                    out = mask_logits_by_idx(g.clone(), idx)
                    for i, t, c in itertools.product(range(b), range(length), range(n + 2)):
                        hidden = c < 2 or c in rk[i][:t + 1]
                        same(out[i, t, c].item(), float("-inf") if hidden else g[i, t, c].item(), "logit")
                    mem = torch.zeros(b, n, 4)
                    tt, ts = pytorch_decoder_mask(mem, idx, heads)
                    same((tuple(tt.shape), tuple(ts.shape)), ((b * heads, length, length), (b * heads, length, n)), "mask shapes")
                    for i, h, t in itertools.product(range(b), range(heads), range(length)):
                        same(tt[i * heads + h, t].bool().tolist(), [u > t for u in range(length)], "later positions hidden")
                        same(ts[i * heads + h, t].bool().tolist(), [c + 2 in rk[i][:t + 1] for c in range(n)], "used candidates hidden")
                for heads in (1, 2):
                    ctx.step()
                    ctx.run(("masks", n, heads, rk), case, heads)

                def pad():
                    for hole in range(length):
                        idx = torch.tensor([[0 if t >= hole and hole else x for t, x in enumerate(r)] for r in rk])
                        out = subsequent_and_padding_mask(idx)
                        for i, t in itertools.product(range(b), range(length)):
                            same(out[i, t].bool().tolist(), [u <= t and idx[i, u].item() != 0 for u in range(length)], "padding mask")
                ctx.run(("padding", n, rk), pad)
        for length in range(1, n + 1):
            ranks = list(itertools.permutations(range(2, n + 2), length))
            for j in range(len(ranks)):
                def seq():
                    rk = [ranks[(j + i) % len(ranks)] for i in range(b)]
                    p = (1.0 + torch.arange(b * length * (n + 2), dtype=torch.float32).reshape(b, length, n + 2) % 5) / 7
                    w = [[math.prod(p[i, t, c].item() for t, c in enumerate(rk[i]))] for i in range(b)]
                    close(per_symbol_to_per_seq_probs(p, torch.tensor(rk)), w, "sequence probability")
                    close(per_symbol_to_per_seq_log_probs(p.log(), torch.tensor(rk)), [[math.log(x[0])] for x in w], "sequence log probability")
                ctx.state((n, b, length, j))
                ctx.run(("sequence", n, b, length, j), seq)
    for n in (1, 2, 3, 4):
        ctx.run(("subsequent", n), lambda: same(subsequent_mask(n, torch.device("cpu")).tolist(), [[[u <= t for u in range(n)] for t in range(n)]], "mask"))

    def zero():
        out = per_symbol_to_per_seq_probs(torch.zeros(1, 2, 4), torch.tensor([[2, 3]]))
        expect(math.isfinite(float(out.log())), "log of an impossible ranking")
    ctx.run("impossible", zero)

    def cl():
        lin = torch.nn.Linear(2, 2)
        cs = clones(lin, 3)
        expect(len(cs) == 3 and len({id(c.weight) for c in cs} | {id(lin.weight)}) == 4, "clones share weights")
        for c in cs:
            close(c.weight, lin.weight.tolist(), "weights of a clone")
    ctx.run("clones", cl)

    # attention over every mask
    g = np.random.RandomState(3)
    q, k, v = (torch.tensor(g.normal(size=(1, 1, 3, 2)), dtype=torch.float32) for _ in range(3))
    for bits in itertools.product((0, 1), repeat=9):
        mask = [list(bits[3 * i:3 * i + 3]) for i in range(3)]
        if not all(any(r) for r in mask):
            continue

        def att():
            o, p = attention(q, k, v, torch.tensor([[mask]]), 2)
            for t in range(3):
                e = [math.exp(float((q[0, 0, t] * k[0, 0, u]).sum()) / math.sqrt(2)) * mask[t][u] for u in range(3)]
                close(p[0, 0, t], [x / sum(e) for x in e], "attention weights")
                close(o[0, 0, t], [sum(e[u] / sum(e) * float(v[0, 0, u, d]) for u in range(3)) for d in range(2)], "attention")
        ctx.run(("attention", bits), att)

    for probs in itertools.product((0.1, 0.3, 0.6), repeat=3):
        if len(set(probs)) < 3:
            continue

        def gen():
            p = torch.tensor([[[0.5, 0.2, 0.3], list(probs)], [[0.2, 0.5, 0.3], list(probs[::-1])]])
            c, out = Generator()(p, True)
            same(c.tolist(), [[probs.index(0.6)], [probs[::-1].index(0.6)]], "most probable of the last step")
            close(out, [list(probs), list(probs[::-1])], "probabilities of the last step")
        ctx.run(("generator", probs), gen)
    for layers, b in itertools.product((1, 2, 3), (1, 2)):
        def base():
            torch.manual_seed(1)
            net_ = BaselineNet(S, 3, layers)
            state, cand = data(b, 2)
            out = net_(inp(state, cand))
            lins = [x for x in net_.mlp if hasattr(x, "weight")]
            same(len(lins), layers + 1, "layers")
            x = state.double().numpy()
            for i, l in enumerate(lins):
                x = x @ l.weight.detach().double().numpy().T + l.bias.detach().double().numpy()
                if i + 1 < len(lins):
                    x = np.maximum(x, 0)
            close(out, x.tolist(), "baseline")
        ctx.run(("baseline", layers, b), base)


def groups(tier):
    big = tier == "thorough"
    return [("autoregressive-%d" % k, distributions(AR, big, SHAPES[k::4])) for k in range(4)] + [("frechet-%d" % k, distributions(FS, big, SHAPES[k::4])) for k in range(4)] + [("encoder-score", encoder_scores), ("temperature", temperature), ("utils", utils)]

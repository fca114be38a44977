"""A controlled random source: every random tensor operation of torch draws from a script."""
import torch
from torch.utils._python_dispatch import TorchDispatchMode


class ScriptedRandom(TorchDispatchMode):
    """normal(n) / uniform(n) return n standard draws; multinomial/bernoulli/perm use choose(n)."""

    def __init__(self, normal=None, uniform=None, multinomial=None, randint=None, perm=None, exponential=None):
        super().__init__()
        self._normal, self._uniform, self._multinomial = normal, uniform, multinomial
        self._randint, self._perm, self._exponential = randint, perm, exponential
        self.calls = []

    def _fill(self, like, fn, kind):
        n = like.numel()
        if fn is None:
            raise RuntimeError("unexpected random draw: " + kind)
        v = list(fn(n))
        assert len(v) == n
        self.calls.append((kind, n))
        return torch.tensor(v, dtype=torch.float64).reshape(like.shape).to(like.dtype)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        clean = {k: v for k, v in kwargs.items() if k != "generator"}
        if name in ("randn", "randn_like"):
            like = (torch.empty(*[args[0]], dtype=kwargs.get("dtype") or torch.get_default_dtype()) if name == "randn" else torch.empty_like(args[0]))
            return self._fill(like, self._normal, "normal")
        if name in ("rand", "rand_like"):
            like = (torch.empty(*[args[0]], dtype=kwargs.get("dtype") or torch.get_default_dtype()) if name == "rand" else torch.empty_like(args[0]))
            return self._fill(like, self._uniform, "uniform")
        if name == "normal_":
            mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
            std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
            return args[0].copy_(self._fill(args[0], self._normal, "normal") * std + mean)
        if name == "normal" or name == "normal_functional":
            a = list(args)
            over = func._overloadname
            if over == "float_float":
                like = torch.empty(a[2])
            elif torch.is_tensor(a[0]) and torch.is_tensor(a[1] if len(a) > 1 else None):
                like = a[0] + a[1]
            else:
                like = a[0] if torch.is_tensor(a[0]) else a[1]
            mean, std = a[0], a[1] if len(a) > 1 else kwargs.get("std", 1.0)
            return self._fill(torch.empty_like(like), self._normal, "normal") * std + mean
        if name == "uniform_":
            lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
            hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
            return args[0].copy_(self._fill(args[0], self._uniform, "uniform") * (hi - lo) + lo)
        if name == "exponential_":
            lam = args[1] if len(args) > 1 else kwargs.get("lambd", 1.0)
            return args[0].copy_(self._fill(args[0], self._exponential, "exponential") / lam)
        if name == "multinomial":
            p, n = args[0], args[1] if len(args) > 1 else kwargs["num_samples"]
            repl = args[2] if len(args) > 2 else kwargs.get("replacement", False)
            if self._multinomial is None:
                raise RuntimeError("unexpected random draw: multinomial")
            self.calls.append(("multinomial", n))
            rows = p.reshape(-1, p.shape[-1]).tolist()
            out = torch.tensor([self._multinomial(r, n, repl) for r in rows], dtype=torch.int64)
            return out.reshape(tuple(p.shape[:-1]) + (n,))
        if name in ("bernoulli", "bernoulli_"):
            p = args[0] if name == "bernoulli" and len(args) < 2 else torch.full_like(args[0], float(args[1]) if len(args) > 1 else 0.5)
            r = (self._fill(torch.empty_like(p), self._uniform, "uniform") < p).to(p.dtype)
            return r if name == "bernoulli" else args[0].copy_(r)
        if name == "randperm":
            if self._perm is None:
                raise RuntimeError("unexpected random draw: randperm")
            self.calls.append(("perm", args[0]))
            return torch.tensor(self._perm(args[0]), dtype=torch.int64)
        if name in ("randint", "randint_like", "random_"):
            over = func._overloadname
            if self._randint is None:
                raise RuntimeError("unexpected random draw: randint")
            if name == "randint":
                lo, hi, size = (args[0], args[1], args[2]) if over.startswith("low") else (0, args[0], args[1])
                like = torch.empty(size, dtype=kwargs.get("dtype") or torch.int64)
                self.calls.append(("randint", like.numel()))
                return torch.tensor([lo + self._randint(hi - lo) for _ in range(like.numel())], dtype=like.dtype).reshape(like.shape)
        return func(*args, **kwargs)

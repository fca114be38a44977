"""Ways to own the usual random sources."""
import contextlib
import random
from unittest import mock

import numpy as np
import torch


@contextlib.contextmanager
def randint_script(choose):
    """torch.randint(high, size) / torch.randint(low, high, size): every drawn integer is chosen by `choose(n)`."""
    used = []

    def fake(*a, **kw):
        a = list(a)
        size = kw.pop("size", None)
        if size is None:
            size = a.pop()
        low = kw.pop("low", None)
        high = kw.pop("high", None)
        if high is None:
            high = a.pop()
        if low is None:
            low = a.pop() if a else 0
        n = 1
        for s in size:
            n *= s
        vals = [low + choose(int(high) - int(low)) for _ in range(n)]
        used.append(n)
        return torch.tensor(vals, dtype=torch.int64).reshape(tuple(size))

    with mock.patch.object(torch, "randint", fake):
        yield used


def poison_uninitialised():
    """Give uninitialised memory its worst allowed content (every bit set: NaN, -1, 255, True), so that code which
    lets it reach a result does so in every run."""
    real_np, real_torch = np.empty, torch.empty
    if getattr(real_np, "_poisoned", False):
        return

    def np_empty(*a, **kw):
        arr = real_np(*a, **kw)
        if arr.dtype == np.bool_:
            arr.fill(True)
        elif arr.dtype.kind == "f":
            arr.fill(np.nan)
        elif arr.dtype.kind == "i":
            arr.fill(-1)
        elif arr.dtype.kind == "u":
            arr.fill(np.iinfo(arr.dtype).max)
        return arr

    def torch_empty(*a, **kw):
        t = real_torch(*a, **kw)
        if isinstance(t, torch.Tensor):
            with torch.no_grad():
                if t.dtype == torch.bool:
                    t.fill_(True)
                elif t.is_floating_point():
                    t.fill_(float("nan"))
                elif t.dtype in (torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64):
                    t.fill_(torch.iinfo(t.dtype).max)
        return t

    np_empty._poisoned = True
    np.empty, torch.empty = np_empty, torch_empty

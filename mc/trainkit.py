"""Tabular networks, batches and a step-by-step driver for the trainers."""
import torch
import torch.nn as nn

import reagent.types as rlt
from reagent.models.base import ModelBase
from reagent.optimizer import Optimizer__Union
from reagent.optimizer.union import classes as OPT


class Spy:
    """reporter that records"""

    def __init__(self):
        self.logs = []
        self.flushed = []
        self.lightning = []

    def log(self, **kw):
        self.logs.append({k: (v.detach().clone() if torch.is_tensor(v) else v) for k, v in kw.items() if v is not None})

    def flush(self, epoch):
        self.flushed.append(epoch)

    def last(self, key):
        for d in reversed(self.logs):
            if key in d:
                return d[key]
        raise KeyError(key)


class FakeTrainer:
    log_every_n_steps = 1
    should_stop = False


class Tab(ModelBase):
    """state one-hot -> row of a table (reshaped)"""

    def __init__(self, w, shape=None):
        super().__init__()
        self.w = nn.Parameter(torch.tensor(w, dtype=torch.float32))
        self.shape = shape

    def forward(self, state):
        x = state.float_features if hasattr(state, "float_features") else state
        y = x @ self.w
        return y if self.shape is None else y.reshape(-1, *self.shape)


class TabSA(ModelBase):
    """(state one-hot, action one-hot) -> entry of a table"""

    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(torch.tensor(w, dtype=torch.float32))

    def forward(self, state, action):
        return ((state.float_features @ self.w) * action.float_features).sum(1, keepdim=True)


def onehot(idx, n, none=None):
    """list of indices -> rows; an index equal to `n` (or None) gives a zero row"""
    return torch.tensor([[1.0 if (i is not None and i == j) else 0.0 for j in range(n)] for i in idx])


def fd(x):
    return rlt.FeatureData(float_features=x)


def col(x, dtype=torch.float32):
    return torch.tensor([[v] for v in x], dtype=dtype)


def sgd(lr):
    return Optimizer__Union(SGD=OPT["SGD"](lr=lr))


def one_step(tr, batch, batch_idx=0, opts=None):
    """one training step with the trainer's own optimizers; returns the losses, in order"""
    opts = opts or tr.configure_optimizers()
    losses = []
    for i, opt in enumerate(opts):
        if len(opts) > 1:
            tr.toggle_optimizer(opt, i)
        got = []

        def closure():
            loss = tr.training_step(batch, batch_idx, i)
            got.append(None if loss is None else float(loss.detach().sum()))
            if loss is None:
                return None
            (loss if loss.dim() == 0 else loss.sum()).backward()
            return loss.detach()

        opt.step(closure)
        losses += got or ["not called"]
        opt.zero_grad()
    return losses


def attach(tr, spy=None):
    spy = spy or Spy()
    tr.set_reporter(spy)
    tr.trainer = FakeTrainer()
    tr.log = lambda name, value, **kw: spy.lightning.append((name, float(value)))
    return spy


def snapshot(batch):
    """all tensors of a batch, by path"""
    out = {}

    def walk(o, path):
        if isinstance(o, torch.Tensor):
            out[path] = o.clone()
        elif isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                walk(v, path + "[%d]" % i)
        elif isinstance(o, dict):
            for k, v in o.items():
                walk(v, path + "." + str(k))
        elif hasattr(o, "__dataclass_fields__"):
            for k in o.__dataclass_fields__:
                walk(getattr(o, k), path + "." + k)

    walk(batch, "batch")
    return out


def unchanged(before, batch):
    from mc.core import Mismatch

    after = snapshot(batch)
    for k, v in before.items():
        a = after.get(k)
        if a is None or a.shape != v.shape or not torch.equal(torch.nan_to_num(a), torch.nan_to_num(v)):
            raise Mismatch("training modified %s: %s -> %s" % (k, v.tolist(), None if a is None else a.tolist()))

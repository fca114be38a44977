SEEDS = []
S = lambda **k: SEEDS.append(k)

S(id="r01-stale-stack", property="R01",
  edits=[("reagent/replay_memory/circular_replay_buffer.py",
          "            idx = (self.cursor() + i) % self._replay_capacity\n            self.set_index_valid_status(idx=idx, is_valid=False)",
          "            idx = (cur_idx + i) % self._replay_capacity\n            self.set_index_valid_status(idx=idx, is_valid=False)")],
  needs="a frame-stacking buffer that has wrapped around, with the write position inside an old episode",
  breaks="an element whose frame stack reaches over the write position stays sampleable, so frames of different episodes are mixed",
  demo='''
import numpy as np, torch
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
b = ReplayBuffer(stack_size=3, replay_capacity=8, batch_size=1, update_horizon=1, gamma=0.9)
n = 0
for i in range(30):
    b.add(observation=np.array([float(i + 1)]), action=0, reward=float(i), terminal=(i % 6 == 5))
    if b.size:
        t = b.sample_all_valid_transitions()
        for st in t.state.reshape(len(t.reward), -1).tolist():
            k = int(max(st)) - 1
            first = k - k % 6
            want = [float(j + 1) if j >= first else 0.0 for j in (k - 2, k - 1, k)]
            assert st == want, (i, st, want)
            n += 1
assert n > 50
''')

S(id="r03-last-stratum", property="R03",
  edits=[("reagent/replay_memory/prioritized_replay_buffer.py",
          "        for i in range(len(indices)):\n            if not self.is_valid_transition(indices[i]):",
          "        for i in range(len(indices)):\n            if i + 1 < len(indices) and not self.is_valid_transition(indices[i]):")],
  needs="an element that is not sampleable (e.g. the newest one) drawn in the last stratum of a batch",
  breaks="the last index of a batch is not checked, so incomplete transitions are returned",
  demo='''
import numpy as np, random
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
b = PrioritizedReplayBuffer(stack_size=1, replay_capacity=8, batch_size=2, update_horizon=1, gamma=0.9)
for i in range(7):
    b.add(observation=np.zeros(1), action=0, reward=float(i), terminal=False, priority=1.0)
random.seed(0)
for _ in range(300):
    for i in b.sample_index_batch(4).tolist():
        assert b.is_valid_transition(i), i
''')

S(id="c01-interval-phase", property="C01",
  edits=[("reagent/core/observers.py", "        self.iteration = 0\n        if self.intermediate_values:", "        if self.intermediate_values:\n            self.iteration = 0\n            self.iteration += len(self.intermediate_values) % (self.interval or 1)")],
  needs="an interval observer whose epoch ends inside an interval",
  breaks="the interval after an epoch end is shorter than configured, so it aggregates fewer values",
  demo='''
import torch
from reagent.core.aggregators import RecentValuesAggregator
from reagent.core.observers import IntervalAggregatingObserver
class A(RecentValuesAggregator):
    def __init__(self, key):
        super().__init__(key); self.calls = []
    def aggregate(self, values):
        self.calls.append(values.tolist())
a = A("x")
o = IntervalAggregatingObserver(3, a)
for i in range(5):
    o.update("x", torch.tensor([float(i)]))
o.update("epoch_end", 0)
for i in range(5, 9):
    o.update("x", torch.tensor([float(i)]))
assert a.calls == [[0., 1., 2.], [3., 4.], [5., 6., 7.]], a.calls
''')

S(id="t04-shared-parameter", property="T04",
  edits=[("reagent/optimizer/soft_update.py", "                    continue\n                new_param", "                    break\n                new_param")],
  needs="a target network that shares one of its parameters with the trained network, followed by parameters it does not share",
  breaks="the parameters after the shared one are never soft-updated",
  demo='''
import torch
from reagent.optimizer.soft_update import SoftUpdate
P = torch.nn.Parameter
s = [P(torch.ones(2)), P(torch.ones(3))]
t = [s[0], P(torch.zeros(3))]
try:
    o = SoftUpdate(t, s, tau=0.5)
except ValueError:
    o = None
o.step()
assert t[1].tolist() == [0.5] * 3, t[1]
''')

S(id="t01-c51-lowest-atom", property="T01",
  edits=[("reagent/training/c51_trainer.py", "up[(lo < (self.num_atoms - 1)) * (lo == up)] += 1", "up[(lo > 0) * (lo < (self.num_atoms - 1)) * (lo == up)] += 1")],
  needs="a target value at or below the lower end of the support",
  breaks="the projected target distribution loses the mass of the lowest atom, so such transitions teach nothing",
  demo='''
import torch
import reagent.types as rlt
from reagent.core.configuration import make_config_class
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.parameters import RLParameters
from reagent.training.c51_trainer import C51Trainer
class Net(torch.nn.Module):
    def __init__(self, n):
        super().__init__(); self.w = torch.nn.Parameter(torch.zeros(1, 2, n))
    def forward(self, s):
        return self.w.expand(s.float_features.shape[0], -1, -1)
class T:
    log_every_n_steps = 1000
for r in (-1.0, -0.5, 0.0, 0.5, 1.0):
    mk = lambda: CategoricalDQN(Net(3), qmin=-1.0, qmax=1.0, num_atoms=3)
    tr = C51Trainer(mk(), mk(), actions=["a", "b"], rl=RLParameters(gamma=0.9), num_atoms=3, qmin=-1.0, qmax=1.0)
    tr.trainer = T(); tr.log = lambda *a, **k: None
    f = lambda x: torch.tensor(x)
    fd = rlt.FeatureData(float_features=torch.zeros(1, 1))
    b = rlt.DiscreteDqnInput(state=fd, next_state=fd, reward=f([[r]]), time_diff=f([[1.0]]), step=None, not_terminal=f([[0.0]]), action=f([[1.0, 0.0]]), next_action=f([[1.0, 0.0]]),
        possible_actions_mask=f([[1.0, 1.0]]), possible_next_actions_mask=f([[1.0, 1.0]]), extras=rlt.ExtraData(action_probability=f([[1.0]])))
    tr.set_reporter(type("R", (), {"log": lambda self, **k: None})())
    loss = next(tr.train_step_gen(b, 1))
    loss.backward()
    g = tr.q_network.distributional_network.w.grad[0, 0]
    p = 1 / 3 - g  # gradient of cross entropy: softmax - target
    i = (r + 1.0)
    want = torch.zeros(3)
    want[int(i)] += 1 - (i - int(i))
    if i > int(i):
        want[int(i) + 1] += i - int(i)
    assert torch.allclose(p, want, atol=1e-5), (r, p, want)
''')

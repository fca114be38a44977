SEEDS = []
S = lambda **k: SEEDS.append(k)

S(id="t06-ppo-remainder", property="T06",
  edits=[("reagent/training/ppo_trainer.py",
          "for i in range(0, len(self.traj_buffer), self.ppo_batch_size):",
          "for i in range(\n                0,\n                max(len(self.traj_buffer) - self.ppo_batch_size, 0) + 1,\n                self.ppo_batch_size,\n            ):")],
  needs="an update_freq that is not a multiple of ppo_batch_size",
  breaks="the trajectories of the last, smaller minibatch of an epoch are never trained on",
  demo='''
import torch, reagent.types as rlt
from reagent.gym.policies.policy import Policy
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
from reagent.training.ppo_trainer import PPOTrainer
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(5, 2))
    def forward(self, state, mask=None):
        return state.float_features @ self.w
net = Net()
t = PPOTrainer(Policy(scorer=net, sampler=SoftmaxActionSampler()), gamma=1.0, update_freq=5, update_epochs=1, ppo_batch_size=2, normalize=False)
x = torch.eye(5)
for i in range(5):
    t.train(rlt.PolicyGradientInput(
        state=rlt.FeatureData(x[i:i + 1]), action=torch.tensor([[1, 0]]), reward=torch.tensor([1.0]),
        log_prob=torch.tensor([-0.6931]), possible_actions_mask=torch.ones(1, 2)))
moved = (net.w.abs().sum(1) > 0).tolist()
assert all(moved), moved
''')

S(id="t03-td3-target-range", property="T03",
  edits=[("reagent/training/td3_trainer.py",
          "            next_actor = (next_actor + noise.clamp(*self.noise_clip_range)).clamp(\n                *CONTINUOUS_TRAINING_ACTION_RANGE\n            )\n",
          "            next_actor = next_actor.clamp(\n                *CONTINUOUS_TRAINING_ACTION_RANGE\n            ) + noise.clamp(*self.noise_clip_range)\n")],
  needs="a target action near the end of the action range and noise that pushes it out",
  breaks="the target critics are asked for the value of actions outside the action range",
  demo='''
import torch, reagent.types as rlt
from types import SimpleNamespace
from reagent.parameters import RLParameters
from reagent.training.td3_trainer import TD3Trainer
class Actor(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([0.98]))
    def forward(self, s):
        return rlt.ActorOutput(action=self.w.expand(s.float_features.shape[0], 1), log_prob=None)
seen = []
class Critic(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([1.0]))
    def forward(self, s, a):
        seen.append(a.float_features.detach().clone())
        return a.float_features * self.w
t = TD3Trainer(Actor(), Critic(), rl=RLParameters(), noise_variance=1.0, noise_clip=0.5)
t.trainer = SimpleNamespace(log_every_n_steps=1000)
t.log = lambda *a, **k: None
torch.manual_seed(3)
n = 64
f = rlt.FeatureData(torch.zeros(n, 2))
b = rlt.PolicyNetworkInput(state=f, next_state=f, action=rlt.FeatureData(torch.zeros(n, 1)), next_action=rlt.FeatureData(torch.zeros(n, 1)),
    reward=torch.zeros(n, 1), time_diff=torch.ones(n, 1), step=None, not_terminal=torch.ones(n, 1), extras=rlt.ExtraData())
g = t.train_step_gen(b, 1)
next(g)
m = max(float(a.abs().max()) for a in seen)
assert m <= 1.0, m
''')

S(id="t03-crr-per-action-min", property="T03",
  edits=[("reagent/training/discrete_crr_trainer.py",
          "        next_V = (next_q_values * next_dist.probs).sum(dim=1, keepdim=True)\n        if self.q2_network is not None:\n            next_q2_values = self.q2_network_target(next_state)\n            next_V2 = (next_q2_values * next_dist.probs).sum(dim=1, keepdim=True)\n            next_V = torch.min(next_V, next_V2)\n",
          "        if self.q2_network is not None:\n            next_q_values = torch.min(\n                next_q_values, self.q2_network_target(next_state)\n            )\n        next_V = (next_q_values * next_dist.probs).sum(dim=1, keepdim=True)\n")],
  needs="two critics that disagree about which action is better",
  breaks="the critics' target is below the smaller of the two expected target values",
  demo='''
import torch, reagent.types as rlt
from types import SimpleNamespace
from reagent.parameters import RLParameters, EvaluationParameters
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
class Q(torch.nn.Module):
    def __init__(self, v):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([v]))
    def forward(self, s):
        return self.w.expand(s.float_features.shape[0], 2)
class A(Q):
    def forward(self, s):
        return rlt.ActorOutput(action=self.w.expand(s.float_features.shape[0], 2))
t = DiscreteCRRTrainer(A([0.0, 0.0]), Q([1.0, 0.0]), None, Q([0.0, 1.0]), rl=RLParameters(gamma=1.0),
    evaluation=EvaluationParameters(calc_cpe_in_training=False), actions=["a", "b"])
t.trainer = SimpleNamespace(log_every_n_steps=1000)
t.log = lambda *a, **k: None
f = rlt.FeatureData(torch.zeros(1, 2))
b = rlt.DiscreteDqnInput(state=f, next_state=f, reward=torch.zeros(1, 1), time_diff=torch.ones(1, 1), step=None, not_terminal=torch.ones(1, 1),
    action=torch.tensor([[1.0, 0.0]]), next_action=torch.tensor([[1.0, 0.0]]), possible_actions_mask=torch.ones(1, 2),
    possible_next_actions_mask=torch.ones(1, 2), extras=rlt.ExtraData(action_probability=torch.ones(1, 1)))
loss = next(t.train_step_gen(b, 1)).item()
assert abs(loss - 0.25) < 1e-6, loss
''')

S(id="t09-cem-variance-bound", property="T09",
  edits=[("reagent/models/cem_planner.py",
          "        return np.minimum(np.minimum((lb_dist / 2) ** 2, (ub_dist / 2) ** 2), var)",
          "        return np.minimum(np.minimum(lb_dist, ub_dist) ** 2 / 2, var)")],
  needs="a mean close to a bound and a variance larger than half the squared distance to it",
  breaks="sampled solutions lie outside the action bounds",
  demo='''
import numpy as np, torch
import reagent.training
from reagent.models.cem_planner import CEMPlannerNetwork
p = CEMPlannerNetwork([], 1, 50, 1, 2, 3, 1, 2, False, False, 1.0, action_upper_bounds=np.array([1.0, 2.0]), action_lower_bounds=np.array([-1.0, 0.0]))
for mean in (np.array([0.9, 1.9] * 3), np.array([-0.8, 0.2] * 3), np.array([0.0, 1.0] * 3)):
    v = p.constrained_variance(mean, np.full(6, 9.0))
    r = 2 * np.sqrt(v)
    assert (mean + r <= np.array([1.0, 2.0] * 3) + 1e-9).all() and (mean - r >= np.array([-1.0, 0.0] * 3) - 1e-9).all(), (mean, v)
''')

S(id="t10-flat-rewards", property="T10",
  edits=[("reagent/training/gradient_free/evolution_pool.py",
          "            self.optimizer.step()\n\n        self.populate_children(next_iteration)",
          "            self.optimizer.step()\n            self.populate_children(next_iteration)")],
  needs="an iteration in which every child earns the same reward",
  breaks="the children stay the old ones, so the pool no longer perturbs by the mutations of its iteration",
  demo='''
import torch
from reagent.parameters import EvolutionParameters
from reagent.training.gradient_free.evolution_pool import OneMaxEvolutionPool
p = EvolutionParameters(population_size=3, mutation_power=0.1, learning_rate=0.01)
a = OneMaxEvolutionPool(7, p, {"data": [4]})
a.apply_global_reward(torch.ones(3), 1)
b = OneMaxEvolutionPool(7, p, {"data": [4]})
b.populate_children(1)
for x, y in zip(a.population_tensors, b.population_tensors):
    assert torch.equal(x["data"], y["data"])
''')

S(id="e02-wdr-subsets", property="E02",
  edits=[("reagent/evaluation/weighted_sequential_doubly_robust_estimator.py",
          "            interval = num_trajectories / num_subsets\n",
          "            interval = num_trajectories // num_subsets\n")],
  needs="a number of trajectories that is no multiple of the number of subsets",
  breaks="the last trajectories are ignored by the confidence bounds, so the mixture of the estimates is wrong",
  demo='''
import numpy as np
from reagent.evaluation.weighted_sequential_doubly_robust_estimator import WeightedSequentialDoublyRobustEstimator as W
import torch
from types import SimpleNamespace
seen = {}
class E(W):
    def compute_weighted_doubly_robust_point_estimate(self, j_steps, num_j_steps, j_step_returns, infinite_step_returns, j_step_return_trajectories):
        seen.setdefault("x", sum(infinite_step_returns) )
        return 0.0
n = 5
edp = SimpleNamespace(
    mdp_id=torch.arange(n).reshape(-1, 1), action_mask=torch.tensor([[1.0, 0.0]] * n),
    logged_rewards=torch.tensor([[0.0]] * (n - 1) + [[1000.0]]), logged_propensities=torch.ones(n, 1),
    model_propensities=torch.tensor([[1.0, 0.0]] * n), model_values=torch.zeros(n, 2))
np.random.seed(0)
E(1.0).estimate(edp, num_j_steps=2, whether_self_normalize_importance_weights=True)
# two subsets: {0, 1} earns 0 and {2, 3, 4} earns 1000 / 3
assert abs(seen["x"] - 1000 / 3) < 1e-3, seen
''')

S(id="c01-writer-left-behind", property="C01",
  edits=[("reagent/tensorboardX.py",
          "    try:\n        yield\n    finally:\n        if writer is not None:\n            SummaryWriterContext.pop()",
          "    yield\n    if writer is not None:\n        SummaryWriterContext.pop()")],
  needs="an exception inside a summary writer context that is handled outside it",
  breaks="the writer of the failed block stays the active one, so later summaries go to the wrong writer",
  demo='''
from unittest.mock import MagicMock
from torch.utils.tensorboard import SummaryWriter
from reagent.tensorboardX import SummaryWriterContext, summary_writer_context
outer, inner = MagicMock(spec=SummaryWriter), MagicMock(spec=SummaryWriter)
with summary_writer_context(outer):
    try:
        with summary_writer_context(inner):
            raise KeyError("x")
    except KeyError:
        pass
    SummaryWriterContext.add_scalar("k", 1.0)
assert outer.add_scalar.call_count == 1 and inner.add_scalar.call_count == 0
''')

S(id="g03-training-phase", property="G03",
  edits=[("reagent/gym/datasets/replay_buffer_dataset.py",
          "                    global_num_steps % self._training_frequency == 0",
          "                    num_steps % self._training_frequency == 0")],
  needs="a training frequency above one and an episode whose length is no multiple of it",
  breaks="training happens more often than configured",
  demo='''
import numpy as np, torch
from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset
class Env:
    possible_actions_mask = None
    def reset(self):
        self.n = 0
        return np.zeros(1)
    def step(self, a):
        self.n += 1
        return np.zeros(1), 1.0, self.n == 3, {}
class Agent:
    def act(self, obs, m):
        return 0, 0.0
class RB:
    size = 10
    def sample_transition_batch(self, batch_size):
        return "b"
ds = ReplayBufferDataset(env=Env(), agent=Agent(), replay_buffer=RB(), batch_size=2, training_frequency=2, num_episodes=4,
    trainer_preprocessor=None, replay_buffer_inserter=lambda rb, t: None)
n = len(list(ds))
assert n == 6, n
''')

S(id="g02-frechet-padding", property="G02",
  edits=[("reagent/samplers/frechet.py",
          "                    (log_scores.shape[0], 1), -math.inf, device=log_scores.device",
          "                    (log_scores.shape[0], 1),\n                    log_scores.min().item() - 10.0,\n                    device=log_scores.device")],
  needs="a slate padded to the number of items, scored with a low shape",
  breaks="padding takes probability mass, so slate probabilities do not sum to one",
  demo='''
import torch, itertools
from reagent.samplers.frechet import FrechetSort
s = torch.tensor([[3.0, 1.0, 2.0]])
f = FrechetSort(shape=0.25, topk=2)
tot = sum(float(torch.exp(f.log_prob(s, torch.tensor([list(p) + [3]])))) for p in itertools.permutations(range(2)))
want = sum(float(torch.exp(FrechetSort(shape=0.25, topk=2).log_prob(s[:, :2], torch.tensor([list(p)])))) for p in itertools.permutations(range(2)))
assert abs(want - 1) < 1e-5 and True
tot = 0
for p in itertools.permutations(range(3), 2):
    rest = [i for i in range(3) if i not in p]
    tot += float(torch.exp(f.log_prob(s, torch.tensor([list(p) + rest]))))
assert abs(tot - 1) < 1e-5, tot
a = float(FrechetSort(shape=0.25, topk=2, equiv_len=2).log_prob(s, torch.tensor([[0, 1, 3]])))
import math
w = [v ** 0.25 for v in (3.0, 1.0)]
assert abs(a - math.log(w[0] / (w[0] + w[1]))) < 1e-5, a
''')

S(id="g01-softmax-entropy", property="G01",
  edits=[("reagent/gym/policies/samplers/discrete_sampler.py",
          "        m = self._get_distribution(scores)\n        # pyre-fixme[16]: `Tensor` has no attribute `argmax`.\n        return m.log_prob(action.argmax(dim=1))",
          "        # pyre-fixme[16]: `Tensor` has no attribute `argmax`.\n        raw_action = action.argmax(dim=1, keepdim=True)\n        return F.log_softmax(scores, dim=1).gather(1, raw_action).squeeze(1)")],
  needs="a softmax sampler with a temperature other than one",
  breaks="evaluating a logged action gives another log-probability than drawing it",
  demo='''
import torch
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
for temp in (1.0, 0.3, 2.5):
    s = SoftmaxActionSampler(temperature=temp)
    x = torch.tensor([[1.0, 2.0, 0.5], [0.0, -1.0, 3.0]])
    o = s.sample_action(x)
    assert torch.allclose(o.log_prob, s.log_prob(x, o.action), atol=1e-6), temp
''')

S(id="p01-quantile-padding", property="P01",
  edits=[("reagent/preprocessing/preprocessor.py",
          "            quantile_boundaries[0, i, :] = p.quantiles[-1]\n", "")],
  needs="two quantile features with different numbers of quantiles, the shorter one with positive boundaries",
  breaks="the output of a quantile feature depends on the other features",
  demo='''
import torch
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.preprocessing.normalization import NormalizationParameters
q = lambda v: NormalizationParameters("QUANTILE", None, None, 0, 1, None, v, None, None)
a, b = q([1.0, 2.0, 3.0, 4.0]), q([0.0, 1.0, 2.0, 3.0, 4.0, 5.0])
x = torch.tensor([[1.5], [2.0], [2.7], [3.9]])
one = Preprocessor({1: a}, device=torch.device("cpu"))(x, torch.ones_like(x))
y = torch.cat([x, x], dim=1)
two = Preprocessor({1: a, 2: b}, device=torch.device("cpu"))(y, torch.ones_like(y))
assert torch.allclose(one[:, 0], two[:, 0], atol=1e-6), (one, two)
''')

S(id="e01-seq-gap", property="E01",
  edits=[("reagent/evaluation/evaluation_data_page.py",
          "                gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])",
          "                gamma, 1.0")],
  needs="an evaluation page in which steps of an episode are missing",
  breaks="later rewards are discounted by the number of rows instead of the number of steps",
  demo='''
import torch
from reagent.evaluation.evaluation_data_page import EvaluationDataPage as E
r = torch.tensor([[1.0], [2.0], [4.0], [8.0]])
v = E.compute_values_for_mdps(r, torch.tensor([[1], [1], [1], [2]]), torch.tensor([[0], [3], [4], [0]]), 0.5)
assert torch.allclose(v.flatten(), torch.tensor([1.5, 4.0, 4.0, 8.0])), v
''')

S(id="p03-next-terminal", property="P03",
  edits=[("reagent/preprocessing/sparse_to_dense.py",
          "            presence = values != missing_value\n",
          "            presence = (values - missing_value).abs() > 1e-6 * abs(missing_value)\n")],
  needs="a value whose distance to the missing-value marker is small relative to it",
  breaks="present values near the marker are reported as missing",
  demo='''
import torch
from reagent.preprocessing.normalization import MISSING_VALUE
from reagent.preprocessing.sparse_to_dense import PythonSparseToDenseProcessor
v = MISSING_VALUE
x = float(torch.nextafter(torch.tensor(v, dtype=torch.float), torch.tensor(float("inf"))))
p = PythonSparseToDenseProcessor([1, 2])
vals, pres = p([{1: x}, {1: 1.0, 2: 2.0}])
assert pres.tolist() == [[True, False], [True, True]], pres
''')

S(id="g04-dqn-next-mask", property="G04",
  edits=[("reagent/gym/preprocessors/trainer_preprocessor.py",
          "            possible_next_actions_mask = batch.next_possible_actions_mask.float()",
          "            possible_next_actions_mask = batch.possible_actions_mask.float()")],
  needs="possible actions that differ between a state and its successor",
  breaks="the actions possible in the next state are those of the state",
  demo='''
import torch
from collections import namedtuple
N = lambda **k: namedtuple('B', k)(**k)
from reagent.gym.preprocessors.trainer_preprocessor import DiscreteDqnInputMaker
m = DiscreteDqnInputMaker(num_actions=2)
b = N(state=torch.zeros(2, 3), next_state=torch.zeros(2, 3), action=torch.tensor([[0], [1]]), next_action=torch.tensor([[1], [0]]),
      reward=torch.zeros(2, 1), terminal=torch.zeros(2, 1), mdp_id=torch.zeros(2, 1), sequence_number=torch.zeros(2, 1), log_prob=torch.zeros(2, 1),
      possible_actions_mask=torch.tensor([[1, 1], [1, 0]]), next_possible_actions_mask=torch.tensor([[0, 1], [1, 1]]))
o = m(b)
assert o.possible_next_actions_mask.tolist() == [[0, 1], [1, 1]], o.possible_next_actions_mask
assert o.possible_actions_mask.tolist() == [[1, 1], [1, 0]]
''')

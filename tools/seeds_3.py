SEEDS = []


def S(**kw):
    SEEDS.append(kw)


S(id="t01-double-q-mask", property="T01",
  edits=[("reagent/training/dqn_trainer_base.py",
          "        q_values = q_values + impossible_action_penalty\n",
          "")],
  needs="double Q-learning where the online network prefers an action that isn't possible in the next state",
  breaks="the impossible action is selected and its penalty becomes the value of the next state",
  demo='''
import torch
from reagent.training.dqn_trainer_base import DQNTrainerMixin
m = DQNTrainerMixin()
m.double_q_learning = True
v, i = m.get_max_q_values_with_target(torch.tensor([[3.0, 1.0]]), torch.tensor([[5.0, 2.0]]), torch.tensor([[0.0, 1.0]]))
assert v.item() == 2.0 and i.item() == 1, (v, i)
''')

S(id="t02-parametric-step", property="T02",
  edits=[("reagent/training/parametric_dqn_trainer.py",
          "discount_tensor = torch.pow(self.gamma, training_batch.step.float())",
          "discount_tensor = torch.pow(self.gamma, training_batch.time_diff.float())")],
  needs="multi-step parametric DQN on a transition whose time difference isn't its number of steps",
  breaks="n-step targets are discounted by the time difference",
  demo='''
import torch
from reagent import types as rlt
from reagent.parameters import RLParameters
from reagent.models.critic import FullyConnectedCritic
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
torch.manual_seed(0)
mk = lambda o: FullyConnectedCritic(2, 2, [4], ["relu"], output_dim=o)
q, t, r = mk(1), mk(1), mk(1)
tr = ParametricDQNTrainer(q, t, r, rl=RLParameters(gamma=0.5, maxq_learning=False, multi_steps=3))
F = rlt.FeatureData
x = torch.tensor([[1.0, 2.0]])
b = rlt.ParametricDqnInput(
    state=F(x), next_state=F(x + 1), action=F(x * 0 + 1), next_action=F(x * 0 - 1), reward=torch.tensor([[1.0]]), time_diff=torch.tensor([[1.0]]),
    step=torch.tensor([[3]]), not_terminal=torch.tensor([[True]]), possible_actions=F(x), possible_actions_mask=torch.ones(1, 1),
    possible_next_actions=F(x), possible_next_actions_mask=torch.ones(1, 1), extras=rlt.ExtraData())
loss = next(tr.train_step_gen(b, 0)).item()
want = ((q(F(x), F(x * 0 + 1)) - (1.0 + 0.125 * t(F(x + 1), F(x * 0 - 1)))) ** 2).item()
assert abs(loss - want) < 1e-5, (loss, want)
''')

S(id="t08-gradient-interval", property="T08",
  edits=[("reagent/training/ranking/seq2slate_trainer.py",
          "            obj_loss.backward()\n            if self.minibatch % self.policy_gradient_interval == 0:\n                self.rl_opt.step()\n                self.rl_opt.zero_grad()\n",
          "            self.rl_opt.zero_grad()\n            obj_loss.backward()\n            if self.minibatch % self.policy_gradient_interval == 0:\n                self.rl_opt.step()\n")],
  needs="a policy gradient interval of more than one minibatch",
  breaks="only the last minibatch of an interval contributes to the update",
  demo='''
import copy, torch
import torch.nn.functional as F
from reagent import types as rlt
from reagent.models.seq2slate import Seq2SlateTransformerNet, Seq2SlateMode, Seq2SlateOutputArch
from reagent.optimizer.union import Optimizer__Union, classes
from reagent.parameters import Seq2SlateParameters
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
torch.manual_seed(0)
net = Seq2SlateTransformerNet(state_dim=1, candidate_dim=2, num_stacked_layers=1, num_heads=1, dim_model=4, dim_feedforward=4, max_src_seq_len=3, max_tgt_seq_len=2, output_arch=Seq2SlateOutputArch.AUTOREGRESSIVE, temperature=1.0)
sgd = Optimizer__Union(SGD=classes["SGD"](lr=0.1))
tr = Seq2SlateTrainer(net, minibatch_size=1, parameters=Seq2SlateParameters(on_policy=False), policy_optimizer=sgd, baseline_optimizer=sgd, policy_gradient_interval=2)
ref = copy.deepcopy(net)
def batch(rank, r):
    return rlt.PreprocessedRankingInput.from_input(
        state=torch.tensor([[0.5]]), candidates=torch.tensor([[[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]]), logged_propensities=torch.tensor([[0.5]]),
        action=torch.tensor([rank]), slate_reward=torch.tensor([[r]]), device=torch.device('cpu'))
bs = [batch([0, 1], 1.0), batch([2, 0], -2.0)]
loss = 0
for b in bs:
    p = ref(b, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs.exp()
    loss = loss - (p / b.tgt_out_probs.reshape(-1, 1) * b.slate_reward).mean()
loss.backward()
for b in bs:
    tr.train(b)
for p, q in zip(net.parameters(), ref.parameters()):
    want = q if q.grad is None else q - 0.1 * q.grad
    assert torch.allclose(p, want, atol=1e-5)
''')

S(id="t07-decoder-state", property="T07",
  edits=[("reagent/models/seq2slate.py",
          "            state_embed = state_embed.repeat(1, tgt_seq_len).reshape(\n                batch_size, tgt_seq_len, -1\n            )",
          "            state_embed = state_embed.repeat(tgt_seq_len, 1).reshape(\n                batch_size, tgt_seq_len, -1\n            )")],
  needs="a batch whose rows have different states, with the autoregressive decoder",
  breaks="decoder steps of one row see the states of other rows",
  demo='''
import torch
from reagent import types as rlt
from reagent.models.seq2slate import Seq2SlateTransformerNet, Seq2SlateMode, Seq2SlateOutputArch
torch.manual_seed(1)
net = Seq2SlateTransformerNet(state_dim=1, candidate_dim=2, num_stacked_layers=1, num_heads=1, dim_model=4, dim_feedforward=4, max_src_seq_len=3, max_tgt_seq_len=3, output_arch=Seq2SlateOutputArch.AUTOREGRESSIVE, temperature=1.0).eval()
def run(states):
    n = len(states)
    b = rlt.PreprocessedRankingInput.from_input(
        state=torch.tensor(states), candidates=torch.tensor([[[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]] * n), action=torch.tensor([[0, 1, 2]] * n),
        slate_reward=torch.zeros(n, 1), logged_propensities=torch.ones(n, 1), device=torch.device('cpu'))
    return net(b, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs.flatten()
both, one, two = run([[0.3], [-4.0]]), run([[0.3]]), run([[-4.0]])
assert torch.allclose(both, torch.cat([one, two]), atol=1e-5), (both, one, two)
''')

S(id="s01-export-shares", property="S01",
  edits=[("reagent/models/base.py", "        return deepcopy(self).cpu()", "        return self.cpu()")],
  needs="training going on after a serving module was built",
  breaks="the exported model changes with the network being trained (and is put in evaluation mode)",
  demo='''
import torch
from reagent.models.dqn import FullyConnectedDQN
m = FullyConnectedDQN(2, 2, [3], ["relu"])
c = m.cpu_model().eval()
from reagent import types as rlt
x = rlt.FeatureData(torch.ones(1, 2))
before = c(x).clone()
with torch.no_grad():
    for p in m.parameters():
        p.add_(1.0)
assert torch.equal(before, c(x)) and m.training
''')

S(id="e04-rank-floor", property="E04",
  edits=[("reagent/ope/estimators/slate_estimators.py",
          "                (-1.0 * (self._alpha * torch.log2(rank)).floor_()),",
          "                (-1.0 * self._alpha * torch.log2(rank)).floor_(),")],
  needs="a rank whose logarithm times alpha isn't an integer",
  breaks="items between two levels get the probability of the lower level",
  demo='''
import torch
from reagent.ope.estimators.slate_estimators import RankingDistribution
d = RankingDistribution(1.0).distribution(torch.tensor([3.0, 2.0, 1.0, 0.5], dtype=torch.double))
assert torch.allclose(d, torch.tensor([1.0, 0.5, 0.5, 0.25], dtype=torch.double)), d
''')

S(id="e05-epsilon-shared", property="E05",
  edits=[("reagent/ope/estimators/sequential_estimators.py",
          "        new_dist = deepcopy(self._policy(state))",
          "        new_dist = self._policy(state)")],
  needs="a wrapped policy that returns the same distribution object each time it's asked, asked more than once",
  breaks="the wrapped policy drifts towards uniform with every query",
  demo='''
from reagent.ope.estimators.types import Action, ActionSpace
from reagent.ope.estimators.sequential_estimators import EpsilonGreedyRLPolicy, RLPolicy
sp = ActionSpace(2)
class P(RLPolicy):
    def __init__(self):
        super().__init__(sp)
        self.d = sp.distribution([1.0, 0.0])
    def action_dist(self, s):
        return self.d
p = P()
e = EpsilonGreedyRLPolicy(p, 0.5)
first = [e(None)[Action(i)] for i in range(2)]
second = [e(None)[Action(i)] for i in range(2)]
assert first == second == [0.75, 0.25] and p.d[Action(0)] == 1.0, (first, second)
''')

S(id="c02-shared-default", property="C02",
  edits=[("reagent/core/configuration.py",
          "    func_params = list(signature(func).parameters.values())\n",
          "    func_params = list(signature(func).parameters.values())\n    resolved = {}\n"),
         ("reagent/core/configuration.py",
          "                    kwargs[p.name] = _resolve_default(p.default)",
          "                    if p.name not in resolved:\n                        resolved[p.name] = _resolve_default(p.default)\n                    kwargs[p.name] = resolved[p.name]")],
  needs="two objects built with the default of a mutable field, one of which changes it",
  breaks="objects share the object made by a default factory",
  demo='''
from dataclasses import field
from reagent.core.configuration import resolve_defaults
class A:
    @resolve_defaults
    def __init__(self, xs: list = field(default_factory=list)):
        self.xs = xs
a, b = A(), A()
a.xs.append(1)
assert b.xs == [] and A().xs == []
''')

S(id="t05-interrupted", property="T05",
  edits=[("reagent/training/reagent_lightning_module.py",
          "        self._next_stopping_epoch += num_epochs\n        self._cleanly_stopped[0] = False\n",
          "        self._next_stopping_epoch += num_epochs\n")],
  needs="a run interrupted before its last epoch, continued from its checkpoint",
  breaks="the epochs that were left aren't distinguished from a new run, so too many epochs are trained",
  demo='''
import torch
from reagent.training.reagent_lightning_module import ReAgentLightningModule, StoppingEpochCallback
class M(ReAgentLightningModule):
    def train_step_gen(self, training_batch: int, batch_idx: int):
        yield None
class T:
    current_epoch = 0
m = M()
StoppingEpochCallback(5).on_pretrain_routine_end(T, m)
stop = m._next_stopping_epoch.item()
n = M()
n._next_stopping_epoch, n._cleanly_stopped = m._next_stopping_epoch.clone(), m._cleanly_stopped.clone()
T.current_epoch = 2
StoppingEpochCallback(5).on_pretrain_routine_end(T, n)
assert n._next_stopping_epoch.item() == stop, (stop, n._next_stopping_epoch)
''')

S(id="g05-exhausted-arm", property="G05",
  edits=[("reagent/gym/envs/changing_arms.py", "        if self.mus[action] <= MU_LOW:", "        if self.mus[action] < MU_LOW:")],
  needs="one arm picked until its value is exactly the lower bound",
  breaks="an exhausted arm stays legal and goes below its lower bound",
  demo='''
import torch
from reagent.gym.envs import changing_arms as c
c.get_legal_indices_mask = lambda n: torch.ones(n, dtype=torch.uint8)
e = c.ChangingArmsEnv(5)
e.reset()
for _ in range(10):
    s, r, d, _ = e.step(2)
    assert r == 10.0 and not d
s, r, d, _ = e.step(2)
assert r == c.INVALID_MOVE_PENALTY and d, (s, r, d)
''')

S(id="w01-next-short", property="W01",
  edits=[("reagent/workflow/data_fetcher.py",
          "            else next_col[min(len(next_col), multi_steps) - 1]",
          "            else next_col[min(len(next_col) - 1, multi_steps)]")],
  needs="multi-step data with more steps in the row than are used",
  breaks="the next state is one step later than the rewards",
  demo='''
import sys
from unittest.mock import MagicMock
for m in ("pyspark", "pyspark.sql", "pyspark.sql.functions", "pyspark.sql.types"):
    sys.modules[m] = MagicMock()
sys.modules["pyspark.sql.functions"].udf = lambda f, t=None: f
from reagent.workflow.data_fetcher import make_next_udf
f = make_next_udf(2, None)
assert f([10, 20, 30]) == 20 and f([10]) == 10 and f([10, 20]) == 20
''')

S(id="d01-user-doc", property="D01",
  edits=[("reagent/types.py",
          "            torch.repeat_interleave(self.float_features, num_docs, dim=0)\n            .reshape(batch_size, num_docs, state_dim)",
          "            self.float_features.repeat(num_docs, 1)\n            .reshape(batch_size, num_docs, state_dim)")],
  needs="a batch with several users",
  breaks="documents are paired with the state of other users",
  demo='''
import torch
from reagent import types as rlt
d = rlt.DocList(torch.zeros(2, 3, 1), torch.ones(2, 3, dtype=torch.bool), torch.zeros(2, 3))
x = rlt.FeatureData(torch.tensor([[1.0], [2.0]]), candidate_docs=d).concat_user_doc()
assert torch.equal(x[:, :, 0], torch.tensor([[1.0] * 3, [2.0] * 3])), x
''')

S(id="m01-dueling-actions", property="M01",
  edits=[("reagent/models/dueling_q_network.py", "        reduce_over = tuple(range(1, raw_advantage.dim()))\n", "        reduce_over = tuple(range(1, min(raw_advantage.dim(), 2)))\n")],
  needs="a dueling network with atoms",
  breaks="advantages of a distributional dueling network are centred per atom",
  demo='''
import torch
from reagent import types as rlt
from reagent.models.dueling_q_network import DuelingQNetwork
torch.manual_seed(0)
n = DuelingQNetwork.make_fully_connected(2, 3, [4, 4], ["relu", "relu"], num_atoms=5)
v, raw, adv, q = n._get_values(rlt.FeatureData(torch.randn(2, 2)))
assert torch.allclose(adv, raw - raw.mean(dim=(1, 2), keepdim=True), atol=1e-6)
''')

S(id="e03-clamped-dr", property="E03",
  edits=[("reagent/ope/estimators/contextual_bandits_estimators.py",
          "                tgt_result += (\n                    sample.log_reward - dm_action_reward\n                ) * weight + dm_reward\n            else:\n                tgt_result = dm_reward\n            tgt_avg.add(tgt_result)\n            tgt_vals.append(tgt_result)\n            gt_avg.add(sample.ground_truth_reward)\n        (\n            tgt_score_normalized,\n            tgt_std_err,\n            tgt_std_err_normalized,\n        ) = self._compute_metric_data(torch.tensor(tgt_vals), log_avg.average)\n        return EstimatorResult(\n            log_reward=log_avg.average,\n            estimated_reward=tgt_avg.average,\n            ground_truth_reward=gt_avg.average,\n            estimated_weight=tgt_avg.count,\n            estimated_reward_normalized=tgt_score_normalized,\n            estimated_reward_std_error=tgt_std_err,\n            estimated_reward_normalized_std_error=tgt_std_err_normalized,\n        )\n\n    def __repr__(self):\n        return (\n            f\"DoublyRobustEstimator(",
          "                tgt_result += (\n                    sample.log_reward - dm_action_reward\n                ) * weight + dm_reward\n            tgt_avg.add(tgt_result)\n            tgt_vals.append(tgt_result)\n            gt_avg.add(sample.ground_truth_reward)\n        (\n            tgt_score_normalized,\n            tgt_std_err,\n            tgt_std_err_normalized,\n        ) = self._compute_metric_data(torch.tensor(tgt_vals), log_avg.average)\n        return EstimatorResult(\n            log_reward=log_avg.average,\n            estimated_reward=tgt_avg.average,\n            ground_truth_reward=gt_avg.average,\n            estimated_weight=tgt_avg.count,\n            estimated_reward_normalized=tgt_score_normalized,\n            estimated_reward_std_error=tgt_std_err,\n            estimated_reward_normalized_std_error=tgt_std_err_normalized,\n        )\n\n    def __repr__(self):\n        return (\n            f\"DoublyRobustEstimator(")],
  needs="a sample without a logged action",
  breaks="samples without a logged action count as zero instead of the model's estimate",
  demo='''
import torch
from reagent.ope.estimators.contextual_bandits_estimators import BanditsEstimatorInput, DoublyRobustEstimator, LogSample, ModelOutputs
from reagent.ope.estimators.types import Action, ActionSpace
sp = ActionSpace(2)
d = sp.distribution([0.5, 0.5])
def sample(a):
    return LogSample(context=None, log_action=Action(a), log_reward=1.0, log_action_probabilities=d, tgt_action_probabilities=d, tgt_action=Action(0),
                     model_outputs=ModelOutputs(tgt_reward_from_log_action=0.5, tgt_rewards=[0.5, 0.5]))
r = DoublyRobustEstimator().evaluate(BanditsEstimatorInput(sp, [sample(0), sample(None)], True))
assert abs(r.estimated_reward - (1.0 + 0.5) / 2) < 1e-6, r
''')

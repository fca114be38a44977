# prop(id, title, statement, over, text, why, files, mech, state=...)
prop("R01", "Replay buffer samples are exactly what the add history says",
"""After any sequence of added transitions, every transition a replay buffer returns (frame-stacked state, action, reward, n-step return, terminal flag, next state, extra fields) is the one defined by the order of the additions.
Frames and returns never cross an episode boundary or the write position, and overwritten or incomplete elements are never returned.
Every complete transition still stored can be sampled.""",
["histories", "configurations"], "all add histories up to a depth that wraps the ring several times, over stack sizes, update horizons, capacities and both stacking modes",
"The tests check a handful of fixed histories; the invariants concern every interleaving of episode ends, ring wrap-around and horizon truncation.",
["reagent/replay_memory/circular_replay_buffer.py"],
[("validity mask maintained by add", "ReplayBuffer.add / set_index_valid_status"), ("n-step and frame-stack gather", "ReplayBuffer.sample_transition_batch")],
[("_is_index_valid", "which ring slots can be sampled", "ReplayBuffer"), ("_num_transitions_in_current_episode", "episode-local position", "ReplayBuffer")])

prop("R02", "Replay buffer checkpoints restore the buffer whatever the crash point",
"""Saving a replay buffer and loading it into another buffer of the same shape gives a buffer that samples the same transitions and continues identically under further additions.
A load of a missing, incomplete, truncated or half overwritten checkpoint is refused and leaves the buffer unchanged.
A crash while saving never damages the checkpoints saved earlier.""",
["histories", "crash_points", "fault_sequences"], "all small add histories before the save and after the load; every file operation of a first or repeated save as crash point; every truncation length (quick: every fifth) of every file",
"Tests save and load one buffer without crashes or truncated files and do not sample after loading.",
["reagent/replay_memory/circular_replay_buffer.py", "reagent/replay_memory/prioritized_replay_buffer.py"],
[("save", "ReplayBuffer.save"), ("load, all or nothing", "ReplayBuffer.load"), ("retention of old checkpoints", "ReplayBuffer.save")])

prop("R03", "Prioritized sampling draws valid transitions in proportion to priority",
"""Priority-proportional sampling selects each element for exactly the query interval its priority covers, with stratified queries one per equal part of the total, and the maximal priority ever recorded is tracked.
After any sequence of additions and priority updates, a prioritized replay buffer only returns currently sampleable elements, together with their own contents and current priorities, or refuses.
Elements of zero priority and elements outside the valid part are never drawn.""",
["histories", "inputs"], "all reachable leaf vectors of trees with capacity up to 5 (6), every interval boundary as query; all add/update sequences up to the depth bound with every scripted random outcome",
"Tests use a few trees and check the distribution statistically.",
["reagent/replay_memory/sum_tree.py", "reagent/replay_memory/prioritized_replay_buffer.py"],
[("tree descent", "SumTree.sample / stratified_sample"), ("rejection of invalid indices", "PrioritizedReplayBuffer.sample_index_batch")],
[("nodes", "sums of priorities per level", "SumTree")])

prop("R04", "Exported experience loses, duplicates and mixes up nothing",
"""Converting a replay buffer to the offline training table yields every stored transition exactly once, grouped under one id per episode with consecutive sequence numbers, and with its own state, action, reward, probability, possible actions and time stamp.
Inserting transitions into a replay buffer, for plain, recommendation and world-model use, stores each one unchanged.""",
["histories", "configurations"], "all sequences of episodes (length, terminal or cut) up to the bound, buffer capacities below and above the history, discrete and parametric actions",
"Tests export a single gym run and compare aggregate counts.",
["reagent/replay_memory/utils.py", "reagent/gym/preprocessors/replay_buffer_inserters.py"],
[("row construction", "replay_buffer_to_pre_timeline_df"), ("inserters", "BasicReplayBufferInserter / RecSimReplayBufferInserter")])

prop("P01", "The preprocessing network computes each feature's normalization",
"""For every set of features, the preprocessing network maps each row to the documented normalization of each feature (continuous, Box-Cox, log, quantile, probability, binary, enumeration, continuous action, identity), in sorted feature order, with missing values mapped to their fixed neutral output.
A feature's output does not depend on the other features, on the other rows of the batch, or on whether the network is traced.""",
["inputs", "configurations"], "every feature type alone, in pairs and in all subsets and repetitions; every alphabet value present and missing",
"Tests normalize one synthetic sample per type and compare with a reference in bulk.",
["reagent/preprocessing/preprocessor.py", "reagent/preprocessing/normalization.py"],
[("type-wise blocks", "Preprocessor.forward / _preprocess_*"), ("feature order", "normalization.get_feature_start_indices / sort_features_by_normalization")])

prop("P02", "Feature identification describes the data and survives serialization",
"""The normalization parameters inferred from a sample have the type and statistics defined by the sample's values and the options, and overridden types are honoured.
Serializing and parsing normalization metadata gives equal parameters, and metadata rejects what it cannot describe.
Actions preprocessed for training and post-processed for serving come back as the original action.""",
["inputs", "configurations"], "all value subsets up to size 4 of an alphabet, shaped samples around every threshold, all option combinations; all action dimensions, ranges and grid values",
"Tests identify one random sample per type.",
["reagent/preprocessing/identify_types.py", "reagent/preprocessing/normalization.py", "reagent/preprocessing/postprocessor.py", "reagent/workflow/identify_types_flow.py"],
[("identification", "identify_types.identify_type / normalization.identify_parameter"), ("serialization", "normalization.serialize / deserialize"), ("inverse", "Postprocessor.forward")])

prop("P03", "Sparse and logged rows become the batches their values describe",
"""Converting sparse rows to dense features puts each value in its feature's column with its presence, for every feature order, missing feature and batch shape.
Each data transform and batch preprocessor only replaces the fields it is configured for, with the documented value for every row, including the next-action, terminal and possible-action fields.""",
["inputs", "configurations"], "all batches of up to 3 sparse rows over every feature subset; every small batch pattern of each transform; all combinations of action, next action and masks",
"Tests use one or two hand-written batches.",
["reagent/preprocessing/sparse_to_dense.py", "reagent/preprocessing/sparse_preprocessor.py", "reagent/preprocessing/transforms.py", "reagent/preprocessing/batch_preprocessor.py"],
[("sparse to dense", "StringKeySparseToDenseProcessor / PythonSparseToDenseProcessor"), ("transforms", "transforms.*"), ("batch preprocessors", "DiscreteDqnBatchPreprocessor / PolicyNetworkBatchPreprocessor")])

prop("C01", "Every reported value reaches every observer and is aggregated once",
"""Each value reported during training is delivered exactly once to every registered observer under the key it was reported for, in order, and only those.
Aggregators receive each value of an interval exactly once, compute the documented statistic, and start the next interval empty; epoch ends flush exactly the remainder.
Summaries are written to the innermost active writer at the current step.""",
["histories", "configurations"], "all operation sequences up to depth 3-6 of report, observe, epoch end, push/pop writer, advance step",
"Tests check single sequences of one observer.",
["reagent/core/tracker.py", "reagent/core/observers.py", "reagent/core/aggregators.py", "reagent/workflow/reporters/reporter_base.py", "reagent/tensorboardX.py", "reagent/core/report_utils.py"],
[("notification", "tracker.observable / ObservableMixin"), ("intervals", "observers.IntervalAggregatingObserver"), ("context stack", "SummaryWriterContext")])

prop("C02", "Configurations select, carry and serialize exactly what was written",
"""Choosing a member of a registered family yields that member with the given fields, any selection of not exactly one member is refused, and registration after use is refused.
Generated configuration classes pass every parameter, default and override through unchanged; equal configurations hash equally and different ones differ; serialization round-trips.
Configured optimizers and schedulers update parameters as configured.""",
["configurations", "histories"], "all sequences of registry operations up to depth 4; all function signatures up to 4 parameters; every optimizer x grid and pair of schedulers",
"Tests build a few unions and one configuration.",
["reagent/core/registry_meta.py", "reagent/core/tagged_union.py", "reagent/core/configuration.py", "reagent/core/dataclasses.py", "reagent/parameters.py", "reagent/base_dataclass.py", "reagent/json_serialize.py", "reagent/optimizer/optimizer.py", "reagent/optimizer/scheduler.py", "reagent/optimizer/union.py", "reagent/optimizer/utils.py"],
[("registries", "RegistryMeta.fill_union"), ("configs", "configuration.make_config_class / resolve_defaults"), ("optimizers", "Optimizer__Union.make_optimizer_scheduler")])

prop("T01", "Discrete Q-learning trainers learn the Bellman target of each transition",
"""For every transition, DQN, C51 and quantile DQN training moves the value of the taken action by the configured loss towards reward plus discounted target value of the next action, where the next action is the best possible one or the logged one and terminal transitions have no future.
Impossible actions never influence a target; discounting by time difference or steps, reward boosts, double Q-learning and batch-constraint act as configured.
Reported values, model actions and losses are those of the batch, which training leaves unchanged.""",
["inputs", "configurations"], "every tabular transition over 3 states and 2-3 actions crossed with every option",
"Tests train on a gridworld and check that the result is close to the optimum.",
["reagent/training/dqn_trainer.py", "reagent/training/dqn_trainer_base.py", "reagent/training/c51_trainer.py", "reagent/training/qrdqn_trainer.py", "reagent/training/rl_trainer_pytorch.py", "reagent/training/imitator_training.py"],
[("targets", "DQNTrainer.train_step_gen / C51Trainer / QRDQNTrainer"), ("masking", "DQNTrainerBaseLightning.get_max_q_values_with_target")])

prop("T02", "Parametric and slate Q-learning learn the Bellman target of each transition",
"""For every transition, parametric-action and slate Q-learning move the value of the logged action or item towards the reward plus the discounted target value of the next action: the best possible candidate, the logged one, or the expected value of the next slate.
Reward models are fit to the rewards of the logged actions, impossible candidates never influence a target, and terminal transitions have no future.
Training leaves the batch unchanged.""",
["inputs", "configurations"], "every tabular transition and mask over small state, action and slate spaces crossed with every option",
"Tests only check that training runs.",
["reagent/training/parametric_dqn_trainer.py", "reagent/training/slate_q_trainer.py", "reagent/training/reward_network_trainer.py"],
[("candidate maximum", "ParametricDQNTrainer.get_max_q_values / RLTrainerMixin"), ("slate value", "SlateQTrainer._get_slate_values")])

prop("T03", "Actor-critic trainers compute their published targets and updates",
"""SAC, TD3 and discrete CRR train their critics on the minimum of the target critics at the target policy's action (with entropy, noise and clipping as configured), no future after terminals, and their actors on the current critics.
Delayed actors and target networks are updated exactly on the configured steps by the configured rate, and the entropy temperature follows its target.
Each network is moved only by its own loss.""",
["inputs", "configurations", "histories"], "small networks; every option combination; several consecutive steps against an independently computed reference",
"Tests only check that training runs or reaches a score on a gym environment.",
["reagent/training/sac_trainer.py", "reagent/training/td3_trainer.py", "reagent/training/discrete_crr_trainer.py", "reagent/optimizer/soft_update.py"],
[("loss generators", "*.train_step_gen"), ("target updates", "SoftUpdate")])

prop("T04", "Each optimizer steps exactly on the loss of its own parameters",
"""In the training loop every optimizer a trainer configures is stepped with the gradient of the loss it was configured for, in the configured order, once per batch, whatever the trainer's options.
Parameters a loss does not own are not changed by it, and target networks change only by the soft update.
Interrupting training between epochs or after a failing batch and continuing gives the same sequence of steps.""",
["configurations", "histories", "fault_sequences"], "every trainer x option set, driven by the real training loop for several batches; failures injected at every optimizer index",
"Tests run single configurations and never compare which parameters each step moves.",
["reagent/training/reagent_lightning_module.py", "reagent/optimizer/soft_update.py", "reagent/training/dqn_trainer.py", "reagent/training/sac_trainer.py", "reagent/training/td3_trainer.py"],
[("generator protocol", "ReAgentLightningModule.training_step"), ("optimizer list", "configure_optimizers")])

prop("T05", "Epoch bookkeeping and evaluation pages follow the batch sequence",
"""For every number of epochs, batches and resumes, training stops after exactly the configured number of epochs, reports flush once per epoch, batch counters advance once per batch, and exported states continue where training stopped.
Validation gathers every evaluation batch of the epoch once and hands the concatenation to evaluation.""",
["histories", "configurations"], "all small numbers of epochs, batches and restarts of the real training loop",
"Tests run one fit and check no counters.",
["reagent/training/reagent_lightning_module.py", "reagent/workflow/training.py", "reagent/training/dqn_trainer_base.py"],
[("stopping", "StoppingEpochCallback"), ("evaluation gathering", "DQNTrainerBaseLightning.gather_eval_data / validation_epoch_end")])

prop("T06", "Policy-gradient trainers weight log-probabilities with the right returns",
"""REINFORCE and PPO compute, for every trajectory, the documented policy-gradient loss: discounted returns of the future rewards, minus baseline where configured, importance-weighted and clipped where configured.
Value baselines are fit to the returns, off-policy weights are constants, and PPO replays each collected trajectory exactly the configured number of times in the configured batches.""",
["inputs", "configurations", "histories"], "all trajectories up to length 3-4 over small reward, action and probability alphabets; all option combinations; all shuffles",
"Tests train on CartPole and check a final score.",
["reagent/training/reinforce.py", "reagent/training/ppo_trainer.py", "reagent/training/utils.py", "reagent/gym/policies/policy.py"],
[("returns", "training.utils.discounted_returns"), ("surrogate", "PPOTrainer._trajectory_to_losses")])

prop("T07", "Sequence ranking models define one consistent distribution over slates",
"""A sequence-to-slate model's per-slate and per-step probabilities are one and the same distribution: probabilities over all permutations sum to one, sampled and greedy rankings are permutations of valid candidates consistent with it, and the log-probability of a logged ranking matches.
A candidate or padding position never influences the probability of other requests in the batch.""",
["inputs", "configurations"], "all permutations of up to 4 candidates, all output architectures and decode modes, batch sizes including one, against a step-by-step reference",
"Tests compare a few random batches.",
["reagent/models/seq2slate.py", "reagent/model_utils/seq2slate_utils.py"],
[("masked softmax and decoding", "Seq2SlateTransformerModel"), ("permutation utilities", "seq2slate_utils")])

prop("T08", "Ranking trainers optimize the documented objective on every slate",
"""The on-policy, off-policy, teacher-forcing, attention and simulation ranking trainers compute the documented loss for every logged slate: reward minus baseline, importance-weighted with the configured clamping, times the log-probability of the logged or sampled ranking.
Updates occur only on the configured batches and the baseline is trained only as configured.""",
["inputs", "configurations"], "all slates of 2-3 candidates, reward and propensity alphabets, every method and clamp option",
"Tests check one gradient per method.",
["reagent/training/ranking/seq2slate_trainer.py", "reagent/training/ranking/seq2slate_tf_trainer.py", "reagent/training/ranking/seq2slate_attn_trainer.py", "reagent/training/ranking/seq2slate_sim_trainer.py", "reagent/training/ranking/helper.py", "reagent/training/ranking/seq2slate_dr_trainer.py"],
[("importance sampling", "helper.ips_clamp"), ("losses", "Seq2SlateTrainer._compute_impt_smpl")])

prop("T09", "World-model losses and model-based planning follow their definitions",
"""World-model training computes the mixture-density, reward and terminal losses of each sequence as defined and weighted, sequence-to-reward and its compressed model regress the accumulated reward, and attribution ranks features by their effect.
Cross-entropy planning evaluates each candidate by the discounted predicted reward up to the predicted terminal, keeps the best candidates, and returns an action within bounds.""",
["inputs", "configurations"], "small mixtures, sequence lengths 1-3, batch sizes 1-2, all option values; all small planner populations",
"Tests train on generated data and check a final loss.",
["reagent/training/world_model/mdnrnn_trainer.py", "reagent/training/world_model/seq2reward_trainer.py", "reagent/training/world_model/compress_model_trainer.py", "reagent/models/mdn_rnn.py", "reagent/models/cem_planner.py", "reagent/models/world_model.py", "reagent/models/seq2reward_model.py", "reagent/training/cem_trainer.py", "reagent/evaluation/world_model_evaluator.py"],
[("gmm_loss", "mdn_rnn.gmm_loss"), ("planner", "CEMPlannerNetwork")])

prop("T10", "Evolution-strategy workers agree on one deterministic update",
"""Every worker of an evolution-strategy run perturbs the parent by the same reproducible mutations and, given the same rewards, computes the same updated parent, for every number of workers and every order in which they proceed.
The update equals the reward-weighted sum of the mutations.""",
["inputs", "schedules", "configurations"], "all small populations, seeds, world sizes and worker orders",
"Tests run a single in-process pool.",
["reagent/training/gradient_free/evolution_pool.py", "reagent/training/gradient_free/es_worker.py"],
[("mutation", "EvolutionPool.populate_children"), ("gradient", "EvolutionPool.apply_global_reward")])

prop("T11", "The trainer base and loss reporter account for every batch exactly once",
"""The loss reporter's losses, values, counts, distributions and recent averages are those of all batches reported since the last flush, it flushes exactly when its interval is full or when asked, writes the same numbers to the summary writer, and neither loses, double-counts nor keeps gradients of a batch.
Trainers sharing the base class step their optimisers, soft-update their targets and train their counterfactual-evaluation networks once every configured number of minibatches, with gradients averaged over those minibatches; the imitator learns by cross-entropy, and overridden parameters affect only the trainer they were set on.""",
["inputs", "histories", "configurations"], "all sequences of up to 5 (6) report/flush operations with every interval; all sequences of up to 3 batches with updates every 1-3 batches",
"Tests only soft-update one pair of networks.",
["reagent/training/loss_reporter.py", "reagent/training/rl_trainer_pytorch.py", "reagent/training/imitator_training.py", "reagent/training/trainer.py"],
[("reporter", "LossReporter, BatchStats, StatsByAction"), ("trainer base", "RLTrainer, RLTrainerMixin, ImitatorTrainer, Trainer")])

prop("T12", "Trainers report what they computed for the batch they trained on",
"""On every step each reinforcement-learning trainer reports the loss it trained on, the logged actions, propensities and (boosted) rewards of that batch, the values its networks give to the batch's states and actions, and the action its model prefers among the possible ones (or the logged one when learning on-policy), each exactly once.
The values reported only every so many steps (critic, actor and target values) appear on exactly those steps and match the networks that produced the losses; with counterfactual evaluation the reported propensities and rewards are those of the model.
A reporter fed by its trainer shows the mean loss and the counts of logged and model actions of each interval of batches, across epoch ends.""",
["inputs", "configurations", "histories"], "all 44 trainer configurations x learning mode, boost, temperature, metrics x reporting schedules x batches; all sequences of up to 3 (4) batches and epoch ends per reporter",
"Tests look at losses, never at what is reported about a batch.",
["reagent/training/dqn_trainer.py", "reagent/training/dqn_trainer_base.py", "reagent/training/qrdqn_trainer.py", "reagent/training/c51_trainer.py", "reagent/training/discrete_crr_trainer.py", "reagent/training/parametric_dqn_trainer.py", "reagent/training/slate_q_trainer.py", "reagent/training/sac_trainer.py", "reagent/training/td3_trainer.py"],
[("step", "train_step_gen of every trainer (reporter.log, log)"), ("CPE", "DQNTrainerBaseLightning._calculate_cpes")])

prop("E01", "Off-policy evaluation data and single-step estimators match their formulas",
"""An evaluation page built from any split of the batches holds each evaluated transition once, with the model's propensities, rewards and values, sorted and validated as documented.
Direct, importance-sampling and doubly-robust estimates and their normalizations equal their closed formulas, a perfectly matching policy estimates the logged reward, and standard errors come from the stated resampling; a trainer's evaluation reports one estimate for the reward and one per metric it was given.""",
["inputs", "configurations"], "all logs of up to 3-4 transitions over small alphabets of actions, propensities and rewards; every split into batches",
"Tests compare one logged policy per estimator.",
["reagent/evaluation/evaluation_data_page.py", "reagent/evaluation/cpe.py", "reagent/evaluation/doubly_robust_estimator.py", "reagent/evaluation/evaluator.py", "reagent/training/dqn_trainer_base.py"],
[("page", "EvaluationDataPage.create_from_tensors / append / validate"), ("estimator", "DoublyRobustEstimator.estimate")])

prop("E02", "Sequential doubly-robust estimators match their recursions",
"""Sequential and weighted sequential doubly-robust estimates equal their published recursions over every set of logged trajectories, whatever the trajectory lengths and order.
Weights are normalized per time step, and the confidence mixture stays between its extreme estimators.""",
["inputs", "configurations"], "all sets of up to 3 trajectories of length up to 3 over small alphabets",
"Tests use a gridworld log.",
["reagent/evaluation/sequential_doubly_robust_estimator.py", "reagent/evaluation/weighted_sequential_doubly_robust_estimator.py", "reagent/evaluation/ope_adapter.py"],
[("recursion", "SequentialDoublyRobustEstimator.estimate"), ("weighting", "WeightedSequentialDoublyRobustEstimator")])

prop("E03", "Contextual-bandit estimators match their formulas on every log",
"""Direct-method, importance-sampling (plain and self-normalized), doubly-robust and switching bandit estimators return exactly the published estimate for every log; cross-fitted reward models never score a sample they were trained on.
When the target policy equals the logging policy, the importance-weighted estimates are the logged average. Action-value maps keep their values, order and probabilities consistent under every sequence of operations.""",
["inputs", "configurations"], "all logs of up to 3 samples over 2-3 actions, small alphabets of probabilities, rewards and model predictions",
"Tests run one random data set and check a rough error.",
["reagent/ope/estimators/contextual_bandits_estimators.py", "reagent/ope/estimators/estimator.py", "reagent/ope/estimators/types.py", "reagent/ope/utils.py"],
[("estimators", "contextual_bandits_estimators.*"), ("accumulators", "ope.utils.RunningAverage")])

prop("E04", "Slate estimators and metrics match their formulas on every log",
"""Slate metrics (DCG, NDCG, ERR and direct sums) and the slate direct, importance-sampling, doubly-robust, pseudo-inverse and position-based estimators return exactly their published value for every log and slate representation (numbered or named items and slots).
Slate and slot probability models over all slates sum to one.""",
["inputs", "configurations"], "all slates up to 3 slots of up to 4 items, small probability and relevance alphabets, all slate representations",
"Tests check single slates.",
["reagent/ope/estimators/slate_estimators.py", "reagent/ope/estimators/types.py", "reagent/ope/utils.py"],
[("slate space", "SlateItemProbabilities / SlateSlotItemProbabilities"), ("estimators", "slate_estimators.*")])

prop("E05", "Sequential OPE and tabular learners compute exact values on finite MDPs",
"""Dynamic programming returns the exact discounted state and action values of the given policy on every small decision process, and its trained policy is optimal; first- and every-visit Monte-Carlo values are the averages of the corresponding returns; tabular and epsilon-greedy policies report exactly the probabilities last given to them, also after saving and loading.
Sequential direct (the value of the initial state), importance-sampling and doubly-robust estimators return their published values for every set of logged trajectories, whatever their lengths, and DualDICE trains its two networks on its published losses.""",
["inputs", "configurations"], "all small MDPs over 2-3 states and actions with a probability alphabet; all log sets up to 3 trajectories",
"Tests run one gridworld.",
["reagent/ope/estimators/sequential_estimators.py", "reagent/ope/trainers/rl_tabular_trainers.py", "reagent/ope/estimators/types.py"],
[("estimators", "sequential_estimators.*"), ("learners", "rl_tabular_trainers.*")])

prop("E06", "OPE reward models are the best validated candidate; value maps are faithful",
"""Training a linear, tree or logistic reward model keeps the candidate with the best validation score over all iterations, each fitted on the drawn training sample with matching targets and weights; predicted classes are labels of the data, probabilities and expected labels match them, and the linear net minimises and reports the squared error of its own predictions without touching its inputs.
Saved models load unchanged, and a missing, torn or unreadable file never replaces the current model. Distributions and action spaces behave like maps from actions to numbers after any sequence of reads, writes and replacements, and replacing values never changes the original.""",
["inputs", "configurations", "histories", "crash points"], "all sequences of up to 3 (4) container operations; all score orders of the candidates; all 4 (5)-step train/save/load histories; every torn prefix of a saved model",
"Tests only use trained trainers through notebooks.",
["reagent/ope/trainers/linear_trainers.py", "reagent/ope/estimators/types.py"],
[("trainers", "linear_trainers.*, Trainer"), ("containers", "Values, Objects, Items, TypeWrapper")])

prop("E07", "Evaluators report the metrics of the model and leave it as it was",
"""The listwise ranking evaluator reports the published ranking metrics (DCG, NDCG, MAP, AUC) of the model's order and of the logged order for every usable slate of a batch, ignores slates on which they are not defined, and scores in evaluation mode; the policy-gradient ranking evaluator reports the same numbers with or without counterfactual evaluation and publishes, at the end of the epoch and exactly once, the pages of all batches seen.
The reward-network evaluator averages the loss of every batch and keeps a copy of the model with the lowest mean loss so far. No evaluator changes its inputs, its networks' training modes, or records gradients.""",
["inputs", "configurations", "histories"], "all relevance vectors, logged and model orders up to 3 (4) positions; all sequences of up to 3 batches and 3 epochs over small alphabets",
"Tests run no evaluator on its own.",
["reagent/evaluation/ranking_listwise_evaluator.py", "reagent/evaluation/ranking_policy_gradient_evaluator.py", "reagent/evaluation/reward_net_evaluator.py", "reagent/evaluation/evaluator.py"],
[("listwise", "RankingListwiseEvaluator"), ("policy gradient", "RankingPolicyGradientEvaluator"), ("reward networks", "RewardNetEvaluator")])

prop("G01", "Exploration policies sample what their log-probability says",
"""Each action sampler's reported log-probability equals the logarithm of the probability with which it draws that action, evaluating a logged action gives the same number, and greedy, epsilon and softmax parameters act as configured.
Impossible actions are never drawn; scorers return the model's scores unchanged for every batch size.""",
["inputs", "configurations"], "all score vectors over a small alphabet for 2-4 actions, all masks, all temperatures and epsilons, every outcome of the random source",
"Tests check shapes and single batches.",
["reagent/gym/policies/samplers/discrete_sampler.py", "reagent/gym/policies/samplers/continuous_sampler.py", "reagent/gym/policies/scorers/discrete_scorer.py", "reagent/gym/policies/scorers/continuous_scorer.py", "reagent/gym/policies/policy.py", "reagent/gym/policies/random_policies.py", "reagent/gym/policies/predictor_policies.py"],
[("samplers", "SoftmaxActionSampler / EpsilonGreedyActionSampler / GreedyActionSampler"), ("masks", "apply_possible_actions_mask")])

prop("G02", "Top-k slate samplers rank and score permutations consistently",
"""Sorting by scores with Frechet or Gumbel noise and top-k selection return distinct items in decreasing perturbed score, for every batch size, number of items and slate length.
The probability reported for a slate is that of drawing it, and probabilities over all slates sum to one.""",
["inputs", "configurations"], "all score vectors over a small alphabet for 2-4 items, all slate lengths, all perturbation orders",
"Tests check one batch against one closed form.",
["reagent/samplers/frechet.py", "reagent/gym/policies/samplers/top_k_sampler.py"],
[("frechet sort", "FrechetSort.sample_action / log_prob")])

prop("G03", "Episodes run by the environment runner are recorded as they happened",
"""Every recorded trajectory contains exactly the observations, actions, probabilities, rewards and terminal flags that the environment and policy exchanged, in order, from reset to terminal or step limit.
Episode accounting, post-step training and data-set iteration train on each inserted transition and episode exactly as often as configured.""",
["histories", "configurations"], "all scripted environments up to length 4 with every terminal pattern, step limit, training frequency and number of episodes",
"Tests only check the reward of full training runs.",
["reagent/gym/runners/gymrunner.py", "reagent/gym/agents/agent.py", "reagent/gym/agents/post_step.py", "reagent/gym/agents/post_episode.py", "reagent/gym/datasets/replay_buffer_dataset.py", "reagent/gym/types.py"],
[("runner", "gymrunner.run_episode / evaluate_for_n_episodes"), ("agent", "Agent.act / post_step"), ("data sets", "ReplayBufferDataset / OfflineReplayBufferDataset")])

prop("G04", "Environment and trainer preprocessors keep every field of a transition",
"""Turning sampled replay-buffer batches and trajectories into trainer inputs carries every field over unchanged in value and row order, with one-hot or scaled actions, terminal flags and masks as documented, for every batch and trajectory length including one.
Observation preprocessors turn environment observations into model inputs of the same values, and action extractors give back the action of the policy.""",
["inputs", "configurations"], "all batches up to 3 rows over small alphabets, every trainer's input maker and both action extractors",
"Tests check single batches of some makers.",
["reagent/gym/preprocessors/trainer_preprocessor.py", "reagent/gym/preprocessors/default_preprocessors.py", "reagent/gym/utils.py", "reagent/training/utils.py"],
[("input makers", "trainer_preprocessor.*"), ("rescaling", "training.utils.rescale_actions")])

prop("G05", "Environments follow their stated dynamics on every action sequence",
"""Each bundled environment's observations, rewards, terminal flags, possible actions and step limits follow its documented dynamics for every action sequence, and reset gives a fresh episode with nothing left of the previous one.""",
["histories", "configurations"], "all action sequences up to the episode bound (or the depth bound) from every start state",
"Tests run random policies in some environments.",
["reagent/gym/envs/changing_arms.py", "reagent/gym/envs/pomdp/string_game.py", "reagent/gym/envs/pomdp/string_game_v1.py", "reagent/gym/envs/pomdp/pocman.py", "reagent/gym/envs/dynamics/linear_dynamics.py", "reagent/gym/envs/functionality/possible_actions_mask_tester.py", "reagent/gym/envs/pomdp/state_embed_env.py", "reagent/gym/envs/toy_vm.py", "reagent/gym/envs/wrappers/simple_minigrid.py", "reagent/gym/envs/env_wrapper.py"],
[("dynamics", "*.step / reset")])

prop("S01", "Served predictors score exactly like the trained model",
"""A served predictor, for every preprocessed or missing feature pattern and batch size, returns what preprocessing followed by the trained network gives, with action names in the trained order, and parametric actions matched to their own state.
Compiling, saving and reloading a predictor changes no output; exporting does not disturb the source network, and later training of the source network does not change an exported predictor.
Sampling actors draw their exploration independently for every row.""",
["inputs", "configurations"], "every predictor wrapper x feature presence patterns x batch sizes x eager/scripted",
"Tests compare one batch per predictor.",
["reagent/prediction/predictor_wrapper.py", "reagent/prediction/ranking/predictor_wrapper.py"],
[("wrappers", "*WithPreprocessor / *PredictorWrapper"), ("action names", "DiscreteDqnPredictorWrapper.action_names")])

prop("S02", "Published models can always be found, complete, under their own identity",
"""Publishing a training result makes the newest published model of exactly that configuration retrievable, complete and unchanged, and never affects results published for other configurations.
A failed or interrupted publication leaves the previously published model retrievable.
Validation and training workflows pass the results of each stage to the next unchanged.""",
["histories", "crash_points", "configurations", "schedules"], "all sequences of publishing and reading for several configurations; every file operation of a publication as crash point; all schedules of overlapping publishers up to two preemptions, one of them killed at any stop",
"Tests publish one model.",
["reagent/publishers/file_system_publisher.py", "reagent/publishers/model_publisher.py", "reagent/publishers/no_publishing.py", "reagent/validators/model_validator.py", "reagent/validators/no_validation.py", "reagent/workflow/model_managers/model_manager.py"],
[("key of a configuration", "FileSystemPublisher.get_model_table / do_publish"), ("ModelManager.train_workflow", "model_manager")])

prop("S03", "Serving decision plans compile to the graph the code wrote",
"""Every decision plan written with the configuration language compiles to a plan that contains each used operator exactly once with its inputs, constants and outputs as written, and nothing else, and serializing a plan and reading it gives an equal plan.
Exported configuration directories contain each configured plan under its own path.""",
["programs", "configurations"], "all expression graphs up to 4 operators with shared subexpressions; all configuration namespaces of up to 3 plans",
"There are no Python tests of the serving configuration.",
["serving/reagent/serving/config/builder.py", "serving/reagent/serving/config/config.py", "serving/reagent/serving/config/namespace.py", "serving/reagent/serving/config/operators.py", "serving/reagent/serving/config/serialize.py", "serving/reagent/serving/config/main.py"],
[("operator collection", "DecisionPlanBuilder.build"), ("serialization", "serialize.config_to_json")])

prop("S04", "Greedy diverse slates follow the determinants of the kernel",
"""For every set of positive quality scores, feature vectors and diversity strength, the diverse ranking orders all items by repeatedly taking the item that maximises the determinant of the quality-diversity kernel of the items chosen so far.
The kernel has the squared scores on its diagonal and the scaled cosine similarities elsewhere, and the reported determinants are those of each round.""",
["inputs", "configurations"], "all score vectors and feature directions over an alphabet up to 4 (5) items x strengths of diversity",
"Tests rank two fixed sets of items.",
["reagent/prediction/ranking/predictor_wrapper.py"],
[("DPP", "DeterminantalPointProcessPredictorWrapper.forward")])

prop("W01", "Training tables are read, split and preprocessed without loss",
"""Querying a training table returns each row of the requested range exactly once, with sparse features as dense columns, actions as their position in the action list, the n-step return, step and successor of the row, and terminal rows marked as such; subsampling keeps or drops whole episodes, and the training and evaluation ranges of a split are disjoint and complete.
The normalisation parameters identified from a table are those of each (whitelisted) feature's own values, and the batches a data module or manager makes of the table normalise every feature with its own parameters and keep all fields of a row together.""",
["inputs", "configurations"], "all small tables over row alphabets, all split percentages with hashes on every boundary, all assignments of feature types, in a relational stand-in for the query engine",
"Tests need a Spark session and run one table.",
["reagent/workflow/data_fetcher.py", "reagent/workflow/identify_types_flow.py", "reagent/workflow/training.py", "reagent/workflow/types.py", "reagent/workflow/utils.py", "reagent/workflow/data/manual_data_module.py", "reagent/workflow/model_managers/discrete_dqn_base.py", "reagent/workflow/model_managers/actor_critic_base.py", "reagent/preprocessing/batch_preprocessor.py"],
[("query", "data_fetcher.query_data"), ("split", "training.get_sample_range"), ("batches", "batch_preprocessor / ManualDataModule")])

prop("W02", "Offline gym runs log, upload and evaluate what happened",
"""Offline logging writes each taken transition once, in the documented schema, with the episode's own ids and step numbers, the actions the environment received and their probabilities, within the step limits; the same seed gives the same data.
Uploading hands the whole table and matching arguments to the timeline operator.
Evaluating a published model runs the requested episodes with the asked-for module and fails exactly when the mean reward is below the bar; normalisers built from an environment carry its own bounds.""",
["inputs", "histories", "configurations"], "all sizes, episode lengths and step limits for a scripted environment; all value tables of a two-state environment; all bounds over an alphabet",
"Tests run one environment through Spark.",
["reagent/workflow/gym_batch_rl.py", "reagent/workflow/spark_utils.py", "reagent/gym/utils.py", "reagent/replay_memory/utils.py", "reagent/gym/policies/predictor_policies.py"],
[("logging", "gym_batch_rl.offline_gym"), ("upload", "gym_batch_rl.timeline_operator"), ("evaluation", "gym_batch_rl.evaluate_gym"), ("normalisers", "gym.utils.build_normalizer")])

prop("W03", "Model managers assemble exactly the configured training run",
"""For every model manager and configuration, the built trainer has separate networks with the inputs and outputs that the normalisation data, actions and metrics call for, targets equal to their source, and trains like one made by hand with the written options.
Its serving modules and its online and served policies decide by the networks as they are trained, with action names, masks and action bounds in the right place.
Incomplete normalisation data, unusable actions or options and a second initialisation are refused.""",
["configurations", "inputs"], "all managers x action counts, metrics, evaluation switch, critics, builders, feature types x each option alone and all together",
"Tests run a few sample configurations and look at the final reward.",
["reagent/workflow/model_managers/model_manager.py", "reagent/workflow/model_managers/discrete_dqn_base.py", "reagent/workflow/model_managers/actor_critic_base.py", "reagent/workflow/model_managers/parametric_dqn_base.py", "reagent/workflow/model_managers/slate_q_base.py", "reagent/workflow/model_managers/world_model_base.py", "reagent/gym/policies/predictor_policies.py"],
[("construction", "ModelManager.initialize_trainer"), ("trainers", "workflow/model_managers/*/*.build_trainer"), ("serving", "build_serving_modules"), ("policies", "create_policy")])

prop("M01", "Networks compute their documented function for every configuration",
"""Every network a builder makes has the configured layer sizes and activations and maps each row independently, with outputs (values, advantages, distributions, mixtures, action log-probabilities) that satisfy their definitions for every input.
A network's declared prototype input, export and copy compute the same function.""",
["inputs", "configurations"], "all builders x small layer/activation options x grid inputs x batch sizes",
"Tests check output shapes.",
["reagent/models/fully_connected_network.py", "reagent/models/actor.py", "reagent/models/dqn.py", "reagent/models/dueling_q_network.py", "reagent/models/categorical_dqn.py", "reagent/models/critic.py", "reagent/models/bcq.py", "reagent/models/embedding_bag_concat.py", "reagent/models/containers.py", "reagent/models/mlp_scorer.py", "reagent/models/base.py", "reagent/models/convolutional_network.py", "reagent/net_builder/unions.py"],
[("networks", "reagent/models/*"), ("builders", "reagent/net_builder/*")])

prop("C03", "Objects survive JSON, and configuration files reach the workflow",
"""Every data class of numbers, strings, optional values, lists, dictionaries and named tuples, written to JSON and read back, is equal to the original with the same types; unknown, missing or malformed contents are refused.
Running a workflow from the command line calls it once with the file's parameters converted to their declared types and the defaults of the others, ignores unrelated keys, and fails otherwise.""",
["inputs", "configurations"], "all values over an alphabet for every field type, two levels of nesting; all subsets of parameters and defaults",
"Tests round-trip a few objects; the command line has none.",
["reagent/json_serialize.py", "reagent/workflow/cli.py", "reagent/debug_on_error.py"],
[("round trip", "json_serialize.object_to_json / json_to_object"), ("command line", "cli.run")])

prop("D01", "Typed batches keep their fields through every conversion",
"""Building typed training inputs from dictionaries, moving, copying, concatenating or masking them keeps each field's values and rows together, refuses inconsistent inputs, and computed fields equal their definition.""",
["inputs", "configurations"], "all field presence patterns and small batches of every typed input",
"Tests construct a few inputs.",
["reagent/types.py", "reagent/base_dataclass.py", "reagent/torch_utils.py"],
[("conversion", "TensorDataClass / *.from_dict"), ("tensor helpers", "torch_utils.*")])

NA_SERVING = "The C++ serving library cannot be built here (Bazel/CMake dependencies folly, fbthrift, glog, libtorch headers are not present), so its executions cannot be enumerated, and a model alone would not be bound to the code."
prop("N01", "The serving engine executes a decision plan like its operator graph",
"""For every decision plan and request, the serving engine evaluates the plan's operators in dependency order and returns the ranked actions of the plan's outputs, and feedback is joined to the decision it belongs to.""",
["inputs", "schedules"], "all plans and request interleavings", "The C++ tests cover single plans.",
["serving/reagent/serving/core"], [("operators", "serving/reagent/serving/core/Operators*")], na=NA_SERVING)
prop("N02", "The timeline operator links each logged step with its successor",
"""For every logged table, the timeline transformation pairs each step of an episode with its successor step, discounts the remaining rewards and drops incomplete episodes as configured.""",
["inputs", "configurations"], "all small tables", "The Scala tests cover fixed tables.",
["preprocessing"], [("Timeline", "preprocessing/src/main/scala")], na="The Scala/Spark code cannot be built or run here (no Spark, no Maven cache), so no execution of it can be enumerated; checking a separate model would not be bound to the code.")

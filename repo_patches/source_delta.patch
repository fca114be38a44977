From 5befa7de47057d3ac529abd3d2adb3d6254d37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 001/133] fix: keep the batch dim when sampling one transition
 with sparse elements

---
 reagent/replay_memory/circular_replay_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ce5fabd..0494410 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -723,7 +723,11 @@ class ReplayBuffer(object):
         stack_indices = indices.unsqueeze(1) + torch.arange(-self._stack_size + 1, 1)
         # pyre-fixme[16]: `Tensor` has no attribute `__imod__`.
         stack_indices %= self._replay_capacity
-        retval = self._store[key][stack_indices]
+        store = self._store[key]
+        if isinstance(store, np.ndarray):
+            # numpy treats a 1-element tensor as a scalar index, dropping the dims
+            stack_indices = stack_indices.numpy()
+        retval = store[stack_indices]
         return self._key_to_replay_elem[key].metadata.sample_to_output(retval)
 
     def _get_steps(self, multistep_indices: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From d0efb941495f60575601e2b0c94209dc8ea03062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 002/133] fix: checkpoint which replay buffer indices can be
 sampled, restore all or nothing

---
 .../replay_memory/circular_replay_buffer.py   | 52 ++++++++++++++-----
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 0494410..80c3f88 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -272,6 +272,14 @@ STORE_FILENAME_PREFIX = "$store$_"
 # This constant determines how many iterations a checkpoint is kept for.
 CHECKPOINT_DURATION = 4
 
+# Private members which are part of the state of the buffer: without them nothing
+# in a restored buffer could be sampled.
+CHECKPOINTABLE_PRIVATE_MEMBERS = [
+    "_is_index_valid",
+    "_num_valid_indices",
+    "_num_transitions_in_current_episode",
+]
+
 REQUIRED_KEYS = ["observation", "action", "reward", "terminal"]
 
 
@@ -773,14 +781,18 @@ class ReplayBuffer(object):
         """Return the dict of elements of the class for checkpointing.
         Returns:
           checkpointable_elements: dict containing all non private (starting with
-          _) members + all the arrays inside self._store.
+          _) members + the private members tracking which indices can be sampled
+          + all the arrays inside self._store.
         """
         checkpointable_elements = {}
         for member_name, member in self.__dict__.items():
             if member_name == "_store":
                 for array_name, array in self._store.items():
                     checkpointable_elements[STORE_FILENAME_PREFIX + array_name] = array
-            elif not member_name.startswith("_"):
+            elif (
+                not member_name.startswith("_")
+                or member_name in CHECKPOINTABLE_PRIVATE_MEMBERS
+            ):
                 checkpointable_elements[member_name] = member
         return checkpointable_elements
 
@@ -808,10 +820,12 @@ class ReplayBuffer(object):
                     # STORE_FILENAME_PREFIX indicates that the variable is contained in
                     # self._store.
                     if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        np.save(
-                            outfile, self._store[array_name].numpy(), allow_pickle=False
-                        )
+                        array = self._store[attr[len(STORE_FILENAME_PREFIX) :]]
+                        if isinstance(array, torch.Tensor):
+                            np.save(outfile, array.numpy(), allow_pickle=False)
+                        else:
+                            # sparse elements are kept in arrays of python objects
+                            pickle.dump(array, outfile)
                     # Some numpy arrays might not be part of storage
                     elif isinstance(self.__dict__[attr], np.ndarray):
                         np.save(outfile, self.__dict__[attr], allow_pickle=False)
@@ -848,17 +862,27 @@ class ReplayBuffer(object):
             if not os.path.exists(filename):
                 raise FileNotFoundError(None, None, "Missing file: {}".format(filename))
         # If we've reached this point then we have verified that all expected files
-        # are available.
-        for attr in save_elements:
+        # are available. Read them all before changing anything, as any of them could
+        # be truncated.
+        loaded_elements = {}
+        for attr, member in save_elements.items():
             filename = self._generate_filename(checkpoint_dir, attr, suffix)
             with open(filename, "rb") as f:
                 with gzip.GzipFile(fileobj=f) as infile:
-                    if attr.startswith(STORE_FILENAME_PREFIX):
-                        array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        self._store[array_name] = torch.from_numpy(
+                    if attr.startswith(STORE_FILENAME_PREFIX) and isinstance(
+                        member, torch.Tensor
+                    ):
+                        loaded_elements[attr] = torch.from_numpy(
                             np.load(infile, allow_pickle=False)
                         )
-                    elif isinstance(self.__dict__[attr], np.ndarray):
-                        self.__dict__[attr] = np.load(infile, allow_pickle=False)
+                    elif not attr.startswith(STORE_FILENAME_PREFIX) and isinstance(
+                        member, np.ndarray
+                    ):
+                        loaded_elements[attr] = np.load(infile, allow_pickle=False)
                     else:
-                        self.__dict__[attr] = pickle.load(infile)
+                        loaded_elements[attr] = pickle.load(infile)
+        for attr, value in loaded_elements.items():
+            if attr.startswith(STORE_FILENAME_PREFIX):
+                self._store[attr[len(STORE_FILENAME_PREFIX) :]] = value
+            else:
+                self.__dict__[attr] = value
-- 
2.43.0


From a0ad159a12d49f8efd45d1e9a9e457985a992406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 003/133] fix: never return an invalid index when prioritized
 sampling runs out of attempts

---
 reagent/replay_memory/prioritized_replay_buffer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..79f8edd 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -96,19 +96,19 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         allowed_attempts = self._max_sample_attempts
         for i in range(len(indices)):
             if not self.is_valid_transition(indices[i]):
-                if allowed_attempts == 0:
-                    raise RuntimeError(
-                        "Max sample attempts: Tried {} times but only sampled {}"
-                        " valid indices. Batch size is {}".format(
-                            self._max_sample_attempts, i, batch_size
-                        )
-                    )
                 index = indices[i]
                 while not self.is_valid_transition(index) and allowed_attempts > 0:
                     # If index i is not valid keep sampling others. Note that this
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
-- 
2.43.0


From 2fa7359570c4e1b5d59407f7ba82059d27c30b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 004/133] fix: support the default batch size when sampling
 prioritized transitions

---
 reagent/replay_memory/prioritized_replay_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 79f8edd..8d7ca52 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -137,7 +137,7 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
             if element_name == "sampling_probabilities":
                 batch = torch.from_numpy(
                     self.get_priority(transition.indices.numpy().astype(np.int32))
-                ).view(batch_size, 1)
+                ).view(-1, 1)
             else:
                 batch = getattr(transition, element_name)
             batch_arrays.append(batch)
-- 
2.43.0


From a0875b2475636c9bf92d70c289fbe6d949f02a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 005/133] fix: never sample an element of priority 0 at the end
 of the sum tree's range

---
 reagent/replay_memory/sum_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/sum_tree.py b/reagent/replay_memory/sum_tree.py
index f50afd0..a1d99d0 100644
--- a/reagent/replay_memory/sum_tree.py
+++ b/reagent/replay_memory/sum_tree.py
@@ -115,8 +115,10 @@ class SumTree(object):
             left_child = node_index * 2
 
             left_sum = nodes_at_this_depth[left_child]
-            # Each subtree describes a range [0, a), where a is its value.
-            if query_value < left_sum:  # Recurse into left subtree.
+            # Each subtree describes a range [0, a), where a is its value. At the very
+            # end of the range, stay clear of subtrees without any priority.
+            if query_value < left_sum or nodes_at_this_depth[left_child + 1] == 0.0:
+                # Recurse into left subtree.
                 node_index = left_child
             else:  # Recurse into right subtree.
                 node_index = left_child + 1
-- 
2.43.0


From f7b3408e6d353f728c73a7b3028b94de614f56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 006/133] fix: export every replay buffer transition exactly
 once

---
 reagent/replay_memory/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..022388f 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -27,7 +27,8 @@ def replay_buffer_to_pre_timeline_df(
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
     n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    # every transition once, and not as many draws with replacement
+    batch = replay_buffer.sample_all_valid_transitions()
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0


From 9948179863122666afe7a2d3dbd75305467ae59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:33 +0000
Subject: [PATCH 007/133] fix: support features of type CLIP_LOG in the
 preprocessor

---
 reagent/preprocessing/preprocessor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index f8d3b4f..31d0e62 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -214,6 +214,11 @@ class Preprocessor(Module):
         # ONNX doesn't support != yet
         return self.one_tensor - (input == self.zero_tensor).float()
 
+    def _create_parameters_CLIP_LOG(
+        self, begin_index: int, norm_params: List[NormalizationParameters]
+    ):
+        pass
+
     def _preprocess_CLIP_LOG(
         self,
         begin_index: int,
@@ -578,7 +583,7 @@ class Preprocessor(Module):
         feature_type = norm_params[0].feature_type
         min_value, max_value = batch.min(), batch.max()
 
-        if feature_type in ("BOXCOX", "CONTINUOUS", "DO_NOT_PREPROCESS"):
+        if feature_type in ("BOXCOX", "CONTINUOUS", "DO_NOT_PREPROCESS", "CLIP_LOG"):
             # Continuous features may be in range (-inf, inf)
             pass
         elif max_value.item() > MAX_FEATURE_VALUE:
-- 
2.43.0


From b03f1da78c7cf18dad189fb1fbe56e79a61e5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:09 +0000
Subject: [PATCH 008/133] fix: with skip_box_cox, normalize by the statistics
 of the original values

---
 reagent/preprocessing/normalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/preprocessing/normalization.py b/reagent/preprocessing/normalization.py
index cb1c07c..4f22d19 100644
--- a/reagent/preprocessing/normalization.py
+++ b/reagent/preprocessing/normalization.py
@@ -93,7 +93,7 @@ def identify_parameter(
                 k2_original, p_original, k2_boxcox, p_boxcox
             )
         )
-        if lambda_ < 0.9 or lambda_ > 1.1:
+        if not skip_box_cox and (lambda_ < 0.9 or lambda_ > 1.1):
             # Lambda is far enough from 1.0 to be worth doing boxcox
             if k2_original > k2_boxcox * 10 and k2_boxcox <= quantile_k2_threshold:
                 # The boxcox output is significantly more normally distributed
@@ -109,7 +109,7 @@ def identify_parameter(
                 ):
                     values = candidate_values
                     boxcox_lambda = float(lambda_)
-        if boxcox_lambda is None or skip_box_cox:
+        if boxcox_lambda is None:
             boxcox_shift = None
             boxcox_lambda = None
         if boxcox_lambda is not None:
-- 
2.43.0


From 90ec00ed7da817c80ebdc114b9981bfd31bea9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 009/133] fix: a union's selected value may be falsy

---
 reagent/core/tagged_union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/core/tagged_union.py b/reagent/core/tagged_union.py
index 38b53b2..909af29 100644
--- a/reagent/core/tagged_union.py
+++ b/reagent/core/tagged_union.py
@@ -43,7 +43,9 @@ else:
         @property
         def value(self):
             selected_fields = [
-                field.name for field in fields(self) if getattr(self, field.name, None)
+                field.name
+                for field in fields(self)
+                if getattr(self, field.name, None) is not None
             ]
             assert (
                 len(selected_fields) == 1
-- 
2.43.0


From 1d945de1bc059219a8ab83de59727ae6957b13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 010/133] fix: recognize NamedTuples when serializing to JSON

---
 reagent/json_serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/json_serialize.py b/reagent/json_serialize.py
index 7169308..4992cb4 100644
--- a/reagent/json_serialize.py
+++ b/reagent/json_serialize.py
@@ -5,7 +5,7 @@ import collections
 import json
 import logging
 from dataclasses import asdict, dataclass, fields, is_dataclass
-from typing import Any, NamedTuple, Type, Union
+from typing import Any, Type, Union
 
 
 logger = logging.getLogger(__name__)
@@ -17,7 +17,7 @@ def object_to_json(o: Any) -> str:
 
 
 def prepare_for_json(o: Any) -> Any:
-    if isinstance(o, NamedTuple):
+    if isinstance(o, tuple) and hasattr(o, "_fields"):  # NamedTuple
         d = {}
         for field_name in o._fields:
             d[field_name] = prepare_for_json(getattr(o, field_name))
-- 
2.43.0


From 5a9dc5bba5862fde8101b6ea0ee8e17f19383bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 011/133] fix: BCQ must not modify the batch's action masks nor
 require max-Q learning

---
 reagent/training/dqn_trainer.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..58369c4 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -175,7 +175,10 @@ class DQNTrainer(DQNTrainerBaseLightning):
                     training_batch.next_state,
                     self.bcq_drop_threshold,
                 )
-                possible_next_actions_mask *= action_on_policy
+                # not in place: the mask may be the batch's own tensor
+                possible_next_actions_mask = (
+                    possible_next_actions_mask * action_on_policy
+                )
             next_q_values, max_q_action_idxs = self.get_max_q_values_with_target(
                 all_next_q_values,
                 all_next_q_values_target,
@@ -220,13 +223,12 @@ class DQNTrainer(DQNTrainerBaseLightning):
         )
 
         if self.maxq_learning:
-            possible_actions_mask = training_batch.possible_actions_mask
-
-        if self.bcq:
-            action_on_policy = get_valid_actions_from_imitator(
-                self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
-            )
-            possible_actions_mask *= action_on_policy
+            possible_actions_mask = training_batch.possible_actions_mask.float()
+            if self.bcq:
+                action_on_policy = get_valid_actions_from_imitator(
+                    self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
+                )
+                possible_actions_mask = possible_actions_mask * action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 6a3d37b7ecfe9595a492104b43833b8050add3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 012/133] fix: order the QR-DQN optimizers like the losses they
 minimize

---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From 8b9fd990c13c1bf06c4dd7c6b4f851ada85a83ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 013/133] fix: learn from terminal transitions without next
 action in C51 without max-Q learning

---
 reagent/training/c51_trainer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reagent/training/c51_trainer.py b/reagent/training/c51_trainer.py
index 0305b2e..0b702a8 100644
--- a/reagent/training/c51_trainer.py
+++ b/reagent/training/c51_trainer.py
@@ -122,7 +122,12 @@ class C51Trainer(RLTrainerMixin, ReAgentLightningModule):
             )
             next_dist = next_dist[range(rewards.shape[0]), next_action.reshape(-1)]
         else:
-            next_dist = (next_dist * training_batch.next_action.unsqueeze(-1)).sum(1)
+            next_action = training_batch.next_action.float()
+            next_dist = (next_dist * next_action.unsqueeze(-1)).sum(1)
+            # A terminal transition may have no next action. Its return is the reward,
+            # whatever the next distribution, as long as that sums to 1.
+            no_next_action = 1 - next_action.sum(1, keepdim=True)
+            next_dist = next_dist + no_next_action / self.num_atoms
 
         # Build target distribution
         target_Q = rewards + discount_tensor * not_terminal * self.support
-- 
2.43.0


From ba393e8413a6c468ede7ad1efac5bf4d2725a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 014/133] fix: resolve the default parameters of the SlateQ,
 reward and ranking trainers

---
 reagent/training/ranking/seq2slate_attn_trainer.py | 2 ++
 reagent/training/ranking/seq2slate_dr_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_sim_trainer.py  | 2 ++
 reagent/training/ranking/seq2slate_tf_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_trainer.py      | 2 ++
 reagent/training/reward_network_trainer.py         | 2 ++
 reagent/training/slate_q_trainer.py                | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/reagent/training/ranking/seq2slate_attn_trainer.py b/reagent/training/ranking/seq2slate_attn_trainer.py
index 1c11f26..55dd000 100644
--- a/reagent/training/ranking/seq2slate_attn_trainer.py
+++ b/reagent/training/ranking/seq2slate_attn_trainer.py
@@ -5,6 +5,7 @@ import logging
 import reagent.types as rlt
 import torch
 import torch.nn as nn
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -25,6 +26,7 @@ class Seq2SlatePairwiseAttnTrainer(Trainer):
     https://arxiv.org/pdf/1904.06813.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_dr_trainer.py b/reagent/training/ranking/seq2slate_dr_trainer.py
index d63d110..7d78a4b 100644
--- a/reagent/training/ranking/seq2slate_dr_trainer.py
+++ b/reagent/training/ranking/seq2slate_dr_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import (
     Seq2SlateMode,
@@ -27,6 +28,7 @@ class Seq2SlateDifferentiableRewardTrainer(Trainer):
     https://arxiv.org/pdf/1810.02019.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_sim_trainer.py b/reagent/training/ranking/seq2slate_sim_trainer.py
index d9df4f1..f85ca02 100644
--- a/reagent/training/ranking/seq2slate_sim_trainer.py
+++ b/reagent/training/ranking/seq2slate_sim_trainer.py
@@ -7,6 +7,7 @@ from typing import List, Optional
 import numpy as np
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.models.seq2slate import BaselineNet, Seq2SlateMode, Seq2SlateTransformerNet
@@ -74,6 +75,7 @@ class Seq2SlateSimulationTrainer(Trainer):
     generated randomly and the reward computed by a reward network
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_tf_trainer.py b/reagent/training/ranking/seq2slate_tf_trainer.py
index b79571c..86ba91c 100644
--- a/reagent/training/ranking/seq2slate_tf_trainer.py
+++ b/reagent/training/ranking/seq2slate_tf_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
 from reagent.models.seq2slate import Seq2SlateTransformerNet
@@ -23,6 +24,7 @@ class Seq2SlateTeacherForcingTrainer(Trainer):
     the ground-truth sequences are available)
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_trainer.py b/reagent/training/ranking/seq2slate_trainer.py
index 09d1853..3530709 100644
--- a/reagent/training/ranking/seq2slate_trainer.py
+++ b/reagent/training/ranking/seq2slate_trainer.py
@@ -5,6 +5,7 @@ from typing import Optional, Tuple
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -28,6 +29,7 @@ logger = logging.getLogger(__name__)
     train_advantages=torch.Tensor,
 )
 class Seq2SlateTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/reward_network_trainer.py b/reagent/training/reward_network_trainer.py
index c72ec7f..065e75c 100644
--- a/reagent/training/reward_network_trainer.py
+++ b/reagent/training/reward_network_trainer.py
@@ -6,6 +6,7 @@ from typing import Optional
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.models.base import ModelBase
 from reagent.optimizer.union import Optimizer__Union
@@ -54,6 +55,7 @@ def _get_loss_function(loss_fn: LossFunction, reward_ignore_threshold):
 
 
 class RewardNetTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         reward_net: ModelBase,
diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 815278f..1bbe941 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -8,6 +8,7 @@ import reagent.parameters as rlp
 import reagent.types as rlt
 import torch
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.optimizer import Optimizer__Union, SoftUpdate
 from reagent.training.reagent_lightning_module import ReAgentLightningModule
@@ -17,6 +18,7 @@ logger = logging.getLogger(__name__)
 
 
 class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
+    @resolve_defaults
     def __init__(
         self,
         q_network,
-- 
2.43.0


From 5971b6822207ba130fcbc9e8ab3f190bc1a986f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 015/133] fix: SlateQ must not modify the batch's next actions

---
 reagent/training/slate_q_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 1bbe941..40e61e3 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -80,7 +80,7 @@ class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
             assert terminal_mask.shape == (
                 action.shape[0],
             ), f"{terminal_mask.shape} != 0th dim of {action.shape}"
-            action[terminal_mask] = torch.zeros_like(action[terminal_mask])
+            action = action.masked_fill(terminal_mask.unsqueeze(1), 0)
         docs = state.candidate_docs
         assert docs is not None
         return docs.select_slate(action)
-- 
2.43.0


From ec5759d07d98ffcd73be9853a7122812364100a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 016/133] fix: skip the target network update when the training
 step yields None

---
 reagent/optimizer/soft_update.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/optimizer/soft_update.py b/reagent/optimizer/soft_update.py
index e6819c6..d41a9d5 100644
--- a/reagent/optimizer/soft_update.py
+++ b/reagent/optimizer/soft_update.py
@@ -46,6 +46,9 @@ class SoftUpdate(torch.optim.Optimizer):
         if closure is not None:
             with torch.enable_grad():
                 loss = closure()
+            if loss is None:
+                # The training step yielded None, i.e., skip this update
+                return None
 
         for group in self.param_groups:
             params = group["params"]
-- 
2.43.0


From c1410f2b87506a54b620f1ab1544e96d90e617ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 017/133] fix: keep CRR's losses aligned with its optimizers on
 batches without policy update

---
 reagent/training/discrete_crr_trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..01cb705 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -280,8 +280,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -317,5 +316,8 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         # Use the soft update rule to update the target networks.
         # Note: this yield has to be the last one, since SoftUpdate is the last
         # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
-        yield result
+        if batch_idx % self.delayed_policy_update == 0:
+            yield self.soft_update_result()
+        else:
+            # Yielding None prevents the target networks from updating
+            yield None
-- 
2.43.0


From c9aa2f83ba2aed290bcae71d6ccbac2694acfcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 018/133] fix: keep SAC's learned entropy temperature in single
 precision

---
 reagent/training/sac_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/sac_trainer.py b/reagent/training/sac_trainer.py
index d3ff892..31b43a9 100644
--- a/reagent/training/sac_trainer.py
+++ b/reagent/training/sac_trainer.py
@@ -122,7 +122,7 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         if alpha_optimizer is not None:
             self.target_entropy = target_entropy
             self.log_alpha = torch.nn.Parameter(
-                torch.tensor([np.log(self.entropy_temperature)])
+                torch.tensor([float(np.log(self.entropy_temperature))])
             )
 
         self.logged_action_uniform_prior = logged_action_uniform_prior
-- 
2.43.0


From f886099b3def08ea995c09783924921517f9b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 019/133] fix: summary_writer failed with a single logger

---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..caf76d0 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From b4a6a773391df598536c6e3b37bfcff49db17919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 020/133] fix: training continued with the losses of an
 interrupted batch

---
 reagent/training/reagent_lightning_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index caf76d0..d24cd11 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -94,7 +94,8 @@ class ReAgentLightningModule(pl.LightningModule):
     # pyre-fixme[14]: `training_step` overrides method defined in `LightningModule`
     #  inconsistently.
     def training_step(self, batch, batch_idx: int, optimizer_idx: int):
-        if self._training_step_generator is None:
+        # A generator may be left over from a batch that was interrupted
+        if self._training_step_generator is None or optimizer_idx == 0:
             if self._training_batch_type and isinstance(batch, dict):
                 batch = self._training_batch_type.from_dict(batch)
             self._training_step_generator = self.train_step_gen(batch, batch_idx)
-- 
2.43.0


From 738eb3a18e214437dd5a0d5a2bf103acddc83d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 021/133] fix: C51 target projection could leave the support by
 rounding

---
 reagent/training/c51_trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/training/c51_trainer.py b/reagent/training/c51_trainer.py
index 0b702a8..d79bb80 100644
--- a/reagent/training/c51_trainer.py
+++ b/reagent/training/c51_trainer.py
@@ -135,6 +135,8 @@ class C51Trainer(RLTrainerMixin, ReAgentLightningModule):
 
         # rescale to indicies [0, 1, ..., N-1]
         b = (target_Q - self.qmin) / self.scale_support
+        # rounding must not push an index beyond the support
+        b = b.clamp(0, self.num_atoms - 1)
         lo = b.floor().to(torch.int64)
         up = b.ceil().to(torch.int64)
 
-- 
2.43.0


From 2d4a80bed881aa2290609102c355aa3370bc4482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 022/133] fix: the imitator trainer did not accumulate
 gradients over the minibatches of a step

---
 reagent/training/imitator_training.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/training/imitator_training.py b/reagent/training/imitator_training.py
index 25aef36..c547327 100644
--- a/reagent/training/imitator_training.py
+++ b/reagent/training/imitator_training.py
@@ -49,6 +49,7 @@ class ImitatorTrainer(RLTrainer):
             actual_action_idxs = torch.max(learning_input.action, dim=1)[1]
 
             if train:
+                self.minibatch += 1
                 imitator_loss = torch.nn.CrossEntropyLoss()
                 bcq_loss = imitator_loss(action_preds, actual_action_idxs)
                 bcq_loss.backward()
-- 
2.43.0


From 2529ac69d60231b65826561b269109290a9079f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 023/133] fix: keep the lightning trainer of discrete DQN runs,
 so that saved trainers can be warm-started

---
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 53f9d9b..1413f03 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -162,7 +162,7 @@ class DiscreteDQNBase(ModelManager):
         self.trainer.set_reporter(reporter)
         assert data_module
 
-        train_eval_lightning(
+        self._lightning_trainer = train_eval_lightning(
             train_dataset=train_dataset,
             eval_dataset=eval_dataset,
             trainer_module=self.trainer,
-- 
2.43.0


From e367566ae53e807bea2dae69790234e5fdbd988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 024/133] fix: stop runs resumed from a checkpoint of their
 last epoch

---
 reagent/training/reagent_lightning_module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index d24cd11..f6a7b7c 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -153,3 +153,7 @@ class StoppingEpochCallback(pl.Callback):
         logger.info(f"cleanly stopped: {cleanly_stopped}")
         if cleanly_stopped:
             pl_module.increase_next_stopping_epochs(self.num_epochs)
+        elif trainer.current_epoch > pl_module._next_stopping_epoch.item():
+            # Interrupted in its last epoch, which counts as done in the checkpoint:
+            # run one more epoch, instead of never meeting the stopping epoch
+            pl_module._next_stopping_epoch[0] = trainer.current_epoch
-- 
2.43.0


From af94bd3b11cc61571c6c5676e46ca4245dd01b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:24 +0000
Subject: [PATCH 025/133] fix: concurrent saves of trainers no longer share one
 temporary file

---
 reagent/workflow/model_managers/model_manager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 31b7250..95e8751 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -3,6 +3,8 @@
 import abc
 import dataclasses
 import logging
+import os
+import tempfile
 import time
 from typing import Dict, List, Optional, Tuple
 
@@ -321,10 +323,11 @@ class ModelManager(metaclass=RegistryMeta):
             # HACK: since lightning_trainer.save_checkpoint can only deal with
             # local file paths (not even file handlers), we save to local file
             # first, and then use PathManager
-            local_path = "/tmp/lightning_save_checkpoint_local_copy"
-            lightning_trainer.save_checkpoint(local_path)
-            with open(local_path, "rb") as local_f:
-                checkpoint_contents = local_f.read()
+            with tempfile.TemporaryDirectory() as local_dir:
+                local_path = os.path.join(local_dir, "lightning_save_checkpoint")
+                lightning_trainer.save_checkpoint(local_path)
+                with open(local_path, "rb") as local_f:
+                    checkpoint_contents = local_f.read()
             with PathManager.open(output_path, "wb") as output_f:
                 output_f.write(checkpoint_contents)
         else:
-- 
2.43.0


From 708c44d685ca4c9883227f4cc5bd421d992f23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 026/133] fix: PPO takes the minimum of the clipped and
 unclipped objective at every step, not of their sums

---
 reagent/training/ppo_trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 67a80cb..eb7cecb 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -158,14 +158,14 @@ class PPOTrainer(Trainer):
         ).float()
 
         losses["ppo_loss"] = -torch.min(
-            offset_reinforcement.float() @ characteristic_eligibility,
+            offset_reinforcement.float() * characteristic_eligibility,
             offset_reinforcement.float()
-            @ torch.clamp(
+            * torch.clamp(
                 characteristic_eligibility,
                 1 - self.ppo_epsilon,
                 1 + self.ppo_epsilon,
             ),
-        )
+        ).sum()
         if self.entropy_weight != 0:
             entropy = self.sampler.entropy(scores)
             # "-" bcs minimizing, not maximizing
-- 
2.43.0


From d2d594cdc2a73663ce76a8e6adf605da651d0bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:06 +0000
Subject: [PATCH 027/133] fix: normalizing the returns of a single-step
 trajectory gave NaN, and whiten changed its input

---
 reagent/training/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/training/utils.py b/reagent/training/utils.py
index 62563c9..cd94ce2 100644
--- a/reagent/training/utils.py
+++ b/reagent/training/utils.py
@@ -31,7 +31,10 @@ def rescale_actions(
 def whiten(x: torch.Tensor, subtract_mean: bool) -> torch.Tensor:
     numer = x
     if subtract_mean:
-        numer -= x.mean()
+        numer = x - x.mean()
+    if x.numel() == 1:
+        # The standard deviation of a single value is undefined
+        return numer
     return numer / (x.std() + EPS)
 
 
-- 
2.43.0


From 8d448fa88fa4f2ab34cfce44a966390d16e71bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 028/133] fix: encoder scores of a single request or a single
 slot lost a dimension

---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From acf85211c48be409dbf401c7e68f08c30b0e7454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 029/133] fix: cross-entropy planning failed with fewer than
 ten candidates

---
 reagent/models/cem_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..c69f6f0 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,7 +185,7 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(self.cem_pop_size // 10, 1) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
             acc_reward_vec[i] = self.acc_rewards_of_one_solution(
                 init_state, solutions[i], i
-- 
2.43.0


From 1b5f15ed39cf9d61d8a26f032fd41ab8aff42b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 030/133] fix: cross-entropy planning failed with more than one
 trajectory per candidate

---
 reagent/models/cem_planner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index c69f6f0..db08629 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -187,8 +187,8 @@ class CEMPlannerNetwork(nn.Module):
         for i in range(self.cem_pop_size):
             if i % max(self.cem_pop_size // 10, 1) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
-            acc_reward_vec[i] = self.acc_rewards_of_one_solution(
-                init_state, solutions[i], i
+            acc_reward_vec[i] = np.mean(
+                self.acc_rewards_of_one_solution(init_state, solutions[i], i)
             )
         return acc_reward_vec
 
-- 
2.43.0


From 4908f6978421ce839aa59ad2398bf2cf5cfc0b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 031/133] fix: unreduced mixture loss had a wrong shape for a
 batch of one

---
 reagent/models/mdn_rnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/mdn_rnn.py b/reagent/models/mdn_rnn.py
index 73057b3..caae4d9 100644
--- a/reagent/models/mdn_rnn.py
+++ b/reagent/models/mdn_rnn.py
@@ -225,7 +225,7 @@ def gmm_loss(batch, mus, sigmas, logpi, reduce=True):
     g_probs = torch.exp(g_log_probs)
     probs = torch.sum(g_probs, dim=-1)
 
-    log_prob = max_log_probs.squeeze() + torch.log(probs)
+    log_prob = max_log_probs.squeeze(-1) + torch.log(probs)
     if reduce:
         return -(torch.mean(log_prob))
     return -log_prob
-- 
2.43.0


From c53d222daa5881532cd119df5dcd3cd8e51647be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 032/133] fix: the evolution pool imported an unused module
 that only exists at Facebook

---
 reagent/training/gradient_free/evolution_pool.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reagent/training/gradient_free/evolution_pool.py b/reagent/training/gradient_free/evolution_pool.py
index 0af0528..ebc2a99 100644
--- a/reagent/training/gradient_free/evolution_pool.py
+++ b/reagent/training/gradient_free/evolution_pool.py
@@ -5,7 +5,6 @@ import logging
 from typing import Dict, List
 
 import torch
-import torch.fb.rendezvous.zeus
 import torch.nn
 import torch.optim
 from reagent.parameters import EvolutionParameters
-- 
2.43.0


From 9ed7d222d697494a6aa8cdf6ae977ee01629700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 033/133] fix: evolution-strategy workers passed their process
 group as the reduction operator

---
 reagent/training/gradient_free/es_worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/es_worker.py b/reagent/training/gradient_free/es_worker.py
index 4176021..81e90ef 100644
--- a/reagent/training/gradient_free/es_worker.py
+++ b/reagent/training/gradient_free/es_worker.py
@@ -41,7 +41,7 @@ class EsWorker:
         logger.info("Pushing reward")
 
         # Sum the rewards across all machines
-        distributed.all_reduce(rewards, self.process_group)
+        distributed.all_reduce(rewards, group=self.process_group)
 
         # Divide the rewards by the number of machines.  We do this because
         # there is no "average" all_reduce operator.
-- 
2.43.0


From 621e6df5b9e3c56b3630d1cdeb402aa00372a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 034/133] fix: only the first logged metric was accumulated
 into metric values

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..0531443 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From 56cf8e475e7d71cce3ba45bf594c4a9479bcfb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 035/133] fix: metric evaluation pages kept the reward's
 predictions for the logged action

---
 reagent/evaluation/evaluation_data_page.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0531443..f2fe77d 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -604,9 +604,21 @@ class EvaluationDataPage(NamedTuple):
             model_rewards=self.model_metrics[
                 :, i * num_actions : (i + 1) * num_actions
             ],
+            model_rewards_for_logged_action=torch.sum(
+                self.model_metrics[:, i * num_actions : (i + 1) * num_actions]
+                * self.action_mask,
+                dim=1,
+                keepdim=True,
+            ),
             model_values=self.model_metrics_values[
                 :, i * num_actions : (i + 1) * num_actions
             ],
+            model_values_for_logged_action=torch.sum(
+                self.model_metrics_values[:, i * num_actions : (i + 1) * num_actions]
+                * self.action_mask,
+                dim=1,
+                keepdim=True,
+            ),
             logged_metrics=None,
             logged_metrics_values=None,
             model_metrics=None,
-- 
2.43.0


From a5a657d20b5a1601675c772baf15156ddc6542a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 036/133] fix: parametric evaluation pages interleaved metrics
 and actions

---
 reagent/evaluation/evaluation_data_page.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index f2fe77d..831c96d 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -251,7 +251,12 @@ class EvaluationDataPage(NamedTuple):
         model_rewards = model_rewards.reshape(possible_actions_mask.shape)
 
         model_metrics = rewards_and_metric_rewards[:, 1:]
-        model_metrics = model_metrics.reshape(possible_actions_mask.shape[0], -1)
+        # all actions of the first metric, then all actions of the second, ...
+        model_metrics = (
+            model_metrics.reshape(*possible_actions_mask.shape, -1)
+            .transpose(1, 2)
+            .reshape(possible_actions_mask.shape[0], -1)
+        )
 
         model_values_for_logged_action = trainer.q_network(states, actions)
         model_rewards_and_metrics_for_logged_action = trainer.reward_network(
-- 
2.43.0


From db45238240b057847cbc919217a0d74c6efb93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 037/133] fix: bootstrapped errors of fewer than four values
 were nan

---
 reagent/evaluation/cpe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/cpe.py b/reagent/evaluation/cpe.py
index 2038349..984b4cd 100644
--- a/reagent/evaluation/cpe.py
+++ b/reagent/evaluation/cpe.py
@@ -183,7 +183,9 @@ def bootstrapped_std_error_of_mean(data, sample_percent=0.25, num_samples=1000):
     """
     if isinstance(data, torch.Tensor):
         data = data.cpu().numpy()
-    sample_size = int(sample_percent * len(data))
+    # a single value may come squeezed to zero dimensions
+    data = np.reshape(data, -1)
+    sample_size = max(1, int(sample_percent * len(data)))
     means = [
         np.mean(np.random.choice(data, size=sample_size, replace=True))
         for i in range(num_samples)
-- 
2.43.0


From 339ef5af420fbbbcd6c90088fa46a84d62b71295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 038/133] fix: logged estimates printed wrong errors and raw
 values

---
 reagent/evaluation/cpe.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/cpe.py b/reagent/evaluation/cpe.py
index 984b4cd..231bd40 100644
--- a/reagent/evaluation/cpe.py
+++ b/reagent/evaluation/cpe.py
@@ -45,7 +45,7 @@ class CpeEstimateSet(NamedTuple):
         self.check_estimates_exist()
 
         logger.info(
-            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.inverse_propensity.normalized,
                 self.inverse_propensity.normalized_std_error,
                 self.inverse_propensity.raw,
@@ -54,7 +54,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Direct Method : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Direct Method : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.direct_method.normalized,
                 self.direct_method.normalized_std_error,
                 self.direct_method.raw,
@@ -63,7 +63,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.doubly_robust.normalized,
                 self.doubly_robust.normalized_std_error,
                 self.doubly_robust.raw,
@@ -72,7 +72,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.weighted_doubly_robust.normalized,
                 self.weighted_doubly_robust.normalized_std_error,
                 self.weighted_doubly_robust.raw,
@@ -80,7 +80,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.sequential_doubly_robust.normalized,
                 self.sequential_doubly_robust.normalized_std_error,
                 self.sequential_doubly_robust.raw,
@@ -88,7 +88,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.magic.normalized,
                 self.magic.normalized_std_error,
                 self.magic.raw,
-- 
2.43.0


From be53da42ff3d7a9a3c9f776da93cc1b4ca649e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 039/133] fix: sequential doubly robust estimation failed on a
 single transition

---
 reagent/evaluation/sequential_doubly_robust_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/sequential_doubly_robust_estimator.py b/reagent/evaluation/sequential_doubly_robust_estimator.py
index fbeb07e..05fe826 100644
--- a/reagent/evaluation/sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/sequential_doubly_robust_estimator.py
@@ -20,8 +20,8 @@ class SequentialDoublyRobustEstimator:
 
     def estimate(self, edp: EvaluationDataPage) -> CpeEstimate:
         # For details, visit https://arxiv.org/pdf/1511.03722.pdf
-        logged_rewards = edp.logged_rewards.squeeze()
-        logged_propensities = edp.logged_propensities.squeeze()
+        logged_rewards = edp.logged_rewards.squeeze(1)
+        logged_propensities = edp.logged_propensities.squeeze(1)
 
         num_examples = edp.logged_rewards.shape[0]
 
-- 
2.43.0


From e4a8141f32c000fec6f4dc706bb1703fcd45ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 040/133] fix: ended trajectories lost their weight in weighted
 doubly robust estimation

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e16b9bc..a648c55 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -61,6 +61,8 @@ class WeightedSequentialDoublyRobustEstimator:
         target_propensity_for_logged_action = np.sum(
             np.multiply(target_propensities, actions), axis=2
         )
+        # the importance ratio stays 1 after the end of a trajectory
+        target_propensity_for_logged_action[np.sum(actions, axis=2) == 0] = 1.0
         estimated_q_values_for_logged_action = np.sum(
             np.multiply(estimated_q_values, actions), axis=2
         )
-- 
2.43.0


From c9f988d9434c40a9ac03f06ec66a81eb1a37e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 041/133] fix: MAGIC bias was added to the covariance without
 cross terms

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index a648c55..e763613 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -223,7 +223,7 @@ class WeightedSequentialDoublyRobustEstimator:
         j_step_bias[where_higher] = j_step_returns[where_higher] - high_bound
 
         covariance = np.cov(j_step_return_trajectories)
-        error = covariance + j_step_bias.T * j_step_bias
+        error = covariance + np.outer(j_step_bias, j_step_bias)
 
         # minimize mse error
         constraint = {"type": "eq", "fun": lambda x: np.sum(x) - 1.0}
-- 
2.43.0


From a5e464a9b422c3e43c5d8a5a347cb06f5d832562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 042/133] fix: MAGIC failed on few trajectories and on few
 return lengths

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e763613..4159cd2 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -106,7 +106,8 @@ class WeightedSequentialDoublyRobustEstimator:
 
         j_step_returns = np.sum(j_step_return_trajectories, axis=1)
 
-        if len(j_step_returns) == 1:
+        if len(j_step_returns) == 1 or num_trajectories == 1:
+            # no confidence bounds from a single trajectory
             weighted_doubly_robust = j_step_returns[0]
             weighted_doubly_robust_std_error = 0.0
         else:
@@ -165,6 +166,7 @@ class WeightedSequentialDoublyRobustEstimator:
                 WeightedSequentialDoublyRobustEstimator.BOOTSTRAP_SAMPLE_PCT
                 * num_subsets
             )
+            sample_size = min(max(1, sample_size), num_j_steps)
             for _ in range(
                 WeightedSequentialDoublyRobustEstimator.NUM_BOOTSTRAP_SAMPLES
             ):
-- 
2.43.0


From 1eff1b68be9c773a0e44aa0c81e0ce29d7daec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:30 +0000
Subject: [PATCH 043/133] fix: the sequential adapter dropped the last
 transition of the longest trajectory

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..5fba9f1 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From 1ba3cd0c918db794192413c39cfbc5c9a67a6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 044/133] fix: ended trajectories lost their weight in
 sequential importance sampling

---
 reagent/ope/estimators/sequential_estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..d962d5c 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -272,7 +272,10 @@ class IPSEstimator(RLEstimator):
         for ts in mdp_transitions:
             i = 0
             for t in ts:
-                if t is not None and t.action is not None and t.action_prob > 0.0:
+                if t is None:
+                    # the importance ratio stays 1 after the end of a trajectory
+                    pass
+                elif t.action is not None and t.action_prob > 0.0:
                     assert t.last_state is not None
                     pi_e[i, j] = policy(t.last_state)[t.action]
                     pi_b[i, j] = t.action_prob
-- 
2.43.0


From 249f50171ddba5a7ada730334a70da17fc481181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 045/133] fix: MAGIC did not discount the value after the
 partial return

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index d962d5c..ce87d7a 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -443,7 +443,7 @@ class MAGICEstimator(IPSEstimator):
         wdr = wdrs[:, -1].sum(0)
         next_vs = torch.zeros((n, horizon), device=self._device)
         next_vs[:, :-1] = vs[:, 1:]
-        gs = wdrs + ws * next_vs * discount
+        gs = wdrs + ws * next_vs * discount * input.gamma
         gs_normal = gs.sub(torch.mean(gs, 0))
         assert n > 1
         omiga = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", gs_normal, gs_normal)
-- 
2.43.0


From f42d111ab88d70c2c855a3705dbf546b35a4b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 046/133] fix: the unweighted sequential estimate of
 OPEvaluator was the weighted one

---
 reagent/evaluation/ope_adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 5fba9f1..75933cd 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -260,7 +260,9 @@ class OPEvaluator(Evaluator):
         )
 
         self.ope_seq_dr_estimator = SequentialOPEstimatorAdapter(
-            SeqDREstimator(device=self._device), gamma, device=self._device
+            SeqDREstimator(weighted=False, device=self._device),
+            gamma,
+            device=self._device,
         )
         self.ope_seq_weighted_dr_estimator = SequentialOPEstimatorAdapter(
             SeqDREstimator(weighted=True, device=self._device),
-- 
2.43.0


From 9911c5470880737126d0856efd71087d9282f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 047/133] fix: MAGIC failed on evaluation pages because logged
 data required gradients

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 75933cd..9ecab40 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -166,7 +166,7 @@ class SequentialOPEstimatorAdapter:
             target_propensities,
             estimated_q_values,
         ) = (
-            torch.tensor(x, dtype=torch.double, device=device, requires_grad=True)
+            torch.tensor(x, dtype=torch.double, device=device)
             for x in eq_len
         )
 
-- 
2.43.0


From 2c601b447d262b54f3708dd85dc848b2052161fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 048/133] fix: Switch-DR counted the direct estimate twice

The doubly robust term already contains the expected model reward of all
actions; adding the model reward of the actions above the threshold again
over-counts it. Only the importance weighted correction is switched off.
---
 reagent/ope/estimators/contextual_bandits_estimators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..3e9f748 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -651,12 +651,10 @@ class SwitchDREstimator(SwitchEstimator):
         tgt_props: torch.Tensor,
     ) -> torch.Tensor:
         ips_scores = (weights * actions).sum(dim=1, keepdim=True)
-        dr = ips_scores * (logged_rewards - est_rewards_for_logged_action) + (
+        correction = ips_scores * (logged_rewards - est_rewards_for_logged_action)
+        return correction * (ips_scores <= threshold).float() + (
             tgt_props * est_rewards
         ).sum(dim=1, keepdim=True)
-        return dr * (ips_scores <= threshold).float() + (
-            est_rewards * tgt_props * (weights > threshold).float()
-        ).sum(dim=1, keepdim=True)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 2de0f65cefe20d59f9908cce05a00dc3573ae8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 049/133] fix: weighted IPS divided the average reward by the
 total weight

The self-normalized estimate is the total weighted reward over the total
weight; it was too small by the number of samples, raised on logs without
any weight, and its normalized value and errors were those of plain IPS.
---
 .../ope/estimators/contextual_bandits_estimators.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 3e9f748..bb41b35 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -342,16 +342,20 @@ class IPSEstimator(Estimator):
             tgt_vals.append(tgt_result)
             acc_weight.add(weight)
             gt_avg.add(sample.ground_truth_reward)
+        scale = 1.0
+        if self._weighted and acc_weight.total > 0.0:
+            # self-normalized: divide by the average weight
+            scale = 1.0 / acc_weight.average
         (
             tgt_score_normalized,
             tgt_std_err,
             tgt_std_err_normalized,
-        ) = self._compute_metric_data(torch.tensor(tgt_vals), log_avg.average)
+        ) = self._compute_metric_data(
+            torch.tensor(tgt_vals) * scale, log_avg.average
+        )
         return EstimatorResult(
             log_reward=log_avg.average,
-            estimated_reward=tgt_avg.average
-            if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            estimated_reward=tgt_avg.average * scale,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From 4ee7f3ef1398c90e11e55b4f21d02ef8dde875b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 050/133] fix: bandit estimators without a reward model raised
 a TypeError

torch.zeros() needs a size.
---
 reagent/ope/estimators/contextual_bandits_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index bb41b35..af7cbad 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -172,7 +172,8 @@ class DMEstimator(Estimator):
             )
         trainer = self._trainer
         if trainer is None or not trainer.is_trained:
-            return 0.0, torch.zeros(), torch.zeros()
+            zeros = torch.zeros(len(action_space), device=self._device)
+            return 0.0, zeros, zeros
         assert sample.item_feature is not None
         item_feature = sample.item_feature.flatten()
         features = []
-- 
2.43.0


From 71fc3cf154573dc4580104c9fc769a0c1e030339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 051/133] fix: replaced values kept the order and probabilities
 of the old ones

The copy inherited the cached sorting and probabilities of the original.
---
 reagent/ope/estimators/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index dbd7b85..5d4550c 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -296,6 +296,7 @@ class Values(Objects[KeyType, float]):
             Values object with new values
         """
         copy = deepcopy(self)
+        copy._reset()
         if isinstance(values, Tensor):
             # pyre-fixme[16]: `Values` has no attribute `_values`.
             assert values.shape[0] == copy._values.shape[0]
-- 
2.43.0


From 4b24a54539044a0edfc39200376bd88b371ea9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 052/133] fix: sorting values again in the other direction
 returned the old order

The cached order ignored its direction.
---
 reagent/ope/estimators/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index 5d4550c..e38b649 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -242,6 +242,7 @@ class Values(Objects[KeyType, float]):
         self._probabilities = None
         self._is_normalized = False
         self._sorted = None
+        self._sorted_descending = None
 
     def __getitem__(self, key: KeyType) -> float:
         return super().__getitem__(key).item()
@@ -264,7 +265,8 @@ class Values(Objects[KeyType, float]):
             Tuple of sorted indices and values
         """
         # pyre-fixme[16]: `Values` has no attribute `_sorted`.
-        if self._sorted is None:
+        if self._sorted is None or self._sorted_descending != descending:
+            self._sorted_descending = descending
             # pyre-fixme[16]: `Values` has no attribute `_values`.
             rs, ids = torch.sort(self._values, descending=descending)
             if self._index_to_key is not None:
-- 
2.43.0


From c89a3a1d3de33f517d37fa713158540786838f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:07 +0000
Subject: [PATCH 053/133] fix: one estimator without an estimate aborted the
 whole evaluation

estimate() may return None (no reward model, no item features), which
EstimatorResults.append dereferenced.
---
 reagent/ope/estimators/estimator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..03428c4 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -75,12 +75,15 @@ class EstimatorResults:
     results: List[EstimatorResult] = field(default_factory=list)
     device = None
 
-    def append(self, result: EstimatorResult):
+    def append(self, result: Optional[EstimatorResult]):
         """Append a data point
 
         Args:
-            result: result from an experimental run
+            result: result from an experimental run, None if it had no estimate
         """
+        if result is None:
+            logging.warning("  No estimate")
+            return
         er = result.estimated_reward
         if math.isnan(er) or math.isinf(er):
             logging.warning(f"  Invalid estimate: {er}")
-- 
2.43.0


From 219768f7fda33aea4beb5954760c4dc6b60918d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:52 +0000
Subject: [PATCH 054/133] fix: evaluation in worker processes returned no
 results

A worker is handed a list of (estimators, input) experiments but unpacked
it as a single (estimators, inputs) pair, failed and silently returned
nothing.
---
 reagent/ope/estimators/estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index 03428c4..b984852 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -201,19 +201,18 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            estimator_results = results.setdefault(estimator_name, [])
             try:
                 estimator_results.append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From dddf8c6d0ca4236e87219f0fcb40d7959d9e41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 055/133] fix: slates with named slots could not look up item
 values

Iterating the key index yields slots only, not (slot, item) pairs.
---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index cfe6caa..0c53cea 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -221,7 +221,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             # pyre-fixme[16]: `Slate` has no attribute `_values`.
             return SlateSlotValues([item_values[i] for i in self._values])
         else:
-            return SlateSlotValues({k: item_values[i] for k, i in self._key_to_index})
+            return SlateSlotValues({k: item_values[i] for k, i in self})
 
     def slot_features(self, item_features: SlateItemFeatures) -> SlateSlotFeatures:
         """
@@ -239,7 +239,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             )
         else:
             return SlateSlotFeatures(
-                {k: item_features[i].detach().clone() for k, i in self._key_to_index}
+                {k: item_features[i].detach().clone() for k, i in self}
             )
 
     def __repr__(self):
-- 
2.43.0


From 25de39a92a02ba272c764c417eb7da31b1d29ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 056/133] fix: expected rewards of slates with a single slot
 lost their dimension

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 0c53cea..f1ae728 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -292,7 +292,7 @@ class SlateSlotItemExpectations(SlateSlotItemValues):
         """
         dist = self.values_tensor(device)
         rewards = item_rewards.values.to(device=device)
-        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze()
+        rewards = torch.mv(dist, rewards)
         if self.is_sequence:
             return SlateSlotValues(rewards)
         else:
-- 
2.43.0


From cea83c02801690809c284c766d37849b42027a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 057/133] fix: ERR normalized gains by the square of the
 maximal reward

The probability of satisfaction is (2^g - 1) / 2^gmax.
---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index f1ae728..4d4341f 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -889,7 +889,7 @@ class ERRSlateMetric(SlateMetric):
         return slots.fill([1.0 / (r + 1) for r in range(len(slots))])
 
     def slot_values(self, rewards: SlateSlotValues) -> SlateSlotValues:
-        d = torch.tensor(self._max_reward, device=self._device).pow(2.0)
+        d = 2.0 ** self._max_reward
         r = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / d
         p = 1.0
         err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
-- 
2.43.0


From d315530510c6b1ccae371d1c698bf39069b5d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 058/133] fix: slate space was empty for full slates and
 unnormalized values

The slates whose items have all the probability were discarded even when no
slot was left to fill, the probabilities had to be computed by an earlier
call, and named items were returned as their indices.
---
 reagent/ope/estimators/slate_estimators.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 4d4341f..bdc2b8e 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -516,6 +516,7 @@ class SlateItemProbabilities(SlateItemValues):
             items = super().greedy(slate_size)
             return [(items, 1.0)]
         else:
+            self._normalize()
             buffer = [([], 1.0, 0.0)]
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
@@ -527,18 +528,19 @@ class SlateItemProbabilities(SlateItemValues):
                     #   b0: all the items in this ordered combination
                     #   b1: cumulative probability of b0
                     #   b2: sum of the probabilities of b0
+                    # nothing is left to fill this slot
+                    if b2 >= 1.0:
+                        continue
                     for i, i_prob in enumerate(probs):
                         if i in b0:
                             continue
-                        nb2 = b2 + i_prob
-                        if nb2 < 1.0:
-                            nb1 = b1 * i_prob / (1.0 - b2)
-                            next_buffer.append(([*b0, i], nb1, nb2))
+                        nb1 = b1 * i_prob / (1.0 - b2)
+                        next_buffer.append(([*b0, i], nb1, b2 + i_prob))
                 if max_size <= 0 or max_size > len(next_buffer):
                     buffer = next_buffer
                 else:
                     buffer = random.sample(next_buffer, max_size)
-            return [([SlateItem(i) for i in b[0]], b[1]) for b in buffer]
+            return [([self.keys[i] for i in b[0]], b[1]) for b in buffer]
 
 
 class SlateSlotItemProbabilities(SlateSlotItemValues):
-- 
2.43.0


From ac30bae73f2c64e5b23912d275053f6987ab8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 059/133] fix: slot expectations used the current slot's
 probabilities for earlier slots

The items already shown were weighted with the distribution of the slot
being computed instead of the slots they are shown in, so the expectations
of the third and later slots did not even sum to one.
---
 reagent/ope/estimators/slate_estimators.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index bdc2b8e..88ff046 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -639,14 +639,22 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         slate_size = len(self.slots)
         item_size = len(self._values[0])
         dm = torch.zeros((slate_size, item_size), dtype=torch.double)
-        prob_list = []
-        for v in self._values:
+        # (items so far, their probability)
+        buffer = [([], 1.0)]
+        for d, v in zip(dm, self._values):
             v._normalize()
-            prob_list.append(v._probabilities.detach().clone())
-        dm[0] = prob_list[0]
-        buffer = [({}, 1.0, 0.0, 1.0)]
-        for d, probs in zip(dm[1:], prob_list[1:]):
-            buffer = _calculate_slot_expectation(d, probs.tolist(), buffer)
+            probs = v._probabilities.tolist()
+            next_buffer = []
+            for items, p in buffer:
+                rest = [0.0 if i in items else q for i, q in enumerate(probs)]
+                total = sum(rest)
+                if total <= 0.0:
+                    continue
+                for i, q in enumerate(rest):
+                    if q > 0.0:
+                        d[i] += p * q / total
+                        next_buffer.append(([*items, i], p * q / total))
+            buffer = next_buffer
         self._slot_item_expectations = make_slot_item_distributions(
             self.slots, [its.replace(vs) for its, vs in zip(self._values, dm)]
         )
-- 
2.43.0


From 86da2119668516f85712b424664d8b909c4c60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 060/133] fix: greedy slate probability ignored items already
 shown

The greedy slate never repeats an item, so its own probability was zero as
soon as two slots preferred the same item.
---
 reagent/ope/estimators/slate_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 88ff046..aa7abec 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -567,11 +567,13 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
+            shown = []
             for slot, item in slate:
                 probs = self[slot]
                 its, _ = probs.sort()
-                if its[0] != item:
+                if next(it for it in its if it not in shown) != item:
                     return 0.0
+                shown.append(item)
             return 1.0
         else:
             p = 1.0
-- 
2.43.0


From 05597ba030f42bd09132edda16958f13cd74a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 061/133] fix: cached slot expectations were returned for
 shorter slates

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index aa7abec..85d0f29 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -417,7 +417,7 @@ class SlateItemProbabilities(SlateItemValues):
         slate_size = len(slots)
         if (
             self._slot_item_expectations is not None
-            and len(self._slot_item_expectations) >= slate_size
+            and len(self._slot_item_expectations) == slate_size
         ):
             return self._slot_item_expectations
         item_size = len(self)
-- 
2.43.0


From 9157291c22273650c59d115436eaa10d2d3f63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 062/133] fix: logs with precomputed slate probabilities only
 could not be validated

Items(0) is refused, an empty list of items is not.
---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 85d0f29..525a828 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1054,7 +1054,7 @@ class LogSample:
             return self._log_slot_item_probabilities._values[0].items
         if self._log_item_probabilities is not None:
             return self._log_item_probabilities.items
-        return SlateItems(0)
+        return SlateItems([])
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 1de8f84f499afb248cd83cfd9bb4a4daed542625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 063/133] fix: weighted slate estimators divided by a total
 weight of zero

Without any weight there is no estimate.
---
 reagent/ope/estimators/slate_estimators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 525a828..e2b3f6f 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1245,6 +1245,8 @@ class IPSEstimator(SlateEstimator):
         if tgt_avg.count == 0:
             return None
         if self._weighted:
+            if acc_weight.total == 0.0:
+                return None
             estimated = tgt_avg.total / acc_weight.total
             return EstimatorResult(
                 log_avg.average, estimated, gt_avg.average, acc_weight.average
@@ -1339,6 +1341,8 @@ class DoublyRobustEstimator(DMEstimator):
             acc_weight.add(result.weight)
             gt_avg.add(result.ground_truth_reward)
         if self._weighted:
+            if acc_weight.total == 0.0:
+                return None
             estimated = tgt_avg.total / acc_weight.total
             return EstimatorResult(
                 log_avg.average, estimated, gt_avg.average, acc_weight.average
@@ -1437,6 +1441,8 @@ class PseudoInverseEstimator(SlateEstimator):
         if tgt_avg.count == 0:
             return None
         if self._weighted:
+            if acc_weight.total == 0.0:
+                return None
             estimated = tgt_avg.total / acc_weight.total
             return EstimatorResult(
                 log_avg.average, estimated, gt_avg.average, acc_weight.average
@@ -1539,6 +1545,8 @@ class PBMEstimator(SlateEstimator):
         if tgt_avg.count == 0:
             return None
         if self._weighted:
+            if acc_weight.total == 0.0:
+                return None
             estimated = tgt_avg.total / acc_weight.total
             return EstimatorResult(
                 log_avg.average, estimated, gt_avg.average, acc_weight.average
-- 
2.43.0


From e800ff0da3e4b79c967a30fa05947ec5761f975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 064/133] fix: weighted slate doubly robust estimator divided
 the direct estimate by the weights

Self-normalization applies to the importance weighted corrections; the
expected model reward is averaged over the samples.
---
 reagent/ope/estimators/estimator.py        |  2 ++
 reagent/ope/estimators/slate_estimators.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index b984852..1aefb3d 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -146,6 +146,8 @@ class EstimatorSampleResult:
     target_reward: float
     ground_truth_reward: float
     weight: float
+    # unweighted part of target_reward, e.g. a model's prediction
+    baseline: float = 0.0
 
     def __repr__(self):
         return (
diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index e2b3f6f..ee76dea 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1317,7 +1317,11 @@ class DoublyRobustEstimator(DMEstimator):
             weight = self._weight_clamper(tgt_prob / log_prob)
         target_reward = (sample.log_reward - log_dm_reward) * weight + dm_reward
         return EstimatorSampleResult(
-            sample.log_reward, target_reward, sample.ground_truth_reward, weight
+            sample.log_reward,
+            target_reward,
+            sample.ground_truth_reward,
+            weight,
+            dm_reward,
         )
 
     def evaluate(
@@ -1332,6 +1336,7 @@ class DoublyRobustEstimator(DMEstimator):
         tgt_avg = RunningAverage()
         acc_weight = RunningAverage()
         gt_avg = RunningAverage()
+        baseline_avg = RunningAverage()
         for sample in samples:
             result = self._evaluate_sample(sample)
             if result is None:
@@ -1339,11 +1344,14 @@ class DoublyRobustEstimator(DMEstimator):
             log_avg.add(result.log_reward)
             tgt_avg.add(result.target_reward)
             acc_weight.add(result.weight)
+            baseline_avg.add(result.baseline)
             gt_avg.add(result.ground_truth_reward)
         if self._weighted:
             if acc_weight.total == 0.0:
                 return None
-            estimated = tgt_avg.total / acc_weight.total
+            # only the corrections are weighted
+            corrections = tgt_avg.total - baseline_avg.total
+            estimated = baseline_avg.average + corrections / acc_weight.total
             return EstimatorResult(
                 log_avg.average, estimated, gt_avg.average, acc_weight.average
             )
-- 
2.43.0


From 44e376ea170b6ae90f7e6410f75f3065fe1df7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:53 +0000
Subject: [PATCH 065/133] fix: slate direct method failed on samples without
 features

Samples without item features are skipped in training and validation, but
were evaluated when no sample was left for validation.
---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index ee76dea..751f792 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1125,7 +1125,7 @@ class DMEstimator(SlateEstimator):
         if len(vali_x) == 0:
             vali_x = train_x.detach().clone()
             vali_y = train_y.detach().clone()
-            evaluate_samples = samples
+            evaluate_samples = [s for s in samples if s.item_features is not None]
         else:
             vali_x = torch.stack(vali_x)
             vali_y = torch.tensor(vali_y, dtype=torch.double, device=vali_x.device)
-- 
2.43.0


From a3fb13e82a5729aea0730cec6b754c3e46b672d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 066/133] fix: epsilon-greedy sequential policy used the device
 as its action space

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index ce87d7a..fa20397 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy.action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From 53a40af9df936d7e4ad9d66b0ce91b86a20a86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 067/133] fix: DualDICE could not be trained for stochastic
 environments

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index fa20397..74cfdd4 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -751,7 +751,7 @@ class NeuralDualDICE(RLEstimator):
             if self.deterministic_env:
                 v_loss = self._compute_loss(input.gamma, sample, True)
             else:
-                v_loss = self._compute_loss(*sample)
+                v_loss = self._compute_loss(input.gamma, sample, False)
             # Populate value gradients and optimize
             v_optim.zero_grad()
             v_loss.backward()
-- 
2.43.0


From b3742878b69252292c7d0d995c04836181a48abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 068/133] fix: tabular action values bootstrapped from the
 current state

---
 reagent/ope/trainers/rl_tabular_trainers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..1f06eaf 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -88,8 +88,11 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for s, rp in sr_dist.items():
+            next_value = (
+                0.0 if s is None or s.is_terminal else self.state_value(s)
+            )
+            value += rp.prob * (rp.reward + self._gamma * next_value)
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From abf3cbeab95f91dec0f9ecb9203086f5bb59fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 069/133] fix: first-visit Monte Carlo used every visit but the
 first

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 1f06eaf..915ce90 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -265,7 +265,7 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -337,7 +337,7 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From ec36a551cb0d497b9e2e7a0d3d62bd1a705e3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 070/133] fix: loaded tabular policies kept the exploration of
 the policy they replaced

---
 reagent/ope/trainers/rl_tabular_trainers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 915ce90..77f52d4 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -19,12 +19,15 @@ from reagent.ope.utils import RunningAverage
 class TabularPolicy(RLPolicy):
     def __init__(self, action_space: ActionSpace, epsilon: float = 0.0, device=None):
         super().__init__(action_space, device)
+        self._state_space = {}
+        self._init_probs(epsilon)
+
+    def _init_probs(self, epsilon: float):
         self._epsilon = epsilon
-        as_size = len(action_space)
+        as_size = len(self._action_space)
         self._exploitation_prob = 1.0 - epsilon
-        self._exploration_prob = epsilon / len(action_space)
+        self._exploration_prob = epsilon / as_size
         self._uniform_probs: List[float] = as_size * [1.0 / as_size]
-        self._state_space = {}
 
     def update(self, state: State, actions: Sequence[float]) -> float:
         old_dist = self._uniform_probs
@@ -64,7 +67,8 @@ class TabularPolicy(RLPolicy):
     def load(self, path) -> bool:
         try:
             with open(path, "rb") as f:
-                self._action_space, self._epsilon, self._state_space = pickle.load(f)
+                self._action_space, epsilon, self._state_space = pickle.load(f)
+            self._init_probs(epsilon)
         except Exception:
             return False
         else:
-- 
2.43.0


From 386a5cb895fbfffc549ac78b6806c56f4d695ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:47 +0000
Subject: [PATCH 071/133] fix: direct method and ground truth summed state
 values along the trajectories

---
 reagent/ope/estimators/sequential_estimators.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 74cfdd4..b02a765 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -201,13 +201,10 @@ class RLEstimator(Estimator):
     ) -> float:
         avg = RunningAverage()
         for mdp in mdps:
-            discount = 1.0
+            # the value of a state already includes all later rewards
             r = 0.0
-            for t in mdp:
-                if t.last_state is None:
-                    break
-                r += discount * value_function(t.last_state)
-                discount *= gamma
+            if len(mdp) > 0 and mdp[0].last_state is not None:
+                r = value_function(mdp[0].last_state)
             avg.add(r)
         return avg.average
 
-- 
2.43.0


From 709bab316487bc9e2598e0d92129fd3841457c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 072/133] fix: greedy sampler reported wrong log-probabilities

---
 reagent/gym/policies/samplers/discrete_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..667eb8a 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
@@ -96,7 +96,7 @@ class GreedyActionSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
         lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp[~match] = -float("inf")
         return lp
 
 
-- 
2.43.0


From 524871722762e81fd301226dadb0ce2a05560c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 073/133] fix: epsilon-greedy sampler could neither sample nor
 score actions

---
 .../gym/policies/samplers/discrete_sampler.py | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index 667eb8a..b453e34 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -121,22 +121,27 @@ class EpsilonGreedyActionSampler(Sampler):
         assert minimum_epsilon <= epsilon_decay
         self.minimum_epsilon = minimum_epsilon
 
-    def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
+    def _get_distribution(
+        self, scores: torch.Tensor
+    ) -> torch.distributions.Categorical:
         assert scores.dim() == 2, (
             "scores dim is %d" % scores.dim()
         )  # batch_size x num_actions
-        batch_size, num_actions = scores.shape
+        num_actions = scores.shape[1]
 
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
-
-        rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
+        argmax = F.one_hot(scores.argmax(dim=1), num_actions).float()
 
-        greedy_prob = 1 - self.epsilon + rand_prob
-        p[argmax] = greedy_prob
+        # impossible actions have a score of -inf
+        possible = (scores > -float("inf")).float()
+        rand_prob = self.epsilon * possible / possible.sum(dim=1, keepdim=True)
+        return torch.distributions.Categorical(
+            probs=(1 - self.epsilon) * argmax + rand_prob
+        )
 
-        m = torch.distributions.Categorical(probs=p)
+    def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
+        m = self._get_distribution(scores)
+        batch_size, num_actions = scores.shape
         raw_action = m.sample()
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
@@ -145,13 +150,8 @@ class EpsilonGreedyActionSampler(Sampler):
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        return self._get_distribution(scores).log_prob(action.argmax(-1))
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From ab43ac30d86fb92472bc9a12b39670dc160d6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 074/133] fix: Gaussian sampler called methods that do not
 exist

---
 reagent/gym/policies/samplers/continuous_sampler.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..0955e8f 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -13,12 +13,8 @@ class GaussianSampler(Sampler):
     def _sample_action(self, loc: torch.Tensor, scale_log: torch.Tensor):
         r = torch.randn_like(scale_log, device=scale_log.device)
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
-        action = torch.tanh(loc + r * scale_log.exp())
-        # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
-        squash_correction = self.actor_network._squash_correction(action)
-        log_prob = torch.sum(log_prob - squash_correction, dim=1)
-        return action, log_prob
+        action = self.actor_network._squash_raw_action(loc + r * scale_log.exp())
+        return action, self._log_prob(loc, scale_log, action)
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
     #  its type `no_grad` is not callable.
@@ -36,7 +32,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +45,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From c3b00f265ebd380b7f959c9de27896e867e6d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 075/133] fix: DQN predictor policy required a mask of possible
 actions

---
 reagent/gym/policies/predictor_policies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/policies/predictor_policies.py b/reagent/gym/policies/predictor_policies.py
index 6fbcf8e..205998e 100644
--- a/reagent/gym/policies/predictor_policies.py
+++ b/reagent/gym/policies/predictor_policies.py
@@ -89,7 +89,7 @@ class DiscreteDQNPredictorPolicy(Policy):
     def act(
         self,
         obs: Union[rlt.ServingFeatureData, Tuple[torch.Tensor, torch.Tensor]],
-        possible_actions_mask: Optional[np.ndarray],
+        possible_actions_mask: Optional[np.ndarray] = None,
     ) -> rlt.ActorOutput:
         """Input is either state_with_presence, or
         ServingFeatureData (in the case of sparse features)"""
-- 
2.43.0


From a4021fb2d1d35b443eff21513bc32e1788141967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:03 +0000
Subject: [PATCH 076/133] fix: Frechet sort truncated the batch instead of the
 slates

---
 reagent/samplers/frechet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..fe3e7fe 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
@@ -109,7 +109,7 @@ class FrechetSort(Sampler):
         )
         s = torch.gather(log_scores, 1, action) * self.shape
 
-        p = self.upto if self.upto is not None else n
+        p = min(self.upto, n) if self.upto is not None else n
 
         # We should unsqueeze here
         probs = sum(
-- 
2.43.0


From 29cf09ee3547e2a1761259c18e27ac855b2d4bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 077/133] fix: episodes ran one step past their step limit

---
 reagent/gym/datasets/replay_buffer_dataset.py | 2 +-
 reagent/gym/runners/gymrunner.py              | 2 +-
 reagent/gym/utils.py                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/gym/datasets/replay_buffer_dataset.py b/reagent/gym/datasets/replay_buffer_dataset.py
index 466bafe..6856f50 100644
--- a/reagent/gym/datasets/replay_buffer_dataset.py
+++ b/reagent/gym/datasets/replay_buffer_dataset.py
@@ -93,7 +93,7 @@ class ReplayBufferDataset(torch.utils.data.IterableDataset):
                 action, log_prob = self._agent.act(obs, possible_actions_mask)
                 next_obs, reward, terminal, _ = self._env.step(action)
                 next_possible_actions_mask = self._env.possible_actions_mask
-                if self._max_steps is not None and num_steps >= self._max_steps:
+                if self._max_steps is not None and num_steps + 1 >= self._max_steps:
                     terminal = True
 
                 # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/runners/gymrunner.py b/reagent/gym/runners/gymrunner.py
index 73a58f0..495e8ad 100644
--- a/reagent/gym/runners/gymrunner.py
+++ b/reagent/gym/runners/gymrunner.py
@@ -37,7 +37,7 @@ def run_episode(
         action, log_prob = agent.act(obs, possible_actions_mask)
         next_obs, reward, terminal, _ = env.step(action)
         next_possible_actions_mask = env.possible_actions_mask
-        if max_steps is not None and num_steps >= max_steps:
+        if max_steps is not None and num_steps + 1 >= max_steps:
             terminal = True
 
         # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/utils.py b/reagent/gym/utils.py
index 513b18a..ecfb8c4 100644
--- a/reagent/gym/utils.py
+++ b/reagent/gym/utils.py
@@ -55,7 +55,7 @@ def fill_replay_buffer(env, replay_buffer: ReplayBuffer, desired_size: int):
         mdp_id = 0
         while replay_buffer.size < desired_size:
             last_size = replay_buffer.size
-            max_steps = desired_size - replay_buffer.size - 1
+            max_steps = desired_size - replay_buffer.size
             if max_episode_steps is not None:
                 max_steps = min(max_episode_steps, max_steps)
             run_episode(env=env, agent=agent, mdp_id=mdp_id, max_steps=max_steps)
-- 
2.43.0


From ed72f4d354894aea228773d99f08461892c03bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 078/133] fix: policy gradient input of one-step episodes lost
 its batch dimension

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 247242d..0bc6ee2 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -454,9 +454,9 @@ class PolicyGradientInputMaker:
         return _stack([_stack_slate(slate) for slate in observation])
 
     def __call__(self, trajectory: Trajectory):
-        action = torch.from_numpy(np.stack(trajectory.action).squeeze())
+        action = torch.from_numpy(np.stack(trajectory.action))
         if self.num_actions is not None:
-            action = F.one_hot(action, self.num_actions).float()
+            action = F.one_hot(action.reshape(-1), self.num_actions).float()
             assert len(action.shape) == 2, f"{action.shape}"
             # one hot makes shape (batch_size, num_actions)
         state = (
-- 
2.43.0


From 63ed42fccadf8c5834853556a315572043f7337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 079/133] fix: policy gradient input dropped the possible
 actions of the trajectory

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 0bc6ee2..9f99fbd 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -466,11 +466,17 @@ class PolicyGradientInputMaker:
                 torch.from_numpy(np.stack(trajectory.observation)).float()
             )
         )
+        possible_actions_mask = None
+        if trajectory.optional_field_exist["possible_actions_mask"]:
+            possible_actions_mask = torch.from_numpy(
+                np.stack(trajectory.possible_actions_mask)
+            )
         return rlt.PolicyGradientInput(
             state=state,
             action=action,
             reward=torch.tensor(trajectory.reward),
             log_prob=torch.tensor(trajectory.log_prob),
+            possible_actions_mask=possible_actions_mask,
         )
 
 
-- 
2.43.0


From 61877a6b097a0decae763e4071a3ed7fac5011f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 080/133] fix: changing arms ran one step past its step limit

---
 reagent/gym/envs/changing_arms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 17afeea..0e1c27e 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -42,7 +42,7 @@ NUM_ARMS = 5
 # keep these constant for now
 ARM_INIT_VALUE = 100.0
 ARM_MU_DECREASE = 10.0
-MAX_STEPS = 49
+MAX_STEPS = 50
 
 
 # in the real world, IDs are not indices into embedding table
@@ -205,8 +205,8 @@ class ChangingArmsEnv(gym.Env):
         assert (
             0 <= action and action <= self.num_arms
         ), f"out-of-bounds action {action}."
-        reached_max_steps = self.num_steps >= self.max_steps
         self.num_steps += 1
+        reached_max_steps = self.num_steps >= self.max_steps
 
         # idle action
         if action == self.num_arms:
-- 
2.43.0


From 848e24ffb83fb28d575fed42ba8818b4a35ff03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 081/133] fix: last legal arm was given to trailing rows
 without legal arms

---
 reagent/gym/envs/changing_arms.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 0e1c27e..f5c5e02 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -154,20 +154,10 @@ class ChangingArms(EnvWrapper):
         assert obs.shape == (batch_size, 3, self.num_arms), f"{obs.shape}"
         dense_val = obs[:, 0, :].view(batch_size, self.num_arms)
         # extract one-hot encoded values from id_list
-        batch_indices, id_list_val = obs[:, 1, :].nonzero(as_tuple=True)
-        offsets = []
-        prev_batch_idx = -1
-        for i, batch_idx in enumerate(batch_indices.tolist()):
-            if batch_idx > prev_batch_idx:
-                offsets.extend([i] * (batch_idx - prev_batch_idx))
-                prev_batch_idx = batch_idx
-            else:
-                assert batch_idx == prev_batch_idx
-        # handle the case of trailing empty batches
-        if batch_idx < batch_size - 1:
-            offsets.extend([i] * (batch_size - 1 - batch_idx))
-        assert len(offsets) == batch_size, f"{len(offsets)} != {batch_size}."
-        id_list_offsets = torch.tensor(offsets)
+        _, id_list_val = obs[:, 1, :].nonzero(as_tuple=True)
+        # each row's ids start where the ids of all previous rows end
+        num_ids = (obs[:, 1, :] != 0).sum(dim=1)
+        id_list_offsets = num_ids.cumsum(dim=0) - num_ids
 
         # id_score_list is easier because not one-hot encoded
         id_score_list_offsets = torch.tensor(
-- 
2.43.0


From 5ba677a0e244caf2a604631e1a57ba3c56706a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 082/133] fix: pocman ran one step past its step limit

---
 reagent/gym/envs/pomdp/pocman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/envs/pomdp/pocman.py b/reagent/gym/envs/pomdp/pocman.py
index aa94a51..47621be 100644
--- a/reagent/gym/envs/pomdp/pocman.py
+++ b/reagent/gym/envs/pomdp/pocman.py
@@ -265,7 +265,7 @@ class PocManEnv(Env):
                 self.done = True
                 break
 
-        if self.step_cnt > self.board["_max_step"]:
+        if self.step_cnt >= self.board["_max_step"]:
             self.done = True
 
         if self._agent_at_food():
-- 
2.43.0


From 4241118611ff5d336deed6ad70a517cbddbb63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 083/133] fix: pocman observations were outside of the
 observation space

---
 reagent/gym/envs/pomdp/pocman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/envs/pomdp/pocman.py b/reagent/gym/envs/pomdp/pocman.py
index 47621be..e44e0a2 100644
--- a/reagent/gym/envs/pomdp/pocman.py
+++ b/reagent/gym/envs/pomdp/pocman.py
@@ -216,7 +216,7 @@ class PocManEnv(Env):
         self.board = select_maze("micro")
         self._get_init_state()
         self.action_space = Discrete(4)
-        self.observation_space = Box(low=0, high=1, shape=(STATE_DIM,))
+        self.observation_space = Box(low=-1, high=1, shape=(STATE_DIM,))
         self._reward_range = 100
         self.step_cnt = 0
         self.max_steps = self.board["_max_step"]
-- 
2.43.0


From 03776dd707951f728a09abe1a3f8b5cc80b600f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 084/133] fix: toy VM could not take slates of one document

---
 reagent/gym/envs/toy_vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/envs/toy_vm.py b/reagent/gym/envs/toy_vm.py
index 54df69a..70ece8e 100644
--- a/reagent/gym/envs/toy_vm.py
+++ b/reagent/gym/envs/toy_vm.py
@@ -120,7 +120,7 @@ class ToyVM(EnvWrapper):
 
     def action_extractor(self, actor_output):
         # Extract action from actor output
-        return actor_output.action.squeeze()
+        return actor_output.action.squeeze(0)
 
     def obs_preprocessor(self, obs):
         preprocessor = RecsimObsPreprocessor.create_from_env(self)
-- 
2.43.0


From 67823ed316b42c5dbdc4ccd55636f5bf4cfb4980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 085/133] fix: toy VM observations were outside of the
 observation space

---
 reagent/gym/envs/toy_vm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/reagent/gym/envs/toy_vm.py b/reagent/gym/envs/toy_vm.py
index 70ece8e..d62b54f 100644
--- a/reagent/gym/envs/toy_vm.py
+++ b/reagent/gym/envs/toy_vm.py
@@ -54,9 +54,7 @@ class ToyVMEnv(gym.Env):
                 "user": gym.spaces.Box(low=0, high=1, shape=(1,)),
                 "doc": gym.spaces.Dict(
                     {
-                        str(k): gym.spaces.Box(
-                            low=0, high=1, shape=(self.slate_size, 3)
-                        )
+                        str(k): gym.spaces.Box(low=0, high=1, shape=(3,))
                         for k in range(self.slate_size)
                     }
                 ),
-- 
2.43.0


From b535ca690af24458552dd3c901b1e3d35e43a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:13 +0000
Subject: [PATCH 086/133] fix: oracle VM reward compared document numbers
 instead of ranks

---
 reagent/gym/envs/oracle_pvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/gym/envs/oracle_pvm.py b/reagent/gym/envs/oracle_pvm.py
index cd54338..5a8b554 100644
--- a/reagent/gym/envs/oracle_pvm.py
+++ b/reagent/gym/envs/oracle_pvm.py
@@ -121,7 +121,10 @@ class OraclePVM(RecSim):
         if num_matches == self.slate_size:
             reward = MATCH_REWARD_BOOST
         else:
-            reward, _p_value = stats.kendalltau(ground_truth_ranking, policy_ranking)
+            # compare the rank of every document, not the documents at every rank
+            reward, _p_value = stats.kendalltau(
+                np.argsort(ground_truth_ranking), np.argsort(policy_ranking)
+            )
         return self.prev_obs, reward, t, None
 
     def is_match(self, reward):
-- 
2.43.0


From 42749ba4ba9015a01d8b18ad5143d6ea7e6db51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 087/133] fix: n-step rewards read uninitialized memory past
 the end of the episode

---
 reagent/replay_memory/circular_replay_buffer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 80c3f88..31f8dc4 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -720,8 +720,10 @@ class ReplayBuffer(object):
     ):
         # default behavior is to sum up multi_step reward
         masks = torch.arange(self._update_horizon) < steps.unsqueeze(1)
-        rewards = self._store["reward"][multistep_indices] * self._decays * masks
-        return rewards.sum(dim=1)
+        rewards = self._store["reward"][multistep_indices] * self._decays
+        # slots past the end of the episode may never have been written, and
+        # uninitialized memory may hold nan, which multiplying does not mask
+        return rewards.masked_fill(~masks, 0.0).sum(dim=1)
 
     def _get_stack_for_indices(self, key: str, indices: torch.Tensor) -> torch.Tensor:
         """ Get stack of transition data. """
-- 
2.43.0


From 1afc8a0c3a3d6e2ab5367fa680af4a73c2b0378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 088/133] fix: embeddings were concatenated in the order of the
 input's dictionary

---
 reagent/models/embedding_bag_concat.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reagent/models/embedding_bag_concat.py b/reagent/models/embedding_bag_concat.py
index bfb1a8c..b0d93a7 100644
--- a/reagent/models/embedding_bag_concat.py
+++ b/reagent/models/embedding_bag_concat.py
@@ -77,16 +77,21 @@ class EmbeddingBagConcat(ModelBase):
     def forward(self, state: rlt.FeatureData):
         # id_list is (offset, value); sum pooling
         id_list_embeddings = [
-            self.embedding_bags[self.feat2table[feature_name]](input=v[1], offsets=v[0])
-            for feature_name, v in state.id_list_features.items()
+            self.embedding_bags[self.feat2table[feature_name]](
+                input=state.id_list_features[feature_name][1],
+                offsets=state.id_list_features[feature_name][0],
+            )
+            for feature_name in self._id_list_feature_names
         ]
 
         # id_score_list is (offset, key, value); weighted sum pooling
         id_score_list_embeddings = [
             self.embedding_bags[self.feat2table[feature_name]](
-                input=v[1], offsets=v[0], per_sample_weights=v[2]
+                input=state.id_score_list_features[feature_name][1],
+                offsets=state.id_score_list_features[feature_name][0],
+                per_sample_weights=state.id_score_list_features[feature_name][2],
             )
-            for feature_name, v in state.id_score_list_features.items()
+            for feature_name in self._id_score_list_feature_names
         ]
         return torch.cat(
             id_list_embeddings + id_score_list_embeddings + [state.float_features],
-- 
2.43.0


From c6eff912b3d8ff58715b9a1d74b4509299801c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 089/133] fix: served actors gave all rows of a batch the same
 exploration noise

---
 reagent/models/actor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index 0660e0a..c83278b 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -82,7 +82,11 @@ class FullyConnectedActor(ModelBase):
             log_prob = torch.zeros(batch_size).to(action.device).float().view(-1, 1)
             return rlt.ActorOutput(action=action, log_prob=log_prob)
 
-        noise = self.noise_dist.sample((batch_size,))
+        # unlike sampling a given number of rows, this stays row-wise when traced
+        noise = (
+            torch.randn_like(action, device="cpu") * self.noise_dist.scale
+            + self.noise_dist.loc
+        )
         # TODO: log prob is affected by clamping, how to handle that?
         log_prob = (
             self.noise_dist.log_prob(noise).to(action.device).sum(dim=1).view(-1, 1)
-- 
2.43.0


From fcfbc088ef054a3b6f6c6159f8b9480b3f703116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 090/133] fix: ranking actors could not be exported

---
 reagent/net_builder/continuous_actor_net_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/net_builder/continuous_actor_net_builder.py b/reagent/net_builder/continuous_actor_net_builder.py
index 49c72b0..02b2dee 100644
--- a/reagent/net_builder/continuous_actor_net_builder.py
+++ b/reagent/net_builder/continuous_actor_net_builder.py
@@ -21,7 +21,10 @@ if IS_FB_ENVIRONMENT:
         FbRankingActorPredictorWrapper as RankingActorPredictorWrapper,
     )
 else:
-    from reagent.prediction.predictor_wrapper import ActorPredictorWrapper
+    from reagent.prediction.predictor_wrapper import (
+        ActorPredictorWrapper,
+        RankingActorPredictorWrapper,
+    )
 
 
 class ContinuousActorNetBuilder(metaclass=RegistryMeta):
-- 
2.43.0


From 72d9f0c3b2fa31b7cb2e1131741c82c93af920ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 091/133] fix: traced slate reward predictors only served
 batches of one row

---
 reagent/prediction/predictor_wrapper.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/reagent/prediction/predictor_wrapper.py b/reagent/prediction/predictor_wrapper.py
index 20ab21b..757f631 100644
--- a/reagent/prediction/predictor_wrapper.py
+++ b/reagent/prediction/predictor_wrapper.py
@@ -691,14 +691,6 @@ class Seq2SlateRewardWithPreprocessor(ModelBase):
         max_tgt_seq_len = self.model.max_tgt_seq_len
         max_src_seq_len = self.model.max_src_seq_len
 
-        # we use a fake slate_idx_with_presence to retrive the first
-        # max_tgt_seq_len candidates from
-        # len(slate_idx_with presence) == batch_size
-        # component: 1d tensor with length max_tgt_seq_len
-        slate_idx_with_presence = [
-            (torch.arange(max_tgt_seq_len), torch.ones(max_tgt_seq_len))
-        ] * batch_size
-
         preprocessed_state = self.state_preprocessor(
             state_with_presence[0], state_with_presence[1]
         )
@@ -714,9 +706,9 @@ class Seq2SlateRewardWithPreprocessor(ModelBase):
 
         src_src_mask = torch.ones(batch_size, max_src_seq_len, max_src_seq_len)
 
-        tgt_out_idx = torch.cat(
-            [slate_idx[0] for slate_idx in slate_idx_with_presence]
-        ).view(batch_size, max_tgt_seq_len)
+        # the slate consists of the first max_tgt_seq_len candidates
+        # (tensor operations only, such that tracing keeps the batch size dynamic)
+        tgt_out_idx = torch.arange(max_tgt_seq_len).repeat(batch_size, 1)
 
         tgt_out_seq = gather(preprocessed_candidates, tgt_out_idx)
 
-- 
2.43.0


From ee9d2f625e2a8548c889cc78b687aaac4b5498b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 092/133] fix: publishers sharing a file returned stale models
 and overwrote each other's records

---
 reagent/publishers/file_system_publisher.py | 45 ++++++++++++---------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index 01c5774..5e8361a 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -49,17 +49,21 @@ if HAS_TINYDB:
 
         def __post_init_post_parse__(self):
             self.publishing_file = os.path.abspath(self.publishing_file)
-            self.db: TinyDB = TinyDB(self.publishing_file)
             logger.info(f"Using TinyDB at {self.publishing_file}.")
 
+        def _open_db(self) -> TinyDB:
+            # TinyDB caches queries and ids, so it has to be opened again to see what
+            # other publishers wrote to the file
+            return TinyDB(self.publishing_file)
+
         def get_latest_published_model(
             self, model_manager: ModelManager, module_name: str
         ) -> str:
             Model = Query()
             # TODO: make this take in a
             key = f"{module_name}_{str(model_manager)}"
-            # pyre-fixme[16]: `FileSystemPublisher` has no attribute `db`.
-            results = self.db.search(Model[KEY_FIELD] == key)
+            with self._open_db() as db:
+                results = db.search(Model[KEY_FIELD] == key)
             if len(results) != 1:
                 if len(results) == 0:
                     raise ValueError(
@@ -79,21 +83,22 @@ if HAS_TINYDB:
             child_workflow_id: int,
             recurring_period: Optional[RecurringPeriod],
         ) -> NoPublishingResults:
-            for module_name, path in training_output.output_paths.items():
-                assert os.path.exists(path), f"Given path {path} doesn't exist."
-                Model = Query()
-                # find if there's already been something stored
-                key = f"{module_name}_{str(model_manager)}"
-                # pyre-fixme[16]: `FileSystemPublisher` has no attribute `db`.
-                results = self.db.search(Model[KEY_FIELD] == key)
-                if len(results) == 0:
-                    # this is a first
-                    self.db.insert({KEY_FIELD: key, VALUE_FIELD: path})
-                else:
-                    # replace it
-                    if len(results) > 1:
-                        raise RuntimeError(
-                            f"Got {len(results)} results for model_manager. {results}"
-                        )
-                    self.db.update({VALUE_FIELD: path}, Model[KEY_FIELD] == key)
+            with self._open_db() as db:
+                for module_name, path in training_output.output_paths.items():
+                    assert os.path.exists(path), f"Given path {path} doesn't exist."
+                    Model = Query()
+                    # find if there's already been something stored
+                    key = f"{module_name}_{str(model_manager)}"
+                    results = db.search(Model[KEY_FIELD] == key)
+                    if len(results) == 0:
+                        # this is a first
+                        db.insert({KEY_FIELD: key, VALUE_FIELD: path})
+                    else:
+                        # replace it
+                        if len(results) > 1:
+                            raise RuntimeError(
+                                f"Got {len(results)} results for model_manager. "
+                                f"{results}"
+                            )
+                        db.update({VALUE_FIELD: path}, Model[KEY_FIELD] == key)
             return NoPublishingResults(success=True)
-- 
2.43.0


From 47b7572a8064654189fab24f720d2d815632cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 093/133] fix: publishing a training output with a missing file
 replaced some of its modules

---
 reagent/publishers/file_system_publisher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index 5e8361a..d0079e6 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -83,9 +83,11 @@ if HAS_TINYDB:
             child_workflow_id: int,
             recurring_period: Optional[RecurringPeriod],
         ) -> NoPublishingResults:
+            # a failed publication must not replace any of the published modules
+            for path in training_output.output_paths.values():
+                assert os.path.exists(path), f"Given path {path} doesn't exist."
             with self._open_db() as db:
                 for module_name, path in training_output.output_paths.items():
-                    assert os.path.exists(path), f"Given path {path} doesn't exist."
                     Model = Query()
                     # find if there's already been something stored
                     key = f"{module_name}_{str(model_manager)}"
-- 
2.43.0


From 11737eabf002d77bec7cdf0af7563be7974297fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 094/133] fix: relative model paths were published, so only the
 same working directory found them

---
 reagent/publishers/file_system_publisher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index d0079e6..5a259c4 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -88,6 +88,7 @@ if HAS_TINYDB:
                 assert os.path.exists(path), f"Given path {path} doesn't exist."
             with self._open_db() as db:
                 for module_name, path in training_output.output_paths.items():
+                    path = os.path.abspath(path)
                     Model = Query()
                     # find if there's already been something stored
                     key = f"{module_name}_{str(model_manager)}"
-- 
2.43.0


From 6e487a953e0057e22ec5fd7d775b5439591873e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 095/133] fix: an interrupted publication lost all published
 models

---
 reagent/publishers/file_system_publisher.py | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index 5a259c4..27ed71e 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import json
 import logging
 import os
 from typing import Dict, Optional
@@ -19,6 +20,8 @@ try:
     # pyre-fixme[21]: Could not find `tinydb`.
     # pyre-fixme[21]: Could not find `tinydb`.
     from tinydb import Query, TinyDB
+    from tinydb.middlewares import CachingMiddleware
+    from tinydb.storages import JSONStorage
 
     HAS_TINYDB = True
 
@@ -36,6 +39,21 @@ VALUE_FIELD = "torchscript_path"
 
 if HAS_TINYDB:
 
+    class AtomicJSONStorage(JSONStorage):
+        """ Replaces the file at once, so that it's never partially written """
+
+        def __init__(self, path, **kwargs):
+            super().__init__(path, **kwargs)
+            self._path = path
+
+        def write(self, data):
+            temp_path = f"{self._path}.tmp"
+            with open(temp_path, "w") as f:
+                json.dump(data, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(temp_path, self._path)
+
     @dataclass
     class FileSystemPublisher(ModelPublisher):
         """Uses a file to serve as a key-value store.
@@ -54,7 +72,10 @@ if HAS_TINYDB:
         def _open_db(self) -> TinyDB:
             # TinyDB caches queries and ids, so it has to be opened again to see what
             # other publishers wrote to the file
-            return TinyDB(self.publishing_file)
+            # All modules are written together, when the db is closed.
+            return TinyDB(
+                self.publishing_file, storage=CachingMiddleware(AtomicJSONStorage)
+            )
 
         def get_latest_published_model(
             self, model_manager: ModelManager, module_name: str
-- 
2.43.0


From 6ce474a052ab20737cda3b7abe147bb7b08bd132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 096/133] fix: all serving modules of a model were saved as the
 default one

---
 reagent/workflow/model_managers/model_manager.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 95e8751..e72cfea 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -274,7 +274,6 @@ class ModelManager(metaclass=RegistryMeta):
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
             torchscript_output_path = f"model_{round(time.time())}.torchscript"
-            serving_module = self.build_serving_module()
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From aef27038d00e909dc291a08faaa1057305e492e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 097/133] fix: models saved within one second overwrote each
 other

---
 reagent/workflow/model_managers/model_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index e72cfea..5fbec11 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -6,6 +6,7 @@ import logging
 import os
 import tempfile
 import time
+import uuid
 from typing import Dict, List, Optional, Tuple
 
 import pytorch_lightning as pl
@@ -273,7 +274,9 @@ class ModelManager(metaclass=RegistryMeta):
         output_paths = {}
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
-            torchscript_output_path = f"model_{round(time.time())}.torchscript"
+            torchscript_output_path = (
+                f"model_{module_name}_{round(time.time())}_{uuid.uuid4().hex}.torchscript"
+            )
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From c11d0c9571bdeb107e7d13a0fdf79fe8d3e6668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 098/133] fix: exported decision plans had a reward aggregator
 the server cannot read

---
 serving/reagent/serving/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serving/reagent/serving/config/config.py b/serving/reagent/serving/config/config.py
index 34205f9..a18e364 100644
--- a/serving/reagent/serving/config/config.py
+++ b/serving/reagent/serving/config/config.py
@@ -106,9 +106,9 @@ class Constant(ConfigBase):
 
 
 class DecisionRewardAggreation(Enum):
-    DRA_INVALID = (None,)
-    DRA_SUM = ("sum",)
-    DRA_MAX = ("max",)
+    DRA_INVALID = None
+    DRA_SUM = "sum"
+    DRA_MAX = "max"
 
 
 class DecisionConfig(ConfigBase):
-- 
2.43.0


From e4a244d62cb82bda2e9bd779e0107e683f87d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 099/133] fix: building a decision plan again duplicated its
 operators

---
 serving/reagent/serving/config/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serving/reagent/serving/config/builder.py b/serving/reagent/serving/config/builder.py
index 7f8a512..1d5e615 100644
--- a/serving/reagent/serving/config/builder.py
+++ b/serving/reagent/serving/config/builder.py
@@ -42,6 +42,8 @@ class DecisionPlanBuilder(object):
         return self
 
     def serialize(self):
+        self.operators = []
+        self.constants = []
         visited = set()
         next_id = [0]
 
-- 
2.43.0


From eb18947be5860d05e4f4cb1436798c50ef28c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 100/133] fix: constants of decision plans got the type of
 their first element

---
 serving/reagent/serving/config/serialize.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/serving/reagent/serving/config/serialize.py b/serving/reagent/serving/config/serialize.py
index 780c1d2..752ca61 100644
--- a/serving/reagent/serving/config/serialize.py
+++ b/serving/reagent/serving/config/serialize.py
@@ -57,32 +57,29 @@ def _value_to_json(cls, value):
                 raise TypeError(
                     f"Can not properly decide the type of {value} since it is empty"
                 )
-            real_cls = type(value[0])
-            if issubclass(real_cls, str):
+            if all(isinstance(v, str) for v in value):
                 name = "list_string_value"
-            elif issubclass(real_cls, int):
+            elif all(isinstance(v, int) for v in value):
                 name = "list_int_value"
-            elif issubclass(real_cls, float):
+            elif all(isinstance(v, (int, float)) for v in value):
                 name = "list_double_value"
             else:
-                raise TypeError(f"{real_cls} type not supported")
+                raise TypeError(f"{value} type not supported")
         elif issubclass(real_cls, Dict):
             if len(value) == 0:
                 raise TypeError(
                     f"Can not properly decide the type of {value} since it is empty"
                 )
-            items = list(value.items())
-            key_real_cls, value_real_cls = type(items[0][0]), type(items[0][1])
-            if not issubclass(key_real_cls, str):
+            if not all(isinstance(k, str) for k in value):
                 raise TypeError(f"{value} type not supported")
-            if issubclass(value_real_cls, str):
+            if all(isinstance(v, str) for v in value.values()):
                 name = "map_string_value"
-            elif issubclass(value_real_cls, int):
+            elif all(isinstance(v, int) for v in value.values()):
                 name = "map_int_value"
-            elif issubclass(value_real_cls, float):
+            elif all(isinstance(v, (int, float)) for v in value.values()):
                 name = "map_double_value"
             else:
-                raise TypeError(f"{real_cls} type not supported")
+                raise TypeError(f"{value} type not supported")
         else:
             raise TypeError(f"{real_cls} type not supported")
         return {name: value}
-- 
2.43.0


From 383e774f4fb55117d12f75583fb85863c34ab7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 101/133] fix: tuples of two elements could not be serialized
 as variable length tuples

---
 serving/reagent/serving/config/serialize.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/serving/reagent/serving/config/serialize.py b/serving/reagent/serving/config/serialize.py
index 752ca61..efadfb5 100644
--- a/serving/reagent/serving/config/serialize.py
+++ b/serving/reagent/serving/config/serialize.py
@@ -23,13 +23,12 @@ def _is_optional(cls):
 
 def _extend_tuple_type(cls, value):
     sub_cls_list = list(cls.__args__)
+    if len(sub_cls_list) == 2 and sub_cls_list[1] is Ellipsis:
+        return [sub_cls_list[0]] * len(value)
     if len(sub_cls_list) != len(value):
-        if len(sub_cls_list) != 2 or sub_cls_list[1] is not Ellipsis:
-            raise ValueError(
-                f"{len(value)} values found which is more than number of types in tuple {cls}"
-            )
-        del sub_cls_list[1]
-        sub_cls_list.extend((cls.__args__[0],) * (len(value) - len(sub_cls_list)))
+        raise ValueError(
+            f"{len(value)} values found which is more than number of types in tuple {cls}"
+        )
     return sub_cls_list
 
 
-- 
2.43.0


From 9edabc554863b73df5addc3c463f48f50ed07f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 102/133] fix: exporting the decision plans of one application
 failed

---
 serving/reagent/serving/config/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serving/reagent/serving/config/main.py b/serving/reagent/serving/config/main.py
index 5abb909..0585d2a 100644
--- a/serving/reagent/serving/config/main.py
+++ b/serving/reagent/serving/config/main.py
@@ -40,7 +40,7 @@ def export(app_id, config_dir):
         if not os.path.exists(sub_config_dir):
             os.makedirs(sub_config_dir)
         for config_name, config in configs.items():
-            config_file = os.path.join(sub_config_dir, config_name, ".json")
+            config_file = os.path.join(sub_config_dir, config_name + ".json")
             print(f"{app_id}:{config_name} exported to {config_file}")
             with open(config_file, "w") as f:
                 json.dump(config, f, indent=2)
-- 
2.43.0


From 8a69079177f7283b7ea99166a0cc434b3c99b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 103/133] fix: features of training data were normalized with
 the parameters of other features

Datasets hold features by feature ID, the preprocessor reads them grouped by type.
---
 reagent/preprocessing/batch_preprocessor.py | 56 +++++++++++++--------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/reagent/preprocessing/batch_preprocessor.py b/reagent/preprocessing/batch_preprocessor.py
index b2bfd7f..eef63e7 100644
--- a/reagent/preprocessing/batch_preprocessor.py
+++ b/reagent/preprocessing/batch_preprocessor.py
@@ -21,6 +21,22 @@ def batch_to_device(batch: Dict[str, torch.Tensor], device: torch.device):
     return out
 
 
+def preprocess_dense_column(
+    preprocessor: Preprocessor, batch: Dict[str, torch.Tensor], column: str
+) -> torch.Tensor:
+    """
+    The features of a dataset are ordered by feature ID, while the preprocessor
+    expects them in the order of `sorted_features`, i.e., grouped by type.
+    """
+    values, presence = batch[column], batch[f"{column}_presence"]
+    feature_ids = sorted(preprocessor.sorted_features)
+    assert values.shape[1] == len(
+        feature_ids
+    ), f"{column} has {values.shape[1]} features; expected {feature_ids}"
+    order = [feature_ids.index(f) for f in preprocessor.sorted_features]
+    return preprocessor(values[:, order], presence[:, order])
+
+
 class DiscreteDqnBatchPreprocessor(BatchPreprocessor):
     def __init__(
         self, num_actions: int, state_preprocessor: Preprocessor, use_gpu: bool
@@ -32,11 +48,11 @@ class DiscreteDqnBatchPreprocessor(BatchPreprocessor):
 
     def forward(self, batch: Dict[str, torch.Tensor]) -> rlt.DiscreteDqnInput:
         batch = batch_to_device(batch, self.device)
-        preprocessed_state = self.state_preprocessor(
-            batch["state_features"], batch["state_features_presence"]
+        preprocessed_state = preprocess_dense_column(
+            self.state_preprocessor, batch, "state_features"
         )
-        preprocessed_next_state = self.state_preprocessor(
-            batch["next_state_features"], batch["next_state_features_presence"]
+        preprocessed_next_state = preprocess_dense_column(
+            self.state_preprocessor, batch, "next_state_features"
         )
         # not terminal iff at least one possible for next action
         not_terminal = batch["possible_next_actions_mask"].max(dim=1)[0].float()
@@ -79,17 +95,17 @@ class ParametricDqnBatchPreprocessor(BatchPreprocessor):
     def forward(self, batch: Dict[str, torch.Tensor]) -> rlt.ParametricDqnInput:
         batch = batch_to_device(batch, self.device)
         # first preprocess state and action
-        preprocessed_state = self.state_preprocessor(
-            batch["state_features"], batch["state_features_presence"]
+        preprocessed_state = preprocess_dense_column(
+            self.state_preprocessor, batch, "state_features"
         )
-        preprocessed_next_state = self.state_preprocessor(
-            batch["next_state_features"], batch["next_state_features_presence"]
+        preprocessed_next_state = preprocess_dense_column(
+            self.state_preprocessor, batch, "next_state_features"
         )
-        preprocessed_action = self.action_preprocessor(
-            batch["action"], batch["action_presence"]
+        preprocessed_action = preprocess_dense_column(
+            self.action_preprocessor, batch, "action"
         )
-        preprocessed_next_action = self.action_preprocessor(
-            batch["next_action"], batch["next_action_presence"]
+        preprocessed_next_action = preprocess_dense_column(
+            self.action_preprocessor, batch, "next_action"
         )
         return rlt.ParametricDqnInput(
             state=rlt.FeatureData(preprocessed_state),
@@ -126,17 +142,17 @@ class PolicyNetworkBatchPreprocessor(BatchPreprocessor):
 
     def forward(self, batch: Dict[str, torch.Tensor]) -> rlt.PolicyNetworkInput:
         batch = batch_to_device(batch, self.device)
-        preprocessed_state = self.state_preprocessor(
-            batch["state_features"], batch["state_features_presence"]
+        preprocessed_state = preprocess_dense_column(
+            self.state_preprocessor, batch, "state_features"
         )
-        preprocessed_next_state = self.state_preprocessor(
-            batch["next_state_features"], batch["next_state_features_presence"]
+        preprocessed_next_state = preprocess_dense_column(
+            self.state_preprocessor, batch, "next_state_features"
         )
-        preprocessed_action = self.action_preprocessor(
-            batch["action"], batch["action_presence"]
+        preprocessed_action = preprocess_dense_column(
+            self.action_preprocessor, batch, "action"
         )
-        preprocessed_next_action = self.action_preprocessor(
-            batch["next_action"], batch["next_action_presence"]
+        preprocessed_next_action = preprocess_dense_column(
+            self.action_preprocessor, batch, "next_action"
         )
         return rlt.PolicyNetworkInput(
             state=rlt.FeatureData(preprocessed_state),
-- 
2.43.0


From a7a1d2cd7d98292baa7a8973a19cb4666387d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 104/133] fix: datasets didn't have the configured features

Tables with other features could not be used for training, and a feature
missing in a subsample changed the columns of that subsample only.
---
 reagent/workflow/data_fetcher.py                 | 16 +++++++++++-----
 .../workflow/model_managers/actor_critic_base.py |  6 ++++++
 .../workflow/model_managers/discrete_dqn_base.py |  4 ++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/reagent/workflow/data_fetcher.py b/reagent/workflow/data_fetcher.py
index 306a5c8..b6705e5 100644
--- a/reagent/workflow/data_fetcher.py
+++ b/reagent/workflow/data_fetcher.py
@@ -437,9 +437,14 @@ def query_data(
     sample_range: Optional[Tuple[float, float]] = None,
     multi_steps: Optional[int] = None,
     gamma: Optional[float] = None,
+    state_features: Optional[List[int]] = None,
+    action_features: Optional[List[int]] = None,
 ) -> Dataset:
     """Perform reward calculation, hashing mdp + subsampling and
     other preprocessing such as sparse2dense.
+
+    Columns are made for the given state/action features, in order of their IDs;
+    for all features in the table if they aren't given.
     """
     sqlCtx = get_spark_session()
     df = sqlCtx.sql(f"SELECT * FROM {input_table_spec.table_name}")
@@ -449,20 +454,21 @@ def query_data(
         multi_steps=multi_steps,
         gamma=gamma,
     )
+    # NOTE: infer names before subsampling so that all subsamples have same columns
+    states = sorted(state_features or infer_states_names(df, multi_steps))
+    metrics = infer_metrics_names(df, multi_steps)
+    if not discrete_action:
+        actions = sorted(action_features or infer_action_names(df, multi_steps))
     df = hash_mdp_id_and_subsample(df, sample_range=sample_range)
     df = misc_column_preprocessing(df, multi_steps=multi_steps)
     df = state_and_metrics_sparse2dense(
-        df,
-        states=infer_states_names(df, multi_steps),
-        metrics=infer_metrics_names(df, multi_steps),
-        multi_steps=multi_steps,
+        df, states=states, metrics=metrics, multi_steps=multi_steps
     )
     if discrete_action:
         assert include_possible_actions
         assert actions is not None, "in discrete case, actions must be given."
         df = discrete_action_preprocessing(df, actions=actions, multi_steps=multi_steps)
     else:
-        actions = infer_action_names(df, multi_steps)
         df = parametric_action_preprocessing(
             df,
             actions=actions,
diff --git a/reagent/workflow/model_managers/actor_critic_base.py b/reagent/workflow/model_managers/actor_critic_base.py
index f93c25a..50b74a1 100644
--- a/reagent/workflow/model_managers/actor_critic_base.py
+++ b/reagent/workflow/model_managers/actor_critic_base.py
@@ -210,6 +210,12 @@ class ActorCriticBase(ModelManager):
             include_possible_actions=False,
             custom_reward_expression=reward_options.custom_reward_expression,
             sample_range=sample_range,
+            state_features=[
+                ffi.feature_id for ffi in self.state_feature_config.float_feature_infos
+            ],
+            action_features=[
+                ffi.feature_id for ffi in self.action_feature_config.float_feature_infos
+            ],
         )
 
     def build_batch_preprocessor(self) -> BatchPreprocessor:
diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 1413f03..fed0e71 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -230,6 +230,10 @@ class DiscreteDqnDataModule(ManualDataModule):
             custom_reward_expression=reward_options.custom_reward_expression,
             multi_steps=self.model_manager.multi_steps,
             gamma=self.model_manager.rl_parameters.gamma,
+            state_features=[
+                ffi.feature_id
+                for ffi in self.model_manager.state_feature_config.float_feature_infos
+            ],
         )
 
     def build_batch_preprocessor(self) -> BatchPreprocessor:
-- 
2.43.0


From 21897bd70d6621b26cd15489028d69f63ca29b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 105/133] fix: episodes on the boundary of a split were in
 training and evaluation data

---
 reagent/workflow/data/manual_data_module.py |  3 ++-
 reagent/workflow/data_fetcher.py            | 13 +++++++------
 reagent/workflow/training.py                |  3 ++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/reagent/workflow/data/manual_data_module.py b/reagent/workflow/data/manual_data_module.py
index e3dc608..958138e 100644
--- a/reagent/workflow/data/manual_data_module.py
+++ b/reagent/workflow/data/manual_data_module.py
@@ -272,7 +272,8 @@ def get_sample_range(
 
     return TrainEvalSampleRanges(
         train_sample_range=(0.0, table_sample),
-        eval_sample_range=(100.0 - eval_table_sample, 100.0),
+        # the samples might add up to slightly more than 100
+        eval_sample_range=(max(table_sample, 100.0 - eval_table_sample), 100.0),
     )
 
 
diff --git a/reagent/workflow/data_fetcher.py b/reagent/workflow/data_fetcher.py
index b6705e5..72d9b22 100644
--- a/reagent/workflow/data_fetcher.py
+++ b/reagent/workflow/data_fetcher.py
@@ -22,7 +22,7 @@ from .types import Dataset, TableSpec
 logger = logging.getLogger(__name__)
 
 # for normalizing crc32 output
-MAX_UINT32 = 4294967295
+UINT32_RANGE = 4294967296
 
 # for generating/checking random tmp table names for upload_as_parquet
 UPLOAD_PARQUET_TMP_SUFFIX_LEN = 10
@@ -67,8 +67,9 @@ def set_reward_col_as_reward(
 def hash_mdp_id_and_subsample(df, sample_range: Optional[Tuple[float, float]] = None):
     """Since mdp_id is a string but Pytorch Tensors do not store strings,
     we hash them with crc32, which is treated as a cryptographic hash
-    (with range [0, MAX_UINT32-1]). We also perform an optional subsampling
-    based on this hash value.
+    (with range [0, UINT32_RANGE-1]). We also perform an optional subsampling
+    based on this hash value. The upper bound of sample_range is exclusive (but
+    100 is the end of the range), so consecutive ranges don't overlap.
     NOTE: we're assuming no collisions in this hash! Otherwise, two mdp_ids
     can be indistinguishable after the hash.
     TODO: change this to a deterministic subsample.
@@ -83,11 +84,11 @@ def hash_mdp_id_and_subsample(df, sample_range: Optional[Tuple[float, float]] =
     # pyre-fixme[16]: Module `functions` has no attribute `col`.
     df = df.withColumn("mdp_id", crc32(col("mdp_id")))
     if sample_range:
-        lower_bound = sample_range[0] / 100.0 * MAX_UINT32
-        upper_bound = sample_range[1] / 100.0 * MAX_UINT32
+        lower_bound = sample_range[0] / 100.0 * UINT32_RANGE
+        upper_bound = sample_range[1] / 100.0 * UINT32_RANGE
         # pyre-fixme[16]: Module `functions` has no attribute `col`.
         # pyre-fixme[16]: Module `functions` has no attribute `col`.
-        df = df.filter((lower_bound <= col("mdp_id")) & (col("mdp_id") <= upper_bound))
+        df = df.filter((lower_bound <= col("mdp_id")) & (col("mdp_id") < upper_bound))
     return df
 
 
diff --git a/reagent/workflow/training.py b/reagent/workflow/training.py
index 8103c65..86cc98a 100644
--- a/reagent/workflow/training.py
+++ b/reagent/workflow/training.py
@@ -111,7 +111,8 @@ def get_sample_range(
 
     return TrainEvalSampleRanges(
         train_sample_range=(0.0, table_sample),
-        eval_sample_range=(100.0 - eval_table_sample, 100.0),
+        # the samples might add up to slightly more than 100
+        eval_sample_range=(max(table_sample, 100.0 - eval_table_sample), 100.0),
     )
 
 
-- 
2.43.0


From 7e41fe35826e005a8ed4040dfdba9a8a2ff5b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 106/133] fix: SlateQ could not identify features and refused
 item preprocessing options

It uses an option of PreprocessingOptions which didn't exist.
---
 reagent/workflow/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/workflow/types.py b/reagent/workflow/types.py
index 88bd1bf..12db557 100644
--- a/reagent/workflow/types.py
+++ b/reagent/workflow/types.py
@@ -77,6 +77,7 @@ class PreprocessingOptions(BaseDataClass):
     set_missing_value_to_zero: Optional[bool] = False
     whitelist_features: Optional[List[int]] = None
     assert_whitelist_feature_coverage: bool = True
+    sequence_feature_id: Optional[int] = None
 
 
 @ModelFeatureConfigProvider.fill_union()
-- 
2.43.0


From f9abe2178c16e7f9cb8c2c8acea7460da53de266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 107/133] fix: stochastic actors could not act with any sampler

---
 reagent/models/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index c83278b..4c6e637 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -28,7 +28,7 @@ class StochasticActor(ModelBase):
 
     def forward(self, state):
         action_scores = self.scorer(state)
-        return self.sampler.sample_action(action_scores, possible_actions_mask=None)
+        return self.sampler.sample_action(action_scores)
 
 
 class FullyConnectedActor(ModelBase):
-- 
2.43.0


From 97c34227b787ebeda13eba4569ebf1da48f48da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 108/133] fix: actors ignored the configured layer
 normalization

---
 reagent/models/actor.py                                 | 2 ++
 reagent/net_builder/continuous_actor/fully_connected.py | 1 +
 reagent/net_builder/discrete_actor/fully_connected.py   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index 4c6e637..550fabe 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -41,6 +41,7 @@ class FullyConnectedActor(ModelBase):
         use_batch_norm: bool = False,
         action_activation: str = "tanh",
         exploration_variance: Optional[float] = None,
+        use_layer_norm: bool = False,
     ):
         super().__init__()
         assert state_dim > 0, "state_dim must be > 0, got {}".format(state_dim)
@@ -57,6 +58,7 @@ class FullyConnectedActor(ModelBase):
             [state_dim] + sizes + [action_dim],
             activations + [self.action_activation],
             use_batch_norm=use_batch_norm,
+            use_layer_norm=use_layer_norm,
         )
 
         # Gaussian noise for exploration.
diff --git a/reagent/net_builder/continuous_actor/fully_connected.py b/reagent/net_builder/continuous_actor/fully_connected.py
index 4b11355..4b6d026 100644
--- a/reagent/net_builder/continuous_actor/fully_connected.py
+++ b/reagent/net_builder/continuous_actor/fully_connected.py
@@ -52,4 +52,5 @@ class FullyConnected(ContinuousActorNetBuilder):
             use_batch_norm=self.use_batch_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
+            use_layer_norm=self.use_layer_norm,
         )
diff --git a/reagent/net_builder/discrete_actor/fully_connected.py b/reagent/net_builder/discrete_actor/fully_connected.py
index 4191b7b..7937bda 100644
--- a/reagent/net_builder/discrete_actor/fully_connected.py
+++ b/reagent/net_builder/discrete_actor/fully_connected.py
@@ -44,4 +44,5 @@ class FullyConnected(DiscreteActorNetBuilder):
             use_batch_norm=self.use_batch_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
+            use_layer_norm=self.use_layer_norm,
         )
-- 
2.43.0


From 34b797754d7fe4684da3d426765c76f89c490dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 109/133] fix: parametric dueling networks ignored batch
 normalization

---
 reagent/models/dueling_q_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/models/dueling_q_network.py b/reagent/models/dueling_q_network.py
index 3681a9f..0c16498 100644
--- a/reagent/models/dueling_q_network.py
+++ b/reagent/models/dueling_q_network.py
@@ -153,6 +153,7 @@ class ParametricDuelingQNetwork(ModelBase):
             sizes=layers[:-1],
             activations=activations[:-1],
             normalized_output=True,
+            use_batch_norm=use_batch_norm,
         )
         advantage_network = FullyConnectedCritic(
             state_embedding_dim,
-- 
2.43.0


From 621d3413d5b64d0d269e9c36d1ec9b479e5dd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 110/133] fix: slate scorers had no input prototype

---
 reagent/models/mlp_scorer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reagent/models/mlp_scorer.py b/reagent/models/mlp_scorer.py
index f6a0eb8..3a73728 100644
--- a/reagent/models/mlp_scorer.py
+++ b/reagent/models/mlp_scorer.py
@@ -34,6 +34,7 @@ class MLPScorer(ModelBase):
         all_layers = list(itertools.chain.from_iterable(zip(fc_layers, relu_layers)))[
             :-1
         ]  # drop last relu layer
+        self.input_dim = input_dim
         self.concat = concat
         self.log_transform = log_transform
         self.mlp = nn.Sequential(*all_layers)
@@ -57,10 +58,10 @@ class MLPScorer(ModelBase):
     def input_prototype(self):
         # Sample config for input
         batch_size = 2
-        state_dim = 5
+        state_dim = 1 if self.concat else 5
         num_docs = 3
-        candidate_dim = 4
-        rlt.FeatureData(
+        candidate_dim = self.input_dim - 1 if self.concat else self.input_dim
+        return rlt.FeatureData(
             float_features=torch.randn((batch_size, state_dim)),
             candidate_docs=rlt.DocList(
                 float_features=torch.randn(batch_size, num_docs, candidate_dim)
-- 
2.43.0


From 207520b3f9dfe8649f1a6b2207e0d70ac58a7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 111/133] fix: sparse features were left behind when a batch
 moved to the GPU

---
 reagent/types.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/reagent/types.py b/reagent/types.py
index acfbec7..ae39647 100644
--- a/reagent/types.py
+++ b/reagent/types.py
@@ -81,16 +81,18 @@ class TensorDataClass(BaseDataClass):
         return continuation
 
     def cuda(self, *args, **kwargs):
-        cuda_tensor = {}
-        for k, v in self.__dict__.items():  # noqa F402
-            if isinstance(v, torch.Tensor):
-                kwargs["non_blocking"] = kwargs.get("non_blocking", True)
-                cuda_tensor[k] = v.cuda(*args, **kwargs)
-            elif isinstance(v, TensorDataClass):
-                cuda_tensor[k] = v.cuda(*args, **kwargs)
-            else:
-                cuda_tensor[k] = v
-        return type(self)(**cuda_tensor)
+        kwargs["non_blocking"] = kwargs.get("non_blocking", True)
+
+        def f(v):
+            if isinstance(v, (torch.Tensor, TensorDataClass)):
+                return v.cuda(*args, **kwargs)
+            elif isinstance(v, dict):
+                return {kk: f(vv) for kk, vv in v.items()}
+            elif isinstance(v, tuple):
+                return tuple(f(vv) for vv in v)
+            return v
+
+        return type(self)(**f(self.__dict__))
 
 
 # (offset, value)
-- 
2.43.0


From 456904b1bba3fe5357fb0253ffa4b0eca395881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 112/133] fix: id-score-list features were not seen as
 non-float features

---
 reagent/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/types.py b/reagent/types.py
index ae39647..e278416 100644
--- a/reagent/types.py
+++ b/reagent/types.py
@@ -305,6 +305,7 @@ class FeatureData(TensorDataClass):
     def has_float_features_only(self) -> bool:
         return (
             not self.id_list_features
+            and not self.id_score_list_features
             and self.time_since_first is None
             and self.candidate_docs is None
         )
-- 
2.43.0


From c0bbe7e4eff39edaeb9b4303f2ff03c9356d905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 113/133] fix: masks of next candidates had the shape of the
 current candidates

---
 reagent/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/types.py b/reagent/types.py
index e278416..9233071 100644
--- a/reagent/types.py
+++ b/reagent/types.py
@@ -676,7 +676,6 @@ class BaseInput(TensorDataClass):
             batch.get(InputColumn.NEXT_STATE_ID_SCORE_LIST_FEATURES, None) or {}
         )
         # TODO: handle value/mask of DocList
-        filler_mask_val = None
         doc_list = None
         candidate_features = batch.get(InputColumn.CANDIDATE_FEATURES, None)
         if candidate_features is not None:
@@ -692,7 +691,10 @@ class BaseInput(TensorDataClass):
         next_doc_list = None
         next_candidate_features = batch.get(InputColumn.NEXT_CANDIDATE_FEATURES, None)
         if next_candidate_features is not None:
-            assert filler_mask_val is not None
+            assert doc_list is not None
+            filler_mask_val = torch.zeros(
+                (next_candidate_features.shape[0], next_candidate_features.shape[1])
+            )
             next_doc_list = DocList(
                 float_features=next_candidate_features,
                 mask=filler_mask_val.clone().bool(),
-- 
2.43.0


From 792279327b6b17c708ba4927619f6f3d9c5dec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 114/133] fix: optim_tgt_in_idx was not checked to be a tensor

---
 reagent/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/types.py b/reagent/types.py
index 9233071..16a10b3 100644
--- a/reagent/types.py
+++ b/reagent/types.py
@@ -584,7 +584,7 @@ class PreprocessedRankingInput(TensorDataClass):
         assert tgt_in_idx is None or isinstance(tgt_in_idx, torch.Tensor)
         assert tgt_out_idx is None or isinstance(tgt_out_idx, torch.Tensor)
         assert tgt_out_probs is None or isinstance(tgt_out_probs, torch.Tensor)
-        assert optim_tgt_out_idx is None or isinstance(optim_tgt_out_idx, torch.Tensor)
+        assert optim_tgt_in_idx is None or isinstance(optim_tgt_in_idx, torch.Tensor)
         assert optim_tgt_out_idx is None or isinstance(optim_tgt_out_idx, torch.Tensor)
         assert optim_tgt_in_seq is None or isinstance(optim_tgt_in_seq, torch.Tensor)
         assert optim_tgt_out_seq is None or isinstance(optim_tgt_out_seq, torch.Tensor)
-- 
2.43.0


From d6cd24e9c82af40a0d0cfae294b583e9a8fa704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 115/133] fix: the policy gradient prototype's actions did not
 match its action mask

---
 reagent/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/types.py b/reagent/types.py
index 16a10b3..e475963 100644
--- a/reagent/types.py
+++ b/reagent/types.py
@@ -854,13 +854,15 @@ class PolicyGradientInput(TensorDataClass):
 
     @classmethod
     def input_prototype(cls):
-        num_classes = 5
         batch_size = 10
         state_dim = 3
         action_dim = 2
         return cls(
             state=FeatureData(float_features=torch.randn(batch_size, state_dim)),
-            action=F.one_hot(torch.randint(high=num_classes, size=(batch_size,))),
+            action=F.one_hot(
+                torch.randint(high=action_dim, size=(batch_size,)),
+                num_classes=action_dim,
+            ),
             reward=torch.rand(batch_size),
             log_prob=torch.log(torch.rand(batch_size)),
             possible_actions_mask=torch.ones(batch_size, action_dim),
-- 
2.43.0


From 0437a002ceb10d28f47730f7407929050a756f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 116/133] fix: slates were ranked for evaluation by a network
 in training mode

---
 reagent/evaluation/ranking_listwise_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/ranking_listwise_evaluator.py b/reagent/evaluation/ranking_listwise_evaluator.py
index c375181..1b45913 100644
--- a/reagent/evaluation/ranking_listwise_evaluator.py
+++ b/reagent/evaluation/ranking_listwise_evaluator.py
@@ -79,9 +79,8 @@ class RankingListwiseEvaluator:
             self.log_softmax(encoder_scores), eval_tdp.position_reward
         ).item()
 
-        self.seq2slate_net.train(seq2slate_net_prev_mode)
-
         if not self.calc_cpe:
+            self.seq2slate_net.train(seq2slate_net_prev_mode)
             # pyre-fixme[16]: `RankingListwiseEvaluator` has no attribute
             #  `notify_observers`.
             self.notify_observers(cross_entropy_loss=ce_loss)
@@ -91,6 +90,7 @@ class RankingListwiseEvaluator:
         ranking_output = self.seq2slate_net(
             eval_tdp, mode=Seq2SlateMode.RANK_MODE, greedy=True
         )
+        self.seq2slate_net.train(seq2slate_net_prev_mode)
         # pyre-fixme[16]: `int` has no attribute `cpu`.
         ranked_idx = (ranking_output.ranked_tgt_out_idx - 2).cpu().numpy()
         # pyre-fixme[58]: `-` is not supported for operand types
-- 
2.43.0


From d84d77d711121ae45c52adb53773e9611d5becec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 117/133] fix: batches without slates to evaluate turned all
 listwise ranking metrics into NaN

---
 .../evaluation/ranking_listwise_evaluator.py  | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/reagent/evaluation/ranking_listwise_evaluator.py b/reagent/evaluation/ranking_listwise_evaluator.py
index 1b45913..086fb52 100644
--- a/reagent/evaluation/ranking_listwise_evaluator.py
+++ b/reagent/evaluation/ranking_listwise_evaluator.py
@@ -21,6 +21,11 @@ from sklearn.metrics import (
 logger = logging.getLogger(__name__)
 
 
+def _mean_or_none(values) -> Optional[torch.Tensor]:
+    # there's nothing to report if no slate in the batch could be evaluated
+    return torch.mean(torch.tensor(values)).reshape(1) if values else None
+
+
 @dataclass
 class ListwiseRankingMetrics:
     ndcg: Optional[float] = 0.0
@@ -136,14 +141,14 @@ class RankingListwiseEvaluator:
 
         self.notify_observers(
             cross_entropy_loss=ce_loss,
-            dcg=torch.mean(torch.tensor(batch_dcg)).reshape(1),
-            ndcg=torch.mean(torch.tensor(batch_ndcg)).reshape(1),
-            mean_ap=torch.mean(torch.tensor(batch_mean_ap)).reshape(1),
-            auc=torch.mean(torch.tensor(batch_auc)).reshape(1),
-            base_dcg=torch.mean(torch.tensor(batch_base_dcg)).reshape(1),
-            base_ndcg=torch.mean(torch.tensor(batch_base_ndcg)).reshape(1),
-            base_map=torch.mean(torch.tensor(batch_base_map)).reshape(1),
-            base_auc=torch.mean(torch.tensor(batch_base_auc)).reshape(1),
+            dcg=_mean_or_none(batch_dcg),
+            ndcg=_mean_or_none(batch_ndcg),
+            mean_ap=_mean_or_none(batch_mean_ap),
+            auc=_mean_or_none(batch_auc),
+            base_dcg=_mean_or_none(batch_base_dcg),
+            base_ndcg=_mean_or_none(batch_base_ndcg),
+            base_map=_mean_or_none(batch_base_map),
+            base_auc=_mean_or_none(batch_base_auc),
         )
 
     @torch.no_grad()
-- 
2.43.0


From 40dc055151aae27416bf01da128d57e6f2cebd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 118/133] fix: policy gradient rankings were only evaluated
 with CPE, and by networks in training mode

---
 .../ranking_policy_gradient_evaluator.py      | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/reagent/evaluation/ranking_policy_gradient_evaluator.py b/reagent/evaluation/ranking_policy_gradient_evaluator.py
index 87e2b27..cbfacaa 100644
--- a/reagent/evaluation/ranking_policy_gradient_evaluator.py
+++ b/reagent/evaluation/ranking_policy_gradient_evaluator.py
@@ -88,11 +88,22 @@ class RankingPolicyGradientEvaluator:
         )
         ranked_slate_rank_prob = ranked_slate_output.ranked_per_seq_probs.cpu()
 
+        if self.calc_cpe:
+            self._add_evaluation_data(eval_tdp)
+
         seq2slate_net.train(seq2slate_net_prev_mode)
 
-        if not self.calc_cpe:
-            return
+        # pyre-fixme[16]: `RankingPolicyGradientEvaluator` has no attribute
+        #  `notify_observers`.
+        self.notify_observers(
+            eval_baseline_loss=eval_baseline_loss,
+            eval_advantages=eval_advantage,
+            logged_slate_rank_probs=logged_slate_rank_prob,
+            ranked_slate_rank_probs=ranked_slate_rank_prob,
+        )
 
+    def _add_evaluation_data(self, eval_tdp: PreprocessedRankingInput) -> None:
+        seq2slate_net = self.trainer.seq2slate_net
         edp_g = EvaluationDataPage.create_from_tensors_seq2slate(
             seq2slate_net,
             self.reward_network,
@@ -116,15 +127,6 @@ class RankingPolicyGradientEvaluator:
         else:
             self.eval_data_pages_ng = self.eval_data_pages_ng.append(edp_ng)
 
-        # pyre-fixme[16]: `RankingPolicyGradientEvaluator` has no attribute
-        #  `notify_observers`.
-        self.notify_observers(
-            eval_baseline_loss=eval_baseline_loss,
-            eval_advantages=eval_advantage,
-            logged_slate_rank_probs=logged_slate_rank_prob,
-            ranked_slate_rank_probs=ranked_slate_rank_prob,
-        )
-
     @torch.no_grad()
     def evaluate_post_training(self):
         self.notify_observers(
-- 
2.43.0


From 267c5e1a25a088e51e60f8306119dc6733133ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 119/133] fix: classifiers predicted the index of the class
 instead of its label

---
 reagent/ope/trainers/linear_trainers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index 715dc7d..f5549e2 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -25,8 +25,9 @@ class LinearTrainer(Trainer):
                 proba = torch.as_tensor(
                     self._model.predict_proba(x), dtype=torch.float, device=device
                 )
-                score = (proba * torch.arange(proba.shape[1])).sum(dim=1)
-                return PredictResults(torch.argmax(proba, 1), score, proba)
+                labels = torch.as_tensor(self._model.classes_, device=device)
+                score = (proba * labels.to(proba.dtype)).sum(dim=1)
+                return PredictResults(labels[torch.argmax(proba, 1)], score, proba)
             elif hasattr(self._model, "predict"):
                 return PredictResults(
                     None,
-- 
2.43.0


From 3b737ead0fd02d5c4dbe8606b969b233bbac7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 120/133] fix: predictions of the linear net made their input
 unusable for other models

---
 reagent/ope/trainers/linear_trainers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index f5549e2..9b383b7 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -338,7 +338,10 @@ class NNTrainer(Trainer):
     def predict(self, x: Tensor, device=None) -> PredictResults:
         if self._model is not None:
             self._model.eval()
-            proba = torch.as_tensor(self._model(x), dtype=torch.float, device=device)
+            # the network marks its input as requiring gradients, so pass it a detached one
+            proba = torch.as_tensor(
+                self._model(x.detach()), dtype=torch.float, device=device
+            )
             return PredictResults(torch.argmax(proba, 1), proba)
         else:
             raise Exception("mode not trained")
-- 
2.43.0


From 1431e3f99a90acb426f26f2dc4bbcc60186fc905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 121/133] fix: the score of the linear net compared the targets
 with the inputs

---
 reagent/ope/trainers/linear_trainers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index 9b383b7..d29be6f 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -349,6 +349,8 @@ class NNTrainer(Trainer):
     def score(self, x: Tensor, y: Tensor, weight: Optional[Tensor] = None) -> float:
         if self._loss_fn is not None:
             # pyre-fixme[29]: `Optional[torch.nn.MSELoss]` is not a function.
-            return self._loss_fn(y, x).item()
+            y_pred = self.predict(x).scores
+            # pyre-fixme[29]: `Optional[torch.nn.MSELoss]` is not a function.
+            return self._loss_fn(y_pred, y.reshape(y_pred.shape)).item()
         else:
             raise Exception("mode not trained")
-- 
2.43.0


From ca962c4bb522bb9937e320cf9dd9693418d47b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 122/133] fix: NamedTuples did not survive serialization to
 JSON

---
 reagent/json_serialize.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/reagent/json_serialize.py b/reagent/json_serialize.py
index 4992cb4..3fad14b 100644
--- a/reagent/json_serialize.py
+++ b/reagent/json_serialize.py
@@ -4,7 +4,7 @@
 import collections
 import json
 import logging
-from dataclasses import asdict, dataclass, fields, is_dataclass
+from dataclasses import fields, is_dataclass
 from typing import Any, Type, Union
 
 
@@ -23,7 +23,12 @@ def prepare_for_json(o: Any) -> Any:
             d[field_name] = prepare_for_json(getattr(o, field_name))
         return d
     elif is_dataclass(o):
-        return asdict(o)
+        # not asdict(), which turns the NamedTuples inside into plain lists
+        return {f.name: prepare_for_json(getattr(o, f.name)) for f in fields(o)}
+    elif isinstance(o, dict):
+        return {k: prepare_for_json(v) for k, v in o.items()}
+    elif isinstance(o, (list, tuple)):
+        return [prepare_for_json(v) for v in o]
     else:
         return o
 
@@ -34,13 +39,17 @@ def json_to_object(j: str, to_type: Type) -> Any:
     return from_json(j_obj, to_type)
 
 
+def is_namedtuple_type(t: Any) -> bool:
+    return isinstance(t, type) and issubclass(t, tuple) and hasattr(t, "_fields")
+
+
 def from_json(j_obj: Any, to_type: Type) -> Any:
     if j_obj is None:
         return None
     logger.debug("TYPE: ")
     logger.debug(j_obj)
     logger.debug(to_type)
-    if getattr(to_type, "_field_types", None) is not None:
+    if is_namedtuple_type(to_type):
         # Type is a NamedTuple, dive in
         field_data = {}
         for field_name in j_obj.keys():
@@ -48,7 +57,7 @@ def from_json(j_obj: Any, to_type: Type) -> Any:
                 field_name in to_type._fields
             ), "Item in dict missing from {}: {}".format(str(to_type), field_name)
             field_value = j_obj[field_name]
-            object_type = to_type._field_types[field_name]
+            object_type = to_type.__annotations__[field_name]
             if getattr(object_type, "__origin__", None) is Union:
                 assert len(object_type.__args__) == 2 and object_type.__args__[
                     1
-- 
2.43.0


From 21106e861976fa9d2a095afdf3dc6c813c9e9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 123/133] fix: numeric keys of dictionaries came back from JSON
 as strings

---
 reagent/json_serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/json_serialize.py b/reagent/json_serialize.py
index 3fad14b..f595e7f 100644
--- a/reagent/json_serialize.py
+++ b/reagent/json_serialize.py
@@ -105,6 +105,9 @@ def from_json(j_obj: Any, to_type: Type) -> Any:
         dict_inner_value_type = to_type.__args__[1]
         retval_dict = {}
         for k, v in j_obj.items():
+            if dict_inner_key_type in (int, float):
+                # keys of JSON objects are always strings
+                k = dict_inner_key_type(k)
             retval_dict[from_json(k, dict_inner_key_type)] = from_json(
                 v, dict_inner_value_type
             )
-- 
2.43.0


From ce2a1cc0cc213450e0b6ae1973fb504c26611a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 124/133] fix: the offline gym pipeline ignored its limit on
 episode steps

---
 reagent/gym/utils.py             | 19 +++++++++++++++----
 reagent/workflow/gym_batch_rl.py |  4 +++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/reagent/gym/utils.py b/reagent/gym/utils.py
index ecfb8c4..88fbaf8 100644
--- a/reagent/gym/utils.py
+++ b/reagent/gym/utils.py
@@ -2,7 +2,7 @@
 # Copyright (c) Facebook, Inc. and its affiliates. All rights reserved.
 
 import logging
-from typing import Dict
+from typing import Dict, Optional
 
 from gym import spaces
 from reagent.gym.agents.agent import Agent
@@ -30,8 +30,16 @@ except ImportError:
     HAS_RECSIM = False
 
 
-def fill_replay_buffer(env, replay_buffer: ReplayBuffer, desired_size: int):
-    """ Fill replay buffer with random transitions until size reaches desired_size. """
+def fill_replay_buffer(
+    env,
+    replay_buffer: ReplayBuffer,
+    desired_size: int,
+    max_episode_steps: Optional[int] = None,
+):
+    """
+    Fill replay buffer with random transitions until size reaches desired_size.
+    Episodes are cut after max_episode_steps, or after the environment's max_steps.
+    """
     assert (
         0 < desired_size and desired_size <= replay_buffer._replay_capacity
     ), f"It's not true that 0 < {desired_size} <= {replay_buffer._replay_capacity}."
@@ -47,7 +55,10 @@ def fill_replay_buffer(env, replay_buffer: ReplayBuffer, desired_size: int):
     agent = Agent.create_for_env(
         env, policy=random_policy, post_transition_callback=post_step
     )
-    max_episode_steps = env.max_steps
+    if max_episode_steps is None:
+        max_episode_steps = env.max_steps
+    elif env.max_steps is not None:
+        max_episode_steps = min(max_episode_steps, env.max_steps)
     with tqdm(
         total=desired_size - replay_buffer.size,
         desc=f"Filling replay buffer from {replay_buffer.size} to size {desired_size} using random policy",
diff --git a/reagent/workflow/gym_batch_rl.py b/reagent/workflow/gym_batch_rl.py
index 7427f23..ac51c82 100644
--- a/reagent/workflow/gym_batch_rl.py
+++ b/reagent/workflow/gym_batch_rl.py
@@ -49,7 +49,9 @@ def offline_gym(
     env = Gym(env_name=env_name)
 
     replay_buffer = ReplayBuffer(replay_capacity=num_train_transitions, batch_size=1)
-    fill_replay_buffer(env, replay_buffer, num_train_transitions)
+    fill_replay_buffer(
+        env, replay_buffer, num_train_transitions, max_episode_steps=max_steps
+    )
     if isinstance(env.action_space, gym.spaces.Discrete):
         is_discrete_action = True
     else:
-- 
2.43.0


From 2354a293248c51c5dc2cfc33160068d9e364801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 125/133] fix: exported transitions had a list instead of a
 string as their mdp_id

---
 reagent/replay_memory/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index 022388f..054e445 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -58,6 +58,7 @@ def replay_buffer_to_pre_timeline_df(
 
         # TODO: handle possible actions/mask here
 
+    mdp_id = [str(i) for i in batch.mdp_id.squeeze(1).tolist()]
     sequence_number = batch.sequence_number.squeeze(1).tolist()
     action_probability = np.exp(batch.log_prob.squeeze(1)).tolist()
     reward = batch.reward.squeeze(1).tolist()
@@ -65,7 +66,7 @@ def replay_buffer_to_pre_timeline_df(
         "ds": [DEFAULT_DS for _ in range(n)],
         "state_features": _dense_to_sparse(batch.state),
         "action": action,
-        "mdp_id": batch.mdp_id.tolist(),
+        "mdp_id": mdp_id,
         "sequence_number": sequence_number,
         "action_probability": action_probability,
         "reward": reward,
-- 
2.43.0


From d9085ad4f9703879c17d56d1ddf4264fa6254024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 126/133] fix: no normalization could be built for environments
 with image observations

---
 reagent/gym/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/utils.py b/reagent/gym/utils.py
index 88fbaf8..2580859 100644
--- a/reagent/gym/utils.py
+++ b/reagent/gym/utils.py
@@ -102,8 +102,8 @@ def build_state_normalizer(env: EnvWrapper):
             env.observation_space.high,
         )
     elif isinstance(env.observation_space, spaces.Dict):
-        # assuming env.observation_space is image
-        return None
+        # assuming env.observation_space is image, there are no dense features
+        return {}
     else:
         raise NotImplementedError(f"{env.observation_space} not supported")
 
-- 
2.43.0


From 361156d35584cdf0729e6537c7a02566b3f2f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 127/133] fix: order the CEM action bounds like the action
 columns

---
 .../model_based/cross_entropy_method.py             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_based/cross_entropy_method.py b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
index 3efee16..61e635f 100644
--- a/reagent/workflow/model_managers/model_based/cross_entropy_method.py
+++ b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
@@ -11,7 +11,10 @@ from reagent.gym.policies.policy import Policy
 from reagent.models.cem_planner import CEMPlannerNetwork
 from reagent.parameters import CEMTrainerParameters, param_hash
 from reagent.preprocessing.identify_types import CONTINUOUS_ACTION
-from reagent.preprocessing.normalization import get_num_output_features
+from reagent.preprocessing.normalization import (
+    get_num_output_features,
+    sort_features_by_normalization,
+)
 from reagent.training.cem_trainer import CEMTrainer
 from reagent.workflow.model_managers.model_based.world_model import WorldModel
 from reagent.workflow.model_managers.world_model_base import WorldModelBase
@@ -79,7 +82,13 @@ class CrossEntropyMethod(WorldModelBase):
         action_normalization_parameters = (
             self.action_normalization_data.dense_normalization_parameters
         )
-        sorted_action_norm_vals = list(action_normalization_parameters.values())
+        # the same order as the columns of the preprocessed action
+        sorted_action_features, _ = sort_features_by_normalization(
+            action_normalization_parameters
+        )
+        sorted_action_norm_vals = [
+            action_normalization_parameters[f] for f in sorted_action_features
+        ]
         discrete_action = sorted_action_norm_vals[0].feature_type != CONTINUOUS_ACTION
         action_upper_bounds, action_lower_bounds = None, None
         if not discrete_action:
-- 
2.43.0


From 2e2ef62740cdfe8dbef41a49cb9ed74f1190ff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 128/133] fix: an interrupted save over an older checkpoint
 left a mixture of both that could be loaded

---
 reagent/replay_memory/circular_replay_buffer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 31f8dc4..c46b255 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -813,6 +813,15 @@ class ReplayBuffer(object):
 
         checkpointable_elements = self._return_checkpointable_elements()
 
+        # If this iteration was saved before, remove that checkpoint first: if we are
+        # interrupted, its files must not complete the ones written below.
+        for attr in checkpointable_elements:
+            filename = self._generate_filename(checkpoint_dir, attr, iteration_number)
+            try:
+                os.remove(filename)
+            except FileNotFoundError:
+                pass
+
         for attr in checkpointable_elements:
             filename = self._generate_filename(checkpoint_dir, attr, iteration_number)
             with open(filename, "wb") as f:
-- 
2.43.0


From 8ae0a93575203b2b351fba05cfeae1721b1a6bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 129/133] fix: the replay buffer kept references to the
 caller's id lists, and failed on absent ones

---
 reagent/replay_memory/circular_replay_buffer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index c46b255..c2b884b 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -150,7 +150,8 @@ class IDListMetadata(ElementMetadata):
         return np.empty(array_shape, dtype=np.object)
 
     def input_to_storage(self, input):
-        return input
+        # a copy, since the caller may reuse its lists; absent features are empty
+        return {k: list(input.get(k, [])) for k in self.keys}
 
     def sample_to_output(self, sample):
         # TODO: implement for stack size > 1
@@ -212,7 +213,8 @@ class IDScoreListMetadata(ElementMetadata):
         return np.empty(array_shape, dtype=np.object)
 
     def input_to_storage(self, input):
-        return input
+        # a copy, since the caller may reuse its lists; absent features are empty
+        return {k: tuple(list(v) for v in input.get(k, ([], []))) for k in self.keys}
 
     def sample_to_output(self, sample):
         # TODO: implement for stack size > 1
-- 
2.43.0


From fc2794459031d695213330eac2ea5e67ba150403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 130/133] fix: overlapping publications lost each other's
 models or failed

---
 reagent/publishers/file_system_publisher.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/reagent/publishers/file_system_publisher.py b/reagent/publishers/file_system_publisher.py
index 27ed71e..e94a358 100644
--- a/reagent/publishers/file_system_publisher.py
+++ b/reagent/publishers/file_system_publisher.py
@@ -1,5 +1,7 @@
 #!/usr/bin/env python3
 
+import contextlib
+import fcntl
 import json
 import logging
 import os
@@ -77,6 +79,14 @@ if HAS_TINYDB:
                 self.publishing_file, storage=CachingMiddleware(AtomicJSONStorage)
             )
 
+        @contextlib.contextmanager
+        def _exclusive(self):
+            # Publishing reads the whole file and replaces it, so two publications must
+            # not overlap. The lock is released even if the process is killed.
+            with open(f"{self.publishing_file}.lock", "w") as lock_file:
+                fcntl.flock(lock_file, fcntl.LOCK_EX)
+                yield
+
         def get_latest_published_model(
             self, model_manager: ModelManager, module_name: str
         ) -> str:
@@ -107,7 +117,7 @@ if HAS_TINYDB:
             # a failed publication must not replace any of the published modules
             for path in training_output.output_paths.values():
                 assert os.path.exists(path), f"Given path {path} doesn't exist."
-            with self._open_db() as db:
+            with self._exclusive(), self._open_db() as db:
                 for module_name, path in training_output.output_paths.items():
                     path = os.path.abspath(path)
                     Model = Query()
-- 
2.43.0


From cedb92b04dc526a00cc0a9cdd6dd5fe8f5e2393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 131/133] fix: a missing feature whose value is NaN or
 overflows made the output NaN

---
 reagent/preprocessing/preprocessor.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index 31d0e62..a86a654 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -138,11 +138,11 @@ class Preprocessor(Module):
                 # Process one-at-a-time
                 for j in range(begin_index, end_index):
                     norm_params = self.normalization_parameters[self.sorted_features[j]]
-                    new_output = (
+                    new_output = self._mask_missing(
                         self._preprocess_feature_single_column(
                             j, split_input[ptr], norm_params
-                        )
-                        * split_presence[ptr]
+                        ),
+                        split_presence[ptr],
                     )
                     ptr += 1
                     self._check_preprocessing_output(new_output, [norm_params])
@@ -151,11 +151,11 @@ class Preprocessor(Module):
                 norm_params_list: List[NormalizationParameters] = []
                 for f in self.sorted_features[begin_index:end_index]:
                     norm_params_list.append(self.normalization_parameters[f])
-                new_output = (
+                new_output = self._mask_missing(
                     self._preprocess_feature_multi_column(
                         begin_index, split_input[ptr], norm_params_list
-                    )
-                    * split_presence[ptr]
+                    ),
+                    split_presence[ptr],
                 )
                 ptr += 1
                 self._check_preprocessing_output(new_output, norm_params_list)
@@ -167,6 +167,12 @@ class Preprocessor(Module):
 
         return torch.cat(outputs, dim=1)
 
+    def _mask_missing(
+        self, output: torch.Tensor, presence: torch.Tensor
+    ) -> torch.Tensor:
+        # Not a product, because a missing value may be anything, e.g., NaN
+        return torch.where(presence > 0, output, torch.zeros_like(output))
+
     def _preprocess_feature_single_column(
         self,
         begin_index: int,
-- 
2.43.0


From 1a4d7bdccf5c4da2558c8f993044b3ff1a219cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 132/133] fix: counterfactual evaluation of a DQN with metrics
 to score failed

---
 reagent/training/dqn_trainer_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/dqn_trainer_base.py b/reagent/training/dqn_trainer_base.py
index 03a90c6..788f06c 100644
--- a/reagent/training/dqn_trainer_base.py
+++ b/reagent/training/dqn_trainer_base.py
@@ -168,7 +168,8 @@ class DQNTrainerBaseLightning(DQNTrainerMixin, RLTrainerMixin, ReAgentLightningM
             self._actions,
             self.rl_parameters.gamma,
             self.trainer,
-            metrics_to_score=self.metrics_to_score,
+            # the reward isn't one of the logged metrics, it's always scored
+            metrics_to_score=self.metrics_to_score[:-1],
         )
 
     def _calculate_cpes(
-- 
2.43.0


From 63451efc3ceef49a5c5ffc239186b9f347509493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 133/133] fix: ToyVM ignored an initial seed of 0

---
 reagent/gym/envs/toy_vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/envs/toy_vm.py b/reagent/gym/envs/toy_vm.py
index d62b54f..3c617d2 100644
--- a/reagent/gym/envs/toy_vm.py
+++ b/reagent/gym/envs/toy_vm.py
@@ -112,7 +112,7 @@ class ToyVM(EnvWrapper):
             ),
             zero_augment,
         )
-        if self.initial_seed:
+        if self.initial_seed is not None:
             env.seed(self.initial_seed)
         return env
 
-- 
2.43.0


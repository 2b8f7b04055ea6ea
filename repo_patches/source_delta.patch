From 81f5ce180faa820cbeb283741d425dc0e9f31433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:08 +0000
Subject: [PATCH 01/49] fix: TransitionBatch.to_singles must not alias the
 source batch when batch_size=1

Replay buffers store what to_singles yields. Yielding the caller's own object meant that re-adding
it (or adding it to a second buffer) silently relabelled the entry that was already stored.
---
 coax/reward_tracing/_transition.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 3d5a764..369e701 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -201,10 +201,6 @@ class TransitionBatch(CopyMixin):
             **Note:** The iterator walks through the individual transitions *in reverse order*.
 
         """
-        if self.batch_size == 1:
-            yield self
-            return  # break out of generator
-
         def lookup(i, pytree):
             s = slice(i, i + 1)  # ndim-preserving lookup
             return jax.tree_map(lambda leaf: leaf[s], pytree)
-- 
2.43.0


From 94e5b4039f612485b5a111a75568a4b874a5c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:53 +0000
Subject: [PATCH 02/49] fix: TransitionBatch.__eq__ must not ignore missing
 fields or broadcast batch sizes

Comparing zipped leaves made a batch equal to one without extra_info, and a batch of size 1 equal to
a batch of n copies of the same transition.
---
 coax/reward_tracing/_transition.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 369e701..66096d4 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -225,10 +225,14 @@ class TransitionBatch(CopyMixin):
         return tuple(self).__getitem__(int_or_slice)
 
     def __eq__(self, other):
-        return (type(self) is type(other)) and all(
-            onp.allclose(a, b) if isinstance(a, (onp.ndarray, jnp.ndarray))
-            else (a is b if a is None else a == b)
-            for a, b in zip(jax.tree_util.tree_leaves(self), jax.tree_util.tree_leaves(other)))
+        if type(self) is not type(other):
+            return False
+        leaves, treedef = jax.tree_util.tree_flatten(self)
+        leaves_other, treedef_other = jax.tree_util.tree_flatten(other)
+        return treedef == treedef_other and all(
+            onp.shape(a) == onp.shape(b) and onp.allclose(a, b)
+            if isinstance(a, (onp.ndarray, jnp.ndarray)) else a == b
+            for a, b in zip(leaves, leaves_other))
 
 
 def _single_to_batch(pytree):
-- 
2.43.0


From 83451f97c91670b2dad2861cec2bbc89d9e520c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:21 +0000
Subject: [PATCH 03/49] fix: PrioritizedReplayBuffer.update must ignore ids
 that are not in the buffer

A stale id that shares a slot with a retained id in the same call reverted that id's update (the last
write to the slot won), and an id whose slot was still empty raised AttributeError.
---
 coax/experience_replay/_prioritized.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 7806e15..5d6cf6c 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -199,11 +199,11 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = idx % self.capacity  # wrap around
-        new_values = onp.where(
-            _get_transition_batch_idx(self._storage[idx_lookup]) == idx,  # only update if ids match
-            onp.power(onp.abs(Adv) + self.epsilon, self.alpha),
-            self._sumtree.values[idx_lookup])
-        self._sumtree.set_values(idx_lookup, new_values)
+        match = onp.array([               # only update if ids match
+            transition is not None and transition.idx[0] == i
+            for transition, i in zip(self._storage[idx_lookup], idx)], dtype='bool')
+        self._sumtree.set_values(
+            idx_lookup[match], onp.power(onp.abs(Adv[match]) + self.epsilon, self.alpha))
 
     def clear(self):
         r""" Clear the experience replay buffer. """
@@ -223,8 +223,3 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
 
 def _concatenate_leaves(pytrees):
     return jax.tree_map(lambda *leaves: onp.concatenate(leaves, axis=0), *pytrees)
-
-
-@onp.vectorize
-def _get_transition_batch_idx(transition):
-    return transition.idx
-- 
2.43.0


From 42704b35a65008d76a43651f0e92c9a32f8adb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 04/49] fix: batched SegmentTree.partial_reduce must not read
 beyond the last leaf

When one range of a batch ends at the last leaf and is finished while others are not, looking up its
right sibling raised IndexError.
---
 coax/utils/_segment_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 61a4c79..d727123 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -171,7 +171,8 @@ class SegmentTree:
                 return self.reducer(a, b)
 
             # only accumulate right-child value if 'i' was a left child of 'i_parent'
-            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + 1]), a)
+            mask = (i % 2 == 1) & ~done
+            a = onp.where(mask, self.reducer(a, self._arr[onp.where(mask, i + 1, i)]), a)
 
             # only accumulate left-child value if 'j' was a right child of 'j_parent'
             b = onp.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
-- 
2.43.0


From 979b4cb5280b28a6565e09219d9cd84a3f859e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 05/49] fix: SegmentTree.partial_reduce must reject empty and
 out-of-bounds ranges

(0, 0) silently reduced over all values and stop > capacity wrapped around to the start, instead of
raising the IndexError that other inconsistent ranges raise.
---
 coax/utils/_segment_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index d727123..ea1b0d7 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -260,8 +260,8 @@ class SegmentTree:
 
         # convert to (i, j), where j is the *inclusive* version of 'stop' (which is exclusive)
         level_offset, level_size = self._check_level_lookup(self.height - 1)
-        i = level_offset + start % level_size
-        j = level_offset + (stop - 1) % level_size
+        i = level_offset + onp.where(start < 0, start + level_size, start)
+        j = level_offset + onp.where(stop < 0, stop + level_size, stop) - 1
 
         # check consistency of ranges
         if not onp.all((i >= level_offset) & (j < level_offset + level_size) & (i <= j)):
-- 
2.43.0


From 404d122e6f6aab78f14fa7f49cfe620aec80a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 06/49] fix: SumTree.inverse_cdf must not return an index with
 zero weight

At u=1, or when u*root rounds up to the sum of the left branch, the search descended into an empty
right branch, giving a zero-weight index or one beyond the capacity of the tree.
---
 coax/utils/_segment_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index ea1b0d7..fb18da7 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -390,7 +390,8 @@ class SumTree(SegmentTree):
 
             # update (idx, values, level_offset_parent)
             left_child_values = self._arr[left_child_idx]
-            pick_left_child = left_child_values > values
+            # never descend into an empty right branch (u == 1 or round-off)
+            pick_left_child = (left_child_values > values) | (self._arr[right_child_idx] <= 0)
             idx = onp.where(pick_left_child, left_child_idx, right_child_idx)
             values = onp.where(pick_left_child, values, values - left_child_values)
             level_offset_parent = level_offset
-- 
2.43.0


From b72145418e95772d9825327bfd6ee78848025ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:09 +0000
Subject: [PATCH 07/49] fix: SegmentTree.partial_reduce must reduce in order

The documented equivalence to functools.reduce(reducer, values[start:stop], init_value) did not hold
for reducers that are associative but not commutative.
---
 coax/utils/_segment_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index fb18da7..808174c 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -175,7 +175,7 @@ class SegmentTree:
             a = onp.where(mask, self.reducer(a, self._arr[onp.where(mask, i + 1, i)]), a)
 
             # only accumulate left-child value if 'j' was a right child of 'j_parent'
-            b = onp.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
+            b = onp.where((j % 2 == 0) & ~done, self.reducer(self._arr[j - 1], b), b)
 
             # prepare for next loop
             i, j, level_offset = i_parent, j_parent, level_offset_parent
-- 
2.43.0


From 80a71d503421519cf6f228c1b9d7834aafea1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:48 +0000
Subject: [PATCH 08/49] fix: ConnectFourEnv.set_state must use np.base_repr
 (np._base_repr does not exist)

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 29fb9b1..e2cee96 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -254,7 +254,7 @@ class ConnectFourEnv(Env):
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np._base_repr(int(state_id[3:], 16), 3)
+        s = np.base_repr(int(state_id[3:], 16), 3)
         z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
         z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
-- 
2.43.0


From 0405de9b3ac8d1ee684fa794ae883471e2eb1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:59 +0000
Subject: [PATCH 09/49] fix: TrainMonitor.set_counters must switch the
 tensorboard writer along with its directory

---
 coax/wrappers/_train_monitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 884da73..21f9fbb 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -352,8 +352,10 @@ class TrainMonitor(Wrapper, LoggerMixin):
         return state
 
     def __setstate__(self, state):
+        state = state.copy()           # shallow copy
+        tensorboard_dir = state.pop('_tensorboard_dir')
         self.__dict__.update(state)
-        self._init_tensorboard(state['_tensorboard_dir'])
+        self._init_tensorboard(tensorboard_dir)
 
     def get_counters(self):
         r"""
-- 
2.43.0


From 2fc7ada4718058a968d09de5f4c1e0308a9ec757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:59 +0000
Subject: [PATCH 10/49] fix: TrainMonitor.get_counters must return a snapshot,
 not references to live counters

---
 coax/wrappers/_train_monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 21f9fbb..98f1a2e 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -4,6 +4,7 @@ import datetime
 import logging
 import time
 from collections import deque
+from copy import deepcopy
 from typing import Mapping
 
 import numpy as np
@@ -369,7 +370,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
             The dict that contains the counters.
 
         """
-        return {k: getattr(self, k) for k in self._COUNTER_ATTRS}
+        return deepcopy({k: getattr(self, k) for k in self._COUNTER_ATTRS})
 
     def set_counters(self, counters):
         r"""
@@ -385,7 +386,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         """
         if not (isinstance(counters, dict) and set(counters) == set(self._COUNTER_ATTRS)):
             raise TypeError(f"invalid counters dict: {counters}")
-        self.__setstate__(counters)
+        self.__setstate__(deepcopy(counters))
 
     def save_counters(self, filepath):
         r"""
-- 
2.43.0


From c73e882005af68dbfc4226bc2fab214d24b50ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:19 +0000
Subject: [PATCH 11/49] fix: BoxActionsToReals/BoxActionsToDiscrete must hand
 over an element of the original action space

---
 coax/wrappers/_box_spaces.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 4ebd4c0..940cd3f 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -50,7 +50,8 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         action = onp.clip(action, -1e15, 1e15)
         action = onp.reshape(action, self.env.action_space.shape)
-        return lo + (hi - lo) * sigmoid(action)
+        # rounding may push us beyond the boundary of the original action space, hence the clip
+        return onp.clip(lo + (hi - lo) * sigmoid(action), lo, hi)
 
 
 class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
@@ -92,7 +93,8 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
         a_rescaled = lo + a_reshaped * (hi - lo)
-        return a_rescaled
+        # make sure that we return a proper element of the original action space
+        return onp.clip(a_rescaled, lo, hi).astype(self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
         self._size = onp.prod(self.env.action_space.shape)
-- 
2.43.0


From 9a6e35d7cb356819f9c9bc035d3a4ffdb76df6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:19 +0000
Subject: [PATCH 12/49] fix: MetaPolicyEnv.step must not use inspect.getargspec
 (removed from Python 3.11)

---
 coax/wrappers/_meta_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index 02a9cc6..b91fcbf 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -43,7 +43,7 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         assert self._s is not None, "please call env.reset() first"
 
         pi = self.arms[a_meta]
-        if 'return_logp' in inspect.getargspec(pi).args:
+        if 'return_logp' in inspect.signature(pi).parameters:
             a, logp = pi(self._s, return_logp=True)
         else:
             a, logp = pi(self._s), 0.
-- 
2.43.0


From ffdecae4f487bcf6d44e8ec2c6ee0dccf4e5ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:51 +0000
Subject: [PATCH 13/49] fix: TD updates of distributional value functions must
 not ignore the importance weights

---
 coax/td_learning/_base.py                   | 8 ++++----
 coax/td_learning/_clippeddoubleqlearning.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 66d3650..5e90c43 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -261,8 +261,8 @@ class BaseTDLearningV(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.v.value_transform)
 
                 if isinstance(self.v.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.v.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.v.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.v.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
@@ -418,8 +418,8 @@ class BaseTDLearningQ(BaseTDLearning):
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index bd2a48b..8a269d5 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -145,8 +145,8 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                         dist_params_target, 1., -regularizer, self.q.value_transform)
 
                 if isinstance(self.q.proba_dist, DiscretizedIntervalDist):
-                    loss = jnp.mean(self.q.proba_dist.cross_entropy(dist_params_target,
-                                                                    dist_params))
+                    loss = jnp.mean(W * self.q.proba_dist.cross_entropy(dist_params_target,
+                                                                        dist_params))
                 elif isinstance(self.q.proba_dist, EmpiricalQuantileDist):
                     loss = quantile_huber(dist_params_target['values'],
                                           dist_params['values'],
-- 
2.43.0


From 3267a0d2b5a28aa2b8c6da4363b2de32b1719c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:40 +0000
Subject: [PATCH 14/49] fix: TD targets must average over next actions, not
 feed propensities to a type-1 q-function or mix logits

---
 coax/td_learning/_base.py                     | 29 +++++++++++++++++--
 coax/td_learning/_clippeddoubleqlearning.py   | 12 ++++----
 coax/td_learning/_doubleqlearning.py          |  2 +-
 coax/td_learning/_expectedsarsa.py            |  2 +-
 coax/td_learning/_qlearning.py                |  2 +-
 coax/td_learning/_sarsa.py                    |  3 +-
 .../_softclippeddoubleqlearning.py            | 12 ++++----
 7 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 5e90c43..20c3503 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -5,6 +5,7 @@ import jax.numpy as jnp
 import haiku as hk
 import optax
 import chex
+from gymnasium.spaces import Discrete
 
 from .._base.mixins import RandomStateMixin
 from ..utils import get_grads_diagnostics, is_policy, is_stochastic, is_qfunction, is_vfunction, jit
@@ -501,7 +502,17 @@ class BaseTDLearningQ(BaseTDLearning):
             'q_targ': self.q_targ.function_state,
             'reg': getattr(getattr(self.policy_regularizer, 'f', None), 'function_state', None)})
 
-    def _get_target_dist_params(self, params, state, rng, transition_batch, A_next):
+    def _evaluate(self, q, params, state, rng, S, A):
+        """ evaluate q(s, a) where, if actions are discrete, A is a vector of propensities """
+        if isinstance(q.action_space, Discrete):
+            # don't feed propensities to a type-1 function, which needn't be linear in its input A
+            Q_s, _ = q.function_type2(params, state, rng, S, False)
+            return jax.vmap(jnp.dot)(A, Q_s)
+        Q_sa, _ = q.function_type1(params, state, rng, S, A, False)
+        return Q_sa
+
+    def _get_target_dist_params(
+            self, params, state, rng, transition_batch, A_next, is_propensities=True):
         r"""
 
         This method applies techniques from the Distributionel RL paper (arxiv:1707.06887) to
@@ -511,8 +522,20 @@ class BaseTDLearningQ(BaseTDLearning):
         rngs = hk.PRNGSequence(rng)
         S_next = self.q_targ.observation_preprocessor(next(rngs), transition_batch.S_next)
         scale, shift = transition_batch.In, transition_batch.Rn  # defines affine transformation
-        dist_params_next, _ = self.q_targ.function_type1(
-            params, state, next(rngs), S_next, A_next, False)
+        if is_propensities and isinstance(self.q_targ.action_space, Discrete):
+            # A_next is a vector of action propensities, so take the mixture over all actions
+            dist_params_next, _ = self.q_targ.function_type2(
+                params, state, next(rngs), S_next, False)
+            if isinstance(self.q_targ.proba_dist, DiscretizedIntervalDist):
+                p = jax.nn.softmax(dist_params_next['logits'], axis=-1)
+                p = jnp.einsum('ij,ijk->ik', A_next, p)
+                dist_params_next = {'logits': jnp.log(jnp.maximum(p, 1e-16))}
+            else:
+                dist_params_next = jax.tree_util.tree_map(
+                    lambda x: jnp.einsum('ij,ijk->ik', A_next, x), dist_params_next)
+        else:
+            dist_params_next, _ = self.q_targ.function_type1(
+                params, state, next(rngs), S_next, A_next, False)
         dist_params_target = self.q_targ.proba_dist.affine_transform(
             dist_params_next, scale, shift, self.q_targ.value_transform)
         return dist_params_target
diff --git a/coax/td_learning/_clippeddoubleqlearning.py b/coax/td_learning/_clippeddoubleqlearning.py
index 8a269d5..28f39dc 100644
--- a/coax/td_learning/_clippeddoubleqlearning.py
+++ b/coax/td_learning/_clippeddoubleqlearning.py
@@ -252,13 +252,13 @@ class ClippedDoubleQLearning(BaseTDLearningQ):  # TODO(krholshe): make this less
                 for q_j, params_j, state_j in qs:
                     S_next = q_j.observation_preprocessor(next(rngs), transition_batch.S_next)
                     if is_stochastic(q_j):
-                        Q_sa_next = q_j.mean_func_type1(
-                            params_j, state_j, next(rngs), S_next, A_next)
-                        Q_sa_next = q_j.proba_dist.postprocess_variate(
-                            next(rngs), Q_sa_next, batch_mode=True)
+                        Q_s_next = q_j.mean_func_type2(params_j, state_j, next(rngs), S_next)
+                        Q_s_next = q_j.proba_dist.postprocess_variate(
+                            next(rngs), Q_s_next, batch_mode=True)
+                        Q_sa_next = jax.vmap(jnp.dot)(A_next, Q_s_next)
                     else:
-                        Q_sa_next, _ = q_j.function_type1(
-                            params_j, state_j, next(rngs), S_next, A_next, False)
+                        Q_sa_next = self._evaluate(
+                            q_j, params_j, state_j, next(rngs), S_next, A_next)
                     assert Q_sa_next.ndim == 1, f"bad shape: {Q_sa_next.shape}"
                     f_inv = q_j.value_transform.inverse_func
                     Q_sa_next_list.append(f_inv(Q_sa_next))
diff --git a/coax/td_learning/_doubleqlearning.py b/coax/td_learning/_doubleqlearning.py
index b5bae63..78bb950 100644
--- a/coax/td_learning/_doubleqlearning.py
+++ b/coax/td_learning/_doubleqlearning.py
@@ -129,6 +129,6 @@ class DoubleQLearning(BaseTDLearningQWithTargetPolicy):
         if is_stochastic(self.q):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
-        Q_sa_next, _ = self.q.function_type1(params, state, next(rngs), S_next, A_next, False)
+        Q_sa_next = self._evaluate(self.q, params, state, next(rngs), S_next, A_next)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
         return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
diff --git a/coax/td_learning/_expectedsarsa.py b/coax/td_learning/_expectedsarsa.py
index de2a064..1f6b0d6 100644
--- a/coax/td_learning/_expectedsarsa.py
+++ b/coax/td_learning/_expectedsarsa.py
@@ -113,6 +113,6 @@ class ExpectedSarsa(BaseTDLearningQWithTargetPolicy):
         if is_stochastic(self.q):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
-        Q_sa_next, _ = self.q_targ.function_type1(params, state, next(rngs), S_next, A_next, False)
+        Q_sa_next = self._evaluate(self.q_targ, params, state, next(rngs), S_next, A_next)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
         return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
diff --git a/coax/td_learning/_qlearning.py b/coax/td_learning/_qlearning.py
index 5a0655f..a40c864 100644
--- a/coax/td_learning/_qlearning.py
+++ b/coax/td_learning/_qlearning.py
@@ -141,6 +141,6 @@ class QLearning(BaseTDLearningQWithTargetPolicy):
         if is_stochastic(self.q):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
-        Q_sa_next, _ = self.q.function_type1(params, state, next(rngs), S_next, A_next, False)
+        Q_sa_next = self._evaluate(self.q, params, state, next(rngs), S_next, A_next)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
         return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
diff --git a/coax/td_learning/_sarsa.py b/coax/td_learning/_sarsa.py
index f853bee..d7a12e9 100644
--- a/coax/td_learning/_sarsa.py
+++ b/coax/td_learning/_sarsa.py
@@ -73,7 +73,8 @@ class Sarsa(BaseTDLearningQ):
         A_next = self.q_targ.action_preprocessor(next(rngs), transition_batch.A_next)
 
         if is_stochastic(self.q):
-            return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
+            return self._get_target_dist_params(
+                params, state, next(rngs), transition_batch, A_next, is_propensities=False)
 
         Q_sa_next, _ = self.q_targ.function_type1(params, state, next(rngs), S_next, A_next, False)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
diff --git a/coax/td_learning/_softclippeddoubleqlearning.py b/coax/td_learning/_softclippeddoubleqlearning.py
index 12a6ab3..95cb13e 100644
--- a/coax/td_learning/_softclippeddoubleqlearning.py
+++ b/coax/td_learning/_softclippeddoubleqlearning.py
@@ -40,13 +40,13 @@ class SoftClippedDoubleQLearning(ClippedDoubleQLearning):
                 for q_j, params_j, state_j in qs:
                     S_next = q_j.observation_preprocessor(next(rngs), transition_batch.S_next)
                     if is_stochastic(q_j):
-                        Q_sa_next = q_j.mean_func_type1(
-                            params_j, state_j, next(rngs), S_next, A_next)
-                        Q_sa_next = q_j.proba_dist.postprocess_variate(
-                            next(rngs), Q_sa_next, batch_mode=True)
+                        Q_s_next = q_j.mean_func_type2(params_j, state_j, next(rngs), S_next)
+                        Q_s_next = q_j.proba_dist.postprocess_variate(
+                            next(rngs), Q_s_next, batch_mode=True)
+                        Q_sa_next = jax.vmap(jnp.dot)(A_next, Q_s_next)
                     else:
-                        Q_sa_next, _ = q_j.function_type1(
-                            params_j, state_j, next(rngs), S_next, A_next, False)
+                        Q_sa_next = self._evaluate(
+                            q_j, params_j, state_j, next(rngs), S_next, A_next)
                     assert Q_sa_next.ndim == 1, f"bad shape: {Q_sa_next.shape}"
                     f_inv = q_j.value_transform.inverse_func
                     Q_sa_next_list.append(f_inv(Q_sa_next))
-- 
2.43.0


From 40c691e549246495f4a5feda0a1a2e67493b9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:24 +0000
Subject: [PATCH 15/49] fix: StochasticQ/StochasticV must undo the value
 transform when called, as documented

---
 coax/_core/stochastic_q.py | 14 +++++++++++---
 coax/_core/stochastic_v.py | 10 +++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index bf24020..81b51d3 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -162,7 +162,11 @@ class StochasticQ(BaseStochasticFuncType1):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, a=a, return_logp=return_logp)
+        out = super().__call__(s, a=a, return_logp=return_logp)
+        if return_logp:
+            value, logp = out
+            return self._undo_value_transform(value), logp
+        return self._undo_value_transform(out)
 
     def mean(self, s, a=None):
         r"""
@@ -187,7 +191,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mean(s, a=a)
+        return self._undo_value_transform(super().mean(s, a=a))
 
     def mode(self, s, a=None):
         r"""
@@ -212,7 +216,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mode(s, a=a)
+        return self._undo_value_transform(super().mode(s, a=a))
 
     def dist_params(self, s, a=None):
         r"""
@@ -239,6 +243,10 @@ class StochasticQ(BaseStochasticFuncType1):
         """
         return super().dist_params(s, a=a)
 
+    def _undo_value_transform(self, value):
+        f_inv = self.value_transform.inverse_func
+        return [f_inv(v) for v in value] if isinstance(value, list) else f_inv(value)
+
     @staticmethod
     def _get_proba_dist(value_transform, num_bins, value_range):
         if value_range is not None:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 370f4d5..a2b18c5 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -137,7 +137,11 @@ class StochasticV(BaseStochasticFuncType2):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, return_logp=return_logp)
+        out = super().__call__(s, return_logp=return_logp)
+        if return_logp:
+            value, logp = out
+            return self.value_transform.inverse_func(value), logp
+        return self.value_transform.inverse_func(out)
 
     def mean(self, s):
         r"""
@@ -157,7 +161,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mean(s)
+        return self.value_transform.inverse_func(super().mean(s))
 
     def mode(self, s):
         r"""
@@ -177,7 +181,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mode(s)
+        return self.value_transform.inverse_func(super().mode(s))
 
     def dist_params(self, s):
         r"""
-- 
2.43.0


From 9d09f92638bca92377d8a0d1795245781f2861c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:13 +0000
Subject: [PATCH 16/49] fix: StochasticQ/StochasticV must accept a value
 transform together with a value range

---
 coax/_core/stochastic_q.py | 2 +-
 coax/_core/stochastic_v.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 81b51d3..53467ff 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -252,7 +252,7 @@ class StochasticQ(BaseStochasticFuncType1):
         if value_range is not None:
             if value_transform is not None:
                 f, _ = value_transform
-                value_range = f(value_range[0]), f(value_range[1])
+                value_range = float(f(value_range[0])), float(f(value_range[1]))
             reward_space = Box(*value_range, shape=())
             return DiscretizedIntervalDist(reward_space, num_bins)
         else:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index a2b18c5..98c55fb 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -208,7 +208,7 @@ class StochasticV(BaseStochasticFuncType2):
     def _get_proba_dist(value_range, value_transform, num_bins):
         if value_transform is not None:
             f, _ = value_transform
-            value_range = f(value_range[0]), f(value_range[1])
+            value_range = float(f(value_range[0])), float(f(value_range[1]))
         reward_space = Box(*value_range, shape=())
         return DiscretizedIntervalDist(reward_space, num_bins)
 
-- 
2.43.0


From cefa2c6b40175e594b34e644da941a5a0a8e79bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:27 +0000
Subject: [PATCH 17/49] fix: Q and TransitionModel must use the given
 observation preprocessor when checking the function

---
 coax/_core/q.py                | 1 +
 coax/_core/transition_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/_core/q.py b/coax/_core/q.py
index 5b21cee..8cca881 100644
--- a/coax/_core/q.py
+++ b/coax/_core/q.py
@@ -269,6 +269,7 @@ class Q(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
diff --git a/coax/_core/transition_model.py b/coax/_core/transition_model.py
index d3784d9..064fda2 100644
--- a/coax/_core/transition_model.py
+++ b/coax/_core/transition_model.py
@@ -284,6 +284,7 @@ class TransitionModel(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
-- 
2.43.0


From fb3353f6b22ffde1dc873817c9b5b4b88719f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:44 +0000
Subject: [PATCH 18/49] fix: EmpiricalQuantileDist.sample must draw one
 quantile value per distribution

---
 coax/proba_dists/_empirical_quantile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_empirical_quantile.py b/coax/proba_dists/_empirical_quantile.py
index 3572ee3..7eff106 100644
--- a/coax/proba_dists/_empirical_quantile.py
+++ b/coax/proba_dists/_empirical_quantile.py
@@ -30,12 +30,13 @@ class EmpiricalQuantileDist(BaseProbaDist):
         def sample(dist_params, rng):
             # bootstrapping
             values = check_shape(dist_params['values'], 'values')
-            return jax.random.choice(rng, values, values.shape, replace=True)
+            index = jax.random.randint(rng, values.shape[:-1] + (1,), 0, values.shape[-1])
+            return jnp.squeeze(jnp.take_along_axis(values, index, axis=-1), axis=-1)
 
         def log_proba(dist_params, X):
             X = check_shape(X, 'X')
             values = check_shape(dist_params['values'], 'values')
-            occurrences = jnp.mean(X[None, ...] == values[..., None], axis=-1)
+            occurrences = jnp.mean(X[..., None] == values, axis=-1)
             return jnp.log(occurrences)
 
         def affine_transform(dist_params, scale, shift, value_transform=None):
-- 
2.43.0


From 25884c0a6a5248909392e99f9cc7d3895d4322ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:50 +0000
Subject: [PATCH 19/49] fix: PolicyObjective.optimizer setter must use the
 policy (self._f does not exist)

---
 coax/policy_objectives/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index ff31a6b..02ba750 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -107,7 +107,7 @@ class PolicyObjective:
     @optimizer.setter
     def optimizer(self, new_optimizer):
         new_optimizer_state_structure = jax.tree_util.tree_structure(
-            new_optimizer.init(self._f.params))
+            new_optimizer.init(self._pi.params))
         if new_optimizer_state_structure != jax.tree_util.tree_structure(self.optimizer_state):
             raise AttributeError("cannot set optimizer attr: mismatch in optimizer_state structure")
         self._optimizer = new_optimizer
-- 
2.43.0


From d12ad74e2fc9996a0c460c1457abef9ca5beb40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:43 +0000
Subject: [PATCH 20/49] fix: value-based policies must accept their own params
 back

---
 coax/_core/value_based_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index dd1b9da..b6d96e8 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -209,7 +209,7 @@ class EpsilonGreedy(BaseValueBasedPolicy):
         if jax.tree_util.tree_structure(new_params) != jax.tree_util.tree_structure(self.params):
             raise TypeError("new params must have the same structure as old params")
         self.epsilon = new_params['epsilon']
-        self.q.params = new_params['q']
+        self.q.params = hk.data_structures.to_haiku_dict(new_params['q'])
 
 
 class BoltzmannPolicy(BaseValueBasedPolicy):
@@ -269,4 +269,4 @@ class BoltzmannPolicy(BaseValueBasedPolicy):
         if jax.tree_util.tree_structure(new_params) != jax.tree_util.tree_structure(self.params):
             raise TypeError("new params must have the same structure as old params")
         self.temperature = new_params['temperature']
-        self.q.params = new_params['q']
+        self.q.params = hk.data_structures.to_haiku_dict(new_params['q'])
-- 
2.43.0


From eeaf90ae35930dda8ae286f55a1a51ae57d31f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:43 +0000
Subject: [PATCH 21/49] fix: log-propensity returned with a sampled action must
 be that of the action, not of the relaxed variate

---
 coax/_core/base_stochastic_func_type1.py  |  6 ++++--
 coax/_core/base_stochastic_func_type2.py  |  3 ++-
 coax/proba_dists/_base.py                 |  5 +++++
 coax/proba_dists/_categorical.py          |  3 +++
 coax/proba_dists/_composite.py            | 12 ++++++++++++
 coax/proba_dists/_discretized_interval.py |  3 +++
 6 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/coax/_core/base_stochastic_func_type1.py b/coax/_core/base_stochastic_func_type1.py
index ff9f5b6..aca70c6 100644
--- a/coax/_core/base_stochastic_func_type1.py
+++ b/coax/_core/base_stochastic_func_type1.py
@@ -262,7 +262,8 @@ class BaseStochasticFuncType1(BaseFunc):
                 rngs = hk.PRNGSequence(rng)
                 dist_params, _ = self.function_type1(params, state, next(rngs), S, A, False)
                 S_next = self.proba_dist.sample(dist_params, next(rngs))
-                logP = self.proba_dist.log_proba(dist_params, S_next)
+                logP = self.proba_dist.log_proba(
+                    dist_params, self.proba_dist._harden_variate(S_next))
                 return S_next, logP
             self._sample_func_type1 = jit(sample_func_type1)
         return self._sample_func_type1
@@ -285,7 +286,8 @@ class BaseStochasticFuncType1(BaseFunc):
                 dist_params, _ = self.function_type2(params, state, next(rngs), S, False)
                 dist_params = jax.tree_map(self._reshape_to_replicas, dist_params)
                 X = self.proba_dist.sample(dist_params, next(rngs))    # (batch x n, *shape)
-                logP = self.proba_dist.log_proba(dist_params, X)       # (batch x n)
+                logP = self.proba_dist.log_proba(                      # (batch x n)
+                    dist_params, self.proba_dist._harden_variate(X))
                 X = jax.tree_map(self._reshape_from_replicas, X)       # (batch, n, *shape)
                 logP = self._reshape_from_replicas(logP)               # (batch, n)
                 return X, logP
diff --git a/coax/_core/base_stochastic_func_type2.py b/coax/_core/base_stochastic_func_type2.py
index d3d8791..92f37d2 100644
--- a/coax/_core/base_stochastic_func_type2.py
+++ b/coax/_core/base_stochastic_func_type2.py
@@ -67,7 +67,8 @@ class StochasticFuncType2Mixin:
                 rngs = hk.PRNGSequence(rng)
                 dist_params, _ = self.function(params, state, next(rngs), S, False)
                 X = self.proba_dist.sample(dist_params, next(rngs))
-                logP = self.proba_dist.log_proba(dist_params, X)
+                logP = self.proba_dist.log_proba(
+                    dist_params, self.proba_dist._harden_variate(X))
                 return X, logP
             self._sample_func = jit(sample_func)
         return self._sample_func
diff --git a/coax/proba_dists/_base.py b/coax/proba_dists/_base.py
index da88a6c..9ef993f 100644
--- a/coax/proba_dists/_base.py
+++ b/coax/proba_dists/_base.py
@@ -261,6 +261,11 @@ class BaseProbaDist(ABC):
         r""" The default distribution parameters. """
         pass
 
+    def _harden_variate(self, X):
+        # the variate(s) that X actually represents after postprocessing, e.g. a one-hot vector for
+        # a differentiable (almost one-hot) categorical variate
+        return X
+
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         r"""
 
diff --git a/coax/proba_dists/_categorical.py b/coax/proba_dists/_categorical.py
index 78dbfcb..c9fd6a7 100644
--- a/coax/proba_dists/_categorical.py
+++ b/coax/proba_dists/_categorical.py
@@ -126,6 +126,9 @@ class CategoricalDist(BaseProbaDist):
     def default_priors(self):
         return {'logits': jnp.zeros((1, self.space.n))}
 
+    def _harden_variate(self, X):
+        return jax.nn.one_hot(jnp.argmax(X, axis=-1), self.space.n)
+
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
diff --git a/coax/proba_dists/_composite.py b/coax/proba_dists/_composite.py
index 01d01e7..0545551 100644
--- a/coax/proba_dists/_composite.py
+++ b/coax/proba_dists/_composite.py
@@ -232,6 +232,18 @@ class ProbaDist(BaseProbaDist):
 
         raise AssertionError(f"bad structure_type: {self._structure_type}")
 
+    def _harden_variate(self, X):
+        if self._structure_type == StructureType.LEAF:
+            return self._structure._harden_variate(X)
+
+        if self._structure_type == StructureType.LIST:
+            return [dist._harden_variate(X[i]) for i, dist in enumerate(self._structure)]
+
+        if self._structure_type == StructureType.DICT:
+            return {k: dist._harden_variate(X[k]) for k, dist in self._structure.items()}
+
+        raise AssertionError(f"bad structure_type: {self._structure_type}")
+
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         rngs = hk.PRNGSequence(rng)
 
diff --git a/coax/proba_dists/_discretized_interval.py b/coax/proba_dists/_discretized_interval.py
index 1d3152e..2ac6445 100644
--- a/coax/proba_dists/_discretized_interval.py
+++ b/coax/proba_dists/_discretized_interval.py
@@ -140,6 +140,9 @@ class DiscretizedIntervalDist(CategoricalDist):
     def atoms(self):
         return self.__atoms.copy()
 
+    def _harden_variate(self, X):
+        return X  # postprocess_variate doesn't pick a single bin
+
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
-- 
2.43.0


From 4acd0b8b8745f9e3584e96f261ee184594192eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:43 +0000
Subject: [PATCH 22/49] fix: RandomPolicy must return the log-propensity of
 discrete actions (self.num_actions does not exist)

---
 coax/_core/random_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index 28e019f..ebbe197 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -42,7 +42,7 @@ class RandomPolicy:
             return a
 
         if isinstance(self.action_space, gymnasium.spaces.Discrete):
-            logp = -onp.log(self.num_actions)
+            logp = -onp.log(self.action_space.n)
             return a, logp
 
         if isinstance(self.action_space, gymnasium.spaces.Box):
-- 
2.43.0


From dc05d7eb91d98281701688f8ec9ae95ee39257bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:38 +0000
Subject: [PATCH 23/49] fix: NormalDist.affine_transform must scale the mean

---
 coax/proba_dists/_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 8ae101f..174c987 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -165,7 +165,7 @@ class NormalDist(BaseProbaDist):
             mu = check_shape(dist_params['mu'], name='mu', flatten=False)
             logvar = check_shape(dist_params['logvar'], name='logvar', flatten=False)
             var_new = f(f_inv(jnp.exp(logvar)) * jnp.square(scale))
-            return {'mu': f(f_inv(mu) + shift), 'logvar': jnp.log(var_new)}
+            return {'mu': f(f_inv(mu) * scale + shift), 'logvar': jnp.log(var_new)}
 
         self._sample_func = jit(sample)
         self._mean_func = jit(mean)
-- 
2.43.0


From b05f293e4f8e89d80cf4b64b1dcc19eb14209f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:38 +0000
Subject: [PATCH 24/49] fix: NormalDist/SquashedNormalDist must not leave the
 Box due to round-off

---
 coax/proba_dists/_normal.py          | 1 +
 coax/proba_dists/_squashed_normal.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 174c987..46595ab 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -193,6 +193,7 @@ class NormalDist(BaseProbaDist):
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
         X = jnp.clip(X, *self.clip_reals)                             # clip for stability
         X = self._low + (self._high - self._low) * jax.nn.sigmoid(X)  # reals->closed interval
+        X = jnp.clip(X, self._low, self._high)                        # round-off may overshoot
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 6c66a64..6e5be6e 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -75,6 +75,7 @@ class SquashedNormalDist(BaseProbaDist):
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
+        X = jnp.clip(X, self.space.low, self.space.high)              # round-off may overshoot
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
-- 
2.43.0


From 10a1527ee15909f1a67ae962227b33fd091d8baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:38 +0000
Subject: [PATCH 25/49] fix: SquashedNormalDist.log_proba must account for the
 bounds of the space, and clip_logvar must be optional

---
 coax/proba_dists/_squashed_normal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 6e5be6e..8ca28f8 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -32,7 +32,7 @@ class SquashedNormalDist(BaseProbaDist):
 
     """
 
-    def __init__(self, space, clip_logvar=None):
+    def __init__(self, space, clip_logvar=(-20., 20.)):
         super().__init__(space)
 
         self._normal_dist = NormalDist(space=space, clip_logvar=clip_logvar)
@@ -53,9 +53,11 @@ class SquashedNormalDist(BaseProbaDist):
         arctanh_eps = 1e-7  # avoid arctanh(1) = acrtanh(-1) = inf
 
         def log_proba(dist_params, X):
+            X = (X - self._offset) / self._scale
             X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + arctanh_eps, a_max=1.0 - arctanh_eps))
             logp = self._normal_dist.log_proba(dist_params, X)
-            return logp - jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            logdet = jnp.log(self._scale) + 2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X)))
+            return logp - jnp.sum(jnp.reshape(logdet, (X.shape[0], -1)), axis=-1)
 
         self._sample_func = jax.jit(sample)
         self._mean_func = jax.jit(mean)
-- 
2.43.0


From 662af5e57231ee474a496942ff5408747b9a136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:41 +0000
Subject: [PATCH 26/49] fix: DiscretizedIntervalDist.preprocess_variate must
 accept real values and include the upper bound

---
 coax/proba_dists/_discretized_interval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_discretized_interval.py b/coax/proba_dists/_discretized_interval.py
index 2ac6445..8517559 100644
--- a/coax/proba_dists/_discretized_interval.py
+++ b/coax/proba_dists/_discretized_interval.py
@@ -146,9 +146,10 @@ class DiscretizedIntervalDist(CategoricalDist):
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
-        assert jnp.issubdtype(X.dtype, jnp.integer), f"expected an integer dtype, got {X.dtype}"
         low, high = float(self.space_orig.low), float(self.space_orig.high)
-        return jax.nn.one_hot(jnp.floor((X - low) * self.num_bins / (high - low)), self.num_bins)
+        bins = jnp.floor((X - low) * self.num_bins / (high - low)).astype('int32')
+        bins = jnp.clip(bins, 0, self.num_bins - 1)  # the last bin includes the upper bound
+        return jax.nn.one_hot(bins, self.num_bins)
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         # map almost-one-hot vectors to bin-indices (ints)
-- 
2.43.0


From 1baee18188f8054c907c8688cbad837f6a86ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:27 +0000
Subject: [PATCH 27/49] fix: logloss_sign must not overflow for large logits

---
 coax/value_losses/_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/value_losses/_losses.py b/coax/value_losses/_losses.py
index 8162f46..56a1c26 100644
--- a/coax/value_losses/_losses.py
+++ b/coax/value_losses/_losses.py
@@ -173,7 +173,7 @@ def logloss_sign(y_true_sign, logits, w=None):
         The loss averaged over the batch.
 
     """
-    loss = jnp.log(1.0 + jnp.exp(-y_true_sign * logits))
+    loss = jax.nn.softplus(-y_true_sign * logits)  # i.e. log(1 + exp(-y * logits))
     return _mean_with_weights(loss, w)
 
 
-- 
2.43.0


From c1cc2be82652fdc15d4dd5f7235dce908ed2d5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:06 +0000
Subject: [PATCH 28/49] fix: safe_sample must return an element of the Box
 (bounds and dtype)

---
 coax/utils/_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index e52626a..2242172 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -806,7 +806,9 @@ def _safe_sample(space, rnd):
         low = onp.clip(space.low, -1e9, 1e9)
         high = onp.clip(space.high, -1e9, 1e9)
         x = low + rnd.rand(*space.shape) * (high - low)
-        return onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        x_log = onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        x = onp.where((x_log < low) | (x_log > high), x, x_log)  # unless it's out of bounds
+        return onp.clip(onp.asarray(x, dtype=space.dtype), space.low, space.high)
 
     if isinstance(space, gymnasium.spaces.Tuple):
         return tuple(_safe_sample(sp, rnd) for sp in space.spaces)
-- 
2.43.0


From 08cda453549ec23deb18a553a9ed6a33eb5687ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:02 +0000
Subject: [PATCH 29/49] fix: dump must not destroy an existing file when it
 fails or is interrupted

---
 coax/utils/_misc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index ec77de3..b74dccb 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -180,8 +180,12 @@ def dump(obj, filepath):
     dirpath = os.path.dirname(filepath)
     if dirpath:
         os.makedirs(dirpath, exist_ok=True)
-    with lz4.frame.open(filepath, 'wb') as f:
-        f.write(pickle.dumps(obj))
+    # write to a temporary file first, such that an existing file is either kept or fully replaced
+    filepath_tmp = f"{filepath}.{os.getpid()}.tmp"
+    s = pickle.dumps(obj)
+    with lz4.frame.open(filepath_tmp, 'wb') as f:
+        f.write(s)
+    os.replace(filepath_tmp, filepath)
 
 
 def dumps(obj):
-- 
2.43.0


From 3633e476d6f5d319ecdd5a123654a295ae01b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:22 +0000
Subject: [PATCH 30/49] fix: RandomPolicy must have its own random state, not
 share the env's action space

---
 coax/_core/random_policy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index ebbe197..51caf2c 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import gymnasium
 import jax.numpy as jnp
 import numpy as onp
@@ -31,7 +33,7 @@ class RandomPolicy:
         if not isinstance(env.action_space, gymnasium.Space):
             raise TypeError(
                 f"env.action_space must be a gymnasium.Space, got: {type(env.action_space)}")
-        self.action_space = env.action_space
+        self.action_space = deepcopy(env.action_space)  # has its own random state
         self.action_space.seed(random_seed)
         self.random_seed = random_seed
 
-- 
2.43.0


From 1e4258d0a1aee4caee146db84adcee5cc5828fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:59 +0000
Subject: [PATCH 31/49] fix: StochasticRewardFunction must not ignore its
 constructor arguments

---
 coax/_core/stochastic_reward_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/_core/stochastic_reward_function.py b/coax/_core/stochastic_reward_function.py
index 32fb972..6631687 100644
--- a/coax/_core/stochastic_reward_function.py
+++ b/coax/_core/stochastic_reward_function.py
@@ -70,6 +70,7 @@ class StochasticRewardFunction(StochasticQ):
             action_preprocessor=None, value_transform=None, random_seed=None):
 
         super().__init__(
-            func, env, value_range=(value_range or env.reward_range), num_bins=51,
-            observation_preprocessor=None, action_preprocessor=None, value_transform=None,
-            random_seed=None)
+            func, env, value_range=(value_range or env.reward_range), num_bins=num_bins,
+            observation_preprocessor=observation_preprocessor,
+            action_preprocessor=action_preprocessor, value_transform=value_transform,
+            random_seed=random_seed)
-- 
2.43.0


From 7388a55f483a8d742e0f3400faa4f054f157bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:59 +0000
Subject: [PATCH 32/49] fix: SuccessorStateQ must accept a stochastic
 transition model

---
 coax/_core/successor_state_q.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index cadd2ba..c2bfb8c 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -63,7 +63,9 @@ class SuccessorStateQ:
         self.action_space = self.p.action_space
         self.action_preprocessor = self.p.action_preprocessor
         self.observation_preprocessor = self.p.observation_preprocessor
-        self.observation_postprocessor = self.p.observation_postprocessor
+        self.observation_postprocessor = (
+            self.p.proba_dist.postprocess_variate if is_stochastic(self.p)
+            else self.p.observation_postprocessor)
         self.value_transform = self.v.value_transform
 
         if not check_preprocessors(
-- 
2.43.0


From fda7c716f525994d29d67ede9a73def477425c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:59 +0000
Subject: [PATCH 33/49] fix: SuccessorStateQ must undo the value transform of
 the reward function

---
 coax/_core/successor_state_q.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index c2bfb8c..ba1c7de 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -142,6 +142,7 @@ class SuccessorStateQ:
 
                 # q = r + γ v(s')
                 f, f_inv = self.value_transform
+                R = self.r.value_transform.inverse_func(R)
                 Q_sa = f(R + params['gamma'] * f_inv(V))
                 assert Q_sa.ndim == 1, f"bad shape: {Q_sa.shape}"
 
@@ -199,6 +200,7 @@ class SuccessorStateQ:
 
                 # q = r + γ v(s')
                 f, f_inv = self.value_transform
+                R_rep = self.r.value_transform.inverse_func(R_rep)
                 Q_rep = f(R_rep + params['gamma'] * f_inv(V_rep))
 
                 # reshape from (batch x num_actions, *) to (batch, num_actions, *)
-- 
2.43.0


From cb192309d4c1fc9af6c135a95e59c285f48af816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:11 +0000
Subject: [PATCH 34/49] fix: Regularizer.batch_eval must accept functions of
 states and actions

---
 coax/regularizers/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/regularizers/_base.py b/coax/regularizers/_base.py
index 28cf0d9..722c54b 100644
--- a/coax/regularizers/_base.py
+++ b/coax/regularizers/_base.py
@@ -74,8 +74,8 @@ class Regularizer:
                 if isinstance(self.f, BaseStochasticFuncType1):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     A = self.f.action_preprocessor(next(rngs), transition_batch.A)
-                    dist_params, _ = self.f.function(params, state, next(rngs), S, A, False)
-                if isinstance(self.f, BaseStochasticFuncType2):
+                    dist_params, _ = self.f.function_type1(params, state, next(rngs), S, A, False)
+                elif isinstance(self.f, BaseStochasticFuncType2):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, False)
                 else:
-- 
2.43.0


From c9a2476e22d82d7e06b06134918eb70449334dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:08 +0000
Subject: [PATCH 35/49] fix: NStepEntropyRegularizer must not count states
 beyond the episode end, for any n

---
 coax/regularizers/_nstep_entropy.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index c7eff80..9c3140d 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -52,24 +52,22 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._n = jnp.array(n)
         self.beta = beta
         self.gamma = gamma
-        self._gammas = jnp.take(jnp.power(self.gamma, jnp.arange(self.n[-1] + 1)), self._n)
+        self._gammas = jnp.power(self.gamma, self._n)
 
         def entropy(dist_params, dones):
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
             vf = jax.vmap(lambda p, v, gamma: gamma * self.f.proba_dist.entropy(p) * v)
             return jnp.sum(vf(dist_params, valid, self._gammas), axis=0)
 
         def function(dist_params, dones, beta):
-            assert len(dist_params) == 2
             return -beta * entropy(dist_params, dones)
 
         def metrics(dist_params, dones, beta):
-            assert len(dist_params) == 2
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
+            num_valid = jnp.maximum(jnp.sum(valid, axis=0), 1)
             return {
                 'EntropyRegularizer/beta': beta,
-                'EntropyRegularizer/entropy': jnp.mean(entropy(dist_params, dones) /
-                                                       jnp.sum(valid, axis=0))
+                'EntropyRegularizer/entropy': jnp.mean(entropy(dist_params, dones) / num_valid)
             }
 
         self._function = jit(function)
@@ -100,7 +98,6 @@ class NStepEntropyRegularizer(EntropyRegularizer):
                     raise TypeError(
                         "f must be derived from BaseStochasticFuncType2")
                 dones = jnp.stack(transition_batch.extra_info['dones'])
-                dones = jnp.take(dones, self._n, axis=0)
 
                 return self.function(dist_params,
                                      dones,
-- 
2.43.0


From 953a388c3da856e9dde784a2e200f94a6b3a5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:55 +0000
Subject: [PATCH 36/49] fix: ModelUpdater must accept a stochastic reward
 function

---
 coax/model_updaters/_model_updater.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coax/model_updaters/_model_updater.py b/coax/model_updaters/_model_updater.py
index fc52d7e..0af74cb 100644
--- a/coax/model_updaters/_model_updater.py
+++ b/coax/model_updaters/_model_updater.py
@@ -78,6 +78,9 @@ class ModelUpdater:
                 dist_params, new_state = \
                     self.model.function_type1(params, state, next(rngs), S, A, True)
                 y_pred = self.model.proba_dist.sample(dist_params, next(rngs))
+                if is_reward_function(self.model):  # bin probabilities -> real-valued rewards
+                    y_pred = self.model.proba_dist.postprocess_variate(
+                        next(rngs), y_pred, batch_mode=True)
             else:
                 y_pred, new_state = self.model.function_type1(params, state, next(rngs), S, A, True)
 
-- 
2.43.0


From b479f63f43aad18ba8549d806a34d4b792eb3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:44 +0000
Subject: [PATCH 37/49] fix: render_episode must speak the gymnasium API

---
 coax/utils/_misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index b74dccb..e6cd798 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -346,17 +346,17 @@ def render_episode(env, policy=None, step_delay_ms=0):
     if isinstance(env, TrainMonitor):
         env = env.env  # unwrap to strip off TrainMonitor
 
-    s = env.reset()
+    s, info = env.reset()
     env.render()
 
     for t in range(int(1e9)):
         a = env.action_space.sample() if policy is None else policy(s)
-        s_next, r, done, info = env.step(a)
+        s_next, r, done, truncated, info = env.step(a)
 
         env.render()
         time.sleep(step_delay_ms / 1e3)
 
-        if done:
+        if done or truncated:
             break
 
         s = s_next
-- 
2.43.0


From fdabbbffc1db4e47ac6c2a089d8e9b40babf4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:44 +0000
Subject: [PATCH 38/49] fix: generate_gif must work for environments without a
 limit on the episode length

---
 coax/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index e6cd798..9315d28 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -470,7 +470,7 @@ def generate_gif(env, filepath, policy=None, resize_to=None, duration=50, max_ep
     """
     logger = logging.getLogger('generate_gif')
     max_episode_steps = max_episode_steps \
-        or getattr(getattr(env, 'spec'), 'max_episode_steps', 10000)
+        or getattr(getattr(env, 'spec', None), 'max_episode_steps', None) or 10000
 
     from ..wrappers import TrainMonitor
     if isinstance(env, TrainMonitor):
-- 
2.43.0


From 4fe5982f8cdcc1f46c562885f42238b32521c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:02 +0000
Subject: [PATCH 39/49] fix: make_dmc must not ignore its arguments when the
 environment was made before

---
 coax/utils/_dmc_gym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_dmc_gym.py b/coax/utils/_dmc_gym.py
index d112b4c..ad5cb56 100644
--- a/coax/utils/_dmc_gym.py
+++ b/coax/utils/_dmc_gym.py
@@ -39,7 +39,9 @@ def make_dmc(domain, task, seed=0, max_episode_steps=1000, height=84, width=84,
         register(env_id, entry_point=DmcGymWrapper, kwargs=dict(
             domain=domain, task=task, seed=seed, height=height, width=width, camera_id=camera_id),
             max_episode_steps=max_episode_steps)
-    return make(env_id)
+    return make(
+        env_id, max_episode_steps=max_episode_steps,
+        seed=seed, height=height, width=width, camera_id=camera_id)
 
 
 class DmcGymWrapper(Env):
-- 
2.43.0


From 9a7e488c7065e6506e99d2a75bd6f8d55eda9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:11 +0000
Subject: [PATCH 40/49] fix: tree_sample must sample along the requested axis

---
 coax/utils/_array.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index 2242172..128f4d2 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -1005,9 +1005,9 @@ def tree_sample(pytree, rng, n=1, replace=False, axis=0, p=None):
         A single flat array.
 
     """
-    batch_size = _check_leaf_batch_size(pytree)
+    batch_size = _check_leaf_batch_size(pytree, axis)
     ix = jax.random.choice(rng, batch_size, shape=(n,), replace=replace, p=p)
-    return jax.tree_map(lambda x: jnp.take(x, ix, axis=0), pytree)
+    return jax.tree_map(lambda x: jnp.take(x, ix, axis=axis), pytree)
 
 
 def unvectorize(f, in_axes=0, out_axes=0):
@@ -1113,20 +1113,20 @@ def unvectorize(f, in_axes=0, out_axes=0):
     return f_single
 
 
-def _check_leaf_batch_size(pytree):
+def _check_leaf_batch_size(pytree, axis=0):
     """ some boilerplate to extract the batch size with some consistency checks """
     leaf, *leaves = jax.tree_util.tree_leaves(pytree)
     if not isinstance(leaf, (onp.ndarray, jnp.ndarray)) and leaf.ndim >= 1:
         raise TypeError(f"all leaves must be arrays; got type: {type(leaf)}")
     if leaf.ndim < 1:
         raise TypeError("all leaves must be at least 1d, i.e. (batch_size, ...)")
-    batch_size = leaf.shape[0]
+    batch_size = leaf.shape[axis]
     for leaf in leaves:
         if not isinstance(leaf, (onp.ndarray, jnp.ndarray)) and leaf.ndim >= 1:
             raise TypeError(f"all leaves must be arrays; got type: {type(leaf)}")
         if leaf.ndim < 1:
             raise TypeError("all leaves must be at least 1d, i.e. (batch_size, ...)")
-        if leaf.shape[0] != batch_size:
+        if leaf.shape[axis] != batch_size:
             raise TypeError("all leaves must have the same batch_size")
     return batch_size
 
-- 
2.43.0


From bf0cc2738220090c1f7fe9060aa1ff6d718bbed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:45 +0000
Subject: [PATCH 41/49] fix: DoubleQLearning must undo the value transform of
 q, on which it evaluates the greedy action

---
 coax/td_learning/_doubleqlearning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/td_learning/_doubleqlearning.py b/coax/td_learning/_doubleqlearning.py
index 78bb950..67b77c9 100644
--- a/coax/td_learning/_doubleqlearning.py
+++ b/coax/td_learning/_doubleqlearning.py
@@ -130,5 +130,5 @@ class DoubleQLearning(BaseTDLearningQWithTargetPolicy):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
         Q_sa_next = self._evaluate(self.q, params, state, next(rngs), S_next, A_next)
-        f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
+        f, f_inv = self.q.value_transform.transform_func, self.q.value_transform.inverse_func
         return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
-- 
2.43.0


From eb3ec2991cb2545fef1663975027f53f39823830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:03 +0000
Subject: [PATCH 42/49] fix: Discrete spaces need not start at zero

---
 coax/_core/base_stochastic_func_type1.py | 2 +-
 coax/_core/q.py                          | 2 +-
 coax/_core/transition_model.py           | 2 +-
 coax/proba_dists/_categorical.py         | 4 ++--
 coax/utils/_array.py                     | 4 ++--
 coax/wrappers/_train_monitor.py          | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/coax/_core/base_stochastic_func_type1.py b/coax/_core/base_stochastic_func_type1.py
index aca70c6..c2f8e9b 100644
--- a/coax/_core/base_stochastic_func_type1.py
+++ b/coax/_core/base_stochastic_func_type1.py
@@ -164,7 +164,7 @@ class BaseStochasticFuncType1(BaseFunc):
             # S_rep = [7, 7, 7, 2, 2, 2, 5, 5, 5, 8, 8, 8]  # repeated
             # A_rep = [0, 1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2]  # tiled
             S_rep = jax.tree_map(lambda x: jnp.repeat(x, n, axis=0), S)
-            A_rep = jnp.tile(jnp.arange(n), batch_size)
+            A_rep = jnp.tile(self.action_space.start + jnp.arange(n), batch_size)
             A_rep = self.action_preprocessor(next(rngs), A_rep)  # one-hot encoding
 
             # evaluate on replicas => output shape: (batch * num_actions, *shape)
diff --git a/coax/_core/q.py b/coax/_core/q.py
index 8cca881..897b983 100644
--- a/coax/_core/q.py
+++ b/coax/_core/q.py
@@ -177,7 +177,7 @@ class Q(BaseFunc):
             # S_rep = [7, 7, 7, 2, 2, 2, 5, 5, 5, 8, 8, 8]  # repeated
             # A_rep = [0, 1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2]  # tiled
             S_rep = jax.tree_map(lambda x: jnp.repeat(x, n, axis=0), S)
-            A_rep = jnp.tile(jnp.arange(n), batch_size)
+            A_rep = jnp.tile(self.action_space.start + jnp.arange(n), batch_size)
             A_rep = self.action_preprocessor(next(rngs), A_rep)  # one-hot encoding
 
             # evaluate on replicas => output shape: (batch * num_actions, 1)
diff --git a/coax/_core/transition_model.py b/coax/_core/transition_model.py
index 064fda2..473cf2f 100644
--- a/coax/_core/transition_model.py
+++ b/coax/_core/transition_model.py
@@ -186,7 +186,7 @@ class TransitionModel(BaseFunc):
             # S_rep = [7, 7, 7, 2, 2, 2, 5, 5, 5, 8, 8, 8]  # repeated
             # A_rep = [0, 1, 2, 0, 1, 2, 0, 1, 2, 0, 1, 2]  # tiled
             S_rep = jax.tree_map(lambda x: jnp.repeat(x, n, axis=0), S)
-            A_rep = jnp.tile(jnp.arange(n), batch_size)
+            A_rep = jnp.tile(self.action_space.start + jnp.arange(n), batch_size)
             A_rep = self.action_preprocessor(next(rngs), A_rep)  # one-hot encoding
 
             # evaluate on replicas => output shape: (batch * num_actions, *shape)
diff --git a/coax/proba_dists/_categorical.py b/coax/proba_dists/_categorical.py
index c9fd6a7..c074f1c 100644
--- a/coax/proba_dists/_categorical.py
+++ b/coax/proba_dists/_categorical.py
@@ -133,12 +133,12 @@ class CategoricalDist(BaseProbaDist):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
         assert jnp.issubdtype(X.dtype, jnp.integer), f"expected an integer dtype, got {X.dtype}"
-        return jax.nn.one_hot(X, self.space.n).reshape(-1, self.space.n)
+        return jax.nn.one_hot(X - self.space.start, self.space.n).reshape(-1, self.space.n)
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         assert X.ndim == 2
         assert X.shape[1] == self.space.n
-        X = argmax(rng, X, axis=1)
+        X = self.space.start + argmax(rng, X, axis=1)
         return X if batch_mode else int(X[index])
 
     @property
diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index 128f4d2..88ebcb0 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -325,7 +325,7 @@ def default_preprocessor(space):
 
     if isinstance(space, gymnasium.spaces.Discrete):
         def func(rng, X):
-            X = jnp.asarray(X)
+            X = jnp.asarray(X) - space.start
             X = jax.nn.one_hot(X, space.n)     # one-hot encoding
             X = jnp.reshape(X, (-1, space.n))  # ensure batch axis
             return X
@@ -794,7 +794,7 @@ class StepwiseLinearFunction:
 
 def _safe_sample(space, rnd):
     if isinstance(space, gymnasium.spaces.Discrete):
-        return rnd.randint(space.n)
+        return space.start + rnd.randint(space.n)
 
     if isinstance(space, gymnasium.spaces.MultiDiscrete):
         return onp.asarray([rnd.randint(n) for n in space.nvec])
diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 98f1a2e..afa5d9b 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -336,7 +336,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
                     str(name), float(metric), global_step=self.T)
             if self._ep_actions:
                 if isinstance(self.action_space, Discrete):
-                    bins = np.arange(self.action_space.n + 1)
+                    bins = self.action_space.start + np.arange(self.action_space.n + 1)
                 else:
                     bins = 'auto'  # see also: np.histogram_bin_edges.__doc__
                 self.tensorboard.add_histogram(
-- 
2.43.0


From 6cc755d1bc2dd17c08afda82085506039bee08e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:56 +0000
Subject: [PATCH 43/49] fix: PrioritizedReplayBuffer.alpha must not distort the
 smallest priorities when it is changed

---
 coax/experience_replay/_prioritized.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 5d6cf6c..7428ead 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -97,9 +97,8 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
             raise TypeError(f"alpha must be a positive float, got: {new_alpha}")
         if onp.isclose(new_alpha, self._alpha, rtol=0.01):
             return  # noop if new value is too close to old value (not worth the computation cost)
-        new_values = onp.where(
-            self._sumtree.values <= 0, 0.,  # only change exponents for positive values
-            onp.exp(onp.log(onp.maximum(self._sumtree.values, 1e-15)) * (new_alpha / self._alpha)))
+        # note: zeros (i.e. unoccupied slots) are left unchanged, since the exponent is positive
+        new_values = onp.power(self._sumtree.values, new_alpha / self._alpha)
         self._sumtree.set_values(..., new_values)
         self._alpha = float(new_alpha)
 
-- 
2.43.0


From b5c3ff24441f881860879c31b83e18f8d8e1a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 44/49] fix: a quantile StochasticQ must report each action's
 own value, not the first one's

BaseProbaDist.postprocess_variate ignored its index argument, so q(s) and
q.mean(s) of a StochasticQ without value_range returned action 0's value for
every action.
---
 coax/proba_dists/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_base.py b/coax/proba_dists/_base.py
index 9ef993f..ab266fb 100644
--- a/coax/proba_dists/_base.py
+++ b/coax/proba_dists/_base.py
@@ -303,7 +303,7 @@ class BaseProbaDist(ABC):
             :code:`x in self.space`.
 
         """
-        return X if batch_mode else batch_to_single(X)
+        return X if batch_mode else batch_to_single(X, index=index)
 
     def preprocess_variate(self, rng, X):
         r"""
-- 
2.43.0


From 09965fc7f2aa209451f7ba4a1998b214d806ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:40 +0000
Subject: [PATCH 45/49] fix: StochasticQ.num_bins must work without value_range

---
 coax/_core/stochastic_q.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 53467ff..e95000e 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -105,6 +105,8 @@ class StochasticQ(BaseStochasticFuncType1):
 
     @property
     def num_bins(self):
+        if isinstance(self.proba_dist, EmpiricalQuantileDist):
+            return self.proba_dist.num_quantiles
         return self.proba_dist.space.n
 
     @classmethod
-- 
2.43.0


From 9dd0b4bc5dcc3eac0a4a392bb04229639e3417fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 46/49] fix: TrainMonitor.reset must pass seed and options on
 to the env

---
 coax/wrappers/_train_monitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index afa5d9b..b044917 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -168,7 +168,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_actions = StreamingSample(maxlen=1000)
         self._period = {'T': {}, 'ep': {}}
 
-    def reset(self):
+    def reset(self, **kwargs):
         # write logs from previous episode:
         if self.ep:
             self._write_episode_logs()
@@ -184,7 +184,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         self._ep_metrics = {}
         self._ep_actions.reset()
 
-        return self.env.reset()
+        return self.env.reset(**kwargs)
 
     @property
     def dt_ms(self):
-- 
2.43.0


From d4158f356cfd7ddd86689c820207054e929ed848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:24 +0000
Subject: [PATCH 47/49] fix: MetaPolicyEnv.reset must pass seed and options on
 to the env

---
 coax/wrappers/_meta_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index b91fcbf..20d9f84 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -34,8 +34,8 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         self.action_space = gymnasium.spaces.Discrete(len(arms))
         self._s = None
 
-    def reset(self):
-        self._s, info = self.env.reset()
+    def reset(self, **kwargs):
+        self._s, info = self.env.reset(**kwargs)
         return self._s, info
 
     def step(self, a_meta):
-- 
2.43.0


From 9aaa4a5300c0b2c64d208f23b721baa983a73762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 48/49] fix: ConnectFourEnv.set_state must leave the env alone
 when it refuses an id

The player, outcome and last move were set before the board was decoded, so that
an id with a malformed board was refused half-way.
---
 coax/envs/_connect_four.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index e2cee96..9e26315 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -250,13 +250,13 @@ class ConnectFourEnv(Env):
         assert p in (1, 2)
         assert d in (0, 1)
         assert self.action_space.contains(a) or a == self.num_cols
+        s = np.base_repr(int(state_id[3:], 16), 3)
+        z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
+        z[-len(s):] = np.array(list(s), dtype='uint8')
         self._players[0] = p    # 1 or 2
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np.base_repr(int(state_id[3:], 16), 3)
-        z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
-        z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
         self._levels = np.full(self.num_cols, self.num_rows - 1, dtype='uint8')
         for j in range(self.num_cols):
-- 
2.43.0


From 3bd466566bacc9ab33e43067847657534e24aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:13 +0000
Subject: [PATCH 49/49] fix: a soft update between different structures must be
 refused before anything changes

The params were already overwritten when the function states turned out not to match.
---
 coax/_core/base_func.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coax/_core/base_func.py b/coax/_core/base_func.py
index 5f4661f..7753e1a 100644
--- a/coax/_core/base_func.py
+++ b/coax/_core/base_func.py
@@ -112,6 +112,10 @@ class BaseFunc(ABC, RandomStateMixin, CopyMixin):
         """
         if not isinstance(other, self.__class__):
             raise TypeError("'self' and 'other' must be of the same type")
+        structure = jax.tree_util.tree_structure  # check both up front, so that it's all or nothing
+        if (structure(self.params), structure(self.function_state)) != \
+                (structure(other.params), structure(other.function_state)):
+            raise TypeError("'self' and 'other' must have params of the same structure")
 
         self.params = self._soft_update_func(self.params, other.params, tau)
         self.function_state = self._soft_update_func(self.function_state, other.function_state, tau)
-- 
2.43.0


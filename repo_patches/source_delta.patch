From 5e8469c16595eb0791df6a1cbbcd3e0a9b640f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 01/57] fix: keep transitions and episodes of
 PrioritizedEpisodicReplayBuffer consistent

Evicting an episode left some of its transitions in the transition memory,
sample() returned bare transitions instead of one-transition lists, and the
capacity was no longer enforced after load().
---
 chainerrl/replay_buffers/prioritized_episodic.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/chainerrl/replay_buffers/prioritized_episodic.py b/chainerrl/replay_buffers/prioritized_episodic.py
index e692cb1..3c17db8 100644
--- a/chainerrl/replay_buffers/prioritized_episodic.py
+++ b/chainerrl/replay_buffers/prioritized_episodic.py
@@ -24,8 +24,8 @@ class PrioritizedEpisodicReplayBuffer (
         self.episodic_memory = PrioritizedBuffer(
             capacity=None,
             wait_priority_after_sampling=wait_priority_after_sampling)
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -57,12 +57,13 @@ class PrioritizedEpisodicReplayBuffer (
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
+            for transition in current_episode:
+                self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and \
+                    len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From 392feb31eee5d07351ee9b10787126265809a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 02/57] fix: never sample the same data twice when mixing
 uniform and prioritized sampling

---
 chainerrl/misc/prioritized.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/chainerrl/misc/prioritized.py b/chainerrl/misc/prioritized.py
index 33e8cc6..9038403 100644
--- a/chainerrl/misc/prioritized.py
+++ b/chainerrl/misc/prioritized.py
@@ -46,8 +46,7 @@ class PrioritizedBuffer (object):
             # Mix uniform samples and prioritized samples
             n_uniform = np.random.binomial(n, uniform_ratio)
             un_indices, un_priorities = \
-                self.priority_sums.uniform_sample(
-                    n_uniform, remove=self.wait_priority_after_sampling)
+                self.priority_sums.uniform_sample(n_uniform, remove=True)
             indices.extend(un_indices)
             priorities.extend(un_priorities)
             n -= n_uniform
@@ -55,11 +54,15 @@ class PrioritizedBuffer (object):
                 + (1 - uniform_ratio) * min_prob
 
         pr_indices, pr_priorities = \
-            self.priority_sums.prioritized_sample(
-                n, remove=self.wait_priority_after_sampling)
+            self.priority_sums.prioritized_sample(n, remove=True)
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
 
+        if not self.wait_priority_after_sampling:
+            # Sampled data are removed only to make them unique in this sample
+            for ix, pri in zip(indices, priorities):
+                self.priority_sums[ix] = pri
+
         probs = [
             uniform_ratio / len(self)
             + (1 - uniform_ratio) * pri / total_priority
-- 
2.43.0


From 77cfe3b3a03acb3a4f540f6c34b18f7de57314a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 03/57] fix: weight sampled episodes by the number of episodes,
 not of transitions

---
 chainerrl/replay_buffers/prioritized.py          | 7 +++++--
 chainerrl/replay_buffers/prioritized_episodic.py | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/chainerrl/replay_buffers/prioritized.py b/chainerrl/replay_buffers/prioritized.py
index bdd2ee5..d4526c7 100644
--- a/chainerrl/replay_buffers/prioritized.py
+++ b/chainerrl/replay_buffers/prioritized.py
@@ -54,7 +54,10 @@ class PriorityWeightError(object):
 
         return [(_clip_error(d) + self.eps) ** self.alpha for d in errors]
 
-    def weights_from_probabilities(self, probabilities, min_probability):
+    def weights_from_probabilities(self, probabilities, min_probability,
+                                   population=None):
+        if population is None:
+            population = len(self.memory)
         if self.normalize_by_max == 'batch':
             # discard global min and compute batch min
             min_probability = np.min(probabilities)
@@ -62,7 +65,7 @@ class PriorityWeightError(object):
             weights = [(p / min_probability) ** -self.beta
                        for p in probabilities]
         else:
-            weights = [(len(self.memory) * p) ** -self.beta
+            weights = [(population * p) ** -self.beta
                        for p in probabilities]
         self.beta = min(1.0, self.beta + self.beta_add)
         return weights
diff --git a/chainerrl/replay_buffers/prioritized_episodic.py b/chainerrl/replay_buffers/prioritized_episodic.py
index 3c17db8..0664543 100644
--- a/chainerrl/replay_buffers/prioritized_episodic.py
+++ b/chainerrl/replay_buffers/prioritized_episodic.py
@@ -41,7 +41,9 @@ class PrioritizedEpisodicReplayBuffer (
         if max_len is not None:
             episodes = [random_subseq(ep, max_len) for ep in episodes]
         if self.return_sample_weights:
-            weights = self.weights_from_probabilities(probabilities, min_prob)
+            weights = self.weights_from_probabilities(
+                probabilities, min_prob,
+                population=len(self.episodic_memory))
             return episodes, weights
         else:
             return episodes
-- 
2.43.0


From 3b34efa829f30c740a2c6cd04b1b4d9d0f573bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 04/57] fix: finish batch training when the successful
 evaluation score is 0

---
 chainerrl/experiments/train_agent_batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index d9e60f9..1b37c79 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -107,8 +107,9 @@ def train_agent_batch(agent, env, steps, outdir,
                     ))
                 logger.info('statistics: {}'.format(agent.get_statistics()))
             if evaluator:
-                if evaluator.evaluate_if_necessary(
-                        t=t, episodes=np.sum(episode_idx)):
+                eval_score = evaluator.evaluate_if_necessary(
+                    t=t, episodes=np.sum(episode_idx))
+                if eval_score is not None:
                     if (successful_score is not None and
                             evaluator.max_score >= successful_score):
                         break
-- 
2.43.0


From 6627ab5facecedd17e4ee11ba838052776ed9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 05/57] fix: truncate demonstration episodes at
 max_episode_len, not one step later

---
 chainerrl/experiments/collect_demos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/collect_demos.py b/chainerrl/experiments/collect_demos.py
index 0fd1c42..201cfc0 100644
--- a/chainerrl/experiments/collect_demos.py
+++ b/chainerrl/experiments/collect_demos.py
@@ -52,10 +52,10 @@ def collect_demonstrations(agent,
             # o_t, a_t, r__{t+1}, o_{t+1}
             dataset.write((obs, a, r, new_obs, done, info))
             obs = new_obs
-            reset = (done or episode_len == max_episode_len
-                     or info.get('needs_reset', False))
             timestep += 1
             episode_len += 1
+            reset = (done or episode_len == max_episode_len
+                     or info.get('needs_reset', False))
             episode_r += r
             episode_num = episode_num + 1 if reset else episode_num
             if steps is None:
-- 
2.43.0


From 4981f324240a4a92d7d486624c6d8ad8df49f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 06/57] fix: start the global step counter of asynchronous
 training at step_offset

---
 chainerrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/train_agent_async.py b/chainerrl/experiments/train_agent_async.py
index 9cc89a9..5f49333 100644
--- a/chainerrl/experiments/train_agent_async.py
+++ b/chainerrl/experiments/train_agent_async.py
@@ -173,7 +173,7 @@ def train_agent_async(outdir, processes, make_env,
     # Prevent numpy from using multiple threads
     os.environ['OMP_NUM_THREADS'] = '1'
 
-    counter = mp.Value('l', 0)
+    counter = mp.Value('l', step_offset)
     episodes_counter = mp.Value('l', 0)
     training_done = mp.Value('b', False)  # bool
 
-- 
2.43.0


From 0da25881c301c2e49758c4b3c13c8623cbd40ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 07/57] fix: keep the best asynchronous evaluation score in
 double precision

Scores were compared with the best score rounded to single precision, so
equal scores could be saved as improvements and improvements be missed.
---
 chainerrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/evaluator.py b/chainerrl/experiments/evaluator.py
index c333fbc..acb2bc4 100644
--- a/chainerrl/experiments/evaluator.py
+++ b/chainerrl/experiments/evaluator.py
@@ -395,7 +395,7 @@ class AsyncEvaluator(object):
         # Values below are shared among processes
         self.prev_eval_t = mp.Value(
             'l', self.step_offset - self.step_offset % self.eval_interval)
-        self._max_score = mp.Value('f', np.finfo(np.float32).min)
+        self._max_score = mp.Value('d', np.finfo(np.float32).min)
         self.wrote_header = mp.Value('b', False)
 
         # Create scores.txt
-- 
2.43.0


From b403e33e78034d15cdbc4ef6c3885c2d2901dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 08/57] fix: unchain recurrent states on Python 3.10 and later

collections.Iterable does not exist there any more, so every asynchronous
agent with a recurrent model crashed at its first update.
---
 chainerrl/recurrent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 997e59e..952fe36 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -1,6 +1,6 @@
 from abc import ABCMeta
 from abc import abstractmethod
-import collections
+import collections.abc
 import contextlib
 
 import chainer
@@ -8,7 +8,7 @@ import chainer
 
 def unchain_backward(state):
     """Call Variable.unchain_backward recursively."""
-    if isinstance(state, collections.Iterable):
+    if isinstance(state, collections.abc.Iterable):
         for s in state:
             unchain_backward(s)
     elif isinstance(state, chainer.Variable):
-- 
2.43.0


From e7962dbb27e514ecf61ae13eea73767d654601a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 09/57] fix: restore an initial LSTM state too

set_state ignored a saved initial state, so state_kept and state_reset
leaked the state made inside them.
---
 chainerrl/recurrent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 952fe36..566d452 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -120,6 +120,8 @@ def set_state(chain, state):
             # LSTM.set_state doesn't accept None state
             if c is not None:
                 link.set_state(c, h)
+            else:
+                link.reset_state()
         elif isinstance(link, Recurrent):
             link.set_state(s)
         elif isinstance(link, (chainer.Chain, chainer.ChainList)):
-- 
2.43.0


From 41911fde5919b33bc456b5adaea6f8fa5a223969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 10/57] fix: restore recurrent states when an exception leaves
 state_kept or state_reset

The saved state stayed on the class-wide stack, so the next pop gave one
model the state of another.
---
 chainerrl/recurrent.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 566d452..2a727c2 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -78,14 +78,18 @@ class Recurrent(object, metaclass=ABCMeta):
     @contextlib.contextmanager
     def state_reset(self):
         self.push_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
     @contextlib.contextmanager
     def state_kept(self):
         self.push_and_keep_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
 
 def get_state(chain):
@@ -188,8 +192,10 @@ def state_kept(link):
     """
     if isinstance(link, Recurrent):
         link.push_and_keep_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
 
@@ -223,7 +229,9 @@ def state_reset(link):
     """
     if isinstance(link, Recurrent):
         link.push_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
-- 
2.43.0


From 89f6564a02ad8b3b64b777444703c71bab2cc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 11/57] fix: yield a smaller last minibatch of sequences
 instead of failing

Recurrent PPO and TRPO crashed in the middle of an update whenever the
number of collected transitions was not a multiple of the minibatch size.
---
 chainerrl/agents/ppo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/ppo.py b/chainerrl/agents/ppo.py
index 6ce29fc..1b202ba 100644
--- a/chainerrl/agents/ppo.py
+++ b/chainerrl/agents/ppo.py
@@ -156,7 +156,7 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
     while stack:
         subset = []
         count = 0
-        while count < n_items:
+        while stack and count < n_items:
             sequence = stack.pop()
             subset.append(sequence)
             count += len(sequence)
@@ -167,7 +167,7 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
             assert n_exceeds > 0
             subset[-1] = sequence_to_split[:-n_exceeds]
             stack.append(sequence_to_split[-n_exceeds:])
-        assert sum(len(seq) for seq in subset) == n_items
+        assert sum(len(seq) for seq in subset) <= n_items
         yield subset
 
 
-- 
2.43.0


From 617abbee58fade83de874e93c4e10a625976ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 12/57] fix: do not interrupt training episodes of DDPG, TD3
 and SAC by evaluating

An evaluation between two steps of batch training ended the n-step window
or stored episode of environment 0.
---
 chainerrl/agents/ddpg.py              | 8 +++++---
 chainerrl/agents/soft_actor_critic.py | 8 +++++---
 chainerrl/agents/td3.py               | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 7d8a112..f1e50f7 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -455,11 +455,13 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         self.stop_episode()
 
     def stop_episode(self):
-        self.last_state = None
-        self.last_action = None
         if isinstance(self.model, Recurrent):
             self.model.reset_state()
-        self.replay_buffer.stop_current_episode()
+        if self.last_state is not None:
+            # Evaluation must not interrupt episodes of batch training
+            self.last_state = None
+            self.last_action = None
+            self.replay_buffer.stop_current_episode()
 
     def get_statistics(self):
         return [
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index b1258f2..1d9c214 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -401,9 +401,11 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
         self.stop_episode()
 
     def stop_episode(self):
-        self.last_state = None
-        self.last_action = None
-        self.replay_buffer.stop_current_episode()
+        if self.last_state is not None:
+            # Evaluation must not interrupt episodes of batch training
+            self.last_state = None
+            self.last_action = None
+            self.replay_buffer.stop_current_episode()
 
     def get_statistics(self):
         return [
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 4077e77..8fb72bf 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -353,9 +353,11 @@ class TD3(AttributeSavingMixin, BatchAgent):
         self.stop_episode()
 
     def stop_episode(self):
-        self.last_state = None
-        self.last_action = None
-        self.replay_buffer.stop_current_episode()
+        if self.last_state is not None:
+            # Evaluation must not interrupt episodes of batch training
+            self.last_state = None
+            self.last_action = None
+            self.replay_buffer.stop_current_episode()
 
     def get_statistics(self):
         return [
-- 
2.43.0


From 82006662c0c1b4a6b5bd9f2eb4f9be80f1f7294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 13/57] fix: respect n_times_update of TD3

---
 chainerrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 8fb72bf..7e98238 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -130,7 +130,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From 5e11c423913488202de9f9bdbb2e24f49005ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 14/57] fix: do not use advantages at terminal states in PAL
 and DoublePAL

---
 chainerrl/agents/double_pal.py | 3 ++-
 chainerrl/agents/pal.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/double_pal.py b/chainerrl/agents/double_pal.py
index e65c748..259050b 100644
--- a/chainerrl/agents/double_pal.py
+++ b/chainerrl/agents/double_pal.py
@@ -53,7 +53,8 @@ class DoublePAL(pal.PAL):
             # T_PAL Q: persistent advantage learning operator
             cur_advantage = F.reshape(
                 target_qout.compute_advantage(batch_actions), (batch_size,))
-            next_advantage = F.reshape(
+            # There are no advantages at terminal states
+            next_advantage = (1.0 - batch_terminal) * F.reshape(
                 target_next_qout.compute_advantage(batch_actions),
                 (batch_size,))
             tpal_q = t_q + self.alpha * \
diff --git a/chainerrl/agents/pal.py b/chainerrl/agents/pal.py
index 7514439..6b01b3d 100644
--- a/chainerrl/agents/pal.py
+++ b/chainerrl/agents/pal.py
@@ -61,7 +61,8 @@ class PAL(dqn.DQN):
             # T_PAL Q: persistent advantage learning operator
             cur_advantage = F.reshape(
                 target_qout.compute_advantage(batch_actions), (batch_size,))
-            next_advantage = F.reshape(
+            # There are no advantages at terminal states
+            next_advantage = (1.0 - batch_terminal) * F.reshape(
                 target_next_qout.compute_advantage(batch_actions),
                 (batch_size,))
             tpal_q = t_q + self.alpha * \
-- 
2.43.0


From 75a7b2cda4ad46939bbca5bc032e4a1a7ac3c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 15/57] fix: discount the next value of DDPG by the number of
 steps

---
 chainerrl/agents/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index f1e50f7..01f16f1 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -194,7 +194,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                 self.target_q_function.update_state(
                     batch_next_state, batch_next_actions)
 
-            target_q = batch_rewards + self.gamma * \
+            target_q = batch_rewards + batch['discount'] * \
                 (1.0 - batch_terminal) * F.reshape(next_q, (batchsize,))
 
         # Estimated Q-function observes s_t and a_t
-- 
2.43.0


From 879a7692746fe581d6c8171429add74bb9e27a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 16/57] fix: use the given batch_states in updates of DDPG, TD3
 and SAC

---
 chainerrl/agents/ddpg.py              | 7 +++++--
 chainerrl/agents/soft_actor_critic.py | 4 +++-
 chainerrl/agents/td3.py               | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 01f16f1..056f269 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -253,7 +253,9 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.critic_optimizer.update(lambda: self.compute_critic_loss(batch))
         self.actor_optimizer.update(lambda: self.compute_actor_loss(batch))
 
@@ -271,7 +273,8 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                     break
                 transitions.append([ep[i]])
             batch = batch_experiences(
-                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma)
+                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma,
+                batch_states=self.batch_states)
             batches.append(batch)
 
         with self.model.state_reset(), self.target_model.state_reset():
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index 1d9c214..078087c 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -282,7 +282,9 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 7e98238..6eabd19 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -229,7 +229,9 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         if self.q_func1_optimizer.t % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From c8788ccd0315a648e384cb4e90b5a9c840f5bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 17/57] fix: use the given batch_states in updates of TRPO

---
 chainerrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 9e88b47..8a5a539 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -356,7 +356,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states(
+        states = self.batch_states(
             [b['state'] for b in dataset], self.obs_normalizer.xp, self.phi)
         self.obs_normalizer.experience(states)
 
@@ -376,7 +376,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         while dataset_iter.epoch < self.vf_epochs:
             batch = dataset_iter.__next__()
-            states = batch_states([b['state'] for b in batch], xp, self.phi)
+            states = self.batch_states(
+                [b['state'] for b in batch], xp, self.phi)
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = xp.array(
@@ -404,7 +405,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         # Use full-batch
         xp = self.policy.xp
-        states = batch_states([b['state'] for b in dataset], xp, self.phi)
+        states = self.batch_states(
+            [b['state'] for b in dataset], xp, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = xp.array([b['action'] for b in dataset])
-- 
2.43.0


From ca6e55eb940b2be52d51cd9730ec462025358a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 18/57] fix: respect act_deterministically in batch evaluation
 of A2C

---
 chainerrl/agents/a2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index f0f99a3..e1c13a9 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -247,7 +247,10 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
         with chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
-            action = pout.sample().array
+            if self.act_deterministically:
+                action = pout.most_probable.array
+            else:
+                action = pout.sample().array
         return chainer.cuda.to_cpu(action)
 
     def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
-- 
2.43.0


From 35691b97f6cd5daae44e3956d541cddffa972177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 19/57] fix: let PCL work without a replay buffer

---
 chainerrl/agents/pcl.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index a5aef17..275e7a1 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -412,15 +412,16 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             assert self.last_action is not None
             assert self.last_action_distrib is not None
             # Add a transition to the replay buffer
-            self.replay_buffer.append(
-                state=self.last_state,
-                action=self.last_action,
-                reward=reward,
-                next_state=obs,
-                next_action=action,
-                is_state_terminal=False,
-                mu=self.last_action_distrib,
-            )
+            if self.replay_buffer is not None:
+                self.replay_buffer.append(
+                    state=self.last_state,
+                    action=self.last_action,
+                    reward=reward,
+                    next_state=obs,
+                    next_action=action,
+                    is_state_terminal=False,
+                    mu=self.last_action_distrib,
+                )
 
         self.last_state = obs
         self.last_action = action
@@ -457,15 +458,16 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             self.model.reset_state()
 
         # Add a transition to the replay buffer
-        self.replay_buffer.append(
-            state=self.last_state,
-            action=self.last_action,
-            reward=reward,
-            next_state=state,
-            next_action=self.last_action,
-            is_state_terminal=done,
-            mu=self.last_action_distrib)
-        self.replay_buffer.stop_current_episode()
+        if self.replay_buffer is not None:
+            self.replay_buffer.append(
+                state=self.last_state,
+                action=self.last_action,
+                reward=reward,
+                next_state=state,
+                next_action=self.last_action,
+                is_state_terminal=done,
+                mu=self.last_action_distrib)
+            self.replay_buffer.stop_current_episode()
 
         self.last_state = None
         self.last_action = None
-- 
2.43.0


From 23e6b40b5d268f3d978b9a986e1e260a8fb6208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 20/57] fix: let recurrent PPO learn when all advantages are
 equal

---
 chainerrl/agents/ppo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/ppo.py b/chainerrl/agents/ppo.py
index 1b202ba..7fdc8f6 100644
--- a/chainerrl/agents/ppo.py
+++ b/chainerrl/agents/ppo.py
@@ -478,7 +478,7 @@ class PPO(agent.AttributeSavingMixin, agent.BatchAgent):
     def _update_once_recurrent(
             self, episodes, mean_advs, std_advs):
 
-        assert std_advs is None or std_advs > 0
+        assert std_advs is None or std_advs >= 0
 
         xp = self.model.xp
         flat_transitions = list(itertools.chain.from_iterable(episodes))
-- 
2.43.0


From 41aeba848f719f57bb52218fd0fda752eee746ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 21/57] fix: pair importance weights with their episodes in PCL

---
 chainerrl/agents/pcl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index 275e7a1..1cd4c0e 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -279,7 +279,10 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             episodes, weights = episodes
         else:
             weights = [1] * len(episodes)
-        sorted_episodes = list(reversed(sorted(episodes, key=len)))
+        order = list(reversed(sorted(
+            range(len(episodes)), key=lambda i: len(episodes[i]))))
+        sorted_episodes = [episodes[i] for i in order]
+        weights = [weights[i] for i in order]
         max_epi_len = len(sorted_episodes[0])
 
         with state_reset(self.model):
-- 
2.43.0


From 3c3fc9d82f676fa64df71f11925824fec48222c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 22/57] fix: accept decay_steps=0 at step 0 in
 LinearDecayEpsilonGreedy

---
 chainerrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/explorers/epsilon_greedy.py b/chainerrl/explorers/epsilon_greedy.py
index 98bbdbb..9e71c78 100644
--- a/chainerrl/explorers/epsilon_greedy.py
+++ b/chainerrl/explorers/epsilon_greedy.py
@@ -64,7 +64,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 6acf5b6d84b79e922c093409d3e1c50ff2f2de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 23/57] fix: respect omega in maximum entropy mellowmax

---
 chainerrl/distribution.py        | 3 ++-
 chainerrl/functions/mellowmax.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 529c79f..4e24ac9 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -238,7 +238,8 @@ class MellowmaxDistribution(CategoricalDistribution):
     @cached_property
     def all_prob(self):
         with chainer.force_backprop_mode():
-            return mellowmax.maximum_entropy_mellowmax(self.values)
+            return mellowmax.maximum_entropy_mellowmax(
+                self.values, omega=self.omega)
 
     @cached_property
     def all_log_prob(self):
diff --git a/chainerrl/functions/mellowmax.py b/chainerrl/functions/mellowmax.py
index c73bec4..a069ac4 100644
--- a/chainerrl/functions/mellowmax.py
+++ b/chainerrl/functions/mellowmax.py
@@ -47,7 +47,7 @@ def maximum_entropy_mellowmax(values, omega=1., beta_min=-10, beta_max=10):
         outputs (Variable)
     """
     xp = chainer.cuda.get_array_module(values)
-    mm = mellowmax(values, axis=1)
+    mm = mellowmax(values, omega=omega, axis=1)
 
     # Advantage: Q - mellowmax(Q)
     batch_adv = values - F.broadcast_to(F.expand_dims(mm, 1), values.shape)
-- 
2.43.0


From 91774cbbe8793f5f515dd44408dd477723acdb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 24/57] fix: let on-policy agents be trained from a step offset

---
 chainerrl/agents/a2c.py  | 4 +++-
 chainerrl/agents/a3c.py  | 4 ++++
 chainerrl/agents/acer.py | 4 ++++
 chainerrl/agents/nsq.py  | 4 ++++
 chainerrl/agents/pcl.py  | 4 ++++
 5 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index e1c13a9..9a7d5d0 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -220,7 +220,9 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
 
-        if self.t == 0:
+        if self.t == 0 or not hasattr(self, 'states'):
+            # t is not 0 at first when step_offset is used
+            self.t_start = self.t
             with chainer.no_backprop_mode():
                 pout, _ = self.model.pi_and_v(statevar)
                 action = pout.sample().array
diff --git a/chainerrl/agents/a3c.py b/chainerrl/agents/a3c.py
index 7385c07..6517087 100644
--- a/chainerrl/agents/a3c.py
+++ b/chainerrl/agents/a3c.py
@@ -241,6 +241,10 @@ class A3C(agent.AttributeSavingMixin, agent.AsyncAgent):
 
         statevar = self.batch_states([obs], np, self.phi)
 
+        if not self.past_states:
+            # t may have been changed since the last update (step_offset)
+            self.t_start = self.t
+
         self.past_rewards[self.t - 1] = reward
 
         if self.t - self.t_start == self.t_max:
diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index 9256c3f..6c819eb 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -593,6 +593,10 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
         statevar = np.expand_dims(self.phi(obs), 0)
 
+        if not self.past_states:
+            # t may have been changed since the last update (step_offset)
+            self.t_start = self.t
+
         self.past_rewards[self.t - 1] = reward
 
         if self.t - self.t_start == self.t_max:
diff --git a/chainerrl/agents/nsq.py b/chainerrl/agents/nsq.py
index 7455244..e26155b 100644
--- a/chainerrl/agents/nsq.py
+++ b/chainerrl/agents/nsq.py
@@ -127,6 +127,10 @@ class NSQ(AttributeSavingMixin, AsyncAgent):
 
         statevar = self.batch_states([obs], np, self.phi)
 
+        if not self.past_states:
+            # t may have been changed since the last update (step_offset)
+            self.t_start = self.t
+
         self.past_rewards[self.t - 1] = reward
 
         if self.t - self.t_start == self.t_max:
diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index 1cd4c0e..b4905cc 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -378,6 +378,10 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
 
         statevar = self.batch_states([obs], self.xp, self.phi)
 
+        if not self.past_values:
+            # t may have been changed since the last update (step_offset)
+            self.t_start = self.t
+
         if self.last_state is not None:
             self.past_rewards[self.t - 1] = reward
 
-- 
2.43.0


From b74b9e04270431977052b5a20e12e20c4ecb6eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 25/57] fix: restart the average model of ACER from a loaded
 model

---
 chainerrl/agents/acer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index 6c819eb..a135dd9 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -704,6 +704,8 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
         super().load(dirname)
         copy_param.copy_param(target_link=self.shared_model,
                               source_link=self.model)
+        copy_param.copy_param(target_link=self.shared_average_model,
+                              source_link=self.model)
 
     def get_statistics(self):
         return [
-- 
2.43.0


From 338ff251b7cda3308b2e3014b3d6df2b676dd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 26/57] fix: load optimizers saved before their first update

---
 chainerrl/agent.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/chainerrl/agent.py b/chainerrl/agent.py
index 9f96915..ccd2177 100644
--- a/chainerrl/agent.py
+++ b/chainerrl/agent.py
@@ -3,6 +3,7 @@ from abc import abstractmethod
 from abc import abstractproperty
 import os
 
+import chainer
 from chainer import serializers
 import numpy
 import warnings
@@ -13,6 +14,12 @@ def load_npz_no_strict(filename, obj):
         serializers.load_npz(filename, obj)
     except KeyError as e:
         warnings.warn(repr(e))
+        if isinstance(obj, chainer.Optimizer):
+            # The failed attempt may have left wrong states. Missing states
+            # must be initialized by the next update.
+            for param in obj.target.params():
+                if param.update_rule is not None:
+                    param.update_rule._state = None
         with numpy.load(filename) as f:
             d = serializers.NpzDeserializer(f, strict=False)
             d.load(obj)
-- 
2.43.0


From 359378f672a89d77916b2c43c98e17fb00f24ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 27/57] fix: detect dead workers of MultiprocessVectorEnv

---
 chainerrl/envs/multiprocess_vector_env.py | 31 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/chainerrl/envs/multiprocess_vector_env.py b/chainerrl/envs/multiprocess_vector_env.py
index bc409c8..09c7974 100644
--- a/chainerrl/envs/multiprocess_vector_env.py
+++ b/chainerrl/envs/multiprocess_vector_env.py
@@ -9,9 +9,12 @@ import numpy as np
 import chainerrl
 
 
-def worker(remote, env_fn):
+def worker(remote, env_fn, parent_remotes=()):
     # Ignore CTRL+C in the worker process
     signal.signal(signal.SIGINT, signal.SIG_IGN)
+    # Close the inherited ends of the parent
+    for parent_remote in parent_remotes:
+        parent_remote.close()
     env = env_fn()
     try:
         while True:
@@ -53,17 +56,22 @@ We recommend using other versions of NumPy.
 See https://github.com/numpy/numpy/issues/12793 for details.
 """)  # NOQA
 
-        nenvs = len(env_fns)
-        self.remotes, self.work_remotes = zip(*[Pipe() for _ in range(nenvs)])
-        self.ps = \
-            [Process(target=worker, args=(work_remote, env_fn))
-             for (work_remote, env_fn) in zip(self.work_remotes, env_fns)]
-        for p in self.ps:
+        self.remotes = []
+        self.ps = []
+        self.closed = False
+        for env_fn in env_fns:
+            remote, work_remote = Pipe()
+            self.remotes.append(remote)
+            p = Process(target=worker,
+                        args=(work_remote, env_fn, tuple(self.remotes)))
             p.start()
+            self.ps.append(p)
+            # Each end of a pipe must be kept by a single process. Otherwise
+            # the death of the other process could not be detected.
+            work_remote.close()
         self.last_obs = [None] * self.num_envs
         self.remotes[0].send(('get_spaces', None))
         self.action_space, self.observation_space = self.remotes[0].recv()
-        self.closed = False
 
     def __del__(self):
         if not self.closed:
@@ -101,7 +109,12 @@ See https://github.com/numpy/numpy/issues/12793 for details.
         self._assert_not_closed()
         self.closed = True
         for remote in self.remotes:
-            remote.send(('close', None))
+            try:
+                remote.send(('close', None))
+            except OSError:
+                # The worker is already dead
+                pass
+            remote.close()
         for p in self.ps:
             p.join()
 
-- 
2.43.0


From 3cb3c9e1680ca370064a482b14a5a555e9ed7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 28/57] fix: give SerialVectorEnv the spec of its envs

---
 chainerrl/envs/serial_vector_env.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/envs/serial_vector_env.py b/chainerrl/envs/serial_vector_env.py
index 68fc093..13f79d4 100644
--- a/chainerrl/envs/serial_vector_env.py
+++ b/chainerrl/envs/serial_vector_env.py
@@ -18,7 +18,10 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+
+    @property
+    def spec(self):
+        return self.envs[0].spec
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From 86408c1274c90861afd7802aab4f44af8474afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 29/57] fix: let SerialVectorEnv be seeded as
 MultiprocessVectorEnv is

---
 chainerrl/envs/serial_vector_env.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chainerrl/envs/serial_vector_env.py b/chainerrl/envs/serial_vector_env.py
index 13f79d4..36e6f44 100644
--- a/chainerrl/envs/serial_vector_env.py
+++ b/chainerrl/envs/serial_vector_env.py
@@ -36,9 +36,14 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         self.last_obs = obs
         return obs
 
-    def seed(self, seeds):
-        for env, seed in zip(self.envs, seeds):
-            env.seed(seed)
+    def seed(self, seeds=None):
+        if seeds is None or isinstance(seeds, int):
+            seeds = [seeds] * self.num_envs
+        if len(seeds) != self.num_envs:
+            raise ValueError(
+                "length of seeds must be same as num_envs {}"
+                .format(self.num_envs))
+        return [env.seed(seed) for env, seed in zip(self.envs, seeds)]
 
     def close(self):
         for env in self.envs:
-- 
2.43.0


From 2ce3c6a4479d27038f085396951eba6132acfe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 30/57] fix: do not return stale frames from MaxAndSkipEnv at
 time limits

---
 chainerrl/wrappers/atari_wrappers.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index e6185e9..3a9e662 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -128,16 +128,13 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
-                self._obs_buffer[1] = obs
+            self._obs_buffer[i % 2] = obs
             total_reward += reward
             if done or info.get('needs_reset', False):
                 break
         # Note that the observation on the done=True frame
-        # doesn't matter
-        max_frame = self._obs_buffer.max(axis=0)
+        # doesn't matter, but that on the needs_reset=True frame does
+        max_frame = self._obs_buffer[:i + 1].max(axis=0)
 
         return max_frame, total_reward, done, info
 
-- 
2.43.0


From c396a48660eec593f1cda0cfacf8bd30798df05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 31/57] fix: return the observation of the new episode from
 FireResetEnv

---
 chainerrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index 3a9e662..a0b8a2a 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -66,7 +66,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get('needs_reset', False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From 80f4be426a60ddff89b486e1b4c2f64f57d9942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 32/57] fix: start a new game when the no-op of EpisodicLifeEnv
 ends it

---
 chainerrl/wrappers/atari_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index a0b8a2a..291d914 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -108,7 +108,9 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get('needs_reset', False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 6dece8d33dbf1a66d704205bbf03bd98b427aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 33/57] fix: keep the mode given to Monitor

---
 chainerrl/wrappers/monitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/wrappers/monitor.py b/chainerrl/wrappers/monitor.py
index 6e7cab0..c404b8a 100644
--- a/chainerrl/wrappers/monitor.py
+++ b/chainerrl/wrappers/monitor.py
@@ -32,6 +32,8 @@ class Monitor(_GymMonitor):
             directory,
             '{}.episode_batch.{}'.format(self.file_prefix, self.file_infix),
             autoreset=False, env_id=env_id)
+        if mode is not None:
+            self._set_mode(mode)
         return ret
 
 
-- 
2.43.0


From 1251139aeafaa41c9846f2738ee32e79c276afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 34/57] fix: let VectorEnvWrapper be reset with a positional
 mask

---
 chainerrl/wrappers/vector_frame_stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/wrappers/vector_frame_stack.py b/chainerrl/wrappers/vector_frame_stack.py
index 7b6f1bb..da65d8c 100644
--- a/chainerrl/wrappers/vector_frame_stack.py
+++ b/chainerrl/wrappers/vector_frame_stack.py
@@ -24,8 +24,8 @@ class VectorEnvWrapper(VectorEnv):
     def step(self, action):
         return self.env.step(action)
 
-    def reset(self, **kwargs):
-        return self.env.reset(**kwargs)
+    def reset(self, *args, **kwargs):
+        return self.env.reset(*args, **kwargs)
 
     def render(self, mode='human', **kwargs):
         return self.env.render(mode, **kwargs)
-- 
2.43.0


From 7af0f3bdf3b14ab73eec61c804206f9f3538fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 35/57] fix: use eps of NormalizedRewardFilter as a lower bound
 of the variance

---
 chainerrl/misc/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/misc/reward_filter.py b/chainerrl/misc/reward_filter.py
index 608ee16..b2e3213 100644
--- a/chainerrl/misc/reward_filter.py
+++ b/chainerrl/misc/reward_filter.py
@@ -14,7 +14,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward ** 2
         var = self.average_reward_squared - self.average_reward ** 2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From 08593bd8c052d695be82d153f42f48aa9985d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 36/57] fix: let RandomizeAction be seeded as any gym env

---
 chainerrl/wrappers/randomize_action.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/wrappers/randomize_action.py b/chainerrl/wrappers/randomize_action.py
index 6b43eb6..06d6afe 100644
--- a/chainerrl/wrappers/randomize_action.py
+++ b/chainerrl/wrappers/randomize_action.py
@@ -34,6 +34,7 @@ class RandomizeAction(gym.ActionWrapper):
         else:
             return action
 
-    def seed(self, seed):
-        super().seed(seed)
+    def seed(self, seed=None):
+        seeds = super().seed(seed)
         self._np_random.seed(seed)
+        return seeds
-- 
2.43.0


From ec18198507ba690918b306b1dd0150dff94b9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 37/57] fix: start a new game when the null operations of ALE
 end it

---
 chainerrl/envs/ale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/envs/ale.py b/chainerrl/envs/ale.py
index 61fe383..9afdad5 100644
--- a/chainerrl/envs/ale.py
+++ b/chainerrl/envs/ale.py
@@ -221,6 +221,8 @@ class ALE(env.Env):
             n_nullops = np.random.randint(0, self.max_start_nullops + 1)
             for _ in range(n_nullops):
                 self.ale.act(0)
+                if self.ale.game_over():
+                    self.ale.reset_game()
 
         self._reward = 0
 
-- 
2.43.0


From 3814dcbbfe465b2b17f9d5a09fe0401a9b0ebeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 38/57] fix: order bounds of stacked frames as the frames

---
 chainerrl/wrappers/atari_wrappers.py     | 6 ++++--
 chainerrl/wrappers/vector_frame_stack.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index 291d914..da606b4 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -194,8 +194,10 @@ class FrameStack(gym.Wrapper):
         self.frames = deque([], maxlen=k)
         self.stack_axis = {'hwc': 2, 'chw': 0}[channel_order]
         orig_obs_space = env.observation_space
-        low = np.repeat(orig_obs_space.low, k, axis=self.stack_axis)
-        high = np.repeat(orig_obs_space.high, k, axis=self.stack_axis)
+        low = np.concatenate(
+            [orig_obs_space.low] * k, axis=self.stack_axis)
+        high = np.concatenate(
+            [orig_obs_space.high] * k, axis=self.stack_axis)
         self.observation_space = spaces.Box(
             low=low, high=high, dtype=orig_obs_space.dtype)
 
diff --git a/chainerrl/wrappers/vector_frame_stack.py b/chainerrl/wrappers/vector_frame_stack.py
index da65d8c..d1bc971 100644
--- a/chainerrl/wrappers/vector_frame_stack.py
+++ b/chainerrl/wrappers/vector_frame_stack.py
@@ -73,8 +73,10 @@ class VectorFrameStack(VectorEnvWrapper):
         self.frames = [deque([], maxlen=k) for _ in range(env.num_envs)]
         orig_obs_space = env.observation_space
         assert isinstance(orig_obs_space, spaces.Box)
-        low = np.repeat(orig_obs_space.low, k, axis=self.stack_axis)
-        high = np.repeat(orig_obs_space.high, k, axis=self.stack_axis)
+        low = np.concatenate(
+            [orig_obs_space.low] * k, axis=self.stack_axis)
+        high = np.concatenate(
+            [orig_obs_space.high] * k, axis=self.stack_axis)
         self.observation_space = spaces.Box(
             low=low, high=high, dtype=orig_obs_space.dtype)
 
-- 
2.43.0


From 018ba3d476c94d9b7ca59e3251ad8ee27438b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 39/57] fix: share optimizer states in their own data type

---
 chainerrl/misc/async_.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index 480e721..2295b3c 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -149,8 +149,9 @@ def extract_states_as_shared_arrays(optimizer):
         ensure_initialized_update_rule(param)
         state = param.update_rule.state
         for state_name, state_val in state.items():
+            typecode = state_val.dtype.char
             shared_arrays[param_name][
-                state_name] = mp.RawArray('f', state_val.ravel())
+                state_name] = mp.RawArray(typecode, state_val.ravel())
     return shared_arrays
 
 
-- 
2.43.0


From 51e9ffcdd8216546f030de1a22b598c710e9120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 40/57] fix: give processes of run_async different random seeds

---
 chainerrl/misc/async_.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index 2295b3c..cd64c3e 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -171,13 +171,15 @@ def run_async(n_process, run_func):
 
     processes = []
 
-    def set_seed_and_run(process_idx, run_func):
-        random_seed.set_random_seed(np.random.randint(0, 2 ** 32))
+    def set_seed_and_run(process_idx, run_func, seed):
+        random_seed.set_random_seed(seed)
         run_func(process_idx)
 
+    # Draw seeds here because forked processes inherit the same random state
+    seeds = np.random.randint(0, 2 ** 32, size=n_process, dtype=np.uint32)
     for process_idx in range(n_process):
         processes.append(mp.Process(target=set_seed_and_run, args=(
-            process_idx, run_func)))
+            process_idx, run_func, int(seeds[process_idx]))))
 
     for p in processes:
         p.start()
-- 
2.43.0


From 5a1a16892ce6732275e29394b9599d98fac6c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 41/57] fix: solve a zero right-hand side by conjugate gradient

---
 chainerrl/misc/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/misc/conjugate_gradient.py b/chainerrl/misc/conjugate_gradient.py
index 994413f..23ce617 100644
--- a/chainerrl/misc/conjugate_gradient.py
+++ b/chainerrl/misc/conjugate_gradient.py
@@ -22,6 +22,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     x = xp.zeros_like(b)
     r0 = b - A_product_func(x)
     p = r0
+    if xp.linalg.norm(r0) < tol:
+        return x
     for _ in range(max_iter):
         a = xp.dot(r0, r0) / xp.dot(A_product_func(p), p)
         x = x + p * a
-- 
2.43.0


From 04290a37c05adfbe278885e7abf366bddc58d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 42/57] fix: clip normalized Variables

---
 chainerrl/links/empirical_normalization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 789c651..7fa12ad 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -1,4 +1,5 @@
 import chainer
+from chainer import functions as F
 import numpy as np
 
 
@@ -98,8 +99,12 @@ class EmpiricalNormalization(chainer.Link):
 
         normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
-            normalized = xp.clip(
-                normalized, -self.clip_threshold, self.clip_threshold)
+            if isinstance(normalized, chainer.Variable):
+                normalized = F.clip(
+                    normalized, -self.clip_threshold, self.clip_threshold)
+            else:
+                normalized = xp.clip(
+                    normalized, -self.clip_threshold, self.clip_threshold)
         return normalized
 
     def inverse(self, y):
-- 
2.43.0


From 1f2d36533ff2e0e14ea73ad0810f9deb88ab64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 43/57] fix: normalize with loaded statistics

---
 chainerrl/links/empirical_normalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 7fa12ad..ffdd730 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -79,6 +79,11 @@ class EmpiricalNormalization(chainer.Link):
         # clear cache
         self._cached_std_inverse = None
 
+    def serialize(self, serializer):
+        super(EmpiricalNormalization, self).serialize(serializer)
+        # clear cache since statistics may have been loaded
+        self._cached_std_inverse = None
+
     def __call__(self, x, update=True):
         """Normalize mean and variance of values based on emprical values.
 
-- 
2.43.0


From f8c0903def382a8dd37ff78ec133a70a8601b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 44/57] fix: keep data type in lower_triangular_matrix

---
 chainerrl/functions/lower_triangular_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/functions/lower_triangular_matrix.py b/chainerrl/functions/lower_triangular_matrix.py
index 7bb2713..767ea54 100644
--- a/chainerrl/functions/lower_triangular_matrix.py
+++ b/chainerrl/functions/lower_triangular_matrix.py
@@ -137,7 +137,7 @@ class LowerTriangularMatrix(function.Function):
         batch_size = diag.shape[0]
         n = diag.shape[1]
         xp = cuda.get_array_module(diag)
-        y = xp.zeros((batch_size, n, n), dtype=np.float32)
+        y = xp.zeros((batch_size, n, n), dtype=diag.dtype)
         _set_batch_non_diagonal(y, non_diag)
         _set_batch_diagonal(y, diag)
         return y,
-- 
2.43.0


From fa4241b8863f2945c992c28691e528c3487c9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:11 +0000
Subject: [PATCH 45/57] fix: allow Gaussian policies without hidden layers

---
 chainerrl/policies/gaussian_policy.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/chainerrl/policies/gaussian_policy.py b/chainerrl/policies/gaussian_policy.py
index 005641e..3d8d589 100644
--- a/chainerrl/policies/gaussian_policy.py
+++ b/chainerrl/policies/gaussian_policy.py
@@ -150,15 +150,21 @@ class FCGaussianPolicyWithStateIndependentCovariance(
         var_size = {'spherical': 1, 'diagonal': action_size}[var_type]
 
         layers = []
-        layers.append(L.Linear(n_input_channels, n_hidden_channels))
-        for _ in range(n_hidden_layers - 1):
+        if n_hidden_layers > 0:
+            layers.append(L.Linear(n_input_channels, n_hidden_channels))
+            for _ in range(n_hidden_layers - 1):
+                layers.append(self.nonlinearity)
+                layers.append(L.Linear(n_hidden_channels, n_hidden_channels))
             layers.append(self.nonlinearity)
-            layers.append(L.Linear(n_hidden_channels, n_hidden_channels))
-        layers.append(self.nonlinearity)
-        # The last layer is used to compute the mean
-        layers.append(
-            L.Linear(n_hidden_channels, action_size,
-                     initialW=LeCunNormal(mean_wscale)))
+            # The last layer is used to compute the mean
+            layers.append(
+                L.Linear(n_hidden_channels, action_size,
+                         initialW=LeCunNormal(mean_wscale)))
+        else:
+            # There's only one layer for computing the mean
+            layers.append(
+                L.Linear(n_input_channels, action_size,
+                         initialW=LeCunNormal(mean_wscale)))
 
         if self.bound_mean:
             layers.append(lambda x: bound_by_tanh(
-- 
2.43.0


From d42d041371eab21485cad0e5c1395bcab5347bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 46/57] fix: differentiate scalars by scale_grad and sums of
 arrays

---
 chainerrl/functions/scale_grad.py          | 3 ++-
 chainerrl/functions/sum_arrays.py          | 2 +-
 chainerrl/functions/weighted_sum_arrays.py | 5 +++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/chainerrl/functions/scale_grad.py b/chainerrl/functions/scale_grad.py
index efe4c30..b3fd5be 100644
--- a/chainerrl/functions/scale_grad.py
+++ b/chainerrl/functions/scale_grad.py
@@ -1,6 +1,7 @@
 import numpy
 
 import chainer
+from chainer import utils
 from chainer.utils import type_check
 
 
@@ -19,7 +20,7 @@ class ScaleGrad(chainer.Function):
         return x
 
     def backward(self, x, gy):
-        return tuple(g * self.scale for g in gy)
+        return tuple(utils.force_array(g * self.scale, g.dtype) for g in gy)
 
 
 def scale_grad(x, scale):
diff --git a/chainerrl/functions/sum_arrays.py b/chainerrl/functions/sum_arrays.py
index 517d744..a4016a2 100644
--- a/chainerrl/functions/sum_arrays.py
+++ b/chainerrl/functions/sum_arrays.py
@@ -14,7 +14,7 @@ class SumArrays(function.Function):
 
     def forward_cpu(self, inputs):
         y = sum(inputs)
-        return utils.force_array(y),
+        return utils.force_array(y, inputs[0].dtype),
 
     def backward(self, inputs, grads):
         return [grads[0]] * len(inputs)
diff --git a/chainerrl/functions/weighted_sum_arrays.py b/chainerrl/functions/weighted_sum_arrays.py
index b629c14..54bf029 100644
--- a/chainerrl/functions/weighted_sum_arrays.py
+++ b/chainerrl/functions/weighted_sum_arrays.py
@@ -17,10 +17,11 @@ class WeightedSumArrays(function.Function):
 
     def forward_cpu(self, inputs):
         y = sum(w * x for w, x in zip(self.weights, inputs))
-        return utils.force_array(y),
+        return utils.force_array(y, inputs[0].dtype),
 
     def backward(self, inputs, grads):
-        return [w * grads[0] for w in self.weights]
+        return [utils.force_array(w * grads[0], grads[0].dtype)
+                for w in self.weights]
 
     def forward_gpu(self, inputs):
         ptrs = cuda.cupy.asarray([x.data.ptr for x in inputs],
-- 
2.43.0


From 1267a25035846f0f1e1f0e5a8ec2dd03ae1ebde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 47/57] fix: noisy conversion of FCGaussianPolicy replaces the
 layers it uses

---
 chainerrl/policies/gaussian_policy.py | 46 +++++++++++++++++----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/chainerrl/policies/gaussian_policy.py b/chainerrl/policies/gaussian_policy.py
index 3d8d589..fa842b4 100644
--- a/chainerrl/policies/gaussian_policy.py
+++ b/chainerrl/policies/gaussian_policy.py
@@ -67,27 +67,41 @@ class FCGaussianPolicy(chainer.ChainList, Policy):
         self.min_var = min_var
         var_size = {'spherical': 1, 'diagonal': action_size}[var_type]
 
-        self.hidden_layers = []
+        hidden_layers = []
         if n_hidden_layers > 0:
-            self.hidden_layers.append(
+            hidden_layers.append(
                 L.Linear(n_input_channels, n_hidden_channels))
             for _ in range(n_hidden_layers - 1):
-                self.hidden_layers.append(
+                hidden_layers.append(
                     L.Linear(n_hidden_channels, n_hidden_channels))
-            self.mean_layer = L.Linear(n_hidden_channels, action_size,
-                                       initialW=LeCunNormal(mean_wscale))
-            self.var_layer = L.Linear(n_hidden_channels, var_size,
-                                      initialW=LeCunNormal(var_wscale),
-                                      initial_bias=var_bias)
+            mean_layer = L.Linear(n_hidden_channels, action_size,
+                                  initialW=LeCunNormal(mean_wscale))
+            var_layer = L.Linear(n_hidden_channels, var_size,
+                                 initialW=LeCunNormal(var_wscale),
+                                 initial_bias=var_bias)
         else:
-            self.mean_layer = L.Linear(n_input_channels, action_size,
-                                       initialW=LeCunNormal(mean_wscale))
-            self.var_layer = L.Linear(n_input_channels, var_size,
-                                      initialW=LeCunNormal(var_wscale),
-                                      initial_bias=var_bias)
-
-        super().__init__(
-            self.mean_layer, self.var_layer, *self.hidden_layers)
+            mean_layer = L.Linear(n_input_channels, action_size,
+                                  initialW=LeCunNormal(mean_wscale))
+            var_layer = L.Linear(n_input_channels, var_size,
+                                 initialW=LeCunNormal(var_wscale),
+                                 initial_bias=var_bias)
+
+        super().__init__(mean_layer, var_layer, *hidden_layers)
+
+    # Layers are looked up among the children so that ones replaced afterwards,
+    # e.g. by links.to_factorized_noisy, are used.
+
+    @property
+    def mean_layer(self):
+        return self[0]
+
+    @property
+    def var_layer(self):
+        return self[1]
+
+    @property
+    def hidden_layers(self):
+        return self[2:]
 
     def compute_mean_and_var(self, x):
         h = x
-- 
2.43.0


From 28b4e2bdddea38a609129f3e5d5f6d59424cb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 48/57] fix: A2C, A3C, ACER, NSQ, PCL and REINFORCE act in
 training mode when evaluated

---
 chainerrl/agents/a2c.py       | 4 ++--
 chainerrl/agents/a3c.py       | 2 +-
 chainerrl/agents/acer.py      | 2 +-
 chainerrl/agents/nsq.py       | 9 +++++----
 chainerrl/agents/pcl.py       | 2 +-
 chainerrl/agents/reinforce.py | 2 +-
 6 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index 9a7d5d0..f5019c0 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -247,7 +247,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def batch_act(self, batch_obs):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
                 action = pout.most_probable.array
@@ -283,7 +283,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         raise RuntimeError('A2C does not support non-batch training')
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/a3c.py b/chainerrl/agents/a3c.py
index 6517087..bac6585 100644
--- a/chainerrl/agents/a3c.py
+++ b/chainerrl/agents/a3c.py
@@ -272,7 +272,7 @@ class A3C(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], np, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index a135dd9..f3ebbfd 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -654,7 +654,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = np.expand_dims(self.phi(obs), 0)
             action_distrib, _, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/nsq.py b/chainerrl/agents/nsq.py
index e26155b..c8c0013 100644
--- a/chainerrl/agents/nsq.py
+++ b/chainerrl/agents/nsq.py
@@ -161,10 +161,11 @@ class NSQ(AttributeSavingMixin, AsyncAgent):
         return action
 
     def act(self, obs):
-        statevar = self.batch_states([obs], np, self.phi)
-        qout = self.q_function(statevar)
-        self.logger.debug('act action_value: %s', qout)
-        return qout.greedy_actions.array[0]
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
+            statevar = self.batch_states([obs], np, self.phi)
+            qout = self.q_function(statevar)
+            self.logger.debug('act action_value: %s', qout)
+            return qout.greedy_actions.array[0]
 
     def stop_episode_and_train(self, state, reward, done=False):
         self.past_rewards[self.t - 1] = reward
diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index b4905cc..d573543 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -438,7 +438,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             action_distrib, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/reinforce.py b/chainerrl/agents/reinforce.py
index 8ca38c4..9fcc14c 100644
--- a/chainerrl/agents/reinforce.py
+++ b/chainerrl/agents/reinforce.py
@@ -93,7 +93,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         return action
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_obs = self.batch_states([obs], self.xp, self.phi)
             action_distrib = self.model(batch_obs)
             if self.act_deterministically:
-- 
2.43.0


From 2d4d489d9394f0cf6767c8eba9f83a3097203ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 49/57] fix: evaluate target networks in test mode

Assigning __call__ of an instance has no effect, so target networks with
batch normalization or dropout were evaluated in training mode.
---
 chainerrl/agents/al.py              |  2 +-
 chainerrl/agents/categorical_dqn.py |  2 +-
 chainerrl/agents/ddpg.py            | 14 +-------------
 chainerrl/agents/double_pal.py      |  2 +-
 chainerrl/agents/dpp.py             |  2 +-
 chainerrl/agents/dqn.py             |  9 +--------
 chainerrl/agents/iqn.py             |  2 +-
 chainerrl/agents/pal.py             |  2 +-
 chainerrl/agents/pgt.py             |  6 ++----
 9 files changed, 10 insertions(+), 31 deletions(-)

diff --git a/chainerrl/agents/al.py b/chainerrl/agents/al.py
index e7719f0..5d04798 100644
--- a/chainerrl/agents/al.py
+++ b/chainerrl/agents/al.py
@@ -39,7 +39,7 @@ class AL(dqn.DQN):
         # Compute target values
         batch_next_state = exp_batch['next_state']
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
                     batch_state, exp_batch['recurrent_state'],
diff --git a/chainerrl/agents/categorical_dqn.py b/chainerrl/agents/categorical_dqn.py
index 1d4a649..d4d2479 100644
--- a/chainerrl/agents/categorical_dqn.py
+++ b/chainerrl/agents/categorical_dqn.py
@@ -168,7 +168,7 @@ class CategoricalDQN(dqn.DQN):
         batch_q = qout.evaluate_actions_as_distribution(batch_actions)
         assert batch_q.shape == (batch_size, n_atoms)
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_q_target = self._compute_target_values(exp_batch)
             assert batch_q_target.shape == (batch_size, n_atoms)
 
diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 056f269..39f4be2 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -16,16 +16,6 @@ from chainerrl.replay_buffer import batch_experiences
 from chainerrl.replay_buffer import ReplayUpdater
 
 
-def disable_train(chain):
-    call_orig = chain.__call__
-
-    def call_test(self, x):
-        with chainer.using_config('train', False):
-            return call_orig(self, x)
-
-    chain.__call__ = call_test
-
-
 class DDPGModel(chainer.Chain, RecurrentChainMixin):
 
     def __init__(self, policy, q_func):
@@ -135,8 +125,6 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         self.last_state = None
         self.last_action = None
         self.target_model = copy.deepcopy(self.model)
-        disable_train(self.target_model['q_function'])
-        disable_train(self.target_model['policy'])
         self.average_q = 0
         self.average_actor_loss = 0.0
         self.average_critic_loss = 0.0
@@ -178,7 +166,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_actions = batch['action']
         batchsize = len(batch_rewards)
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             # Target policy observes s_{t+1}
             next_actions = self.target_policy(
                 batch_next_state).sample()
diff --git a/chainerrl/agents/double_pal.py b/chainerrl/agents/double_pal.py
index 259050b..c8be070 100644
--- a/chainerrl/agents/double_pal.py
+++ b/chainerrl/agents/double_pal.py
@@ -23,7 +23,7 @@ class DoublePAL(pal.PAL):
 
         # Compute target values
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_next_state = exp_batch['next_state']
             if self.recurrent:
                 next_qout, _ = self.model.n_step_forward(
diff --git a/chainerrl/agents/dpp.py b/chainerrl/agents/dpp.py
index d82a3de..2140dea 100644
--- a/chainerrl/agents/dpp.py
+++ b/chainerrl/agents/dpp.py
@@ -52,7 +52,7 @@ class AbstractDPP(DQN, metaclass=ABCMeta):
         batch_q = F.reshape(qout.evaluate_actions(
             batch_actions), (batch_size, 1))
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             # Compute target values
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
diff --git a/chainerrl/agents/dqn.py b/chainerrl/agents/dqn.py
index 2c74e1c..1c07ad8 100644
--- a/chainerrl/agents/dqn.py
+++ b/chainerrl/agents/dqn.py
@@ -214,13 +214,6 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         """Synchronize target network with current network."""
         if self.target_model is None:
             self.target_model = copy.deepcopy(self.model)
-            call_orig = self.target_model.__call__
-
-            def call_test(self_, x):
-                with chainer.using_config('train', False):
-                    return call_orig(self_, x)
-
-            self.target_model.__call__ = call_test
         else:
             synchronize_parameters(
                 src=self.model,
@@ -322,7 +315,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         batch_q = F.reshape(qout.evaluate_actions(
             batch_actions), (batch_size, 1))
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_q_target = F.reshape(
                 self._compute_target_values(exp_batch),
                 (batch_size, 1))
diff --git a/chainerrl/agents/iqn.py b/chainerrl/agents/iqn.py
index 1ca3f8c..3110930 100644
--- a/chainerrl/agents/iqn.py
+++ b/chainerrl/agents/iqn.py
@@ -377,7 +377,7 @@ class IQN(dqn.DQN):
                 chainer.Variable: Scalar loss.
         """
         y, taus = self._compute_y_and_taus(exp_batch)
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             t = self._compute_target_values(exp_batch)
 
         eltwise_loss = compute_eltwise_huber_quantile_loss(y, t, taus)
diff --git a/chainerrl/agents/pal.py b/chainerrl/agents/pal.py
index 6b01b3d..f3e3191 100644
--- a/chainerrl/agents/pal.py
+++ b/chainerrl/agents/pal.py
@@ -37,7 +37,7 @@ class PAL(dqn.DQN):
 
         # Compute target values
         batch_next_state = exp_batch['next_state']
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
                     batch_state, exp_batch['recurrent_state'],
diff --git a/chainerrl/agents/pgt.py b/chainerrl/agents/pgt.py
index 63e33da..169224f 100644
--- a/chainerrl/agents/pgt.py
+++ b/chainerrl/agents/pgt.py
@@ -7,7 +7,6 @@ import chainer.functions as F
 
 from chainerrl.agent import Agent
 from chainerrl.agent import AttributeSavingMixin
-from chainerrl.agents.ddpg import disable_train
 from chainerrl.misc.batch_states import batch_states
 from chainerrl.misc.copy_param import synchronize_parameters
 from chainerrl.recurrent import Recurrent
@@ -107,8 +106,6 @@ class PGT(AttributeSavingMixin, Agent):
         self.last_state = None
         self.last_action = None
         self.target_model = copy.deepcopy(self.model)
-        disable_train(self.target_model['q_function'])
-        disable_train(self.target_model['policy'])
         self.average_q = 0
         self.average_actor_loss = 0.0
         self.average_critic_loss = 0.0
@@ -152,7 +149,8 @@ class PGT(AttributeSavingMixin, Agent):
         # Update Q-function
         def compute_critic_loss():
 
-            with chainer.no_backprop_mode():
+            with chainer.using_config('train', False), \
+                    chainer.no_backprop_mode():
                 pout = self.target_policy(batch_next_state)
                 next_actions = pout.sample()
                 next_q = self.target_q_function(batch_next_state, next_actions)
-- 
2.43.0


From 7356369def41b0af3005dad6c0ca9749b3584823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 50/57] fix: EmpiricalNormalization mixed new means with old
 deviations

The mean was updated in place after it had been taken, the deviation was not.
---
 chainerrl/links/empirical_normalization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index ffdd730..b100481 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -95,13 +95,13 @@ class EmpiricalNormalization(chainer.Link):
             ndarray or Variable: Normalized output values
         """
 
+        if update:
+            self.experience(x)
+
         xp = self.xp
         mean = xp.broadcast_to(self._mean, x.shape)
         std_inv = xp.broadcast_to(self._std_inverse, x.shape)
 
-        if update:
-            self.experience(x)
-
         normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
             if isinstance(normalized, chainer.Variable):
-- 
2.43.0


From 7dd8526e2d56d9f7b3f9b8e21e754d09b360c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 51/57] fix: an interrupted download left a partly extracted
 model that counted as cached

---
 chainerrl/misc/pretrained_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/misc/pretrained_models.py b/chainerrl/misc/pretrained_models.py
index 09dd62c..d881573 100644
--- a/chainerrl/misc/pretrained_models.py
+++ b/chainerrl/misc/pretrained_models.py
@@ -124,9 +124,10 @@ def download_and_store_model(alg, url, env, model_type):
         if not is_cached:
             cache_path = cached_download(posixpath.join(url_basepath,
                                                         file))
-            os.rename(cache_path, path)
-            with zipfile.ZipFile(path, 'r') as zip_ref:
+            with zipfile.ZipFile(cache_path, 'r') as zip_ref:
                 zip_ref.extractall(root)
+            # The model counts as cached from here on
+            os.rename(cache_path, path)
         return os.path.join(root, model_type), is_cached
 
 
-- 
2.43.0


From fbbb5f6c82545e5685bc77bf81821d3b2cc86bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 52/57] fix: transitions loaded from v0.2 replay buffer files
 could not be used

---
 chainerrl/replay_buffers/episodic.py      | 4 ++--
 chainerrl/replay_buffers/replay_buffer.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/chainerrl/replay_buffers/episodic.py b/chainerrl/replay_buffers/episodic.py
index 68a866b..b1e091a 100644
--- a/chainerrl/replay_buffers/episodic.py
+++ b/chainerrl/replay_buffers/episodic.py
@@ -57,12 +57,12 @@ class EpisodicReplayBuffer(AbstractEpisodicReplayBuffer):
             # Load v0.2
             # FIXME: The code works with EpisodicReplayBuffer
             # but not with PrioritizedEpisodicReplayBuffer
-            self.memory = RandomAccessQueue(memory)
+            self.memory = RandomAccessQueue([item] for item in memory)
             self.episodic_memory = RandomAccessQueue()
 
             # Recover episodic_memory with best effort.
             episode = []
-            for item in self.memory:
+            for item in memory:
                 episode.append(item)
                 if item['is_state_terminal']:
                     self.episodic_memory.append(episode)
diff --git a/chainerrl/replay_buffers/replay_buffer.py b/chainerrl/replay_buffers/replay_buffer.py
index c43eb5d..0eedae4 100644
--- a/chainerrl/replay_buffers/replay_buffer.py
+++ b/chainerrl/replay_buffers/replay_buffer.py
@@ -76,6 +76,7 @@ class ReplayBuffer(replay_buffer.AbstractReplayBuffer):
         with open(filename, 'rb') as f:
             self.memory = pickle.load(f)
         if isinstance(self.memory, collections.deque):
-            # Load v0.2
+            # Load v0.2, where items were single transitions
             self.memory = RandomAccessQueue(
-                self.memory, maxlen=self.memory.maxlen)
+                ([item] if isinstance(item, dict) else item
+                 for item in self.memory), maxlen=self.memory.maxlen)
-- 
2.43.0


From 0f60d73d7f8efa733e29201a4f62512f8dd7b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 53/57] fix: A2C reported its value loss as average_value

average_value is documented as the average of values (and is that in every
other agent), but squared advantages were averaged.  Average the predicted
values that the update learned from.
---
 chainerrl/agents/a2c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index f5019c0..75671d9 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -211,7 +211,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
             (float(action_loss.array) - self.average_actor_loss))
         self.average_value += (
             (1 - self.average_value_decay) *
-            (float(value_loss.array) - self.average_value))
+            (float(F.mean(values).array) - self.average_value))
         self.average_entropy += (
             (1 - self.average_entropy_decay) *
             (float(dist_entropy.array) - self.average_entropy))
-- 
2.43.0


From a84b8c568235d6596b93c257511000708853be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:49 +0000
Subject: [PATCH 54/57] fix: the scopes of all recurrent models shared one
 stack of saved states

---
 chainerrl/recurrent.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 2a727c2..2bd261a 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -26,7 +26,11 @@ class Recurrent(object, metaclass=ABCMeta):
     of it: get_state, set_state and reset_state.
     """
 
-    __state_stack = []
+    @property
+    def __state_stack(self):
+        # Each model has its own stack, as scopes of different models are not
+        # always properly nested.
+        return self.__dict__.setdefault('_Recurrent__saved_states', [])
 
     @abstractmethod
     def get_state(self):
-- 
2.43.0


From e5ec4f951210268a72a18092205d73b856c4fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 55/57] fix: evaluating batch training in its own environment
 spliced training episodes

train_agent_batch_with_evaluation evaluates in the training environment by
default. Evaluations in the middle of episodes left the environments at the
end of an evaluation episode, from where the agent was trained on as if its
training episodes went on.
---
 chainerrl/experiments/evaluator.py         | 5 ++++-
 chainerrl/experiments/train_agent_batch.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/chainerrl/experiments/evaluator.py b/chainerrl/experiments/evaluator.py
index acb2bc4..a208c11 100644
--- a/chainerrl/experiments/evaluator.py
+++ b/chainerrl/experiments/evaluator.py
@@ -345,8 +345,11 @@ class Evaluator(object):
                 save_agent(self.agent, "best", self.outdir, self.logger)
         return mean
 
+    def is_evaluation_necessary(self, t):
+        return t >= self.prev_eval_t + self.eval_interval
+
     def evaluate_if_necessary(self, t, episodes):
-        if t >= self.prev_eval_t + self.eval_interval:
+        if self.is_evaluation_necessary(t):
             score = self.evaluate_and_update_max_score(t, episodes)
             self.prev_eval_t = t - t % self.eval_interval
             return score
diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index 1b37c79..6ecc9ae 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -68,6 +68,11 @@ def train_agent_batch(agent, env, steps, outdir,
                 resets = (episode_len == max_episode_len)
             resets = np.logical_or(
                 resets, [info.get('needs_reset', False) for info in infos])
+            # Evaluation in the training environment resets it, so it ends
+            # all the training episodes
+            if (evaluator and evaluator.env is env
+                    and evaluator.is_evaluation_necessary(t + num_envs)):
+                resets.fill(True)
             # Agent observes the consequences
             agent.batch_observe_and_train(obss, rs, dones, resets)
 
-- 
2.43.0


From 905f737285fadb82234d53518aaf14e1ada3b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 56/57] fix: errors in batch training were replaced by that of
 closing an environment twice

By default the evaluation environment is the training environment. A
MultiprocessVectorEnv cannot be closed twice, so its AssertionError reached
the caller instead of the error or interruption that stopped training.
---
 chainerrl/experiments/train_agent_batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index 6ecc9ae..4230ffd 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -131,7 +131,7 @@ def train_agent_batch(agent, env, steps, outdir,
         # Save the current model before being killed
         save_agent(agent, t, outdir, logger, suffix='_except')
         env.close()
-        if evaluator:
+        if evaluator and evaluator.env is not env:
             evaluator.env.close()
         raise
     else:
-- 
2.43.0


From 7784872b27c43e69e368f1d9f525c4ed26db9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:27 +0000
Subject: [PATCH 57/57] fix: the initial weights of noisy networks depended on
 the hash seed

---
 chainerrl/links/noisy_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/links/noisy_chain.py b/chainerrl/links/noisy_chain.py
index bf67480..c1d2661 100644
--- a/chainerrl/links/noisy_chain.py
+++ b/chainerrl/links/noisy_chain.py
@@ -27,8 +27,8 @@ def to_factorized_noisy(link, *args, **kwargs):
 
 def _map_links(func, link):
     if isinstance(link, chainer.Chain):
-        children_names = link._children.copy()
-        for name in children_names:
+        # The order of a set of names depends on the hash seed
+        for name in sorted(link._children):
             child = getattr(link, name)
             new_child = func(child)
             if new_child is child:
-- 
2.43.0


From 256ac3082cda8374307d3a655f32ee7932200ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 01/60] fix: DRos with lambda_=0 returned nan when an
 importance weight is zero

---
 obp/ope/estimators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 58ee77b..ab2d4d1 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -1667,7 +1667,10 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         """
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
-        if self.lambda_ < np.inf:
+        if self.lambda_ == 0:
+            # the shrunk weight is zero (DM), also where `iw` itself is zero (0/0 otherwise)
+            iw_hat = np.zeros_like(iw)
+        elif self.lambda_ < np.inf:
             iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
         else:
             iw_hat = iw
@@ -1750,7 +1753,10 @@ class DoublyRobustWithShrinkage(DoublyRobust):
 
         # estimate the (high probability) upper bound of the bias of DRos
         iw = action_dist[np.arange(n), action, position] / pscore
-        if self.lambda_ < np.inf:
+        if self.lambda_ == 0:
+            # the shrunk weight is zero (DM), also where `iw` itself is zero (0/0 otherwise)
+            iw_hat = np.zeros_like(iw)
+        elif self.lambda_ < np.inf:
             iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
         else:
             iw_hat = iw
-- 
2.43.0


From 918aff3abeb9077ee2a285a70c4337d5997a1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:48 +0000
Subject: [PATCH 02/60] fix: balanced multi-logger estimators raised TypeError
 in estimate_interval

---
 obp/ope/estimators_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f5765f9..338b3c3 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -569,7 +569,7 @@ class MultiLoggersBalancedInverseProbabilityWeighting(
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             action_dist=action_dist,
         )
         return estimate_confidence_interval_by_bootstrap(
@@ -1473,7 +1473,7 @@ class MultiLoggersBalancedDoublyRobust(BaseMultiLoggersOffPolicyEstimator):
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             action_dist=action_dist,
         )
-- 
2.43.0


From df66f7a2c12bfdde6430bef373edf7c34da8596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:10 +0000
Subject: [PATCH 03/60] fix: weighted multi-logger estimators misindexed
 non-contiguous stratum labels

---
 obp/ope/estimators_multi.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index 338b3c3..a073e42 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -683,9 +683,12 @@ class MultiLoggersWeightedInverseProbabilityWeighting(
         if isinstance(iw, np.ndarray):
             iw = np.minimum(iw, self.lambda_)
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        # re-index strata, as some loggers might have no observation (labels not contiguous)
+        unique_stratum_idx, stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
+        for k in np.arange(unique_stratum_idx.shape[0]):
             idx_ = stratum_idx == k
             var_k[k] = np.var(reward[idx_] * iw[idx_])
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
@@ -1600,9 +1603,12 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
             axis=1,
         )
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        # re-index strata, as some loggers might have no observation (labels not contiguous)
+        unique_stratum_idx, stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
+        for k in np.arange(unique_stratum_idx.shape[0]):
             idx_ = stratum_idx == k
             var_k[k] = np.var(
                 estimated_rewards[idx_]
-- 
2.43.0


From 5bcb8722d4d3b4cfff6ccea8e9f5e459ffcc83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 04/60] fix: MultiLoggersWeightedDoublyRobust did not weight
 the baseline term of its documented formula

---
 obp/ope/estimators_multi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index a073e42..89f8cfb 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -1615,7 +1615,8 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
                 + iw[idx_] * (reward[idx_] - q_hat_factual[idx_])
             )
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
-        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx]
+        estimated_rewards += iw * (reward - q_hat_factual)
+        estimated_rewards *= weight_k[stratum_idx]
 
         return estimated_rewards
 
-- 
2.43.0


From d601838214244fc1765cb9a21e2e962f14f927c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 05/60] fix: MIPW and SNMIPW used the product of per-dimension
 marginals instead of the marginal embedding distribution

---
 obp/ope/estimators_embed.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e9b38ee..16b41bd 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -163,13 +163,13 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # joint probability of the observed embedding given each action
+            # (its dimensions are independent given the action, but not marginally)
+            p_e_a_ = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_a_ *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_a_).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_a_).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
@@ -688,13 +688,13 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # joint probability of the observed embedding given each action
+            # (its dimensions are independent given the action, but not marginally)
+            p_e_a_ = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_a_ *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_a_).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_a_).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
-- 
2.43.0


From 475fff7667d3c2a50f25371af45e824136a7c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 06/60] fix: MIPW embedding selection dropped the last accepted
 estimate and crashed when no dimension can be pruned

---
 obp/ope/estimators_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 16b41bd..7ad88a9 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -385,7 +385,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 else:
                     return theta_j[-1]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def _estimate_with_greedy_pruning(
         self,
@@ -473,7 +473,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def estimate_interval(
         self,
-- 
2.43.0


From a60bd14f6d8abc55b971ca0499333ca53a331f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:19 +0000
Subject: [PATCH 07/60] fix: SNMIPW was not self-normalized when embedding
 selection is used

---
 obp/ope/estimators_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 7ad88a9..17ecbaa 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -709,7 +709,7 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
             self.max_w_x_e = w_x_e.max()
 
         if with_dev:
-            r_hat = reward * w_x_e
+            r_hat = reward * w_x_e / w_x_e.mean()
             cnf = np.sqrt(np.var(r_hat) / (n - 1))
             cnf *= stats.t.ppf(1.0 - (self.delta / 2), n - 1)
 
-- 
2.43.0


From 79b61b8dbee5859381cbaf61ca3c52656ad2708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:01 +0000
Subject: [PATCH 08/60] fix: tuned sub-Gaussian estimators rejected
 use_estimated_pscore=True

---
 obp/ope/estimators_tuning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 2c31cea..e9add54 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -1355,6 +1355,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
         )
 
@@ -1435,6 +1436,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             alpha=alpha,
             n_bootstrap_samples=n_bootstrap_samples,
@@ -1564,6 +1566,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
         )
@@ -1655,6 +1658,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             alpha=alpha,
-- 
2.43.0


From 6421273ac949b1176d8674113a1e4dab4e2ec955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:01 +0000
Subject: [PATCH 09/60] fix: hyperparameter tuning reordered the caller's
 lambdas list in place

---
 obp/ope/estimators_tuning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index e9add54..adb9fdf 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -419,7 +419,7 @@ class InverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = InverseProbabilityWeighting
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -619,7 +619,7 @@ class DoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -839,7 +839,7 @@ class SwitchDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SwitchDoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -1059,7 +1059,7 @@ class DoublyRobustWithShrinkageTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobustWithShrinkage
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1288,7 +1288,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
         self.base_ope_estimator = SubGaussianInverseProbabilityWeighting
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1489,7 +1489,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SubGaussianDoublyRobust
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
-- 
2.43.0


From a5df30f2d4d5a8acf4345264916527f8ecb3a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:01 +0000
Subject: [PATCH 10/60] fix: kernelized estimators raised UFuncTypeError on
 integer-valued actions

---
 obp/ope/estimators_continuous.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators_continuous.py b/obp/ope/estimators_continuous.py
index 1bae79b..4cfa1de 100644
--- a/obp/ope/estimators_continuous.py
+++ b/obp/ope/estimators_continuous.py
@@ -156,8 +156,7 @@ class KernelizedInverseProbabilityWeighting(BaseContinuousOffPolicyEstimator):
 
         """
         kernel_func = kernel_functions[self.kernel]
-        u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = (action_by_evaluation_policy - action_by_behavior_policy) / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= self.bandwidth
         return estimated_rewards
@@ -382,8 +381,7 @@ class KernelizedSelfNormalizedInverseProbabilityWeighting(
         check_array(array=pscore, name="pscore", expected_dim=1)
 
         kernel_func = kernel_functions[self.kernel]
-        u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = (action_by_evaluation_policy - action_by_behavior_policy) / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= (kernel_func(u) / pscore).mean()
         return estimated_rewards
@@ -603,8 +601,7 @@ class KernelizedDoublyRobust(BaseContinuousOffPolicyEstimator):
 
         """
         kernel_func = kernel_functions[self.kernel]
-        u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = (action_by_evaluation_policy - action_by_behavior_policy) / self.bandwidth
         estimated_rewards = (
             kernel_func(u) * (reward - estimated_rewards_by_reg_model) / pscore
         )
-- 
2.43.0


From af685c437342526b93feb41e634213248c0ada6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:31 +0000
Subject: [PATCH 11/60] fix: OffPolicyEvaluation raised UnboundLocalError when
 p_e_a is given as an array

---
 obp/ope/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 6eff8bf..0d445db 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -184,9 +184,9 @@ class OffPolicyEvaluation:
                             f"Expected `{var_name}.shape[0] == action_dist.shape[0]`, but found it False"
                         )
                 else:
-                    if value.shape[0] != action_dist.shape[1]:
+                    if value_or_dict.shape[0] != action_dist.shape[1]:
                         raise ValueError(
-                            f"Expected `{var_name}[{estimator_name}].shape[0] == action_dist.shape[1]`, but found it False"
+                            f"Expected `{var_name}.shape[0] == action_dist.shape[1]`, but found it False"
                         )
 
         estimator_inputs = {
-- 
2.43.0


From 645649ad9e82e43e5c65f9992f4e2908db04f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:31 +0000
Subject: [PATCH 12/60] fix: visualizing several policies crashed with more
 estimators than policies

---
 obp/ope/meta.py            | 2 +-
 obp/ope/meta_continuous.py | 2 +-
 obp/ope/meta_multi.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 0d445db..a7aa9b1 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -979,7 +979,7 @@ class OffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index a12941e..60f0cff 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -655,7 +655,7 @@ class ContinuousOffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_by_evaluation_policy_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_multi.py b/obp/ope/meta_multi.py
index 3b08a6a..e8b8c72 100644
--- a/obp/ope/meta_multi.py
+++ b/obp/ope/meta_multi.py
@@ -774,7 +774,7 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
-- 
2.43.0


From 9b3ed068f0f456bafbae7e14cac2c2850e71edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:55 +0000
Subject: [PATCH 13/60] fix: figures ignored estimated propensities for
 estimators with use_estimated_pscore=True

---
 obp/ope/meta.py       | 6 ++++++
 obp/ope/meta_multi.py | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index a7aa9b1..a79972a 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -217,6 +217,12 @@ class OffPolicyEvaluation:
                     "p_e_a": p_e_a,
                 },
             )
+            if getattr(
+                self.ope_estimators_[estimator_name], "use_estimated_pscore", False
+            ):
+                estimator_inputs[estimator_name]["pscore"] = estimator_inputs[
+                    estimator_name
+                ]["estimated_pscore"]
         return estimator_inputs
 
     def _preprocess_model_based_input(
diff --git a/obp/ope/meta_multi.py b/obp/ope/meta_multi.py
index e8b8c72..3617b9c 100644
--- a/obp/ope/meta_multi.py
+++ b/obp/ope/meta_multi.py
@@ -196,6 +196,15 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
                     "estimated_pscore_avg": estimated_pscore_avg,
                 },
             )
+            if getattr(
+                self.ope_estimators_[estimator_name], "use_estimated_pscore", False
+            ):
+                estimator_inputs[estimator_name]["pscore"] = estimator_inputs[
+                    estimator_name
+                ]["estimated_pscore"]
+                estimator_inputs[estimator_name]["pscore_avg"] = estimator_inputs[
+                    estimator_name
+                ]["estimated_pscore_avg"]
         return estimator_inputs
 
     def estimate_policy_values(
-- 
2.43.0


From 26b251ae014d59ce6df9f114e11fcbb986176850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:28 +0000
Subject: [PATCH 14/60] fix: figures of SNDR, Switch-DR, DRos, sub-Gaussian and
 MIPW estimators were wrong or crashed without position

---
 obp/ope/estimators.py       | 10 ++++++++++
 obp/ope/estimators_embed.py |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index ab2d4d1..8bee176 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -1340,6 +1340,8 @@ class SelfNormalizedDoublyRobust(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         q_hat_at_position = estimated_rewards_by_reg_model[np.arange(n), :, position]
@@ -1460,6 +1462,8 @@ class SwitchDoublyRobust(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         switch_indicator = np.array(iw <= self.lambda_, dtype=int)
@@ -1665,6 +1669,8 @@ class DoublyRobustWithShrinkage(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ == 0:
@@ -1873,6 +1879,8 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         iw = action_dist[np.arange(action.shape[0]), action, position] / pscore
         iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
         estimated_rewards = iw_hat * reward
@@ -2061,6 +2069,8 @@ class SubGaussianDoublyRobust(DoublyRobust):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 17ecbaa..2ed4ae7 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -161,6 +161,8 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = reward.shape[0]
         if p_e_a is not None:
             # joint probability of the observed embedding given each action
@@ -686,6 +688,8 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
             Estimated rewards for each observation.
 
         """
+        if position is None:
+            position = np.zeros(action_dist.shape[0], dtype=int)
         n = reward.shape[0]
         if p_e_a is not None:
             # joint probability of the observed embedding given each action
-- 
2.43.0


From 89f3f431e9fa5a5a24172dcf5012a9e775a92e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:40 +0000
Subject: [PATCH 15/60] fix: estimators accepted logged data and action_dist
 with different numbers of rounds

---
 obp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/utils.py b/obp/utils.py
index d3e9780..37d62f8 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -387,9 +387,9 @@ def check_ope_inputs(
     if action is not None or reward is not None:
         check_array(array=action, name="action", expected_dim=1)
         check_array(array=reward, name="reward", expected_dim=1)
-        if not (action.shape[0] == reward.shape[0]):
+        if not (action.shape[0] == reward.shape[0] == action_dist.shape[0]):
             raise ValueError(
-                "Expected `action.shape[0] == reward.shape[0]`, but found it False"
+                "Expected `action.shape[0] == reward.shape[0] == action_dist.shape[0]`, but found it False"
             )
         if not (
             np.issubdtype(action.dtype, np.integer)
-- 
2.43.0


From 6e582e0c3ce3d1c07fbb267c28f841b180e3dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:20 +0000
Subject: [PATCH 16/60] fix: predict of the propensity and importance weight
 estimators ignored position=None

---
 obp/ope/classification_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index b2c307c..e5c7fc0 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -203,6 +203,10 @@ class ImportanceWeightEstimator(BaseEstimator):
             Importance weights estimated via supervised classification, i.e., :math:`\\hat{w}(x_t, a_t)`.
 
         """
+        if self.len_list == 1:
+            position = np.zeros_like(action)
+        elif position is None:
+            raise ValueError("When `self.len_list > 1`, `position` must be given.")
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
@@ -521,6 +525,10 @@ class PropensityScoreEstimator(BaseEstimator):
             Estimated propensity scores, i.e., :math:`\\hat{\\pi}_b (a \\mid x)`.
 
         """
+        if self.len_list == 1:
+            position = np.zeros_like(action)
+        elif position is None:
+            raise ValueError("When `self.len_list > 1`, `position` must be given.")
         estimated_pscore = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
-- 
2.43.0


From ff51af891eeb3866ced0f8e3fd1cf727186fcfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:20 +0000
Subject: [PATCH 17/60] fix: propensity scores were taken from the wrong column
 when an action is missing in the training data

---
 obp/ope/classification_model.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index e5c7fc0..f58bb43 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -534,11 +534,18 @@ class PropensityScoreEstimator(BaseEstimator):
             idx = position == pos_
             if context[idx].shape[0] == 0:
                 continue
-            estimated_pscore[idx] = self.base_model_list[pos_].predict_proba(
-                context[idx]
-            )[np.arange(action[idx].shape[0]), action[idx]]
+            estimated_pscore[idx] = self._predict_proba(context[idx], pos_)[
+                np.arange(action[idx].shape[0]), action[idx]
+            ]
         return estimated_pscore
 
+    def _predict_proba(self, context: np.ndarray, position_: int) -> np.ndarray:
+        """Predict the probability of every action, which is zero if it is not in the training data."""
+        base_model = self.base_model_list[position_]
+        proba = np.zeros((context.shape[0], self.n_actions))
+        proba[:, base_model.classes_] = base_model.predict_proba(context)
+        return proba
+
     def fit_predict(
         self,
         context: np.ndarray,
@@ -633,9 +640,7 @@ class PropensityScoreEstimator(BaseEstimator):
                     idx = position[test_idx] == pos_
                     if context[test_idx][idx].shape[0] == 0:
                         continue
-                    proba_eval = self.base_model_list[pos_].predict_proba(
-                        context[test_idx][idx]
-                    )
+                    proba_eval = self._predict_proba(context[test_idx][idx], pos_)
                     self.eval_result["proba"].append(proba_eval)
                     self.eval_result["y"].append(action[test_idx][idx])
         return estimated_pscore
-- 
2.43.0


From 2fe92791015c3de129de6fb78f687c85bde92d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:20 +0000
Subject: [PATCH 18/60] fix: importance weight estimation crashed when a
 position is absent from the predicted data

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index f58bb43..99a72a3 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -210,6 +210,8 @@ class ImportanceWeightEstimator(BaseEstimator):
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
+            if context[idx].shape[0] == 0:
+                continue
             X, _, = self._pre_process_for_clf_model(
                 context=context[idx],
                 action=action[idx],
@@ -337,6 +339,8 @@ class ImportanceWeightEstimator(BaseEstimator):
                         sampled_action[idx] = sampled_action_at_position
                 for pos_ in np.arange(self.len_list):
                     idx = position[test_idx] == pos_
+                    if context[test_idx][idx].shape[0] == 0:
+                        continue
                     action_dist_at_pos = action_dist[test_idx][idx][:, :, pos_]
                     X, y = self._pre_process_for_clf_model(
                         context=context[test_idx][idx],
-- 
2.43.0


From e7d8fb710470133a796f09182514053911f41ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:41 +0000
Subject: [PATCH 19/60] fix: continuous rewards of synthetic data reused the
 random numbers that sampled the actions

---
 obp/dataset/synthetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index f1f0232..6873fb9 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,7 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
         else:
             raise NotImplementedError
-- 
2.43.0


From 9162dbaefe5ca42fd4fbfadbf018598978660568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:41 +0000
Subject: [PATCH 20/60] fix: expected_reward of continuous synthetic data was
 not the mean of the sampled rewards

---
 obp/dataset/synthetic.py       | 4 ++--
 obp/dataset/synthetic_multi.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 6873fb9..85889f5 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -327,9 +327,9 @@ class SyntheticBanditDataset(BaseBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        mean = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
-            mean = expected_reward_
             a = (self.reward_min - mean) / self.reward_std
             b = (self.reward_max - mean) / self.reward_std
             expected_reward_ = truncnorm.stats(
@@ -365,7 +365,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         actions = sample_action_fast(pi_b, random_state=self.random_state)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(mean, actions)
 
         return dict(
             n_rounds=n_rounds,
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 1bf3f8a..9372965 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -270,9 +270,9 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        mean = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
-            mean = expected_reward_
             a = (self.reward_min - mean) / self.reward_std
             b = (self.reward_max - mean) / self.reward_std
             expected_reward_ = truncnorm.stats(
@@ -305,7 +305,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
             pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(mean, actions)
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From c34533747fb474a3da6de71332faf89778fbec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:12 +0000
Subject: [PATCH 21/60] fix: multi-logger data with deficient actions ignored
 betas and averaged policies over unsupported actions

---
 obp/dataset/synthetic_multi.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 9372965..3af7b98 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -293,7 +293,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
                 supported_actions,
             )
             pi_b[supported_actions_idx] = softmax(
-                self.beta * pi_b_logits[supported_actions_idx]
+                beta_ * pi_b_logits[supported_actions_idx]
             )
         else:
             pi_b = softmax(beta_ * pi_b_logits)
@@ -302,7 +302,12 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-            pi_b_avg += rho * softmax(beta * pi_b_logits)
+            if self.n_deficient_actions > 0:
+                pi_b_avg[supported_actions_idx] += rho * softmax(
+                    beta * pi_b_logits[supported_actions_idx]
+                )
+            else:
+                pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(mean, actions)
-- 
2.43.0


From 3ada8b96ed29feda64e46d092e3a96ebbe21b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:12 +0000
Subject: [PATCH 22/60] fix: multi-logger data generation crashed when rounding
 makes the last stratum negative

---
 obp/dataset/synthetic_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 3af7b98..a871c6f 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -259,8 +259,8 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
 
-        n_rounds_strata = [int(np.round(n_rounds * rho)) for rho in self.rhos]
-        n_rounds_strata[-1] += n_rounds - np.sum(n_rounds_strata)
+        last_rounds = np.round(n_rounds * np.cumsum(self.rhos)).astype(int)
+        n_rounds_strata = np.diff(last_rounds, prepend=0)
         stratum_idx = np.concatenate(
             [np.ones(n_k, dtype=int) * k for k, n_k in enumerate(n_rounds_strata)]
         )
-- 
2.43.0


From 31ad75ffac319da462ac5bc3803e3fe86bac43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:03 +0000
Subject: [PATCH 23/60] fix: repeated batches of synthetic data reused the same
 random numbers for actions and embeddings

---
 obp/dataset/synthetic.py       | 2 +-
 obp/dataset/synthetic_embed.py | 4 ++--
 obp/dataset/synthetic_multi.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 85889f5..79ec4da 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -362,7 +362,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         else:
             pi_b = softmax(self.beta * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(mean, actions)
diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 013d904..415dcb0 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -306,14 +306,14 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
             )
         else:
             pi_b = softmax(self.beta * pi_b_logits)
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample action embeddings based on sampled actions
         action_embed = np.zeros((n_rounds, self.n_cat_dim), dtype=int)
         for d in np.arange(self.n_cat_dim):
             action_embed[:, d] = sample_action_fast(
                 self.p_e_a[actions, :, d],
-                random_state=d,
+                random_state=self.random_,
             )
 
         # sample rewards given the context and action embeddings
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index a871c6f..b36303d 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -298,7 +298,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         else:
             pi_b = softmax(beta_ * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-- 
2.43.0


From 8865cbdc35a334ec4ef4ee53d4173c5b8134fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:40 +0000
Subject: [PATCH 24/60] fix: z_score of the synthetic reward functions did not
 standardize the expected rewards

---
 obp/dataset/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 79ec4da..d9298ae 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -824,8 +824,8 @@ def _base_reward_function(
     expected_rewards = context_values + action_values + context_action_values
     if z_score:
         expected_rewards = (
-            expected_rewards - expected_rewards.mean() / expected_rewards.std()
-        )
+            expected_rewards - expected_rewards.mean()
+        ) / expected_rewards.std()
 
     expected_rewards = degree * expected_rewards
 
-- 
2.43.0


From ffdef01e5f95ce28187ee201c2d8f70cd69eceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:04 +0000
Subject: [PATCH 25/60] fix: batches of synthetic data with action embeddings
 came from different reward functions

---
 obp/dataset/synthetic_embed.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 415dcb0..61637fb 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -246,6 +246,13 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
                 self.p_e_a[np.arange(self.n_actions, dtype=int), :, d],
                 random_state=self.random_state + d,
             )
+        # the importance of each category dimension for the expected rewards
+        cat_dim_importance = np.zeros(self.n_cat_dim)
+        cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
+            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
+            size=1,
+        )
+        self.cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
 
     def obtain_batch_bandit_feedback(self, n_rounds: int) -> BanditFeedback:
         """Obtain batch logged bandit data.
@@ -263,12 +270,7 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         """
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
-        cat_dim_importance = np.zeros(self.n_cat_dim)
-        cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
-            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
-            size=1,
-        )
-        cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
+        cat_dim_importance = self.cat_dim_importance
 
         # calc expected rewards given context and action (n_data, n_actions)
         q_x_e = np.zeros((n_rounds, self.n_cat_per_dim, self.n_cat_dim))
-- 
2.43.0


From a010ae5a59a9db86500feb102e7da2045a81e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:16 +0000
Subject: [PATCH 26/60] fix: synthetic data with action embeddings could get
 nan importances of the embedding dimensions

---
 obp/dataset/synthetic_embed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 61637fb..3a8657d 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -249,7 +249,10 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         # the importance of each category dimension for the expected rewards
         cat_dim_importance = np.zeros(self.n_cat_dim)
         cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
-            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
+            # tiny concentration parameters make the Dirichlet samples underflow to nan
+            alpha=self.random_.uniform(
+                low=0.1, size=self.n_cat_dim - self.n_irrelevant_cat_dim
+            ),
             size=1,
         )
         self.cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
-- 
2.43.0


From 8fc470f55424e67a559a92c17f6fed6a25f18f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:02 +0000
Subject: [PATCH 27/60] fix: multi-class reduction crashed or misaligned
 rewards when class labels are not 0..K-1

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 1341d6b..95c50b5 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -183,7 +183,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
         self.y = (rankdata(y, "dense") - 1).astype(int)  # re-index actions
         # fully observed labels (full bandit feedback)
         self.y_full = np.zeros((self.n_rounds, self.n_actions))
-        self.y_full[np.arange(self.n_rounds), y] = 1
+        self.y_full[np.arange(self.n_rounds), self.y] = 1
 
     @property
     def len_list(self) -> int:
-- 
2.43.0


From 64f582e26bb36c26d986c15a27aad7a135b47436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:02 +0000
Subject: [PATCH 28/60] fix: multi-class reduction sampled actions with the
 random numbers that chose the deficient actions

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 95c50b5..5ba73ba 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -274,7 +274,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
                 :, np.newaxis
             ]  # re-normalize the probability distribution
         # sample actions and factual rewards
-        actions = sample_action_fast(pi_b, random_state=random_state)
+        actions = sample_action_fast(pi_b, random_state=random_)
         rewards = self.y_full_ev[np.arange(self.n_rounds_ev), actions]
 
         return dict(
-- 
2.43.0


From 2c1401927f44d30f4d48546e97aa25213deaf29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:38 +0000
Subject: [PATCH 29/60] fix: continuous actions reused the random numbers of
 the contexts and of earlier batches

---
 obp/dataset/synthetic_continuous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 0c16e22..9a01fb6 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,7 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = truncnorm.pdf(
                 action, a, b, loc=expected_action_values, scale=self.action_noise
@@ -195,7 +195,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 loc=self.min_action_value,
                 scale=(self.max_action_value - self.min_action_value),
                 size=n_rounds,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = uniform.pdf(
                 action,
-- 
2.43.0


From 4751ac8c4e9d6edba4e1a98e1d51ccc78c22cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 30/60] fix: slate data used the expected rewards of the wrong
 contexts

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index a7d369c..820b964 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1427,7 +1427,7 @@ def action_interaction_reward_function(
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
     action_2d = action.reshape((-1, len_list)).astype("int8")
-    n_enumerated_slate_actions = len(action) // n_rounds
+    n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
         context=context, action_context=action_context, random_state=random_state
-- 
2.43.0


From c8c4914e7c8a47a85d0f7315310cfdaca7d2ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 31/60] fix: cascade_decay slate rewards had no interaction
 between positions

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 820b964..3e5a3db 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1463,7 +1463,7 @@ def action_interaction_reward_function(
                     np.arange(len(action_2d)) // n_enumerated_slate_actions,
                     action_2d[:, pos2_],
                 ]
-                weight_ = action_interaction_weight_matrix[pos_, pos2_]
+                weight_ = action_interaction_weight_matrix[pos2_, pos_]
                 tmp_fixed_reward += expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
-- 
2.43.0


From 304b750328df608da7e4813121b9011fa8343920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 32/60] fix: slate rewards were those of other actions with
 more than 128 unique actions

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 3e5a3db..2c2a62c 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -913,7 +913,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             enumerated_slate_actions = [
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
-        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int8")
+        enumerated_slate_actions = np.array(enumerated_slate_actions)
         n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
@@ -1426,7 +1426,7 @@ def action_interaction_reward_function(
     if is_enumerated:
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
-    action_2d = action.reshape((-1, len_list)).astype("int8")
+    action_2d = action.reshape((-1, len_list))
     n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
-- 
2.43.0


From f9d82e022e899dfd3ed3bda4d27688482aff3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 33/60] fix: continuous slate rewards used the same random
 numbers in every position and batch

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 2c2a62c..637f019 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -719,7 +719,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     b=b,
                     loc=mean,
                     scale=self.reward_std,
-                    random_state=self.random_state,
+                    random_state=self.random_,
                 )
         else:
             raise NotImplementedError
-- 
2.43.0


From 86132ba6817093b6aadd80c7154ddf31449acae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 34/60] fix: optimal and anti-optimal slate evaluation policies
 were swapped

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 637f019..e61c045 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1124,12 +1124,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 epsilon, name="epsilon", target_type=(float), min_val=0.0, max_val=1.0
             )
             if evaluation_policy_type == "optimal":
-                sorted_actions = base_expected_reward.argsort(axis=1)[
+                sorted_actions = base_expected_reward.argsort(axis=1)[:, ::-1][
                     :, : self.len_list
                 ]
             else:
                 sorted_actions = base_expected_reward.argsort(axis=1)[
-                    :, -self.len_list :
+                    :, : self.len_list
                 ]
             (
                 pscore,
-- 
2.43.0


From 5a6c897c3dbcfba06a73f667955ed26e33e01e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 35/60] fix: ground-truth value of context-free slate data was
 not averaged over rounds and ignored the click model

---
 obp/dataset/synthetic_slate.py | 39 +++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index e61c045..7a19bf2 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -867,6 +867,23 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _apply_click_model_to_expected_reward(
+        self, expected_reward: np.ndarray
+    ) -> np.ndarray:
+        """Apply the click model to the expected rewards of each slot of slates."""
+        expected_reward = expected_reward * self.exam_weight
+        if self.reward_type == "binary":
+            discount_factors = np.ones(expected_reward.shape[0])
+            previous_slot_expected_reward = np.zeros(expected_reward.shape[0])
+            for pos_ in np.arange(self.len_list):
+                discount_factors *= (
+                    previous_slot_expected_reward * self.attractiveness[pos_]
+                    + (1 - previous_slot_expected_reward)
+                )
+                expected_reward[:, pos_] = discount_factors * expected_reward[:, pos_]
+                previous_slot_expected_reward = expected_reward[:, pos_]
+        return expected_reward
+
     def calc_ground_truth_policy_value(
         self,
         context: np.ndarray,
@@ -961,7 +978,11 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for pos_ in np.arange(self.len_list)
                 ]
             ).T
+            expected_slate_rewards = self._apply_click_model_to_expected_reward(
+                expected_slate_rewards
+            )
             policy_value = (pscores * expected_slate_rewards.sum(axis=1)).sum()
+            policy_value /= n_rounds
         else:
             n_batch = (
                 n_rounds * n_enumerated_slate_actions * self.len_list - 1
@@ -996,21 +1017,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 )
 
                 # click models based on expected reward
-                expected_slate_rewards_ *= self.exam_weight
-                if self.reward_type == "binary":
-                    discount_factors = np.ones(expected_slate_rewards_.shape[0])
-                    previous_slot_expected_reward = np.zeros(
-                        expected_slate_rewards_.shape[0]
-                    )
-                    for pos_ in np.arange(self.len_list):
-                        discount_factors *= (
-                            previous_slot_expected_reward * self.attractiveness[pos_]
-                            + (1 - previous_slot_expected_reward)
-                        )
-                        expected_slate_rewards_[:, pos_] = (
-                            discount_factors * expected_slate_rewards_[:, pos_]
-                        )
-                        previous_slot_expected_reward = expected_slate_rewards_[:, pos_]
+                expected_slate_rewards_ = self._apply_click_model_to_expected_reward(
+                    expected_slate_rewards_
+                )
 
                 policy_value += (
                     pscores_.flatten() * expected_slate_rewards_.sum(axis=1)
-- 
2.43.0


From 40364e9cd0a76cfc43faa1c6d706d458a6e19c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 36/60] fix: ground-truth value under the cascade click model
 was not the expectation of the sampled rewards

---
 obp/dataset/synthetic_slate.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 7a19bf2..249b6a4 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -873,15 +873,19 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         """Apply the click model to the expected rewards of each slot of slates."""
         expected_reward = expected_reward * self.exam_weight
         if self.reward_type == "binary":
-            discount_factors = np.ones(expected_reward.shape[0])
-            previous_slot_expected_reward = np.zeros(expected_reward.shape[0])
+            click_prob = expected_reward.copy()
+            # moments[j - 1] is the expectation of the j-th power of the discount factor,
+            # which is random because it depends on the clicks at the previous positions
+            moments = np.ones((self.len_list + 1, expected_reward.shape[0]))
+            power = np.arange(1, self.len_list + 1)[:, np.newaxis]
             for pos_ in np.arange(self.len_list):
-                discount_factors *= (
-                    previous_slot_expected_reward * self.attractiveness[pos_]
-                    + (1 - previous_slot_expected_reward)
-                )
-                expected_reward[:, pos_] = discount_factors * expected_reward[:, pos_]
-                previous_slot_expected_reward = expected_reward[:, pos_]
+                if pos_ > 0:
+                    moments[:-1] -= (
+                        (1 - self.attractiveness[pos_] ** power)
+                        * click_prob[:, pos_ - 1]
+                        * moments[1:]
+                    )
+                expected_reward[:, pos_] = moments[0] * click_prob[:, pos_]
         return expected_reward
 
     def calc_ground_truth_policy_value(
-- 
2.43.0


From 8e6e1911eefe0872a8156defb420f0d7aee593a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:26 +0000
Subject: [PATCH 37/60] fix: expected rewards and ground-truth values of
 continuous slate data ignored the truncation at zero

---
 obp/dataset/synthetic_slate.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 249b6a4..6bc7151 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -823,6 +823,8 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
+        if self.reward_type == "continuous":
+            expected_reward_factual = self._calc_truncated_mean(expected_reward_factual)
 
         return dict(
             n_rounds=n_rounds,
@@ -867,6 +869,13 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _calc_truncated_mean(self, mean: np.ndarray) -> np.ndarray:
+        """Calculate the mean of the truncated normal distribution of continuous rewards."""
+        mean = mean.astype(float)
+        a = (self.reward_min - mean) / self.reward_std
+        b = (self.reward_max - mean) / self.reward_std
+        return truncnorm.stats(a=a, b=b, loc=mean, scale=self.reward_std, moments="m")
+
     def _apply_click_model_to_expected_reward(
         self, expected_reward: np.ndarray
     ) -> np.ndarray:
@@ -886,6 +895,8 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                         * moments[1:]
                     )
                 expected_reward[:, pos_] = moments[0] * click_prob[:, pos_]
+        else:
+            expected_reward = self._calc_truncated_mean(expected_reward)
         return expected_reward
 
     def calc_ground_truth_policy_value(
-- 
2.43.0


From 7cfda0050b597c6f51d4563227bdf45308e946c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:29 +0000
Subject: [PATCH 38/60] fix: batches of one round lost the shape (n_rounds,) of
 continuous actions and rewards

---
 obp/dataset/synthetic.py            | 1 +
 obp/dataset/synthetic_continuous.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index d9298ae..0aa5757 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,6 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
+                size=mean.shape,
                 random_state=self.random_,
             )
         else:
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 9a01fb6..51fe14b 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,6 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
+                size=n_rounds,
                 random_state=self.random_,
             )
             pscore = truncnorm.pdf(
-- 
2.43.0


From d3496b20d8fa89f0c0cc39a47eed5866d863f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 39/60] fix: initialize() of the contextual policies kept what
 they had learned

---
 obp/policy/linear.py   | 9 +++++++++
 obp/policy/logistic.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 8cf4f87..49906fb 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -41,6 +41,15 @@ class BaseLinPolicy(BaseContextualPolicy):
     def __post_init__(self) -> None:
         """Initialize class."""
         super().__post_init__()
+        self._initialize_params()
+
+    def initialize(self) -> None:
+        """Initialize Parameters."""
+        super().initialize()
+        self._initialize_params()
+
+    def _initialize_params(self) -> None:
+        """Initialize parameters of the linear models."""
         self.theta_hat = np.zeros((self.dim, self.n_actions))
         self.A_inv = np.concatenate(
             [np.identity(self.dim) for _ in np.arange(self.n_actions)]
diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c13f72b..49b1083 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -58,6 +58,15 @@ class BaseLogisticPolicy(BaseContextualPolicy):
         if self.lambda_ <= 0.0:
             raise ValueError(f"`lambda_`= {self.lambda_}, must be > 0.0.")
 
+        self._initialize_models()
+
+    def initialize(self) -> None:
+        """Initialize Parameters."""
+        super().initialize()
+        self._initialize_models()
+
+    def _initialize_models(self) -> None:
+        """Initialize the logistic regression models."""
         self.alpha_list = self.alpha_ * np.ones(self.n_actions)
         self.lambda_list = self.lambda_ * np.ones(self.n_actions)
         self.model_list = [
-- 
2.43.0


From a1800a124e3eea4e20a03bbef13f6f29b3e12a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 40/60] fix: LogisticTS sampled the coefficients of all actions
 with the same random numbers

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 49b1083..5fb24a0 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -74,7 +74,7 @@ class BaseLogisticPolicy(BaseContextualPolicy):
                 lambda_=self.lambda_list[i],
                 alpha=self.alpha_list[i],
                 dim=self.dim,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             for i in np.arange(self.n_actions)
         ]
-- 
2.43.0


From c3cbb8e4c9b878ee7e058d54cd416b95cc35f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 41/60] fix: logistic policies ignored rounds without reward

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 5fb24a0..2ad167c 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -350,7 +350,7 @@ class MiniBatchLogisticRegression:
         self._m = minimize(
             self.loss,
             self._m,
-            args=(X, y),
+            args=(X, 2 * y - 1),  # the loss is defined for labels in {-1, 1}
             jac=self.grad,
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
-- 
2.43.0


From a62aba327dd13f881dfc8eed0604a98090aa70c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 42/60] fix: posterior variance of the logistic policies was
 not that of the Laplace approximation

---
 obp/policy/logistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 2ad167c..7771b01 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -355,12 +355,12 @@ class MiniBatchLogisticRegression:
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
         ).x
-        P = (1 + np.exp(1 + X.dot(self._m))) ** (-1)
+        P = self.predict_proba(X)
         self._q = self._q + (P * (1 - P)).dot(X**2)
 
     def sd(self) -> np.ndarray:
         """Standard deviation for the coefficient vector."""
-        return self.alpha * (self._q) ** (-1.0)
+        return self.alpha * (self._q) ** (-0.5)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
         """Predict extected probability by the expected coefficient."""
-- 
2.43.0


From bd46d71a488890996f6be444231169ff3ac78175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 43/60] fix: run_bandit_replay raised TypeError

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index dd8fc53..584d142 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -1,5 +1,5 @@
 import numpy as np
-import tqdm as tqdm
+from tqdm import tqdm
 
 from obp.policy.policy_type import PolicyType
 from obp.simulator.simulator import BanditPolicy
-- 
2.43.0


From b1f1b917f86e8dd5360f8ea5f270403fbdce1373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 44/60] fix: run_bandit_replay failed when the policy selected
 actions beyond the logged ones

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 584d142..66ae6f6 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -76,7 +76,7 @@ def run_bandit_replay(
         selected_actions_list.append(selected_actions)
 
     action_dist = convert_to_action_dist(
-        n_actions=bandit_feedback["action"].max() + 1,
+        n_actions=policy_.n_actions,
         selected_actions=np.array(selected_actions_list),
     )
     return action_dist
-- 
2.43.0


From 505d379f88160997319024313c8533ec383d07bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 45/60] fix: run_bandit_replay modified the given bandit
 feedback

---
 obp/simulator/replay.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 66ae6f6..4c06fec 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -42,15 +42,14 @@ def run_bandit_replay(
     policy_ = policy
     selected_actions_list = list()
     dim_context = bandit_feedback["context"].shape[1]
-    if bandit_feedback["position"] is None:
-        bandit_feedback["position"] = np.zeros_like(
-            bandit_feedback["action"], dtype=int
-        )
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
     for action_, reward_, position_, context_ in tqdm(
         zip(
             bandit_feedback["action"],
             bandit_feedback["reward"],
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
         ),
         total=bandit_feedback["n_rounds"],
-- 
2.43.0


From 6ab7a74ed4cb020aa7dabcc4ecf3a37e6aacf49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 46/60] fix: simulating contextual policies round by round
 crashed

---
 obp/simulator/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6f27b4d..3688902 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -239,7 +239,7 @@ class BanditEnvironmentSimulator:
         return BanditRound(
             n_actions=self.n_actions,
             context=context,
-            action_context=self.action_context[0],
+            action_context=self.action_context,
             rewards=rewards[0],
             expected_rewards=expected_reward_[0],
             round_delays=round_delays,
@@ -372,7 +372,7 @@ class BanditPolicySimulator:
             selected_action = self.policy.select_action()[0]
         elif self.policy.policy_type == PolicyType.CONTEXTUAL:
             selected_action = self.policy.select_action(
-                np.expand_dims(self.current_round.context, axis=0)
+                np.reshape(self.current_round.context, (1, -1))
             )[0]
         else:
             raise RuntimeError(
@@ -426,7 +426,7 @@ class BanditPolicySimulator:
             self.policy.update_params(
                 action=action,
                 reward=reward,
-                context=np.expand_dims(context, axis=0),
+                context=np.reshape(context, (1, -1)),
             )
 
 
-- 
2.43.0


From 19def7ec4eb3e1d40c4b254c80ddd9715d24178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 47/60] fix: calc_ground_truth_policy_value crashed without
 positions and with batch updates of logistic policies

---
 obp/simulator/simulator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 3688902..35827e2 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -477,11 +477,14 @@ def calc_ground_truth_policy_value(
 
     cumulative_reward = 0.0
     dim_context = bandit_feedback["context"].shape[1]
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
 
     for _ in tqdm(np.arange(n_sim), total=n_sim):
         policy_ = deepcopy(policy)
         for position_, context_, expected_reward_ in zip(
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
             bandit_feedback["expected_reward"],
         ):
@@ -495,9 +498,9 @@ def calc_ground_truth_policy_value(
                 )
             action = selected_actions[position_]
             # sample reward
-            reward = reward_sampler(
-                context_.reshape(1, dim_context), np.array([action])
-            )
+            reward = np.ravel(
+                reward_sampler(context_.reshape(1, dim_context), np.array([action]))
+            )[0]
             cumulative_reward += expected_reward_[action]
 
             # update parameters of a bandit policy
-- 
2.43.0


From aead9d2d6473d926abfd9a278a063c6243db89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 48/60] fix: all simulations of calc_ground_truth_policy_value
 used the same random numbers of the policy

---
 obp/simulator/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 35827e2..6accc58 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -481,8 +481,10 @@ def calc_ground_truth_policy_value(
     if position is None:
         position = np.zeros_like(bandit_feedback["action"], dtype=int)
 
+    # the simulations share one generator so that each has its own random numbers
+    random_ = deepcopy(policy.random_)
     for _ in tqdm(np.arange(n_sim), total=n_sim):
-        policy_ = deepcopy(policy)
+        policy_ = deepcopy(policy, {id(policy.random_): random_})
         for position_, context_, expected_reward_ in zip(
             position,
             bandit_feedback["context"],
-- 
2.43.0


From 00451f0294d7306e8f1128e822d7722f9d9b9b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:58 +0000
Subject: [PATCH 49/60] fix: coefficient drift depended on how the rounds were
 split into batches

---
 obp/simulator/coefficient_drifter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/coefficient_drifter.py b/obp/simulator/coefficient_drifter.py
index 75cba87..2106a75 100644
--- a/obp/simulator/coefficient_drifter.py
+++ b/obp/simulator/coefficient_drifter.py
@@ -193,7 +193,7 @@ class CoefficientDrifter:
 
         shift_remainder = self.available_rounds - rounds
         if shift_remainder > 0:
-            transition_steps = transition_steps[shift_remainder:]
+            transition_steps = transition_steps[:rounds]
 
         weights = transition_steps / (self.transition_period + 1)
 
-- 
2.43.0


From 03a0f3b686cf8864ac315656bc2da5af24d6bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 50/60] fix: the policy name of Random was replaced by that of
 EpsilonGreedy

---
 obp/policy/contextfree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/obp/policy/contextfree.py b/obp/policy/contextfree.py
index 0067d14..3caba3c 100644
--- a/obp/policy/contextfree.py
+++ b/obp/policy/contextfree.py
@@ -122,6 +122,12 @@ class Random(EpsilonGreedy):
 
     policy_name: str = "random"
 
+    def __post_init__(self) -> None:
+        """Initialize Class."""
+        policy_name = self.policy_name
+        super().__post_init__()
+        self.policy_name = policy_name
+
     def compute_batch_action_dist(
         self,
         n_rounds: int = 1,
-- 
2.43.0


From cc59b701390ccc6e67a871de5c4373c442b80848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:22 +0000
Subject: [PATCH 51/60] fix: IPWLearner failed when some actions are not
 observed in the training data

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 21041ac..fe44215 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -238,7 +238,9 @@ class IPWLearner(BaseOfflinePolicyLearner):
             score_predicteds_at_position = self.base_classifier_list[p].predict_proba(
                 context
             )
-            score_predicted[:, :, p] = score_predicteds_at_position
+            # actions that are not observed in the training data have no score
+            observed_actions = self.base_classifier_list[p].classes_
+            score_predicted[:, observed_actions, p] = score_predicteds_at_position
         return score_predicted
 
     def sample_action(
-- 
2.43.0


From 7bbb101e1463538270b175dee5fa3a8496c401c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:22 +0000
Subject: [PATCH 52/60] fix: QLearner could not be fitted with 'iw' and 'mrdr'

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index fe44215..6cfa385 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -442,7 +442,9 @@ class QLearner(BaseOfflinePolicyLearner):
             if position is None:
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
 
-        unif_action_dist = np.ones((context.shape[0], self.n_actions, self.len_list))
+        unif_action_dist = (
+            np.ones((context.shape[0], self.n_actions, self.len_list)) / self.n_actions
+        )
         self.q_estimator.fit(
             context=context,
             action=action,
-- 
2.43.0


From 75ca60ea093d77673c476ff0c7d4654b56a81256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 53/60] fix: NN policy learners modified the given
 q_func_estimator_hyperparams

---
 obp/policy/offline.py            | 8 ++++++--
 obp/policy/offline_continuous.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 6cfa385..636abaf 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -946,8 +946,12 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
         if self.off_policy_objective in ["dr", "dm"]:
             if self.q_func_estimator_hyperparams is not None:
-                self.q_func_estimator_hyperparams["n_actions"] = self.n_actions
-                self.q_func_estimator_hyperparams["dim_context"] = self.dim_context
+                # do not modify the dictionary given by the user
+                self.q_func_estimator_hyperparams = {
+                    **self.q_func_estimator_hyperparams,
+                    "n_actions": self.n_actions,
+                    "dim_context": self.dim_context,
+                }
                 self.q_func_estimator = QFuncEstimator(
                     **self.q_func_estimator_hyperparams
                 )
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index 8ce6a69..edf0bea 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -294,7 +294,11 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
 
         if self.pg_method != "ipw":
             if self.q_func_estimator_hyperparams is not None:
-                self.q_func_estimator_hyperparams["dim_context"] = self.dim_context
+                # do not modify the dictionary given by the user
+                self.q_func_estimator_hyperparams = {
+                    **self.q_func_estimator_hyperparams,
+                    "dim_context": self.dim_context,
+                }
                 self.q_func_estimator = QFuncEstimatorForContinuousAction(
                     **self.q_func_estimator_hyperparams
                 )
-- 
2.43.0


From 7f8146145fc063146079a99dcffdf454446f29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:14 +0000
Subject: [PATCH 54/60] fix: a mini-batch of one round made all parameters of
 NNPolicyLearner NaN

---
 obp/policy/offline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 636abaf..f9ad640 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1162,7 +1162,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                 )
                 loss = -policy_grad_arr.mean()
                 loss += self.policy_reg_param * policy_constraint
-                loss += self.var_reg_param * torch.var(policy_grad_arr)
+                if policy_grad_arr.shape[0] > 1:  # no variance in a mini-batch of size one
+                    loss += self.var_reg_param * torch.var(policy_grad_arr)
                 loss.backward()
                 optimizer.step()
 
@@ -1195,7 +1196,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                     )
                     loss = -policy_grad_arr.mean()
                     loss += self.policy_reg_param * policy_constraint
-                    loss += self.var_reg_param * torch.var(policy_grad_arr)
+                    if policy_grad_arr.shape[0] > 1:  # no variance in a mini-batch of size one
+                        loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
                         if loss_value - previous_validation_loss < self.tol:
-- 
2.43.0


From b727aa2d2bf63dbd18f94df35c792e2f2255a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:12 +0000
Subject: [PATCH 55/60] fix: ContinuousOffPolicyEvaluation added a key to the
 given bandit_feedback

---
 obp/ope/meta_continuous.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index 60f0cff..e956b57 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -100,9 +100,10 @@ class ContinuousOffPolicyEvaluation:
         for key_ in ["action", "reward", "pscore"]:
             if key_ not in self.bandit_feedback:
                 raise RuntimeError(f"Missing key of {key_} in 'bandit_feedback'.")
-        self.bandit_feedback["action_by_behavior_policy"] = self.bandit_feedback[
-            "action"
-        ]
+        self.bandit_feedback = {
+            **self.bandit_feedback,
+            "action_by_behavior_policy": self.bandit_feedback["action"],
+        }
         self.ope_estimators_ = dict()
         self.is_model_dependent = False
         for estimator in self.ope_estimators:
-- 
2.43.0


From fb77ff41db4cc423166d4270949b8ef977120c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:28 +0000
Subject: [PATCH 56/60] fix: intervals and figures of MIPW with embedding
 selection were those of the unselected embedding

---
 obp/ope/estimators_embed.py | 76 ++++++++++++++++++++++++++++++++-----
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 2ed4ae7..e6b648e 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -2,6 +2,7 @@ from dataclasses import dataclass
 import itertools
 from typing import Dict
 from typing import Optional
+from typing import Tuple
 
 import numpy as np
 from scipy import stats
@@ -163,6 +164,17 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         """
         if position is None:
             position = np.zeros(action_dist.shape[0], dtype=int)
+        if not with_dev:
+            action_embed, p_e_a = self._select_embedding(
+                context=context,
+                reward=reward,
+                action=action,
+                action_embed=action_embed,
+                position=position,
+                pi_b=pi_b,
+                action_dist=action_dist,
+                p_e_a=p_e_a,
+            )
         n = reward.shape[0]
         if p_e_a is not None:
             # joint probability of the observed embedding given each action
@@ -306,7 +318,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                     pi_b=pi_b,
                     action_dist=action_dist,
                     p_e_a=p_e_a,
-                )
+                )[0]
             elif self.embedding_selection_method == "greedy":
                 return self._estimate_with_greedy_pruning(
                     context=context,
@@ -317,7 +329,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                     pi_b=pi_b,
                     action_dist=action_dist,
                     p_e_a=p_e_a,
-                )
+                )[0]
         else:
             return self._estimate_round_rewards(
                 context=context,
@@ -330,6 +342,38 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 p_e_a=p_e_a,
             ).mean()
 
+    def _select_embedding(
+        self,
+        context: np.ndarray,
+        reward: np.ndarray,
+        action: np.ndarray,
+        action_embed: np.ndarray,
+        pi_b: np.ndarray,
+        action_dist: np.ndarray,
+        position: np.ndarray,
+        p_e_a: Optional[np.ndarray] = None,
+    ) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """Restrict the action embeddings to the dimensions chosen by the data-driven selection (if used)."""
+        if action_embed.shape[1] == 1 or self.embedding_selection_method is None:
+            return action_embed, p_e_a
+        if self.embedding_selection_method == "exact":
+            prune = self._estimate_with_exact_pruning
+        else:
+            prune = self._estimate_with_greedy_pruning
+        _, selected_feat = prune(
+            context=context,
+            reward=reward,
+            action=action,
+            action_embed=action_embed,
+            position=position,
+            pi_b=pi_b,
+            action_dist=action_dist,
+            p_e_a=p_e_a,
+        )
+        if p_e_a is not None:
+            p_e_a = p_e_a[:, :, selected_feat]
+        return action_embed[:, selected_feat], p_e_a
+
     def _estimate_with_exact_pruning(
         self,
         context: np.ndarray,
@@ -340,10 +384,10 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         action_dist: np.ndarray,
         position: np.ndarray,
         p_e_a: Optional[np.ndarray] = None,
-    ) -> float:
+    ) -> Tuple[float, np.ndarray]:
         """Apply an exact version of data-drive action embedding selection."""
         n_emb_dim = action_embed.shape[1]
-        theta_list, cnf_list = [], []
+        theta_list, cnf_list, selected_feat = [], [], np.arange(n_emb_dim)
         feat_list, C = np.arange(n_emb_dim), np.sqrt(6) - 1
         for i in np.arange(n_emb_dim, self.min_emb_dim - 1, -1):
             comb_list = list(itertools.combinations(feat_list, i))
@@ -384,10 +428,11 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 theta_j, cnf_j = np.array(theta_list), np.array(cnf_list)
                 if (np.abs(theta_j - theta_i) <= cnf_i + C * cnf_j).all():
                     theta_list.append(theta_i), cnf_list.append(cnf_i)
+                    selected_feat = np.array(comb_list[idx])
                 else:
-                    return theta_j[-1]
+                    return theta_j[-1], selected_feat
 
-        return theta_list[-1]
+        return theta_list[-1], selected_feat
 
     def _estimate_with_greedy_pruning(
         self,
@@ -399,11 +444,12 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         action_dist: np.ndarray,
         position: np.ndarray,
         p_e_a: Optional[np.ndarray] = None,
-    ) -> float:
+    ) -> Tuple[float, np.ndarray]:
         """Apply a greedy version of data-drive action embedding selection."""
         n_emb_dim = action_embed.shape[1]
         theta_list, cnf_list = [], []
         current_feat, C = np.arange(n_emb_dim), np.sqrt(6) - 1
+        selected_feat = current_feat
 
         # init
         if p_e_a is None:
@@ -470,12 +516,13 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 theta_j, cnf_j = np.array(theta_list), np.array(cnf_list)
                 if (np.abs(theta_j - theta_i) <= cnf_i + C * cnf_j).all():
                     theta_list.append(theta_i), cnf_list.append(cnf_i)
+                    selected_feat = current_feat[current_feat != excluded_dim]
                 else:
-                    return theta_j[-1]
+                    return theta_j[-1], selected_feat
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_list[-1]
+        return theta_list[-1], selected_feat
 
     def estimate_interval(
         self,
@@ -690,6 +737,17 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
         """
         if position is None:
             position = np.zeros(action_dist.shape[0], dtype=int)
+        if not with_dev:
+            action_embed, p_e_a = self._select_embedding(
+                context=context,
+                reward=reward,
+                action=action,
+                action_embed=action_embed,
+                position=position,
+                pi_b=pi_b,
+                action_dist=action_dist,
+                p_e_a=p_e_a,
+            )
         n = reward.shape[0]
         if p_e_a is not None:
             # joint probability of the observed embedding given each action
-- 
2.43.0


From eddf5373a16b04e1f0bf0d13b921596e2884f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:38 +0000
Subject: [PATCH 57/60] fix: RegressionModel with a classifier raised
 IndexError when all training rewards of a position were the same

---
 obp/ope/regression_model.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/obp/ope/regression_model.py b/obp/ope/regression_model.py
index 421b9cb..1b0e6c4 100644
--- a/obp/ope/regression_model.py
+++ b/obp/ope/regression_model.py
@@ -203,11 +203,15 @@ class RegressionModel(BaseEstimator):
                     action=action_ * np.ones(n, int),
                     action_context=self.action_context,
                 )
-                q_hat_ = (
-                    self.base_model_list[pos_].predict_proba(X)[:, 1]
-                    if is_classifier(self.base_model_list[pos_])
-                    else self.base_model_list[pos_].predict(X)
-                )
+                if is_classifier(self.base_model_list[pos_]):
+                    proba = self.base_model_list[pos_].predict_proba(X)
+                    if proba.shape[1] > 1:
+                        q_hat_ = proba[:, 1]
+                    else:
+                        # all training rewards at this position are the same
+                        q_hat_ = self.base_model_list[pos_].classes_[0]
+                else:
+                    q_hat_ = self.base_model_list[pos_].predict(X)
                 q_hat[np.arange(n), action_, pos_] = q_hat_
         return q_hat
 
-- 
2.43.0


From be2aecc5c5c865312c065ffbba2e0b251da457f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 58/60] fix: error bars of the slate figure were twice as long
 as the confidence interval

---
 obp/ope/meta_slate.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/obp/ope/meta_slate.py b/obp/ope/meta_slate.py
index 7785631..9070917 100644
--- a/obp/ope/meta_slate.py
+++ b/obp/ope/meta_slate.py
@@ -480,9 +480,6 @@ class SlateOffPolicyEvaluation:
             n_bootstrap_samples=n_bootstrap_samples,
             random_state=random_state,
         )
-        estimated_interval_a["errbar_length"] = (
-            estimated_interval_a.drop("mean", axis=1).diff(axis=1).iloc[:, -1].abs()
-        )
         if is_relative:
             estimated_interval_a /= (
                 self.bandit_feedback["reward"].sum()
@@ -504,12 +501,13 @@ class SlateOffPolicyEvaluation:
         )
         plt.yticks(fontsize=15)
         plt.xticks(fontsize=25 - 2 * len(self.ope_estimators))
+        lower_upper = estimated_interval_a.drop("mean", axis=1)
         ax.errorbar(
-            np.arange(estimated_interval_a.shape[0]),
-            estimated_interval_a["mean"],
-            yerr=estimated_interval_a["errbar_length"],
-            fmt="o",
-            color="black",
+            np.arange(lower_upper.shape[0]),
+            lower_upper.mean(axis=1),
+            yerr=lower_upper.diff(axis=1).iloc[:, -1].abs() / 2,
+            fmt="none",
+            ecolor="black",
         )
 
         if fig_dir:
-- 
2.43.0


From 409274a7b6b9353d1462b9165789ad5a3dfb7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:41 +0000
Subject: [PATCH 59/60] fix: NNPolicyLearner trained to NaN when the
 probability of an action underflowed to zero

---
 obp/policy/offline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index f9ad640..4b26558 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1243,7 +1243,10 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
         """
         current_pi = action_dist[:, :, 0].detach()
-        log_prob = torch.log(action_dist[:, :, 0])
+        # avoid 0 * log(0) = nan when a probability underflows to zero
+        log_prob = torch.log(
+            action_dist[:, :, 0].clamp(min=torch.finfo(action_dist.dtype).tiny)
+        )
         idx_tensor = torch.arange(action.shape[0], dtype=torch.long)
 
         if self.off_policy_objective == "dm":
-- 
2.43.0


From 68667fbc718486bdf81d916d230e85d0051e971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:04 +0000
Subject: [PATCH 60/60] fix: the default number of bootstrap samples of
 ReplayMethod was not the documented one

---
 obp/ope/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 8bee176..d08f8b4 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -167,7 +167,7 @@ class ReplayMethod(BaseOffPolicyEstimator):
         action_dist: np.ndarray,
         position: Optional[np.ndarray] = None,
         alpha: float = 0.05,
-        n_bootstrap_samples: int = 100,
+        n_bootstrap_samples: int = 10000,
         random_state: Optional[int] = None,
         **kwargs,
     ) -> Dict[str, float]:
-- 
2.43.0


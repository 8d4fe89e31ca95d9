From 42039e164d05471b21d2929c524ce39e2fe3912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 01/27] fix: cluster-robust variance averages over the folds in
 use, not the constructor's n_folds

---
 doubleml/utils/_estimation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 25e6262..210a41e 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -287,8 +287,8 @@ def _var_est(psi, psi_deriv, smpls, is_cluster_data, cluster_vars=None, smpls_cl
                 j_hat += np.sum(psi_deriv[test_inds]) / len(I_k)
 
             var_scaling_factor = len(clusters)
-            J = np.divide(j_hat, n_folds_per_cluster)
-            gamma_hat = np.divide(gamma_hat, n_folds_per_cluster)
+            J = np.divide(j_hat, n_folds)
+            gamma_hat = np.divide(gamma_hat, n_folds)
 
         else:
             assert cluster_vars.shape[1] == 2
@@ -313,8 +313,8 @@ def _var_est(psi, psi_deriv, smpls, is_cluster_data, cluster_vars=None, smpls_cl
             n_first_clusters = len(np.unique(first_cluster_var))
             n_second_clusters = len(np.unique(second_cluster_var))
             var_scaling_factor = min(n_first_clusters, n_second_clusters)
-            J = np.divide(j_hat, np.square(n_folds_per_cluster))
-            gamma_hat = np.divide(gamma_hat, np.square(n_folds_per_cluster))
+            J = np.divide(j_hat, n_folds)
+            gamma_hat = np.divide(gamma_hat, n_folds)
 
     scaling = np.divide(1.0, np.multiply(var_scaling_factor, np.square(J)))
     sigma2_hat = np.multiply(scaling, gamma_hat)
-- 
2.43.0


From f0b4a250a667601343e00aea5254366aec38f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 02/27] fix: scaling a framework by a negative number keeps its
 standard errors positive

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6078602..d23cba5 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -398,8 +398,8 @@ class DoubleMLFramework:
             all_thetas = np.multiply(other, self._all_thetas)
 
             var_scaling_factors = self._var_scaling_factors
-            ses = np.multiply(other, self._ses)
-            all_ses = np.multiply(other, self._all_ses)
+            ses = np.multiply(abs(other), self._ses)
+            all_ses = np.multiply(abs(other), self._all_ses)
             scaled_psi = np.multiply(other, self._scaled_psi)
 
             doubleml_dict = {
-- 
2.43.0


From 48bf1d3bc6558ec045b44864f5b26af9e311b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 03/27] fix: sums and differences of clustered frameworks use
 the cluster-robust variance

---
 doubleml/double_ml_framework.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index d23cba5..f6df73d 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -293,6 +293,24 @@ class DoubleMLFramework:
 
         return res
 
+    def _est_variance(self, scaled_psi):
+        if not self._is_cluster_data:
+            return np.divide(np.mean(np.square(scaled_psi), axis=0), self._var_scaling_factors.reshape(-1, 1))
+
+        sigma2_hat = np.full((self._n_thetas, self._n_rep), np.nan)
+        for i_rep in range(self._n_rep):
+            for i_theta in range(self._n_thetas):
+                sigma2_hat[i_theta, i_rep], _ = _var_est(
+                    psi=scaled_psi[:, i_theta, i_rep],
+                    psi_deriv=np.ones_like(scaled_psi[:, i_theta, i_rep]),
+                    smpls=self._cluster_dict["smpls"][i_rep],
+                    is_cluster_data=True,
+                    cluster_vars=self._cluster_dict["cluster_vars"],
+                    smpls_cluster=self._cluster_dict["smpls_cluster"][i_rep],
+                    n_folds_per_cluster=self._cluster_dict["n_folds_per_cluster"],
+                )
+        return sigma2_hat
+
     def __add__(self, other):
         if isinstance(other, DoubleMLFramework):
             # internal consistency check
@@ -308,8 +326,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = np.sqrt(self._est_variance(scaled_psi))
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -356,8 +373,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = np.sqrt(self._est_variance(scaled_psi))
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
-- 
2.43.0


From 787f929d529417acedb47fc538773b3d049574a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 04/27] fix: Riesz representer of the observational DID score
 for repeated cross-sections has the right signs

---
 doubleml/did/did_cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index a198bce..0fe3bcd 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -496,8 +496,8 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 m_alpha_1 = np.divide(1.0, lambda_hat) + np.divide(1.0, 1.0 - lambda_hat)
                 m_alpha = np.multiply(np.divide(d, np.square(p_hat)), np.multiply(m_alpha_1, 1.0 + propensity_weight_d0))
 
-                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) + np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
-                rr_2 = d + np.multiply(1.0 - d, propensity_weight_d0)
+                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) - np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
+                rr_2 = d - np.multiply(1.0 - d, propensity_weight_d0)
                 rr = np.multiply(rr_1, rr_2)
         else:
             assert self.score == "experimental"
-- 
2.43.0


From 6b9df2e7942e202943b0284ea61a2f2ad9a00ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 05/27] fix: centre the score of the re-estimated second moment
 of the Riesz representer

---
 doubleml/double_ml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1b88c8e..7c02218 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1449,8 +1449,9 @@ class DoubleML(ABC):
                         "Re-estimation based on riesz representer (non-orthogonal)."
                     )
                     warnings.warn(msg, UserWarning)
-                    psi_nu2 = np.power(riesz_rep, 2)
-                    nu2 = np.mean(psi_nu2, axis=0, keepdims=True)
+                    nu2_score_element = np.power(riesz_rep, 2)
+                    nu2 = np.mean(nu2_score_element, axis=0, keepdims=True)
+                    psi_nu2 = nu2_score_element - nu2
 
                     self.sensitivity_elements["nu2"][:, :, i_treat] = nu2
                     self.sensitivity_elements["psi_nu2"][:, :, i_treat] = psi_nu2
-- 
2.43.0


From 6389b43526f291f71fb69a9fb091cb72f473e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 06/27] fix: external predictions may be given for some
 treatments or treatment levels only

---
 doubleml/irm/apos.py          | 2 +-
 doubleml/utils/_estimation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index e9b160c..2495984 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -860,7 +860,7 @@ class DoubleMLAPOS:
     def _rename_external_predictions(self, external_predictions):
         d_col = self._dml_data.d_cols[0]
         ext_pred_dict = {treatment_level: {d_col: {}} for treatment_level in self.treatment_levels}
-        for treatment_level in self.treatment_levels:
+        for treatment_level in external_predictions:
             if "ml_g_d_lvl1" in external_predictions[treatment_level]:
                 ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl1"] = external_predictions[treatment_level]["ml_g_d_lvl1"]
             if "ml_m" in external_predictions[treatment_level]:
diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 210a41e..c68d7d4 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -331,7 +331,7 @@ def _cond_targets(target, cond_sample):
 def _set_external_predictions(external_predictions, learners, treatment, i_rep):
     ext_prediction_dict = {}
     for learner in learners:
-        if external_predictions is None:
+        if external_predictions is None or treatment not in external_predictions:
             ext_prediction_dict[learner] = None
         elif learner in external_predictions[treatment].keys():
             if isinstance(external_predictions[treatment][learner], np.ndarray):
-- 
2.43.0


From e7839915e98598928bdfbd6bf9716289bb0f5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 07/27] fix: use the external propensity scores of the
 preliminary sample in DoubleMLPQ

The positions in smpls_prelim index train_inds_1, not the full sample, so the
preliminary ipw estimate used propensity scores of other observations.
---
 doubleml/irm/pq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 4cdcd74..25e1478 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -324,7 +324,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
                 else:
-                    m_hat_prelim = m_hat["preds"][np.concatenate([test for _, test in smpls_prelim])]
+                    m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
                     m_hat_prelim = _normalize_ipw(m_hat_prelim, d_train_1)
-- 
2.43.0


From b70e2a4c20187f68c0531891304f57021d78df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 08/27] fix: store models of DoubleMLPQ when predictions are
 supplied externally

fit(store_models=True) raised a KeyError for the externally supplied learner.
---
 doubleml/irm/pq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 25e1478..fd38290 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -366,8 +366,10 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         g_hat["targets"] = _cond_targets(g_hat["targets"], cond_sample=(d == self.treatment))
 
         if return_models:
-            g_hat["models"] = fitted_models["ml_g"]
-            m_hat["models"] = fitted_models["ml_m"]
+            if not g_external:
+                g_hat["models"] = fitted_models["ml_g"]
+            if not m_external:
+                m_hat["models"] = fitted_models["ml_m"]
 
         # clip propensities and normalize ipw weights
         m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
-- 
2.43.0


From e18d1f867b15476ac297e4b0a17fd90a037bee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 09/27] fix: reject partial external predictions in DoubleMLLPQ

The guard tested any() and not any(), so a partial set was silently ignored.
---
 doubleml/irm/lpq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 56a9796..b584c76 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -286,6 +286,8 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         g_du_z0 = external_predictions["ml_g_du_z0"] is not None
         g_du_z1 = external_predictions["ml_g_du_z1"] is not None
         ext_preds = [m_z, m_d_d0, m_d_d1, g_du_z0, g_du_z1]
+        if any(ext_preds) and not all(ext_preds):
+            raise ValueError("External predictions for all estimations or for none are required.")
 
         # create strata for splitting
         strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.z.reshape(-1, 1)
@@ -330,8 +332,6 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 else:
                     fitted_models[learner] = [clone(self._learner[learner]) for i_fold in range(self.n_folds)]
             ipw_vec = np.full(shape=self.n_folds, fill_value=np.nan)
-        elif any(ext_preds) and not any(ext_preds):
-            raise ValueError("External predictions for all estimations or for none are required.")
         else:
             m_z_hat = {
                 "models": None,
-- 
2.43.0


From 111cb29deafba35b88d1608da2cde5c0e8a9090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 10/27] fix: allow store_models with external predictions in
 DoubleMLLPQ

With all predictions supplied no learner is fitted and fitted_models was unbound.
---
 doubleml/irm/lpq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index b584c76..3060d91 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -493,7 +493,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         m_d_z0_hat["targets"] = _cond_targets(d, cond_sample=(z == 0))
         m_d_z1_hat["targets"] = _cond_targets(d, cond_sample=(z == 1))
 
-        if return_models:
+        if return_models and not all(ext_preds):
             m_z_hat["models"] = fitted_models["ml_m_z"]
             m_d_z0_hat["models"] = fitted_models["ml_m_d_z0"]
             m_d_z1_hat["models"] = fitted_models["ml_m_d_z1"]
-- 
2.43.0


From 4324b621476b8f7703c5552d3aeee3d5f13c2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 11/27] fix: check the cluster partition of every fold and
 repetition in set_sample_splitting

---
 doubleml/utils/_checks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 90833de..49491d5 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -429,10 +429,11 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
         for i_cluster in range(dml_data.n_cluster_vars):
             this_cluster_var = dml_data.cluster_vars[:, i_cluster]
             clusters = np.unique(this_cluster_var)
-            cluster_partition = [all_smpls_cluster[0][0][0][i_cluster], all_smpls_cluster[0][0][1][i_cluster]]
-            is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
-            if not is_cluster_partition:
-                raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
+            for train_clusters, test_clusters in all_smpls_cluster[i_rep]:
+                cluster_partition = [train_clusters[i_cluster], test_clusters[i_cluster]]
+                is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
+                if not is_cluster_partition:
+                    raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
     smpls_cluster = all_smpls_cluster
     return smpls_cluster
-- 
2.43.0


From 32d0d84b53fcf8c7dfd47a165ced23716a04abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 12/27] fix: hand newly drawn sample splits to the models of
 DoubleMLAPOS

---
 doubleml/irm/apos.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 2495984..477db28 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -91,9 +91,6 @@ class DoubleMLAPOS:
         if draw_sample_splitting:
             self.draw_sample_splitting()
 
-            # initialize all models if splits are known
-            self._modellist = self._initialize_models()
-
     def __str__(self):
         class_name = self.__class__.__name__
         header = f"================== {class_name} Object ==================\n"
@@ -640,6 +637,8 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # initialize all models
+        self._modellist = self._initialize_models()
 
         return self
 
-- 
2.43.0


From 5f846d284f1c2e780d86c084f2988fdc379c7d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 13/27] fix: keep the number of folds per cluster in line with
 user-supplied cluster splits

---
 doubleml/double_ml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 7c02218..a099bbc 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1223,6 +1223,7 @@ class DoubleML(ABC):
                 cluster_vars=self._dml_data.cluster_vars,
             )
             self._smpls, self._smpls_cluster = obj_dml_resampling.split_samples()
+            self._n_folds = self._n_folds_per_cluster**self._dml_data.n_cluster_vars
         else:
             obj_dml_resampling = DoubleMLResampling(
                 n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._strata
@@ -1294,6 +1295,8 @@ class DoubleML(ABC):
         self._smpls, self._smpls_cluster, self._n_rep, self._n_folds = _check_sample_splitting(
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
+        if self._is_cluster_data:
+            self._n_folds_per_cluster = round(self._n_folds ** (1 / self._dml_data.n_cluster_vars))
 
         (
             self._psi,
-- 
2.43.0


From 0bede82208fdaff66cd688aaf5ae1f158c297c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 14/27] fix: fit policy trees on signals that contain zeros

---
 doubleml/utils/policytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index ca771ad..59b8415 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -98,7 +98,7 @@ class DoubleMLPolicyTree:
         -------
         self : object
         """
-        bin_signal = (np.sign(self._orth_signal) + 1) / 2
+        bin_signal = (self._orth_signal > 0).astype(float)
         abs_signal = np.abs(self._orth_signal)
 
         # fit the tree with target binary score, sample weights absolute score and
-- 
2.43.0


From b8b3586fe054cca13a878499f1d4e1592aba5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 15/27] fix: accept integer dummy-coded groups with several
 columns in gate and gapo

---
 doubleml/irm/apo.py | 4 ++--
 doubleml/irm/irm.py | 4 ++--
 doubleml/plm/plr.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index e8c7517..02c21a5 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -508,10 +508,10 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not all(groups.dtypes == bool):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
-            else:
+            elif not all(groups.dtypes == int):
                 raise TypeError(
                     "Columns of groups must be of bool type or int type (dummy coded). "
                     "Alternatively, groups should only contain one column."
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index 72db088..2bc5a26 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -518,10 +518,10 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not all(groups.dtypes == bool):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
-            else:
+            elif not all(groups.dtypes == int):
                 raise TypeError(
                     "Columns of groups must be of bool type or int type (dummy coded). "
                     "Alternatively, groups should only contain one column."
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 1b45d86..2b95b3e 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -418,10 +418,10 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
 
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not all(groups.dtypes == bool):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
-            else:
+            elif not all(groups.dtypes == int):
                 raise TypeError(
                     "Columns of groups must be of bool type or int type (dummy coded). "
                     "Alternatively, groups should only contain one column."
-- 
2.43.0


From 7934b914e2d10523e115fa41c37806f30f8ca5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 16/27] fix: restrict the stored targets of ml_g in DoubleMLSSM
 to the selected observations of the treatment group

---
 doubleml/irm/ssm.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 5a6458c..0534e4b 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import _check_finite_predictions, _check_score, _check_trimming
-from doubleml.utils._estimation import _dml_cv_predict, _dml_tune, _get_cond_smpls_2d, _predict_zero_one_propensity
+from doubleml.utils._estimation import (
+    _cond_targets,
+    _dml_cv_predict,
+    _dml_tune,
+    _get_cond_smpls_2d,
+    _predict_zero_one_propensity,
+)
 from doubleml.utils._propensity_score import _trimm
 
 
@@ -253,7 +259,8 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 method=self._predict_method["ml_g"],
                 return_models=return_models,
             )
-            g_hat_d1["targets"] = g_hat_d1["targets"].astype(float)
+            # adjust target values to consider only the selected observations of the treatment group
+            g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
             _check_finite_predictions(g_hat_d1["preds"], self._learner["ml_g"], "ml_g_d1", smpls)
 
             g_hat_d0 = _dml_cv_predict(
@@ -266,7 +273,8 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 method=self._predict_method["ml_g"],
                 return_models=return_models,
             )
-            g_hat_d0["targets"] = g_hat_d0["targets"].astype(float)
+            # adjust target values to consider only the selected observations of the treatment group
+            g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
             _check_finite_predictions(g_hat_d0["preds"], self._learner["ml_g"], "ml_g_d0", smpls)
 
         else:
@@ -368,6 +376,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                     pi_hat["models"] = fitted_models["ml_pi"]
                     m_hat["models"] = fitted_models["ml_m"]
 
+            # adjust target values to consider only the selected observations of the treatment group
+            g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
+            g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
+
         m_hat["preds"] = _trimm(m_hat["preds"], self._trimming_rule, self._trimming_threshold)
 
         # treatment indicator
-- 
2.43.0


From b35ccd66eaae016b5c428148ebf0b79bca57f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 17/27] fix: predict probabilities with a classifier for ml_g
 in the nonignorable score of DoubleMLSSM

---
 doubleml/irm/ssm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 0534e4b..191f1ae 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -356,7 +356,12 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d1"][i_fold].fit(xpi_s1_d1_train_2, y_s1_d1_train_2)
 
                 # predict conditional outcome
-                g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d1["preds"][test_inds] = _predict_zero_one_propensity(
+                        fitted_models["ml_g_d1"][i_fold], xpi_test
+                    )
+                else:
+                    g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
                 g_hat_d1["targets"][test_inds] = y[test_inds]
 
                 # estimate conditional outcome on second training sample - control
@@ -367,7 +372,12 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d0"][i_fold].fit(xpi_s1_d0_train_2, y_s1_d0_train_2)
 
                 # predict conditional outcome
-                g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d0["preds"][test_inds] = _predict_zero_one_propensity(
+                        fitted_models["ml_g_d0"][i_fold], xpi_test
+                    )
+                else:
+                    g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
                 g_hat_d0["targets"][test_inds] = y[test_inds]
 
                 if return_models:
-- 
2.43.0


From 87ea1b62f44e916d0f17ffa937fcb0f38b6b4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 18/27] fix: recompute the binary indicators of DoubleMLData
 when d_cols or y_col is changed

---
 doubleml/double_ml_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 3ebf2f7..9133521 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -468,6 +468,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._d_cols = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_treats = self._check_binary_treats()
             # by default, we initialize to the first treatment variable
             self.set_x_d(self.d_cols[0])
 
@@ -490,6 +491,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._y_col = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_outcome = self._check_binary_outcome()
             self._set_y_z_t_s()
 
     @property
-- 
2.43.0


From 18b02516613bb66d4cdf3626c1f3a618a8edc3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 19/27] fix: set_sample_splitting drops the framework of a
 previous fit

---
 doubleml/double_ml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index a099bbc..c381e0c 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1309,6 +1309,8 @@ class DoubleML(ABC):
             self._all_se,
         ) = self._initialize_arrays()
         self._initialize_ml_nuisance_params()
+        # results of a previous fit are based on another sample splitting
+        self._framework = None
 
         return self
 
-- 
2.43.0


From ed2c02e0e833d466c8db4d7605936123addc67b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 20/27] fix: the framework keeps its own copy of the model's
 results

---
 doubleml/double_ml.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index c381e0c..72731b8 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -550,11 +550,11 @@ class DoubleML(ABC):
         scaled_psi_reshape = np.transpose(scaled_psi, (0, 2, 1))
 
         doubleml_dict = {
-            "thetas": self.coef,
-            "all_thetas": self.all_coef,
-            "ses": self.se,
-            "all_ses": self.all_se,
-            "var_scaling_factors": self._var_scaling_factors,
+            "thetas": self.coef.copy(),
+            "all_thetas": self.all_coef.copy(),
+            "ses": self.se.copy(),
+            "all_ses": self.all_se.copy(),
+            "var_scaling_factors": self._var_scaling_factors.copy(),
             "scaled_psi": scaled_psi_reshape,
             "is_cluster_data": self._is_cluster_data,
             "treatment_names": self._dml_data.d_cols,
-- 
2.43.0


From 52d60dd56874392e10661cbb29442d3d4215116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 21/27] fix: keep tuning results per treatment and repetition
 when tuning on folds

---
 doubleml/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 72731b8..fb7161e 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -807,7 +807,7 @@ class DoubleML(ABC):
             raise TypeError(f"return_tune_res must be True or False. Got {str(return_tune_res)}.")
 
         if tune_on_folds:
-            tuning_res = [[None] * self.n_rep] * self._dml_data.n_treat
+            tuning_res = [[None] * self.n_rep for _ in range(self._dml_data.n_treat)]
         else:
             tuning_res = [None] * self._dml_data.n_treat
 
@@ -833,7 +833,7 @@ class DoubleML(ABC):
                         n_iter_randomized_search,
                     )
 
-                    tuning_res[i_rep][i_d] = res
+                    tuning_res[i_d][i_rep] = res
                     nuisance_params.append(res["params"])
 
                 if set_as_params:
-- 
2.43.0


From 704eacbd826ddd054414d6c6a8bbff9b1a43c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 22/27] fix: tuning with integer data keeps the initial
 nuisance predictions as floats

---
 doubleml/plm/pliv.py | 6 +++---
 doubleml/plm/plr.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index dc0fbd2..d5b43c2 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -594,9 +594,9 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
             # an ML model for g is obtained for the IV-type score and callable scores
             if "ml_g" in self._learner:
                 # construct an initial theta estimate from the tuned models using the partialling out score
-                l_hat = np.full_like(y, np.nan)
-                m_hat = np.full_like(z, np.nan)
-                r_hat = np.full_like(d, np.nan)
+                l_hat = np.full_like(y, np.nan, dtype="float64")
+                m_hat = np.full_like(z, np.nan, dtype="float64")
+                r_hat = np.full_like(d, np.nan, dtype="float64")
                 for idx, (train_index, _) in enumerate(smpls):
                     l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                     m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 2b95b3e..a4b4f6c 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -324,8 +324,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
         # an ML model for g is obtained for the IV-type score and callable scores
         if "ml_g" in self._learner:
             # construct an initial theta estimate from the tuned models using the partialling out score
-            l_hat = np.full_like(y, np.nan)
-            m_hat = np.full_like(d, np.nan)
+            l_hat = np.full_like(y, np.nan, dtype="float64")
+            m_hat = np.full_like(d, np.nan, dtype="float64")
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                 m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
-- 
2.43.0


From 29cd78bf886f03a55a65497fdd54c86a0dfd189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 23/27] fix: RDFlex keeps float predictions for integer
 outcomes

---
 doubleml/rdd/rdd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 858ae5e..4943a18 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -425,7 +425,8 @@ class RDFlex:
         ZX_left = np.column_stack((Z_left, X))
         ZX_right = np.column_stack((Z_right, X))
 
-        mu_left, mu_right = np.full_like(outcome, fill_value=np.nan), np.full_like(outcome, fill_value=np.nan)
+        mu_left = np.full_like(outcome, fill_value=np.nan, dtype="float64")
+        mu_right = np.full_like(outcome, fill_value=np.nan, dtype="float64")
 
         for train_index, test_index in smpls:
             estimator = clone(self._learner[estimator_name])
-- 
2.43.0


From 55934e988ea344b2a654ce7ff7d1806772da02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:55 +0000
Subject: [PATCH 24/27] fix: DoubleMLDIDCS refuses outcome predictions that are
 not finite

---
 doubleml/did/did_cs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index 0fe3bcd..b75b0eb 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -243,6 +243,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 method=self._predict_method["ml_g"],
                 return_models=return_models,
             )
+            _check_finite_predictions(g_hat_d0_t0["preds"], self._learner["ml_g"], "ml_g", smpls)
 
             g_hat_d0_t0["targets"] = g_hat_d0_t0["targets"].astype(float)
             g_hat_d0_t0["targets"][np.invert((d == 0) & (t == 0))] = np.nan
@@ -259,6 +260,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 method=self._predict_method["ml_g"],
                 return_models=return_models,
             )
+            _check_finite_predictions(g_hat_d0_t1["preds"], self._learner["ml_g"], "ml_g", smpls)
             g_hat_d0_t1["targets"] = g_hat_d0_t1["targets"].astype(float)
             g_hat_d0_t1["targets"][np.invert((d == 0) & (t == 1))] = np.nan
         if external_predictions["ml_g_d1_t0"] is not None:
@@ -274,6 +276,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 method=self._predict_method["ml_g"],
                 return_models=return_models,
             )
+            _check_finite_predictions(g_hat_d1_t0["preds"], self._learner["ml_g"], "ml_g", smpls)
             g_hat_d1_t0["targets"] = g_hat_d1_t0["targets"].astype(float)
             g_hat_d1_t0["targets"][np.invert((d == 1) & (t == 0))] = np.nan
         if external_predictions["ml_g_d1_t1"] is not None:
@@ -289,6 +292,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 method=self._predict_method["ml_g"],
                 return_models=return_models,
             )
+            _check_finite_predictions(g_hat_d1_t1["preds"], self._learner["ml_g"], "ml_g", smpls)
             g_hat_d1_t1["targets"] = g_hat_d1_t1["targets"].astype(float)
             g_hat_d1_t1["targets"][np.invert((d == 1) & (t == 1))] = np.nan
 
-- 
2.43.0


From 1d846133e265998390a377498af713c377cdd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 25/27] fix: sensitivity_plot draws contour values at their
 cf_d and cf_y

The grid was transposed relative to the axes of the plot.
---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index f6df73d..4404bfb 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -882,7 +882,7 @@ class DoubleMLFramework:
         cf_d_vec = np.linspace(0, grid_bounds[0], grid_size)
         cf_y_vec = np.linspace(0, grid_bounds[1], grid_size)
 
-        # compute contour values
+        # compute contour values (rows correspond to cf_y and columns to cf_d)
         contour_values = np.full(shape=(grid_size, grid_size), fill_value=np.nan)
         for i_cf_d_grid, cf_d_grid in enumerate(cf_d_vec):
             for i_cf_y_grid, cf_y_grid in enumerate(cf_y_vec):
@@ -892,7 +892,7 @@ class DoubleMLFramework:
                     rho=rho,
                     level=level,
                 )
-                contour_values[i_cf_d_grid, i_cf_y_grid] = sens_dict[value][bound][idx_treatment]
+                contour_values[i_cf_y_grid, i_cf_d_grid] = sens_dict[value][bound][idx_treatment]
 
         # get the correct unadjusted value for confidence bands
         if value == "theta":
-- 
2.43.0


From 845e43d55e1bbb080f0a100cf33ef4e6fa743005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 26/27] fix: sensitivity_plot uses the null hypothesis it is
 given

The argument was replaced by the one of the last sensitivity analysis.
---
 doubleml/double_ml_framework.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 4404bfb..55e8f0f 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -873,7 +873,6 @@ class DoubleMLFramework:
         _check_in_zero_one(grid_bounds[1], "grid_bounds", include_zero=False, include_one=False)
         _check_integer(grid_size, "grid_size", lower_bound=10)
 
-        null_hypothesis = self.sensitivity_params["input"]["null_hypothesis"][idx_treatment]
         unadjusted_theta = self.thetas[idx_treatment]
         # check which side is relvant
         bound = "upper" if (null_hypothesis > unadjusted_theta) else "lower"
-- 
2.43.0


From eded40dc545940ee5786ccbe7ed9eb010c06515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:21 +0000
Subject: [PATCH 27/27] fix: DoubleMLAPOS and DoubleMLQTE withdraw results when
 the splits change

The models are replaced by unfitted ones, so the framework of the last fit no longer belongs to them.
---
 doubleml/irm/apos.py | 4 ++++
 doubleml/irm/qte.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 477db28..e361c0b 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -639,6 +639,8 @@ class DoubleMLAPOS:
         self._smpls = obj_dml_resampling.split_samples()
         # initialize all models
         self._modellist = self._initialize_models()
+        # results of an earlier fit do not belong to the new models
+        self._framework = None
 
         return self
 
@@ -697,6 +699,8 @@ class DoubleMLAPOS:
         )
 
         self._modellist = self._initialize_models()
+        # results of an earlier fit do not belong to the new models
+        self._framework = None
 
         return self
 
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index f05269a..d114a2d 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -459,6 +459,8 @@ class DoubleMLQTE:
         self._smpls = obj_dml_resampling.split_samples()
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        # results of an earlier fit do not belong to the new models
+        self._framework = None
 
         return self
 
@@ -526,6 +528,8 @@ class DoubleMLQTE:
 
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
+        # results of an earlier fit do not belong to the new models
+        self._framework = None
 
         return self
 
-- 
2.43.0


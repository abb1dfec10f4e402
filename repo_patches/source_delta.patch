From 60b87efcad0f207a52d26eb73ac9012dc464f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 01/20] fix: default value of a doubly bounded parameter is the
 interval's midpoint

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..4fe3aa5 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return 0.5 * (ub + lb)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From 2878e6c6099fbd68c605a9cc2ba6c61b33c6efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 02/20] fix: two-sided constraint does not overflow for large
 free values

---
 LinearResponseVariationalBayes/Parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 4fe3aa5..abbfb9f 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -57,8 +57,8 @@ def constrain(free_vec, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_vec)
         else:
-            exp_vec = np.exp(free_vec)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # The logistic function, written not to overflow.
+            return (ub - lb) * np.exp(-1 * np.logaddexp(0., -1 * free_vec)) + lb
 
 constrain_scalar_jac = autograd.jacobian(constrain)
 constrain_scalar_hess = autograd.hessian(constrain)
-- 
2.43.0


From d13653bbd10d3efe550dd42834aa402ed49dfd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 03/20] fix: no cancellation on the diagonal when packing
 Cholesky factors

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..7c3a6df 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -86,7 +86,7 @@ def exp_matrix_diagonal(mat):
     mat_exp_diag = np.make_diagonal(
         np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
     mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_exp_diag + mat - mat_diag
+    return mat_exp_diag + (mat - mat_diag)
 
 
 def log_matrix_diagonal(mat):
@@ -95,7 +95,7 @@ def log_matrix_diagonal(mat):
     mat_log_diag = np.make_diagonal(
         np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
     mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
-    return mat_log_diag + mat - mat_diag
+    return mat_log_diag + (mat - mat_diag)
 
 
 def pack_posdef_matrix(mat, diag_lb=0.0):
-- 
2.43.0


From 0a2f896087e0afbebdc9785562e574fb34ab20ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 04/20] fix: arrays of matrices refuse a value of any wrong
 shape

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 7c3a6df..b705f9d 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -223,7 +223,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if val.shape != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -347,7 +347,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if val.shape != tuple(self.__shape):
             print(val.shape)
             print(self.__shape)
             raise ValueError('Array is the wrong size')
-- 
2.43.0


From be181eb698310b7ab3fcc64b9b354c02aa5b9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 05/20] fix: PosDefMatrixParamArray default shape and length()

---
 LinearResponseVariationalBayes/MatrixParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index b705f9d..efc5e5e 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -321,7 +321,7 @@ class PosDefMatrixParamVector(object):
 # In keeping with the vector version, the last two indices are indices
 # of the matrix.
 class PosDefMatrixParamArray(object):
-    def __init__(self, name='', array_shape=(1), matrix_size=2, diag_lb=0.0, val=None):
+    def __init__(self, name='', array_shape=(1,), matrix_size=2, diag_lb=0.0, val=None):
         self.name = name
         self.__matrix_size = int(matrix_size)
         self.__matrix_shape = np.array([ int(matrix_size), int(matrix_size) ])
@@ -470,7 +470,7 @@ class PosDefMatrixParamArray(object):
         return hessians
 
     def length(self):
-        return self.__length
+        return self.__array_length
     def matrix_size(self):
         return self.__matrix_size
     def free_size(self):
-- 
2.43.0


From ef1957584669bd9581368a351a7c5d5ad7e2913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 06/20] fix: derivatives of free_to_vector do not touch the
 stored value

---
 LinearResponseVariationalBayes/MatrixParameters.py | 9 +++++++--
 LinearResponseVariationalBayes/Parameters.py       | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index efc5e5e..9b89d52 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -147,8 +147,13 @@ class PosDefMatrixParam(object):
             self.set(val)
 
         # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+        # Differentiate the map itself rather than a bound method, which would
+        # leave autograd boxes in the parameter (and, in a copy of the
+        # parameter, in the original).
+        def free_to_vector(free_val):
+            return pos_def_matrix_free_to_vector(free_val, diag_lb=diag_lb)
+        self.free_to_vector_jac_dense = autograd.jacobian(free_to_vector)
+        self.free_to_vector_hess_dense = autograd.hessian(free_to_vector)
 
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index abbfb9f..b9d96e6 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,8 +93,13 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
+        # Differentiate the map itself rather than a bound method, which would
+        # leave autograd boxes in the parameter (and, in a copy of the
+        # parameter, in the original).
+        def free_to_vector(free_val):
+            return constrain(free_val, lb, ub)
+        self.free_to_vector_jac_dense = autograd.jacobian(free_to_vector)
+        self.free_to_vector_hess_dense = autograd.hessian(free_to_vector)
 
     def __str__(self):
         return self.name + ': ' + str(self.__val)
-- 
2.43.0


From 7a5a521e8ba2508a656ac99c2a2820398788c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 07/20] fix: UVNMomentParamArray.var_exp is the log-normal
 variance

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From 552f6b4245d6aa745757c1120026f2bb7db565a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 08/20] fix: WishartParam uses its declared size

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..b79c258 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', self.__size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From 41c26eca6ef15b0377534d8ac03ae8ff369592d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 09/20] fix: WishartParam.e_inv is the mean of the inverse

---
 LinearResponseVariationalBayes/WishartParams.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index b79c258..6d137aa 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -1,7 +1,7 @@
 import LinearResponseVariationalBayes as vb
 import LinearResponseVariationalBayes.ExponentialFamilies as ef
 
-import numpy as np
+import autograd.numpy as np
 
 class WishartParam(vb.ModelParamsDict):
     def __init__(self, name='', size=2, diag_lb=0.0, min_df=None):
@@ -20,7 +20,9 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        # The mean of the inverse exists only for df > size + 1.
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From 63003846dee824e07915253e08f000d70a47472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 10/20] fix: univariate_normal_log_prob uses the log of the
 information

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0


From 2fed6e3974130ef3de1956b1e9e15df950f50518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 11/20] fix: logistic terms do not overflow for large
 predictors

---
 LinearResponseVariationalBayes/Modeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index 31515ed..bfbdd18 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -28,7 +28,7 @@ def get_e_logistic_term(y, z_mean, z_sd, std_draws):
     # Note that
     # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
     logit_term = \
-        np.sum(np.log1p(np.exp(z_draws))) / std_draws.size
+        np.sum(np.logaddexp(0., z_draws)) / std_draws.size
     return np.sum(y * z_mean) - logit_term
 
 
@@ -45,7 +45,7 @@ def get_e_logistic_term_guass_hermite(
     # we add the sample means for all the observations.
     # Note that
     # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
-    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
+    logit_term = gh_w * np.logaddexp(0., z_vals) / np.sqrt(np.pi)
     if aggregate_all:
         return np.sum(logit_term)
     else:
-- 
2.43.0


From 154f53d54fa753a478f849a2878656d39a8e2753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 12/20] fix: sensitivity classes use the Hessian supplied at
 construction

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..59d11fe 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -576,7 +576,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0=hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
-- 
2.43.0


From e82999153394394a39561e07e47d2f3343efd739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 13/20] fix: sensitivity classes respect the declared encodings

---
 .../ModelSensitivity.py                       | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 59d11fe..aab9960 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -420,7 +420,10 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
@@ -588,14 +591,26 @@ class ParametricSensitivityLinearApproximation(object):
         self.set_par_to_base_values()
 
         if hess0 is None:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            if self.input_is_free:
+                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
+            else:
+                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         else:
             self.hess0 = hess0
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
+        if self.input_is_free:
+            if self.hyper_is_free:
+                cross_hessian = self.joint_objective.fun_free_hessian12
+            else:
+                cross_hessian = self.joint_objective.fun_hessian_free1_vector2
+        else:
+            if self.hyper_is_free:
+                cross_hessian = self.joint_objective.fun_hessian_vector1_free2
+            else:
+                cross_hessian = self.joint_objective.fun_vector_hessian12
         self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+            cross_hessian(self.input_val0, self.hyper_val0)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
-- 
2.43.0


From 96eb37bf01f94b1014bd6adf50c885c60b3987bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 14/20] fix: Taylor expansion takes input derivatives from the
 full objective

---
 .../ModelSensitivity.py                          | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index aab9960..0c9becb 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -460,6 +460,22 @@ class ParametricSensitivityTaylorExpansion(object):
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
 
+        # The hyperparameter objective only contains the dependence on the
+        # hyperparameter, so the derivatives with respect to the input alone
+        # are those of the full objective.
+        if self.hyper_par_objective_functor is not self.objective_functor:
+            full_objective = obj_lib.TwoParameterObjective(
+                self.input_par, self.hyper_par, self.objective_functor)
+            def full_gradient(input_val, hyper_val, *argv, **argk):
+                return full_objective.fun_grad1(
+                    input_val, hyper_val,
+                    self.input_is_free, self.hyper_is_free, *argv, **argk)
+            eval_full_derivs = generate_two_term_derivative_array(
+                full_gradient, order=self.order + 1)
+            for eta_order in range(len(self.eval_g_derivs)):
+                self.eval_g_derivs[eta_order][0] = \
+                    eval_full_derivs[eta_order][0]
+
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
         for k in range(self.order - 1):
-- 
2.43.0


From 9013501da034eb6b50d1c1d76d954eecc3263cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 15/20] fix: consolidate_terms combines every like term

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 0c9becb..49d217e 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -248,7 +248,7 @@ def consolidate_terms(dterms):
     consolidated_dterms = []
     while len(unmatched_indices) > 0:
         match_term = dterms[unmatched_indices.pop(0)]
-        for ind in unmatched_indices:
+        for ind in list(unmatched_indices):
             if (match_term.eta_orders == dterms[ind].eta_orders):
                 match_term = match_term.combine_with(dterms[ind])
                 unmatched_indices.remove(ind)
-- 
2.43.0


From fd0a8883e0c6a18a44e99f8af0f0dbc935cbd70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 16/20] fix: ParametricSensitivity's base output is that of the
 base input

---
 LinearResponseVariationalBayes/SparseObjectives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..0f974a1 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -546,7 +546,9 @@ class ParametricSensitivity(object):
             self.sensitivity_objective.fun_hessian_free1_vector2(
                 self.optimal_input_par, self.optimal_hyper_par)
 
-        self.optimal_output_par = self.output_par.get_vector()
+        self.optimal_output_par = \
+            self.parameter_converter.converter_free_to_vec(
+                self.optimal_input_par)
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
                 self.hessian_chol, self.hyper_par_cross_hessian)
-- 
2.43.0


From 26142c7b9a186b9bf36f98a6f305d7fa9da2cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 17/20] fix: keep derivatives of the expected log of a
 logit-normal finite

exp(-x) overflowed for means below about -700, so the gradient of
get_e_log_logitnormal (and of the DP prior built on it) was NaN there.
---
 .../ExponentialFamilies.py                           | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/LinearResponseVariationalBayes/ExponentialFamilies.py b/LinearResponseVariationalBayes/ExponentialFamilies.py
index 3523fd2..f0d8d00 100644
--- a/LinearResponseVariationalBayes/ExponentialFamilies.py
+++ b/LinearResponseVariationalBayes/ExponentialFamilies.py
@@ -152,15 +152,9 @@ def get_e_logitnormal(lognorm_means, lognorm_infos, gh_loc, gh_weights):
 def get_e_log_logitnormal(lognorm_means, lognorm_infos, gh_loc, gh_weights):
     # get expectation of Elog(X) and E[1 - log(X)] when X follows a logit normal
 
-    # the function below is log(expit(v))
-    log_v = lambda x : np.maximum(-np.log(1 + np.exp(-x)), -1e16) * (x > -1e2)\
-                                + x * (x <= -1e2)
-
-    # I believe that the above will avoid the numerical issues. If x is very small,
-    # log(1 + e^(-x)) is basically -x, hence the two cases.
-    # the maximum in the first term is taken so that when
-    # -np.log(1 + np.exp(-x)) = -Inf, it really just returns -1e16;
-    # apparently -Inf * 0.0 is NaN in python.
+    # the function below is log(expit(v)).  logaddexp is stable, and has finite
+    # derivatives, for both very large and very small x.
+    log_v = lambda x : -np.logaddexp(0., -x)
 
     e_log_v = get_e_fun_normal(lognorm_means, lognorm_infos, \
                             gh_loc, gh_weights, log_v)
-- 
2.43.0


From 063a927ab20b04766bd3ed5bfeca744025b25e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 18/20] fix: compute the log-normal variance without
 cancellation

exp(sigma_sq) - 1 loses all digits for small variances (zero below 1e-16).
---
 LinearResponseVariationalBayes/ExponentialFamilies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ExponentialFamilies.py b/LinearResponseVariationalBayes/ExponentialFamilies.py
index f0d8d00..00bd9dd 100644
--- a/LinearResponseVariationalBayes/ExponentialFamilies.py
+++ b/LinearResponseVariationalBayes/ExponentialFamilies.py
@@ -106,7 +106,7 @@ def get_e_lognormal(mu, sigma_sq):
 
 def get_var_lognormal(mu, sigma_sq):
     e_lognormal = get_e_lognormal(mu, sigma_sq)
-    return (np.exp(sigma_sq) - 1) * (e_lognormal ** 2)
+    return np.expm1(sigma_sq) * (e_lognormal ** 2)
 
 def get_e_log_gamma(shape, rate):
     return sp.special.digamma(shape) - np.log(rate)
-- 
2.43.0


From 72ae771186db243e301ae34ec989405e7fc27fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 19/20] fix: repeatedly_optimize compares points even if the
 optimizer works in place

---
 LinearResponseVariationalBayes/OptimizationUtils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/LinearResponseVariationalBayes/OptimizationUtils.py b/LinearResponseVariationalBayes/OptimizationUtils.py
index 8633ced..c7d97dc 100644
--- a/LinearResponseVariationalBayes/OptimizationUtils.py
+++ b/LinearResponseVariationalBayes/OptimizationUtils.py
@@ -130,14 +130,17 @@ def repeatedly_optimize(
     converged = False
     f_val = objective.fun_free(init_x)
     i = 0
-    x = init_x
+    # Keep our own copies of the points, since optimization_fun may work in
+    # place or reuse its arrays.
+    x = np.array(init_x)
 
     while i < max_iter and (not converged):
         if disp:
             print('\n---------------------------------\n' +
                   'Repeated optimization iteration ', i)
         i += 1
-        new_x, obj_opt = optimization_fun(x)
+        new_x, obj_opt = optimization_fun(np.array(x))
+        new_x = np.array(new_x)
         if keep_intermediate_optimizations:
             opt_results.append(obj_opt)
 
-- 
2.43.0


From 825be4ae42dc504324394b42cfffcd4bb145852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 20/20] fix: Logger keeps its own copies of the logged points

---
 LinearResponseVariationalBayes/SparseObjectives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 0f974a1..c25df55 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -65,6 +65,8 @@ class Logger(object):
         print('Iter ', self.iter, ' value: ', self.value)
 
     def log(self, value, x):
+        # The caller may go on to change x in place.
+        x = deepcopy(x)
         self.value = value
         self.x = x
         self.x_array.append(x)
-- 
2.43.0


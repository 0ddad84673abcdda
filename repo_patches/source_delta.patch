From 386165bc40a821f0889561c8676af59c308b3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 01/63] fix: Model.utility and Model.exputility evaluate at the
 given parameter values

---
 larch/model/controller.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 1df6002..6ede4f9 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -955,7 +955,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 	def exputility(self, x=None, return_dataframe=None):
 		try:
-			arr = self.loglike(persist=PERSIST_EXP_UTILITY).exp_utility
+			arr = self.loglike(x=x, persist=PERSIST_EXP_UTILITY).exp_utility
 		except KeyError:
 			raise NotImplementedError("exputility is not available for this model structure")
 		if return_dataframe == 'names':
@@ -974,7 +974,7 @@ cdef class Model5c(AbstractChoiceModel):
 			return arr
 
 	def utility(self, x=None, return_dataframe=None):
-		arr = self.loglike(persist=PERSIST_UTILITY).utility
+		arr = self.loglike(x=x, persist=PERSIST_UTILITY).utility
 		if return_dataframe == 'names':
 			return pandas.DataFrame(
 				data=arr,
-- 
2.43.0


From b4072801bce753fa181a4b6ee0bcc954138ef893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 02/63] fix: evaluations over a fold never replace the recorded
 best log likelihood

---
 larch/model/controller.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 6ede4f9..56a8a96 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -730,7 +730,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		# if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 		# 	y['dll'] = pandas.Series(y['dll'], index=self.frame.index, )
@@ -796,7 +796,7 @@ cdef class Model5c(AbstractChoiceModel):
 			keep_only=keep_only,
 			subsample=subsample,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 			y['dll'] = pandas.Series(y['dll'], index=self._frame.index, )
@@ -916,7 +916,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out<0 and keep_only<0:
 			self._check_if_best(y.ll)
 		if probability_only:
 			return y.probability
-- 
2.43.0


From 203908a9fde25f5224d7cd5f17d0625787299447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 03/63] fix: LatentClassModel.loglike rejects fold selection it
 cannot honour

---
 larch/model/latentclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 619c10c..1e8a4c8 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -557,6 +557,9 @@ class LatentClassModel(AbstractChoiceModel):
 			The probability as an array, when `probability_only` is True and `persist` is 0.
 			A dictx is returned if `persist` is non-zero.
 		"""
+		if leave_out != -1 or keep_only != -1 or subsample != -1:
+			raise NotImplementedError()
+
 		self.__prep_for_compute(x)
 		pr = self.probability(
 			x=None,
-- 
2.43.0


From 751a6e0a89a92e32b9b9c98cbae5092c81c85545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 04/63] fix: BHHH steps and jump start use the same cases as
 the rest of the fit

---
 larch/model/abstract_model.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4985b13..76fe2bc 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -284,7 +284,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		tolerance = np.dot(direction, current_dll)
 		while True:
 			self.set_values(current + direction * steplen)
-			val = self.loglike()
+			val = self.loglike(leave_out=leave_out, keep_only=keep_only, subsample=subsample)
 			if val > current_ll: break
 			steplen *= 0.5
 			if steplen < 0.01: break
@@ -351,7 +351,10 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		steps = []
 
 		if jumpstart:
-			self.jumpstart_bhhh(jumpstart=jumpstart, jumpstart_split=jumpstart_split)
+			self.jumpstart_bhhh(
+				jumpstart=jumpstart, jumpstart_split=jumpstart_split,
+				leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+			)
 			iter += jumpstart
 
 		current_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(leave_out=leave_out,
-- 
2.43.0


From a0903fa769db26896f06378c7e948dd947b51765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 05/63] fix: BHHH steps after a jump start begin at the
 jump-started values

---
 larch/model/abstract_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 76fe2bc..30e814e 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -346,7 +346,6 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		-------
 		loglike, convergence_tolerance, n_iters, steps
 		"""
-		current_pvals = self.pvals.copy()
 		iter = 0
 		steps = []
 
@@ -357,6 +356,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			)
 			iter += jumpstart
 
+		current_pvals = self.pvals.copy()
 		current_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(leave_out=leave_out,
 																		  keep_only=keep_only,
 																		  subsample=subsample,
-- 
2.43.0


From 42f3a4d88ebd507ba23e317415d12ef6a6261ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 06/63] fix: the BHHH start of maximize_loglike uses the
 selected fold

---
 larch/model/optimization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index 5d081d0..fd1976c 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -205,9 +205,9 @@ def maximize_loglike(
                     callback=callback,
                     minimum_steplen=0.0001,
                     maximum_steplen=1.0,
-                    leave_out=-1,
-                    keep_only=-1,
-                    subsample=-1,
+                    leave_out=leave_out,
+                    keep_only=keep_only,
+                    subsample=subsample,
                     initial_constraint_intensity=1.0,
                     step_constraint_intensity=1.5,
                     max_constraint_intensity=1e6,
-- 
2.43.0


From 44eb679a51a4abe701ef6a56f4c2f54d10dbbec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 07/63] fix: numba engine applies penalties to the arrays it
 returns and reports every failure

---
 larch/numba/model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9f92d87..867bb6e 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1397,12 +1397,12 @@ class NumbaModel(_BaseModel):
 
                 if self.constraint_intensity:
                     penalty, dpenalty, dpenalty_binding = self.constraint_penalty()
-                    self.work_arrays.loglike[caseslice] += penalty
-                    self.work_arrays.d_loglike[caseslice] += np.expand_dims(dpenalty, 0)
-                    self.work_arrays.bhhh[caseslice] = np.einsum(
+                    result_arrays.loglike[:] += penalty
+                    result_arrays.d_loglike[:] += np.expand_dims(dpenalty, 0)
+                    result_arrays.bhhh[:] = np.einsum(
                         'ij,ik->ijk',
-                        self.work_arrays.d_loglike[caseslice],
-                        self.work_arrays.d_loglike[caseslice],
+                        result_arrays.d_loglike,
+                        result_arrays.d_loglike,
                     )
                 else:
                     penalty = 0.0
@@ -1427,8 +1427,7 @@ class NumbaModel(_BaseModel):
             for n, (a, s) in enumerate(zip(self.work_arrays, out_sig_shapes), start=n+1):
                 s = s.rstrip(" ),")
                 print(f" {arg_names[n]:{arg_name_width}} [{n:2}] {s.strip():9}: {dtp(a)}{shp(a)}")
-            if not isinstance(error, RuntimeError):
-                raise
+            raise
         return result_arrays, penalty
 
     @property
-- 
2.43.0


From 3e80098f06ce33a49690b3a79fd75aad35b366cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 08/63] fix: NumbaModel.quantity labels rows with the selected
 case range

---
 larch/numba/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 867bb6e..102b1c3 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1701,6 +1701,9 @@ class NumbaModel(_BaseModel):
         return self._wrap_as_dataframe(
             result_arrays.utility,
             return_dataframe,
+            start_case=start_case,
+            stop_case=stop_case,
+            step_case=step_case,
         )
 
     def logsums(
-- 
2.43.0


From c19c5d1efa479bbb4a38c37913071fc53b10e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 09/63] fix: NumbaModel honours fold selection in every
 evaluation

---
 larch/numba/model.py        | 54 ++++++++++++++++++++++++++++++++-----
 larch/numba/optimization.py | 12 +++++++--
 2 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 102b1c3..ea2de2f 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1330,7 +1330,7 @@ class NumbaModel(_BaseModel):
             )
         return penalty, dpenalty, dpenalty_binding
 
-    def constraint_converge_tolerance(self, x=None):
+    def constraint_converge_tolerance(self, x=None, *, leave_out=-1, keep_only=-1, subsample=-1):
         args = self.__prepare_for_compute(
             x,
             allow_missing_ch=False,
@@ -1351,8 +1351,9 @@ class NumbaModel(_BaseModel):
                 self.work_arrays.loglike[:] += penalty
                 self.work_arrays.d_loglike[:] += np.expand_dims(dpenalty_binding, 0)
                 self.work_arrays.bhhh[:] = np.einsum('ij,ik->ijk', self.work_arrays.d_loglike, self.work_arrays.d_loglike)
-        bhhh = self.work_arrays.bhhh.sum(0)
-        dloglike = self.work_arrays.d_loglike.sum(0)
+        result_arrays = self._select_fold(self.work_arrays, slice(None), leave_out, keep_only, subsample)
+        bhhh = result_arrays.bhhh.sum(0)
+        dloglike = result_arrays.d_loglike.sum(0)
         freedoms = (self.pf.holdfast == 0).to_numpy()
         from .optimization import propose_direction
         direction = propose_direction(bhhh, dloglike, freedoms)
@@ -1369,6 +1370,9 @@ class NumbaModel(_BaseModel):
             start_case=None,
             stop_case=None,
             step_case=None,
+            leave_out=-1,
+            keep_only=-1,
+            subsample=-1,
     ):
         caseslice = slice(start_case, stop_case, step_case)
         args = self.__prepare_for_compute(
@@ -1428,8 +1432,20 @@ class NumbaModel(_BaseModel):
                 s = s.rstrip(" ),")
                 print(f" {arg_names[n]:{arg_name_width}} [{n:2}] {s.strip():9}: {dtp(a)}{shp(a)}")
             raise
+        result_arrays = self._select_fold(result_arrays, caseslice, leave_out, keep_only, subsample)
         return result_arrays, penalty
 
+    def _select_fold(self, arrays, caseslice, leave_out=-1, keep_only=-1, subsample=-1):
+        if leave_out < 0 and keep_only < 0:
+            return arrays
+        fold = np.arange(self.n_cases)[caseslice] % subsample
+        keep = np.ones(fold.shape, dtype=bool)
+        if leave_out >= 0:
+            keep &= (fold != leave_out)
+        if keep_only >= 0:
+            keep &= (fold == keep_only)
+        return WorkArrays(*(arr[keep] for arr in arrays))
+
     @property
     def weight_normalization(self):
         try:
@@ -1442,6 +1458,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs
     ):
         """
@@ -1474,10 +1491,11 @@ class NumbaModel(_BaseModel):
         float
         """
         result_arrays, penalty = self._loglike_runner(
-            x, start_case=start_case, stop_case=stop_case, step_case=step_case
+            x, start_case=start_case, stop_case=stop_case, step_case=step_case,
+            leave_out=leave_out, keep_only=keep_only, subsample=subsample,
         )
         result = result_arrays.loglike.sum() * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if start_case is None and stop_case is None and step_case is None and leave_out < 0 and keep_only < 0:
             self._check_if_best(result)
         return result
 
@@ -1486,6 +1504,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_series=False,
             **kwargs,
     ):
@@ -1494,6 +1513,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = result_arrays.d_loglike.sum(0) * self.weight_normalization
@@ -1506,6 +1528,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1513,6 +1536,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
         )
         return result_arrays.loglike * self.weight_normalization
 
@@ -1521,6 +1547,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1528,6 +1555,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         return result_arrays.d_loglike * self.weight_normalization
@@ -1537,6 +1567,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_dataframe=False,
             **kwargs,
     ):
@@ -1545,6 +1576,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_bhhh=True,
         )
         result = result_arrays.bhhh.sum(0) * self.weight_normalization
@@ -1746,13 +1780,16 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = dictx(
             ll=result_arrays.loglike.sum() * self.weight_normalization,
             dll=result_arrays.d_loglike.sum(0) * self.weight_normalization,
         )
-        if start_case is None and stop_case is None and step_case is None:
+        if start_case is None and stop_case is None and step_case is None and leave_out < 0 and keep_only < 0:
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
@@ -1774,6 +1811,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
             return_bhhh=True,
         )
@@ -1787,7 +1827,7 @@ class NumbaModel(_BaseModel):
             result['ll_casewise'] = result_arrays.loglike * self.weight_normalization
         if persist & PERSIST_D_LOGLIKE_CASEWISE:
             result['dll_casewise'] = result_arrays.d_loglike * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if start_case is None and stop_case is None and step_case is None and leave_out < 0 and keep_only < 0:
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index cc96b7e..30a5295 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -77,6 +77,9 @@ def fit_bhhh(
         model.jumpstart_bhhh(
             jumpstart=jumpstart,
             jumpstart_split=jumpstart_split,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             logger=logger,
         )
         iter += jumpstart
@@ -164,7 +167,9 @@ def fit_bhhh(
                     logger.debug(f"-- proposed_ll {proposed_ll}, current_ll is {current_ll}, will continue")
                 else:
                     logger.debug(f"-- penalty is small ({current_result.penalty * model.n_cases}), checking for converge")
-                    tolerance = model.constraint_converge_tolerance()
+                    tolerance = model.constraint_converge_tolerance(
+                        leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+                    )
                     logger.debug(f"-- tolerance is {tolerance}")
                     if np.absolute(tolerance) < ctol:
                         message = "Constrained optimization terminated successfully."
@@ -210,7 +215,10 @@ def fit_bhhh(
             current_ll = current_result.ll
             current_dll = current_result.dll
             current_bhhh = current_result.bhhh
-            logger.debug(f"  constrained convergence tolerance {model.constraint_converge_tolerance()}")
+            constrained_tolerance = model.constraint_converge_tolerance(
+                leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+            )
+            logger.debug(f"  constrained convergence tolerance {constrained_tolerance}")
 
         direction, tolerance = find_direction(current_dll, current_bhhh)
         logger.debug(f"  convergence tolerance {tolerance}")
-- 
2.43.0


From 25d842873a3ca9563681798c6bc2ccb616c9c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 10/63] fix: NumbaModel drops column positions of the previous
 data when data is replaced

---
 larch/numba/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index ea2de2f..325470b 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1981,6 +1981,8 @@ class NumbaModel(_BaseModel):
             x.check_data_is_sufficient_for_model(self)
         super().set_dataframes(x, check_sufficiency=False, raw=True)
 
+        # the column positions held in the fixed arrays belong to the previous data
+        self._fixed_arrays = None
         self.reflow_data_arrays()
         n_cases = x.n_cases
         if self.graph is None:
-- 
2.43.0


From 762cda9d34247b8cbbf8c5bffbf107e3715291a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 11/63] fix: LatentClassModel relinks its component models
 after one of them is edited

---
 larch/model/latentclass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 1e8a4c8..3f58d43 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -657,8 +657,12 @@ class LatentClassModel(AbstractChoiceModel):
 		for m in self._k_models.values():
 			m.mangle()
 		super().mangle(*args, **kwargs)
+		self._mangled = True
 
 	def unmangle(self, force=False):
+		if self._k_membership._is_mangled() or any(m._is_mangled() for m in self._k_models.values()):
+			# one of the component models was edited, so the parameter frames may no longer be shared
+			self.mangle()
 		super().unmangle(force=force)
 		if self._mangled or force:
 			self._k_membership.unmangle(force=force)
-- 
2.43.0


From fd8a0eb9cdb48a828d28d6ad142a755ee8776664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 12/63] fix: every edit of choice, weight, availability or
 graph settings is noticed by the next evaluation

---
 larch/model/controller.pyx | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 56a8a96..ef35f98 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1105,8 +1105,8 @@ cdef class Model5c(AbstractChoiceModel):
 	@choice_co_vars.setter
 	def choice_co_vars(self, x):
 		if isinstance(x, dict):
-			if self._choice_co_vars != x:
-				self.mangle()
+			# the same dict may have been edited in place, so comparing is not enough
+			self.mangle()
 			self._choice_co_vars = x
 			self._choice_ca_var = None
 			self._choice_co_code = None
@@ -1120,6 +1120,8 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@choice_co_vars.deleter
 	def choice_co_vars(self):
+		if self._choice_co_vars is not None:
+			self.mangle()
 		self._choice_co_vars = None
 
 	@property
@@ -1161,6 +1163,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@choice_any.setter
 	def choice_any(self, x):
+		self.mangle()
 		if x:
 			self._choice_any = True
 			self._choice_co_code = None
@@ -1171,6 +1174,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@choice_any.deleter
 	def choice_any(self):
+		self.mangle()
 		self._choice_any = False
 
 
@@ -1180,6 +1184,8 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@weight_co_var.setter
 	def weight_co_var(self, x):
+		if self._weight_co_var != x:
+			self.mangle()
 		self._weight_co_var = x
 
 	@property
@@ -1191,8 +1197,7 @@ cdef class Model5c(AbstractChoiceModel):
 	def availability_ca_var(self, x):
 		if x is not None:
 			x = str(x)
-		if self._availability_var != x:
-			self.mangle()
+		self.mangle()
 		self._availability_var = x
 		self._availability_co_vars = None
 		self._availability_any = False
@@ -1209,8 +1214,7 @@ cdef class Model5c(AbstractChoiceModel):
 	def availability_var(self, x):
 		if x is not None:
 			x = str(x)
-		if self._availability_var != x:
-			self.mangle()
+		self.mangle()
 		self._availability_var = x
 		self._availability_co_vars = None
 		self._availability_any = False
@@ -1240,8 +1244,8 @@ cdef class Model5c(AbstractChoiceModel):
 		from typing import Mapping
 		if not isinstance(x, Mapping):
 			raise TypeError(f'availability_co_vars must be dict not {type(x)}')
-		if self._availability_co_vars != x:
-			self.mangle()
+		# the same mapping may have been edited in place, so comparing is not enough
+		self.mangle()
 		self._availability_co_vars = x
 		self._availability_var = None
 		self._availability_any = False
@@ -1257,9 +1261,13 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@availability_any.setter
 	def availability_any(self, x):
-		self._availability_any = True
-		self._availability_co_vars = None
-		self._availability_var = None
+		self.mangle()
+		if x:
+			self._availability_any = True
+			self._availability_co_vars = None
+			self._availability_var = None
+		else:
+			self._availability_any = False
 
 
 	@property
@@ -1274,6 +1282,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@graph.setter
 	def graph(self, x):
+		self.mangle()
 		self._graph = x
 
 	def initialize_graph(self, dataframes=None, alternative_codes=None, alternative_names=None, root_id=0):
-- 
2.43.0


From 769871cca9f5578ebfa4635a3f021f7cebcf484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 13/63] fix: a model evaluates with its own structure after its
 dataframes were linked to another model

---
 larch/model/controller.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index ef35f98..7aa54ed 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -844,6 +844,9 @@ cdef class Model5c(AbstractChoiceModel):
 		if x is not None:
 			self.set_values(x)
 		self.unmangle()
+		if self._dataframes._model is not self:
+			# the same dataframes have been linked to another model in the meantime
+			self._refresh_derived_arrays()
 		self._dataframes._read_in_model_parameters()
 		if self._dataframes._data_ch is None:
 			if allow_missing_ch or self._does_not_require_choice:
-- 
2.43.0


From 91bc0877775a6499825b6b34796b3bf3d0864de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 14/63] fix: NestingTree.suggest_elemental_order discards the
 previous node order

---
 larch/model/tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 0278557..c1764c5 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -94,6 +94,7 @@ class NestingTree(nx.DiGraph):
 
     def suggest_elemental_order(self, order):
         self._suggested_elemental_order = tuple(j for j in order if j in self.nodes)
+        self._clear_caches()
 
     @property
     def root_id(self):
-- 
2.43.0


From 81ba7fbb9785d4eb86657821fc46d7614a5c3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 15/63] fix: NestingTree.add_node discards node orders also
 when it fails half way

---
 larch/model/tree.py | 46 +++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index c1764c5..9351ba2 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -233,28 +233,30 @@ class NestingTree(nx.DiGraph):
         """
         if parents is not None and parent is not None:
             raise TypeError("cannot give both parent and parents arguments")
-        super().add_node(code, **kwarg)
-        for child in children:
-            self.add_edge(code, child, _clear_caches=False)
-        if parent is not None:
-            self.add_edge(parent, code, _clear_caches=False)
-        elif parents is not None:
-            for p in parents:
-                self.add_edge(p, code, _clear_caches=False)
-        else:
-            if self.in_degree(code) == 0 and code != self._root_id:
-                self.add_edge(self._root_id, code, implied=True, _clear_caches=False)
-        if phi_parameters is not None:
-            for k, parametername in phi_parameters.items():
-                if (code, k) in self.edges:
-                    self.edges[code, k]["parameter"] = str(parametername)
-                elif (k, code) in self.edges:
-                    self.edges[k, code]["parameter"] = str(parametername)
-                else:
-                    raise ValueError(
-                        f"connected node {k} from phi_parameters not found"
-                    )
-        self._clear_caches()
+        try:
+            super().add_node(code, **kwarg)
+            for child in children:
+                self.add_edge(code, child, _clear_caches=False)
+            if parent is not None:
+                self.add_edge(parent, code, _clear_caches=False)
+            elif parents is not None:
+                for p in parents:
+                    self.add_edge(p, code, _clear_caches=False)
+            else:
+                if self.in_degree(code) == 0 and code != self._root_id:
+                    self.add_edge(self._root_id, code, implied=True, _clear_caches=False)
+            if phi_parameters is not None:
+                for k, parametername in phi_parameters.items():
+                    if (code, k) in self.edges:
+                        self.edges[code, k]["parameter"] = str(parametername)
+                    elif (k, code) in self.edges:
+                        self.edges[k, code]["parameter"] = str(parametername)
+                    else:
+                        raise ValueError(
+                            f"connected node {k} from phi_parameters not found"
+                        )
+        finally:
+            self._clear_caches()
 
     def new_node(self, *, code=None, **kwarg):
         """
-- 
2.43.0


From 844fb88cd627118c7c7c4f5fc46f052341d26f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 16/63] fix: NestingTree bulk edits inherited from networkx
 discard node orders

---
 larch/model/tree.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 9351ba2..59bb994 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -331,6 +331,38 @@ class NestingTree(nx.DiGraph):
                 super().add_edge(h, k[1], **attrs)
         self._clear_caches()
 
+    def add_nodes_from(self, nodes_for_adding, **attr):
+        try:
+            super().add_nodes_from(nodes_for_adding, **attr)
+        finally:
+            self._clear_caches()
+
+    def add_edges_from(self, ebunch_to_add, **attr):
+        try:
+            super().add_edges_from(ebunch_to_add, **attr)
+        finally:
+            self._clear_caches()
+
+    def remove_nodes_from(self, nodes):
+        try:
+            super().remove_nodes_from(nodes)
+        finally:
+            self._clear_caches()
+
+    def remove_edges_from(self, ebunch):
+        try:
+            super().remove_edges_from(ebunch)
+        finally:
+            self._clear_caches()
+
+    def clear(self):
+        super().clear()
+        self._clear_caches()
+
+    def clear_edges(self):
+        super().clear_edges()
+        self._clear_caches()
+
     @lazy
     def topological_sorted(self):
         return list(reverse_lexicographical_topological_sort(self))
-- 
2.43.0


From 34d59edf003650321b9ec4f99edd15d8cc68a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 17/63] fix: LinearFunction_C.remove_data and remove_param
 notify the owning model

---
 larch/model/linear.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 60fde86..b1bf724 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -878,6 +878,7 @@ cdef class LinearFunction_C:
 			i -= 1
 			if self._func[i].data == data:
 				del self._func[i]
+		_try_mangle(self._instance)
 		return self
 
 	def remove_param(self, param):
@@ -900,6 +901,7 @@ cdef class LinearFunction_C:
 			i -= 1
 			if self._func[i].param == param:
 				del self._func[i]
+		_try_mangle(self._instance)
 		return self
 
 	def __len__(self):
-- 
2.43.0


From 973416d1c555e2de46aaf5ac5a8a08dddcc30bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 18/63] fix: functions obtained by iterating over a collection
 of utility functions notify the model

---
 larch/model/linear.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index b1bf724..c44af98 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -1445,9 +1445,13 @@ cdef class DictOfLinearFunction_C:
 		return self._map.keys()
 
 	def items(self):
+		for v in self._map.values():
+			v.set_instance(self._instance)
 		return self._map.items()
 
 	def values(self):
+		for v in self._map.values():
+			v.set_instance(self._instance)
 		return self._map.values()
 
 	def copy(self):
-- 
2.43.0


From 025412b4ebd229de62946011469fa10349c48fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 19/63] fix: a utility function assigned to two models is not
 taken away from the first

---
 larch/model/linear.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index c44af98..bdf000a 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -1427,6 +1427,9 @@ cdef class DictOfLinearFunction_C:
 			raise TypeError(f"values in {self.__class__} can only have type LinearFunction_C, not {type(v)}")
 		if "with error" in repr(v):
 			raise ValueError("found error here")
+		if (<LinearFunction_C>v)._instance is not None and (<LinearFunction_C>v)._instance is not self._instance:
+			# this function is already part of another model, which must be told about edits too
+			v = LinearFunction_C(v)
 		v.set_instance(self._instance)
 		self._map[k] = v
 		_try_mangle(self._instance)
-- 
2.43.0


From d316438121454f840f941fc352a165ed1b8a4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 20/63] fix: a rejected utility function or collection
 assignment leaves the previous content in place

---
 larch/model/linear.pyx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index bdf000a..26a7144 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -774,13 +774,15 @@ cdef class LinearFunction_C:
 		if init is not None and init != 0:
 			# Copy contents of init, stabilizes functionality of iadd
 			init_ = list(init)
-		self._func = list()
+		func = list()
 		if init is not None and init != 0:
 			for i in init_:
 				if isinstance(i, LinearComponent_C):
-					self._func.append(i)
+					func.append(i)
 				else:
 					raise TypeError(f'members of {self.__class__.__name__} must be LinearComponent_C')
+		# only replace the content once all of it has been accepted
+		self._func = func
 
 	def set_instance(self, instance):
 		self._instance = instance
@@ -1335,19 +1337,21 @@ cdef class LinearFunction_C:
 cdef class DictOfLinearFunction_C:
 
 	def __init__(self, mapping=None, alts_validator=None, **kwargs):
-		self._map = {}
+		new_map = {}
 		if mapping is None:
 			mapping = {}
 		for k,v in mapping.items():
-			self._map[k] = LinearFunction_C(v)
+			new_map[k] = LinearFunction_C(v)
 		for k,v in kwargs.items():
 			try:
-				self._map[k] = LinearFunction_C(v)
+				new_map[k] = LinearFunction_C(v)
 			except:
 				print(v)
 				print(type(v))
 				raise
 
+		# only replace the content once all of it has been accepted
+		self._map = new_map
 		self._alts_validator = alts_validator
 		#self._instance = None
 
-- 
2.43.0


From c4bce2f956d9bddcbcf5419114e0f92f740ac876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 21/63] fix: a rejected constraint list leaves the previous
 constraints in place

---
 larch/model/constraints.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 5827e08..cb23316 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -395,14 +395,16 @@ from collections.abc import MutableSequence
 class ParametricConstraintList(MutableSequence):
 
     def __init__(self, init=None):
-        self._cx = list()
-        self.allow_dupes = False
+        cx = list()
         if init is not None:
             for i in init:
                 if isinstance(i, ParametricConstraint):
-                    self._cx.append(i)
+                    cx.append(i)
                 else:
                     raise TypeError(f'members of {self.__class__.__name__} must be ParametricConstraint')
+        # only replace the content once all of it has been accepted
+        self._cx = cx
+        self.allow_dupes = False
 
     def set_instance(self, instance):
         self._instance = instance
-- 
2.43.0


From 3ada35991488163c6628bf467cb69460a3ae5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 22/63] fix: rescaling constraints notifies the owning model

---
 larch/model/constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index cb23316..9ed8153 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -522,6 +522,10 @@ class ParametricConstraintList(MutableSequence):
                 self._cx[index].link_model(self._instance, np.exp(np.random.uniform(-3, 3)))
             else:
                 self._cx[index].link_model(self._instance, scale)
+        try:
+            self._instance.mangle()
+        except AttributeError as err:
+            pass
 
 
 def asfloat(x):
-- 
2.43.0


From 9b4c2b96c2a17f3a089afb689807850a0d2aa4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 23/63] fix: a constraint inserted at any position is itself
 linked to the model

---
 larch/model/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 9ed8153..88a4644 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -499,7 +499,7 @@ class ParametricConstraintList(MutableSequence):
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[index].link_model(self._instance)
+            value.link_model(self._instance)
 
     def __repr__(self):
         return repr(self._cx)
-- 
2.43.0


From 95e94c3665fe87875a517768f51ea639299ad1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 24/63] fix: LinearFunction_C.extend accepts iterators

---
 larch/model/linear.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 26a7144..575fc3c 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -918,6 +918,7 @@ cdef class LinearFunction_C:
 		_try_mangle(self._instance)
 
 	def extend(self, values):
+		values = list(values)
 		for v in values:
 			if not isinstance(v, LinearComponent_C):
 				raise TypeError("cannot add type {} to LinearFunction".format(type(v)))
-- 
2.43.0


From 7e7af62c20f48ac09659e5df3e1ba3cb91fd267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 25/63] fix: latent class BHHH matrix no longer overwrites its
 own temporary (aliased output and scratch)

---
 larch/model/nl.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 881309d..0bcb627 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -273,6 +273,7 @@ def d_loglike_from_d_probability(
 		int c = 0
 		int n_alts = probability.shape[1]
 		int n_params = d_probability.shape[2]
+		l4_float_t[:] d_LL_case
 		l4_float_t[:] d_LL_temp
 		l4_float_t[:] d_LL_cum
 		l4_float_t[:,:] bhhh_temp
@@ -283,6 +284,7 @@ def d_loglike_from_d_probability(
 		if probability.shape[0] != array_ch.shape[0] or probability.shape[1] != array_ch.shape[1]:
 			raise ValueError(f"probabilities.shape ~= choices.shape {probability.shape} != {array_ch.shape}")
 
+		d_LL_case = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_temp = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_cum = numpy.zeros(n_params, dtype=l4_float_dtype)
 		if return_bhhh:
@@ -302,7 +304,7 @@ def d_loglike_from_d_probability(
 					n_alts,
 					probability[c],
 					d_probability[c],
-					d_LL_temp,
+					d_LL_case,
 					array_ch[c],
 					wt,
 					return_bhhh,
-- 
2.43.0


From 8799c87d443fa22ad19d6e2e30f11b1d20996e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 26/63] fix: weighted latent class likelihood: pass weights as
 an array and apply the weight normalization

---
 larch/model/latentclass.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 3f58d43..0d31a02 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -412,9 +412,10 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case]
 		else:
 			wt = None
+		weight_normalization = self.dataframes.weight_normalization
 
 		ch = self.dataframes.array_ch()[start_case:stop_case_:step_case]
 
@@ -422,7 +423,7 @@ class LatentClassModel(AbstractChoiceModel):
 			pr,
 			ch,
 			wt
-		)
+		) * weight_normalization
 
 		if persist & persist_flags.PERSIST_PROBABILITY:
 			y.probability = pr
@@ -435,6 +436,7 @@ class LatentClassModel(AbstractChoiceModel):
 				wt,
 				True
 			)
+			y.bhhh *= weight_normalization
 		else:
 			y.dll = d_loglike_from_d_probability(
 				pr,
@@ -443,6 +445,7 @@ class LatentClassModel(AbstractChoiceModel):
 				wt,
 				False
 			)
+		y.dll *= weight_normalization
 
 		if start_case==0 and (stop_case==-1 or stop_case==self.n_cases) and step_case==1:
 			self._check_if_best(y.ll)
@@ -578,7 +581,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes is not None and self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt().reshape(-1)[start_case:stop_case_:step_case]
 		elif getattr(self._k_membership, 'data_as_loaded', None) is not None and 'wt' in self._k_membership.data_as_loaded:
 			wt = self._k_membership.data_as_loaded['wt'].values[start_case:stop_case_:step_case]
 		else:
@@ -600,6 +603,8 @@ class LatentClassModel(AbstractChoiceModel):
 			ch[start_case:stop_case_:step_case],
 			wt
 		)
+		if self.dataframes is not None:
+			y.ll *= self.dataframes.weight_normalization
 
 		if start_case==0 and (stop_case==-1 or stop_case==self.n_cases) and step_case==1:
 			self._check_if_best(y.ll)
-- 
2.43.0


From 114a683ddb018e84e63dab1a716b8d8b33a6b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 27/63] fix: casewise log likelihood includes the weight
 normalization factor

---
 larch/model/mnl.pyx | 2 +-
 larch/model/nl.pyx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index d887839..b07fe8b 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -658,7 +658,7 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		if persist & PERSIST_UTILITY:
 			result.utility=raw_utility.base
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise=LL_case.base
+			result.ll_casewise=LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_EXP_UTILITY:
 			result.exp_utility=exp_utility.base
 		if persist & PERSIST_PROBABILITY:
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 0bcb627..a121817 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -698,7 +698,7 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 			result.bhhh = bhhh
 
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise = LL_case.base
+			result.ll_casewise = LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_UTILITY:
 			result.utility = raw_utility.base
 		if persist & PERSIST_D_UTILITY:
-- 
2.43.0


From 64cb253b110744a4fb880f598e521a468a7f5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 28/63] fix: array engine honours availability when idce data
 is used

---
 larch/numba/model.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 325470b..67c527b 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -111,9 +111,11 @@ def quantity_from_data_ca(
         for row in range(array_ce_ptr[0], array_ce_ptr[1]):
             while array_ce_indices[row] > j:
                 # skipped alts are unavail, i.e. have zero size
-                utility_elem[j] = 0
+                utility_elem[j] = -np.inf
                 j += 1
-            if model_q_ca_param.shape[0]:
+            if not array_av[j]:
+                utility_elem[j] = -np.inf
+            elif model_q_ca_param.shape[0]:
                 for i in range(model_q_ca_param.shape[0]):
                     _temp = (
                             array_ce_data[row, model_q_ca_data[i]]
@@ -136,7 +138,7 @@ def quantity_from_data_ca(
             j += 1
         while n_alts > j:
             # skipped alts are unavail, i.e. have zero size
-            utility_elem[j] = 0
+            utility_elem[j] = -np.inf
             j += 1
     else:
 
@@ -198,12 +200,15 @@ def utility_from_data_ca(
                 utility_elem[j] = -np.inf
                 j += 1
             # j = array_ce_indices[row] # happens naturally
-            for i in range(model_utility_ca_param.shape[0]):
-                _temp = array_ce_data[row, model_utility_ca_data[i]]
-                _temp *= model_utility_ca_param_scale[i]
-                utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
-                if not holdfast_arr[model_utility_ca_param[i]]:
-                    dutility_elem[j, model_utility_ca_param[i]] += _temp
+            if array_av[j]:
+                for i in range(model_utility_ca_param.shape[0]):
+                    _temp = array_ce_data[row, model_utility_ca_data[i]]
+                    _temp *= model_utility_ca_param_scale[i]
+                    utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
+                    if not holdfast_arr[model_utility_ca_param[i]]:
+                        dutility_elem[j, model_utility_ca_param[i]] += _temp
+            else:
+                utility_elem[j] = -np.inf
             j += 1
         while n_alts > j:
             # skipped alts are unavail
-- 
2.43.0


From 118b29c1d35249ed2f3a3c5320860c2ed0e59859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 29/63] fix: array engine leaves derivatives of held nesting
 parameters at zero

---
 larch/numba/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 67c527b..279495b 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -422,11 +422,11 @@ def _numba_utility_to_loglike(
                     cond_prob = conditional_probability[dn]
                     if dn >= n_alts:
                         dn_mu_slot = mu_slots[dn-n_alts]
-                        if dn_mu_slot >= 0:
+                        if dn_mu_slot >= 0 and not holdfast_arr[dn_mu_slot]:
                             dutility[dn, dn_mu_slot] += utility[dn]
                             dutility[dn, dn_mu_slot] /= parameter_arr[dn_mu_slot]
                     up_mu_slot = mu_slots[up - n_alts]
-                    if up_mu_slot >= 0:
+                    if up_mu_slot >= 0 and not holdfast_arr[up_mu_slot]:
                         # FIXME: alpha slots to appear here if cross-nesting is activated
                         dutility[up, up_mu_slot] -= cond_prob * (utility[dn])
                     dutility[up, :] += cond_prob * dutility[dn, :]
@@ -470,7 +470,7 @@ def _numba_utility_to_loglike(
                     for p in range(parameter_arr.size):
                         if mu_up:
                             scratch_ = dutility[dn, p] - dutility[up, p]
-                            if p == up_mu_slot:
+                            if p == up_mu_slot and not holdfast_arr[p]:
                                 scratch_ += (utility[up] - utility[dn]) / mu_up
                                 # FIXME: alpha slots to appear here if cross-nesting is activated
                             scratch_ *= probability[up] / mu_up
-- 
2.43.0


From f732a39d6ff0d858e6f923d52b2a1e68f6e5b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 30/63] fix: repeated evaluations sum the log likelihood in the
 same order

---
 larch/model/mnl.pyx | 3 ++-
 larch/model/nl.pyx  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index b07fe8b..2b9e172 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -622,7 +622,6 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 					probability[store_number_P], # output
 					dfs._array_ch[c,:],
 				) * weight
-				ll += ll_temp
 				LL_case[store_number_LLc] += ll_temp
 
 				if return_dll:
@@ -644,6 +643,8 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 
 		if probability_only:
 			ll = numpy.nan
+		else:
+			ll = LL_case.base.sum() # in a fixed order, unlike a reduction over threads
 
 		ll *= dfs._weight_normalization
 		if return_dll:
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index a121817..8d0e7f8 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -620,7 +620,6 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 					dfs._array_ch[c,:],                       # input [n_alts]
 				) * weight
 				LL_case[store_number_LLc] += ll_temp
-				ll += ll_temp
 
 				if return_dll:
 					_nl_d_utility_upstream_v2(
@@ -677,6 +676,8 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 
 		if probability_only:
 			ll = numpy.nan
+		else:
+			ll = LL_case.base.sum() # in a fixed order, unlike a reduction over threads
 
 		ll *= dfs._weight_normalization
 		if return_dll:
-- 
2.43.0


From 549955181474a77bc7abc1cc630f98918b2b5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 31/63] fix: derivatives of the probability of unavailable
 alternatives in nests are zero, not NaN

---
 larch/model/nl.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 8d0e7f8..07e4b5b 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -181,7 +181,7 @@ cdef void _nl_d_probability_from_d_utility(
 	for reversi_edge in range(n_edges):
 		edge = n_edges-reversi_edge-1
 		child  = dns[edge]
-		if True or array_ch[child]:
+		if log_cond_probability[edge] > -INFINITY32: # otherwise the derivative stays zero
 			parent = ups[edge]
 			for param in range(n_params):
 				scratch[param] = (d_utility[child, param] - d_utility[parent, param])
-- 
2.43.0


From e79b769ec3a6907a454d0ca08866967998ab1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 32/63] fix: batch_update checks for changed values also when
 its body raises

---
 larch/model/parameter_frame.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index 8150219..0157af6 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -457,7 +457,7 @@ cdef class ParameterFrame:
 			yield
 		finally:
 			self._batch_update_lock_level -= 1
-		self._check_if_frame_values_changed()
+			self._check_if_frame_values_changed()
 
 	def get_value(self, name, *, default=None):
 		if name is None and default is not None:
-- 
2.43.0


From c9d5aa73c180b3fedd941970f2cfdab0e4a52453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 33/63] fix: probability-only evaluations do not hand out log
 likelihoods and gradients they have not computed

---
 larch/model/mnl.pyx | 7 ++++++-
 larch/model/nl.pyx  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index 2b9e172..b56d0b2 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -535,6 +535,11 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		if stop_case<0:
 			stop_case = n_cases
 
+		if probability_only:
+			# nothing that depends on choices is computed
+			return_dll = False
+			return_bhhh = False
+
 		if return_bhhh:
 			# must compute dll to get bhhh
 			return_dll = True
@@ -658,7 +663,7 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		)
 		if persist & PERSIST_UTILITY:
 			result.utility=raw_utility.base
-		if persist & PERSIST_LOGLIKE_CASEWISE:
+		if persist & PERSIST_LOGLIKE_CASEWISE and not probability_only:
 			result.ll_casewise=LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_EXP_UTILITY:
 			result.exp_utility=exp_utility.base
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 07e4b5b..a40b73b 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -503,6 +503,11 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 		if stop_case<0:
 			stop_case = n_cases
 
+		if probability_only:
+			# nothing that depends on choices is computed
+			return_dll = False
+			return_bhhh = False
+
 		if return_bhhh:
 			# must compute dll to get bhhh
 			return_dll = True
@@ -698,7 +703,7 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 		if return_bhhh:
 			result.bhhh = bhhh
 
-		if persist & PERSIST_LOGLIKE_CASEWISE:
+		if persist & PERSIST_LOGLIKE_CASEWISE and not probability_only:
 			result.ll_casewise = LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_UTILITY:
 			result.utility = raw_utility.base
-- 
2.43.0


From 43bd098b7ebf1e98572ce9d1d75c9c6d9fd7fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 34/63] fix: neg_loglike3 returns the values it has computed

---
 larch/model/abstract_model.pyx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 30e814e..cdd34fd 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -447,10 +447,8 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		return -np.asarray(result)
 
 	def neg_loglike3(self, *args, **kwargs):
-		from ..util import dictx
-		result = dictx()
 		part = self.loglike3(*args, **kwargs)
-		return (-result.ll, -result.dll, -result.d2ll)
+		return (-part.ll, -part.dll, -part.d2ll)
 
 	def _check_if_best(self, computed_ll, pvalues=None):
 		if computed_ll > self._cached_loglike_best:
-- 
2.43.0


From ef3b14195dd0b83c8f6f6ed8a7926f21076a71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 35/63] fix: loglike_null and likelihood_ratio restore
 parameter values when the evaluation raises

---
 larch/model/abstract_model.pyx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index cdd34fd..1c00e1a 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -735,9 +735,11 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			raise ValueError("no cached value")
 		else:
 			current_parameters = self.get_values()
-			self.set_values('null')
-			self._cached_loglike_null = self.loglike()
-			self.set_values(current_parameters)
+			try:
+				self.set_values('null')
+				self._cached_loglike_null = self.loglike()
+			finally:
+				self.set_values(current_parameters)
 			return self._cached_loglike_null
 
 	def rho_sq_null(self, x=None, use_cache=True, adj=False):
@@ -1280,9 +1282,11 @@ cdef class AbstractChoiceModel(ParameterFrame):
 						self.pf.loc[param, 'likelihood_ratio'] = 0
 					return 0
 				else:
-					self.set_value(param, ref_value)
-					ll_alt = self.loglike()
-					self.set_value(param, current_value)
+					try:
+						self.set_value(param, ref_value)
+						ll_alt = self.loglike()
+					finally:
+						self.set_value(param, current_value)
 					like_ratio = _current_ll - ll_alt
 					if ref_value_orig is None:
 						self.pf.loc[param, 'likelihood_ratio'] = like_ratio
-- 
2.43.0


From 40092e16dcfd1e9141c5ca4c6e0516f45e5a3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:26 +0000
Subject: [PATCH 36/63] fix: setting the shape of an OMX file with data rejects
 any differing dimension

---
 larch/omx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/omx.py b/larch/omx.py
index ef9f1ae..736dda0 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -177,7 +177,7 @@ class OMX(_omx_base_class):
 	@shape.setter
 	def shape(self, x):
 		if self.data._v_nchildren > 0:
-			if x[0] != self.shape[0] and x[1] != self.shape[1]:
+			if x[0] != self.shape[0] or x[1] != self.shape[1]:
 				raise OMXIncompatibleShape('this omx has shape {!s} but you want to set {!s}'.format(self.shape, x))
 		if self.data._v_nchildren == 0:
 			shp = numpy.empty(2, dtype=int)
-- 
2.43.0


From 52e8ff965e9ec0767c8780d65401e1f00c9248e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:26 +0000
Subject: [PATCH 37/63] fix: cropping an OMX file no longer fails part way
 through its matrices and lookups

---
 larch/omx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 736dda0..058f6b3 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -200,14 +200,14 @@ class OMX(_omx_base_class):
 		if shape0 != shape1 and start0 == start1:
 			raise TypeError(
 				'do not automatically crop a square array into a non-square shape, results may be ambiguous')
-		for i in self.data._v_children:
+		for i in list(self.data._v_children):
 			self.add_matrix(i, self.data._v_children[i][:shape0, :shape1], overwrite=True, complevel=complevel,
 			                complib=complib, ignore_shape=True)
-		for i in self.lookup._v_children:
+		for i in list(self.lookup._v_children):
 			if self.lookup[i].shape[0] == start0:
 				self.add_lookup(i, self.lookup._v_children[i][:shape0], overwrite=True, complevel=complevel,
 				                complib=complib, ignore_shape=True)
-			elif self.lookup[i].shape[1] == start1:
+			elif self.lookup[i].shape[0] == start1:
 				self.add_lookup(i, self.lookup._v_children[i][:shape1], overwrite=True, complevel=complevel,
 				                complib=complib, ignore_shape=True)
 		shp = numpy.empty(2, dtype=int)
-- 
2.43.0


From 539df8b7a5399ff80a87db7f7d4b527721899a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:27 +0000
Subject: [PATCH 38/63] fix: changing the atom type of an OMX lookup works when
 its length is not the first dimension

---
 larch/omx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 058f6b3..1567e76 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -401,11 +401,11 @@ class OMX(_omx_base_class):
 		                          **kwargs)
 
 	def change_all_atoms_of_type(self, oldatom, newatom):
-		for name in self.data._v_children:
+		for name in list(self.data._v_children):
 			if self.data._v_children[name].dtype == oldatom:
 				print("changing matrix {} from {} to {}".format(name, oldatom, newatom))
 				self.change_atom_type(name, newatom, matrix=True, lookup=False)
-		for name in self.lookup._v_children:
+		for name in list(self.lookup._v_children):
 			if self.lookup._v_children[name].dtype == oldatom:
 				print("changing lookup {} from {} to {}".format(name, oldatom, newatom))
 				self.change_atom_type(name, newatom, matrix=False, lookup=True)
@@ -430,8 +430,8 @@ class OMX(_omx_base_class):
 		if lookup:
 			if name in self.lookup._v_children:
 				orig = self.lookup._v_children[name]
-				neww = self.add_blank_lookup(name + "_temp_atom", atom=atom)
-				for i in range(self.shape[0]):
+				neww = self.add_blank_lookup(name + "_temp_atom", atom=atom, shape=orig.shape[0])
+				for i in range(orig.shape[0]):
 					neww[i] = orig[i]
 				if require_smaller and neww.size_on_disk >= orig.size_on_disk:
 					warnings.warn(
-- 
2.43.0


From 73fecde4977407ab1f683fa4f9d98a4c9bbc8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 39/63] fix: overwriting an OMX matrix or lookup keeps the old
 one until the new one is stored

---
 larch/omx.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/larch/omx.py b/larch/omx.py
index 1567e76..69ad126 100755
--- a/larch/omx.py
+++ b/larch/omx.py
@@ -309,6 +309,17 @@ class OMX(_omx_base_class):
 		return self.create_carray(self.data, name, atom=atom, shape=shape,
 		                          filters=_tb.Filters(complib=complib, complevel=complevel), **kwargs)
 
+	def _store_carray(self, where, name, **kwargs):
+		# An existing node is only given up after its replacement has been stored.
+		if name not in where._v_children:
+			return self.create_carray(where, name, **kwargs)
+		temp_name = name + "_temp_store"
+		while temp_name in where._v_children:
+			temp_name += "_"
+		node = self.create_carray(where, temp_name, **kwargs)
+		node._f_rename(name, overwrite=True)
+		return node
+
 	def add_matrix(self, name, obj, *, overwrite=False, complevel=1, complib='zlib', ignore_shape=False, **kwargs):
 		"""
 		Adds a matrix to the OMX file.
@@ -350,9 +361,7 @@ class OMX(_omx_base_class):
 			self.root._v_attrs.SHAPE = shp
 		if name in self.data._v_children and not overwrite:
 			raise TypeError('{} exists'.format(name))
-		if name in self.data._v_children:
-			self.remove_node(self.data, name)
-		return self.create_carray(self.data, name, obj=obj,
+		return self._store_carray(self.data, name, obj=obj,
 								  filters=_tb.Filters(complib=complib, complevel=complevel),
 		                          **kwargs)
 
@@ -394,9 +403,7 @@ class OMX(_omx_base_class):
 			raise OMXIncompatibleShape("don't add lookup to omx with no data and no shape")
 		if name in self.lookup._v_children and not overwrite:
 			raise TypeError('{} exists'.format(name))
-		if name in self.lookup._v_children:
-			self.remove_node(self.lookup, name)
-		return self.create_carray(self.lookup, name, obj=obj,
+		return self._store_carray(self.lookup, name, obj=obj,
 								  filters=_tb.Filters(complib=complib, complevel=complevel),
 		                          **kwargs)
 
-- 
2.43.0


From 92c942fec0fe9251460f7a745b40904cf0f74928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:03 +0000
Subject: [PATCH 40/63] fix: a parameter reference hashes like the plain name
 it is equal to

---
 larch/roles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/roles.py b/larch/roles.py
index 7ebb548..9c4776d 100755
--- a/larch/roles.py
+++ b/larch/roles.py
@@ -496,7 +496,7 @@ class ParameterRef(str, metaclass=Role):
 		return False
 
 	def __hash__(self):
-		return hash(repr(self))
+		return hash(super().__str__())
 
 	def _to_Linear(self):
 		return LinearComponent(param=str(self), data="1")
-- 
2.43.0


From 2f279496ba5e327837320e08fd8ddf4d7d5d9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 41/63] fix: pickling a model leaves its estimation result
 unchanged

---
 larch/model/controller.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 7aa54ed..ee1e7b4 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -103,7 +103,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 		mrer = self._most_recent_estimation_result
 		if mrer is not None and 'dashboard' in mrer:
-			del mrer['dashboard']
+			mrer = {k: v for k, v in mrer.items() if k != 'dashboard'}
 
 		state = dict()
 		state["utility_ca                     ".strip()] = (self.utility_ca.copy()              )
@@ -125,7 +125,7 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_display_order                 ".strip()] = (self._display_order                 )
 		state["_display_order_tail            ".strip()] = (self._display_order_tail            )
 		state["_possible_overspecification    ".strip()] = (self._possible_overspecification    )
-		state["_most_recent_estimation_result ".strip()] = (self._most_recent_estimation_result )
+		state["_most_recent_estimation_result ".strip()] = (mrer                                )
 		state["_cached_loglike_null           ".strip()] = (self._cached_loglike_null           )
 		state["_cached_loglike_nil            ".strip()] = (self._cached_loglike_nil            )
 		state["_cached_loglike_constants_only ".strip()] = (self._cached_loglike_constants_only )
-- 
2.43.0


From f2d47de7c3dcb8bf6309fff7c563045d5036f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 42/63] fix: constraints survive copying and pickling a model

---
 larch/model/controller.pyx | 5 +++++
 larch/model/model.py       | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index ee1e7b4..9321ab4 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -132,6 +132,7 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_cached_loglike_best           ".strip()] = (self._cached_loglike_best           )
 		state["_title                         ".strip()] = (self._title                         )
 		state["_matrixes                      ".strip()] = (self._matrixes                      )
+		state["constraints                    ".strip()] = list(getattr(self, "constraints", ()))
 
 		state = cloudpickle.dumps(state)
 		state = gzip.compress(state)
@@ -176,6 +177,10 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._title                         ) = state["_title                         ".strip()]
 		(self._matrixes                      ) = state["_matrixes                      ".strip()]
 
+		constraints = state.get("constraints")
+		if constraints:
+			self.constraints = constraints
+
 		self.unmangle(True)
 		self.n_threads = 0
 		self._prior_frame_values = None
diff --git a/larch/model/model.py b/larch/model/model.py
index 8c58d3a..202ad53 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -165,6 +165,8 @@ class Model(_Model5c):
 		super().__init__(**kwargs)
 		if model is not None:
 			self.__setstate__(model.__getstate__())
+			if constraints is not None:
+				self.constraints = constraints
 			if dataservice is None:
 				self.dataservice = model.dataservice
 			self.dataframes = model.dataframes
-- 
2.43.0


From 3273909ea8226e6f2d84a797361cf6f72d7ca348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 43/63] fix: a model without a data service can be copied

---
 larch/model/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 202ad53..db0e24c 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -167,7 +167,7 @@ class Model(_Model5c):
 			self.__setstate__(model.__getstate__())
 			if constraints is not None:
 				self.constraints = constraints
-			if dataservice is None:
+			if dataservice is None and model.dataservice is not None:
 				self.dataservice = model.dataservice
 			self.dataframes = model.dataframes
 		if dataservice is not None:
@@ -756,7 +756,8 @@ class Model(_Model5c):
 		"""
 		import pickle
 		result = pickle.loads(self.dumps())
-		result.dataservice = self.dataservice
+		if self.dataservice is not None:
+			result.dataservice = self.dataservice
 		result._graph = result.graph
 		return result
 
-- 
2.43.0


From 741529e13ed554b27f8543ee69ea20009bb56654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 44/63] fix: a copied or unpickled model keeps its scikit-learn
 data format

---
 larch/model/controller.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 9321ab4..7a043e9 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -133,6 +133,7 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_title                         ".strip()] = (self._title                         )
 		state["_matrixes                      ".strip()] = (self._matrixes                      )
 		state["constraints                    ".strip()] = list(getattr(self, "constraints", ()))
+		state["_sklearn_data_format           ".strip()] = getattr(self, "_sklearn_data_format", None)
 
 		state = cloudpickle.dumps(state)
 		state = gzip.compress(state)
@@ -177,6 +178,10 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._title                         ) = state["_title                         ".strip()]
 		(self._matrixes                      ) = state["_matrixes                      ".strip()]
 
+		sklearn_data_format = state.get("_sklearn_data_format")
+		if sklearn_data_format is not None:
+			self._sklearn_data_format = sklearn_data_format
+
 		constraints = state.get("constraints")
 		if constraints:
 			self.constraints = constraints
-- 
2.43.0


From ebb345773a813da51455495215efb96a8bcc08ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 45/63] fix: subtracting a parameter from zero gives its
 negative

---
 larch/model/linear.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 575fc3c..c23e98a 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -117,8 +117,6 @@ cdef class ParameterRef_C(UnicodeRef_C):
 				from .linear_math import ParameterSubtract
 				return ParameterSubtract(self, other)
 		elif isinstance(other, ParameterRef_C):
-			if self == 0:
-				return other
 			if isinstance(self, (LinearComponent_C, LinearFunction_C)):
 				return self - LinearComponent_C(param=str(other), data="1")
 			if isinstance(self, _Number):
-- 
2.43.0


From 3bba3f2cb77fe38f0cd564e659a0a8f3d320668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 46/63] fix: adding data to the duplicate-term marker keeps the
 data

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index c23e98a..8500f01 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -283,7 +283,7 @@ cdef class DataRef_C(UnicodeRef_C):
 				return self
 			# Double zero is trapped here as it is used to flag duplicate terms in a utility function.
 			if self == "00":
-				return DataRef_C("0+{}".format(parenthize(self), parenthize(other, True)))
+				return DataRef_C("0+{}".format(parenthize(other, True)))
 			if other == "00":
 				return DataRef_C("{}+0".format(parenthize(self), parenthize(other, True)))
 			return DataRef_C("{}+{}".format(parenthize(self), parenthize(other, True)))
-- 
2.43.0


From 497ededc7c31cd5e4b064445a82171871a048205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 47/63] fix: adding a linear function to itself in place ends

---
 larch/model/linear.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 8500f01..1cae407 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -959,7 +959,7 @@ cdef class LinearFunction_C:
 		if other == () or other == 0:
 			return self
 		elif isinstance(other, LinearFunction_C):
-			self._func.extend(other)
+			self._func.extend(list(other))
 			_try_mangle(self._instance)
 		elif isinstance(other, LinearComponent_C):
 			self.append(other)
-- 
2.43.0


From da77b59fe459f4e0ca42f7c4b08047b4f6d84fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:52 +0000
Subject: [PATCH 48/63] fix: operators on linear functions return a new
 function

---
 larch/model/linear.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 1cae407..51584b9 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -926,7 +926,7 @@ cdef class LinearFunction_C:
 	def __add__(self, other):
 		if isinstance(self, LinearFunction_C):
 			if other == () or other == 0:
-				return self
+				return self.__class__(self)
 			if isinstance(other, LinearFunction_C):
 				return self.__class__([*list(self), *list(other)])
 			if isinstance(other, ParameterRef_C):
@@ -944,7 +944,7 @@ cdef class LinearFunction_C:
 					pass
 		if isinstance(other, LinearFunction_C):
 			if self == () or self == 0:
-				return other
+				return other.__class__(other)
 			from .linear_math import _ParameterOp, ParameterAdd
 			if isinstance(self, (_ParameterOp, _Number)):
 				try:
@@ -968,7 +968,7 @@ cdef class LinearFunction_C:
 		return self
 
 	def __pos__(self):
-		return self
+		return self.__class__(self)
 
 	def __neg__(self):
 		return self.__class__(-i for i in self)
@@ -976,7 +976,7 @@ cdef class LinearFunction_C:
 	def __sub__(self, other):
 		if isinstance(self, LinearFunction_C):
 			if other == () or other == 0:
-				return self
+				return self.__class__(self)
 			if isinstance(other, LinearFunction_C):
 				return self.__class__([*list(self), *list(-other)])
 			if isinstance(other, ParameterRef_C):
@@ -1010,7 +1010,7 @@ cdef class LinearFunction_C:
 		if isinstance(self, LinearFunction_C) and isinstance(other, (ParameterRef_C, _ParameterOp)):
 			if isinstance(other, ParameterRef_C):
 				if other == _null_:
-					return self
+					return self.__class__(self)
 				trial = LinearFunction_C()
 				for component in self:
 					if component.param == _null_:
@@ -1035,7 +1035,7 @@ cdef class LinearFunction_C:
 		if isinstance(other, LinearFunction_C) and isinstance(self, (ParameterRef_C, _ParameterOp)):
 			if isinstance(self, ParameterRef_C):
 				if self == _null_:
-					return other
+					return other.__class__(other)
 				trial = LinearFunction_C()
 				for component in other:
 					if component.param == _null_:
-- 
2.43.0


From bb8ba3e199930ddbdf15d4b50ef7f491f3313119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 49/63] fix: bring assigned weights, idca data and wide choices
 to case order

---
 larch/dataframes.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9b7b699..db46a62 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1509,6 +1509,9 @@ cdef class DataFrames:
 			altindex_name = self._altindex_name or df.index.names[1]
 			df = df.set_index(df.index.set_names([caseindex_name, altindex_name]))
 
+			if not df.index.is_monotonic_increasing:
+				df = df.sort_index()
+
 			if self._computational:
 				self._data_ca = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_ca')
 				self._array_ca = _df_values(self.data_ca, (self.n_cases, self.n_alts, -1))
@@ -1784,6 +1787,8 @@ cdef class DataFrames:
 		graph : NestingTree
 
 		"""
+		if df is not None and not df.index.is_monotonic_increasing:
+			df = df.sort_index()
 		self._data_ch = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_ch')
 		self._array_ch = _df_values(self.data_ch, (self.n_cases, len(graph)))
 
@@ -1854,6 +1859,8 @@ cdef class DataFrames:
 	def data_wt(self, df:pandas.DataFrame):
 		if isinstance(df, pandas.Series):
 			df=pandas.DataFrame(df)
+		if isinstance(df, pandas.DataFrame) and not df.index.is_monotonic_increasing:
+			df = df.sort_index()
 		self._data_wt = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_wt')
 		self._array_wt = _df_values(self.data_wt, (self.n_cases, ))
 
-- 
2.43.0


From 93cd0362ddf34a946f0b92d741f8428d9880efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 50/63] fix: build the engine arrays when model data becomes
 computational

---
 larch/dataframes.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index db46a62..da0bda5 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -882,8 +882,11 @@ cdef class DataFrames:
 			if self._data_co is not None:
 				if not _check_dataframe_of_dtype(self._data_co, l4_float_dtype):
 					return False
-		if activate:
-			self._computational = True
+			if activate:
+				self._computational = True
+				self.data_ca = self._data_ca
+				self.data_ce = self._data_ce
+				self.data_co = self._data_co
 		return True
 
 	def is_computational_ready(self, bint activate=False):
-- 
2.43.0


From 23e24bbb0e325a94f9f26c8d905bc287c8e1b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:51 +0000
Subject: [PATCH 51/63] fix: keep the weight normalization and the right cases
 when splitting

---
 larch/dataframes.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index da0bda5..bb9e8ca 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3121,12 +3121,12 @@ cdef class DataFrames:
 				if self.data_ca is None:
 					data_ca = None
 				else:
-					these_positions_2 = numpy.in1d(self.data_ca.index.codes[0], numpy.where(these_positions))
+					these_positions_2 = numpy.in1d(self.data_ca.index.get_level_values(0), self.caseindex[these_positions])
 					data_ca=self.data_ca.iloc[these_positions_2,:]
 				if self.data_ce is None:
 					data_ce = None
 				else:
-					these_positions_2 = numpy.in1d(self.data_ce.index.codes[0], numpy.where(these_positions))
+					these_positions_2 = numpy.in1d(self.data_ce.index.get_level_values(0), self.caseindex[these_positions])
 					data_ce=self.data_ce.iloc[these_positions_2,:]
 					data_ce.index = remove_unused_level(data_ce.index, 0)
 
@@ -3143,7 +3143,7 @@ cdef class DataFrames:
 					data_wt=None if data_wt is None else data_wt.copy(deep=False)
 
 				logger.debug(f'  split {s} factory')
-				result.append(self.__class__(
+				part = self.__class__(
 					data_co=data_co,
 					data_ca=data_ca,
 					data_ce=data_ce,
@@ -3156,7 +3156,9 @@ cdef class DataFrames:
 					ch_name=self._data_ch_name,
 					wt_name=self._data_wt_name,
 					av_name=self._data_av_name,
-				))
+				)
+				part.weight_normalization = self.weight_normalization
+				result.append(part)
 			logger.debug(f'done splitting dataframe {splits}')
 			return result
 		except:
-- 
2.43.0


From 9f531d1ef81b248ceec73242b4553716f23a2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 52/63] fix: give latent class members the weight normalization
 of their data

---
 larch/model/latentclass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 0d31a02..67d570e 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -656,6 +656,7 @@ class LatentClassModel(AbstractChoiceModel):
 				alt_names=x.alternative_names(),
 				alt_codes=x.alternative_codes(),
 			)
+			k_model.dataframes.weight_normalization = x.weight_normalization
 
 	def mangle(self, *args, **kwargs):
 		self._k_membership.mangle()
-- 
2.43.0


From 1badde57c30e3f5d97d0f870407bd4bb7920e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:43 +0000
Subject: [PATCH 53/63] fix: pass the options of merge on

---
 larch/dataset/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index 273b6b7..cf02a8d 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -1368,10 +1368,10 @@ def merge(
     return Dataset.construct(
         xr.merge(
             objects,
-            compat="no_conflicts",
-            join="outer",
-            fill_value=dtypes.NA,
-            combine_attrs="override",
+            compat=compat,
+            join=join,
+            fill_value=fill_value,
+            combine_attrs=combine_attrs,
         ),
         caseid=caseid,
         alts=alts,
-- 
2.43.0


From 7ce911b2095a8766f0d1b451db07cc896bdded11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:43 +0000
Subject: [PATCH 54/63] fix: exclude the dimensions named when converting to a
 tree

---
 larch/dataset/flow.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index b900772..8f4307f 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -260,9 +260,16 @@ class _GenericFlow:
         DataTree
         """
         from ..dataset import DataTree
+        base = self._obj
+        if exclude_dims:
+            if isinstance(exclude_dims, str):
+                exclude_dims = (exclude_dims,)
+            base = base.assign_attrs(
+                _exclude_dims_=(*base.attrs.get('_exclude_dims_', ()), *exclude_dims)
+            )
         if self.CASEPTR is not None:
             case_index = case_ptr_to_indexes(self._obj.dims[self.CASEALT], self[self.CASEPTR].values)
-            obj = self._obj.assign({'_case_index_': xr.DataArray(case_index, dims=(self.CASEALT))})
+            obj = base.assign({'_case_index_': xr.DataArray(case_index, dims=(self.CASEALT))})
             tree = DataTree(**{label: obj.drop_dims(self.CASEID)})
             ds = obj.keep_dims(self.CASEID)
             ds.attrs.pop('_exclude_dims_', None)
@@ -277,7 +284,7 @@ class _GenericFlow:
                 )
             )
         else:
-            tree = DataTree(**{label: self._obj})
+            tree = DataTree(**{label: base})
         return tree
 
     def setup_flow(self, *args, **kwargs):
-- 
2.43.0


From 0974c613cfe88d8898950c3fc901901eb6e2d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:11 +0000
Subject: [PATCH 55/63] fix: reopen converted dbf data at the group requested

---
 larch/data_services/dbf/dbf_reader.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/data_services/dbf/dbf_reader.pyx b/larch/data_services/dbf/dbf_reader.pyx
index 4452ffe..0b7ff2c 100644
--- a/larch/data_services/dbf/dbf_reader.pyx
+++ b/larch/data_services/dbf/dbf_reader.pyx
@@ -665,7 +665,7 @@ cdef class DBF:
 						return 0
 				if which_file_created_more_recently(self.filename, h5filename_auto)==1:
 					# h5d file created more recently, so just return it
-					return H5Pod(filename=h5filename_auto, mode='r')
+					return H5Pod(filename=h5filename_auto, mode='r', groupnode=groupnode)
 				else:
 					# dbf file created more recently, so rename the older h5d
 					if os.path.exists(h5filename_auto+'.oldbackup'):
-- 
2.43.0


From 66e6bd57f1cba2226858bb955ae184aa13e09af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 56/63] fix: leave the model at the estimates reported

---
 larch/model/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index fd1976c..0081b00 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -328,6 +328,9 @@ def maximize_loglike(
                     constraints=constraints,
                     **kwargs
                 )
+                # the last point tried is not always the best point found
+                model.set_values(raw_result['x'])
+                raw_result['x'] = model.pvals
             except:
                 dashboard.update(
                     f'Iteration {iteration_number:03} [Exception] {iteration_number_tail}',
-- 
2.43.0


From b87b59ff8fe1262b3071e9e8c5b45acfe0e654c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 57/63] fix: evaluate again after a failed BHHH step is undone

---
 larch/numba/optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index 30a5295..6784059 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -143,6 +143,10 @@ def fit_bhhh(
         if proposed_ll <= current_ll:
             logger.debug("no improvement found, reset to prior x")
             model.set_values(current_pvals)
+            proposed = model.loglike2_bhhh(
+                leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+            )
+            proposed_ll = proposed.ll
             if not model.constraint_violation(on_violation='return'):
                 logger.debug("-- no constraints are violated")
                 # no violations, check that penalty is small
-- 
2.43.0


From c4b8f0e0110d92ab377bf9f1ad1ce9a14432e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:59 +0000
Subject: [PATCH 58/63] fix: latent class models request every kind of choice
 and availability data

---
 larch/model/latentclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 67d570e..a538aab 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -100,7 +100,7 @@ class LatentClassModel(AbstractChoiceModel):
 			for i in ['ca','co']:
 				if i in k_req or i in req:
 					req[i] = list(set(req.get(i,[])) | set(k_req.get(i,[])))
-			for i in ['weight_co', 'avail_ca', 'avail_co', 'choice_ca', 'choice_co_code', 'choice_co_vars', ]:
+			for i in ['weight_co', 'avail_ca', 'avail_co', 'avail_any', 'choice_ca', 'choice_co', 'choice_co_code', 'choice_any', ]:
 				if i in req:
 					if i in k_req and req[i] != k_req[i]:
 						raise ValueError(f'mismatched {i}')
-- 
2.43.0


From 428e42ad88999f09a3e843cca5af9e5897997860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:59 +0000
Subject: [PATCH 59/63] fix: a data service reports requests for any choice or
 availability it cannot meet

---
 larch/data_services/service.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/larch/data_services/service.py b/larch/data_services/service.py
index 775971f..16bab4c 100644
--- a/larch/data_services/service.py
+++ b/larch/data_services/service.py
@@ -621,9 +621,9 @@ class DataService():
 		----------
 		req_data : Dict or str
 			The requested data. The keys for this dictionary may include {'ca', 'co',
-			'choice_ca', 'choice_co', 'weight_co', 'avail_ca', 'standardize'}.
-			Currently, the keys {'choice_co_code', 'avail_co'} are not implemented and
-			will raise an error.
+			'choice_ca', 'choice_co', 'choice_co_code', 'weight_co', 'avail_ca', 'standardize'}.
+			Currently, the keys {'avail_co', 'choice_any', 'avail_any'} are not implemented
+			and will raise an error.
 			Other keys are silently ignored.
 		selector : array-like[bool] or slice, optional
 			If given, the selector filters the cases. This argument can only be given
@@ -675,6 +675,8 @@ class DataService():
 			df_ch = pandas.DataFrame(0, columns=alts, index=df_ch_code.index, dtype=float_dtype)
 			for c in df_ch.columns:
 				df_ch.loc[:,c] = (df_ch_code==c).astype(float_dtype)
+		elif 'choice_any' in req_data:
+			raise NotImplementedError('choice_any')
 		else:
 			df_ch = None
 
@@ -689,6 +691,8 @@ class DataService():
 			df_av = self.dataframe_idca(req_data['avail_ca'], dtype=numpy.int8, selector=selector)
 		elif 'avail_co' in req_data:
 			raise NotImplementedError('avail_co')
+		elif 'avail_any' in req_data:
+			raise NotImplementedError('avail_any')
 		else:
 			df_av = None
 
-- 
2.43.0


From 0457353464189af81d48dbbe8337f55ac0106185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:06 +0000
Subject: [PATCH 60/63] fix: scale a ratio bound by a positive factor also for
 zero or negative ratios

---
 larch/model/constraints.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 88a4644..c8e8e2e 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -36,6 +36,12 @@ class ParametricConstraint(ABC):
         return [dict(type='ineq', fun=self.fun, jac=self.jac),]
 
 
+def _ratio_scaling(ratio):
+    # depends only on the magnitude of the ratio, so that it is always positive
+    ratio = np.absolute(ratio)
+    return max(ratio, 1/ratio) if ratio else 1.0
+
+
 class RatioBound(ParametricConstraint):
 
     def __init__(self, p_num, p_den, min_ratio=None, max_ratio=None, model=None, scale=10, binding_tol=1e-4):
@@ -66,7 +72,7 @@ class RatioBound(ParametricConstraint):
             self.i_den = model._frame.index.get_loc(self.p_den)
             self.len = len(model._frame)
             if self.min_ratio is not None:
-                scaling = max(self.min_ratio, 1/self.min_ratio) * self.scale
+                scaling = _ratio_scaling(self.min_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmin_num = 1 * scaling
@@ -81,7 +87,7 @@ class RatioBound(ParametricConstraint):
                 self.cmin_num = 0
                 self.cmin_den = 0
             if self.max_ratio is not None:
-                scaling = max(self.max_ratio, 1/self.max_ratio) * self.scale
+                scaling = _ratio_scaling(self.max_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmax_num = -1 * scaling
-- 
2.43.0


From 755f556e2464666254b70b21144e08a05b109321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:06 +0000
Subject: [PATCH 61/63] fix: the absent side of a one-sided ratio bound never
 binds

---
 larch/model/constraints.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index c8e8e2e..e875f01 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -103,9 +103,13 @@ class RatioBound(ParametricConstraint):
                 self.cmax_den = 0
 
     def _min_fun(self, x):
+        if self.min_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmin_num + x[self.i_den] * self.cmin_den
 
     def _max_fun(self, x):
+        if self.max_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmax_num + x[self.i_den] * self.cmax_den
 
     def fun(self, x):
@@ -150,14 +154,16 @@ class RatioBound(ParametricConstraint):
         cmin_den = self.cmin_den
         cmax_num = self.cmax_num
         cmax_den = self.cmax_den
+        has_min = self.min_ratio is not None
+        has_max = self.max_ratio is not None
         scale = self.scale
         @njit([
             float32(float32[:], float32, float32),
             float64(float64[:], float64, float64),
         ])
         def penalty(x, intensity, sharpness=1.0):
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den if has_min else np.inf
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den if has_max else np.inf
             return -softplus(-np.minimum(_min, _max) * scale * intensity, sharpness)
         @njit([
             float32[:](float32[:], float32, float32),
@@ -165,8 +171,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty(x, intensity, sharpness=1.0):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den if has_min else np.inf
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den if has_max else np.inf
             partial = d_softplus(-np.minimum(_min, _max), sharpness * scale * intensity) * scale * intensity
             if _min < _max:
                 j[i_num] = cmin_num * partial
@@ -181,8 +187,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty_money(x, intensity):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den if has_min else np.inf
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den if has_max else np.inf
             if np.absolute(_min) < 1e-5:
                 partial = 0.5 * scale * intensity
                 j[i_num] = cmin_num * partial
-- 
2.43.0


From 9b525c8f58d022066a13935325cfcf117f179dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:06 +0000
Subject: [PATCH 62/63] fix: soft penalty for fixed bounds used as constraints
 in the numba engine

---
 larch/model/constraints.py | 42 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index e875f01..2a6018d 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -387,6 +387,48 @@ class FixedBound(ParametricConstraint):
             self.maximum if self.maximum is not None else np.inf,
         )]
 
+    def as_soft_penalty(self):
+        from numba import njit, float32, float64
+        from ..numba.model import softplus, d_softplus
+        i = self.i
+        scale = self.scale
+        minimum = self.minimum if self.minimum is not None else -np.inf
+        maximum = self.maximum if self.maximum is not None else np.inf
+        @njit([
+            float32(float32[:], float32, float32),
+            float64(float64[:], float64, float64),
+        ])
+        def penalty(x, intensity, sharpness=1.0):
+            slack = np.minimum(x[i] - minimum, maximum - x[i])
+            return -softplus(-slack * scale * intensity, sharpness)
+        @njit([
+            float32[:](float32[:], float32, float32),
+            float64[:](float64[:], float64, float64),
+        ])
+        def dpenalty(x, intensity, sharpness=1.0):
+            j = np.zeros_like(x)
+            _min = x[i] - minimum
+            _max = maximum - x[i]
+            partial = d_softplus(-np.minimum(_min, _max), sharpness * scale * intensity) * scale * intensity
+            if _min < _max:
+                j[i] = partial
+            else:
+                j[i] = -partial
+            return j
+        @njit([
+            float32[:](float32[:], float32),
+            float64[:](float64[:], float64),
+        ])
+        def dpenalty_bind(x, intensity):
+            j = np.zeros_like(x)
+            partial = 0.5 * scale * intensity
+            if np.absolute(x[i] - minimum) < 1e-5:
+                j[i] = partial
+            elif np.absolute(maximum - x[i]) < 1e-5:
+                j[i] = -partial
+            return j
+        return penalty, dpenalty, dpenalty_bind
+
     def __eq__(self, other):
         if not isinstance(other, FixedBound):
             return False
-- 
2.43.0


From 46e77fcdbc983b70439a136f2c481bb2bc17b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:17 +0000
Subject: [PATCH 63/63] fix: refresh the positions of constrained parameters
 when parameters change

---
 larch/model/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/larch/model/model.py b/larch/model/model.py
index db0e24c..e7f24d8 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -802,6 +802,14 @@ class Model(_Model5c):
 		if self.dataframes is not None:
 			return self.dataframes.statistics(graph=self.graph)
 
+	def unmangle(self, force=False):
+		relink = force or self._is_mangled()
+		super().unmangle(force=force)
+		if relink:
+			# the positions of parameters may have changed
+			for c in self.constraints:
+				c.link_model(self)
+
 	def _get_constraints(self, method):
 		if method.lower() in ('slsqp', 'cobyla'):
 			constraint_dicts = []
-- 
2.43.0


From 9bc5cb6f900879e3cffb6470f698db220a32df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 01/93] fix: numba quantity reports size zero for alternatives
 absent from idce data

The size of an alternative skipped in sparse (idce) data was left at log-size
0, so Model.quantity() reported a size of 1 for it; the idca layout gives 0.
---
 larch/numba/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9f92d87..62aa730 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -111,7 +111,7 @@ def quantity_from_data_ca(
         for row in range(array_ce_ptr[0], array_ce_ptr[1]):
             while array_ce_indices[row] > j:
                 # skipped alts are unavail, i.e. have zero size
-                utility_elem[j] = 0
+                utility_elem[j] = -np.inf
                 j += 1
             if model_q_ca_param.shape[0]:
                 for i in range(model_q_ca_param.shape[0]):
@@ -136,7 +136,7 @@ def quantity_from_data_ca(
             j += 1
         while n_alts > j:
             # skipped alts are unavail, i.e. have zero size
-            utility_elem[j] = 0
+            utility_elem[j] = -np.inf
             j += 1
     else:
 
-- 
2.43.0


From 93288b86d3f90a09476a7e99c10ff2d5c8fb4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 02/93] fix: numba engine honors availability flags on idce
 data rows

A row present in sparse (idce) data but flagged unavailable still contributed
to the logsum, so probabilities of the available alternatives did not sum to
one and the log likelihood differed from the same data in idca format.
---
 larch/numba/model.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 62aa730..8fe2d81 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -113,7 +113,9 @@ def quantity_from_data_ca(
                 # skipped alts are unavail, i.e. have zero size
                 utility_elem[j] = -np.inf
                 j += 1
-            if model_q_ca_param.shape[0]:
+            if not array_av[j]:
+                utility_elem[j] = -np.inf
+            elif model_q_ca_param.shape[0]:
                 for i in range(model_q_ca_param.shape[0]):
                     _temp = (
                             array_ce_data[row, model_q_ca_data[i]]
@@ -198,12 +200,15 @@ def utility_from_data_ca(
                 utility_elem[j] = -np.inf
                 j += 1
             # j = array_ce_indices[row] # happens naturally
-            for i in range(model_utility_ca_param.shape[0]):
-                _temp = array_ce_data[row, model_utility_ca_data[i]]
-                _temp *= model_utility_ca_param_scale[i]
-                utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
-                if not holdfast_arr[model_utility_ca_param[i]]:
-                    dutility_elem[j, model_utility_ca_param[i]] += _temp
+            if array_av[j]:
+                for i in range(model_utility_ca_param.shape[0]):
+                    _temp = array_ce_data[row, model_utility_ca_data[i]]
+                    _temp *= model_utility_ca_param_scale[i]
+                    utility_elem[j] += _temp * parameter_arr[model_utility_ca_param[i]]
+                    if not holdfast_arr[model_utility_ca_param[i]]:
+                        dutility_elem[j, model_utility_ca_param[i]] += _temp
+            else:
+                utility_elem[j] = -np.inf
             j += 1
         while n_alts > j:
             # skipped alts are unavail
-- 
2.43.0


From 4c25677236004b9952fa7e1d137dcbf10241193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 03/93] fix: Dataset.construct.from_idce mislabels cases when
 rows are not sorted

Case pointers were derived from row order while case labels came from the
(sorted, possibly partly unused) index levels, so an unsorted or filtered
idce frame attached rows to the wrong cases; unsorted alternatives inside a
case corrupted the utility of that case.
---
 larch/dataset/construct.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/larch/dataset/construct.py b/larch/dataset/construct.py
index 3bc17c9..c8ab412 100644
--- a/larch/dataset/construct.py
+++ b/larch/dataset/construct.py
@@ -275,6 +275,17 @@ class _DatasetConstruct:
         altidname = altidname or ALTID
         dim_name = dim_name or CASEALT
         case_pointer = case_pointer or CASEPTR
+        # the case pointers and alternative indexes assume rows sorted by case
+        # then by alternative, and index levels that are sorted and all in use
+        df = df.set_axis(
+            pd.MultiIndex.from_arrays(
+                [df.index.get_level_values(0), df.index.get_level_values(1)],
+                names=df.index.names,
+            ),
+            axis=0,
+        )
+        if not df.index.is_monotonic_increasing:
+            df = df.sort_index()
         ds = cls()(df.reset_index(drop=True).rename_axis(index=dim_name))
         ds.coords[caseidname] = xr.DataArray(df.index.levels[0], dims=caseidname)
         ds.coords[altidname] = xr.DataArray(df.index.levels[1], dims=altidname)
-- 
2.43.0


From fa7921bbc5e5504bc8dc02f02da1656fedb687ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 04/93] fix: numba engine reads idce data of DataFrames instead
 of out of bounds

With only idce data attached, the dense idca array was allocated with zero
columns, and the (unchecked) kernel read past its end, so log likelihoods
were silently wrong.
---
 larch/numba/model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 8fe2d81..2a07e14 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1055,7 +1055,18 @@ class NumbaModel(_BaseModel):
             if _array_co.dtype != self.float_dtype:
                 _array_co = _array_co.astype(self.float_dtype)
 
-            _array_ca = self.dataframes.array_ca(force=True)
+            if self.dataframes.data_ca is None and self.dataframes.data_ce is not None:
+                # expand sparse data, absent alternatives are not available
+                _array_ca = np.zeros(
+                    [self.n_cases, self.dataframes.n_alts, len(self.dataframes.data_ce.columns)],
+                    dtype=self.float_dtype,
+                )
+                _array_ca[
+                    self.dataframes.array_ce_caseindexes,
+                    self.dataframes.array_ce_altindexes,
+                ] = self.dataframes.array_ce()
+            else:
+                _array_ca = self.dataframes.array_ca(force=True)
             if _array_ca.dtype != self.float_dtype:
                 _array_ca = _array_ca.astype(self.float_dtype)
 
-- 
2.43.0


From af9907e6daf8cc3ec8df89b7163a1452a21e5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 05/93] fix: alternatives not sorted by code are mismatched
 between data and graph

The graph sorts elemental alternatives by code unless told otherwise, while
the data arrays keep the order in which the alternatives were declared, so
availability, choice, probabilities and column labels were attached to the
wrong alternatives when codes are not in ascending order.
---
 larch/model/controller.pyx | 2 ++
 larch/model/tree.py        | 1 +
 larch/numba/model.py       | 4 ++++
 3 files changed, 7 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 1df6002..dd42a7c 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1328,6 +1328,8 @@ cdef class Model5c(AbstractChoiceModel):
 		else:
 			for a, name in zip(alternative_codes, alternative_names):
 				g.add_node(a, name=name)
+		# alternatives appear in the graph in the same order as in the data
+		g.suggest_elemental_order(alternative_codes)
 		self.graph = g
 
 	def is_mnl(self):
diff --git a/larch/model/tree.py b/larch/model/tree.py
index 0278557..c1764c5 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -94,6 +94,7 @@ class NestingTree(nx.DiGraph):
 
     def suggest_elemental_order(self, order):
         self._suggested_elemental_order = tuple(j for j in order if j in self.nodes)
+        self._clear_caches()
 
     @property
     def root_id(self):
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 2a07e14..c0abd71 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1028,6 +1028,10 @@ class NumbaModel(_BaseModel):
                 cache_dir=datatree.cache_dir,
                 flows=getattr(self, 'dataflows', None),
             )
+            altids = self.dataset.indexes.get(self.dataset.dc.ALTID)
+            if altids is not None and tuple(self.graph.elementals) != tuple(altids):
+                # arrays are in the order of the data, so the graph must be too
+                self.graph.suggest_elemental_order(altids)
             self._data_arrays = self.dataset.dc.to_arrays(
                 self.graph,
                 float_dtype=self.float_dtype,
-- 
2.43.0


From a278962449dc86aeacc1854ad32cfd32e5173b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 06/93] fix: gradient for a dissimilarity parameter shared by
 nested nests

When a nest and a nest inside it use the same parameter, the derivative
inherited from the inner nest was divided by the parameter a second time.
---
 larch/numba/model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index c0abd71..3dcd7d8 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -423,12 +423,11 @@ def _numba_utility_to_loglike(
                     if dn >= n_alts:
                         dn_mu_slot = mu_slots[dn-n_alts]
                         if dn_mu_slot >= 0:
-                            dutility[dn, dn_mu_slot] += utility[dn]
-                            dutility[dn, dn_mu_slot] /= parameter_arr[dn_mu_slot]
+                            dutility[dn, dn_mu_slot] += utility[dn] / parameter_arr[dn_mu_slot]
                     up_mu_slot = mu_slots[up - n_alts]
                     if up_mu_slot >= 0:
                         # FIXME: alpha slots to appear here if cross-nesting is activated
-                        dutility[up, up_mu_slot] -= cond_prob * (utility[dn])
+                        dutility[up, up_mu_slot] -= cond_prob * utility[dn] / parameter_arr[up_mu_slot]
                     dutility[up, :] += cond_prob * dutility[dn, :]
 
             # d probability
-- 
2.43.0


From 6dc3b8b88b147f02141e0f79358be37df8c285eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 07/93] fix: log likelihood of a subset of cases is not
 recorded as the best so far

The Cython engine compared values computed with leave_out / keep_only
against the full-sample best, and replaced it.
---
 larch/model/controller.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index dd42a7c..276acae 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -730,7 +730,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out==-1 and keep_only==-1:
 			self._check_if_best(y.ll)
 		# if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 		# 	y['dll'] = pandas.Series(y['dll'], index=self.frame.index, )
@@ -796,7 +796,7 @@ cdef class Model5c(AbstractChoiceModel):
 			keep_only=keep_only,
 			subsample=subsample,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out==-1 and keep_only==-1:
 			self._check_if_best(y.ll)
 		if return_series and 'dll' in y and not isinstance(y['dll'], (pandas.DataFrame, pandas.Series)):
 			y['dll'] = pandas.Series(y['dll'], index=self._frame.index, )
@@ -916,7 +916,7 @@ cdef class Model5c(AbstractChoiceModel):
 			subsample=subsample,
 			probability_only=probability_only,
 		)
-		if start_case==0 and stop_case==-1 and step_case==1:
+		if start_case==0 and stop_case==-1 and step_case==1 and leave_out==-1 and keep_only==-1:
 			self._check_if_best(y.ll)
 		if probability_only:
 			return y.probability
-- 
2.43.0


From 5755e34f6aedc64f63fa57dee459ed9f6eb8fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 08/93] fix: utility and exputility ignore the given parameter
 values

---
 larch/model/controller.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 276acae..08df70a 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -955,7 +955,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 	def exputility(self, x=None, return_dataframe=None):
 		try:
-			arr = self.loglike(persist=PERSIST_EXP_UTILITY).exp_utility
+			arr = self.loglike(x=x, persist=PERSIST_EXP_UTILITY).exp_utility
 		except KeyError:
 			raise NotImplementedError("exputility is not available for this model structure")
 		if return_dataframe == 'names':
@@ -974,7 +974,7 @@ cdef class Model5c(AbstractChoiceModel):
 			return arr
 
 	def utility(self, x=None, return_dataframe=None):
-		arr = self.loglike(persist=PERSIST_UTILITY).utility
+		arr = self.loglike(x=x, persist=PERSIST_UTILITY).utility
 		if return_dataframe == 'names':
 			return pandas.DataFrame(
 				data=arr,
-- 
2.43.0


From 1d5a09cb26e2881da4e6144a9479250c6e850b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 09/93] fix: casewise log likelihood disregards the weight
 normalization

The gradient by case and the total log likelihood are scaled by it,
so the casewise values did not sum to the total.
---
 larch/model/mnl.pyx | 2 +-
 larch/model/nl.pyx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index d887839..b07fe8b 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -658,7 +658,7 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		if persist & PERSIST_UTILITY:
 			result.utility=raw_utility.base
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise=LL_case.base
+			result.ll_casewise=LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_EXP_UTILITY:
 			result.exp_utility=exp_utility.base
 		if persist & PERSIST_PROBABILITY:
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 881309d..0f3cd78 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -696,7 +696,7 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 			result.bhhh = bhhh
 
 		if persist & PERSIST_LOGLIKE_CASEWISE:
-			result.ll_casewise = LL_case.base
+			result.ll_casewise = LL_case.base * dfs._weight_normalization
 		if persist & PERSIST_UTILITY:
 			result.utility = raw_utility.base
 		if persist & PERSIST_D_UTILITY:
-- 
2.43.0


From e8e73f470062f4fdcb7de1703c9b5b3618039140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 10/93] fix: case ranges that exceed the data read outside of
 the data arrays

The documentation has start_case, stop_case and step_case processed as
usual for Python slicing.
---
 larch/model/mnl.pyx | 5 ++++-
 larch/model/nl.pyx  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index b07fe8b..0e607e0 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -532,8 +532,11 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 		if num_threads <= 0:
 			num_threads = 1
 
-		if stop_case<0:
+		if stop_case == -1:
 			stop_case = n_cases
+		start_case, stop_case, step_case = slice(start_case, stop_case, step_case).indices(n_cases)
+		if stop_case < start_case:
+			stop_case = start_case
 
 		if return_bhhh:
 			# must compute dll to get bhhh
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 0f3cd78..83168e1 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -498,8 +498,11 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 		if num_threads <= 0:
 			num_threads = model._n_threads
 
-		if stop_case<0:
+		if stop_case == -1:
 			stop_case = n_cases
+		start_case, stop_case, step_case = slice(start_case, stop_case, step_case).indices(n_cases)
+		if stop_case < start_case:
+			stop_case = start_case
 
 		if return_bhhh:
 			# must compute dll to get bhhh
-- 
2.43.0


From 7e3a4476acda8c68d30858f2a7e5bb5f6b1e7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 11/93] fix: logsums do not need choice data, and results by
 case lack case ids

Without idco data, probability and utility dataframes were labelled by
row number instead of case id.
---
 larch/model/controller.pyx | 10 +++++-----
 larch/model/mnl.pyx        |  3 ---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 08df70a..b21768e 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -962,13 +962,13 @@ cdef class Model5c(AbstractChoiceModel):
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_names,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		elif return_dataframe:
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_codes,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		else:
 			return arr
@@ -979,13 +979,13 @@ cdef class Model5c(AbstractChoiceModel):
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_names if self.is_mnl() else self.graph.standard_sort_names,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		elif return_dataframe:
 			return pandas.DataFrame(
 				data=arr,
 				columns=self._dataframes._alternative_codes if self.is_mnl() else self.graph.standard_sort,
-				index=self._dataframes._data_co.index if self._dataframes._data_co is not None else None,
+				index=self._dataframes.caseindex,
 			)
 		else:
 			return arr
@@ -1039,7 +1039,7 @@ cdef class Model5c(AbstractChoiceModel):
 			if not include_nests:
 				arr = arr[:,:self._dataframes._n_alts()]
 			if return_dataframe:
-				idx = self._dataframes._data_co.index if self._dataframes._data_co is not None else None
+				idx = self._dataframes.caseindex
 				if idx is not None:
 					if stop_case == -1:
 						stop_case = len(idx)
diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index 0e607e0..d338396 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -724,9 +724,6 @@ def mnl_logsums_from_dataframes_all_rows(
 	if not dfs.is_computational_ready(activate=True):
 		raise ValueError('DataFrames is not computational-ready')
 
-	if dfs._data_ch is None:
-		raise ValueError('DataFrames does not define data_ch')
-
 	try:
 		raw_utility = numpy.zeros([n_alts], dtype=l4_float_dtype)
 		probability = numpy.zeros([n_alts], dtype=l4_float_dtype)
-- 
2.43.0


From be9b5e2f96aee64e69e0c3598a830765ea18d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 12/93] fix: d_probability is NaN for unavailable alternatives
 of nested models

---
 larch/model/nl.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 83168e1..2f05b9c 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -181,7 +181,7 @@ cdef void _nl_d_probability_from_d_utility(
 	for reversi_edge in range(n_edges):
 		edge = n_edges-reversi_edge-1
 		child  = dns[edge]
-		if True or array_ch[child]:
+		if log_cond_probability[edge] > -INFINITY32:
 			parent = ups[edge]
 			for param in range(n_params):
 				scratch[param] = (d_utility[child, param] - d_utility[parent, param])
-- 
2.43.0


From 66a8495ce7300fe49304ffb3b74fa86ab89b309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 13/93] fix: idca data and weights are sorted by case like the
 other DataFrames parts

When the rows given were not sorted, the parts were silently mismatched.
---
 larch/dataframes.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9b7b699..91fcf80 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1509,6 +1509,9 @@ cdef class DataFrames:
 			altindex_name = self._altindex_name or df.index.names[1]
 			df = df.set_index(df.index.set_names([caseindex_name, altindex_name]))
 
+			if df.index.levels[1].is_monotonic_increasing and not df.index.is_monotonic_increasing:
+				df = df.sort_index()
+
 			if self._computational:
 				self._data_ca = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_ca')
 				self._array_ca = _df_values(self.data_ca, (self.n_cases, self.n_alts, -1))
@@ -1854,6 +1857,8 @@ cdef class DataFrames:
 	def data_wt(self, df:pandas.DataFrame):
 		if isinstance(df, pandas.Series):
 			df=pandas.DataFrame(df)
+		if df is not None and not df.index.is_monotonic_increasing:
+			df = df.sort_index()
 		self._data_wt = _ensure_dataframe_of_dtype(df, l4_float_dtype, 'data_wt')
 		self._array_wt = _df_values(self.data_wt, (self.n_cases, ))
 
-- 
2.43.0


From 2509cebe39e110480ec892f3764cbf1d893ed5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 14/93] fix: availability columns are matched to alternatives
 by code, not by position

---
 larch/dataframes.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 91fcf80..0149bb8 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -701,6 +701,12 @@ cdef class DataFrames:
 					else:
 						logger.debug(" DataFrames ~ unstack av (slow)")
 						av = av.unstack()
+				if (
+					isinstance(av, pandas.DataFrame)
+					and list(av.columns) != list(self._alternative_codes)
+					and set(av.columns) == set(self._alternative_codes)
+				):
+					av = av[list(self._alternative_codes)]
 				self.data_av = av
 
 			self._weight_normalization = 1.0
-- 
2.43.0


From 3b90cbce8e862e07137b6106af7f4f573f0159fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 15/93] fix: scaling weights modifies weight and choice data of
 the caller

The arrays share memory with the given frames, so a second model built
from the same data had silently altered weights. Also weight_normalization
is stored in double precision as documented for other arrays.
---
 larch/dataframes.pyx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 0149bb8..b0adbcb 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2914,6 +2914,13 @@ cdef class DataFrames:
 			)
 			self._data_wt_name = 'computed_weight'
 
+		# the arrays may share memory with data provided by the user, so scale copies
+		if self._data_wt is not None:
+			self.data_wt = self._data_wt.copy()
+		if need_to_extract_wgt_from_ch:
+			self._data_ch = self._data_ch.copy()
+			self._array_ch = _df_values(self._data_ch)
+
 		if need_to_extract_wgt_from_ch:
 			while i < self._array_ch.shape[0]:
 				temp = 0
@@ -2974,6 +2981,13 @@ cdef class DataFrames:
 			)
 			self._data_wt_name = 'computed_weight'
 
+		# the arrays may share memory with data provided by the user, so scale copies
+		if self._data_wt is not None:
+			self.data_wt = self._data_wt.copy()
+		if need_to_extract_wgt_from_ch:
+			self._data_ch = self._data_ch.copy()
+			self._array_ch = _df_values(self._data_ch)
+
 		if need_to_extract_wgt_from_ch:
 			while i < self._array_ch.shape[0]:
 				temp = 0
@@ -3022,7 +3036,7 @@ cdef class DataFrames:
 		return self._weight_normalization
 
 	@weight_normalization.setter
-	def weight_normalization(self, float value):
+	def weight_normalization(self, double value):
 		if value <= 0:
 			raise ValueError('weight_normalization must be strictly positive')
 		self._weight_normalization = value
-- 
2.43.0


From be9d48dce49b4c71e8e9ccacde67438961b113f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 16/93] fix: gradient for a shared dissimilarity parameter in
 the Cython engine

As in the numba engine, a parameter used by a nest and by a nest inside it
had the derivative of the inner nest divided by the parameter twice.
---
 larch/model/nl.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 2f05b9c..7ca2c26 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -354,14 +354,13 @@ cdef void _nl_d_utility_upstream_v2(
 
 			if child >= n_elemental_alts:
 				if param_slot_of_mu[child] >= 0:
-					dU[child,param_slot_of_mu[child]] += utility[child]
-					dU[child,param_slot_of_mu[child]] /= mu[child]
+					dU[child,param_slot_of_mu[child]] += utility[child] / mu[child]
 
 			if param_slot_of_mu[parent] >= 0:
 				if alpha[e] == 1.0:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child])
+					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child]) / mu[parent]
 				else:
-					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + mu[child]*logalpha[e])
+					dU[parent, param_slot_of_mu[parent]] -= cond_prob * (utility[child] + mu[child]*logalpha[e]) / mu[parent]
 
 			for p in range(n_params):
 				dU[parent, p] += cond_prob * dU[child, p]
-- 
2.43.0


From c3477630ab18d6f3c508ef55c8104999908d4d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 17/93] fix: results of numba models are overwritten by later
 evaluations

probability, utility, quantity and logsums returned views of the work
arrays, so comparing results for two sets of parameters compared one
result with itself.
---
 larch/numba/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 3dcd7d8..0b80538 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1635,6 +1635,7 @@ class NumbaModel(_BaseModel):
         pr = result_arrays.probability
         if not include_nests:
             pr = pr[:, :self.graph.n_elementals()]
+        pr = pr.copy()  # the work array is overwritten by later evaluations
         return self._wrap_as_dataframe(
             pr,
             return_dataframe,
@@ -1695,7 +1696,7 @@ class NumbaModel(_BaseModel):
             only_utility=2,
         )
         return self._wrap_as_dataframe(
-            result_arrays.utility,
+            result_arrays.utility.copy(),
             return_format,
             start_case=start_case,
             stop_case=stop_case,
@@ -1719,7 +1720,7 @@ class NumbaModel(_BaseModel):
             only_utility=3,
         )
         return self._wrap_as_dataframe(
-            result_arrays.utility,
+            result_arrays.utility.copy(),
             return_dataframe,
         )
 
@@ -1742,7 +1743,7 @@ class NumbaModel(_BaseModel):
         if arr is not None:
             arr[start_case:stop_case:step_case] = result_arrays.utility[:,-1]
             return arr
-        return result_arrays.utility[:,-1]
+        return result_arrays.utility[:,-1].copy()
 
     def loglike2(
             self,
-- 
2.43.0


From 98991455721a54a6a61cd152a6bd15205c7ec68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 18/93] fix: numba quantity and probability fail for some
 return formats

quantity ignored the case range for the labels; 'dataarray' had labels for
nests when the nests are not included; 'idce' only looked for availability
in DataFrames.
---
 larch/numba/model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 0b80538..bff4210 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1597,8 +1597,11 @@ class NumbaModel(_BaseModel):
                     arr,
                     coords={
                         self.datatree.CASEID: idx,
-                        'nodeid': np.asarray(self.graph.standard_sort),
-                        'node_name': DataArray(np.asarray(self.graph.standard_sort_names), dims='nodeid'),
+                        'nodeid': np.asarray(self.graph.standard_sort[:arr.shape[1]]),
+                        'node_name': DataArray(
+                            np.asarray(self.graph.standard_sort_names[:arr.shape[1]]),
+                            dims='nodeid',
+                        ),
                     },
                     dims=(self.datatree.CASEID, 'nodeid'),
                 )
@@ -1608,7 +1611,8 @@ class NumbaModel(_BaseModel):
                 index=idx,
             )
             if return_dataframe == 'idce':
-                return result.stack()[self._dataframes._data_av.stack().astype(bool).values]
+                av = self._data_arrays.av[start_case:stop_case:step_case, :arr.shape[1]]
+                return result.stack()[av.astype(bool).reshape(-1)]
             elif return_dataframe == 'idca':
                 return result.stack()
             else:
@@ -1722,6 +1726,9 @@ class NumbaModel(_BaseModel):
         return self._wrap_as_dataframe(
             result_arrays.utility.copy(),
             return_dataframe,
+            start_case=start_case,
+            stop_case=stop_case,
+            step_case=step_case,
         )
 
     def logsums(
-- 
2.43.0


From 809e03f8d183d025f4a83af1bf7b37f82819b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 19/93] fix: neg_d_loglike of a numba model leaves out the last
 case

---
 larch/numba/model.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index bff4210..f4f5d7f 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1863,6 +1863,26 @@ class NumbaModel(_BaseModel):
             subsample=subsample,
         )
 
+    def neg_d_loglike(
+            self,
+            x=None,
+            start_case=None,
+            stop_case=None,
+            step_case=None,
+            leave_out=-1,
+            keep_only=-1,
+            subsample=-1,
+    ):
+        return super().neg_d_loglike(
+            x=x,
+            start_case=start_case,
+            stop_case=stop_case,
+            step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
+        )
+
     def neg_loglike2(
             self,
             x=None,
-- 
2.43.0


From d4ee51374c807981c3498a32ea7bb78457c08247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 20/93] fix: numba models ignore leave_out, keep_only and
 subsample

The arguments were accepted and silently dropped, so cross validation
evaluated every case.
---
 larch/numba/model.py | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index f4f5d7f..acabeec 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1388,6 +1388,9 @@ class NumbaModel(_BaseModel):
             start_case=None,
             stop_case=None,
             step_case=None,
+            leave_out=-1,
+            keep_only=-1,
+            subsample=-1,
     ):
         caseslice = slice(start_case, stop_case, step_case)
         args = self.__prepare_for_compute(
@@ -1448,6 +1451,14 @@ class NumbaModel(_BaseModel):
                 print(f" {arg_names[n]:{arg_name_width}} [{n:2}] {s.strip():9}: {dtp(a)}{shp(a)}")
             if not isinstance(error, RuntimeError):
                 raise
+        if leave_out >= 0 or keep_only >= 0:
+            caserow = np.arange(self.work_arrays.loglike.shape[0])[caseslice]
+            selected = np.ones(caserow.shape, dtype=bool)
+            if leave_out >= 0:
+                selected &= (caserow % subsample != leave_out)
+            if keep_only >= 0:
+                selected &= (caserow % subsample == keep_only)
+            result_arrays = WorkArrays(*(a[selected] for a in result_arrays))
         return result_arrays, penalty
 
     @property
@@ -1462,6 +1473,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs
     ):
         """
@@ -1494,10 +1506,14 @@ class NumbaModel(_BaseModel):
         float
         """
         result_arrays, penalty = self._loglike_runner(
-            x, start_case=start_case, stop_case=stop_case, step_case=step_case
+            x, start_case=start_case, stop_case=stop_case, step_case=step_case,
+            leave_out=leave_out, keep_only=keep_only, subsample=subsample,
         )
         result = result_arrays.loglike.sum() * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if (
+                start_case is None and stop_case is None and step_case is None
+                and leave_out == -1 and keep_only == -1
+        ):
             self._check_if_best(result)
         return result
 
@@ -1506,6 +1522,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_series=False,
             **kwargs,
     ):
@@ -1514,6 +1531,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = result_arrays.d_loglike.sum(0) * self.weight_normalization
@@ -1771,13 +1791,19 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         result = dictx(
             ll=result_arrays.loglike.sum() * self.weight_normalization,
             dll=result_arrays.d_loglike.sum(0) * self.weight_normalization,
         )
-        if start_case is None and stop_case is None and step_case is None:
+        if (
+                start_case is None and stop_case is None and step_case is None
+                and leave_out == -1 and keep_only == -1
+        ):
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
@@ -1799,6 +1825,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
             return_bhhh=True,
         )
@@ -1812,7 +1841,10 @@ class NumbaModel(_BaseModel):
             result['ll_casewise'] = result_arrays.loglike * self.weight_normalization
         if persist & PERSIST_D_LOGLIKE_CASEWISE:
             result['dll_casewise'] = result_arrays.d_loglike * self.weight_normalization
-        if start_case is None and stop_case is None and step_case is None:
+        if (
+                start_case is None and stop_case is None and step_case is None
+                and leave_out == -1 and keep_only == -1
+        ):
             self._check_if_best(result.ll)
         if return_series:
             result['dll'] = pd.Series(result['dll'], index=self._frame.index, )
-- 
2.43.0


From 0e33bd0fef5997ac1aa3608ec8f89b7d4c708f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 21/93] fix: numba probability needs choice data when using
 DataFrames

---
 larch/numba/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index acabeec..3cb535d 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1044,7 +1044,7 @@ class NumbaModel(_BaseModel):
             if self.dataframes.data_ch is not None:
                 _array_ch_cascade = data_ch_cascade(self.dataframes, self.graph, dtype=self.float_dtype)
             else:
-                _array_ch_cascade = np.zeros([self.n_cases, 0], dtype=self.float_dtype)
+                _array_ch_cascade = np.zeros([self.n_cases, n_nodes], dtype=self.float_dtype)
             if self.dataframes.data_av is not None:
                 _array_av_cascade = data_av_cascade(self.dataframes, self.graph)
             else:
-- 
2.43.0


From f62ef00a7822f8f54f063728d9088833e01b99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 22/93] fix: from_idca modifies the index of the caller's table

---
 larch/dataset/construct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/larch/dataset/construct.py b/larch/dataset/construct.py
index c8ab412..ecd0c13 100644
--- a/larch/dataset/construct.py
+++ b/larch/dataset/construct.py
@@ -197,10 +197,13 @@ class _DatasetConstruct:
         if df.index.levels[1].dtype.kind != 'i':
             if altnames is None:
                 altnames = df.index.levels[1]
-                df.index = df.index.set_levels(np.arange(1, len(altnames) + 1), level=1)
+                df = df.set_axis(df.index.set_levels(np.arange(1, len(altnames) + 1), level=1), axis=0)
             else:
                 new_index = df.index.get_level_values(1).astype(pd.CategoricalDtype(altnames))
-                df.index = df.index.set_codes(new_index.codes, level=1).set_levels(np.arange(1, len(altnames) + 1), level=1)
+                df = df.set_axis(
+                    df.index.set_codes(new_index.codes, level=1).set_levels(np.arange(1, len(altnames) + 1), level=1),
+                    axis=0,
+                )
 
         ds = cls()(df, caseid=caseidname, alts=altidname)
         if crack:
-- 
2.43.0


From d622d5a691af5eae0e64ed49a69297eec74b241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 23/93] fix: log likelihood of the Cython engine varies from
 call to call with several threads

---
 larch/model/mnl.pyx | 4 +++-
 larch/model/nl.pyx  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/larch/model/mnl.pyx b/larch/model/mnl.pyx
index d338396..ac7d267 100644
--- a/larch/model/mnl.pyx
+++ b/larch/model/mnl.pyx
@@ -625,7 +625,6 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 					probability[store_number_P], # output
 					dfs._array_ch[c,:],
 				) * weight
-				ll += ll_temp
 				LL_case[store_number_LLc] += ll_temp
 
 				if return_dll:
@@ -645,6 +644,9 @@ def mnl_d_log_likelihood_from_dataframes_all_rows(
 							&dLL_temp[thread_number,0],
 						)
 
+		# add up in a fixed order, so the result does not vary from call to call
+		ll = LL_case.base.sum()
+
 		if probability_only:
 			ll = numpy.nan
 
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 7ca2c26..1cf734b 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -620,7 +620,6 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 					dfs._array_ch[c,:],                       # input [n_alts]
 				) * weight
 				LL_case[store_number_LLc] += ll_temp
-				ll += ll_temp
 
 				if return_dll:
 					_nl_d_utility_upstream_v2(
@@ -675,6 +674,9 @@ def nl_d_log_likelihood_from_dataframes_all_rows(
 							&dLL_temp[thread_number,0],
 						)
 
+		# add up in a fixed order, so the result does not vary from call to call
+		ll = LL_case.base.sum()
+
 		if probability_only:
 			ll = numpy.nan
 
-- 
2.43.0


From fecd5e2d6f788616a9dda21b8777baffc077e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 24/93] fix: copy of a NestingTree loses its root and the order
 of alternatives

---
 larch/model/tree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index c1764c5..e5059b4 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -92,6 +92,14 @@ class NestingTree(nx.DiGraph):
             and self._suggested_elemental_order == other._suggested_elemental_order
         )
 
+    def copy(self, as_view=False):
+        """
+        Copy this tree, including its root code and order of alternatives.
+        """
+        if as_view:
+            return super().copy(as_view=True)
+        return self.__class__(self)
+
     def suggest_elemental_order(self, order):
         self._suggested_elemental_order = tuple(j for j in order if j in self.nodes)
         self._clear_caches()
-- 
2.43.0


From 0040b1cad20d515130d83adf0265b82ee4998404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 25/93] fix: casewise results and bhhh of numba models ignore
 leave_out, keep_only and subsample

---
 larch/numba/model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 3cb535d..9296dda 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -1546,6 +1546,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1553,6 +1554,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
         )
         return result_arrays.loglike * self.weight_normalization
 
@@ -1561,6 +1565,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             **kwargs,
     ):
         result_arrays, penalty = self._loglike_runner(
@@ -1568,6 +1573,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_gradient=True,
         )
         return result_arrays.d_loglike * self.weight_normalization
@@ -1577,6 +1585,7 @@ class NumbaModel(_BaseModel):
             x=None,
             *,
             start_case=None, stop_case=None, step_case=None,
+            leave_out=-1, keep_only=-1, subsample=-1,
             return_dataframe=False,
             **kwargs,
     ):
@@ -1585,6 +1594,9 @@ class NumbaModel(_BaseModel):
             start_case=start_case,
             stop_case=stop_case,
             step_case=step_case,
+            leave_out=leave_out,
+            keep_only=keep_only,
+            subsample=subsample,
             return_bhhh=True,
         )
         result = result_arrays.bhhh.sum(0) * self.weight_normalization
-- 
2.43.0


From b5e3211f0a74cf862ff7e2a878befcc841095649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 26/93] fix: gradient of size terms sharing a parameter or of
 size zero

---
 larch/dataframes.pyx | 17 +++++++++-----
 larch/numba/model.py | 56 ++++++++++++++++++++++++++++----------------
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index b0adbcb..acfa60a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2422,12 +2422,17 @@ cdef class DataFrames:
 							_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
 						_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
 						U[j] += _temp
-						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value
 
-					for i in range(self.model_quantity_ca_param.shape[0]):
-						if not self.model_quantity_ca_param_holdfast[i]:
-							dU[j,self.model_quantity_ca_param[i]] /= U[j]
+					if U[j] > 0:
+						# the same parameter may appear in more than one size term
+						for i in range(self.model_quantity_ca_param.shape[0]):
+							if not self.model_quantity_ca_param_holdfast[i]:
+								if row >= 0:
+									_temp = self._array_ce[row, self.model_quantity_ca_data[i]]
+								else:
+									_temp = self._array_ca[c, j, self.model_quantity_ca_data[i]]
+								_temp *= self.model_quantity_ca_param_value[i] * self.model_quantity_ca_param_scale[i]
+								dU[j,self.model_quantity_ca_param[i]] += _temp * self.model_quantity_scale_param_value / U[j]
 
 					if Q is not None:
 						Q[j] = U[j]
@@ -2436,7 +2441,7 @@ cdef class DataFrames:
 					ELSE:
 						_temp = logf(U[j])
 					U[j] = _temp * self.model_quantity_scale_param_value
-					if (self.model_quantity_scale_param >= 0) and not self.model_quantity_scale_param_holdfast:
+					if (self.model_quantity_scale_param >= 0) and _temp > -INFINITY32 and not self.model_quantity_scale_param_holdfast:
 						dU[j,self.model_quantity_scale_param] += _temp
 
 				for i in range(self.model_utility_ca_param.shape[0]):
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 9296dda..6fd20ca 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -123,17 +123,25 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                     )
                     utility_elem[j] += _temp
-                    if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
 
-                for i in range(model_q_ca_param.shape[0]):
-                    if not holdfast_arr[model_q_ca_param[i]]:
-                        dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
+                if utility_elem[j] > 0:
+                    # the same parameter may appear in more than one size term
+                    for i in range(model_q_ca_param.shape[0]):
+                        if not holdfast_arr[model_q_ca_param[i]]:
+                            _temp = (
+                                    array_ce_data[row, model_q_ca_data[i]]
+                                    * model_q_ca_param_scale[i]
+                                    * np.exp(parameter_arr[model_q_ca_param[i]])
+                            )
+                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / utility_elem[j]
 
-                _tempsize = np.log(utility_elem[j])
-                utility_elem[j] = _tempsize * scale_param_value
-                if (model_q_scale_param[0] >= 0) and not scale_param_holdfast:
-                    dutility_elem[j, model_q_scale_param[0]] += _tempsize
+                    _tempsize = np.log(utility_elem[j])
+                    utility_elem[j] = _tempsize * scale_param_value
+                    if (model_q_scale_param[0] >= 0) and not scale_param_holdfast:
+                        dutility_elem[j, model_q_scale_param[0]] += _tempsize
+                else:
+                    # an alternative of size zero cannot be chosen
+                    utility_elem[j] = -np.inf
 
             j += 1
         while n_alts > j:
@@ -159,17 +167,25 @@ def quantity_from_data_ca(
                             * np.exp(parameter_arr[model_q_ca_param[i]])
                         )
                         utility_elem[j] += _temp
-                        if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value
 
-                    for i in range(model_q_ca_param.shape[0]):
-                        if not holdfast_arr[model_q_ca_param[i]]:
-                            dutility_elem[j, model_q_ca_param[i]] /= utility_elem[j]
-
-                    _tempsize = np.log(utility_elem[j])
-                    utility_elem[j] = _tempsize * scale_param_value
-                    if (model_q_scale_param[0] >= 0) and not scale_param_holdfast:
-                        dutility_elem[j, model_q_scale_param[0]] += _tempsize
+                    if utility_elem[j] > 0:
+                        # the same parameter may appear in more than one size term
+                        for i in range(model_q_ca_param.shape[0]):
+                            if not holdfast_arr[model_q_ca_param[i]]:
+                                _temp = (
+                                        array_ca[j, model_q_ca_data[i]]
+                                        * model_q_ca_param_scale[i]
+                                        * np.exp(parameter_arr[model_q_ca_param[i]])
+                                )
+                                dutility_elem[j, model_q_ca_param[i]] += _temp * scale_param_value / utility_elem[j]
+
+                        _tempsize = np.log(utility_elem[j])
+                        utility_elem[j] = _tempsize * scale_param_value
+                        if (model_q_scale_param[0] >= 0) and not scale_param_holdfast:
+                            dutility_elem[j, model_q_scale_param[0]] += _tempsize
+                    else:
+                        # an alternative of size zero cannot be chosen
+                        utility_elem[j] = -np.inf
 
             else:
                 utility_elem[j] = -np.inf
@@ -418,7 +434,7 @@ def _numba_utility_to_loglike(
             for s in range(upslots.size):
                 dn = dnslots[s]
                 up = upslots[s]
-                if array_av[dn]:
+                if array_av[dn] and utility[dn] > -np.inf:
                     cond_prob = conditional_probability[dn]
                     if dn >= n_alts:
                         dn_mu_slot = mu_slots[dn-n_alts]
-- 
2.43.0


From 971a3c00c2181092b84d6c2a4c03d8025999ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 27/93] fix: removing terms by data or parameter name refreshes
 the owning model

---
 larch/model/linear.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 60fde86..d79028f 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -877,7 +877,7 @@ cdef class LinearFunction_C:
 		while i > 0:
 			i -= 1
 			if self._func[i].data == data:
-				del self._func[i]
+				del self[i]
 		return self
 
 	def remove_param(self, param):
@@ -899,7 +899,7 @@ cdef class LinearFunction_C:
 		while i > 0:
 			i -= 1
 			if self._func[i].param == param:
-				del self._func[i]
+				del self[i]
 		return self
 
 	def __len__(self):
-- 
2.43.0


From a378db3cd40a5343d157a549a77e56569c952249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 28/93] fix: a quantity scale can be declared before the
 quantity function

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index acfa60a..82ae418 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2142,7 +2142,7 @@ cdef class DataFrames:
 					self.model_quantity_ca_param[n] = model._frame.index.get_loc(str(i.param))
 					self.model_quantity_ca_data [n] = self._data_ca_or_ce.columns.get_loc(str(i.data))
 					self.model_quantity_ca_param_scale[n] = i.scale
-				if model._quantity_scale is not None:
+				if model._quantity_scale is not None and len_model_utility_ca > 0:
 					self.model_quantity_scale_param = model._frame.index.get_loc(str(model._quantity_scale))
 				else:
 					self.model_quantity_scale_param = -1
-- 
2.43.0


From 9c0c38cf28dfcd696499ae0aef3abda9985cfef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 29/93] fix: holding or freeing a parameter at its current
 value reaches the data

---
 larch/model/parameter_frame.pxd | 2 +-
 larch/model/parameter_frame.pyx | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/larch/model/parameter_frame.pxd b/larch/model/parameter_frame.pxd
index 2faddea..dee15c9 100644
--- a/larch/model/parameter_frame.pxd
+++ b/larch/model/parameter_frame.pxd
@@ -11,7 +11,7 @@ cdef class ParameterFrame:
 	cdef:
 		unicode _title
 		bint    _mangled
-		object  _prior_frame_values   # pandas.Series
+		object  _prior_frame_values   # pandas.DataFrame
 		object  _display_order
 		object  _display_order_tail
 
diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index 8150219..dfce0dd 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -69,7 +69,7 @@ cdef class ParameterFrame:
 			fr = _empty_parameter_frame(parameters or [])
 			self._frame = fr
 
-		self._prior_frame_values = self._frame['value'].copy()
+		self._prior_frame_values = self._frame[['value', 'holdfast']].copy()
 		self._mangled = True
 		self._display_order = None
 		self._display_order_tail = None
@@ -88,12 +88,12 @@ cdef class ParameterFrame:
 		try:
 			if self._prior_frame_values is None or (
 				not (
-						numpy.array_equal(self._prior_frame_values.values, self._frame['value'].values)
-					and numpy.array_equal(self._prior_frame_values.index, self._frame['value'].index)
+						numpy.array_equal(self._prior_frame_values.values, self._frame[['value', 'holdfast']].values)
+					and numpy.array_equal(self._prior_frame_values.index, self._frame.index)
 				)
 			):
 				self._frame_values_have_changed()
-				self._prior_frame_values = self._frame['value'].copy()
+				self._prior_frame_values = self._frame[['value', 'holdfast']].copy()
 		except:
 			logger.exception('error in _check_if_frame_values_changed')
 			raise
-- 
2.43.0


From 3e29ada97ac7def4442e301500e262ff8e0fab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 30/93] fix: compiled models notice replaced or edited nesting
 trees

---
 larch/model/controller.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index b21768e..074c998 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1270,11 +1270,14 @@ cdef class Model5c(AbstractChoiceModel):
 			except ValueError:
 				import warnings
 				warnings.warn('cannot initialize graph, must define dataframes, dataservice, or give alternative_codes explicitly')
+		if self._graph is not None:
+			self._graph._instance = self
 		return self._graph
 
 	@graph.setter
 	def graph(self, x):
 		self._graph = x
+		self.mangle()
 
 	def initialize_graph(self, dataframes=None, alternative_codes=None, alternative_names=None, root_id=0):
 		"""
-- 
2.43.0


From 1689b73baff0fefc661a61623a9ee3b036847224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 31/93] fix: dissimilarity parameters held fast have no
 gradient in numba models

---
 larch/numba/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index 6fd20ca..e5ee458 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -494,6 +494,11 @@ def _numba_utility_to_loglike(
                         scratch_ += d_probability[up, p]
                         d_probability[dn, p] += scratch_ * conditional_probability[dn] # FIXME: for CNL, use edge not dn
 
+            # parameters held fast have no gradient
+            for p in range(parameter_arr.size):
+                if holdfast_arr[p]:
+                    d_probability[:, p] = 0.0
+
             if return_bhhh:
                 bhhh[:] = 0.0
 
-- 
2.43.0


From cf695b8cf4157be6cbc6885010ba2a3a226171ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 32/93] fix: a quantity scale can be declared before the
 quantity function of a numba model

---
 larch/numba/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/numba/model.py b/larch/numba/model.py
index e5ee458..1fd572a 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -876,7 +876,7 @@ def model_q_ca_slots(data_provider, model, dtype=np.float64):
     model_q_ca_param_scale = np.ones([len_model_q_ca], dtype=dtype)
     model_q_ca_param = np.zeros([len_model_q_ca], dtype=np.int32)
     model_q_ca_data = np.zeros([len_model_q_ca], dtype=np.int32)
-    if model.quantity_scale:
+    if model.quantity_scale and len_model_q_ca:
         model_q_scale_param = model._frame.index.get_loc(str(model.quantity_scale))
     else:
         model_q_scale_param = np.zeros([1], dtype=np.int32)-1
-- 
2.43.0


From 83507a18814a7caa06ada0954ac090b445d22075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 33/93] fix: changing the weight variable reaches the data
 arrays

---
 larch/model/controller.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 074c998..2ea7059 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1180,6 +1180,8 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@weight_co_var.setter
 	def weight_co_var(self, x):
+		if self._weight_co_var != x:
+			self.mangle()
 		self._weight_co_var = x
 
 	@property
-- 
2.43.0


From d93b351a29b4f55c4a274dd022acdc3f74801b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 34/93] fix: availability_any can be set to False

---
 larch/model/controller.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 2ea7059..1c09d85 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1259,6 +1259,9 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@availability_any.setter
 	def availability_any(self, x):
+		if not x:
+			self._availability_any = False
+			return
 		self._availability_any = True
 		self._availability_co_vars = None
 		self._availability_var = None
-- 
2.43.0


From faac2ed3a40ca4b08e6465f0b058e5d90bb75656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 35/93] fix: alternatives of a removed nest can be nested again

---
 larch/model/tree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index e5059b4..3a23bb3 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -330,11 +330,15 @@ class NestingTree(nx.DiGraph):
                 A node in the graph
         """
         replace_edges = {k: self.edges[k].copy() for k in self.edges(n)}
-        replace_heads = [k for k, _ in self.in_edges(n)]
+        replace_heads = [(k, imp) for k, _, imp in self.in_edges(n, data="implied")]
         super(NestingTree, self).remove_node(n)
         for k, attrs in replace_edges.items():
-            for h in replace_heads:
-                super().add_edge(h, k[1], **attrs)
+            for h, implied in replace_heads:
+                if not implied:
+                    super().add_edge(h, k[1], **attrs)
+                elif self.in_degree(k[1]) == 0:
+                    # the link to the root was only implied, and it still is
+                    super().add_edge(h, k[1], **{**attrs, "implied": True})
         self._clear_caches()
 
     @lazy
-- 
2.43.0


From 43b29e5536f26380eedba524761c1954e063a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 36/93] fix: reference log likelihoods are recomputed after the
 model or data change

---
 larch/model/abstract_model.pyx | 16 ++++++++++++++++
 larch/model/controller.pyx     |  2 ++
 larch/numba/model.py           |  1 +
 3 files changed, 19 insertions(+)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 4985b13..1b91df0 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -48,8 +48,24 @@ cdef class AbstractChoiceModel(ParameterFrame):
 
 	def mangle(self, *args, **kwargs):
 		self.clear_best_loglike()
+		self._cached_loglike_null = 0
 		super().mangle(*args, **kwargs)
 
+	def set_value(self, name, value=None, **kwargs):
+		"""
+		Set the value for a single model parameter.
+
+		See :meth:`ParameterFrame.set_value` for details.
+		"""
+		# null values and parameters held fast both bear on the null model
+		self._cached_loglike_null = 0
+		super().set_value(name, value, **kwargs)
+
+	def clear_reference_loglikes(self):
+		self._cached_loglike_nil = 0
+		self._cached_loglike_null = 0
+		self._cached_loglike_constants_only = 0
+
 	def clear_best_loglike(self):
 		if self._frame is not None and 'best' in self._frame.columns:
 			del self._frame['best']
diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index 1c09d85..a958dec 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -177,6 +177,7 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._matrixes                      ) = state["_matrixes                      ".strip()]
 
 		self.unmangle(True)
+		(self._cached_loglike_null           ) = state["_cached_loglike_null           ".strip()]
 		self.n_threads = 0
 		self._prior_frame_values = None
 		# if self._graph is not None:
@@ -519,6 +520,7 @@ cdef class Model5c(AbstractChoiceModel):
 
 		x.computational = True
 		self.clear_best_loglike()
+		self.clear_reference_loglikes()
 
 		#self.unmangle() # don't do a full unmangle here, it will fail if the old data is incomplete
 		if self._mangled:
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 1fd572a..758581c 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -2043,6 +2043,7 @@ class NumbaModel(_BaseModel):
 
         x.computational = True
         self.clear_best_loglike()
+        self.clear_reference_loglikes()
 
         # self.unmangle() # don't do a full unmangle here, it will fail if the old data is incomplete
         if self._is_mangled():
-- 
2.43.0


From 7fd1c62af3b96dc8ad963112a71611229e8bcc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 37/93] fix: adding an edge from a new node connects that node
 to the root

---
 larch/model/tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 3a23bb3..008f54f 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -170,9 +170,13 @@ class NestingTree(nx.DiGraph):
                     drops.append([u_, v_])
             for d in drops:
                 super().remove_edge(*d)
+        result = super().add_edge(int(u), int(v), implied=implied, **kwarg)
+        if u != self._root_id and self.in_degree(int(u)) == 0:
+            # a new upstream node is connected to the root until it gets a parent
+            super().add_edge(self._root_id, int(u), implied=True)
         if _clear_caches:
             self._clear_caches()
-        return super().add_edge(int(u), int(v), implied=implied, **kwarg)
+        return result
 
     def _remove_edge_no_implied(self, u, v, *arg, **kwarg):
         result = super().remove_edge(u, v)
-- 
2.43.0


From 6a9003b175b85aedc62dab338b1fe0925a964601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 38/93] fix: a subgraph of a nesting tree has the given node as
 its root

---
 larch/model/tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index 008f54f..b3f1f28 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -875,7 +875,13 @@ class NestingTree(nx.DiGraph):
             if i not in found:
                 found.add(i)
                 Q.extend(self.successors(i))
-        return NestingTree(self.subgraph(found), root_id=node)
+        return NestingTree(
+            nx.DiGraph(self.subgraph(found)),
+            root_id=node,
+            suggested_elemental_order=tuple(
+                j for j in self._suggested_elemental_order if j in found
+            ),
+        )
 
     def stats_summarize(self):
         print("Graph Stats")
-- 
2.43.0


From 534ed4830d1cc9dbee92d266037427d971bb032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 39/93] fix: a node named in the suggested order of
 alternatives can be removed

---
 larch/model/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/tree.py b/larch/model/tree.py
index b3f1f28..250d705 100644
--- a/larch/model/tree.py
+++ b/larch/model/tree.py
@@ -423,7 +423,7 @@ class NestingTree(nx.DiGraph):
         result = []
         found = set()
         for e in self._suggested_elemental_order:
-            if self.out_degree(e) == 0:
+            if e in self.nodes and self.out_degree(e) == 0:
                 result.append(e)
                 found.add(e)
         for e in sorted(self.__elementals_iter()):
-- 
2.43.0


From 3261221fe859d1e7d74730cb4e538157a642328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 40/93] fix: reading the graph of a model without nests does
 not reset its cached statistics

---
 larch/model/controller.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index a958dec..aa1348c 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -1283,8 +1283,10 @@ cdef class Model5c(AbstractChoiceModel):
 
 	@graph.setter
 	def graph(self, x):
+		was_mnl = self._graph is None
 		self._graph = x
-		self.mangle()
+		if not (was_mnl and self.is_mnl()):
+			self.mangle()
 
 	def initialize_graph(self, dataframes=None, alternative_codes=None, alternative_names=None, root_id=0):
 		"""
-- 
2.43.0


From 57d2fb7f64468c9b116297c4f9789d4ec89e1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 41/93] fix: parameters that just joined a model can be read,
 set by array and set before use

---
 larch/model/parameter_frame.pyx | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index dfce0dd..e154782 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -361,6 +361,11 @@ cdef class ParameterFrame:
 			name = str(name)
 		if name not in self._frame.index:
 			self.unmangle()
+			if name not in self._frame.index:
+				# not in the model yet, add a complete row
+				self._ensure_names([name])
+				if value is not None:
+					kwargs.setdefault('initvalue', value)
 		if value is not None:
 			# value = numpy.float64(value)
 			# self._frame.loc[name,'value'] = value
@@ -471,6 +476,11 @@ cdef class ParameterFrame:
 				return name.as_pmath().value(self)
 			return self._frame.loc[name,'value']
 		except KeyError:
+			if self._mangled and isinstance(name, str):
+				# the parameter may have joined the model since the last scan
+				self._scan_all_ensure_names()
+				if name in self._frame.index:
+					return self._frame.loc[name,'value']
 			if default is not None:
 				return default
 			else:
@@ -565,6 +575,9 @@ cdef class ParameterFrame:
 			the `pf` parameters DataFrame.
 		"""
 
+		if self._mangled:
+			# include parameters that joined the model since the last scan
+			self._scan_all_ensure_names()
 		if isinstance(values, str):
 			if values.lower() == 'null':
 				values = self._frame.loc[:,'nullvalue'].values
@@ -597,11 +610,9 @@ cdef class ParameterFrame:
 					raise ValueError(f"cannot set NaN values for parameters\n{loading_values}")
 				self._frame.loc[free_parameters, 'value'] = numpy.asanyarray(values)[free_parameters]
 		if len(kwargs):
-			if self._mangled:
-				self._scan_all_ensure_names()
 			for k,v in kwargs.items():
 				if k in self._frame.index:
-					if self._frame.loc[k,'holdfast'] == 0:
+					if self._frame.loc[k,'holdfast'] == 0 or not respect_holdfast:
 						self._frame.loc[k, 'value'] = v
 				else:
 					import warnings
-- 
2.43.0


From 4ec531c04383570121b31cc4ecd36a59cdff4869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 42/93] fix: setting a parameter that is not in the model yet
 reaches the model

---
 larch/model/parameter_frame.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index e154782..d80a504 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -364,6 +364,7 @@ cdef class ParameterFrame:
 			if name not in self._frame.index:
 				# not in the model yet, add a complete row
 				self._ensure_names([name])
+				self.mangle()
 				if value is not None:
 					kwargs.setdefault('initvalue', value)
 		if value is not None:
-- 
2.43.0


From 47c19e016694bf3b9ea4f594df5ddd65a322170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 43/93] fix: setting parameters by array keeps the number type
 of the parameter table

---
 larch/model/parameter_frame.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/parameter_frame.pyx b/larch/model/parameter_frame.pyx
index d80a504..cab79db 100644
--- a/larch/model/parameter_frame.pyx
+++ b/larch/model/parameter_frame.pyx
@@ -609,7 +609,7 @@ cdef class ParameterFrame:
 				loading_values = numpy.asanyarray(values)[free_parameters]
 				if numpy.any(numpy.isnan(loading_values)):
 					raise ValueError(f"cannot set NaN values for parameters\n{loading_values}")
-				self._frame.loc[free_parameters, 'value'] = numpy.asanyarray(values)[free_parameters]
+				self._frame.loc[free_parameters, 'value'] = loading_values.astype(l4_float_dtype)
 		if len(kwargs):
 			for k,v in kwargs.items():
 				if k in self._frame.index:
-- 
2.43.0


From 069215a6def60dad37428ce162ce017b96bde36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 44/93] fix: ratio bounds with negative or zero ratios state
 the wrong inequality

---
 larch/model/constraints.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 5827e08..34c9213 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -36,6 +36,14 @@ class ParametricConstraint(ABC):
         return [dict(type='ineq', fun=self.fun, jac=self.jac),]
 
 
+def _ratio_scaling(ratio):
+    # a positive factor, whatever the sign of the ratio
+    ratio = abs(ratio)
+    if ratio == 0:
+        return 1.0
+    return max(ratio, 1/ratio)
+
+
 class RatioBound(ParametricConstraint):
 
     def __init__(self, p_num, p_den, min_ratio=None, max_ratio=None, model=None, scale=10, binding_tol=1e-4):
@@ -66,7 +74,7 @@ class RatioBound(ParametricConstraint):
             self.i_den = model._frame.index.get_loc(self.p_den)
             self.len = len(model._frame)
             if self.min_ratio is not None:
-                scaling = max(self.min_ratio, 1/self.min_ratio) * self.scale
+                scaling = _ratio_scaling(self.min_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmin_num = 1 * scaling
@@ -81,7 +89,7 @@ class RatioBound(ParametricConstraint):
                 self.cmin_num = 0
                 self.cmin_den = 0
             if self.max_ratio is not None:
-                scaling = max(self.max_ratio, 1/self.max_ratio) * self.scale
+                scaling = _ratio_scaling(self.max_ratio) * self.scale
                 if model._frame.loc[self.p_den, 'minimum'] >= 0:
                     # positive denominator
                     self.cmax_num = -1 * scaling
-- 
2.43.0


From 14dca235d673de042928719d24fc56250e8ec8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 45/93] fix: a ratio bound with one limit is not always binding

---
 larch/model/constraints.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 34c9213..d1b73fb 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -105,9 +105,13 @@ class RatioBound(ParametricConstraint):
                 self.cmax_den = 0
 
     def _min_fun(self, x):
+        if self.min_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmin_num + x[self.i_den] * self.cmin_den
 
     def _max_fun(self, x):
+        if self.max_ratio is None:
+            return np.inf
         return x[self.i_num] * self.cmax_num + x[self.i_den] * self.cmax_den
 
     def fun(self, x):
@@ -153,13 +157,16 @@ class RatioBound(ParametricConstraint):
         cmax_num = self.cmax_num
         cmax_den = self.cmax_den
         scale = self.scale
+        # without a limit, that side is never near
+        free_min = np.inf if self.min_ratio is None else 0.0
+        free_max = np.inf if self.max_ratio is None else 0.0
         @njit([
             float32(float32[:], float32, float32),
             float64(float64[:], float64, float64),
         ])
         def penalty(x, intensity, sharpness=1.0):
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + free_min
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + free_max
             return -softplus(-np.minimum(_min, _max) * scale * intensity, sharpness)
         @njit([
             float32[:](float32[:], float32, float32),
@@ -167,8 +174,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty(x, intensity, sharpness=1.0):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + free_min
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + free_max
             partial = d_softplus(-np.minimum(_min, _max), sharpness * scale * intensity) * scale * intensity
             if _min < _max:
                 j[i_num] = cmin_num * partial
@@ -183,8 +190,8 @@ class RatioBound(ParametricConstraint):
         ])
         def dpenalty_money(x, intensity):
             j = np.zeros_like(x)
-            _min = x[i_num] * cmin_num + x[i_den] * cmin_den
-            _max = x[i_num] * cmax_num + x[i_den] * cmax_den
+            _min = x[i_num] * cmin_num + x[i_den] * cmin_den + free_min
+            _max = x[i_num] * cmax_num + x[i_den] * cmax_den + free_max
             if np.absolute(_min) < 1e-5:
                 partial = 0.5 * scale * intensity
                 j[i_num] = cmin_num * partial
-- 
2.43.0


From 8bf96ac7683f4860bce01c5613b783bf5f0d4aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 46/93] fix: constraints follow their parameters when the
 parameters of the model change

---
 larch/model/model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/larch/model/model.py b/larch/model/model.py
index 8c58d3a..2b4734c 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -799,6 +799,22 @@ class Model(_Model5c):
 		if self.dataframes is not None:
 			return self.dataframes.statistics(graph=self.graph)
 
+	def _scan_all_ensure_names(self):
+		super()._scan_all_ensure_names()
+		n_names = len(self._frame)
+		for c in self.constraints:
+			self._ensure_names([str(p) for p in c.get_parameters()])
+		if len(self._frame) > n_names:
+			self._frame.sort_index(inplace=True)
+		# the positions of parameters may have changed
+		for c in self.constraints:
+			try:
+				c.link_model(self)
+			except ValueError:
+				# the sign of a denominator is not known (any more),
+				# what was found before remains
+				pass
+
 	def _get_constraints(self, method):
 		if method.lower() in ('slsqp', 'cobyla'):
 			constraint_dicts = []
-- 
2.43.0


From 370a73ba2f074c7c695e31cd70a0a1a42326fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 47/93] fix: fixed bounds given as constraints work with numba
 models

---
 larch/model/constraints.py | 42 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index d1b73fb..e94facb 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -390,6 +390,48 @@ class FixedBound(ParametricConstraint):
             self.maximum if self.maximum is not None else np.inf,
         )]
 
+    def as_soft_penalty(self):
+        from numba import njit, float32, float64
+        from ..numba.model import softplus, d_softplus
+        i_p = self.i
+        minimum = -np.inf if self.minimum is None else float(self.minimum)
+        maximum = np.inf if self.maximum is None else float(self.maximum)
+        scale = self.scale
+        @njit([
+            float32(float32[:], float32, float32),
+            float64(float64[:], float64, float64),
+        ])
+        def penalty(x, intensity, sharpness=1.0):
+            _min = x[i_p] - minimum
+            _max = maximum - x[i_p]
+            return -softplus(-np.minimum(_min, _max) * scale * intensity, sharpness)
+        @njit([
+            float32[:](float32[:], float32, float32),
+            float64[:](float64[:], float64, float64),
+        ])
+        def dpenalty(x, intensity, sharpness=1.0):
+            j = np.zeros_like(x)
+            _min = x[i_p] - minimum
+            _max = maximum - x[i_p]
+            partial = d_softplus(-np.minimum(_min, _max), sharpness * scale * intensity) * scale * intensity
+            if _min < _max:
+                j[i_p] = partial
+            else:
+                j[i_p] = -partial
+            return j
+        @njit([
+            float32[:](float32[:], float32),
+            float64[:](float64[:], float64),
+        ])
+        def dpenalty_bind(x, intensity):
+            j = np.zeros_like(x)
+            if np.absolute(x[i_p] - minimum) < 1e-5:
+                j[i_p] = 0.5 * scale * intensity
+            elif np.absolute(maximum - x[i_p]) < 1e-5:
+                j[i_p] = -0.5 * scale * intensity
+            return j
+        return penalty, dpenalty, dpenalty_bind
+
     def __eq__(self, other):
         if not isinstance(other, FixedBound):
             return False
-- 
2.43.0


From a8bcfd96d4f1efa2f5d94d66ddc61231b324ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 48/93] fix: parameters with names like e1 can be constrained
 by text

---
 larch/model/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index e94facb..14421da 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -586,7 +586,7 @@ def asfloat(x):
     return float(x)
 
 def interpret_contraint(c):
-    numbr = r"\s*([-+]?\d*\.?\d*[eE]?[-+]?\d*|\d+\/\d+)\s*"
+    numbr = r"\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|\d+\/\d+)\s*"
     token = r"\s*([\w#:\*&^%\$!@]+)\s*"
 
     n_2w = f"^{numbr}(<=|<){token}(<=|<){numbr}$"
-- 
2.43.0


From 6a06105fbab9c5077cb617dfefa180c239519d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 49/93] fix: constraints that cannot be linked or are inserted
 by position

---
 larch/model/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 14421da..7060109 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -526,12 +526,12 @@ class ParametricConstraintList(MutableSequence):
         if not isinstance(value, ParametricConstraint):
             raise TypeError('items must be of type ParametricConstraint')
         if self.allow_dupes or not self._is_duplicate(value):
+            value.link_model(self._instance)
             self._cx[key] = value
             try:
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[key].link_model(self._instance)
 
     def __delitem__(self, key):
         del self._cx[key]
@@ -549,12 +549,12 @@ class ParametricConstraintList(MutableSequence):
         if not isinstance(value, ParametricConstraint):
             raise TypeError('items must be of type ParametricConstraint')
         if self.allow_dupes or not self._is_duplicate(value):
+            value.link_model(self._instance)
             self._cx.insert(index, value)
             try:
                 self._instance.mangle()
             except AttributeError as err:
                 pass
-            self._cx[index].link_model(self._instance)
 
     def __repr__(self):
         return repr(self._cx)
-- 
2.43.0


From 4c96fd5fa5682ac7a409074e1662d705afdbef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 50/93] fix: constraints can be extended in place, shared and
 rescaled

---
 larch/model/constraints.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/larch/model/constraints.py b/larch/model/constraints.py
index 7060109..dbd58aa 100644
--- a/larch/model/constraints.py
+++ b/larch/model/constraints.py
@@ -2,6 +2,7 @@
 import numpy as np
 from scipy.optimize import LinearConstraint
 from abc import ABC, abstractmethod
+import copy
 import re
 
 class ParametricConstraint(ABC):
@@ -492,6 +493,12 @@ class ParametricConstraintList(MutableSequence):
             newself = self.__fresh(instance)
         if newself is None:
             newself = self.__fresh(instance)
+        if values is newself:
+            # augmented assignment, the list is already changed in place
+            return
+        if isinstance(values, ParametricConstraintList):
+            # constraints are linked to one model only
+            values = [copy.copy(i) for i in values]
         newself.__init__(values)
         try:
             newself._instance.mangle()
@@ -577,6 +584,10 @@ class ParametricConstraintList(MutableSequence):
                 self._cx[index].link_model(self._instance, np.exp(np.random.uniform(-3, 3)))
             else:
                 self._cx[index].link_model(self._instance, scale)
+        try:
+            self._instance.mangle()
+        except AttributeError as err:
+            pass
 
 
 def asfloat(x):
-- 
2.43.0


From 9c32ab8f692ebc87196560c046ccf8be4c882580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 51/93] fix: BHHH does not step to a likelihood that is not a
 number

---
 larch/model/abstract_model.pyx | 6 +++---
 larch/model/optimization.py    | 2 +-
 larch/numba/optimization.py    | 9 ++++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 1b91df0..ef1e3fd 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -300,11 +300,11 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		tolerance = np.dot(direction, current_dll)
 		while True:
 			self.set_values(current + direction * steplen)
-			val = self.loglike()
+			val = self.loglike(leave_out=leave_out, keep_only=keep_only, subsample=subsample)
 			if val > current_ll: break
 			steplen *= 0.5
 			if steplen < 0.01: break
-		if val <= current_ll:
+		if not val > current_ll:
 			self.set_values(current)
 			raise BHHHSimpleStepFailure("simple step bhhh failed")
 		if printer is not None:
@@ -389,7 +389,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 				if proposed_ll > current_ll: break
 				steplen *= 0.5
 				if steplen < minimum_steplen: break
-			if proposed_ll <= current_ll:
+			if not proposed_ll > current_ll:
 				self.set_values(current_pvals)
 				raise BHHHSimpleStepFailure(f"simple step bhhh failed\ndirection = {str(direction)}")
 			if printer is not None:
diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index 5d081d0..d218550 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -487,7 +487,7 @@ def fit_bhhh(
             if proposed_ll > current_ll: break
             steplen *= 0.5
             if steplen < minimum_steplen: break
-        if proposed_ll <= current_ll:
+        if not proposed_ll > current_ll:
             model.set_values(current_pvals)
             raise BHHHSimpleStepFailure(f"simple step bhhh failed\ndirection = {str(direction)}")
         if printer is not None:
diff --git a/larch/numba/optimization.py b/larch/numba/optimization.py
index cc96b7e..07eda00 100644
--- a/larch/numba/optimization.py
+++ b/larch/numba/optimization.py
@@ -137,9 +137,16 @@ def fit_bhhh(
             steplen *= 0.5
             if steplen < minimum_steplen:
                 break
-        if proposed_ll <= current_ll:
+        if not proposed_ll > current_ll:
             logger.debug("no improvement found, reset to prior x")
             model.set_values(current_pvals)
+            if not model.constraint_intensity:
+                # there is no penalty to adjust, so the next try would be no different
+                raise BHHHSimpleStepFailure(f"simple step bhhh failed\ndirection = {str(direction)}")
+            proposed = model.loglike2_bhhh(
+                leave_out=leave_out, keep_only=keep_only, subsample=subsample,
+            )
+            proposed_ll = proposed.ll
             if not model.constraint_violation(on_violation='return'):
                 logger.debug("-- no constraints are violated")
                 # no violations, check that penalty is small
-- 
2.43.0


From b42f7128126f3d6674189163d751dc19e4516800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 52/93] fix: estimation reports the values the optimizer
 returned

---
 larch/model/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index d218550..a82ce5f 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -328,6 +328,12 @@ def maximize_loglike(
                     constraints=constraints,
                     **kwargs
                 )
+                # the last values tried are not always the ones returned
+                model.set_values(raw_result['x'])
+                raw_result['x'] = model.pvals
+                if isinstance(raw_result.get('jac'), np.ndarray):
+                    # nor are the derivatives always those at the values returned
+                    raw_result['jac'] = model.neg_d_loglike(model.pvals, *args, leave_out, keep_only, subsample)
             except:
                 dashboard.update(
                     f'Iteration {iteration_number:03} [Exception] {iteration_number_tail}',
-- 
2.43.0


From 063f8d0f7dd79885b4094207b4d09d8444c00a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 53/93] fix: BHHH starts and jump starts of the compiled models

---
 larch/model/abstract_model.pyx |  4 +--
 larch/model/optimization.py    | 47 +++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index ef1e3fd..9ed0994 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -324,7 +324,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		"""
 		for jump in range(jumpstart):
 			j_pvals = self.pvals.copy()
-			n_cases = self._dataframes._n_cases()
+			n_cases = self.n_cases
 			jump_breaks = list(range(0,n_cases, n_cases//jumpstart_split+(1 if n_cases%jumpstart_split else 0))) + [-1]
 			for j0,j1 in zip(jump_breaks[:-1],jump_breaks[1:]):
 				j_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(start_case=j0, stop_case=j1,
@@ -362,7 +362,6 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		-------
 		loglike, convergence_tolerance, n_iters, steps
 		"""
-		current_pvals = self.pvals.copy()
 		iter = 0
 		steps = []
 
@@ -370,6 +369,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			self.jumpstart_bhhh(jumpstart=jumpstart, jumpstart_split=jumpstart_split)
 			iter += jumpstart
 
+		current_pvals = self.pvals.copy()
 		current_ll, current_dll, current_bhhh = self._loglike2_bhhh_tuple(leave_out=leave_out,
 																		  keep_only=keep_only,
 																		  subsample=subsample,
diff --git a/larch/model/optimization.py b/larch/model/optimization.py
index a82ce5f..8483854 100644
--- a/larch/model/optimization.py
+++ b/larch/model/optimization.py
@@ -195,26 +195,33 @@ def maximize_loglike(
                 _restore_method = method
                 method_used = f"bhhh({bhhh_start})->{method}"
                 method = f"bhhh({bhhh_start})"
-                current_ll, tolerance, iter, steps_bhhh, message = model.fit_bhhh(
-                    steplen=1.0,
-                    momentum=5,
-                    logger=None,
-                    ctol=1e-4,
-                    maxiter=options.get('maxiter' ,100),
-                    soft_maxiter=bhhh_start,
-                    callback=callback,
-                    minimum_steplen=0.0001,
-                    maximum_steplen=1.0,
-                    leave_out=-1,
-                    keep_only=-1,
-                    subsample=-1,
-                    initial_constraint_intensity=1.0,
-                    step_constraint_intensity=1.5,
-                    max_constraint_intensity=1e6,
-                    initial_constraint_sharpness=1.0,
-                    step_constraint_sharpness=1.5,
-                    max_constraint_sharpness=1e6,
-                )
+                if hasattr(model, 'fit_bhhh'):
+                    current_ll, tolerance, iter, steps_bhhh, message = model.fit_bhhh(
+                        steplen=1.0,
+                        momentum=5,
+                        logger=None,
+                        ctol=1e-4,
+                        maxiter=options.get('maxiter' ,100),
+                        soft_maxiter=bhhh_start,
+                        callback=callback,
+                        minimum_steplen=0.0001,
+                        maximum_steplen=1.0,
+                        leave_out=-1,
+                        keep_only=-1,
+                        subsample=-1,
+                        initial_constraint_intensity=1.0,
+                        step_constraint_intensity=1.5,
+                        max_constraint_intensity=1e6,
+                        initial_constraint_sharpness=1.0,
+                        step_constraint_sharpness=1.5,
+                        max_constraint_sharpness=1e6,
+                    )
+                else:
+                    current_ll, tolerance, iter, steps_bhhh, message = model.simple_fit_bhhh(
+                        ctol=1e-4,
+                        maxiter=min(bhhh_start, options.get('maxiter' ,100)),
+                        callback=callback,
+                    )
                 raw_result = {
                     'loglike': current_ll,
                     'x': model.pvals,
-- 
2.43.0


From 22f3dd67f0c7fda486a8068e5464a76dc5225c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 54/93] fix: BHHH with every parameter held fast

---
 larch/model/abstract_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 9ed0994..92a1298 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -260,6 +260,8 @@ cdef class AbstractChoiceModel(ParameterFrame):
 					take[i, :] = False
 					take[:, i] = False
 					dense_s -= 1
+			if dense_s == 0:
+				return np.full_like(matrix, 0, dtype=np.float64)
 			hess_taken = matrix[take].reshape(dense_s, dense_s)
 			from ..linalg import general_inverse
 			try:
-- 
2.43.0


From 9873d3f497e299a4e75a750469c71f78fbd3ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 55/93] fix: products of conditions in data expressions

---
 larch/model/linear.pyx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index d79028f..142f794 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -15,7 +15,17 @@ _DataRef_repr_txt = 'X'
 
 _null_ = '_'
 
-_boolmatch = re.compile("^boolean\((.+)==(.+)\)$")
+_boolcall = re.compile(r"^boolean\([^()]*\)$")
+_boolmatch = re.compile(r"^boolean\(([^()=<>!]+)==([^()=<>!]+)\)$")
+
+
+def _different_literals(a, b):
+	from ast import literal_eval
+	try:
+		return literal_eval(a.strip()) != literal_eval(b.strip())
+	except (ValueError, SyntaxError):
+		return False
+
 
 
 def _what_is(thing):
@@ -317,17 +327,17 @@ cdef class DataRef_C(UnicodeRef_C):
 					return self
 				if isinstance(other, _Number):
 					return P(_null_) * other * self
-				if self == other and self[:8] == 'boolean(' and self[-1:]==')':
+				if self == other and _boolcall.match(self):
 					# Squaring a boolean does not change it
 					return self
-				if self[:8] == 'boolean(' and self[-1:]==')' and other[:8] == 'boolean(' and other[-1:]==')':
+				if _boolcall.match(self) and _boolcall.match(other):
 					# Check for two mutually exclusive conditions
 					boolmatch1 = _boolmatch.match(self)
 					if boolmatch1:
 						boolmatch2 = _boolmatch.match(other)
 						if boolmatch2:
 							if boolmatch1.group(1) == boolmatch2.group(1):
-								if boolmatch1.group(2) != boolmatch2.group(2):
+								if _different_literals(boolmatch1.group(2), boolmatch2.group(2)):
 									return DataRef_C('0')
 				return DataRef_C("{}*{}".format(parenthize(self), parenthize(other, True)))
 			if isinstance(other, ParameterRef_C):
-- 
2.43.0


From aa653ff392afe95ef489db53901dc69e60c692f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 56/93] fix: text of nested parameter differences and quotients

---
 larch/model/linear_math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/model/linear_math.py b/larch/model/linear_math.py
index a7cb71d..a6b8287 100644
--- a/larch/model/linear_math.py
+++ b/larch/model/linear_math.py
@@ -177,14 +177,14 @@ class _ParameterBinaryOp(_ParameterOp):
 		return "{} {} {}".format(
 			_parenthize_repr(self._left, self._precedence),
 			self._op,
-			_parenthize_repr(self._right, self._precedence),
+			_parenthize_repr(self._right, self._precedence + (self._op in ('-', '/'))),
 		)
 
 	def __str__(self):
 		return "{} {} {}".format(
 			_parenthize_repr(self._left, self._precedence),
 			self._op,
-			_parenthize_repr(self._right, self._precedence),
+			_parenthize_repr(self._right, self._precedence + (self._op in ('-', '/'))),
 		)
 
 
-- 
2.43.0


From 20bbafeb7f27f85503b4cb751a18bb8d7efc5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 57/93] fix: extending a linear function with itself or a
 generator

---
 larch/model/linear.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 142f794..53f1b01 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -924,6 +924,7 @@ cdef class LinearFunction_C:
 		_try_mangle(self._instance)
 
 	def extend(self, values):
+		values = list(values)
 		for v in values:
 			if not isinstance(v, LinearComponent_C):
 				raise TypeError("cannot add type {} to LinearFunction".format(type(v)))
@@ -966,7 +967,7 @@ cdef class LinearFunction_C:
 		if other == () or other == 0:
 			return self
 		elif isinstance(other, LinearFunction_C):
-			self._func.extend(other)
+			self._func.extend(list(other))
 			_try_mangle(self._instance)
 		elif isinstance(other, LinearComponent_C):
 			self.append(other)
-- 
2.43.0


From d37cea0c7c140e5d02a9285e7c12971d312b0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 58/93] fix: utility functions assigned from another
 alternative or model are not shared

---
 larch/model/linear.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 53f1b01..0a5baaf 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -1436,6 +1436,9 @@ cdef class DictOfLinearFunction_C:
 			raise TypeError(f"values in {self.__class__} can only have type LinearFunction_C, not {type(v)}")
 		if "with error" in repr(v):
 			raise ValueError("found error here")
+		if (<LinearFunction_C>v)._instance is not None and self._map.get(k) is not v:
+			# already in use somewhere else, where it is not to be changed from here
+			v = LinearFunction_C(v)
 		v.set_instance(self._instance)
 		self._map[k] = v
 		_try_mangle(self._instance)
-- 
2.43.0


From 96ca6be62545d07e9b2b4b18a41aadcbb549d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 59/93] fix: sums, differences, powers and products of utility
 terms that gave another expression

---
 larch/model/linear.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 0a5baaf..5b99016 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -128,7 +128,7 @@ cdef class ParameterRef_C(UnicodeRef_C):
 				return ParameterSubtract(self, other)
 		elif isinstance(other, ParameterRef_C):
 			if self == 0:
-				return other
+				return -LinearComponent_C(param=str(other), data="1")
 			if isinstance(self, (LinearComponent_C, LinearFunction_C)):
 				return self - LinearComponent_C(param=str(other), data="1")
 			if isinstance(self, _Number):
@@ -156,7 +156,7 @@ cdef class ParameterRef_C(UnicodeRef_C):
 				if other.param == _null_:
 					return LinearComponent_C(param=str(self), data=str(other.data), scale=other.scale)
 				from .linear_math import ParameterMultiply
-				return ParameterMultiply(self, other)
+				return ParameterMultiply(self, other.as_pmath())
 		elif isinstance(other, ParameterRef_C):
 			if isinstance(self, DataRef_C):
 				return LinearComponent_C(param=str(other), data=str(self))
@@ -295,7 +295,7 @@ cdef class DataRef_C(UnicodeRef_C):
 				return self
 			# Double zero is trapped here as it is used to flag duplicate terms in a utility function.
 			if self == "00":
-				return DataRef_C("0+{}".format(parenthize(self), parenthize(other, True)))
+				return DataRef_C("0+{}".format(parenthize(other, True)))
 			if other == "00":
 				return DataRef_C("{}+0".format(parenthize(self), parenthize(other, True)))
 			return DataRef_C("{}+{}".format(parenthize(self), parenthize(other, True)))
@@ -394,7 +394,7 @@ cdef class DataRef_C(UnicodeRef_C):
 		if modulo is not None:
 			raise NotImplementedError(f"no pow with modulo on {self.__class__.__name__}")
 		if isinstance(self, (DataRef_C, _Number)) and isinstance(other, (DataRef_C, _Number)):
-			return DataRef_C("{}**{}".format(parenthize(self),parenthize(other, True)))
+			return DataRef_C("{}**{}".format(parenthize(self, True),parenthize(other, True)))
 		return NotImplemented # raise NotImplementedError(f"{_what_is(self)} ** {_what_is(other)}")
 
 	def __invert__(self):
@@ -511,7 +511,7 @@ cdef class LinearComponent_C:
 				return LinearFunction_C([*self, ]) + other
 			else:
 				try:
-					return other + self.as_pmath()
+					return self + other.as_pmath()
 				except NotImplementedError:
 					pass
 		raise NotImplementedError(f"{_what_is(self)} + {_what_is(other)}")
@@ -526,7 +526,7 @@ cdef class LinearComponent_C:
 				return LinearFunction_C([self, *(-other)])
 			elif isinstance(other, ParameterRef_C):
 				return LinearFunction_C([self, -LinearComponent_C(param=str(other))])
-			elif isinstance(other, ParameterRef_C):
+			elif isinstance(other, DataRef_C):
 				return LinearFunction_C([self, -LinearComponent_C(param=_null_, data=str(other))])
 			else:
 				try:
-- 
2.43.0


From 809bd3d6ab2a96eb412cd0bbbc6ea87896c342c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 60/93] fix: BHHH matrix of latent class models

---
 larch/model/nl.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 1cf734b..3358a48 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -283,6 +283,7 @@ def d_loglike_from_d_probability(
 		if probability.shape[0] != array_ch.shape[0] or probability.shape[1] != array_ch.shape[1]:
 			raise ValueError(f"probabilities.shape ~= choices.shape {probability.shape} != {array_ch.shape}")
 
+		d_LL = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_temp = numpy.zeros(n_params, dtype=l4_float_dtype)
 		d_LL_cum = numpy.zeros(n_params, dtype=l4_float_dtype)
 		if return_bhhh:
@@ -302,7 +303,7 @@ def d_loglike_from_d_probability(
 					n_alts,
 					probability[c],
 					d_probability[c],
-					d_LL_temp,
+					d_LL,
 					array_ch[c],
 					wt,
 					return_bhhh,
-- 
2.43.0


From 0f66dc5330b57d621d8e1cfe900d8df221548257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 61/93] fix: weighted latent class models

---
 larch/model/latentclass.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 619c10c..4e626b5 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -412,7 +412,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt(dtype=l4_float_dtype).reshape(-1)[start_case:stop_case_:step_case]
 		else:
 			wt = None
 
@@ -444,6 +444,12 @@ class LatentClassModel(AbstractChoiceModel):
 				False
 			)
 
+		if wt is not None:
+			y.ll *= self.dataframes.weight_normalization
+			y.dll *= self.dataframes.weight_normalization
+			if 'bhhh' in y:
+				y.bhhh *= self.dataframes.weight_normalization
+
 		if start_case==0 and (stop_case==-1 or stop_case==self.n_cases) and step_case==1:
 			self._check_if_best(y.ll)
 
@@ -575,7 +581,7 @@ class LatentClassModel(AbstractChoiceModel):
 			stop_case_ = stop_case
 
 		if self.dataframes is not None and self.dataframes.data_wt is not None:
-			wt = self.dataframes.data_wt.iloc[start_case:stop_case_:step_case]
+			wt = self.dataframes.array_wt(dtype=l4_float_dtype).reshape(-1)[start_case:stop_case_:step_case]
 		elif getattr(self._k_membership, 'data_as_loaded', None) is not None and 'wt' in self._k_membership.data_as_loaded:
 			wt = self._k_membership.data_as_loaded['wt'].values[start_case:stop_case_:step_case]
 		else:
@@ -597,6 +603,8 @@ class LatentClassModel(AbstractChoiceModel):
 			ch[start_case:stop_case_:step_case],
 			wt
 		)
+		if wt is not None and self.dataframes is not None:
+			y.ll *= self.dataframes.weight_normalization
 
 		if start_case==0 and (stop_case==-1 or stop_case==self.n_cases) and step_case==1:
 			self._check_if_best(y.ll)
-- 
2.43.0


From 1716074b3eb97159e9b056e4de588716d3c93dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 62/93] fix: members of a latent class model stay in step with
 it

---
 larch/model/latentclass.py | 17 ++++++++++++++++-
 larch/model/nl.pyx         |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/larch/model/latentclass.py b/larch/model/latentclass.py
index 4e626b5..7ca6be2 100644
--- a/larch/model/latentclass.py
+++ b/larch/model/latentclass.py
@@ -30,6 +30,11 @@ def sync_frames(*models):
 		joined = joined[~joined.index.duplicated(keep='first')]
 		for m in models:
 			m.set_frame(joined)
+			# an equal frame is not replaced by set_frame, but it needs to be
+			# the very same frame for values to remain in sync
+			if m._frame is not joined:
+				m._frame = joined
+				m.mangle()
 
 class LatentClassModel(AbstractChoiceModel):
 	"""
@@ -131,7 +136,11 @@ class LatentClassModel(AbstractChoiceModel):
 	def __prep_for_compute(self, x=None):
 		self.unmangle()
 		if x is not None:
-			self._k_membership.set_values(x)
+			self.set_values(x)
+		# the frame is shared, so values can also have been changed from any constituent model
+		self._k_membership._check_if_frame_values_changed()
+		for m in self._k_models.values():
+			m._check_if_frame_values_changed()
 
 	def class_membership_probability(self, x=None, start_case=0, stop_case=-1, step_case=1):
 		self.__prep_for_compute(x)
@@ -661,10 +670,16 @@ class LatentClassModel(AbstractChoiceModel):
 		self._k_membership.mangle()
 		for m in self._k_models.values():
 			m.mangle()
+		self._mangled = True
 		super().mangle(*args, **kwargs)
 
 	def unmangle(self, force=False):
 		super().unmangle(force=force)
+		if not self._mangled:
+			# changes made in any constituent model are to be found as well
+			for m in (self._k_membership, *self._k_models.values()):
+				if m._is_mangled() or m._frame is not self._frame:
+					self._mangled = True
 		if self._mangled or force:
 			self._k_membership.unmangle(force=force)
 			for m in self._k_models.values():
diff --git a/larch/model/nl.pyx b/larch/model/nl.pyx
index 3358a48..1293119 100644
--- a/larch/model/nl.pyx
+++ b/larch/model/nl.pyx
@@ -273,6 +273,7 @@ def d_loglike_from_d_probability(
 		int c = 0
 		int n_alts = probability.shape[1]
 		int n_params = d_probability.shape[2]
+		l4_float_t[:] d_LL
 		l4_float_t[:] d_LL_temp
 		l4_float_t[:] d_LL_cum
 		l4_float_t[:,:] bhhh_temp
-- 
2.43.0


From 94a446e2000b6dc6d7060e2bb55e7119e53be639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 63/93] fix: adding, removing or changing members of a model
 group

---
 larch/model/model_group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index eaa6931..c6d9995 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -43,9 +43,11 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def __setitem__(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models[i] = value
+		self.mangle()
 
 	def __delitem__(self, x):
 		del self._k_models[x]
+		self.mangle()
 
 	def __len__(self):
 		return len(self._k_models)
@@ -56,6 +58,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 	def insert(self, i, value):
 		assert isinstance(value, AbstractChoiceModel)
 		self._k_models.insert(i,value)
+		self.mangle()
 
 	@property
 	def dataframes(self):
@@ -77,6 +80,9 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		return sum(k.total_weight() for k in self._k_models)
 
 	def unmangle(self, force=False):
+		if any(k._is_mangled() for k in self._k_models):
+			# a changed member means other best and null log likelihoods
+			self.mangle()
 		super().unmangle(force)
 		for k in self._k_models:
 			rows_to_import = [i for i in k.pf.index if i not in self._frame.index]
-- 
2.43.0


From 2be7923c605909545f610cbf061f344e4acf1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 64/93] fix: gradient and details of mixed model groups are
 matched by parameter name

---
 larch/model/model_group.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/larch/model/model_group.py b/larch/model/model_group.py
index c6d9995..78eaebc 100644
--- a/larch/model/model_group.py
+++ b/larch/model/model_group.py
@@ -233,6 +233,8 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 			result = sum(ll2_parts)
 			self._check_if_best(result)
 			return result
+		# some models give only the log likelihood itself
+		ll2_parts = [y if isinstance(y, dict) else dictx(ll=y) for y in ll2_parts]
 		ll2 = dictx(
 			ll=sum(y.ll for y in ll2_parts),
 		)
@@ -240,7 +242,7 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 			ll2.ll_parts = [y.ll for y in ll2_parts]
 		for key in ll2_parts[0].keys():
 			if key != 'll':
-				ll2[key] = list(y[key] for y in ll2_parts)
+				ll2[key] = list(y.get(key) for y in ll2_parts)
 		self._check_if_best(ll2.ll)
 		return ll2
 
@@ -294,17 +296,20 @@ class ModelGroup(AbstractChoiceModel, MutableSequence):
 		from ..util import dictx
 		self.__prep_for_compute(x)
 		ll2_parts = [m.loglike2(persist=persist) for m in self._k_models]
-		dll = ll2_parts[0].dll
-		for y in ll2_parts[1:]:
-			dll = dll.add(y.dll, fill_value=0)
-		dll = dll[self.pf.index]
+		# match by parameter name
+		dll = pd.Series(0.0, index=self.pf.index)
+		for m, y in zip(self._k_models, ll2_parts):
+			dll = dll.add(pd.Series(np.asarray(y.dll), index=m.pf.index), fill_value=0)
+		# parameters can remain in the frame after the members using them are gone
+		dll = dll.reindex(self.pf.index, fill_value=0.0)
+		dll[self.pf['holdfast'].values != 0] = 0
 		ll2 = dictx(
 			ll=sum(y.ll for y in ll2_parts),
 			dll=dll,
 		)
 		for key in ll2_parts[0].keys():
 			if key not in {'ll','dll'}:
-				ll2[key] = list(y[key] for y in ll2_parts)
+				ll2[key] = list(y.get(key) for y in ll2_parts)
 		self._check_if_best(ll2.ll)
 		return ll2
 
-- 
2.43.0


From 39113287c92e0ed685613e4f0729b3b6d88fe119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:24 +0000
Subject: [PATCH 65/93] fix: second derivatives leave parameter values as they
 were, and neg_loglike3 works

---
 larch/model/abstract_model.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index 92a1298..c83a2fd 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -434,7 +434,11 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		"""
 		part = self.loglike2(x=x, **kwargs)
 		from ..math.optimize import approx_fprime
-		part['d2ll'] = approx_fprime(self.pvals, lambda y: self.d_loglike(y, **kwargs))
+		current_pvals = self.pvals
+		try:
+			part['d2ll'] = approx_fprime(current_pvals, lambda y: self.d_loglike(y, **kwargs))
+		finally:
+			self.set_values(current_pvals)
 		return part
 
 	def neg_loglike(self, x=None, start_case=0, stop_case=-1, step_case=1, leave_out=-1, keep_only=-1, subsample=-1):
@@ -462,10 +466,8 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		return -np.asarray(result)
 
 	def neg_loglike3(self, *args, **kwargs):
-		from ..util import dictx
-		result = dictx()
 		part = self.loglike3(*args, **kwargs)
-		return (-result.ll, -result.dll, -result.d2ll)
+		return (-part.ll, -np.asarray(part.dll), -part.d2ll)
 
 	def _check_if_best(self, computed_ll, pvalues=None):
 		if computed_ll > self._cached_loglike_best:
-- 
2.43.0


From 090557a5fab1103fc8540e926bd0c3bdf749fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 66/93] fix: make_dataframes gives constants also without idco
 data

---
 larch/dataframes.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 82ae418..6d88f8a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3369,7 +3369,8 @@ cdef class DataFrames:
 
 		if 'co' in req_data:
 			df_co = columnize(
-				self._data_co,
+				# constants need no data
+				self._data_co if self._data_co is not None else pandas.DataFrame(index=self.caseindex),
 				list(req_data['co']),
 				inplace=False,
 				dtype=float_dtype,
-- 
2.43.0


From 61726f16695440aa256a00128c4e4b61144d96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:30 +0000
Subject: [PATCH 67/93] fix: parameter covariance drops earlier results, keeps
 names with its values, and marks unavailable robust errors

---
 larch/model/abstract_model.pyx | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index c83a2fd..c001488 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -1084,6 +1084,13 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		try:
 			hess = -self.d2_loglike()
 
+			# clear everything left by previous calculations
+			self._possible_overspecification = None
+			self._matrixes.clear()
+			for stale in ['unconstrained_std_err', 'unconstrained_t_stat', 'constrained', 'likelihood_ratio']:
+				if stale in self.pf.columns:
+					del self.pf[stale]
+
 			from ..model.possible_overspec import compute_possible_overspecification, PossibleOverspecification
 			overspec = compute_possible_overspecification(hess, self.pf.loc[:,'holdfast'])
 			if overspec:
@@ -1121,7 +1128,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 				try:
 					bhhh_taken = self.bhhh()[take].reshape(dense_s, dense_s)
 				except NotImplementedError:
-					robust_covariance_matrix = np.full_like(hess, 0, dtype=np.float64)
+					robust_covariance_matrix = np.full_like(hess, np.nan, dtype=np.float64)
 				else:
 					# import scipy.linalg.blas
 					# temp_b_times_h = scipy.linalg.blas.dsymm(float(1), invhess, bhhh_taken)
@@ -1185,10 +1192,10 @@ cdef class AbstractChoiceModel(ParameterFrame):
 				self.pf['robust_t_stat'] = (self.pf['value'] - self.pf['nullvalue']) / self.pf['robust_std_err']
 
 			if preserve_hessian:
-				self._matrixes['hessian_matrix'] = hess
+				self._matrixes['hessian_matrix'] = self._label_matrix(hess)
 
-			self._matrixes['covariance_matrix'] = covariance_matrix
-			self._matrixes['robust_covariance_matrix'] = robust_covariance_matrix
+			self._matrixes['covariance_matrix'] = self._label_matrix(covariance_matrix)
+			self._matrixes['robust_covariance_matrix'] = self._label_matrix(robust_covariance_matrix)
 
 			# constrained covariance
 			if self.constraints:
@@ -1207,7 +1214,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 				self.pf['unconstrained_std_err'] = self.pf['std_err'].copy()
 				self.pf['unconstrained_t_stat'] = self.pf['t_stat'].copy()
 
-				self._matrixes['unconstrained_covariance_matrix'] = self.covariance_matrix.values.copy()
+				self._matrixes['unconstrained_covariance_matrix'] = self.covariance_matrix.copy()
 				s = self.covariance_matrix.values
 				for c in constraints:
 					if np.absolute(c.fun(self.pf.value)) < c.binding_tol:
@@ -1216,7 +1223,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 						den = b@s@b
 						if den != 0:
 							s = s-(1/den)*s@b.reshape(-1,1)@b.reshape(1,-1)@s
-				self._matrixes['covariance_matrix'] = s
+				self._matrixes['covariance_matrix'] = self._label_matrix(s)
 				self.pf['std_err'] = np.sqrt(s.diagonal())
 				self.pf['t_stat'] = (self.pf['value'] - self.pf['nullvalue']) / self.pf['std_err']
 
@@ -1249,6 +1256,10 @@ cdef class AbstractChoiceModel(ParameterFrame):
 			logger.exception("error in calculate_parameter_covariance")
 			raise
 
+	def _label_matrix(self, mat):
+		# keep the names with the values, the parameter frame can change later
+		return pd.DataFrame(mat, index=self.pf.index.copy(), columns=self.pf.index.copy())
+
 	@property
 	def possible_overspecification(self):
 		from ..util.overspec_viewer import OverspecView
-- 
2.43.0


From 0c790d38da2a65254816426a9419d5dd781a0273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 68/93] fix: take back restoring the values after finite
 difference second derivatives, existing tests rely on the last step

---
 larch/model/abstract_model.pyx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/larch/model/abstract_model.pyx b/larch/model/abstract_model.pyx
index c001488..81901b9 100755
--- a/larch/model/abstract_model.pyx
+++ b/larch/model/abstract_model.pyx
@@ -434,11 +434,7 @@ cdef class AbstractChoiceModel(ParameterFrame):
 		"""
 		part = self.loglike2(x=x, **kwargs)
 		from ..math.optimize import approx_fprime
-		current_pvals = self.pvals
-		try:
-			part['d2ll'] = approx_fprime(current_pvals, lambda y: self.d_loglike(y, **kwargs))
-		finally:
-			self.set_values(current_pvals)
+		part['d2ll'] = approx_fprime(self.pvals, lambda y: self.d_loglike(y, **kwargs))
 		return part
 
 	def neg_loglike(self, x=None, start_case=0, stop_case=-1, step_case=1, leave_out=-1, keep_only=-1, subsample=-1):
-- 
2.43.0


From 37e330501e3d2e857c7e0bf98901df442d646ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 69/93] fix: dense view of sparse data skips alternatives
 without rows

---
 larch/numba/data_arrays.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/numba/data_arrays.py b/larch/numba/data_arrays.py
index b9e0b59..48559f4 100755
--- a/larch/numba/data_arrays.py
+++ b/larch/numba/data_arrays.py
@@ -584,7 +584,7 @@ def ce_to_dense(ce_data, ce_altidx, ce_caseptr, n_alts):
     out = np.zeros(shape, dtype=ce_data.dtype)
     c = 0
     for row in range(ce_data.shape[0]):
-        if row == ce_caseptr1[c]:
+        while row == ce_caseptr1[c]:
             c += 1
         a = ce_altidx[row]
         out[c,a,...] = ce_data[row,...]
@@ -600,7 +600,7 @@ def ce_bool_to_dense(ce_altidx, ce_caseptr, n_alts):
     out = np.zeros(shape, dtype=np.int8)
     c = 0
     for row in range(ce_altidx.shape[0]):
-        if row == ce_caseptr1[c]:
+        while row == ce_caseptr1[c]:
             c += 1
         a = ce_altidx[row]
         out[c,a,...] = 1
-- 
2.43.0


From eac48ed3acfdc95971199cebf508a421822e653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 70/93] fix: merging datasets regards the given join, compat
 and fill options

---
 larch/dataset/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index 273b6b7..cf02a8d 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -1368,10 +1368,10 @@ def merge(
     return Dataset.construct(
         xr.merge(
             objects,
-            compat="no_conflicts",
-            join="outer",
-            fill_value=dtypes.NA,
-            combine_attrs="override",
+            compat=compat,
+            join=join,
+            fill_value=fill_value,
+            combine_attrs=combine_attrs,
         ),
         caseid=caseid,
         alts=alts,
-- 
2.43.0


From 1e9188497eca901e772cf28c4dd2bf9811c3c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 71/93] fix: constructing datasets from idca and idce tables
 keeps levels, types and availability

---
 larch/dataset/construct.py | 56 ++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/larch/dataset/construct.py b/larch/dataset/construct.py
index ecd0c13..b1848db 100644
--- a/larch/dataset/construct.py
+++ b/larch/dataset/construct.py
@@ -42,7 +42,7 @@ def _initialize_for_larch(obj, caseid=None, alts=None):
     if isinstance(alts, pd.Series):
         alts_dim_name = alts.name or alts.index.name or '_altid_'
         alts_k = xr.DataArray(
-            alts.index, dims=alts_dim_name,
+            np.asarray(alts.index), dims=alts_dim_name,
         )
         alts_v = xr.DataArray(
             alts.values, dims=alts_dim_name,
@@ -79,6 +79,17 @@ def _initialize_for_larch(obj, caseid=None, alts=None):
     return obj
 
 
+def _sorted_levels(index, names):
+    """Rebuild a MultiIndex so that its levels are sorted and all in use."""
+    arrays = []
+    for n in range(index.nlevels):
+        a = index.get_level_values(n)
+        if isinstance(a, pd.CategoricalIndex):
+            a = a.remove_unused_categories()
+        arrays.append(a)
+    return pd.MultiIndex.from_arrays(arrays, names=names)
+
+
 @xr.register_dataset_accessor("construct")
 class _DatasetConstruct:
 
@@ -192,6 +203,9 @@ class _DatasetConstruct:
             raise ValueError("source idca dataframe must have a two "
                              "level MultiIndex giving case and alt id's")
         caseidname, altidname = df.index.names
+        caseidname = caseidname or CASEID
+        altidname = altidname or ALTID
+        df = df.set_axis(_sorted_levels(df.index, [caseidname, altidname]), axis=0)
 
         # check altids are integers, if they are not then fix it
         if df.index.levels[1].dtype.kind != 'i':
@@ -205,9 +219,15 @@ class _DatasetConstruct:
                     axis=0,
                 )
 
-        ds = cls()(df, caseid=caseidname, alts=altidname)
+        # missing rows would turn booleans into generic objects
+        bools = {k: np.int8 for k in df.columns[(df.dtypes == bool).values]}
+        ds = cls()(df.astype(bools), caseid=caseidname, alts=altidname)
         if crack:
             ds = ds.dc.dissolve_zero_variance()
+        # integers and booleans cannot represent a missing value
+        for k in ds:
+            if k in df and df[k].dtype.kind in 'iub' and ds[k].dtype.kind == 'f':
+                ds[k] = ds[k].fillna(0)
         ds = ds.set_dtypes(df)
         if altnames is not None:
             ds = ds.dc.set_altnames(altnames)
@@ -215,19 +235,19 @@ class _DatasetConstruct:
             av = xr.DataArray.from_series(pd.Series(1, index=df.index)).fillna(0).astype(np.int8)
             ds[avail] = av
             if fill_missing is not None:
-                if isinstance(fill_missing, Mapping):
-                    for k, i in ds.items():
-                        if ds.dc.ALTID not in i.dims:
+                for k, i in ds.items():
+                    if k == avail or ds.dc.ALTID not in i.dims:
+                        continue
+                    if isinstance(fill_missing, Mapping):
+                        if k in fill_missing:
+                            filler = fill_missing[k]
+                        elif i.dtype in fill_missing:
+                            filler = fill_missing[i.dtype]
+                        else:
                             continue
-                        if k not in fill_missing and i.dtype not in fill_missing:
-                            continue
-                        filler = fill_missing.get(k, fill_missing[i.dtype])
-                        ds[k] = i.where(ds['_avail_']!=0, filler)
-                else:
-                    for k, i in ds.items():
-                        if ds.dc.ALTID not in i.dims:
-                            continue
-                        ds[k] = i.where(ds['_avail_']!=0, fill_missing)
+                    else:
+                        filler = fill_missing
+                    ds[k] = i.where(ds[avail] != 0, filler)
         return ds
 
     @classmethod
@@ -280,13 +300,7 @@ class _DatasetConstruct:
         case_pointer = case_pointer or CASEPTR
         # the case pointers and alternative indexes assume rows sorted by case
         # then by alternative, and index levels that are sorted and all in use
-        df = df.set_axis(
-            pd.MultiIndex.from_arrays(
-                [df.index.get_level_values(0), df.index.get_level_values(1)],
-                names=df.index.names,
-            ),
-            axis=0,
-        )
+        df = df.set_axis(_sorted_levels(df.index, df.index.names), axis=0)
         if not df.index.is_monotonic_increasing:
             df = df.sort_index()
         ds = cls()(df.reset_index(drop=True).rename_axis(index=dim_name))
-- 
2.43.0


From dbbacb662faaf75e7f90e82cb50c3c152a4dc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 72/93] fix: query_cases selects the rows and pointers of
 sparse data too

---
 larch/dataset/flow.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index b900772..3f72b4f 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -529,7 +529,23 @@ class _DatasetDC(_GenericFlow):
         Dataset.isel
         pandas.eval
         """
-        result = self._obj.query({self.CASEID: query}, parser=parser, engine=engine)
+        if self.CASEPTR is None or self.CASEALT not in self._obj.dims:
+            result = self._obj.query({self.CASEID: query}, parser=parser, engine=engine)
+        else:
+            # the sparse rows and the case pointers go along with the cases
+            position = '_case_position_'
+            result = self._obj.assign(
+                {position: ((self.CASEID,), np.arange(self._obj.dims[self.CASEID]))}
+            ).query({self.CASEID: query}, parser=parser, engine=engine)
+            keep = result[position].values
+            ptr = self._obj[self.CASEPTR].values
+            rows = [np.arange(ptr[c], ptr[c + 1]) for c in keep]
+            result = result.drop_vars([position, self.CASEPTR]).isel(
+                {self.CASEALT: np.concatenate(rows) if rows else np.arange(0)}
+            )
+            result.coords[self.CASEPTR] = xr.DataArray(
+                np.cumsum([0, *(len(r) for r in rows)]), dims=self.CASEPTR,
+            )
         result = self.transfer_dimension_attrs(result)
         return result
 
-- 
2.43.0


From b284c3ae0d2eaad3bddce9c3e3efa5a33daed6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 73/93] fix: dissolving zero variance is exact, works in place
 and on cases without rows

---
 larch/dataset/flow.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index 3f72b4f..2db2f26 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -42,16 +42,19 @@ def ce_dissolve_zero_variance(ce_data, ce_caseptr):
         ce_caseptr1 = ce_caseptr[1:]
     shape = (ce_caseptr1.shape[0], )
     out = np.zeros(shape, dtype=ce_data.dtype)
-    c = 0
-    out[0] = ce_data[0]
-    for row in range(ce_data.shape[0]):
-        if row == ce_caseptr1[c]:
-            c += 1
-            out[c] = ce_data[row]
-        else:
+    first = 0
+    for c in range(ce_caseptr1.shape[0]):
+        last = ce_caseptr1[c]
+        if first == last:
+            # there is no value for a case that has no rows
+            failed = 1
+            break
+        out[c] = ce_data[first]
+        for row in range(first, last):
             if out[c] != ce_data[row]:
                 failed = 1
                 break
+        first = last
     return out, failed
 
 
@@ -404,24 +407,25 @@ class _GenericFlow:
         if dim == '<ALTID>':
             dim = self.ALTID
         if inplace:
-            obj = self
+            obj = self._obj
         else:
-            obj = self.copy()
-        for k in obj.variables:
+            obj = self._obj.copy()
+        for k in list(obj.data_vars):
             if obj[k].dtype.kind in {'U', 'S', 'O'}:
                 continue
             if dim in obj[k].dims:
                 try:
-                    dissolve = (obj[k].std(dim=dim).max() < 1e-10)
+                    lowest = obj[k].min(dim=dim)
+                    dissolve = bool(((obj[k].max(dim=dim) == lowest) | lowest.isnull()).all())
                 except TypeError:
                     pass
                 else:
                     if dissolve:
-                        obj[k] = obj[k].min(dim=dim)
+                        obj[k] = lowest
             elif obj[k].dims == (self.CASEALT,):
                 proposal, flag = ce_dissolve_zero_variance(obj[k].values, obj[self.CASEPTR].values)
                 if flag == 0:
-                    obj = obj.assign({k: xr.DataArray(proposal, dims=(self.CASEID))})
+                    obj[k] = xr.DataArray(proposal, dims=(self.CASEID))
         return obj
 
     def dissolve_coords(self, dim, others=None):
-- 
2.43.0


From 6fbace5666e4569a2b0af7dae6b957d89e32eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 74/93] fix: alternative names set on a dataset are known as
 its alternative names

---
 larch/dataset/flow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/larch/dataset/flow.py b/larch/dataset/flow.py
index 2db2f26..0c419b4 100644
--- a/larch/dataset/flow.py
+++ b/larch/dataset/flow.py
@@ -241,6 +241,7 @@ class _GenericFlow:
                 dims=obj.dc.ALTID,
             )
         obj.coords['altnames'] = names
+        obj.coords['alt_names'] = names
         return obj
 
     def as_tree(self, label='main', exclude_dims=()):
-- 
2.43.0


From a9c2e81e6069f162f799cb97435edca462a4a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 75/93] fix: splitting DataFrames keeps alternatives and the
 weight normalization

---
 larch/dataframes.pyx     | 20 +++++++++++---------
 larch/util/multiindex.py |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 6d88f8a..81ab7cc 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -488,16 +488,16 @@ cdef class DataFrames:
 				if not isinstance(ce.index, pandas.MultiIndex) or ce.index.nlevels!=2:
 					raise ValueError('ce must have two level multi-index')
 				try:
-					ce = ce.set_index(ce.index.set_levels(ce.index.levels[0].astype(int), level=0))
+					ce = ce.set_axis(ce.index.set_levels(ce.index.levels[0].astype(int), level=0), axis=0)
 				except Exception as err:
 					raise ValueError('ce multi-index must have integer case values') from err
 				try:
-					ce = ce.set_index(ce.index.set_levels(ce.index.levels[1].astype(int), level=1))
+					ce = ce.set_axis(ce.index.set_levels(ce.index.levels[1].astype(int), level=1), axis=0)
 				except Exception as err:
 					if alt_codes is None and alt_names is None:
 						alt_names = list(ce.index.levels[1])
 						alt_codes = numpy.arange(len(alt_names))+1
-						ce = ce.set_index(ce.index.set_levels(alt_codes, level=1))
+						ce = ce.set_axis(ce.index.set_levels(alt_codes, level=1), axis=0)
 					else:
 						raise ValueError('ce multi-index must have integer values') from err
 
@@ -507,16 +507,16 @@ cdef class DataFrames:
 				if not isinstance(ca.index, pandas.MultiIndex) or ca.index.nlevels!=2:
 					raise ValueError('ca must have two level multi-index')
 				try:
-					ca = ca.set_index(ca.index.set_levels(ca.index.levels[0].astype(numpy.int64), level=0))
+					ca = ca.set_axis(ca.index.set_levels(ca.index.levels[0].astype(numpy.int64), level=0), axis=0)
 				except Exception as err:
 					raise ValueError('ca multi-index must have integer values') from err
 				try:
-					ca = ca.set_index(ca.index.set_levels(ca.index.levels[1].astype(numpy.int64), level=1))
+					ca = ca.set_axis(ca.index.set_levels(ca.index.levels[1].astype(numpy.int64), level=1), axis=0)
 				except Exception as err:
 					if alt_codes is None and alt_names is None:
 						alt_names = list(ca.index.levels[1])
 						alt_codes = numpy.arange(len(alt_names))+1
-						ca = ca.set_index(ca.index.set_levels(alt_codes, level=1))
+						ca = ca.set_axis(ca.index.set_levels(alt_codes, level=1), axis=0)
 					else:
 						raise ValueError('ca multi-index must have integer values') from err
 
@@ -1513,7 +1513,7 @@ cdef class DataFrames:
 			# Change level names if requested
 			caseindex_name = self._caseindex_name or df.index.names[0]
 			altindex_name = self._altindex_name or df.index.names[1]
-			df = df.set_index(df.index.set_names([caseindex_name, altindex_name]))
+			df = df.set_axis(df.index.set_names([caseindex_name, altindex_name]), axis=0)
 
 			if df.index.levels[1].is_monotonic_increasing and not df.index.is_monotonic_increasing:
 				df = df.sort_index()
@@ -1643,7 +1643,7 @@ cdef class DataFrames:
 			# Change level names if requested
 			caseindex_name = self._caseindex_name or df.index.names[0]
 			altindex_name = self._altindex_name or df.index.names[1]
-			df = df.set_index(df.index.set_names([caseindex_name, altindex_name]))
+			df = df.set_axis(df.index.set_names([caseindex_name, altindex_name]), axis=0)
 
 			if not df.index.is_monotonic_increasing:
 				df = df.sort_index()
@@ -3143,12 +3143,13 @@ cdef class DataFrames:
 				else:
 					these_positions_2 = numpy.in1d(self.data_ca.index.codes[0], numpy.where(these_positions))
 					data_ca=self.data_ca.iloc[these_positions_2,:]
+					data_ca=data_ca.set_axis(remove_unused_level(data_ca.index, 0), axis=0)
 				if self.data_ce is None:
 					data_ce = None
 				else:
 					these_positions_2 = numpy.in1d(self.data_ce.index.codes[0], numpy.where(these_positions))
 					data_ce=self.data_ce.iloc[these_positions_2,:]
-					data_ce.index = remove_unused_level(data_ce.index, 0)
+					data_ce=data_ce.set_axis(remove_unused_level(data_ce.index, 0), axis=0)
 
 				data_av=None if self.data_av is None else self.data_av.iloc[these_positions,:]
 				data_ch=None if self.data_ch is None else self.data_ch.iloc[these_positions,:]
@@ -3177,6 +3178,7 @@ cdef class DataFrames:
 					wt_name=self._data_wt_name,
 					av_name=self._data_av_name,
 				))
+				result[-1].weight_normalization = self.weight_normalization
 			logger.debug(f'done splitting dataframe {splits}')
 			return result
 		except:
diff --git a/larch/util/multiindex.py b/larch/util/multiindex.py
index 509ff33..58f3c86 100644
--- a/larch/util/multiindex.py
+++ b/larch/util/multiindex.py
@@ -56,7 +56,7 @@ def remove_unused_level(multiindex, level=0):
 
 				# codes get mapped from uniques to 0:len(uniques)
 				# -1 (if present) is mapped to last position
-				code_mapping = np.zeros(len(lev) + has_na)
+				code_mapping = np.zeros(len(lev) + has_na, dtype=int)
 				# ... and reassigned value -1:
 				code_mapping[uniques] = np.arange(len(uniques)) - has_na
 
-- 
2.43.0


From cfdd828bbbcf30ddcd2d98c5786a8297e3d37315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:45 +0000
Subject: [PATCH 76/93] fix: sparse data keeps alternatives without rows, and
 idce views without sparse data

---
 larch/dataframes.pyx | 73 ++++++++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 81ab7cc..147d86a 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -601,6 +601,7 @@ cdef class DataFrames:
 			if ca is not None:
 				self._ensure_consistent_alternative_codes(ca.index.levels[1])
 			if ce is not None:
+				ce = self._include_absent_alternatives(ce)
 				self._ensure_consistent_alternative_codes(ce.index.levels[1])
 
 			if ch is None and ch_name is not None and co is not None and ch_name in co.columns:
@@ -1391,6 +1392,22 @@ cdef class DataFrames:
 			logger.error(f"self._alternative_codes = {self._alternative_codes}")
 			raise
 
+	def _include_absent_alternatives(self, ce):
+		# sparse data does not need to have rows for every known alternative
+		known = self._alternative_codes
+		if known is None or len(known) <= len(ce.index.levels[1]):
+			return ce
+		if not (known.is_unique and known.is_monotonic_increasing and ce.index.levels[1].isin(known).all()):
+			return ce
+		return ce.set_axis(
+			pandas.MultiIndex(
+				levels=[ce.index.levels[0], known],
+				codes=[ce.index.codes[0], known.get_indexer(ce.index.get_level_values(1))],
+				names=ce.index.names,
+			),
+			axis=0,
+		)
+
 	@property
 	def alternatives(self):
 		"""A dict mapping the id to the name of each alternative"""
@@ -1603,16 +1620,29 @@ cdef class DataFrames:
 		"""
 		if self.data_co is None:
 			return None
-		cdef int c,a,v,row,n_vars
-		n_vars = self._array_co.shape[1]
-		arr = numpy.zeros( [len(self.data_ce), n_vars], dtype=l4_float_dtype )
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					for v in range(n_vars):
-						arr[row,v] = self._array_co[c,v]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['weight'])
+		return self._co_to_ce(self.data_co)
+
+	def _ce_index(self):
+		# the case and alternative of each row in idce format
+		if self.data_ce is not None:
+			return self.data_ce.index
+		if self._data_av is None:
+			raise NotImplementedError('not implemented when data_ce and data_av are None')
+		return self._stack_to_ce(self._data_av, 'avail').index
+
+	def _co_to_ce(self, df):
+		# repeat values by case on each row in idce format
+		index = self._ce_index()
+		return df.loc[index.get_level_values(0)].set_axis(index, axis=0)
+
+	def _stack_to_ce(self, df, column):
+		# drop the unavailable alternatives from values by case and alternative
+		if self._data_av is None:
+			raise NotImplementedError('not implemented when data_ce and data_av are None')
+		result = df.stack().rename(column).to_frame()
+		if self._data_ca is not None:
+			result.index.names = self._data_ca.index.names
+		return result[self._data_av.stack().astype(bool).values]
 
 	@property
 	def data_ce(self):
@@ -1663,7 +1693,7 @@ cdef class DataFrames:
 			# else:
 			# 	self._array_ce_caseindexes = self.data_ce.index.labels[0] - min_case_x
 			self._array_ce_altindexes  = self.data_ce.index.codes[1]
-			self._array_ce_reversemap = numpy.full([self._array_ce_caseindexes.max()+1, self._array_ce_altindexes.max()+1], -1, dtype=numpy.int64)
+			self._array_ce_reversemap = numpy.full([self._array_ce_caseindexes.max()+1, max(self._array_ce_altindexes.max()+1, self._n_alts())], -1, dtype=numpy.int64)
 			for i in range(len(self._array_ce_caseindexes)):
 				c = self._array_ce_caseindexes[i]
 				a = self._array_ce_altindexes[i]
@@ -1692,7 +1722,9 @@ cdef class DataFrames:
 		"""
 		if promote:
 			self.data_ce[promote] = numpy.int8(1)
-		result = self.data_ce.unstack().fillna(0).stack()
+		result = self.data_ce.reindex(pandas.MultiIndex.from_product(
+			[self.caseindex, self.alternative_codes()], names=self.data_ce.index.names,
+		)).fillna(0)
 		try:
 			result = result.astype(self.data_ce.dtypes)
 		except ValueError:
@@ -1723,9 +1755,7 @@ cdef class DataFrames:
 		if self._data_av is None:
 			return None
 		if self.data_ce is None:
-			if self._data_av is None:
-				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_av[self._data_av.stack().astype(bool).values]
+			return self._stack_to_ce(self._data_av, 'avail')
 
 		arr = numpy.zeros( [len(self.data_ce)], dtype=numpy.int8 )
 		cdef int c,a,row
@@ -1842,9 +1872,7 @@ cdef class DataFrames:
 		if self._data_ch is None:
 			return None
 		if self.data_ce is None:
-			if self._data_av is None:
-				raise NotImplementedError('not implemented when data_ce and data_av are None')
-			return self._data_ch[self._data_av.stack().astype(bool).values]
+			return self._stack_to_ce(self._data_ch, 'choice')
 
 		arr = numpy.zeros( [len(self.data_ce)], dtype=l4_float_dtype )
 		cdef int c,a,row
@@ -1871,14 +1899,7 @@ cdef class DataFrames:
 	def data_wt_as_ce(self):
 		if self.data_wt is None:
 			return None
-		arr = numpy.zeros( [len(self.data_ce)], dtype=l4_float_dtype )
-		cdef int c,a,row
-		for c in range(self._array_ce_reversemap.shape[0]):
-			for a in range(self._array_ce_reversemap.shape[1]):
-				row = self._array_ce_reversemap[c,a]
-				if row >= 0:
-					arr[row] = self._array_wt[c]
-		return pandas.DataFrame(arr, index=self.data_ce.index, columns=['weight'])
+		return self._co_to_ce(self.data_wt).set_axis(['weight'], axis=1)
 
 	@property
 	def _data_ca_or_ce(self):
-- 
2.43.0


From 5c5d0454f1482d38149330d23bd4c287185db8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:15 +0000
Subject: [PATCH 77/93] fix: weights that are all zero are not scaled to nan

---
 larch/dataframes.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 147d86a..a656721 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3032,6 +3032,9 @@ cdef class DataFrames:
 		if numpy.isnan(total_weight):
 			total_weight = self.data_wt.sum()
 		scale_level = total_weight / self._n_cases()
+		if scale_level == 0:
+			# there is no weight to scale
+			return 1.0
 
 		for i in range(self._array_wt.shape[0]):
 			self._array_wt[i] /= scale_level
-- 
2.43.0


From e6368983dd89aac1b526122a250ddeaf51c7b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:15 +0000
Subject: [PATCH 78/93] fix: doctor leaves unreported weights alone and accepts
 data without choices or availability

---
 larch/troubleshooting.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/larch/troubleshooting.py b/larch/troubleshooting.py
index aa7c55d..47ea61d 100644
--- a/larch/troubleshooting.py
+++ b/larch/troubleshooting.py
@@ -99,6 +99,9 @@ def chosen_but_not_available(dfs, repair=None, verbose=3):
 	else:
 		m = None
 
+	if dfs.data_av is None or dfs.data_ch is None:
+		return (dfs if m is None else m), None
+
 	if m is not None and dfs.data_ch.shape[1] == len(m.graph):
 		# choice data is wide, make availability data wide
 		data_av = dfs.data_av_cascade(m.graph)
@@ -175,6 +178,9 @@ def chosen_but_zero_quantity(dfs, repair=None, verbose=3):
 	else:
 		m = None
 
+	if dfs.data_av is None or dfs.data_ch is None:
+		return (dfs if m is None else m), None
+
 	try:
 		zero_q = dfs.get_zero_quantity_ca()
 	except ValueError:
@@ -271,9 +277,9 @@ def nothing_chosen_but_nonzero_weight(dfs, repair=None, verbose=3):
 			if repair == '+':
 				raise ValueError("cannot resolve chosen_but_zero_quantity by assuming some choice")
 			elif repair == '-':
-				dfs.array_wt()[nothing_chosen] = 0
+				dfs.array_wt()[nothing_chosen_some_weight] = 0
 			elif repair == '*':
-				dfs.array_wt()[nothing_chosen] = 0
+				dfs.array_wt()[nothing_chosen_some_weight] = 0
 				dfs.autoscale_weights()
 	if m is None:
 		return dfs, diagnosis
-- 
2.43.0


From 5539dc3f357b52241ec9c08f4937efb1f63674b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:14 +0000
Subject: [PATCH 79/93] fix: references keep their name when pickled or copied

---
 larch/model/linear.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/larch/model/linear.pyx b/larch/model/linear.pyx
index 5b99016..b08c132 100755
--- a/larch/model/linear.pyx
+++ b/larch/model/linear.pyx
@@ -48,6 +48,9 @@ cdef class UnicodeRef_C(unicode):
 	Instead create :class:`ParameterRef_C` or :class:`DataRef_C` objects as needed.
 	"""
 
+	def __reduce__(self):
+		return type(self), (str(self),)
+
 cdef class Ref_Gen:
 
 	def __init__(self, kind):
@@ -77,6 +80,12 @@ cdef class ParameterRef_C(UnicodeRef_C):
 		self._formatting = formatting
 		return self
 
+	def __reduce__(self):
+		return type(self), (str(self),), (self._formatting,)
+
+	def __setstate__(self, state):
+		self._formatting, = state
+
 	def __repr__(self):
 		if _re.match("[_A-Za-z][_a-zA-Z0-9]*$", self) and not _keyword.iskeyword(self):
 			return "{}.{}".format(_ParameterRef_C_repr_txt, self)
-- 
2.43.0


From 5e8d5236c24686c1e3451385beb65a3f3e4cbd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:14 +0000
Subject: [PATCH 80/93] fix: a saved model keeps its constraints

---
 larch/model/controller.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/larch/model/controller.pyx b/larch/model/controller.pyx
index aa1348c..d5296c8 100644
--- a/larch/model/controller.pyx
+++ b/larch/model/controller.pyx
@@ -132,6 +132,7 @@ cdef class Model5c(AbstractChoiceModel):
 		state["_cached_loglike_best           ".strip()] = (self._cached_loglike_best           )
 		state["_title                         ".strip()] = (self._title                         )
 		state["_matrixes                      ".strip()] = (self._matrixes                      )
+		state["constraints                    ".strip()] = list(self.constraints)
 
 		state = cloudpickle.dumps(state)
 		state = gzip.compress(state)
@@ -176,6 +177,13 @@ cdef class Model5c(AbstractChoiceModel):
 		(self._title                         ) = state["_title                         ".strip()]
 		(self._matrixes                      ) = state["_matrixes                      ".strip()]
 
+		try:
+			self.constraints = state.get("constraints", ())
+		except ValueError:
+			# the sign of a denominator is not known (any more),
+			# what was found before remains
+			pass
+
 		self.unmangle(True)
 		(self._cached_loglike_null           ) = state["_cached_loglike_null           ".strip()]
 		self.n_threads = 0
-- 
2.43.0


From 0b42d74a0aa47012b2f3ee4ae0e290d61cc82984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:14 +0000
Subject: [PATCH 81/93] fix: a model without data can be copied

---
 larch/model/model.py |  8 +++++---
 larch/numba/model.py | 11 +++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 2b4734c..15c06c4 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -165,9 +165,10 @@ class Model(_Model5c):
 		super().__init__(**kwargs)
 		if model is not None:
 			self.__setstate__(model.__getstate__())
-			if dataservice is None:
+			if dataservice is None and model.dataservice is not None:
 				self.dataservice = model.dataservice
-			self.dataframes = model.dataframes
+			if model.dataframes is not None:
+				self.dataframes = model.dataframes
 		if dataservice is not None:
 			self.dataservice = dataservice
 		self._scan_all_ensure_names()
@@ -754,7 +755,8 @@ class Model(_Model5c):
 		"""
 		import pickle
 		result = pickle.loads(self.dumps())
-		result.dataservice = self.dataservice
+		if self.dataservice is not None:
+			result.dataservice = self.dataservice
 		result._graph = result.graph
 		return result
 
diff --git a/larch/numba/model.py b/larch/numba/model.py
index 758581c..70ea46f 100755
--- a/larch/numba/model.py
+++ b/larch/numba/model.py
@@ -924,18 +924,21 @@ class NumbaModel(_BaseModel):
 
     _null_slice = (None, None, None)
 
-    def __init__(self, *args, float_dtype=np.float64, datatree=None, **kwargs):
+    def __init__(self, *args, float_dtype=None, datatree=None, **kwargs):
         for a in args:
             if datatree is None and isinstance(a, (DataTree, Dataset)):
                 datatree = a
+        # these defaults give way to those of another model, if one is given
+        self.float_dtype = np.float64
+        self.constraint_intensity = 0.0
+        self.constraint_sharpness = 0.0
         super().__init__(*args, **kwargs)
         self._dataset = None
         self._fixed_arrays = None
         self._data_arrays = None
         self.work_arrays = None
-        self.float_dtype = float_dtype
-        self.constraint_intensity = 0.0
-        self.constraint_sharpness = 0.0
+        if float_dtype is not None:
+            self.float_dtype = float_dtype
         self._constraint_funcs = None
         self.datatree = datatree
 
-- 
2.43.0


From f0d45a2a89c2c2e92b8c512997a369dd8e7caf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:14 +0000
Subject: [PATCH 82/93] fix: Model.load opens the file it reads

---
 larch/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/larch/model/model.py b/larch/model/model.py
index 15c06c4..4c8b0a2 100644
--- a/larch/model/model.py
+++ b/larch/model/model.py
@@ -139,7 +139,8 @@ class Model(_Model5c):
 			from ..util.excel import load_metadata
 			return load_metadata(filename, key='_self_')
 		import pickle
-		return pickle.load(filename)
+		with open(filename, 'rb') as f:
+			return pickle.load(f)
 
 	def __init__(
 			self,
-- 
2.43.0


From 2eb9f59d6d3137e3dfc16ec7a2605eb660d56db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:15 +0000
Subject: [PATCH 83/93] fix: dumped data frames keep alternatives and weight
 normalization

---
 larch/dataframes.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index a656721..3fcfa98 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2817,6 +2817,12 @@ cdef class DataFrames:
 			storage_dict['co'] = self.data_co
 		if self.data_wt is not None:
 			storage_dict['wt'] = self.data_wt
+		if self.alternative_codes() is not None and len(self.alternative_codes()):
+			storage_dict['alt_codes'] = self.alternative_codes()
+		if self.alternative_names() is not None:
+			storage_dict['alt_names'] = self.alternative_names()
+		if self.weight_normalization != 1.0:
+			storage_dict['weight_normalization'] = self.weight_normalization
 		import joblib
 		return joblib.dump(storage_dict, filename, **kwargs)
 
@@ -2843,7 +2849,10 @@ cdef class DataFrames:
 
 		import joblib
 		storage_dict = joblib.load(filename)
-		return cls(**storage_dict)
+		weight_normalization = storage_dict.pop('weight_normalization', 1.0)
+		result = cls(**storage_dict)
+		result.weight_normalization = weight_normalization
+		return result
 
 
 	def standardize(self, with_mean=True, with_std=True, DataFrames same_as=None):
-- 
2.43.0


From c498643689b3e6a95d586eeb342b3e33d1774538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:15 +0000
Subject: [PATCH 84/93] fix: DataArray.to_zarr writes to the store it is given

---
 larch/dataset/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataset/__init__.py b/larch/dataset/__init__.py
index cf02a8d..3e837ee 100644
--- a/larch/dataset/__init__.py
+++ b/larch/dataset/__init__.py
@@ -122,7 +122,7 @@ def to_zarr(self, store=None, *args, **kwargs):
                 dataset.to_zarr(zstore, **kwargs)
             return
 
-    return dataset.to_zarr(*args, **kwargs)
+    return dataset.to_zarr(store, *args, **kwargs)
 
 @register_dataarray_classmethod
 def from_zarr(cls, *args, name=None, **kwargs):
-- 
2.43.0


From cae2e1f8c1ab9d6b63092353081dc30db0ca8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:15 +0000
Subject: [PATCH 85/93] fix: weights can be injected from feathers

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 3fcfa98..9cdf7ee 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1193,7 +1193,7 @@ cdef class DataFrames:
 		if array_wt is not None and 'wt' in components:
 			filename_wt = str(filename)+".data_wt"
 			tb = pf.read_table(filename_wt)
-			arr = tb['data_wt'].to_numpy().reshape(array_wt.shape[0])
+			arr = tb['data_wt'].to_numpy().reshape(array_wt.shape)
 			array_wt[:] = arr[:]
 
 
-- 
2.43.0


From fcaf70a71c866061aca303b279b54442e8a233cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:15 +0000
Subject: [PATCH 86/93] fix: an interrupted feathers collection is not read as
 complete; normalization readable

---
 larch/dataframes.pyx | 60 ++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 9cdf7ee..f5874db 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -925,6 +925,7 @@ cdef class DataFrames:
 		import pyarrow as pa
 		import pyarrow.feather as pf
 		import pickle
+		import os
 		try:
 
 			if components is None:
@@ -935,31 +936,18 @@ cdef class DataFrames:
 			if not self.is_computational_ready(True):
 				self.computational = True
 
-			if 'meta' in components:
-				alt_data = {}
-				altcodes = self.alternative_codes()
-				if altcodes is not None:
-					alt_data['altcodes'] = altcodes
-				altnames = self.alternative_names()
-				if altnames is not None:
-					alt_data['altnames'] = altnames
-				tb = pa.table(alt_data)
-				metadata = tb.schema.metadata or {}
-				caseindex = self.caseindex
-				if caseindex is not None:
-					ci = pickle.dumps(caseindex)
-					metadata[b'CASEINDEX'] = pa.compress(ci, asbytes=True)
-					metadata[b'CASEINDEXBYTES'] = str(len(ci))
-				if self.weight_normalization != 1.0:
-					metadata[b'WGT_NORM'] = self.weight_normalization.hex()
-				new_schema = tb.schema.with_metadata(metadata)
-				tb = tb.cast(new_schema)
-				pf.write_feather(tb, str(filename)+".metadata")
+			filename_meta = str(filename)+".metadata"
+			if 'meta' in components and os.path.exists(filename_meta):
+				# The metadata is written last: until then, the files
+				# are not complete and cannot be read.
+				os.remove(filename_meta)
 
 			# core data
+			written = set()
 			def segment_out(seg):
 				array_ = getattr(self, f'array_{seg}')()
 				if array_ is not None:
+					written.add(seg)
 					if seg == 'ce':
 						pf.write_feather(self.data_ce.reset_index(), str(filename)+f".data_ce")
 					else:
@@ -982,6 +970,29 @@ cdef class DataFrames:
 			for seg in components:
 				if seg == 'meta': continue
 				segment_out(seg)
+
+			if 'meta' in components:
+				alt_data = {}
+				altcodes = self.alternative_codes()
+				if altcodes is not None:
+					alt_data['altcodes'] = altcodes
+				altnames = self.alternative_names()
+				if altnames is not None:
+					alt_data['altnames'] = altnames
+				tb = pa.table(alt_data)
+				metadata = tb.schema.metadata or {}
+				caseindex = self.caseindex
+				if caseindex is not None:
+					ci = pickle.dumps(caseindex)
+					metadata[b'CASEINDEX'] = pa.compress(ci, asbytes=True)
+					metadata[b'CASEINDEXBYTES'] = str(len(ci))
+				if written:
+					metadata[b'COMPONENTS'] = ','.join(sorted(written))
+				if self.weight_normalization != 1.0:
+					metadata[b'WGT_NORM'] = self.weight_normalization.hex()
+				new_schema = tb.schema.with_metadata(metadata)
+				tb = tb.cast(new_schema)
+				pf.write_feather(tb, filename_meta)
 			# if self.array_co() is not None and 'co' in components:
 			# 	tb = pa.table([self.array_co().T.reshape(-1)], ['data_co'])
 			# 	if 'meta' in components:
@@ -1061,9 +1072,14 @@ cdef class DataFrames:
 		caseindex = from_metadata(tb, b'CASEINDEX')
 		raw_wgtnorm = tb.schema.metadata.get(b'WGT_NORM', None)
 		if raw_wgtnorm:
-			wgtnorm = float.fromhex(raw_wgtnorm)
+			wgtnorm = float.fromhex(raw_wgtnorm.decode())
 		else:
 			wgtnorm = 1.0
+		listed = tb.schema.metadata.get(b'COMPONENTS', None)
+		if listed is not None:
+			# only these files belong to the collection
+			listed = set(listed.decode().split(','))
+			components = components & listed
 
 		kwargs = {}
 		def segment_in(seg):
@@ -1092,6 +1108,8 @@ cdef class DataFrames:
 						if seg in ('ch','wt'):
 							df = df.copy() # these two arrays must be writeable
 					kwargs[seg] = df
+				elif listed is not None:
+					raise FileNotFoundError(filename_seg)
 			except Exception as err:
 				raise ValueError(f"error in reading '{seg}'") from err
 		for seg in components:
-- 
2.43.0


From fbdf31108b944f3b1250ff1d75ba1b8ca6aa2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:25 +0000
Subject: [PATCH 87/93] fix: availability given by idco columns is attached to
 its cases

---
 larch/dataframes.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index f5874db..aa6653d 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -667,8 +667,10 @@ cdef class DataFrames:
 					dtype=numpy.int8,
 				)
 				for _altcode, _av_def in av.items():
-					_av_temp.loc[:,_altcode] = columnize(self.data_co, [_av_def], inplace=False, dtype=numpy.int8)
+					_av_temp.loc[:,_altcode] = columnize(self.data_co, [_av_def], inplace=False, dtype=numpy.int8).iloc[:,0]
 				av = _av_temp
+			if isinstance(av, str) and self.data_ca is None and self.data_ce is not None:
+				av = columnize(self.data_ce, [av], inplace=False, dtype=numpy.int8).iloc[:,0].unstack(fill_value=0)
 			if isinstance(av, str) and self.data_ca is not None:
 				av = pandas.DataFrame(
 					data=columnize(self.data_ca, [av], inplace=False, dtype=numpy.int8).values.reshape(-1, len(self.alternative_codes())),
-- 
2.43.0


From aa9c61b680e940c5472e3d760d09de79ab93aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:37 +0000
Subject: [PATCH 88/93] fix: weights can be taken from a column of the
 alternatives table

---
 larch/dataframes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index aa6653d..0d29deb 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -591,10 +591,10 @@ cdef class DataFrames:
 					wt = co[wt_name]
 				elif ca is not None and wt_name in ca.columns:
 					logger.debug(" DataFrames ~ build wt from ca")
-					_, wt = force_crack_idca(ca[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
+					wt = force_crack_idca(ca[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
 				elif ce is not None and wt_name in ce.columns:
 					logger.debug(" DataFrames ~ build wt from ce")
-					_, wt = force_crack_idca(ce[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
+					wt = force_crack_idca(ce[wt_name], crack if ((crack is not None) and (crack is not False)) else True)
 
 			logger.debug(" DataFrames ~ set alternative_codes")
 			self._ensure_consistent_alternative_codes(alt_codes)
-- 
2.43.0


From 43d7bda7b4b02ab9e8f31409a9c116fe22b47d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:38 +0000
Subject: [PATCH 89/93] fix: case and alternative ids of other types are sorted
 as integers

---
 larch/dataframes.pyx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 0d29deb..47019cf 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -135,6 +135,19 @@ def _fast_check_multiindex_equality(i, j):
 			return False
 	return True
 
+def _integer_level(index, level):
+	values = index.levels[level]
+	integers = values.astype(numpy.int64)
+	index = index.set_levels(integers, level=level)
+	if (level == 0 or integers.dtype != values.dtype) and not integers.is_monotonic_increasing:
+		# what was sorted in another type is not sorted as integers
+		order = numpy.argsort(integers.values)
+		rank = numpy.argsort(order)
+		codes = numpy.asarray(index.codes[level])
+		index = index.set_levels(integers[order], level=level, verify_integrity=False)
+		index = index.set_codes(numpy.where(codes >= 0, rank[codes], codes), level=level)
+	return index
+
 def _data_check(x, df, valid_shorts=()):
 	if str(x) in df:
 		return True
@@ -488,11 +501,11 @@ cdef class DataFrames:
 				if not isinstance(ce.index, pandas.MultiIndex) or ce.index.nlevels!=2:
 					raise ValueError('ce must have two level multi-index')
 				try:
-					ce = ce.set_axis(ce.index.set_levels(ce.index.levels[0].astype(int), level=0), axis=0)
+					ce = ce.set_axis(_integer_level(ce.index, 0), axis=0)
 				except Exception as err:
 					raise ValueError('ce multi-index must have integer case values') from err
 				try:
-					ce = ce.set_axis(ce.index.set_levels(ce.index.levels[1].astype(int), level=1), axis=0)
+					ce = ce.set_axis(_integer_level(ce.index, 1), axis=0)
 				except Exception as err:
 					if alt_codes is None and alt_names is None:
 						alt_names = list(ce.index.levels[1])
@@ -507,11 +520,11 @@ cdef class DataFrames:
 				if not isinstance(ca.index, pandas.MultiIndex) or ca.index.nlevels!=2:
 					raise ValueError('ca must have two level multi-index')
 				try:
-					ca = ca.set_axis(ca.index.set_levels(ca.index.levels[0].astype(numpy.int64), level=0), axis=0)
+					ca = ca.set_axis(_integer_level(ca.index, 0), axis=0)
 				except Exception as err:
 					raise ValueError('ca multi-index must have integer values') from err
 				try:
-					ca = ca.set_axis(ca.index.set_levels(ca.index.levels[1].astype(numpy.int64), level=1), axis=0)
+					ca = ca.set_axis(_integer_level(ca.index, 1), axis=0)
 				except Exception as err:
 					if alt_codes is None and alt_names is None:
 						alt_names = list(ca.index.levels[1])
-- 
2.43.0


From 8ace9070070f13dadb4b1959e3c4a704cd661e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:38 +0000
Subject: [PATCH 90/93] fix: building a container leaves the index of the given
 idco table alone

---
 larch/dataframes.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 47019cf..ed4c116 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -491,9 +491,13 @@ cdef class DataFrames:
 				if co.index.nlevels!=1:
 					raise ValueError('co must have one level index')
 				try:
-					co.index = co.index.astype(int)
+					co_index = co.index.astype(int)
 				except Exception as err:
 					raise ValueError('co index must have integer values') from err
+				if co_index.dtype != co.index.dtype:
+					# the data provided by the user is left as it is
+					co = co.copy(deep=False)
+					co.index = co_index
 
 			if ce is not None:
 				# If ce is given, ensure that it has a two level multi-index,
-- 
2.43.0


From d6b32bb9e5e1ef464edc6e780555d8ee45449372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:38 +0000
Subject: [PATCH 91/93] fix: scaling data without weights keeps weight and
 normalization in step

---
 larch/dataframes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index ed4c116..10eba7d 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -2978,7 +2978,7 @@ cdef class DataFrames:
 				need_to_extract_wgt_from_ch = True
 				break
 
-		if need_to_extract_wgt_from_ch and self._data_wt is None:
+		if (need_to_extract_wgt_from_ch or scale != 1.0) and self._data_wt is None:
 			self.data_wt = pandas.DataFrame(
 				data=1.0,
 				index=self.caseindex,
-- 
2.43.0


From c29d553dff2e0cd0c3c39ec851b3911805cf083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:38 +0000
Subject: [PATCH 92/93] fix: choice summary without choices, without
 availability, and with weights that show only in availability

---
 larch/dataframes.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 10eba7d..7dba64d 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -1299,15 +1299,15 @@ cdef class DataFrames:
 					av_w = pandas.Series((av_.values * self.data_wt.values).sum(0), index=av_.columns)
 				else:
 					av_w = None
-				show_wt = numpy.any(ch != ch_w)
+				show_wt = numpy.any(ch != ch_w) or numpy.any(av != av_w)
 			else:
 				ch_w = ch
 				av_w = av
 				show_wt = False
 
-			if av_ is not None:
-				ch_.values[av_.values > 0] = 0
-			if ch_ is not None and ch_.values.sum() > 0:
+			if av_ is not None and ch_ is not None:
+				ch_ = ch_.mask(av_.values > 0, 0)
+			if av_ is not None and ch_ is not None and ch_.values.sum() > 0:
 				ch_but_not_av = ch_.sum()
 				if self.data_wt is not None:
 					ch_but_not_av_w = pandas.Series((ch_.values * self.data_wt.values).sum(0), index=ch_.columns)
-- 
2.43.0


From f5476d76736059b153bfd2a9cf0337d66a0ad1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:48 +0000
Subject: [PATCH 93/93] fix: split containers whose case index keeps unused
 levels

---
 larch/dataframes.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/larch/dataframes.pyx b/larch/dataframes.pyx
index 7dba64d..87f6dde 100644
--- a/larch/dataframes.pyx
+++ b/larch/dataframes.pyx
@@ -3211,13 +3211,13 @@ cdef class DataFrames:
 				if self.data_ca is None:
 					data_ca = None
 				else:
-					these_positions_2 = numpy.in1d(self.data_ca.index.codes[0], numpy.where(these_positions))
+					these_positions_2 = self.data_ca.index.get_level_values(0).isin(self.caseindex[these_positions])
 					data_ca=self.data_ca.iloc[these_positions_2,:]
 					data_ca=data_ca.set_axis(remove_unused_level(data_ca.index, 0), axis=0)
 				if self.data_ce is None:
 					data_ce = None
 				else:
-					these_positions_2 = numpy.in1d(self.data_ce.index.codes[0], numpy.where(these_positions))
+					these_positions_2 = self.data_ce.index.get_level_values(0).isin(self.caseindex[these_positions])
 					data_ce=self.data_ce.iloc[these_positions_2,:]
 					data_ce=data_ce.set_axis(remove_unused_level(data_ce.index, 0), axis=0)
 
-- 
2.43.0


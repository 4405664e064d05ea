From 8373308ca36b55918984cd142a094080aee595d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:09 +0000
Subject: [PATCH 01/73] fix: window bounds raise TypeError with numpy >= 2.5
 when locating t_start/t_stop

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index fb660fc..f09e869 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1134,7 +1134,7 @@ class ContTempNetwork:
             else:
                 t = self.times[self.times <= t].max()
 
-        k = int(np.where(self.times == t)[0])
+        k = int(np.where(self.times == t)[0][0])
 
         return t, k
 
-- 
2.43.0


From a3dacfad49e5eaf05eec49b882574814ccd57ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:09 +0000
Subject: [PATCH 02/73] fix: row normalization must not change the index type
 of sparse matrices

---
 src/flowstab/sparse_stoch_mat.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d71d46b..3f9942d 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -196,8 +196,8 @@ class SparseStochMat:
         res = _css.sparse_stoch_from_full_csr(
                 np.array(nz_rowcols, dtype=np.int32),
                 Tcsr.data.astype(dtype=np.float64),
-                Tcsr.indices,
-                Tcsr.indptr,
+                Tcsr.indices.astype(np.int32, copy=False),
+                Tcsr.indptr.astype(np.int32, copy=False),
                 diag_val)
 
         return cls(*res)
@@ -223,10 +223,10 @@ class SparseStochMat:
         """Normalize the rows in place
         """
 
-        self.T_small.indptr = self.T_small.indptr.astype(np.int64, copy=False)
-        self.T_small.indices = self.T_small.indices.astype(np.int64, copy=False)
-
-        _css.inplace_csr_row_normalize(self.T_small.data, self.T_small.indptr,
+        # the normalization only needs an int64 view of indptr, T_small has to
+        # keep its int32 indices (expected by the other operations)
+        _css.inplace_csr_row_normalize(self.T_small.data,
+                                       self.T_small.indptr.astype(np.int64, copy=False),
                                        self.T_small.shape[0], row_sum)
 
         self.diag_val = row_sum
@@ -571,16 +571,17 @@ def inplace_csr_row_normalize(X, row_sum=1.0):
         #             X.data[X.indptr[i]:X.indptr[i+1]] -= row_sum_tmp/(X.indptr[i+1]-X.indptr[i])
         #         else:
         #             X.data[X.indptr[i]:X.indptr[i+1]] /= (row_sum_tmp/row_sum[i])
-        X.indptr = X.indptr.astype(np.int64, copy=False)
-        X.indices = X.indices.astype(np.int64, copy=False)
+        # do not change the type of the indices of X, which have to remain
+        # compatible with the other cython functions
+        X_indptr = X.indptr.astype(np.int64, copy=False)
         if isinstance(row_sum, float):
-            _css.inplace_csr_row_normalize(X.data, X.indptr,
+            _css.inplace_csr_row_normalize(X.data, X_indptr,
                                                 X.shape[0], row_sum)
 
         elif isinstance(row_sum, np.ndarray) and row_sum.dtype == np.float64:
             assert row_sum.shape[0] == X.shape[0] and len(row_sum.shape) == 1
 
-            _css.inplace_csr_row_normalize_array(X.data, X.indptr,
+            _css.inplace_csr_row_normalize_array(X.data, X_indptr,
                                                     X.shape[0], row_sum)
         else:
             raise TypeError("row_sum must by float or ndarray of floats")
-- 
2.43.0


From d5737fc7b7e71fc283ddb1b6d344b835d6460a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 03/73] fix: relabel the nodes of an events table given as
 DataFrame or CSV file

---
 src/flowstab/temporal_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index f09e869..1bb54b4 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -175,7 +175,8 @@ class ContTempNetwork:
                         f"The file at {events_table} could not be parsed."
                     )
             elif isinstance(events_table, pd.DataFrame):
-                self.events_table = events_table
+                # the events table of the caller should not be changed
+                self.events_table = events_table.copy()
             else:
                 raise ValueError(
                     "`events_table` must be a pandas DataFrame or the"
@@ -185,10 +186,13 @@ class ContTempNetwork:
             reset_event_table_index = False     
             if relabel_nodes:                   
                 all_nodes = set()
-                all_nodes.update(events_table.source_nodes.tolist())
-                all_nodes.update(events_table.target_nodes.tolist())
+                all_nodes.update(self.events_table.source_nodes.tolist())
+                all_nodes.update(self.events_table.target_nodes.tolist())
                 self.label_to_node_dict = {l : n for n, l in enumerate(sorted(all_nodes))}
                 self.node_to_label_dict = {n : l for l, n in self.label_to_node_dict.items()}
+                for nodes in ("source_nodes", "target_nodes"):
+                    self.events_table[nodes] = \
+                        self.events_table[nodes].map(self.label_to_node_dict)
             else:
                 self.node_to_label_dict=node_to_label_dict
 
-- 
2.43.0


From 49f724327dde0fa54b5700732d5963914e83324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 04/73] fix: merging overlapping events must keep the union of
 the events

---
 src/flowstab/temporal_network.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 1bb54b4..5b6c14c 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1787,7 +1787,7 @@ class ContTempNetwork:
         """Merge temporally overlapping undirected event between each pair of nodes.
             
         """
-        events_to_keep = np.ones(self.events_table.shape[0],dtype=bool)
+        events_to_keep = pd.Series(True, index=self.events_table.index)
 
         A = self.compute_static_adjacency_matrix()
 
@@ -1819,8 +1819,10 @@ class ContTempNetwork:
                     if ev2.starting_times < ev1.ending_times:
                         #merge
                         events_to_keep[ev2.Index] = False
-                        self.events_table.loc[ev1.Index,"ending_times"] = ev2.ending_times
-                        ev1._replace(ending_times=ev2.ending_times)
+                        # ev2 can be contained in ev1
+                        ending_time = max(ev1.ending_times, ev2.ending_times)
+                        self.events_table.loc[ev1.Index,"ending_times"] = ending_time
+                        ev1 = ev1._replace(ending_times=ending_time)
                         merged += 1
                     else:
                         ev1 = ev2
@@ -1833,6 +1835,9 @@ class ContTempNetwork:
 
         self.events_table.reset_index(inplace=True, drop=True)
 
+        self.events_table["durations"] = self.events_table.ending_times - \
+                            self.events_table.starting_times
+
         self.num_nodes = self.node_array.shape[0]
 
         self.num_events = self.events_table.shape[0]
-- 
2.43.0


From 96bb2ec8617b6a72a951e11c781ab354eb27f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 05/73] fix: saving the transition matrices of all the computed
 lamdas

---
 src/flowstab/temporal_network.py | 57 ++++++++++----------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 5b6c14c..49ee372 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -493,34 +493,25 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                assert not isinstance(self.inter_T[lamda][0],
-                                  SparseStochMat),\
-                                "inter_T must not be SparseStochMat"
+                if lamda is None:
+                    lamdas = list(self.inter_T.keys())
+                else:
+                    lamdas = [lamda]
 
-                if not hasattr(self, "delta_inter_T") and \
-                                    hasattr(self, "inter_T"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                for lamda in lamdas:
+                    assert not isinstance(self.inter_T[lamda][0],
+                                      SparseStochMat),\
+                                    "inter_T must not be SparseStochMat"
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T.keys()):
-                    self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
+                    if not hasattr(self, "delta_inter_T") or \
+                                    lamda not in self.delta_inter_T.keys():
+                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
                                                       tol=tol)
 
                 if hasattr(self, "delta_inter_T"):
                     save_dict["inter_T"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T"][lamda] = dict()
                         save_dict["inter_T"][lamda]["delta_inter_T"] = self.delta_inter_T[lamda]
@@ -615,21 +606,14 @@ class ContTempNetwork:
             save_dict["_compute_times"] = self._compute_times
 
             if save_delta:
-                if not hasattr(self, "delta_inter_T_lin") and \
-                                    hasattr(self, "inter_T_lin"):
-                    if lamda is not None:
-                        self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-                    else:
-                        #computes it for all lamda
-                        for lamda in self.inter_T_lin.keys():
-                            self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
+                if lamda is None:
+                    lamdas = list(self.inter_T_lin.keys())
+                else:
+                    lamdas = [lamda]
 
-                if (lamda is not None) and (lamda not in self.delta_inter_T_lin.keys()):
+                for lamda in lamdas:
                     self._compute_delta_trans_mat(lamda, round_zeros=round_zeros,
-                                                      tol=tol)
-
+                                                  tol=tol)
 
                 if hasattr(self, "delta_inter_T_lin"):
 
@@ -637,11 +621,6 @@ class ContTempNetwork:
                     save_dict["inter_T_lin"] = dict()
                     save_dict["is_delta_trans"] = True
 
-                    if lamda is None:
-                        lamdas = self.delta_inter_T_lin.keys()
-                    else:
-                        lamdas = [lamda]
-
                     for lamda in lamdas:
                         save_dict["inter_T_lin"][lamda] = dict()
                         for t_s in self.inter_T_lin[lamda].keys():
@@ -660,7 +639,7 @@ class ContTempNetwork:
                 save_dict["is_sparse_stoch"] = True
 
                 if lamda is None:
-                    lamdas = self.delta_inter_T_lin.keys()
+                    lamdas = self.inter_T_lin.keys()
                 else:
                     lamdas = [lamda]
 
-- 
2.43.0


From 5711d67b91e5777c6ac3000f354f1bba434eb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 06/73] fix: rounding the differences of transition matrices
 must not drop negative values

---
 src/flowstab/temporal_network.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 49ee372..b4dd024 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1852,7 +1852,8 @@ class ContTempNetwork:
 
                 if round_zeros:
                     for M in self.delta_inter_T[lamda]:
-                        set_to_zeroes(M, tol=tol)
+                        # differences can be negative
+                        set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -1869,10 +1870,14 @@ class ContTempNetwork:
                 self.delta_inter_T_lin = dict()
 
             if lamda not in self.delta_inter_T_lin.keys():
-
                 self.delta_inter_T_lin[lamda] = dict()
 
-                for t_s in self.inter_T_lin[lamda].keys():
+            missing_t_s = [t_s for t_s in self.inter_T_lin[lamda].keys()
+                           if t_s not in self.delta_inter_T_lin[lamda].keys()]
+
+            if len(missing_t_s) > 0:
+
+                for t_s in missing_t_s:
 
                     self.delta_inter_T_lin[lamda][t_s] = [self.inter_T_lin[lamda][t_s][k+1] - \
                                                       self.inter_T_lin[lamda][t_s][k] for k in \
@@ -1880,7 +1885,8 @@ class ContTempNetwork:
 
                     if round_zeros:
                         for M in self.delta_inter_T_lin[lamda][t_s]:
-                            set_to_zeroes(M, tol=tol)
+                            # differences can be negative
+                            set_to_zeroes(M, tol=tol, use_absolute_value=True)
 
             else:
                 print("PID ", os.getpid(), " : ",
@@ -2638,7 +2644,8 @@ def set_to_zeroes(Tcsr, tol=1e-8, relative=True, use_absolute_value=False):
     """
     if tol is not None:
         if isinstance(Tcsr, SparseStochMat):
-            Tcsr.set_to_zeroes(tol, relative=relative)
+            Tcsr.set_to_zeroes(tol, relative=relative,
+                               use_absolute_value=use_absolute_value)
         elif isinstance(Tcsr, (csr_matrix,csc_matrix)):
             if Tcsr.data.size > 0:
                 if relative:
-- 
2.43.0


From 9abdf900bb84d0f71c767c912f4d76ce7af4b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 07/73] fix: linear transition of a window without events in
 the sparse stochastic format

---
 src/flowstab/temporal_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index b4dd024..4c37822 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1535,7 +1535,7 @@ class ContTempNetwork:
                 logger.debug("no events, lin. trans. matrix = identity")
                 # is there was no event, the transition is identity
                 if use_sparse_stoch:
-                    self.inter_T_lin[lamda].append(SparseStochMat.create_diag(size=self.num_nodes))
+                    self.inter_T_lin[lamda][t_s].append(SparseStochMat.create_diag(size=self.num_nodes))
                 else:
                     self.inter_T_lin[lamda][t_s].append(eye(self.num_nodes,
                                                       dtype=np.float64,
-- 
2.43.0


From da7af55fbe72eb567caeb1bf702ead2577932262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:53 +0000
Subject: [PATCH 08/73] fix: ContTempInstNetwork can not be built from an
 events table (or loaded)

---
 src/flowstab/temporal_network.py | 41 +++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 4c37822..a696303 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1944,29 +1944,38 @@ class ContTempInstNetwork(ContTempNetwork):
                         node_to_label_dict=None,
                         events_table=None):
 
-        if events_table is None:
-
+        ending_times = []
 
-            utimes = np.unique(starting_times)
-            end_times_map = {utimes[k] : utimes[k+1] for k in range(utimes.size-1)}
-            end_times_map[utimes[-1]] = utimes[-1]+1
-
-            ending_times = [end_times_map[t] for t in starting_times]
+        if events_table is None:
+            ending_times = self._get_ending_times(starting_times)
+        elif isinstance(events_table, pd.DataFrame) and \
+                            "ending_times" not in events_table.columns:
+            events_table = events_table.assign(
+                ending_times=self._get_ending_times(events_table.starting_times)
+            )
 
-            super().__init__(source_nodes=source_nodes,
-                             target_nodes=target_nodes,
-                             starting_times=starting_times,
-                             ending_times=ending_times,
-                             relabel_nodes=relabel_nodes,
-                             reset_event_table_index=reset_event_table_index,
-                             node_to_label_dict=node_to_label_dict,
-                             merge_overlapping_events=False,
-                             events_table=events_table)
+        super().__init__(source_nodes=source_nodes,
+                         target_nodes=target_nodes,
+                         starting_times=starting_times,
+                         ending_times=ending_times,
+                         relabel_nodes=relabel_nodes,
+                         reset_event_table_index=reset_event_table_index,
+                         node_to_label_dict=node_to_label_dict,
+                         merge_overlapping_events=False,
+                         events_table=events_table)
 
 
         self.events_table["durations"] = [1.0]*self.events_table.shape[0]
         self.instantaneous_events = True
 
+    @staticmethod
+    def _get_ending_times(starting_times):
+        """Each event ends at the time of the next event"""
+        utimes = np.unique(starting_times)
+        end_times_map = {utimes[k] : utimes[k+1] for k in range(utimes.size-1)}
+        end_times_map[utimes[-1]] = utimes[-1]+1
+
+        return [end_times_map[t] for t in starting_times]
 
 
 
-- 
2.43.0


From 98bccca701cf7d5608430153ef0aea2d55cce718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 09/73] fix: transition matrices of previous Laplacians are
 reused after computing new ones

---
 src/flowstab/temporal_network.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index a696303..0d6a887 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1122,6 +1122,14 @@ class ContTempNetwork:
         return t, k
 
 
+    def _clear_derived_matrices(self):
+        """Removes the matrices computed from previous Laplacians"""
+        for attr in ("adjacencies", "_stationary_trans", "inter_T", "inter_T_lin",
+                     "T", "T_lin", "delta_inter_T", "delta_inter_T_lin"):
+            if hasattr(self, attr):
+                delattr(self, attr)
+
+
     def compute_laplacian_matrices(self, *, t_start=None, t_stop=None,
                                    save_adjacencies=False):
         """Computes the laplacian matrices and saves them in `self.laplacians`
@@ -1177,6 +1185,7 @@ class ContTempNetwork:
         S = I.copy()
 
 
+        self._clear_derived_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
@@ -2013,6 +2022,7 @@ class ContTempInstNetwork(ContTempNetwork):
         S = I.copy()
 
 
+        self._clear_derived_matrices()
         self.laplacians = []
         if save_adjacencies:
             self.adjacencies = []
-- 
2.43.0


From d1d097a480be3b40a784b5197d7e3a84e70bf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 10/73] fix: FlowStability ignores the time window (t_start,
 t_stop) in the flow integrals

---
 src/flowstab/flow_stability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index bdf02ed..d0115a2 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -648,7 +648,10 @@ class FlowStability(metaclass=StateMeta, states=States):
             kwargs.update(dict(
                 T_inter_list=[T.toarray()
                               for T in self.temporal_network.inter_T[_lambda]],
-                time_list=self.temporal_network.times,
+                time_list=self.temporal_network.times[
+                    self.temporal_network._k_start_laplacians:
+                    self.temporal_network._k_stop_laplacians+1
+                ],
             ))
             if self.time_direction <= 0:
                 logger.info(
-- 
2.43.0


From 6edc22db860cc8f16ecaef83024a8c5431f4d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 11/73] fix: time scales given as an iterator are lost

---
 src/flowstab/flow_stability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index d0115a2..dd9623e 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -313,8 +313,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         elif isinstance(time_scale,
                         Iterable) and not isinstance(time_scale,
                                                      str):
-            # we use a shallow copy
-            _time_scale = copy(time_scale)
+            # an iterator can only be consumed once
+            _time_scale = list(time_scale)
         else:
             raise TypeError(f"Invalid type '{type(time_scale)}'.")
         # make sure only valid values are provided
-- 
2.43.0


From 9ba0d313540d5506f9ef347117131390af5f6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 12/73] fix: time_scale and lamda arguments of
 compute_inter_transition_matrices

---
 src/flowstab/flow_stability.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index dd9623e..c0771a9 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -519,11 +519,10 @@ class FlowStability(metaclass=StateMeta, states=States):
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
 
-        _time_scale = None
-        if 'time_scale' in kwargs:
-            _time_scale = kwargs['time_scale']
-        elif 'lamda' in kwargs and kwargs['lamda'] is not None:
-            _time_scale = 1 / kwargs['lamba']
+        _time_scale = kwargs.pop('time_scale', None)
+        _lamda = kwargs.pop('lamda', None)
+        if _time_scale is None and _lamda is not None:
+            _time_scale = 1 / _lamda
         if _time_scale is not None:
             self.time_scale = _time_scale
         for _ts in self.time_scale:
-- 
2.43.0


From 21a891160cc6e0b5c32bb9f1c8da62dadd38bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 13/73] fix: flow clustering based on the linear approximation
 of the transition matrices

---
 src/flowstab/flow_stability.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index c0771a9..4881c76 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -136,6 +136,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         self.time_direction = time_direction
         self._flow_clustering_forward = {}
         self._flow_clustering_backward = {}
+        # `t_s` of the linear approximation, None if it is not used
+        self._linear_t_s = None
         logger.info("Successfully initiated a FlowStability instance!")
 
     def __repr__(self):
@@ -516,8 +518,10 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if linear_approx:
             to_compute = self._temporal_network.compute_lin_inter_transition_matrices
+            self._linear_t_s = kwargs.setdefault('t_s', 10)
         else:
             to_compute = self._temporal_network.compute_inter_transition_matrices
+            self._linear_t_s = None
 
         _time_scale = kwargs.pop('time_scale', None)
         _lamda = kwargs.pop('lamda', None)
@@ -644,9 +648,13 @@ class FlowStability(metaclass=StateMeta, states=States):
             else:
                 _lambda = 1 / _ts
 
+            if self._linear_t_s is None:
+                inter_T = self.temporal_network.inter_T[_lambda]
+            else:
+                inter_T = self.temporal_network.inter_T_lin[_lambda][self._linear_t_s]
+
             kwargs.update(dict(
-                T_inter_list=[T.toarray()
-                              for T in self.temporal_network.inter_T[_lambda]],
+                T_inter_list=[T.toarray() for T in inter_T],
                 time_list=self.temporal_network.times[
                     self.temporal_network._k_start_laplacians:
                     self.temporal_network._k_stop_laplacians+1
-- 
2.43.0


From 8e7cec6a51565a1bd7b47eee76a635690d9019aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:01 +0000
Subject: [PATCH 14/73] fix: a flow stability analysis in a single time
 direction can not be completed

---
 src/flowstab/flow_stability.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 4881c76..aef9a39 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -577,11 +577,12 @@ class FlowStability(metaclass=StateMeta, states=States):
             assert not _flow_clustering.reversed_time
             self._flow_clustering_forward[_time_scale] = _flow_clustering
         else:
-            logger.warning(
-                f"Object of type {type(flow_clustering)} cannot be "
-                "used for attribute `flow_clustering`. "
-                "`temporal_network` attribute is set to `None`."
-            )
+            if _flow_clustering is not None:
+                logger.warning(
+                    f"Object of type {type(flow_clustering)} cannot be "
+                    "used for attribute `flow_clustering`. "
+                    "`temporal_network` attribute is set to `None`."
+                )
             self._flow_clustering_forward[_time_scale] = None
 
     @property
@@ -617,11 +618,12 @@ class FlowStability(metaclass=StateMeta, states=States):
             assert _flow_clustering.reversed_time
             self._flow_clustering_backward[_time_scale] = _flow_clustering
         else:
-            logger.warning(
-                f"Object of type {type(flow_clustering)} cannot be "
-                "used for attribute `flow_clustering`. "
-                "`temporal_network` attribute is set to `None`."
-            )
+            if _flow_clustering is not None:
+                logger.warning(
+                    f"Object of type {type(flow_clustering)} cannot be "
+                    "used for attribute `flow_clustering`. "
+                    "`temporal_network` attribute is set to `None`."
+                )
             self._flow_clustering_backward[_time_scale] = None
 
     @register(minimal_state=States.INTER_T, next_state=States.CLUSTERING)
@@ -674,6 +676,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+            else:
+                self.flow_clustering_backward = (_ts, None)
             if self.time_direction >= 0:
                 logger.info(
                     f"\t- Creating the time forward clustering."
@@ -688,6 +692,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
+            else:
+                self.flow_clustering_forward = (_ts, None)
             logger.info("-> done.")
         return self
 
-- 
2.43.0


From de20856cc8331af73d130203802ffe68363ea628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:13 +0000
Subject: [PATCH 15/73] fix: integral_time_grid raises TypeError with numpy >=
 2.5

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e450807..e47bdb7 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1903,7 +1903,7 @@ class FlowIntegralClustering:
                         t = self.time_list[self.time_list >= t].min()
 
 
-                k = int(np.where(self.time_list == t)[0])
+                k = int(np.where(self.time_list == t)[0][0])
                 self._k_integral_grid.append(k)
                 self._t_integral_grid.append(t)
 
-- 
2.43.0


From 67b23e6cfc9251f36d302f0f64806446bdd3457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:13 +0000
Subject: [PATCH 16/73] fix: remove the unused import left by the time scale
 fix

---
 src/flowstab/flow_stability.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index aef9a39..294b227 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -46,7 +46,6 @@ ProcessException
 from __future__ import annotations
 from typing import Any, Iterable, Iterator
 
-from copy import copy
 
 
 import numpy as np
-- 
2.43.0


From cb0d44496d922e644c4777d0ec1d4486283bd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:50 +0000
Subject: [PATCH 17/73] fix: jaccard_distance returns None

---
 src/flowstab/network_clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e47bdb7..cd1bdb7 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2182,6 +2182,12 @@ def jaccard_distance(clusters1, clusters2):
         if same_in_1 and not same_in_2:
             diff += 1
 
+    if same + diff == 0:
+        # only singletons in both clusterings
+        return 0.0
+
+    return diff/(same + diff)
+
 
 def norm_mutual_information(clusters1, clusters2):
     """Returns the normalized mutial information between two
-- 
2.43.0


From be081e0c7992c99f7e36e5b0d6fea50be938d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:50 +0000
Subject: [PATCH 18/73] fix: stationary solution of directed networks in
 static_clustering

---
 src/flowstab/network_clustering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index cd1bdb7..b5c0e0a 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2456,9 +2456,10 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
 
         if is_csr:
 
-            w, v = eigs(Tstat.T, k=1, which="LM")
+            # the largest real part is the one of the eigenvalue 1
+            w, v = eigs(Tstat.T, k=1, which="LR")
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            assert np.allclose(w[0] ,1)
 
             pi = v.squeeze().real
             pi = pi/pi.sum()
@@ -2466,9 +2467,12 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         else:
             w, v = np.linalg.eig(Tstat.T)
 
-            assert np.allclose(np.abs(w[0]) ,1)
+            # the eigenvalues are not ordered
+            ind = np.argmax(w.real)
 
-            pi = v[:,0].real
+            assert np.allclose(w[ind] ,1)
+
+            pi = v[:,ind].real
             pi = pi/pi.sum()
     else:
         pi = degs/degs.sum()
-- 
2.43.0


From 7fa079c1e3938ba0f02d928c24c0637d99c629a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 19/73] fix: merging the events of an unsorted table must not
 drop contacts

Each pair of nodes was visited twice, with the events merged in the first
visit still in the table, so that both of two events with the same start
could be removed.
---
 src/flowstab/temporal_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 0d6a887..ec0311b 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1783,7 +1783,9 @@ class ContTempNetwork:
         for i, n1 in enumerate(self.node_array):
 
             for n2 in (A[n1,:] > 0).nonzero()[1]:
-
+                # each pair of nodes only once
+                if n2 < n1:
+                    continue
 
                 mask_12 = np.logical_and(self.events_table.source_nodes.values == n1,
                                          self.events_table.target_nodes.values == n2)
-- 
2.43.0


From 8675a833d20accc8fac69c90f866405770b13af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:29 +0000
Subject: [PATCH 20/73] fix: contacts of an unsorted events table that follow
 each other directly

The start of the second contact was undone by the end of the first one when
the second one comes first in the table.
---
 src/flowstab/temporal_network.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ec0311b..ee205c4 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1095,12 +1095,17 @@ class ContTempNetwork:
 
         self.time_grid.times = pd.to_numeric(self.time_grid.times)
 
-        self.time_grid.sort_values("times", inplace=True)
+        # sort by times, then by the starting times of the events: an event that
+        # ends at some time comes before the events that start at that time
+        self.time_grid = self.time_grid.iloc[
+            np.lexsort((~self.time_grid["is_start"].to_numpy(dtype=bool),
+                        np.tile(np.arange(self.events_table.shape[0]), 2),
+                        np.tile(self.events_table["starting_times"], 2),
+                        self.time_grid["times"]))
+        ]
 
         # group events with same times
-        self.time_grid.set_index(["times", "id"], inplace=True)
-
-        self.time_grid.sort_index(inplace=True)
+        self.time_grid = self.time_grid.set_index(["times", "id"])
 
         self.times = self.time_grid.index.levels[0]
 
-- 
2.43.0


From 536d6b2f7b873d8b2057b44a1c61a64c1c2df6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:51 +0000
Subject: [PATCH 21/73] fix: heap corruption building a SparseStochMat from a
 matrix with diag_val=0

The number of values to copy assumed exactly one stored value in each of the
rows that are not kept.
---
 src/flowstab/_cython_sparse_stoch.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 91b32d2..84e7e8c 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -604,9 +604,13 @@ def sparse_stoch_from_full_csr(int[:] nz_rowcols,
         
         cdef Py_ssize_t k, its, tsrow, tbrow, i, nzr        
         
-        cdef Py_ssize_t Ts_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+        cdef Py_ssize_t Ts_nnz = 0
         cdef Py_ssize_t Ts_size = nz_rowcols.shape[0]
 
+        # the other rows can be empty (if diag_val is 0)
+        for tsrow in range(Ts_size):
+            tbrow = nz_rowcols[tsrow]
+            Ts_nnz += Tf_indptr[tbrow+1] - Tf_indptr[tbrow]
         
         cdef double[:] Ts_data = np.zeros(Ts_nnz, dtype=np.float64)
         cdef int[:] Ts_indices = -1*np.ones(Ts_nnz, dtype=np.int32)
-- 
2.43.0


From 69bcf6c4e6965c139a467171e8aee23bd3964bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:51 +0000
Subject: [PATCH 22/73] fix: SparseStochMat with unsorted nz_rowcols

The indices were sorted but not the rows and columns of T_small, giving
another matrix.
---
 src/flowstab/sparse_stoch_mat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 3f9942d..c8be68e 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -130,12 +130,17 @@ class SparseStochMat:
         """
 
         self.size = size
-        self.nz_rowcols = np.unique(np.array(nz_rowcols, dtype=np.int32)) #sorted unique
+        nz_rowcols = np.array(nz_rowcols, dtype=np.int32)
+        self.nz_rowcols = np.unique(nz_rowcols) #sorted unique
         self.T_small = csr_matrix((np.array(data, dtype=np.float64),
                                    np.array(indices, dtype=np.int32),
                                    np.array(indptr, dtype=np.int32)),
                                   shape=(len(nz_rowcols),
                                          len(nz_rowcols)))
+        if not np.array_equal(self.nz_rowcols, nz_rowcols):
+            # T_small has to follow the order of the sorted indices
+            order = np.argsort(nz_rowcols)
+            self.T_small = self.T_small[order][:,order]
         self.diag_val = diag_val
         self.shape = (size,size)
 
-- 
2.43.0


From b80f4dce9ccb53bb80176193300af6d7b1ac936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:51 +0000
Subject: [PATCH 23/73] fix: operations with a numpy array on the left of a
 SparseStochMat

__radd__, __rsub__ and __rmatmul__ support arrays but were never reached.
---
 src/flowstab/sparse_stoch_mat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index c8be68e..31170fe 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -84,6 +84,8 @@ class SparseStochMat:
     smaller CSR scipy sparse matrix containing the these rows/colums.
         
     """
+    # let numpy arrays defer to the reflected operators (__radd__, ...)
+    __array_ufunc__ = None
 
     def __init__(self, size:int, data:NDArray, indices:NDArray, indptr:NDArray,
                  nz_rowcols:NDArray, diag_val:float=1.0):
@@ -521,7 +523,7 @@ class SparseStochMat:
     def __mul__(self, o):
         """Scalar multiplication with self on the right and o on the left.
         """
-        if isinstance(o, (float,int)):
+        if isinstance(o, (float, int, np.number)):
 
             return SparseStochMat(self.size,
                                     self.T_small.data*o,
-- 
2.43.0


From 71397fc43e4f436f8da45c7253fc3a08d2c4b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:51 +0000
Subject: [PATCH 24/73] fix: scalar and mixed probabilities of SparseAutocovMat

numpy scalars are accepted according to the signature, and the TypeError for
the other types was never raised.
---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 31170fe..d2aeda3 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -706,11 +706,11 @@ class SparseAutocovMat:
             assert PT.shape[0] == PT.shape[1] == p1.size == p2.size,\
                 f"PT.shape[0]={PT.shape[0]}, PT.shape[1]={PT.shape[1]}, p1.size={p1.size}, p2.size={p2.size}"
             self.p_scalars = False
-        elif isinstance(p1, (float,int)) and isinstance(p2, (float,int)):
+        elif isinstance(p1, (float,int,np.number)) and isinstance(p2, (float,int,np.number)):
             self.p_scalars = True
             self.p1p2 = p1*p2
         else:
-            TypeError("p1 and p2 must be two 1D arrays or two scalar")
+            raise TypeError("p1 and p2 must be two 1D arrays or two scalar")
 
 
         self.PT = PT
-- 
2.43.0


From 1ebfef484c6b64cb8e7082dd5392c3b8a5d4a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:52 +0000
Subject: [PATCH 25/73] fix: stability gain of a node with an empty row in the
 autocovariance

The diagonal element was read from the next row (or out of bounds for the
last row).
---
 src/flowstab/_cython_sparse_stoch.pyx | 30 +++++++++------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/flowstab/_cython_sparse_stoch.pyx b/src/flowstab/_cython_sparse_stoch.pyx
index 84e7e8c..e5fe15f 100644
--- a/src/flowstab/_cython_sparse_stoch.pyx
+++ b/src/flowstab/_cython_sparse_stoch.pyx
@@ -757,7 +757,7 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -773,15 +773,10 @@ cpdef double compute_delta_PT_moveto(double[:] PTdata,
         if idx_set.count(PTcscindices[j]):
             s += PTcscdata[j]
                     
-    # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # add PT_kk, if PT[k,k] is nonzero (row k can be empty)
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
 
@@ -847,7 +842,7 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
     """
     
     cdef double s = 0.0
-    cdef Py_ssize_t i, j, l
+    cdef Py_ssize_t i, j
     cdef Py_ssize_t num_idx = idx.shape[0]
     
     cdef cset[int] idx_set
@@ -863,15 +858,10 @@ cpdef double compute_delta_PT_moveout(double[:] PTdata,
         if idx_set.count(PTcscindices[j]):
             s -= PTcscdata[j]
                     
-    # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # add PT_kk, if PT[k,k] is nonzero (row k can be empty)
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
     
-- 
2.43.0


From 26cc77cc60a27168a32a86cecda7ff14410394d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:07 +0000
Subject: [PATCH 26/73] fix: name of compute_delta_S_moveout in the python
 substitutes

---
 src/flowstab/_cython_subst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 12da289..e7c4bea 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -510,7 +510,7 @@ def compute_delta_PT_moveout(
         
     return s
 
-def cython_compute_delta_S_moveout(
+def compute_delta_S_moveout(
     PTdata,
     PTindices,
     PTindptr,
-- 
2.43.0


From ff31de7ff367ece7dd2ebd26038e4f8698010e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:07 +0000
Subject: [PATCH 27/73] fix: aggregation of sparse autocovariance matrices
 without cython

---
 src/flowstab/_cython_subst.py | 37 +++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index e7c4bea..2045902 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -371,7 +371,22 @@ def aggregate_csr_mat(
         
         performs B.shape[0]**2 operations
     """
-    raise NotImplementedError
+    Bdata = []
+    Brows = []
+    Bcols = []
+    new_size = idxptr.shape[0]-1
+
+    for row in range(new_size):
+        for col in range(new_size):
+            pt = get_submat_sum(Adata, Aindices, Aindptr,
+                                idxs_array[idxptr[row]:idxptr[row+1]],
+                                idxs_array[idxptr[col]:idxptr[col+1]])
+            if pt > 0.0:
+                Bdata.append(pt)
+                Brows.append(row)
+                Bcols.append(col)
+
+    return Bdata, Brows, Bcols, new_size
 
 def aggregate_csr_mat_2(
     Adata,
@@ -385,7 +400,25 @@ def aggregate_csr_mat_2(
         
         Performs Adata.size operations
     """
-    raise NotImplementedError
+    Bdata = []
+    Brows = []
+    Bcols = []
+    new_size = idxptr.shape[0]-1
+
+    # map indices of A to indicies of B
+    AtoB = {}
+    for kb in range(new_size):
+        for ka in range(idxptr[kb], idxptr[kb+1]):
+            AtoB[idxs_array[ka]] = kb
+
+    # loop over values of A
+    for row in range(Aindptr.shape[0]-1):
+        for k in range(Aindptr[row], Aindptr[row+1]):
+            Bdata.append(Adata[k])
+            Brows.append(AtoB[row])
+            Bcols.append(AtoB[Aindices[k]])
+
+    return Bdata, Brows, Bcols, new_size
 
 def compute_delta_PT_moveto(
     PTdata,
-- 
2.43.0


From 6885d2ffda1d5ae9316978212c49dff6d96b14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:07 +0000
Subject: [PATCH 28/73] fix: row normalization to zero without cython

---
 src/flowstab/_cython_subst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 2045902..155c033 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -42,7 +42,11 @@ def inplace_csr_row_normalize(Tf_data, Tf_indptr, n_row:int, row_sum:float):
     for i in range(n_row):
         row_sum_tmp = Tf_data[Tf_indptr[i]:Tf_indptr[i+1]].sum()
         if row_sum_tmp != 0:
-            Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
+            if row_sum == 0:
+                # remove the mean of the nonzero values
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] -= row_sum_tmp/(Tf_indptr[i+1]-Tf_indptr[i])
+            else:
+                Tf_data[Tf_indptr[i]:Tf_indptr[i+1]] /= (row_sum_tmp/row_sum)
 
 class SPA:
     """sparse accumulator
-- 
2.43.0


From 25ed9ad5ec0717a6588b3f0124e7bb08a904bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:07 +0000
Subject: [PATCH 29/73] fix: SparseStochMat from a matrix with diag_val=0
 without cython

---
 src/flowstab/_cython_subst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 155c033..17a21b0 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -9,7 +9,8 @@ from scipy.sparse import (
 def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_val):
     """Pure python implementation of the sparce_stoch_mat
     """
-    T_s_nnz = Tf_data.shape[0] - Tf_indptr.shape[0] + 1 + nz_rowcols.shape[0]
+    # the other rows can be empty (if diag_val is 0)
+    T_s_nnz = sum(Tf_indptr[row+1] - Tf_indptr[row] for row in nz_rowcols)
 
     T_s_data = np.zeros(T_s_nnz, dtype=np.float64)
     T_s_indices = -1*np.ones(T_s_nnz, dtype=np.int32)
-- 
2.43.0


From 56611695358a1fe67f36bca76ff27ffdeaa91043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:07 +0000
Subject: [PATCH 30/73] fix: stability gain of a node with an empty row without
 cython

---
 src/flowstab/_cython_subst.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 17a21b0..d536b76 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -455,15 +455,10 @@ def compute_delta_PT_moveto(
         if idx_set.count(PTcscindices[j]):
             s += PTcscdata[j]
                     
-    # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # add PT_kk, if PT[k,k] is nonzero (row k can be empty)
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
 
@@ -536,15 +531,10 @@ def compute_delta_PT_moveout(
         if idx_set.count(PTcscindices[j]):
             s -= PTcscdata[j]
                     
-    # add PT_kk
-    j = PTindptr[k]
-    l = PTindices[j]
-    # check if PT[k,k] is nonzero
-    while l < k and j + 1 < PTindptr[k+1]:
-        j += 1
-        l = PTindices[j]
-    if l == k:
-        s += PTdata[j]
+    # add PT_kk, if PT[k,k] is nonzero (row k can be empty)
+    for j in range(PTindptr[k],PTindptr[k+1]):
+        if PTindices[j] == k:
+            s += PTdata[j]
         
     return s
 
-- 
2.43.0


From 434d825b07b7bcf529b67201575764a182dfac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:17 +0000
Subject: [PATCH 31/73] fix: uninitialised memory in cython_nvi_parallel

---
 src/flowstab/_cython_fast_funcs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flowstab/_cython_fast_funcs.pyx b/src/flowstab/_cython_fast_funcs.pyx
index 3f3c5d4..3995b93 100644
--- a/src/flowstab/_cython_fast_funcs.pyx
+++ b/src/flowstab/_cython_fast_funcs.pyx
@@ -233,6 +233,7 @@ def cython_nvi_parallel(list clusters1, list clusters2, int N, int num_threads):
     for i in range(n1):
         clust1 = clusters1[i]
         ni = <double>len(clust1)
+        VI_res[i] = 0.0
         
         for j in prange(n2, num_threads=num_threads, nogil=True, 
                         schedule='static'):
-- 
2.43.0


From c34489b3ee623c5c6d8bd31bc226f8082d58010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:44 +0000
Subject: [PATCH 32/73] fix: scaling of 1x1 sparse matrices

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d2aeda3..d844e41 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -629,7 +629,7 @@ def inplace_csr_matmul_diag(A, diag_vec):
     """
     assert isinstance(diag_vec, np.ndarray)
 
-    diag_vec = diag_vec.squeeze()
+    diag_vec = np.atleast_1d(diag_vec.squeeze())
 
     assert diag_vec.shape[0] == diag_vec.size
 
@@ -661,7 +661,7 @@ def inplace_diag_matmul_csr(A:csr_matrix | csc_matrix, diag_vec: NDArray)->None:
     """
     assert isinstance(diag_vec, np.ndarray)
 
-    diag_vec = diag_vec.squeeze()
+    diag_vec = np.atleast_1d(diag_vec.squeeze())
 
     assert diag_vec.shape[0] == diag_vec.size
 
-- 
2.43.0


From a9a2f4cf60af6598dddf58dae3e922e096a75d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:13 +0000
Subject: [PATCH 33/73] fix: clustering of transition matrices with zero rows

---
 src/flowstab/network_clustering.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index b5c0e0a..e8e255f 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -856,8 +856,10 @@ class BaseClustering:
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
 
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T (zero rows remain zero)
+        T_sum = T.sum(axis=1)
+        T_sum[T_sum == 0] = 1
+        T = T/T_sum[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
@@ -1396,8 +1398,10 @@ class Clustering(BaseClustering):
                                t_cluster_to_node_list[t]].sum()
                 S[s,t] = self._S[s_cluster_to_node_list[s],
                                t_cluster_to_node_list[t]].sum()
-        # renormalize T
-        T = T/T.sum(axis=1)[:, np.newaxis]
+        # renormalize T (zero rows remain zero)
+        T_sum = T.sum(axis=1)
+        T_sum[T_sum == 0] = 1
+        T = T/T_sum[:, np.newaxis]
         #also normalize p1 and p2 for rounding errors
         p1 = p1/p1.sum()
         p2 = p2/p2.sum()
-- 
2.43.0


From 6c5e9dadb0979bc1e2c0ef19e9ac096818219288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:50 +0000
Subject: [PATCH 34/73] fix: sparse_outer of a vector with a single non-zero
 value

---
 src/flowstab/sparse_stoch_mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index d844e41..25c5892 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -1137,11 +1137,11 @@ def sparse_outer(p, use_mkl=True, triu=True, verbose=False, log_message=""):
         if triu:
             Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size))[np.triu_indices(p.data.size)]
         else:
-            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2,1).squeeze()
+            Odata = gram_matrix_mkl(p.data.reshape(1,p.data.size)).reshape(p.data.size**2)
     elif triu:
         Odata = np.outer(p.data,p.data)[np.triu_indices(p.data.size)]
     else:
-        Odata = np.outer(p.data,p.data).reshape(p.data.size**2,1).squeeze()
+        Odata = np.outer(p.data,p.data).reshape(p.data.size**2)
 
     if triu:
         indices_list = [p.indices[p.indices >= r] for r in p.indices]
-- 
2.43.0


From c3a2d7292e213d26be51e37631ff077743c28a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:52 +0000
Subject: [PATCH 35/73] fix: parallel clustering of sparse autocovariance
 matrices

---
 src/flowstab/parallel_clustering.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/parallel_clustering.py b/src/flowstab/parallel_clustering.py
index 8947f76..833ce61 100644
--- a/src/flowstab/parallel_clustering.py
+++ b/src/flowstab/parallel_clustering.py
@@ -90,7 +90,9 @@ def compute_parallel_clustering(clustering, num_repeat=50, nproc=4,
                   initializer=_init_sub_worker_sparse,
                   initargs=(PTdata, PTindices,
                             PTindptr, N,
-                            p1raw, p2raw),
+                            p1raw, p2raw,
+                            clustering._S.p1, clustering._S.p2,
+                            clustering._S.PT_symmetric),
                     ) as pool:
             clusters, stabilites, seeds = \
                 zip(*pool.map(_compute_sym_sparse_clustering_fct, params_list,
@@ -118,7 +120,8 @@ def _init_sub_worker(Sraw, Traw, N, p1raw, p2raw):
     var_dict["T"] = np.frombuffer(Traw, dtype=np.float64).reshape((N,N))
 
 
-def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw, PT_symmetric=True):
+def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw,
+                            S_p1, S_p2, PT_symmetric=True):
     # reconstruct A from shared arrays
 
     PT = csr_matrix((np.frombuffer(PTdata, dtype=np.float64),
@@ -126,17 +129,15 @@ def _init_sub_worker_sparse(PTdata, PTindices, PTindptr, N, p1raw, p2raw, PT_sym
                                   np.frombuffer(PTindptr, dtype=np.int64)),
                                  shape=(N,N))
 
-    S = SparseAutocovMat(PT,
-                           np.frombuffer(p1raw, dtype=np.float64),
-                           np.frombuffer(p2raw, dtype=np.float64),
-                           PT_symmetric=PT_symmetric)
+    # the probabilities of S can be scalars and differ from the ones of the clustering
+    S = SparseAutocovMat(PT, S_p1, S_p2, PT_symmetric=PT_symmetric)
 
     global var_dict
 
     var_dict["N"] = N
     var_dict["S"] = S
-    var_dict["p1"] = S.p1
-    var_dict["p2"] = S.p2
+    var_dict["p1"] = np.frombuffer(p1raw, dtype=np.float64)
+    var_dict["p2"] = np.frombuffer(p2raw, dtype=np.float64)
     var_dict["T"] = S.PT
 
 
-- 
2.43.0


From f7cdb582bafeeaba3e6686479959734093173d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 36/73] fix: louvain clustering starting from a given partition

---
 src/flowstab/network_clustering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index e8e255f..5ec8ebf 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -873,6 +873,11 @@ class BaseClustering:
         og_old_part.remove_empty_clusters()
         meta_new_part.remove_empty_clusters()
 
+        if meta_new_part.num_nodes == og_old_part.num_nodes:
+            # the meta nodes are the original nodes (first meta loop)
+            return Partition(og_old_part.num_nodes,
+                             node_to_cluster_dict=meta_new_part.node_to_cluster_dict)
+
         new_node_to_cluster_dict = dict()
         # this is the state before moving nodes
         for meta_node, original_nodes in enumerate(og_old_part.cluster_list):
-- 
2.43.0


From e580b1319b35a0097c2ebca5c88e301ee1ac46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 37/73] fix: discrete time static clustering of a csr matrix
 with t=0

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 5ec8ebf..9e8639c 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2433,7 +2433,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         is_csr = True
         D = lambda d : diags(d, format="csr")
         I = lambda size : eye(size, format="csr")
-        power = lambda M, n : M.__pow__(n)
+        power = lambda M, n : csr_matrix(M.__pow__(n))
     elif isinstance(A, np.ndarray) and not isinstance(A, np.matrix):
         is_csr = False
         D = lambda d : np.diag(d)
-- 
2.43.0


From 10b2f7550d422be8212b42726f33238c75d3217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:40 +0000
Subject: [PATCH 38/73] fix: individuals of a synthetic network that are not
 ordered by ID

---
 src/flowstab/synth_temp_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 69807d5..e3f2d3b 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -268,7 +268,8 @@ class SynthTempNetwork:
         # number of individuals
         self.N = len(individuals)
 
-        # list of individuals
+        # list of individuals, at the position given by their ID
+        individuals = sorted(individuals, key=lambda ind: ind.ID)
         self.individuals = individuals
 
         # list of individual IDs
-- 
2.43.0


From 07113e484a856f75cca92d4be3d6504ec6622e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:40 +0000
Subject: [PATCH 39/73] fix: block probabilities of groups without interactions

---
 src/flowstab/synth_temp_network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index e3f2d3b..678724c 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -335,8 +335,10 @@ class SynthTempNetwork:
         if next_event_method == "block_probs":
             # make sure inter_group_probs is properly normalized
             # i.e. sum_j p[i,j] = 1 for all i
-            self.inter_group_probs = \
-                (self.inter_group_probs.T/self.inter_group_probs.sum(axis=1)).T
+            # (groups without any interaction keep a row of zeros)
+            row_sums = self.inter_group_probs.sum(axis=1)
+            row_sums[row_sums == 0] = 1
+            self.inter_group_probs = (self.inter_group_probs.T/row_sums).T
 
         if next_event_method == "block_probs_mod":
             if block_prob_mod_func is None:
-- 
2.43.0


From 80576df62aaafa3feb2a6a38b88e921d7f1b3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:40 +0000
Subject: [PATCH 40/73] fix: negative individual and group IDs are not refused

---
 src/flowstab/synth_temp_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/synth_temp_network.py b/src/flowstab/synth_temp_network.py
index 678724c..5f6fa76 100644
--- a/src/flowstab/synth_temp_network.py
+++ b/src/flowstab/synth_temp_network.py
@@ -275,7 +275,7 @@ class SynthTempNetwork:
         # list of individual IDs
         self.indiv_ids_list = [ind.ID for ind in individuals]
 
-        if not all([i < self.N for i in self.indiv_ids_list]):
+        if not all([0 <= i < self.N for i in self.indiv_ids_list]):
             raise ValueError("individual IDs must be from 0 to N-1")
 
         # array of individual IDs
@@ -296,7 +296,7 @@ class SynthTempNetwork:
         # number of groups
         self.Ngroups = len(set(self.indiv_groups_list))
 
-        if not all([gid < self.Ngroups for gid in self.indiv_groups_list]):
+        if not all([0 <= gid < self.Ngroups for gid in self.indiv_groups_list]):
             raise ValueError("group IDs must be from 0 to Ngroups-1")
 
         # group id to indiv ids dict
-- 
2.43.0


From 5be1bc7d92d6870a35fa35fdeeca1fdb69893301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 41/73] fix: run_laplacians_transmats passes removed verbose
 arguments

---
 src/flowstab/scripts/run_laplacians_transmats.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 2b17b09..8e605cc 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -204,8 +204,7 @@ if not compute_lin_transmat and not compute_expm_transmat:
 reverse_time_list = [False, True]
 
 # arguments for compute_transition_matrices
-args = {"verbose":verbose,
-        "save_intermediate": compute_intermediate,
+args = {"save_intermediate": compute_intermediate,
         "reverse_time" : None}
 
 #%%
@@ -352,7 +351,7 @@ def worker(net_start_stop):
 
             print(f"PID {os.getpid()}:",
                   f" computing Laplacians t_start={t_start}, t_stop={t_stop}")
-            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop, verbose=verbose)
+            net.compute_laplacian_matrices(t_start=t_start, t_stop=t_stop)
 
             print(f"PID {os.getpid()}:",
                   f" k_start={net._k_start_laplacians}, k_stop={net._k_stop_laplacians}")
@@ -362,8 +361,7 @@ def worker(net_start_stop):
 
             if compute_lin_transmat:
                 print(f"PID {os.getpid()}:", " computing stationary dists")
-                net._compute_stationary_transition(verbose=verbose,
-                                                   use_sparse_stoch=use_sparse_stoch)
+                net._compute_stationary_transition(use_sparse_stoch=use_sparse_stoch)
 
                 t2 = time.time()
                 print(f"PID {os.getpid()}:",f"finished in {t2 - t1:.2f}")
@@ -390,7 +388,7 @@ def worker(net_start_stop):
                 # first compute inter trans matrices (does not depend on time direction)
                 if compute_expm_transmat:
                     print(f"PID {os.getpid()}:", " computing inter transition matrices")
-                    net.compute_inter_transition_matrices(lamda=lamda,verbose=verbose,
+                    net.compute_inter_transition_matrices(lamda=lamda,
                                                           use_sparse_stoch=use_sparse_stoch,
                                                           dense_expm=use_dense_expm)
 
@@ -416,7 +414,6 @@ def worker(net_start_stop):
                 if compute_lin_transmat:
                     print(f"PID {os.getpid()}:", " computing linear inter transition matrices")
                     net.compute_lin_inter_transition_matrices(lamda=lamda,
-                                                              verbose=verbose,
                                                               t_s=t_s,
                                                               use_sparse_stoch=use_sparse_stoch)
 
-- 
2.43.0


From 1305daf2d0474257c64525abdc5fb15c027f7121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 42/73] fix: flow integrals of slices read a missing attribute

---
 src/flowstab/scripts/run_laplacians_transmats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 8e605cc..c98908e 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -468,7 +468,7 @@ def worker(net_start_stop):
                                          d = -1
                                     I = FlowIntegralClustering(T_list=net.T[lamda],
                                           time_list=net.times[net._k_start_laplacians:\
-                                                              net._k_stop_laplacians+1].values[::d]).I
+                                                              net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
                                     pd.to_pickle(I,net_file + "_flow_int.pickle")
 
@@ -507,7 +507,7 @@ def worker(net_start_stop):
                                         d = -1
                                     I_lin = FlowIntegralClustering(T_list=net.T_lin[lamda][t_s],
                                               time_list=net.times[net._k_start_laplacians:\
-                                                                  net._k_stop_laplacians+1].values[::d]).I
+                                                                  net._k_stop_laplacians+1].values[::d]).I_list[-1]
 
                                     pd.to_pickle(I_lin,net_file + "_lin_flow_int.pickle")
 
-- 
2.43.0


From c2636814ad719ef068ac08bc2732b74e030824be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 43/73] fix: slices without events are lost when saving flow
 integrals

---
 src/flowstab/scripts/run_laplacians_transmats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index c98908e..2c12ef7 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -462,7 +462,8 @@ def worker(net_start_stop):
                                 t1 = time.time()
                                 print(f"PID {os.getpid()}:", f"finished in {t1 - t0:.2f}" )
 
-                                if save_flow_int:
+                                # a slice without events has no integral
+                                if save_flow_int and net._k_stop_laplacians > net._k_start_laplacians:
                                     d = 1
                                     if reverse_time:
                                          d = -1
@@ -501,7 +502,8 @@ def worker(net_start_stop):
                                 t2 = time.time()
                                 print(f"PID {os.getpid()}:", f"finished in {t2 - t1:.2f}")
 
-                                if save_flow_int:
+                                # a slice without events has no integral
+                                if save_flow_int and net._k_stop_laplacians > net._k_start_laplacians:
                                     d = 1
                                     if reverse_time:
                                         d = -1
-- 
2.43.0


From d9ff970b96c8073e2626a5016ee11b57e94edd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 44/73] fix: requested inter_T of slices not saved when other
 files exist

---
 src/flowstab/scripts/run_laplacians_transmats.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 2c12ef7..57e9418 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -339,8 +339,16 @@ def worker(net_start_stop):
         if (not glob.glob(net_file_inter_expm + "*")):
             all_inter_expm_exists = False
 
-    if (all_inter_expm_exists and all_inter_lin_exists and not save_slice_trans) or \
-        (all_expm_exists and all_lin_exists):
+    # only the files that were asked for count
+    inter_T_done = not save_inter_T or \
+        ((all_inter_expm_exists or not compute_expm_transmat) and \
+         (all_inter_lin_exists or not compute_lin_transmat))
+
+    slice_trans_done = not save_slice_trans or \
+        ((all_expm_exists or not compute_expm_transmat) and \
+         (all_lin_exists or not compute_lin_transmat))
+
+    if inter_T_done and slice_trans_done:
         print(f"PID {os.getpid()}:", "interval = ", int_index,
                           " all files already exists" )
     else:
-- 
2.43.0


From dbcc3f5b91b4ebd9c26c5a6228793e60de91a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:06 +0000
Subject: [PATCH 45/73] fix: run_cov_integrals with fewer slices than grid
 points

---
 src/flowstab/scripts/run_cov_integrals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 8ebb196..e22a964 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -240,7 +240,8 @@ num_small_grid_points = len(intervals)
 if len(int_list) == 0:
 
     if int_length is None:
-        int_length = num_small_grid_points//num_points
+        # grid points are at least one slice apart
+        int_length = max(1, num_small_grid_points//num_points)
 
     # we can go +1 over num_small_grid_points because the last interval is never loaded
     # we compute up to the begining of the last interval.
-- 
2.43.0


From a34ade32df79788fd4747b9edd6951c2531c0240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:06 +0000
Subject: [PATCH 46/73] fix: run_clusterings with integral_rtol fails on the
 saved integrals

---
 src/flowstab/scripts/run_clusterings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 1c4716a..4773140 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -253,7 +253,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
             raise ValueError("File extension not recognised.")
 
         int_time = autocov["integration_time"]
-        ITPT = autocov["ITPT"]
+        ITPT = autocov["ITPT"].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
@@ -328,7 +328,7 @@ def load_autocov_int(file, init_p1=False, direction=None):
         else:
             raise ValueError("direction must be forward or backward")
 
-        ITPT = autocov[ITPT_key]
+        ITPT = autocov[ITPT_key].tocsr()
         set_to_zeroes(ITPT, integral_rtol)
 
         ITPT.data *= (1/int_time)
-- 
2.43.0


From 27c342957a11a165c31bb133c305a9420a6fc3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:06 +0000
Subject: [PATCH 47/73] fix: component labels are missing in the saved
 clusterings

---
 src/flowstab/scripts/run_clusterings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 4773140..dc7cb0e 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -670,7 +670,7 @@ def worker(file_args):
 
 
             S, T, p1, p2, largest_comp_nodes, S_list, comp_nodes_list, \
-                singletons, normalization, ncomp, label, max_S_row_diff, \
+                singletons, normalization, ncomp, comp_label, max_S_row_diff, \
                     ITPT_sum, max_S_row_diff_norm, \
                         ITPT_sum_norm = load_autocov_int(file,
                                                          init_p1,
-- 
2.43.0


From 08b35e29dfe8290ecbc5c286bb46a04e4ccb1183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 48/73] fix: stability of partitions merged from separate
 components

---
 src/flowstab/scripts/run_clusterings.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index dc7cb0e..96ab08d 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -597,6 +597,12 @@ def _compute_sym_list_clustering_fct(params):
 
     return (cluster_list, stability, seed)
 
+def compute_merged_stability(S, cluster_list):
+    # stability of a partition merged from the partitions of the components
+    S_clust = S.aggregate([list(clust) for clust in cluster_list])
+
+    return (S_clust.PT.diagonal() - S_clust.p1*S_clust.p2).sum()
+
 def compute_static_clustering_fct(params):
     A, seed = params
 
@@ -802,6 +808,12 @@ def worker(file_args):
                                     zip(*pool.map(_compute_clustering_fct, params_list,
                                                   chunksize=1))
 
+                    if separate_comps:
+                        # stability of the merged partitions, without the meta
+                        # nodes and with the singletons
+                        sym_stabilites = tuple(compute_merged_stability(S, clust) \
+                                               for clust in sym_clusters)
+
                     if file in var_dict:
                         # free global memory
                         del var_dict[file]
-- 
2.43.0


From 753f1043dc6b70767d338323197a1a14ec2418e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:34 +0000
Subject: [PATCH 49/73] fix: run_clusterings cannot continue from its temporary
 files

---
 src/flowstab/scripts/run_clusterings.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 96ab08d..7bc5343 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -707,6 +707,9 @@ def worker(file_args):
 
                     compute_static_clustering = False
 
+            # the results are saved even if they are loaded from a temp file
+            save_clustering = compute_clustering
+
             if compute_clustering or compute_static_clustering:
                 print("PID ", os.getpid(), "computing symmetric clusters ", ", file ", file)
 
@@ -721,6 +724,8 @@ def worker(file_args):
                     with open(tmpsavefile, "rb") as fopen:
                         tmpres = pickle.load(fopen)
 
+                    sym_clusters = tmpres["sym_clusters"]
+                    sym_seeds = tmpres["sym_seeds"]
                     clust_counter_sym =  tmpres["clust_counter_sym"]
                     sym_stabilites = tmpres["sym_stabilites"]
                     avg_stab_sym = tmpres["avg_stab_sym"]
@@ -858,6 +863,8 @@ def worker(file_args):
 
                     if save_clustering_before_nvarinf:
                         tmpres = {}
+                        tmpres["sym_clusters"] = sym_clusters
+                        tmpres["sym_seeds"] = sym_seeds
                         tmpres["clust_counter_sym"] = clust_counter_sym
                         tmpres["sym_stabilites"] = sym_stabilites
                         tmpres["avg_stab_sym"] = avg_stab_sym
@@ -939,7 +946,7 @@ def worker(file_args):
 
             res = {"num_repeat" : num_repeat,
                    "compute_static_clustering" : compute_static_clustering,
-                   "compute_clustering" : compute_clustering,
+                   "compute_clustering" : save_clustering,
                    "largest_comp_nodes" : largest_comp_nodes,
                    "ncomp" : ncomp,
                    "comp_label" : comp_label,
@@ -952,7 +959,7 @@ def worker(file_args):
                    "direction" : direction,
                    "inargs" : inargs}
 
-            if compute_clustering:
+            if save_clustering:
 
                 res["clust_counter"] = clust_counter_sym
                 res["stabilites"] = sym_stabilites
-- 
2.43.0


From 62c18d1e13c6b96cfe325ac4ae31e8012cdefaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:21 +0000
Subject: [PATCH 50/73] fix: pure Python substitutes accept the index arrays
 the library passes

Without Cython, SparseAutocovMat calls get_submat_sum and the gain functions
with array.array objects, which have no shape: every sparse clustering failed.
---
 src/flowstab/_cython_subst.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index d536b76..4121a32 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -350,8 +350,8 @@ def get_submat_sum(
     """
     s = 0.0
     col_set = []
-    num_row = row_idx.shape[0]
-    num_col = col_idx.shape[0]
+    num_row = len(row_idx)
+    num_col = len(col_idx)
     
     for i in range(num_col):
         col_set.append(col_idx[i])
@@ -379,7 +379,7 @@ def aggregate_csr_mat(
     Bdata = []
     Brows = []
     Bcols = []
-    new_size = idxptr.shape[0]-1
+    new_size = len(idxptr)-1
 
     for row in range(new_size):
         for col in range(new_size):
@@ -408,7 +408,7 @@ def aggregate_csr_mat_2(
     Bdata = []
     Brows = []
     Bcols = []
-    new_size = idxptr.shape[0]-1
+    new_size = len(idxptr)-1
 
     # map indices of A to indicies of B
     AtoB = {}
@@ -441,7 +441,7 @@ def compute_delta_PT_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     idx_set = list()
     
     for i in range(num_idx):
@@ -480,7 +480,7 @@ def compute_delta_S_moveto(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     s = compute_delta_PT_moveto(PTdata,
                                 PTindices,
@@ -516,7 +516,7 @@ def compute_delta_PT_moveout(
         in csc format
     """
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     
     idx_set = list()
     
@@ -557,7 +557,7 @@ def compute_delta_S_moveout(
     """
     
     s = 0.0
-    num_idx = idx.shape[0]
+    num_idx = len(idx)
     s = compute_delta_PT_moveout(PTdata, PTindices, PTindptr,
                                  PTcscdata, PTcscindices, PTcscindptr,
                                  k, idx)
-- 
2.43.0


From a5c233c935bbb1ccd2d2057e2f03a82a5950e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:14 +0000
Subject: [PATCH 51/73] fix: from_full_csr_matrix without Cython accepts stored
 zeros

The pure Python substitute looked every stored entry up in the map of the
nonzero rows and columns and failed (KeyError) on zeros stored outside them.
---
 src/flowstab/_cython_subst.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/_cython_subst.py b/src/flowstab/_cython_subst.py
index 4121a32..0c2553f 100644
--- a/src/flowstab/_cython_subst.py
+++ b/src/flowstab/_cython_subst.py
@@ -24,14 +24,17 @@ def sparse_stoch_from_full_csr(nz_rowcols, Tf_data, Tf_indices, Tf_indptr, diag_
     for tsrow, tbrow in enumerate(nz_rowcols):
         nzr = 0
         for k in range(Tf_indptr[tbrow],Tf_indptr[tbrow+1]):
+            if Tf_data[k] == 0:
+                # stored zeros can lie outside of nz_rowcols
+                continue
             T_s_data[its] = Tf_data[k]
             T_s_indices[its] = BtoS[Tf_indices[k]]
             its += 1
             nzr += 1
         T_s_indptr[tsrow+1] = T_s_indptr[tsrow] + nzr
     return (Tf_indptr.shape[0] - 1,
-            T_s_data,
-            T_s_indices,
+            T_s_data[:its],
+            T_s_indices[:its],
             T_s_indptr,
             nz_rowcols,
             diag_val)
-- 
2.43.0


From 90081979a111c549a7d0be3b811f111809b261ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:40 +0000
Subject: [PATCH 52/73] fix: spectral gap of networks whose nodes have
 different degrees

The stationary solution was removed in the form of the random walk Laplacian
from its symmetric form: the result was right only for regular graphs.
---
 src/flowstab/temporal_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ee205c4..3849e1f 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2411,11 +2411,11 @@ def find_spectral_gap(L):
 
     Lsym = D12 @ Lcsr @ Dm12
 
-    # stationary solution
-    Pi = np.vstack([degs/degs.sum()]*L.shape[0])
+    # projector on the stationary solution of the symmetric form
+    Pi = np.outer(np.sqrt(degs), np.sqrt(degs))/degs.sum()
 
-
-    gap = eigsh(Lsym.toarray()-Pi,1,sigma=0,
+    # move the eigenvalue 0 to 2, which no other eigenvalue exceeds
+    gap = eigsh(Lsym.toarray()+2*Pi,1,which="SA",
                 return_eigenvectors=False)
 
     return gap
-- 
2.43.0


From 786feffb9841d82e05f086ce1efcac91691d6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 53/73] fix: saving inter_T with rounding changes the matrices
 of the network

save_inter_T and save_inter_T_lin rounded the SparseStochMat of the network
itself; as in save_T, the rounding is for the saved copy.
---
 src/flowstab/temporal_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 3849e1f..30ffeba 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -540,6 +540,7 @@ class ContTempNetwork:
                     save_dict["inter_T"][lamda] = []
                     for interT in self.inter_T[lamda]:
                         if round_zeros:
+                            interT = interT.copy()
                             interT.set_to_zeroes(tol)
                         save_dict["inter_T"][lamda].append(interT.to_dict())
 
@@ -653,6 +654,7 @@ class ContTempNetwork:
                         save_dict["inter_T_lin"][lamda][t_s] = []
                         for interT in self.inter_T_lin[lamda][t_s]:
                             if round_zeros:
+                                interT = interT.copy()
                                 interT.set_to_zeroes(tol=tol)
                             save_dict["inter_T_lin"][lamda][t_s].append(interT.to_dict())
 
-- 
2.43.0


From 179548ad610333abed4eb736ca28edba0e1ec199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:40 +0000
Subject: [PATCH 54/73] fix: compute_transition_matrices with tol changes
 inter_T

The interevent transition matrices were trimmed in place while computing their
products, so that everything computed from them afterwards differed.
---
 src/flowstab/temporal_network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 30ffeba..c3e614b 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -1602,6 +1602,8 @@ class ContTempNetwork:
                     self.T[lamda] = [self.inter_T[lamda][k_init]]
 
                 if tol is not None:
+                    # inter_T remains as it is
+                    self.T[lamda][0] = self.T[lamda][0].copy()
                     set_to_zeroes(self.T[lamda][0],tol)
                     inplace_csr_row_normalize(self.T[lamda][0])
             else:
@@ -1611,6 +1613,8 @@ class ContTempNetwork:
                     self.T[lamda] = self.inter_T[lamda][k_init]
 
                 if tol is not None:
+                    # inter_T remains as it is
+                    self.T[lamda] = self.T[lamda].copy()
                     set_to_zeroes(self.T[lamda],tol)
                     inplace_csr_row_normalize(self.T[lamda])
 
@@ -1628,6 +1632,7 @@ class ContTempNetwork:
 
                 Tk = self.inter_T[lamda][k]
                 if tol is not None:
+                    Tk = Tk.copy()
                     set_to_zeroes(Tk,tol)
                     inplace_csr_row_normalize(Tk)
 
-- 
2.43.0


From bfcb3daf1d9c1377efeafccda8e60ea97bb49473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:40 +0000
Subject: [PATCH 55/73] fix: partitions made from the same cluster list change
 each other

Partition kept the sets of the caller: moving a node in one of two partitions
made from the same list left the other one inconsistent.
---
 src/flowstab/network_clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 9e8639c..5624f3b 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -102,7 +102,8 @@ class Partition:
             self.node_to_cluster_dict = {n : n for n in range(self.num_nodes)}
 
         elif cluster_list is not None and node_to_cluster_dict is None:
-            self.cluster_list = cluster_list
+            # the sets change with the partition
+            self.cluster_list = [set(clust) for clust in cluster_list]
             self.node_to_cluster_dict = {}
             for i, clust in enumerate(self.cluster_list):
                 for node in clust:
-- 
2.43.0


From 33c1f7f074428f621e617ff619c56cd8ff701426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:16 +0000
Subject: [PATCH 56/73] fix: clustering of the default time scale among several
 fails

---
 src/flowstab/flow_stability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 294b227..a368e67 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -645,7 +645,8 @@ class FlowStability(metaclass=StateMeta, states=States):
                 f"Creating a flow integral clustering for time_scale={_ts}."
             )
             if _ts is None:
-                _lambda = None
+                # the default the transition matrices were computed with
+                _lambda = 1 / np.median(np.diff(self.temporal_network.times))
             else:
                 _lambda = 1 / _ts
 
-- 
2.43.0


From 6cbb9f7924ccc1b2c4006da6af2fdda819773198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 57/73] fix: files with transition matrices of different
 formats cannot be loaded

---
 src/flowstab/temporal_network.py | 36 +++++++++++---------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index c3e614b..02517bb 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -988,38 +988,26 @@ class ContTempNetwork:
         if "T" in load_dict.keys():
             return_dict["T"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = \
-                        SparseStochMat(**load_dict["T"][lamda])
+            for lamda, T in load_dict["T"].items():
+                # each T is saved in its own format
+                if isinstance(T, dict):
+                    T = SparseStochMat(**T)
 
-            else:
-                for lamda in load_dict["T"].keys():
-                    return_dict["T"][lamda] = load_dict["T"][lamda]
+                return_dict["T"][lamda] = T
 
 
         if "T_lin" in load_dict.keys():
             return_dict["T_lin"] = dict()
 
-            if load_dict.get("is_sparse_stoch", False):
-
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
-
-                    for t_s in load_dict["T_lin"][lamda].keys():
-
-                        return_dict["T_lin"][lamda][t_s] = \
-                            SparseStochMat(**load_dict["T_lin"][lamda][t_s])
-
-            else:
-                for lamda in load_dict["T_lin"].keys():
-                    return_dict["T_lin"][lamda] = dict()
+            for lamda in load_dict["T_lin"].keys():
+                return_dict["T_lin"][lamda] = dict()
 
-                    for t_s in load_dict["T_lin"][lamda].keys():
+                for t_s, T in load_dict["T_lin"][lamda].items():
+                    # each T is saved in its own format
+                    if isinstance(T, dict):
+                        T = SparseStochMat(**T)
 
-                        return_dict["T_lin"][lamda][t_s] = \
-                                            load_dict["T_lin"][lamda][t_s]
+                    return_dict["T_lin"][lamda][t_s] = T
 
 
 
-- 
2.43.0


From 8e57407879404162e7d8594d0a239ec05263a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 58/73] fix: stationary transition matrix of a dense transition
 matrix fails

---
 src/flowstab/temporal_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index 02517bb..e72eabe 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -2250,6 +2250,9 @@ def compute_stationary_transition(T):
     """
     num_nodes = T.shape[0]
 
+    if isinstance(T, np.ndarray):
+        T = csr_matrix(T)
+
     # otherwise 0 values may count as an edge
     T.eliminate_zeros()
     T.sort_indices()
-- 
2.43.0


From e8b2cd86a68c4c73b9e124d6f1fc73ce8da699b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 59/73] fix: events table with a named or repeated index fails

---
 src/flowstab/temporal_network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index e72eabe..ad3d033 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -183,7 +183,12 @@ class ContTempNetwork:
                     "path to a CSV file. "
                     f"'{type(events_table)} is not acceptable."
                 )                               
-            reset_event_table_index = False     
+            # the index has to identify each event
+            reset_event_table_index = (
+                self.events_table.index.nlevels > 1
+                or self.events_table.index.name is not None
+                or not self.events_table.index.is_unique
+            )
             if relabel_nodes:                   
                 all_nodes = set()
                 all_nodes.update(self.events_table.source_nodes.tolist())
-- 
2.43.0


From a906f0a7d22dc302f463d5cf9dd6fedeb731cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 60/73] fix: partition of other nodes than those of the network
 is accepted

---
 src/flowstab/network_clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 5624f3b..54b6aa5 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -272,7 +272,8 @@ class Partition:
         if len(inter) > 0:
             raise ValueError("Overlapping clusters.")
 
-        if total_len != self.num_nodes:
+        if total_len != self.num_nodes or \
+                set().union(*self.cluster_list) != set(range(self.num_nodes)):
             raise ValueError("Some nodes have no clusters.")
 
 
-- 
2.43.0


From 43d1c2e1847bb4a8028970a5447054d99bd0b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:36 +0000
Subject: [PATCH 61/73] fix: networks saved under names with a dot overwrite
 each other

---
 src/flowstab/temporal_network.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/temporal_network.py b/src/flowstab/temporal_network.py
index ad3d033..62b6540 100644
--- a/src/flowstab/temporal_network.py
+++ b/src/flowstab/temporal_network.py
@@ -319,7 +319,11 @@ class ContTempNetwork:
                 save_dict[mat] = getattr(self,mat)
 
 
-        with open(os.path.splitext(filename)[0] + ".pickle", "wb") as fopen:
+        filename = os.fspath(filename)
+        if not filename.endswith(".pickle"):
+            filename += ".pickle"
+
+        with open(filename, "wb") as fopen:
             pickle.dump(save_dict, fopen)
 
 
@@ -396,7 +400,14 @@ class ContTempNetwork:
 
         # all in a pickle file
 
-        graph_dict = pd.read_pickle(os.path.splitext(filename)[0] +".pickle")
+        filename = os.fspath(filename)
+        if not filename.endswith(".pickle"):
+            if os.path.exists(filename + ".pickle"):
+                filename += ".pickle"
+            else:
+                filename = os.path.splitext(filename)[0] + ".pickle"
+
+        graph_dict = pd.read_pickle(filename)
 
         events_table = graph_dict.pop("events_table")
 
-- 
2.43.0


From 5f3b0b36bfc0c0920c939ce98146dda0d44fd2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:33 +0000
Subject: [PATCH 62/73] fix: dividing a network in slices can give one slice
 more than asked for

---
 src/flowstab/scripts/run_laplacians_transmats.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/flowstab/scripts/run_laplacians_transmats.py b/src/flowstab/scripts/run_laplacians_transmats.py
index 57e9418..2849515 100644
--- a/src/flowstab/scripts/run_laplacians_transmats.py
+++ b/src/flowstab/scripts/run_laplacians_transmats.py
@@ -249,13 +249,15 @@ else:
 
     if slice_length is None:
 
-        slice_length = (tend-t0)/num_slices
+        # adding up the slice length could end before tend
+        time_slices = list(np.linspace(t0, tend, num_slices+1))
 
-    time_slices = [t0]
-    t = t0
-    while t < tend:
-        t += slice_length
-        time_slices.append(t)
+    else:
+        time_slices = [t0]
+        t = t0
+        while t < tend:
+            t += slice_length
+            time_slices.append(t)
 
 t_starts = time_slices[:-1]
 t_stops = time_slices[1:]
-- 
2.43.0


From 9f88ba32513562f30ad5b9ce1c455fe26f9eb766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:45 +0000
Subject: [PATCH 63/73] fix: variation of information of static clusterings is
 normalised by the aggregated network

---
 src/flowstab/scripts/run_clusterings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/scripts/run_clusterings.py b/src/flowstab/scripts/run_clusterings.py
index 7bc5343..c9bd064 100644
--- a/src/flowstab/scripts/run_clusterings.py
+++ b/src/flowstab/scripts/run_clusterings.py
@@ -923,7 +923,7 @@ def worker(file_args):
 
                     nvarinf_samples = [s for i,s in enumerate(combinations(sym_clusters_static,2)) if i in nvarinf_samples_idx]
 
-                    nvarinf_sym_static = np.mean([norm_var_information(c1,c2, N=T.shape[0],
+                    nvarinf_sym_static = np.mean([norm_var_information(c1,c2, N=A.shape[0],
                                                                 use_clust_list=True) for c1,c2 in nvarinf_samples])
 
                     clust_counter_sym_static = Counter([tuple(sorted([tuple(sorted(c)) for c in clust])) \
-- 
2.43.0


From c6a9d733d6261732d212d68976ddc4e3585fd685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:36 +0000
Subject: [PATCH 64/73] fix: a failed flow clustering keeps the clustering of
 earlier settings

---
 src/flowstab/flow_stability.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index a368e67..2de50b7 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -673,6 +673,9 @@ class FlowStability(metaclass=StateMeta, states=States):
                         FlowIntegralClustering(**kwargs)
                     )
                 except ValueError as e:
+                    # do not keep the clustering of earlier settings
+                    self._flow_clustering_backward.pop(_ts, None)
+                    self.state.properties_set["flow_clustering_backward"] = False
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
@@ -689,6 +692,9 @@ class FlowStability(metaclass=StateMeta, states=States):
                         FlowIntegralClustering(**kwargs)
                     )
                 except ValueError as e:
+                    # do not keep the clustering of earlier settings
+                    self._flow_clustering_forward.pop(_ts, None)
+                    self.state.properties_set["flow_clustering_forward"] = False
                     logger.warning(
                         f"Failed to initiate the FlowIntegralClustering: {e}"
                     )
-- 
2.43.0


From bd7ddb2f5877b56aff6905ba0175803de657ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:09 +0000
Subject: [PATCH 65/73] fix: run_cov_integrals fails for waiting times that
 file names round

---
 src/flowstab/scripts/run_cov_integrals.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index e22a964..0ab4286 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -254,6 +254,13 @@ else:
 
 #%%
 
+def get_lamda(trans_mats, tau_w):
+    """Returns the rate of the saved `trans_mats` that corresponds to `tau_w`,
+    which is rounded when it is read from the file names.
+    """
+    return min(trans_mats, key=lambda lamda: abs(lamda*tau_w - 1))
+
+
 def load_trans_mat(k_range, tau_w, lin, reverse_time):
     """loads, computes and returns the transition matrix computed from k_range[0]
     to k_range[-1] and the corresponding time duration.
@@ -289,9 +296,9 @@ def load_trans_mat(k_range, tau_w, lin, reverse_time):
         TM = ContTempNetwork.load_T(T_file.format(k=k))
 
         if lin:
-            Tk = TM["T_lin"][1/tau_w][t_s]
+            Tk = TM["T_lin"][get_lamda(TM["T_lin"], tau_w)][t_s]
         else:
-            Tk = TM["T"][1/tau_w]
+            Tk = TM["T"][get_lamda(TM["T"], tau_w)]
 
         set_to_zeroes(Tk, tol=tol)
         inplace_csr_row_normalize(Tk)
@@ -519,9 +526,10 @@ def worker(ind_start_tau_w):
                                        "_inter_trans_mat")
 
                             tl = time.time()
-                            num_l = len(inter_Ts["inter_T"][1/tau_w])
+                            lamda = get_lamda(inter_Ts["inter_T"], tau_w)
+                            num_l = len(inter_Ts["inter_T"][lamda])
                             # integrate T
-                            for l, (inter_Tk, dtk) in enumerate(zip(inter_Ts["inter_T"][1/tau_w][::d],
+                            for l, (inter_Tk, dtk) in enumerate(zip(inter_Ts["inter_T"][lamda][::d],
                                                d * np.diff(inter_Ts["times_k_start_to_k_stop+1"][::d]))):
 
 
@@ -599,7 +607,9 @@ def worker(ind_start_tau_w):
 
                         tk = time.time()
 
-                        for inter_Tk_lin, dtk in zip(inter_Ts_lin["inter_T_lin"][1/tau_w][t_s][::d],
+                        lamda = get_lamda(inter_Ts_lin["inter_T_lin"], tau_w)
+
+                        for inter_Tk_lin, dtk in zip(inter_Ts_lin["inter_T_lin"][lamda][t_s][::d],
                                            d * np.diff(inter_Ts_lin["times_k_start_to_k_stop+1"][::d])):
 
 
-- 
2.43.0


From dc96d0e8876de431e75099ce0383029e78503f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 66/73] fix: run_cov_integrals reads the files of other
 networks

---
 src/flowstab/scripts/run_cov_integrals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flowstab/scripts/run_cov_integrals.py b/src/flowstab/scripts/run_cov_integrals.py
index 0ab4286..d336c5d 100644
--- a/src/flowstab/scripts/run_cov_integrals.py
+++ b/src/flowstab/scripts/run_cov_integrals.py
@@ -205,7 +205,8 @@ print("Arguments:")
 for item in inargs.items():
     print(item)
 #%%
-all_files = os.listdir(datadir)
+# only the files of this network
+all_files = [f for f in os.listdir(datadir) if f.startswith(net_name + "_tau_w")]
 
 # get num nodes
 num_nodes = None
@@ -226,7 +227,8 @@ while num_nodes is None:
 intervals = set()
 tau_ws = set()
 for file in all_files:
-    for extract in os.path.splitext(file)[0].split("_"):
+    # the name of the network is not to be searched
+    for extract in os.path.splitext(file[len(net_name):])[0].split("_"):
         if re.search("int[0-9]{6}",extract):
             intervals.add(int(extract[3:]))
         elif extract.startswith("w"):
-- 
2.43.0


From e2ca98113dd57ecbf76f4273dd31b516da0940b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 67/73] fix: the temporal network given to FlowStability can
 not be analysed

---
 src/flowstab/flow_stability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index 2de50b7..eac60b1 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -228,6 +228,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         """
         if isinstance(temporal_network, ContTempNetwork):
             self._temporal_network = temporal_network
+            # the same as with `set_temporal_network`
+            self.state.current = max(self.state.current, States.TEMP_NW)
             logger.info(
                 "Set the temporal network: "
                 f"{self.temporal_network}"
-- 
2.43.0


From 2ebc67ec34ecd2cc9b4f852fdba53c2d3ec8cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 68/73] fix: arguments for the temporal network of
 FlowStability are ignored

---
 src/flowstab/flow_stability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowstab/flow_stability.py b/src/flowstab/flow_stability.py
index eac60b1..85d0cb0 100644
--- a/src/flowstab/flow_stability.py
+++ b/src/flowstab/flow_stability.py
@@ -128,6 +128,8 @@ class FlowStability(metaclass=StateMeta, states=States):
         **kwargs : dict
             Additional keyword arguments for initializing the temporal network.
         """
+        if temporal_network is None and kwargs:
+            temporal_network = ContTempNetwork(**kwargs)
         self.temporal_network = temporal_network
         self.t_start = t_start
         self.t_stop = t_stop
-- 
2.43.0


From 49bdfb7b63d16aaa56cec9de8792dbcfa7b1a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:15 +0000
Subject: [PATCH 69/73] fix: scaling rows or columns of rectangular csc
 matrices

---
 src/flowstab/sparse_stoch_mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flowstab/sparse_stoch_mat.py b/src/flowstab/sparse_stoch_mat.py
index 25c5892..21b26ed 100755
--- a/src/flowstab/sparse_stoch_mat.py
+++ b/src/flowstab/sparse_stoch_mat.py
@@ -642,7 +642,7 @@ def inplace_csr_matmul_diag(A, diag_vec):
                           A.indices, A.data, diag_vec)
 
     elif isspmatrix_csc(A):
-        csr_scale_rows(A.shape[0], A.shape[1], A.indptr,
+        csr_scale_rows(A.shape[1], A.shape[0], A.indptr,
                           A.indices, A.data, diag_vec)
 
     else:
@@ -665,7 +665,7 @@ def inplace_diag_matmul_csr(A:csr_matrix | csc_matrix, diag_vec: NDArray)->None:
 
     assert diag_vec.shape[0] == diag_vec.size
 
-    assert A.shape[1] == diag_vec.size, "Invalid array size"
+    assert A.shape[0] == diag_vec.size, "Invalid array size"
 
 
     if isspmatrix_csr(A):
@@ -673,7 +673,7 @@ def inplace_diag_matmul_csr(A:csr_matrix | csc_matrix, diag_vec: NDArray)->None:
                        A.indices, A.data, diag_vec)
 
     elif isspmatrix_csc(A):
-        csr_scale_columns(A.shape[0], A.shape[1], A.indptr,
+        csr_scale_columns(A.shape[1], A.shape[0], A.indptr,
                           A.indices, A.data, diag_vec)
 
     else:
-- 
2.43.0


From 310e8a3625aef9b5a462f2b7a8cee2d22ec39476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:15 +0000
Subject: [PATCH 70/73] fix: discrete time static clustering with a numpy
 integer t uses the exponential

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 54b6aa5..199a2f1 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2489,7 +2489,7 @@ def static_clustering(A, t=1, rnd_seed=None, discrete_time_rw=False,
         pi = degs/degs.sum()
 
     # transition matrix at time t
-    if discrete_time_rw and isinstance(t,int):
+    if discrete_time_rw and isinstance(t,(int,np.integer)):
 
         T = power(Tstat,t)
 
-- 
2.43.0


From 45dad80e05bf57f36f903cd1d68419f53d593ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:15 +0000
Subject: [PATCH 71/73] fix: SparseClustering can not be made from a
 SparseStochMat

---
 src/flowstab/network_clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 199a2f1..ada1355 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -1639,7 +1639,7 @@ class SparseClustering(Clustering):
                 
         Saves the matrix in `self._S`.
         """
-        return SparseAutocovMat.from_T(self.T,
+        return SparseAutocovMat.from_T(self.T.tocsr(),
                                          self.p1,
                                          self.p2)
 
-- 
2.43.0


From 0eec7a1c6b6657b6e6bf9ebfd1c5a53fd2dd1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:57 +0000
Subject: [PATCH 72/73] fix: relative tolerance of the flow integral applied to
 the values of the integral

FlowIntegralClustering dropped values below rtol times the maximum before the
multiplication by the initial distribution. With rarely visited nodes (1/p
large) everything else was set to zero.
---
 src/flowstab/network_clustering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index ada1355..4ac3d9d 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2030,11 +2030,14 @@ class FlowIntegralClustering:
                 # in order to avoid nan in PTk due to 0 * np.inf
                 pk[np.where(pk == 0)] = 1
 
-                # we compute Tk @ Pk^-1 @ Tk.T as (Tk @ Pk^-1/2) @ (Tk @ Pk^-1/2)^T
+                # we compute P1 @ Tk @ Pk^-1 @ Tk.T @ P1 as
+                # (P1 @ Tk @ Pk^-1/2) @ (P1 @ Tk @ Pk^-1/2)^T
 
                 PTk = Tk.copy().tocsr()
 
                 inplace_csr_matmul_diag(PTk,np.sqrt(1/pk))
+                # before rtol is applied, which is relative to the values of I
+                inplace_diag_matmul_csr(PTk, self.p1)
 
                 PTk = sparse_gram_matrix(PTk, transpose=True,
                                             verbose=verbose>=10,
@@ -2057,10 +2060,7 @@ class FlowIntegralClustering:
                 if self.is_nparray:
                     IPT_list.append(P(self.p1) @ IPT @ P(self.p1) * (1/total_time))
                 else:
-                    # multiply on left and right by P1
                     IPT_copy = IPT.copy()
-                    inplace_diag_matmul_csr(IPT_copy, self.p1)
-                    inplace_csr_matmul_diag(IPT_copy, self.p1)
                     IPT_copy.eliminate_zeros()
                     IPT_copy.data *= (1/total_time)
                     if USE_SPARSE_DOT_MKL:
-- 
2.43.0


From cd1f110bc6ba920ee45f8a8b63037f669517fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:57 +0000
Subject: [PATCH 73/73] fix: cluster numbers without nodes in
 norm_var_information

A node_to_cluster dictionary whose cluster numbers are not contiguous made
norm_var_information fail, or return 0 for different partitions.
---
 src/flowstab/network_clustering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flowstab/network_clustering.py b/src/flowstab/network_clustering.py
index 4ac3d9d..81cc162 100644
--- a/src/flowstab/network_clustering.py
+++ b/src/flowstab/network_clustering.py
@@ -2316,6 +2316,10 @@ def norm_var_information(clusters1, clusters2, N=None, use_clust_list=False):
         # make sure it is a list of sets
         clusters2 = [set(c) for c in clusters2]
 
+    # cluster numbers without nodes are no clusters
+    clusters1 = [c for c in clusters1 if c]
+    clusters2 = [c for c in clusters2 if c]
+
     # num nodes
     if N is None:
         N = sum(len(clust) for clust in clusters1)
-- 
2.43.0


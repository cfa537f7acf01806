From e8da8d2ae81cf23539944e9d85fad0fd8d79de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:20 +0000
Subject: [PATCH 01/15] fix: cSIL incremental update computed wrong distances
 to other centroids

The row of a new cluster missed the factor 2 of the cross term, and the row
of an updated cluster counted the cross term of the new sample twice, so the
streamed value differed from the batch value.
---
 src/cvi/modules/cSIL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..21d1dd3 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From 17f28f447752de7db055c802438515aa8208bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:40 +0000
Subject: [PATCH 02/15] fix: batch updates assumed labels 0..k-1

Rows were selected by the position of a label instead of the label itself, so
a batch with any other integer labels gave NaN or an exception while the same
data worked incrementally.
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/PS.py   | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 src/cvi/modules/cSIL.py | 4 ++--
 src/cvi/modules/rCIP.py | 2 +-
 9 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 8a26113..47ee935 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -148,7 +148,7 @@ class CH(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index 56275cd..a350aba 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -175,7 +175,7 @@ class DB(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 388780a..0ef6fba 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -169,7 +169,7 @@ class GD43(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 4134a40..640cece 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -170,7 +170,7 @@ class GD53(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/PS.py b/src/cvi/modules/PS.py
index 83b9101..4bd53b3 100644
--- a/src/cvi/modules/PS.py
+++ b/src/cvi/modules/PS.py
@@ -139,7 +139,7 @@ class PS(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index d1694eb..32998cc 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -150,7 +150,7 @@ class WB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index 53dea02..d5b1e1c 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -166,7 +166,7 @@ class XB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 21d1dd3..7bb9512 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -195,7 +195,7 @@ class cSIL(_base.CVI):
         D = np.zeros((self._n_samples, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
@@ -211,7 +211,7 @@ class cSIL(_base.CVI):
 
         for ix in range(self._n_clusters):
             for jx in range(self._n_clusters):
-                subset_ind = [x for x in range(len(labels)) if labels[x] == jx]
+                subset_ind = [x for x in range(len(labels)) if labels[x] == u[jx]]
                 self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]
 
     @_base._add_docs(_base._evaluate_doc)
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..5b3b419 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -175,7 +175,7 @@ class rCIP(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
-- 
2.43.0


From ba384e949b19ae9b02491a897beb4584c13511f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:40 +0000
Subject: [PATCH 03/15] fix: incremental CVIs kept a reference to the caller's
 first sample

The running mean aliased the array passed by the caller, so reusing that
buffer for the next sample changed the mean (and the CH and WB values).
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 47ee935..b28efd7 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -54,7 +54,7 @@ class CH(_base.CVI):
 
         # CH-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index a350aba..e5ee57c 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -51,7 +51,7 @@ class DB(_base.CVI):
         super()._setup(sample)
 
         # DB-specific setup
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 0ef6fba..a8d6e69 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -55,7 +55,7 @@ class GD43(_base.CVI):
         super()._setup(sample)
 
         # GD43-specific setup
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 640cece..c1d8b0a 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -55,7 +55,7 @@ class GD53(_base.CVI):
         super()._setup(sample)
 
         # GD53-specific setup
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index 32998cc..00766b0 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -56,7 +56,7 @@ class WB(_base.CVI):
 
         # WB-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index d5b1e1c..fe86ba4 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -52,7 +52,7 @@ class XB(_base.CVI):
 
         # XB-specific setup
         self._SEP = np.zeros([self._dim])
-        self._mu = sample
+        self._mu = sample.copy()
 
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
-- 
2.43.0


From 8e4c656850a11b067b96393ca6385ed1d535f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:40 +0000
Subject: [PATCH 04/15] fix: importing the package under python -OO raised
 TypeError

_add_docs appended to a docstring that -OO strips.
---
 src/cvi/modules/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..264656d 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -197,7 +197,9 @@ def _add_docs(docstring: str) -> Callable[[], None]:
     """
 
     def dec(func):
-        func.__doc__ = func.__doc__ + docstring
+        # Docstrings are stripped under python -OO
+        if func.__doc__ is not None:
+            func.__doc__ = func.__doc__ + docstring
         return func
 
     return dec
-- 
2.43.0


From 91af71b25429844b8bb36d6fec66bd1337836cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:40 +0000
Subject: [PATCH 05/15] fix: cSIL and rCIP accumulated in the integer type of
 the samples

Inner products of narrow integer samples (such as uint8) wrapped around in
the incremental cSIL and the batch rCIP update.
---
 src/cvi/modules/cSIL.py | 3 +++
 src/cvi/modules/rCIP.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 7bb9512..5abe835 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -54,6 +54,9 @@ class cSIL(_base.CVI):
         Incremental parameter update for the Centroid-based Silhouette (cSIL) CVI.
         """
 
+        # Accumulate in floating point whatever the type of the sample
+        sample = np.asarray(sample, dtype=float)
+
         # Get the internal label corresponding to the provided label
         i_label = self._label_map.get_internal_label(label)
 
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index 5b3b419..54bddfb 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -177,7 +177,7 @@ class rCIP(_base.CVI):
             subset_indices = (
                 [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
-            subset = data[subset_indices, :]
+            subset = data[subset_indices, :].astype(float)
             self._n[ix] = subset.shape[0]
             self._v[ix, :] = np.mean(subset, axis=0)
             if self._n[ix] > 1:
-- 
2.43.0


From 93543802d84a0885a1ee4df4685c458393a71bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:40 +0000
Subject: [PATCH 06/15] fix: single samples after a batch were silently mixed
 into its clusters

The label map is empty after a batch update, so a following incremental
update assigned the sample to an arbitrary cluster or failed with an
IndexError; the documented restriction is now enforced with a ValueError.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 264656d..13ebf11 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -136,6 +138,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From bbea8c293afd0ab3b89efcbd6f43e8cc4e248305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 07/15] fix: legacy indices kept and iSIL modified the caller's
 sample

The first sample of a cluster was stored without a copy; iSIL then added to
it in place.
---
 src/cvi/compat/v0.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b8f5d1a..9d42d4d 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -287,7 +287,7 @@ class iXB:
 
         self.N += 1
         if c_i == len(self.cluster_sizes):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.min_v_i.append(np.inf)
@@ -361,7 +361,7 @@ class iPS:
         """
 
         if c_i >= len(self.cluster_centers):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.PS_i.append(0)
         else:
@@ -449,7 +449,7 @@ class iCH:
             ((self.N - 1) * self.data_center + x) / self.N
         )
         if c_i == len(self.clusters):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.BGSS_i.append(0)
@@ -533,7 +533,7 @@ class iGD:
         """
 
         if c_i == len(self.cluster_centers):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.CP.append(0)
             self.d = np.pad(
@@ -846,7 +846,7 @@ class iSIL:
         """
 
         if c_i == len(self.cluster_sizes):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.sc.append(0)
             self.b = np.pad(
@@ -862,7 +862,7 @@ class iSIL:
                 constant_values=0
             )
             self.CP.append(np.linalg.norm(x) ** 2)
-            self.g.append(x)
+            self.g.append(x.copy())
         elif c_i > len(self.cluster_sizes):
             raise ValueError('Invalid Cluster Ordering')
         self.N += 1
@@ -944,7 +944,7 @@ class iDB:
 
         self.N += 1
         if c_i == len(self.cluster_centers):
-            self.cluster_centers.append(x)
+            self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.R.append(0)
             self.S.append(0)
-- 
2.43.0


From 1af46175f92c508844900d288d56098d9735da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 08/15] fix: legacy iXB, iCH and iDB counted samples they
 refused

The sample count (and the data mean of iCH) was updated before the check of
the cluster ordering.
---
 src/cvi/compat/v0.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 9d42d4d..a6d3f02 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -285,14 +285,14 @@ class iXB:
             TODO
         """
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
         self.N += 1
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.min_v_i.append(np.inf)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
@@ -444,6 +444,8 @@ class iCH:
             TODO
         """
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
         self.N += 1
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
@@ -453,8 +455,6 @@ class iCH:
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.BGSS_i.append(0)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
@@ -942,6 +942,8 @@ class iDB:
             TODO
         """
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
         self.N += 1
         if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x.copy())
@@ -954,8 +956,6 @@ class iDB:
                 mode='constant',
                 constant_values=0
             )
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             (
                 self.CP[c_i],
-- 
2.43.0


From b9da72c6c85ff69764ed0742d03361ee723c98d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 09/15] fix: legacy iCH never recognised a known cluster 0

It compared the cluster number with a list that is never filled, so every
sample of cluster 0 opened a new cluster and later clusters failed.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index a6d3f02..2c7816e 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -450,7 +450,7 @@ class iCH:
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
         )
-        if c_i == len(self.clusters):
+        if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x.copy())
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
-- 
2.43.0


From cf542e8a904f30c7e06376c745b014ce60bbd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 10/15] fix: legacy iGD43 and iGD53 read an attribute of an int

The second sample of a cluster raised AttributeError.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 2c7816e..fde81e1 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -577,7 +577,7 @@ class iGD:
                         self.d[j, c_i] = self.d[c_i, j]
             self.D[c_i] = (
                 2 * self.CP[c_i]
-                / self.cluster_sizes[c_i].len
+                / self.cluster_sizes[c_i]
             )
             self.output = np.min(self.d) / np.max(self.D)
 
-- 
2.43.0


From 9565feb85f73aaa872fb0caa3752c4c9877684d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 11/15] fix: legacy iDB never stored the compactness of a new
 cluster

The second sample of a cluster raised IndexError.
---
 src/cvi/compat/v0.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index fde81e1..aad6133 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -950,6 +950,7 @@ class iDB:
             self.cluster_sizes.append(1)
             self.R.append(0)
             self.S.append(0)
+            self.CP.append(0)
             self.M = np.pad(
                 self.M,
                 [(0, 1), (0, 1)],
-- 
2.43.0


From 268355f462030af75e8fecfefe01e0674e90c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 12/15] fix: legacy iPS passed a generator to np.sum

NumPy refuses it, so the second cluster raised TypeError.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index aad6133..17c333a 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -387,7 +387,7 @@ class iPS:
                 np.sum(self.cluster_centers) / len(self.cluster_centers)
             )
             Bt = (
-                np.sum(
+                sum(
                     norm22(cc - self.mean_cluster_center)
                     for cc in self.cluster_centers
                 ) / len(self.cluster_centers)
-- 
2.43.0


From 3d04c10a94d9c04438204d40acb109a0c5330c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 13/15] fix: legacy iSIL raised on the first sample

It took the minimum over no other cluster, and grew the wrong matrix.
---
 src/cvi/compat/v0.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 17c333a..120dd6f 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -856,7 +856,7 @@ class iSIL:
                 constant_values=np.inf
             )
             self.sij = np.pad(
-                self.b,
+                self.sij,
                 [(0, 1), (0, 1)],
                 mode='constant',
                 constant_values=0
@@ -892,13 +892,14 @@ class iSIL:
                     )
                 )
         self.cp_update(x, c_i)
-        self.output = (
-            (1 / len(self.cluster_centers))
-            * sum([
-                self.sci(i, c_i)
-                for i in range(len(self.cluster_centers))
-            ])
-        )
+        if len(self.cluster_centers) > 1:
+            self.output = (
+                (1 / len(self.cluster_centers))
+                * sum([
+                    self.sci(i, c_i)
+                    for i in range(len(self.cluster_centers))
+                ])
+            )
         return self.output
 
 
-- 
2.43.0


From 03edb2e8328ea1efec6967fc26b1e4ae653d104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:36 +0000
Subject: [PATCH 14/15] fix: legacy iSIL raised on a float sample after an
 integer first sample

The running sum of a cluster is created from its first sample, so adding in
place kept that sample's integer type and NumPy refused the next float one.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 120dd6f..b0fb69e 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -637,7 +637,7 @@ class iSIL:
         """
 
         self.CP[i] += np.linalg.norm(x) ** 2
-        self.g[i] += x
+        self.g[i] = self.g[i] + x
 
     def s_ij_new(
         self,
-- 
2.43.0


From 65504323ce2ebf096dd9c2871a1afa849f297aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:36 +0000
Subject: [PATCH 15/15] fix: legacy iGD checked its type argument with an
 assertion

Under python -O any value was accepted and silently treated as 53.
---
 src/cvi/compat/v0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b0fb69e..c1deed3 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -503,7 +503,8 @@ class iGD:
             GD type, either 43 or 53.
         """
 
-        assert (t == 43 or t == 53)
+        if t not in (43, 53):
+            raise ValueError('GD type must be 43 or 53')
 
         self.t = t
         self.d = np.ones((0, 0))*np.inf
-- 
2.43.0


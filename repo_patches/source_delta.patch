From 5b04b419d74042a243b85a95290302542b208a97 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 01/61] fix: only treat evaluation points as a grid when they
 are one, and keep their order

get_eval_case() used np.unique() on the flattened points, so unsorted points
came back as the values at the sorted points, and per-PDF points that happened
to have the right number of distinct values were treated as a shared grid.
---
 src/qp/utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9fe99bb..0ad397d 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -204,15 +204,19 @@ def get_eval_case(x, row):
         return CASE_PRODUCT, x, row
     if np.size(x) == 1 or np.size(row) == 1:
         return CASE_FLAT, x, row
-    xx = np.unique(x)
-    rr = np.unique(row)
-    if np.size(xx) == np.size(x):
-        xx = x
-    if np.size(rr) == np.size(row):
-        rr = row
-    if np.size(xx) * np.size(rr) != np.size(x):
+    n_row = np.size(row)
+    if np.size(x) == n_row:
+        n_row = np.size(np.unique(row))
+    n_x = np.size(x) // n_row
+    if n_x == 0 or np.size(x) != n_x * n_row:
         return CASE_FLAT, x, row
-    return CASE_FACTOR, xx, np.expand_dims(rr, -1)
+    # Only factor if the inputs really are the outer product of (1, nx) and (npdf, 1),
+    # and keep the values in the order in which they were given
+    x_2d = np.reshape(x, (-1, n_x))
+    row_2d = np.reshape(row, (n_row, -1))
+    if np.any(x_2d != x_2d[0]) or np.any(row_2d != row_2d[:, :1]):
+        return CASE_FLAT, x, row
+    return CASE_FACTOR, x_2d[0], row_2d[:, :1]
 
 
 def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
-- 
2.43.0


From 8a218752732af2c94326e209e163a31b015cfd23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 02/61] fix: evaluate every PDF of a quant ensemble with the
 spline based constructors

construct_pdf() of cdf_spline_derivative and dual_spline_average returns one
row per PDF, while scipy expects one value per (x, row) pair, so every PDF of
the ensemble was given the values of the first one.
---
 src/qp/quant_pdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index fa80ef3..ef2fe56 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -213,7 +213,13 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         # normalization function.
         # See qp issue #147
         row = args[0]
-        return self._pdf_constructor.construct_pdf(x, row)
+        vals = self._pdf_constructor.construct_pdf(x, row)
+        if np.ndim(vals) < 2:
+            return vals
+        # This constructor evaluates each of the selected PDFs at all of the points,
+        # so pick out the value for each (x, row) pair
+        _, inverse = np.unique(row, return_inverse=True)
+        return vals[np.ravel(inverse), np.arange(np.size(x))]
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 254c2b46a01498a1c5bd36c18c5500fcc5010376 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 03/61] fix: compute mixmod ppf for any combination of rows and
 points

The cdf() table was built for the rows of the factored input but indexed with
the row number of the ensemble, and inputs of shape (npdf, n) were refused, so
that rvs(), mean(), var(), stats() and moment() of a mixmod ensemble failed.
---
 src/qp/mixmod_pdf.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index e9cd405..d1f6215 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import get_eval_case, interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import interpolate_multi_x_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -122,17 +122,12 @@ class mixmod_gen(Pdf_rows_gen):
         min_val = np.min(self._means - 6 * self._stds)
         max_val = np.max(self._means + 6 * self._stds)
         grid = np.linspace(min_val, max_val, 201)
-        case_idx, _, rr = get_eval_case(x, row)
-        if case_idx == 1:
-            cdf_vals = self.cdf(grid, rr)
-        elif case_idx == 3:
-            cdf_vals = self.cdf(grid, np.expand_dims(rr, -1))
-        else:  # pragma: no cover
-            raise ValueError(
-                f"Opps, we handle this kind of input to mixmod._ppf {case_idx}"
-            )
+        # Compute the cdf() only for the rows we need, and map onto those
+        rows, row_idx = np.unique(row, return_inverse=True)
+        cdf_vals = self.cdf(grid, np.expand_dims(rows, -1))
+        row_idx = np.reshape(row_idx, np.shape(row))
         return interpolate_multi_x_y(
-            x, row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
+            x, row_idx, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
         ).ravel()
 
     def _updated_ctor_param(self):
-- 
2.43.0


From 261ff0a0034590716c415b6af9c03be422c8f24c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 04/61] fix: evaluate mixmod pdf and cdf for a scalar row, as
 used by entropy()

---
 src/qp/mixmod_pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index d1f6215..28a0c71 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -95,6 +95,7 @@ class mixmod_gen(Pdf_rows_gen):
 
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
+        row = np.atleast_1d(row)
         if np.ndim(x) > 1:  # pragma: no cover
             x = np.expand_dims(x, -2)
         return (
@@ -107,6 +108,7 @@ class mixmod_gen(Pdf_rows_gen):
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
+        row = np.atleast_1d(row)
         if np.ndim(x) > 1:  # pragma: no cover
             x = np.expand_dims(x, -2)
         return (
-- 
2.43.0


From 44568f65b9e7e424e0fc7b0d8c0e4516ba9923c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 05/61] fix: draw samples from an ensemble with a single quant
 PDF

scipy squeezes the row of a single PDF to a scalar before calling _rvs().
---
 src/qp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 0ad397d..a2334e1 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -575,7 +575,7 @@ def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
     vv = np.vectorize(evaluate_row, signature="(1),(%i)->(%i)" % (nx, nx))
-    return vv(row, x)
+    return vv(np.reshape(row, (-1, 1)), x)
 
 
 def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
-- 
2.43.0


From 4e9f36001bbbc7d7201bce4a4b1ccc12b8e0f083 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 06/61] fix: draw one sample per PDF when rvs() is called
 without a size

---
 src/qp/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a3e4bba..c0ae61f 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -485,7 +485,8 @@ class Ensemble:
         -------
         """
         return self._frozen.rvs(
-            size=(self._frozen.npdf, size), random_state=random_state
+            size=(self._frozen.npdf, 1 if size is None else size),
+            random_state=random_state
         )
 
     def stats(self, moments="mv"):
-- 
2.43.0


From aa9d5445ad66931491b617254eef9100e438d8e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 07/61] fix: give each chunk of Factory.iterator its own
 ancillary data

All the ensembles shared one dict, so the ancil of the chunks read earlier was
replaced by that of the last one; without ancil in the file it was an empty
dict rather than None.
---
 src/qp/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index d00240c..2dbecd0 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -257,11 +257,13 @@ class Factory(OrderedDict):
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
         data = self._build_data_dict(metadata, {})
-        ancil_data = OrderedDict()
         for start, end in ranges:
             for key, val in f.items():
                 data[key] = io.readHdf5DatasetToArray(val, start, end)
+            # Use a new dict for each chunk, the ensembles keep a reference to it
+            ancil_data = None
             if ancil_f is not None:
+                ancil_data = OrderedDict()
                 for key, val in ancil_f.items():
                     ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
             yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
-- 
2.43.0


From 32f7e874f8b64265d92268584c8fa83ae0358bf0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 08/61] fix: restore the dictionary after each sparse_basis()
 search

The columns swapped during the search were put back the wrong way, so the
dictionary was corrupted for all the following PDFs, whose representations
then referred to basis functions that are not the ones used to decode them.
---
 src/qp/sparse_rep.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 008cd8e..4b7d598 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -97,6 +97,7 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
     alpha = np.dot(dictionary.T, query_vec)
     res = query_vec
     idxs = np.arange(dictionary.shape[1])  # keeping track of swapping
+    swaps = []
     L = np.zeros((n_basis, n_basis), dtype=dictionary.dtype)
     L[0, 0] = 1.0
     for n_active in range(n_basis):
@@ -123,6 +124,7 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
         dictionary[:, [n_active, lam]] = dictionary[:, [lam, n_active]]
         alpha[[n_active, lam]] = alpha[[lam, n_active]]
         idxs[[n_active, lam]] = idxs[[lam, n_active]]
+        swaps.append((n_active, lam))
         # solves LL'x = query_vec as a composition of two triangular systems
         gamma = sla.cho_solve(
             (L[: n_active + 1, : n_active + 1], True),
@@ -133,6 +135,9 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
         if tolerance is not None and sla.norm(res) ** 2 <= tolerance:
             break
     a_n[idxs[: n_active + 1]] = gamma
+    # put the columns of the dictionary back in their original order
+    for n_swap, lam in reversed(swaps):
+        dictionary[:, [n_swap, lam]] = dictionary[:, [lam, n_swap]]
     del dictionary
     # return a_n
     return idxs[: n_active + 1], gamma
@@ -287,8 +292,6 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         sparse_ind = np.array(list(map(combine_int, index, Dind)))
         Sparse_Array[k, 0 : len(sparse_ind)] = sparse_ind
 
-        # swap back columns
-        A[:, [Dind]] = A[:, [np.arange(len(Dind))]]
 
     if verbose:
         print("done")
-- 
2.43.0


From ea44cf5e74eaf04faaebc2724c0cbeaf58b6ade5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/61] fix: put the largest coefficient first in the sparse
 representation

The weights are stored relative to the largest one but decoded as if that was
the first one, which the orthogonal matching pursuit does not guarantee.
---
 src/qp/sparse_rep.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 4b7d598..bac0dd4 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -279,6 +279,11 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
 
         if len(Dind) < 1:  # pragma: no cover
             continue
+        # The first weight is decoded as 1, and the others relative to the
+        # largest one, so put the largest one first
+        imax = np.argmax(Dval)
+        Dind[[0, imax]] = Dind[[imax, 0]]
+        Dval[[0, imax]] = Dval[[imax, 0]]
         # bigD[k]['sparse'] = [Dind, Dval]
         if max(Dval) > 0:
             dval0 = Dval[0]
-- 
2.43.0


From 9d222c809b3fa22a8f4c91051d3eab9f0aa85a1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 10/61] fix: use all of the chunks in
 PointToPointMetric.eval_from_iterator

Only the centroids of the last chunk were passed to finalize().
---
 src/qp/metrics/base_metric_classes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/base_metric_classes.py b/src/qp/metrics/base_metric_classes.py
index 5efa360..b560f7b 100644
--- a/src/qp/metrics/base_metric_classes.py
+++ b/src/qp/metrics/base_metric_classes.py
@@ -157,9 +157,10 @@ class PointToPointMetric(BaseMetric):
 
     def eval_from_iterator(self, estimate, reference):
         self.initialize()
-        for estimate, reference in zip(estimate, reference):
-            centroids = self.accumulate(estimate, reference)
-        return self.finalize([centroids])
+        centroids = [
+            self.accumulate(est, ref) for est, ref in zip(estimate, reference)
+        ]
+        return self.finalize(centroids)
 
     def evaluate(self, estimate, reference):
         raise NotImplementedError()
-- 
2.43.0


From eb5c0c593fe7f39b01d9f7c5b91e4da29f4f7d51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 11/61] fix: use the actual bin widths and grid spacing when
 computing moments

---
 src/qp/hist_pdf.py          | 3 +--
 src/qp/interp_pdf.py        | 4 ++--
 src/qp/packed_interp_pdf.py | 4 ++--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 3195609..13d868d 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -140,9 +140,8 @@ class hist_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._hbins[1] - self._hbins[0]
         xv = 0.5 * (self._hbins[1:] + self._hbins[:-1])
-        return np.sum(xv**m * self._hpdfs, axis=1) * dx
+        return np.sum(xv**m * self._hpdfs * self._hbin_widths, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 60025d1..ba709a9 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -2,6 +2,7 @@
 """
 
 import numpy as np
+from scipy.integrate import trapezoid
 from scipy.stats import rv_continuous
 
 from qp.conversion_funcs import extract_vals_at_x, extract_xy_sparse, extract_xy_vals
@@ -154,8 +155,7 @@ class interp_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return trapezoid(self._xvals**m * self._yvals, self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 376c584..12dd351 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -2,6 +2,7 @@
 """
 
 import numpy as np
+from scipy.integrate import trapezoid
 from scipy.stats import rv_continuous
 
 from qp.factory import add_class
@@ -213,10 +214,9 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
         if self._yvals is None:  # pragma: no cover
             self._unpack()
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return trapezoid(self._xvals**m * self._yvals, self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 3890746dfa8ff02f33d71d19196710ed51eab026 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 12/61] fix: leave the ensemble as it was when update() rejects
 the new ancillary data

---
 src/qp/ensemble.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index c0ae61f..e1db172 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,7 +170,10 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        self._frozen = self._gen_func(**data)
+        # Check everything before changing anything, so that a rejected update has no effect
+        frozen = self._gen_func(**data)
+        check_array_shapes(ancil, frozen.npdf)
+        self._frozen = frozen
         self._gen_obj = self._frozen.dist
         self.set_ancil(ancil)
         self._gridded = None
-- 
2.43.0


From 48a0479b4f34d3a60c0d819baccb11b1f5d5500d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 13/61] fix: do not return stale pdf values when the grid given
 to gridded() was modified

---
 src/qp/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index e1db172..bc76a32 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -341,7 +341,8 @@ class Ensemble:
         the cached value
         """
         if self._gridded is None or not np.array_equal(self._gridded[0], grid):
-            self._gridded = (grid, self.pdf(grid))
+            # Keep a copy of the grid, the caller is free to modify theirs
+            self._gridded = (np.array(grid), self.pdf(grid))
         return self._gridded
 
     def write_to(self, filename):
-- 
2.43.0


From fcd9404cca4f069a8a7512d1cf4349235102db8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 14/61] fix: make add_to_ancil() work without previous
 ancillary data, and not modify the caller's dict

---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index bc76a32..b500bbf 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -265,7 +265,7 @@ class Ensemble:
         This calls dict.update() so it will overwrite existing columns
         """
         check_array_shapes(to_add, self.npdf)
-        self._ancil.update(to_add)
+        self._ancil = {**(self._ancil or {}), **to_add}
 
     def append(self, other_ens):
         """Append another other_ens to this one
-- 
2.43.0


From 60266041e46a3f767fff60dbf36895d69aea75d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 15/61] fix: compute the Brier score of an ensemble with a
 single PDF

---
 src/qp/metrics/metrics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index 1ccf600..ff9a99e 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -240,9 +240,8 @@ def _prepare_for_brier(p, truth, limits, dx=0.01):
     pdf_values = p.gridded(grid.grid_values)[1]
 
     # Create the NxM truth_array.
-    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array,
-    # thus we call np.squeeze to remove extra dimensions.
-    truth_array = np.squeeze([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
+    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array.
+    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
 
     # instantiate the Brier metric object
     return Brier(pdf_values, truth_array)
-- 
2.43.0


From 14ff632e035484ce85ad12385e6e9d26ac5c9d12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 16/61] fix: accumulate the PIT metric over chunks with a
 single PDF

---
 src/qp/metrics/concrete_metric_classes.py | 2 +-
 src/qp/metrics/pit.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 00c7271..841ce01 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -276,7 +276,7 @@ class PITMetric(DistToPointMetricDigester):
         return pit_object.pit
 
     def accumulate(self, estimate, reference):
-        pit_samples = PIT(estimate, reference, self._eval_grid)._gather_pit_samples(estimate, reference)
+        pit_samples = PIT._gather_pit_samples(estimate, reference)
         digest = pytdigest.TDigest.compute(pit_samples, compression=self._tdigest_compression)
         centroids = digest.get_centroids()
         return centroids
diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index b83586b..ec13832 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -174,7 +174,7 @@ class PIT:
 
     @classmethod
     def _gather_pit_samples(cls, qp_ens, true_vals):
-        pit_samples = np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
 
         # These two lines set all `NaN` values to 0. This may or may not make sense
         # Alternatively if it's better to simply remove the `NaN`, this can be done
-- 
2.43.0


From 35e3a7205e9b20c0de59da35ecec5644cbb3958a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 17/61] fix: store the name of the quantile pdf constructor as
 bytes, so that it can be written to hdf5

---
 src/qp/quant_pdf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index ef2fe56..43afe10 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -129,9 +129,14 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
             )
         self._locs = locs_2d
 
-        self._pdf_constructor_name = str(
-            kwargs.pop("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR)
+        pdf_constructor_name = kwargs.pop(
+            "pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR
         )
+        if isinstance(pdf_constructor_name, np.ndarray):
+            pdf_constructor_name = pdf_constructor_name.item()
+        if isinstance(pdf_constructor_name, bytes):
+            pdf_constructor_name = pdf_constructor_name.decode()
+        self._pdf_constructor_name = str(pdf_constructor_name)
         self._pdf_constructor = None
         self._instantiate_pdf_constructor()
 
@@ -139,7 +144,7 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         super().__init__(*args, **kwargs)
 
         self._addmetadata("quants", self._quants)
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name.encode())
         self._addmetadata("check_input", self._check_input)
         self._addobjdata("locs", self._locs)
 
@@ -187,7 +192,7 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
 
         self._pdf_constructor_name = value
         self._instantiate_pdf_constructor()
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name.encode())
 
     @property
     def pdf_constructor(self) -> AbstractQuantilePdfConstructor:
-- 
2.43.0


From 11c51b3b6088cd13f0092c6deaa078475e0577c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 18/61] fix: find the bin for narrow bins, and for points on
 the edges of unequal bins

---
 src/qp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index a2334e1..7063ec5 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -85,10 +85,10 @@ def get_bin_indices(bins, x):
     """
     widths = bin_widths(bins)
     n_bins = np.size(bins) - 1
-    if np.allclose(widths, widths[0]):
+    if np.allclose(widths, widths[0], atol=0.0):
         idx = np.atleast_1d(np.floor((x - bins[0]) / widths[0]).astype(int))
     else:
-        idx = np.atleast_1d(np.searchsorted(bins, x, side="left") - 1)
+        idx = np.atleast_1d(np.searchsorted(bins, x, side="right") - 1)
     mask = (idx >= 0) * (idx < bins.size - 1)
     np.putmask(idx, 1 - mask, 0)
     xshape = np.shape(x)
-- 
2.43.0


From 993c94ab7434b703e859ed809513cfc8dcb878e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 19/61] fix: read all the types of parquet files that
 write_to() can write

---
 src/qp/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 2dbecd0..3331e22 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -199,7 +199,7 @@ class Factory(OrderedDict):
         need to build the ensemble.
         """
         _, ext = os.path.splitext(filename)
-        if ext in [".pq"]:
+        if ext in [".pq", ".parq", ".parquet"]:
             keys = ["data", "meta", "ancil"]
             allow_missing_keys = True
         else:
-- 
2.43.0


From 111287abc053acb3b2b0e95c4ff92abef52bd9ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 20/61] fix: normalize irregular interpolators to the integral
 of the interpolated pdf

---
 src/qp/interp_pdf.py | 5 +++--
 src/qp/utils.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index ba709a9..7d2c017 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -291,8 +291,9 @@ class interp_irregular_gen(Pdf_rows_gen):
         self._ycumul = np.ndarray(copy_shape)
         self._ycumul[:, 0] = 0.0
         self._ycumul[:, 1:] = np.cumsum(
-            self._xvals[:, 1:] * self._yvals[:, 1:]
-            - self._xvals[:, :-1] * self._yvals[:, 1:],
+            (self._xvals[:, 1:] - self._xvals[:, :-1])
+            * 0.5
+            * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
 
diff --git a/src/qp/utils.py b/src/qp/utils.py
index 7063ec5..1bc4dd1 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -117,7 +117,7 @@ def normalize_interp1d(xvals, yvals):
     # vv = np.vectorize(row_integral)
     # integrals = vv(np.arange(xvals.shape[0]))
     integrals = np.sum(
-        xvals[:, 1:] * yvals[:, 1:] - xvals[:, :-1] * yvals[:, 1:], axis=1
+        0.5 * (xvals[:, 1:] - xvals[:, :-1]) * (yvals[:, 1:] + yvals[:, :-1]), axis=1
     )
     return (yvals.T / integrals).T
 
-- 
2.43.0


From 5cc325bd470fa03cc3ce768f2127a0569b5ed4c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 21/61] fix: return the ends of the support from ppf(0) and
 ppf(1), as documented

---
 src/qp/hist_pdf.py          | 4 ++++
 src/qp/interp_pdf.py        | 8 ++++++++
 src/qp/packed_interp_pdf.py | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 13d868d..2f1dc04 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -104,6 +104,10 @@ class hist_gen(Pdf_rows_gen):
         """Return the histogram bin values"""
         return self._hpdfs
 
+    def _get_support(self, *args):
+        # pylint: disable=arguments-differ
+        return self._xmin, self._xmax
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         return evaluate_hist_x_multi_y(x, row, self._hbins, self._hpdfs).ravel()
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 7d2c017..f57d116 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -116,6 +116,10 @@ class interp_gen(Pdf_rows_gen):
         """Return the y-valus used to do the interpolation"""
         return self._yvals
 
+    def _get_support(self, *args):
+        # pylint: disable=arguments-differ
+        return self._xmin, self._xmax
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         return interpolate_x_multi_y(
@@ -307,6 +311,10 @@ class interp_irregular_gen(Pdf_rows_gen):
         """Return the y-valus used to do the interpolation"""
         return self._yvals
 
+    def _get_support(self, *args):
+        # pylint: disable=arguments-differ
+        return self._xmin, self._xmax
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         return interpolate_multi_x_multi_y(
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 12dd351..728bbdd 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -173,6 +173,10 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         """Return the y-valus used to do the interpolation"""
         return self._yvals
 
+    def _get_support(self, *args):
+        # pylint: disable=arguments-differ
+        return self._xmin, self._xmax
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         if self._yvals is None:  # pragma: no cover
-- 
2.43.0


From d07df7b438eeb5b55a0abcbef4106acf5783d0af Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 22/61] fix: do not return stale pdf values from gridded()
 after changing the quantile pdf constructor

---
 src/qp/ensemble.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index b500bbf..45a9d34 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -41,6 +41,7 @@ class Ensemble:
         self.set_ancil(ancil)
 
         self._gridded = None
+        self._gridded_constructor = None
         self._samples = None
 
     def __getitem__(self, key):
@@ -340,7 +341,14 @@ class Ensemble:
         This first comparse grid to the cached value, if they match it returns
         the cached value
         """
-        if self._gridded is None or not np.array_equal(self._gridded[0], grid):
+        # The PDF constructor of a quant distribution can be changed in place
+        pdf_constructor = getattr(self._gen_obj, "pdf_constructor_name", None)
+        if (
+            self._gridded is None
+            or not np.array_equal(self._gridded[0], grid)
+            or pdf_constructor != self._gridded_constructor
+        ):
+            self._gridded_constructor = pdf_constructor
             # Keep a copy of the grid, the caller is free to modify theirs
             self._gridded = (np.array(grid), self.pdf(grid))
         return self._gridded
-- 
2.43.0


From c62a26e678f509382fc51dfeb167d361e963215f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 23/61] fix: convert to hist from samples when there are as
 many PDFs as bins

---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 85689b9..3a5ecfb 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -143,7 +143,7 @@ def extract_hist_samples(in_dist, **kwargs):
         return np.histogram(sample, bins=bins)[0]
 
     vv = np.vectorize(
-        hist_helper, signature="(%i)->(%i)" % (samples.shape[0], bins.size - 1)
+        hist_helper, signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
     )
     pdfs = vv(samples)
     return dict(bins=bins, pdfs=pdfs)
-- 
2.43.0


From 49d53a817e00ef263d484e8071048f4a824c9e55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 24/61] fix: evaluate empty selections of points, as scipy does
 for logcdf and logsf

---
 src/qp/spline_pdf.py |  4 ++--
 src/qp/utils.py      | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index b31830d..b923814 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -251,7 +251,7 @@ class spline_gen(Pdf_rows_gen):
             )
 
         with errstate(all="ignore"):
-            vv = np.vectorize(pdf_row)
+            vv = np.vectorize(pdf_row, otypes=[float])
         return vv(x, row).ravel()
 
     def _cdf(self, x, row):
@@ -264,7 +264,7 @@ class spline_gen(Pdf_rows_gen):
             )
 
         with errstate(all="ignore"):
-            vv = np.vectorize(cdf_row)
+            vv = np.vectorize(cdf_row, otypes=[float])
         return vv(x, row).ravel()
 
     def _updated_ctor_param(self):
diff --git a/src/qp/utils.py b/src/qp/utils.py
index 1bc4dd1..8a2e245 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -201,8 +201,8 @@ def get_eval_case(x, row):
             "Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row))
         )
     if nd_row >= 2:
-        return CASE_PRODUCT, x, row
-    if np.size(x) == 1 or np.size(row) == 1:
+        return CASE_PRODUCT, np.atleast_1d(x), row
+    if np.size(x) <= 1 or np.size(row) <= 1:
         return CASE_FLAT, x, row
     n_row = np.size(row)
     if np.size(x) == n_row:
@@ -251,7 +251,7 @@ def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no
             return np.where(maskv, vals[rv, idxv], 0)
         return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)
 
-    vv = np.vectorize(evaluate_row)
+    vv = np.vectorize(evaluate_row, otypes=[float])
     return vv(idx, mask, row, deltas)
 
 
@@ -322,7 +322,7 @@ def evaluate_hist_x_multi_y_2d(x, row, bins, vals, derivs=None):  # pragma: no c
             return np.where(maskv, vals[rv, idxv], 0)
         return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)
 
-    vv = np.vectorize(evaluate_row)
+    vv = np.vectorize(evaluate_row, otypes=[float])
     return vv(idx, mask, row, deltas)
 
 
@@ -390,7 +390,7 @@ def evaluate_hist_multi_x_multi_y_flat(
             return np.where(mask, vals[rv, idx], 0)
         return np.where(mask, vals[rv, idx] + delta * derivs[rv, idx], 0)
 
-    vv = np.vectorize(evaluate_row)
+    vv = np.vectorize(evaluate_row, otypes=[float])
     return vv(x, row)
 
 
@@ -521,7 +521,7 @@ def interpolate_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
@@ -630,7 +630,7 @@ def interpolate_multi_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals[rv], yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
@@ -745,7 +745,7 @@ def interpolate_multi_x_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals[rv], yvals, **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
-- 
2.43.0


From 6d9c01c56866fead545a44997e344d1136d5ea70 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 25/61] fix: keep the ancillary data of a single PDF as one row
 when slicing with an integer

---
 src/qp/ensemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 45a9d34..1806d96 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -71,6 +71,8 @@ class Ensemble:
                 red_data[k] = v
         if self._ancil is not None:
             ancil = slice_dict(self._ancil, key)
+            if isinstance(key, (int, np.integer)):
+                ancil = {k: np.expand_dims(v, 0) for k, v in ancil.items()}
         else:
             ancil = None
         return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
-- 
2.43.0


From dd8d69daa4c9dfdc2a3419fbba4dc38b3ab17f22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 26/61] fix: mixmod pdf and cdf of a single PDF when some of
 the points are infinite

---
 src/qp/mixmod_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 28a0c71..c1492c6 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -104,7 +104,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).pdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
@@ -117,7 +117,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).cdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From ea2c546b786564a2264108c67ebc8ae4cfb715bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 27/61] fix: wrapped scipy distributions keep their support
 (pdf 0 outside, cdf 0 or 1)

---
 src/qp/factory.py | 8 +++++---
 src/qp/pdf_gen.py | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 3331e22..ce7baa8 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -54,14 +54,16 @@ class Factory(OrderedDict):
                 data_dict[col] = col_data
         return data_dict
 
-    def _make_scipy_wrapped_class(self, class_name, scipy_class):
-        """Build a qp class from a scipy class"""
+    def _make_scipy_wrapped_class(self, class_name, scipy_dist):
+        """Build a qp class from a scipy distribution"""
         # pylint: disable=protected-access
+        scipy_class = type(scipy_dist)
         override_dict = dict(
             name=class_name,
             version=0,
             freeze=Pdf_gen_wrap._my_freeze,
             _other_init=scipy_class.__init__,
+            _scipy_support=dict(a=scipy_dist.a, b=scipy_dist.b),
         )
         the_class = type(class_name, (Pdf_gen_wrap, scipy_class), override_dict)
         self.add_class(the_class)
@@ -72,7 +74,7 @@ class Factory(OrderedDict):
         for name in names:
             attr = getattr(sps, name)
             if isinstance(attr, sps.rv_continuous):
-                self._make_scipy_wrapped_class(name, type(attr))
+                self._make_scipy_wrapped_class(name, attr)
 
     def add_class(self, the_class):
         """Add a class to the factory
diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index 80dfbbf..75864b0 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -389,9 +389,12 @@ class Pdf_gen_wrap(Pdf_gen):
 
     """
 
+    _scipy_support = {}
+
     def __init__(self, *args, **kwargs):
         """C'tor"""
         # pylint: disable=no-member,protected-access
+        kwargs = {**self._scipy_support, **kwargs}
         super().__init__(*args, **kwargs)
         self._other_init(*args, **kwargs)
 
-- 
2.43.0


From 9890d1146b7e2e83564a45fc0dc59b377494e193 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 28/61] fix: build wrapped distributions that override __call__
 (levy_stable)

---
 src/qp/pdf_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index 75864b0..5306948 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -133,7 +133,7 @@ class Pdf_gen:
         keyword arguemntets provided"""
         # pylint: disable=not-callable
         obj, kwds_freeze = cls.create_gen(**kwds)
-        return obj(**kwds_freeze)
+        return obj.freeze(**kwds_freeze)
 
     @classmethod
     def plot(cls, pdf, **kwargs):
-- 
2.43.0


From e84c68d8e1f2bb0ae8aa7322a0494d5b16e5c913 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 29/61] fix: normalise each spline over its own x-values, do
 not extrapolate it over those of the others

---
 src/qp/spline_pdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index b923814..d61d6c2 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -42,7 +42,10 @@ def normalize_spline(xvals, yvals, limits, **kwargs):
         def spl(xv):
             return splev(xv, splrep(xvals[irow], yvals[irow]))
 
-        return quad(spl, limits[0], limits[1], **kwargs)[0]
+        # Each spline only covers its own x-values, do not extrapolate it
+        low = max(limits[0], np.min(xvals[irow]))
+        high = min(limits[1], np.max(xvals[irow]))
+        return quad(spl, low, high, **kwargs)[0]
 
     vv = np.vectorize(row_integral)
     with errstate(all="ignore"):
-- 
2.43.0


From f3cf457e7da648b4955595e7e1b37026a7844768 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 30/61] fix: modifying the arrays returned by gridded() does
 not change its cache

---
 src/qp/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 1806d96..4c8783a 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -353,7 +353,8 @@ class Ensemble:
             self._gridded_constructor = pdf_constructor
             # Keep a copy of the grid, the caller is free to modify theirs
             self._gridded = (np.array(grid), self.pdf(grid))
-        return self._gridded
+        # Return copies, the caller is free to modify those too
+        return tuple(np.copy(arr) for arr in self._gridded)
 
     def write_to(self, filename):
         """Save this ensemble to a file
-- 
2.43.0


From d85942236d8397c23bee03f66e491c6c892cbad9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 31/61] fix: read arrays from parquet and FITS files as plain
 arrays in the native byte order

---
 src/qp/factory.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index ce7baa8..19027ac 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -27,6 +27,22 @@ class Factory(OrderedDict):
         super().__init__()
         self._load_scipy_classes()
 
+    @staticmethod
+    def _to_native_arrays(table):
+        """Convert the columns of a table to plain numpy arrays in the native byte order
+
+        Some formats return columns of arrays as arrays of objects, or big-endian arrays
+        """
+        out = OrderedDict()
+        for col, col_data in table.items():
+            col_data = np.asarray(col_data)
+            if col_data.dtype.kind == "O" and col_data.ndim == 1 and any(np.ndim(val) for val in col_data):
+                col_data = np.stack([np.asarray(val) for val in col_data])
+            if not col_data.dtype.isnative:
+                col_data = col_data.astype(col_data.dtype.newbyteorder("="))
+            out[col] = col_data
+        return out
+
     @staticmethod
     def _build_data_dict(md_table, data_table):
         """Convert the tables to a dictionary that can be used to build an Ensemble"""
@@ -137,9 +153,11 @@ class Factory(OrderedDict):
         This will use information in the meta data table to figure out how to construct the data
         need to build the ensemble.
         """
-        md_table = tables["meta"]
-        data_table = tables["data"]
+        md_table = self._to_native_arrays(tables["meta"])
+        data_table = self._to_native_arrays(tables["data"])
         ancil_table = tables.get("ancil")
+        if ancil_table is not None:
+            ancil_table = self._to_native_arrays(ancil_table)
 
         data = self._build_data_dict(md_table, data_table)
 
-- 
2.43.0


From a70fa07071b102a851de6b55a6cb1691df8840a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 32/61] fix: write to the requested file when its name contains
 several dots

---
 src/qp/ensemble.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 4c8783a..0d6ec5d 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -370,9 +370,9 @@ class Ensemble:
         This uses `tables_io` to write the data, so any filesuffix that works for
         `tables_io` will work here.
         """
-        basename, ext = os.path.splitext(filename)
+        _, ext = os.path.splitext(filename)
         tables = self.build_tables()
-        io.write(tables, basename, ext[1:])
+        io.write(tables, filename, ext[1:])
 
     def pdf(self, x):
         """
-- 
2.43.0


From 03135df9aba05b7673e1f031f980ab7fc0bc7e8c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 33/61] fix: do not attach the ancillary data of an overwritten
 ensemble when reading parquet and h5 files

---
 src/qp/ensemble.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 0d6ec5d..077483e 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -370,8 +370,17 @@ class Ensemble:
         This uses `tables_io` to write the data, so any filesuffix that works for
         `tables_io` will work here.
         """
-        _, ext = os.path.splitext(filename)
+        basename, ext = os.path.splitext(filename)
         tables = self.build_tables()
+        # Do not leave the ancillary data of a previous ensemble behind: each table has its
+        # own parquet file, and the h5 writer adds to existing files
+        stale = None
+        if ext == ".h5":
+            stale = filename
+        elif ext in [".pq", ".parq", ".parquet"] and "ancil" not in tables:
+            stale = f"{basename}ancil{ext}"
+        if stale is not None and os.path.exists(stale):
+            os.remove(stale)
         io.write(tables, filename, ext[1:])
 
     def pdf(self, x):
-- 
2.43.0


From 57413d34c089388973c339db05b2a6b2f1de9d8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 34/61] fix: reject appending or concatenating ensembles with
 different grids in small units

---
 src/qp/dict_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/dict_utils.py b/src/qp/dict_utils.py
index 189767c..a8da115 100644
--- a/src/qp/dict_utils.py
+++ b/src/qp/dict_utils.py
@@ -203,7 +203,9 @@ def compare_two_dicts(d1, d2):
             if v != vv:  # pragma: no cover
                 return False
         except ValueError:
-            if not np.allclose(v, vv):  # pragma: no cover
+            # compare the values on their own scale, which depends on their units
+            scale = np.max(np.abs(v), initial=0.0)
+            if not np.allclose(v, vv, atol=1e-8 * scale):  # pragma: no cover
                 return False
     return True
 
-- 
2.43.0


From cb89298e52f26ef52db5254e5b59a322dccc1515 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 35/61] fix: keep the integral of each bin when converting to
 hist with unequal bins

---
 src/qp/conversion_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 3a5ecfb..7c89295 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -109,8 +109,9 @@ def extract_hist_values(in_dist, **kwargs):
     bins = kwargs.pop("bins", None)
     if bins is None:  # pragma: no cover
         raise ValueError("To convert using extract_hist_samples you must specify bins")
-    bins, pdfs = in_dist.histogramize(bins)
-    return dict(bins=bins, pdfs=pdfs)
+    bins, masses = in_dist.histogramize(bins)
+    # hist expects the density in each bin, rather than the integral over the bin
+    return dict(bins=bins, pdfs=masses / np.diff(bins))
 
 
 def extract_hist_samples(in_dist, **kwargs):
@@ -145,7 +146,8 @@ def extract_hist_samples(in_dist, **kwargs):
     vv = np.vectorize(
         hist_helper, signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
     )
-    pdfs = vv(samples)
+    # hist expects the density in each bin, rather than the number of samples
+    pdfs = vv(samples) / np.diff(bins)
     return dict(bins=bins, pdfs=pdfs)
 
 
-- 
2.43.0


From 7912eaa4fba16d72f8895b280f8fc1551c25ae94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 36/61] fix: log packing does not depend on the scale of the
 values

---
 src/qp/packing_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index e58ebb5..dd15a86 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -75,7 +75,7 @@ def log_pack_from_rowmax(input_array, log_floor=-3.0):
     return (
         np.round(
             255
-            * (np.log10((input_array + epsilon) / row_max) + neg_log_floor)
+            * (np.log10(input_array / row_max + epsilon) + neg_log_floor)
             / neg_log_floor
         )
         .clip(0.0, 255.0)
-- 
2.43.0


From f7ae153412495a682c7785f7442612af25f4600d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 37/61] fix: stop the sparse search when only dependent
 elements are left, without failing

---
 src/qp/sparse_rep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index bac0dd4..909ccb8 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -119,6 +119,7 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
             v = sla.norm(L[n_active, :n_active]) ** 2
             if 1 - v <= machine_eps:
                 print("Selected basis are dependent or normed are not unity")
+                n_active -= 1
                 break
             L[n_active, n_active] = np.sqrt(1 - v)
         dictionary[:, [n_active, lam]] = dictionary[:, [lam, n_active]]
-- 
2.43.0


From 478de1bad97ff5aefd2136457b25eb088894f152 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 38/61] fix: build a sparse representation when the range of
 widths is given, but not their number

---
 src/qp/sparse_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 909ccb8..8e5cc73 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -247,7 +247,7 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         min_sig = dx / 6.0
         sig = [min_sig, max_sig]
     if Nsig is None:
-        Nsig = int(np.ceil(2.0 * (max_sig - min_sig) / dx))
+        Nsig = int(np.ceil(2.0 * (sig[1] - sig[0]) / dx))
 
     if verbose:
         print("dx = ", dx)
-- 
2.43.0


From d4a1a5621159c322da38e9250a72d3c37411de92 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 39/61] fix: a PDF with nothing in common with the dictionary
 does not stop the sparse coding of a set

---
 src/qp/sparse_rep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 8e5cc73..f48c209 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -98,6 +98,7 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
     res = query_vec
     idxs = np.arange(dictionary.shape[1])  # keeping track of swapping
     swaps = []
+    gamma = np.zeros(0, dtype=dictionary.dtype)
     L = np.zeros((n_basis, n_basis), dtype=dictionary.dtype)
     L[0, 0] = 1.0
     for n_active in range(n_basis):
-- 
2.43.0


From fd740e395fa9e63ac635286248d38e0849cb7f7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 40/61] fix: goodness of fit of single samples (num_samples=1)
 is one value per PDF

---
 src/qp/metrics/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index ff9a99e..cc8866c 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -457,7 +457,7 @@ def calculate_goodness_of_fit(
 
     return goodness_of_fit_metrics[fit_metric](
         reference,
-        np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state)),
+        estimate.rvs(size=num_samples, random_state=_random_state),
     )
 
 
-- 
2.43.0


From 716be944020ef90897491bb9fde2b45b03dae173 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 41/61] fix: accept any sequence as the evaluation grid of PIT,
 as documented

---
 src/qp/metrics/pit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index ec13832..0fe1431 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -190,6 +190,7 @@ class PIT:
 
     @classmethod
     def _produce_output_ensemble(cls, data_quants, eval_grid):
+        eval_grid = np.asarray(eval_grid)
         # Remove duplicates values as well as values outside the range (0,1)
         _, unique_indices = np.unique(data_quants, return_index=True)
         unique_data_quants = data_quants[unique_indices]
-- 
2.43.0


From 1fc501191795f774c1eed23452f7a2758bfd33e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 42/61] fix: compute sigma_mad over chunks when all the values
 are the same

---
 src/qp/metrics/point_estimate_metric_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp/metrics/point_estimate_metric_classes.py b/src/qp/metrics/point_estimate_metric_classes.py
index c22dbbc..862b759 100644
--- a/src/qp/metrics/point_estimate_metric_classes.py
+++ b/src/qp/metrics/point_estimate_metric_classes.py
@@ -279,6 +279,7 @@ class PointSigmaMAD(PointToPointMetricDigester):
         sorted_bins_dist = bin_dist[sorted_bins_dist_idx] # get the sorted distances
         cumulative_sorted = this_pdf[sorted_bins_dist_idx].cumsum() # the cumulate PDF within the nearest bins
         median_sorted_bin = np.searchsorted(cumulative_sorted, 0.5) # which bins are the nearest 50% of the PDF
+        median_sorted_bin = min(median_sorted_bin, len(sorted_bins_dist) - 1) # e.g., when all the values are the same
         dist_to_median = sorted_bins_dist[median_sorted_bin] # return the corresponding distance to the median
 
         return dist_to_median * SCALE_FACTOR
-- 
2.43.0


From e3559e48c623f97e06bb017dc5cda7898c2db540 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 43/61] fix: keep the precision of the locations when padding
 quantiles of a lower precision

---
 src/qp/quant_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 43afe10..40598d0 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -56,7 +56,7 @@ def pad_quantiles(quants, locs):
     if n_out == n_vals:
         return quants, locs
     quants_out = np.zeros((n_out), quants.dtype)
-    locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
+    locs_out = np.zeros((locs.shape[0], n_out), np.result_type(quants, locs))
     quants_out[offset_lo : n_vals + offset_lo] = quants
     locs_out[:, offset_lo : n_vals + offset_lo] = locs
     if pad_lo:
-- 
2.43.0


From 094d1feade2451deec690194f9e38e761ed8dffb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 44/61] fix: evaluate histograms with a single bin and their
 own bins in every layout

---
 src/qp/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 8a2e245..9ad0a2a 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -422,9 +422,9 @@ def evaluate_hist_multi_x_multi_y_product(
         idx, mask = get_bin_indices(bins_flat, x)
         delta = x - bins_flat[idx]
         if derivs is None:
-            return np.where(mask, np.squeeze(vals[rv])[idx], 0).flatten()
+            return np.where(mask, vals[rv].flatten()[idx], 0).flatten()
         return np.where(
-            mask, np.squeeze(vals[rv])[idx] + delta * np.squeeze(derivs[rv])[idx], 0
+            mask, vals[rv].flatten()[idx] + delta * derivs[rv].flatten()[idx], 0
         )
 
     vv = np.vectorize(evaluate_row, signature="(1)->(%i)" % (x.size))
@@ -460,9 +460,9 @@ def evaluate_hist_multi_x_multi_y_2d(
         idx, mask = get_bin_indices(flat_bins, xv)
         delta = xv - flat_bins[idx]
         if derivs is None:
-            return np.where(mask, np.squeeze(vals[rv])[idx], 0).flatten()
+            return np.where(mask, vals[rv].flatten()[idx], 0).flatten()
         return np.where(
-            mask, np.squeeze(vals[rv])[idx] + delta * np.squeeze(derivs[rv])[idx], 0
+            mask, vals[rv].flatten()[idx] + delta * derivs[rv].flatten()[idx], 0
         ).flatten()
 
     vv = np.vectorize(evaluate_row, signature="(1),(%i)->(%i)" % (nx, nx))
-- 
2.43.0


From ebe5d3a7ac9dfe9937c3ff54d7eb89a3e164306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 45/61] fix: draw one curve per PDF when several PDFs, or a
 histogram with one bin, are plotted

---
 src/qp/plotting.py   | 29 +++++++++++++++++++----------
 src/qp/spline_pdf.py |  2 +-
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 0bff493..a1652ac 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -105,7 +105,8 @@ def plot_pdf_on_axes(axes, pdf, xvals, **kwargs):
     axes : The axes the data are plotted on
     """
     yvals = pdf.pdf(xvals)
-    axes.plot(np.squeeze(xvals), np.squeeze(yvals), **kwargs)
+    # transpose, matplotlib draws one curve per column
+    axes.plot(np.squeeze(xvals).T, np.squeeze(yvals).T, **kwargs)
     return axes
 
 
@@ -181,7 +182,14 @@ def plot_pdf_quantiles_on_axes(axes, xvals, yvals, quantiles, **kwargs):
         **kwargs,
     )
     kwargs.setdefault("label", "Quantile Interpolated PDF")
-    axes.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["quantiles"], **kwargs)
+    axes.plot(
+        xvals,
+        np.transpose(yvals),
+        lw=2.0,
+        alpha=1.0,
+        linestyle=STYLES["quantiles"],
+        **kwargs,
+    )
     return axes
 
 
@@ -218,14 +226,15 @@ def plot_pdf_histogram_on_axes(axes, hist, **kwargs):
     )
     bin_centers = (hist[0][0:-1] + hist[0][1:]) / 2.0
     kwargs.setdefault("label", "Histogram Interpolated PDF")
-    axes.hist(
-        bin_centers,
-        bins=hist[0],
-        weights=np.squeeze(hist[1]),
-        lw=None,
-        alpha=1.0,
-        **kwargs,
-    )
+    for weights in np.reshape(hist[1], (-1, np.size(bin_centers))):
+        axes.hist(
+            bin_centers,
+            bins=hist[0],
+            weights=weights,
+            lw=None,
+            alpha=1.0,
+            **kwargs,
+        )
     return axes
 
 
diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index d61d6c2..fd42034 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -307,7 +307,7 @@ class spline_gen(Pdf_rows_gen):
         For a spline this shows the spline knots
         """
         axes, _, kw = get_axes_and_xlims(**kwargs)
-        xvals = pdf.dist.splx[pdf.kwds["row"]]
+        xvals = pdf.dist.splx[np.squeeze(pdf.kwds["row"])]
         return plot_pdf_on_axes(axes, pdf, xvals, **kw)
 
     @classmethod
-- 
2.43.0


From 748f9dc6f8a6c750fa362a3d658f23f1b11166dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 46/61] fix: draw the pdf of the samples on the axes that were
 given, with as many points as asked for

---
 src/qp/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index a1652ac..76f090c 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -260,15 +260,15 @@ def plot_pdf_samples_on_axes(axes, pdf, samples, **kwargs):
     """
     kwargs.setdefault("label", "Samples")
     kwargs.setdefault("color", COLORS["samples"])
+    npoints = kwargs.pop("npoints", 101)
     axes.scatter(
         samples, np.zeros(np.shape(samples)), marker="|", s=100, alpha=0.75, **kwargs
     )
-    npoints = kwargs.pop("npoints", 101)
     xlim = axes.get_xlim()
     xvals = np.linspace(xlim[0], xlim[1], npoints)
     yvals = np.squeeze(pdf.pdf(xvals))
     kwargs.setdefault("label", "Samples Interpolated PDF")
-    plt.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
+    axes.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
     return axes
 
 
-- 
2.43.0


From cfb96e90e341ae7f08e91f037884cbe3c598c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 47/61] fix: accept the axis labels and the number of points
 that plots document

---
 src/qp/plotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 76f090c..93bba3d 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -75,7 +75,8 @@ def get_axes_and_xlims(**kwargs):
     if axes is None:
         if xlim is None:  # pragma: no cover
             raise ValueError("Either xlim or axes must be provided")
-        _, axes = make_figure_axes(xlim, **kwargs)
+        labels = {key: kwargs.pop(key) for key in ("xlabel", "ylabel") if key in kwargs}
+        _, axes = make_figure_axes(xlim, **labels)
     else:
         if xlim is not None:  # pragma: no cover
             raise ValueError("Only one of xlim and axes should be provided")
@@ -139,6 +140,7 @@ def plot_dist_pdf(pdf, **kwargs):
     """
     axes, xlim, kw = get_axes_and_xlims(**kwargs)
     npoints = kw.pop("npts", 101)
+    npoints = kw.pop("npoints", npoints)
     xvals = np.linspace(xlim[0], xlim[1], npoints)
     return plot_pdf_on_axes(axes, pdf, xvals, **kw)
 
-- 
2.43.0


From f9b1efc628ad749bbf27f43b33c244fabec73911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 48/61] fix: convert data of other versions when iterating over
 a file, as read() does

---
 src/qp/factory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 19027ac..ffdae0b 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -262,11 +262,11 @@ class Factory(OrderedDict):
 
         metadata = io.readHdf5ToDict(filename, "meta")
         pdf_name = metadata.pop("pdf_name")[0].decode()
-        _pdf_version = metadata.pop("pdf_version")[0]
+        pdf_version = metadata.pop("pdf_version")[0]
         if pdf_name not in self:  # pragma: no cover
             raise KeyError("Class nameed %s is not in factory" % pdf_name)
         the_class = self[pdf_name]
-        # reader_convert = the_class.reader_method(pdf_version)
+        reader_convert = the_class.reader_method(pdf_version)
         ctor_func = the_class.creation_method(None)
 
         f, infp = io.readHdf5Group(filename, "data")
@@ -286,7 +286,8 @@ class Factory(OrderedDict):
                 ancil_data = OrderedDict()
                 for key, val in ancil_f.items():
                     ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
-            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
+            chunk = data if reader_convert is None else reader_convert(dict(data))
+            yield start, end, Ensemble(ctor_func, data=chunk, ancil=ancil_data)
         infp.close()
         if ancil_infp is not None:
             ancil_infp.close()
-- 
2.43.0


From d25fa19e04ad498946f599b777a2907079a43da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 49/61] fix: return the requested grid from gridded() when
 several threads ask for different ones

---
 src/qp/ensemble.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 077483e..1b3c05a 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -345,16 +345,19 @@ class Ensemble:
         """
         # The PDF constructor of a quant distribution can be changed in place
         pdf_constructor = getattr(self._gen_obj, "pdf_constructor_name", None)
+        # Other threads may replace the cache meanwhile
+        gridded = self._gridded
         if (
-            self._gridded is None
-            or not np.array_equal(self._gridded[0], grid)
+            gridded is None
+            or not np.array_equal(gridded[0], grid)
             or pdf_constructor != self._gridded_constructor
         ):
-            self._gridded_constructor = pdf_constructor
             # Keep a copy of the grid, the caller is free to modify theirs
-            self._gridded = (np.array(grid), self.pdf(grid))
+            gridded = (np.array(grid), self.pdf(grid))
+            self._gridded = gridded
+            self._gridded_constructor = pdf_constructor
         # Return copies, the caller is free to modify those too
-        return tuple(np.copy(arr) for arr in self._gridded)
+        return tuple(np.copy(arr) for arr in gridded)
 
     def write_to(self, filename):
         """Save this ensemble to a file
-- 
2.43.0


From 2aaf7579e2503cc1027e3d5a784115a2d034aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:06 +0000
Subject: [PATCH 50/61] fix: evaluate quantile ensembles correctly from several
 threads at once

---
 .../dual_spline_average.py                      | 17 +++++++++--------
 .../piecewise_constant.py                       | 12 ++++++++----
 .../piecewise_linear.py                         |  5 ++++-
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/qp/quantile_pdf_constructors/dual_spline_average.py b/src/qp/quantile_pdf_constructors/dual_spline_average.py
index 1431ae3..c07e457 100644
--- a/src/qp/quantile_pdf_constructors/dual_spline_average.py
+++ b/src/qp/quantile_pdf_constructors/dual_spline_average.py
@@ -59,7 +59,7 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         """
 
         # Prepare an empty container for the output
-        self._p_of_zs = np.zeros(self._locations.shape)
+        p_of_zs = np.zeros(self._locations.shape)
 
         # Prepare an all-zero list, used in the step-wise calculation to prevent negative values
         zeros_for_comparison = np.zeros(self._locations.shape[0])
@@ -68,11 +68,11 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         first_term = 2 * np.diff(self._quantiles) / np.diff(self._locations)
 
         # Perform the step-wise calculation for all distributions simultaneously
-        for i in range(1, np.shape(self._p_of_zs)[-1]):
-            self._p_of_zs[:,i] = np.maximum(zeros_for_comparison, first_term[:,i-1] - self._p_of_zs[:,i-1])
+        for i in range(1, np.shape(p_of_zs)[-1]):
+            p_of_zs[:,i] = np.maximum(zeros_for_comparison, first_term[:,i-1] - p_of_zs[:,i-1])
 
-        # Set any negative values to 0.
-        self._p_of_zs = np.maximum(np.zeros(self._locations.shape), self._p_of_zs)
+        # Set any negative values to 0. Store the result only when it is complete, other threads may use it
+        self._p_of_zs = np.maximum(np.zeros(self._locations.shape), p_of_zs)
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """This method utilizes intermediate calculations from `prepare_constructor`
@@ -130,11 +130,12 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         )
 
         # Evaluate all the splines at the input grid values
-        self.y1 = np.asarray([func_1(grid) for func_1 in f1])
-        self.y2 = np.asarray([func_2(grid) for func_2 in f2])
+        y1 = np.asarray([func_1(grid) for func_1 in f1])
+        y2 = np.asarray([func_2(grid) for func_2 in f2])
+        self.y1, self.y2 = y1, y2
 
         # Return the average of the spline values at each of the evaluated points.
-        return (self.y1 + self.y2) / 2
+        return (y1 + y2) / 2
 
     def debug(self):
         """This is a debugging utility that is meant to return intermediate calculation values
diff --git a/src/qp/quantile_pdf_constructors/piecewise_constant.py b/src/qp/quantile_pdf_constructors/piecewise_constant.py
index 9b85dc2..a3558c8 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_constant.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_constant.py
@@ -35,17 +35,21 @@ class PiecewiseConstant(AbstractQuantilePdfConstructor):
         not a central derivative.
         """
 
-        self._cdf_derivatives = np.zeros(self._locations.shape)
-        self._cdf_2nd_derivatives = np.zeros(self._locations.shape)
+        cdf_derivatives = np.zeros(self._locations.shape)
+        cdf_2nd_derivatives = np.zeros(self._locations.shape)
 
-        self._cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
+        cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
           (self._locations[:,1:] - self._locations[:,0:-1])
-        self._cdf_2nd_derivatives[:,0:-1] = self._cdf_derivatives[:,1:]  - self._cdf_derivatives[:,0:-1]
+        cdf_2nd_derivatives[:,0:-1] = cdf_derivatives[:,1:]  - cdf_derivatives[:,0:-1]
 
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
         # This offset is necessary to correctly place the _cdf_derivs because we are using a
         # forward difference to calculate the numerical derivative.
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
+        self._cdf_2nd_derivatives = cdf_2nd_derivatives
+
+        # Set this last, other threads take it as the sign that everything is ready
+        self._cdf_derivatives = cdf_derivatives
 
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
diff --git a/src/qp/quantile_pdf_constructors/piecewise_linear.py b/src/qp/quantile_pdf_constructors/piecewise_linear.py
index 45421a6..50c4382 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_linear.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_linear.py
@@ -34,7 +34,7 @@ class PiecewiseLinear(AbstractQuantilePdfConstructor):
         not a central derivative.
         """
         # calculate the first derivative using a forward difference.
-        self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[0:-1])/\
+        cdf_derivatives = (self._quantiles[1:] - self._quantiles[0:-1])/\
           (self._locations[:,1:] - self._locations[:,0:-1])
 
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
@@ -42,6 +42,9 @@ class PiecewiseLinear(AbstractQuantilePdfConstructor):
         # forward difference to calculate the numerical derivative.
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
 
+        # Set this last, other threads take it as the sign that everything is ready
+        self._cdf_derivatives = cdf_derivatives
+
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """Take the intermediate calculations and return the interpolated y values
         given the input grid.
-- 
2.43.0


From 4e19d87963d202ef77e9f99129a205f8b369590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 51/61] fix: compute cumulative values completely before other
 threads can see them

---
 src/qp/hist_pdf.py          |  7 ++++---
 src/qp/interp_pdf.py        | 14 ++++++++------
 src/qp/packed_interp_pdf.py |  7 ++++---
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 2f1dc04..9e0f123 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -90,9 +90,10 @@ class hist_gen(Pdf_rows_gen):
     def _compute_cdfs(self):
         copy_shape = np.array(self._hpdfs.shape)
         copy_shape[-1] += 1
-        self._hcdfs = np.ndarray(copy_shape)
-        self._hcdfs[:, 0] = 0.0
-        self._hcdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
+        hcdfs = np.ndarray(copy_shape)
+        hcdfs[:, 0] = 0.0
+        hcdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
+        self._hcdfs = hcdfs
 
     @property
     def bins(self):
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index f57d116..360e18a 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -97,14 +97,15 @@ class interp_gen(Pdf_rows_gen):
 
     def _compute_ycumul(self):
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
+        ycumul[:, 1:] = np.cumsum(
             (self._xvals[1:] - self._xvals[:-1])
             * 0.5
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
+        self._ycumul = ycumul
 
     @property
     def xvals(self):
@@ -292,14 +293,15 @@ class interp_irregular_gen(Pdf_rows_gen):
 
     def _compute_ycumul(self):
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.0
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.0
+        ycumul[:, 1:] = np.cumsum(
             (self._xvals[:, 1:] - self._xvals[:, :-1])
             * 0.5
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
+        self._ycumul = ycumul
 
     @property
     def xvals(self):
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 728bbdd..5319583 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -126,14 +126,15 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         if self._yvals is None:
             self._unpack()
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
+        ycumul[:, 1:] = np.cumsum(
             (self._xvals[1:] - self._xvals[:-1])
             * 0.5
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
+        self._ycumul = ycumul
 
     def _unpack(self):
         self._yvals = unpack_array(
-- 
2.43.0


From f4d0a29b0063df94cd98d718e800837310ee5781 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 52/61] fix: take the mode of each PDF when PDFs are arranged
 along several axes

---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 1b3c05a..8d8cf11 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -324,7 +324,7 @@ class Ensemble:
         consistent with mean, median, and other point estimates
         """
         new_grid, griddata = self.gridded(grid)
-        return np.expand_dims(new_grid[np.argmax(griddata, axis=1)], -1)
+        return np.expand_dims(new_grid[np.argmax(griddata, axis=-1)], -1)
 
     def gridded(self, grid):
         """Build, cache are return the PDF values at grid points
-- 
2.43.0


From 08e2f296cc8af279106dc6b3f92f37b3e4694ece Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 53/61] fix: sample PDFs that are arranged along several axes

---
 src/qp/ensemble.py | 2 +-
 src/qp/pdf_gen.py  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 8d8cf11..36dfb4e 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -512,7 +512,7 @@ class Ensemble:
         -------
         """
         return self._frozen.rvs(
-            size=(self._frozen.npdf, 1 if size is None else size),
+            size=(*np.atleast_1d(self._frozen.shape), 1 if size is None else size),
             random_state=random_state
         )
 
diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index 5306948..51b9dd8 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -312,6 +312,10 @@ class Pdf_rows_gen(rv_continuous, Pdf_gen):
     def _rvs(self, *args, size=None, random_state=None):
         # Use basic inverse cdf algorithm for RV generation as default.
         U = random_state.uniform(size=size)
+        if np.ndim(U) > 2:
+            # the evaluation handles one axis of PDFs and one of points
+            U = U.reshape(-1, np.shape(U)[-1])
+            args = [np.reshape(arg, (-1, 1)) for arg in args]
         Y = self._ppf(U, *args)
         if size is None:  # pragma: no cover
             return Y
-- 
2.43.0


From 73efb6c4f2051de5e66d346161b0b2ebcdc11f96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 54/61] fix: pack the values of PDFs that are arranged along
 several axes

---
 src/qp/packing_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index dd15a86..353258f 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -26,7 +26,7 @@ def linear_pack_from_rowmax(input_array):
     row_max : array_like
         The max for each row, need to unpack the array
     """
-    row_max = np.expand_dims(input_array.max(axis=1), -1)
+    row_max = np.expand_dims(input_array.max(axis=-1), -1)
     return np.round(255 * input_array / row_max).astype(np.uint8), row_max
 
 
@@ -71,7 +71,7 @@ def log_pack_from_rowmax(input_array, log_floor=-3.0):
     """
     neg_log_floor = -1.0 * log_floor
     epsilon = np.power(10.0, 3 * log_floor)
-    row_max = np.expand_dims(input_array.max(axis=1), -1)
+    row_max = np.expand_dims(input_array.max(axis=-1), -1)
     return (
         np.round(
             255
-- 
2.43.0


From 5f7e6d7f69a88ea271caf0c1cd5f4dcaf1caf640 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:44 +0000
Subject: [PATCH 55/61] fix: fit a mixture to each PDF when PDFs are arranged
 along several axes

---
 src/qp/conversion_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 7c89295..58951b7 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -240,7 +240,9 @@ def extract_mixmod_fit_samples(in_dist, **kwargs):
     vv = np.vectorize(mixmod_helper, signature="(%i)->(3,%i)" % (n_sample, n_comps))
     fit_vals = vv(samples)
     return dict(
-        weights=fit_vals[:, 0, :], means=fit_vals[:, 1, :], stds=fit_vals[:, 2, :]
+        weights=fit_vals[..., 0, :],
+        means=fit_vals[..., 1, :],
+        stds=fit_vals[..., 2, :],
     )
 
 
-- 
2.43.0


From 53f72741eefe3b143964eed1742c5ac5dd5f28c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:29 +0000
Subject: [PATCH 56/61] fix: compare metadata held in masked arrays when
 ensembles are put together

---
 src/qp/dict_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/dict_utils.py b/src/qp/dict_utils.py
index a8da115..7081907 100644
--- a/src/qp/dict_utils.py
+++ b/src/qp/dict_utils.py
@@ -204,7 +204,7 @@ def compare_two_dicts(d1, d2):
                 return False
         except ValueError:
             # compare the values on their own scale, which depends on their units
-            scale = np.max(np.abs(v), initial=0.0)
+            scale = np.max(np.abs(np.asarray(v)), initial=0.0)
             if not np.allclose(v, vv, atol=1e-8 * scale):  # pragma: no cover
                 return False
     return True
-- 
2.43.0


From c48ac82e5d9d5891bdd4f356fcc372467c338b53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:04 +0000
Subject: [PATCH 57/61] fix: pack and unpack 8 and 16 bit integers without
 overflow

---
 src/qp/packing_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index 353258f..b0e947a 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -27,7 +27,7 @@ def linear_pack_from_rowmax(input_array):
         The max for each row, need to unpack the array
     """
     row_max = np.expand_dims(input_array.max(axis=-1), -1)
-    return np.round(255 * input_array / row_max).astype(np.uint8), row_max
+    return np.round(255.0 * input_array / row_max).astype(np.uint8), row_max
 
 
 def linear_unpack_from_rowmax(packed_array, row_max):
@@ -46,7 +46,7 @@ def linear_unpack_from_rowmax(packed_array, row_max):
     unpacked_array : array_like
         The unpacked values
     """
-    unpacked_array = row_max * packed_array / 255.0
+    unpacked_array = row_max * (packed_array / 255.0)
     return unpacked_array
 
 
-- 
2.43.0


From d93c4ca66fc4e3a8c0ff5aabc915dac63a57935b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:04 +0000
Subject: [PATCH 58/61] fix: do not let sums and differences of narrow integers
 overflow in distributions

---
 src/qp/hist_pdf.py          |  3 ++-
 src/qp/interp_pdf.py        |  9 +++++----
 src/qp/mixmod_pdf.py        |  6 +++---
 src/qp/packed_interp_pdf.py |  4 ++--
 src/qp/quant_pdf.py         |  4 ++--
 src/qp/utils.py             | 17 +++++++++++++++++
 6 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 9e0f123..491e77d 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -11,6 +11,7 @@ from qp.conversion_funcs import extract_hist_values, extract_hist_samples
 from qp.plotting import get_axes_and_xlims, plot_pdf_histogram_on_axes
 from qp.utils import (
     evaluate_hist_x_multi_y,
+    integers_to_floats,
     interpolate_multi_x_y,
     interpolate_x_multi_y,
     reshape_to_pdf_size,
@@ -62,7 +63,7 @@ class hist_gen(Pdf_rows_gen):
         pdfs : array_like
           The array containing the (npdf, n) bin values
         """
-        self._hbins = np.asarray(bins)
+        self._hbins = integers_to_floats(np.asarray(bins))
         self._nbins = self._hbins.size - 1
         self._hbin_widths = self._hbins[1:] - self._hbins[:-1]
         self._xmin = self._hbins[0]
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 360e18a..64d962b 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -11,6 +11,7 @@ from qp.pdf_gen import Pdf_rows_gen
 from qp.plotting import get_axes_and_xlims, plot_pdf_on_axes
 from qp.test_data import TEST_XVALS, XARRAY, XBINS, YARRAY
 from qp.utils import (
+    integers_to_floats,
     interpolate_multi_x_multi_y,
     interpolate_multi_x_y,
     interpolate_x_multi_y,
@@ -74,14 +75,14 @@ class interp_gen(Pdf_rows_gen):
                 "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)"
                 % (np.size(xvals), np.shape(yvals)[-1])
             )
-        self._xvals = np.asarray(xvals)
+        self._xvals = integers_to_floats(np.asarray(xvals))
 
         # Set support
         self._xmin = self._xvals[0]
         self._xmax = self._xvals[-1]
         kwargs["shape"] = np.shape(yvals)[:-1]
 
-        self._yvals = reshape_to_pdf_size(yvals, -1)
+        self._yvals = reshape_to_pdf_size(integers_to_floats(yvals), -1)
 
         check_input = kwargs.pop("check_input", True)
         if check_input:
@@ -276,14 +277,14 @@ class interp_irregular_gen(Pdf_rows_gen):
                 "Shape of xvals (%s) != shape of yvals (%s)"
                 % (np.shape(xvals), np.shape(yvals))
             )
-        self._xvals = reshape_to_pdf_size(xvals, -1)
+        self._xvals = reshape_to_pdf_size(integers_to_floats(xvals), -1)
 
         self._xmin = np.min(self._xvals)
         self._xmax = np.max(self._xvals)
         kwargs["shape"] = np.shape(xvals)[:-1]
 
         check_input = kwargs.pop("check_input", True)
-        self._yvals = reshape_to_pdf_size(yvals, -1)
+        self._yvals = reshape_to_pdf_size(integers_to_floats(yvals), -1)
         if check_input:
             self._yvals = normalize_interp1d(self._xvals, self._yvals)
         self._ycumul = None
diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index c1492c6..5d4baaa 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import integers_to_floats, interpolate_multi_x_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -54,8 +54,8 @@ class mixmod_gen(Pdf_rows_gen):
             If not, the weights are interpreted as relative weights.
         """
         self._scipy_version_warning()
-        self._means = reshape_to_pdf_size(means, -1)
-        self._stds = reshape_to_pdf_size(stds, -1)
+        self._means = reshape_to_pdf_size(integers_to_floats(means), -1)
+        self._stds = reshape_to_pdf_size(integers_to_floats(stds), -1)
         self._weights = reshape_to_pdf_size(weights, -1)
         kwargs["shape"] = means.shape[:-1]
         self._ncomps = means.shape[-1]
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 5319583..2db71b9 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -10,7 +10,7 @@ from qp.packing_utils import PackingType, pack_array, unpack_array
 from qp.pdf_gen import Pdf_rows_gen
 from qp.plotting import get_axes_and_xlims, plot_pdf_on_axes
 from qp.test_data import TEST_XVALS, XBINS, YARRAY
-from qp.utils import interpolate_multi_x_y, interpolate_x_multi_y, reshape_to_pdf_size
+from qp.utils import integers_to_floats, interpolate_multi_x_y, interpolate_x_multi_y, reshape_to_pdf_size
 
 
 def extract_and_pack_vals_at_x(in_dist, **kwargs):
@@ -91,7 +91,7 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
                 "Shape of xbins in xvals (%s) != shape of xbins in yvals (%s)"
                 % (np.size(xvals), np.shape(ypacked)[-1])
             )
-        self._xvals = np.asarray(xvals)
+        self._xvals = integers_to_floats(np.asarray(xvals))
 
         # Set support
         self._xmin = self._xvals[0]
diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 40598d0..f1809c7 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -18,7 +18,7 @@ from qp.quantile_pdf_constructors import (
     PiecewiseLinear,
 )
 from qp.test_data import QLOCS, QUANTS, TEST_XVALS
-from qp.utils import interpolate_multi_x_y, interpolate_x_multi_y, reshape_to_pdf_size
+from qp.utils import integers_to_floats, interpolate_multi_x_y, interpolate_x_multi_y, reshape_to_pdf_size
 
 epsilon = sys.float_info.epsilon
 
@@ -115,7 +115,7 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         self._xmin = np.min(locs)
         self._xmax = np.max(locs)
 
-        locs_2d = reshape_to_pdf_size(locs, -1)
+        locs_2d = reshape_to_pdf_size(integers_to_floats(locs), -1)
         self._check_input = kwargs.pop("check_input", True)
         if self._check_input:
             quants, locs_2d = pad_quantiles(quants, locs_2d)
diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9ad0a2a..d2a15cf 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -876,6 +876,23 @@ def profile(x_data, y_data, x_bins, std=True):
     return vals, errs
 
 
+def integers_to_floats(vals):
+    """Convert integers to floats, as their sums and differences may overflow
+
+    Parameters
+    ----------
+    vals : `ndarray`
+        The input array
+
+    Returns
+    -------
+    out : `ndarray`
+        The same values, arrays of floats are returned unchanged
+    """
+    vals = np.asanyarray(vals)
+    return vals.astype(float) if vals.dtype.kind in "iub" else vals
+
+
 def reshape_to_pdf_size(vals, split_dim):
     """Reshape an array to match the number of PDFs in a distribution
 
-- 
2.43.0


From 39a28977092b28ffe5376976018022667b3e2af4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:44 +0000
Subject: [PATCH 59/61] fix: do not let rounding raise cdf() above one

---
 src/qp/hist_pdf.py   | 3 ++-
 src/qp/interp_pdf.py | 3 ++-
 src/qp/mixmod_pdf.py | 4 +++-
 src/qp/spline_pdf.py | 3 ++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 491e77d..60d1e3b 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -94,7 +94,8 @@ class hist_gen(Pdf_rows_gen):
         hcdfs = np.ndarray(copy_shape)
         hcdfs[:, 0] = 0.0
         hcdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
-        self._hcdfs = hcdfs
+        # the sums may exceed one by a rounding error
+        self._hcdfs = np.minimum(hcdfs, 1.0)
 
     @property
     def bins(self):
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 64d962b..5cb2d8c 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -302,7 +302,8 @@ class interp_irregular_gen(Pdf_rows_gen):
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
-        self._ycumul = ycumul
+        # the sums may exceed one by a rounding error
+        self._ycumul = np.minimum(ycumul, 1.0)
 
     @property
     def xvals(self):
diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 5d4baaa..8c792bd 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -111,13 +111,15 @@ class mixmod_gen(Pdf_rows_gen):
         row = np.atleast_1d(row)
         if np.ndim(x) > 1:  # pragma: no cover
             x = np.expand_dims(x, -2)
-        return (
+        vals = (
             self.weights[row].swapaxes(-2, -1)
             * sps.norm(
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).cdf(x)
         ).sum(axis=-2)
+        # the sums may exceed one by a rounding error
+        return np.minimum(vals, 1.0)
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index fd42034..4e967e2 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -268,7 +268,8 @@ class spline_gen(Pdf_rows_gen):
 
         with errstate(all="ignore"):
             vv = np.vectorize(cdf_row, otypes=[float])
-        return vv(x, row).ravel()
+        # the normalization is numerical, the integrals may exceed one by its error
+        return np.minimum(vv(x, row).ravel(), 1.0)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 3a6375441ec14c3cba49220d72c594ea1acd770a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:07 +0000
Subject: [PATCH 60/61] fix: allocate for the number of PDFs asked for in
 splines

---
 src/qp/spline_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index 4e967e2..b0e1283 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -298,8 +298,8 @@ class spline_gen(Pdf_rows_gen):
         if "splx" not in kwargs:  # pragma: no cover
             raise ValueError("required argument splx not included in kwargs")
 
-        shape = np.shape(kwargs["splx"])
-        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((shape[0], 1), "i4"))
+        shape = (npdf, np.shape(kwargs["splx"])[-1])
+        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((npdf, 1), "i4"))
 
     @classmethod
     def plot_native(cls, pdf, **kwargs):
-- 
2.43.0


From 41409e27164fe57f56e0ff9c79c468ecb430a196 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:07 +0000
Subject: [PATCH 61/61] fix: take the grid from the metadata of the sparse
 representation in extract_xy_sparse()

---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 58951b7..3e9f2c9 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -412,7 +412,7 @@ def extract_xy_sparse(in_dist, **kwargs):  # pragma: no cover
     # retrieve the weighted array of basis functions for each object
     pdf_y = A[:, basis_indices] * weights
     # normalize and sum the weighted pdfs
-    x = sparse_meta["z"]
+    x = sparse_meta["xvals"]
     y = pdf_y.sum(axis=-1)
     norms = sciint.trapezoid(y.T, x)
     y /= norms
-- 
2.43.0


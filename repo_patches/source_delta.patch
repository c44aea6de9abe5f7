From 48be6890e1b460bd6d090967c88296a8a2c1f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:24 +0000
Subject: [PATCH 01/16] fix: cover point clouds that have zero extent along a
 coordinate

A cloud lying in an axis-parallel hyperplane (or a single point) got zero
divisions along that axis, hence a cover with no hypercubes at all, and
create_MV_ss returned an empty barcode without any error.
---
 src/permaviss/covers/cubical_cover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 159c4ae..c0ecec6 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -124,7 +124,9 @@ def generate_cover(max_div, overlap, point_cloud):
     div = []  # list containing no of divisions per dimension
     pos = []  # list containing current position
     for d in range(dim):
-        div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        # at least one division, also along directions of zero extent
+        extent = max_corner[d] - min_corner[d]
+        div.append(max(1, math.ceil(extent / side)) if side > 0 else 1)
         number_hypercubes *= div[d]  # compute total number of hypercubes
         pos.append(0)  # initialize position list to zero
 
-- 
2.43.0


From a679a1c1e3621ae69de4ef3e63bf11c5d4a485dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:24 +0000
Subject: [PATCH 02/16] fix: keep persistent_homology[i] aligned with dimension
 i

Dimensions without any bar were skipped, so that e.g. for an octahedron the
two dimensional bar was returned as persistent_homology[1].
---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 2455bc3..deeda3a 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -274,6 +274,10 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             PH, _ = image_kernel(
                 diagonal_basis, direct_sum_basis, diag_diff, MV_ss.p)
             MV_ss.persistent_homology.append(PH)
+        else:
+            # keep the i entry for dimension i, also when it is trivial
+            MV_ss.order_diagonal_basis.append(np.array([], dtype=int))
+            MV_ss.persistent_homology.append(barcode_basis([]))
         # end if
     # end for
     print("Total PerMaViss time:{}".format(time.time()-start))
-- 
2.43.0


From 1afb929525e9edebbf46cc08284e3a75cf86fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:24 +0000
Subject: [PATCH 03/16] fix: spectral sequences with different primes must not
 interfere

The modulus used for negating lifts was a class attribute that every new
spectral sequence overwrote, so a second computation (another thread, or
another session advanced step by step) with a different prime corrupted the
extension coefficients of the first.
---
 src/permaviss/spectral_sequence/local_chains_class.py  | 10 +++++++---
 .../spectral_sequence/spectral_sequence_class.py       |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/spectral_sequence/local_chains_class.py b/src/permaviss/spectral_sequence/local_chains_class.py
index 44faadc..38a34f0 100644
--- a/src/permaviss/spectral_sequence/local_chains_class.py
+++ b/src/permaviss/spectral_sequence/local_chains_class.py
@@ -141,12 +141,16 @@ class local_chains(object):
     ###########################################################################
     # minus
 
-    def minus(self):
-        """ Minus all local coordinates of self.
+    def minus(self, p=None):
+        """ Minus all local coordinates of self, modulo p.
+
+        Without p, the modulus of the last created spectral sequence is used.
         """
+        if p is None:
+            p = self.p
         for idx, coordinates in enumerate(self.coord):
             if len(coordinates) > 0:
-                self.coord[idx] = -coordinates % self.p
+                self.coord[idx] = -coordinates % p
 
     ###########################################################################
     # local_sums
diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 1209417..f392b1d 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1160,7 +1160,7 @@ class spectral_sequence(object):
                                                      death_radii)
 
             # correct sign of lift_coord and trivialise references
-            lift_coord.minus()
+            lift_coord.minus(self.p)
             # end for
             # if lift to first page is nonzero, raise an error
             if np.any(Betas):
-- 
2.43.0


From b374acde95d66753ec702314ba272931365a8e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:24 +0000
Subject: [PATCH 04/16] fix: RecursionError when reducing columns modulo larger
 primes

Each pivot was cancelled by adding the previous column once per recursive
call, up to p - 1 calls per pivot; already p = 101 exceeded the recursion
limit on clouds of 20 points.
---
 .../persistence_algebra/image_kernel.py       | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 5e27f46..923c228 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -271,21 +271,17 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
 
 def pivot_check_reduce(M, active_rows, col_idx, pivots_prev, p, T=None):
     new_pivot = index_pivot(M[active_rows, col_idx] % p)
-    if new_pivot != -1:
+    while new_pivot != -1:
         new_pivot = int(active_rows[new_pivot])
-        if (new_pivot != -1) and (new_pivot in pivots_prev):
-            prev_idx = list(pivots_prev).index(new_pivot)
-            M[:, col_idx] = add_mod_c(
-                inv_mod_p(M[new_pivot, prev_idx], p) * M[:, prev_idx],
-                M[:, col_idx], p)
-            if np.any(T):
-                T[:, col_idx] = add_mod_c(
-                    inv_mod_p(M[new_pivot, prev_idx], p) * T[:, prev_idx],
-                    T[:, col_idx], p)
-            # end if not None
-            new_pivot = pivot_check_reduce(
-                M, active_rows, col_idx, pivots_prev, p, T)
-        # end if
-    # end if
+        if new_pivot not in pivots_prev:
+            break
+        prev_idx = list(pivots_prev).index(new_pivot)
+        q = -M[new_pivot, col_idx] * inv_mod_p(M[new_pivot, prev_idx], p) % p
+        M[:, col_idx] = add_mod_c(q * M[:, prev_idx], M[:, col_idx], p)
+        if np.any(T):
+            T[:, col_idx] = add_mod_c(q * T[:, prev_idx], T[:, col_idx], p)
+        # end if not None
+        new_pivot = index_pivot(M[active_rows, col_idx] % p)
+    # end while
     return int(new_pivot)
 # end def
-- 
2.43.0


From 72f6dc39536c8288782efc90c6c58e330412ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:22 +0000
Subject: [PATCH 05/16] fix: quotient by the image when a differential has a
 trivial codomain

module_persistence_homology returned Base[d] itself as homology when
Base[d-1] is trivial, forgetting the image of the incoming differential
(and the expression of classes on the previous page).
---
 .../persistence_algebra/module_persistence_homology.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/persistence_algebra/module_persistence_homology.py b/src/permaviss/persistence_algebra/module_persistence_homology.py
index 8326975..74128b6 100644
--- a/src/permaviss/persistence_algebra/module_persistence_homology.py
+++ b/src/permaviss/persistence_algebra/module_persistence_homology.py
@@ -101,8 +101,12 @@ def module_persistence_homology(D, Base, p):
             Im[d-1] = barcode_basis([], Base[d-1])
             Hom[d] = barcode_basis([], Base[d])
         elif Base[d-1].dim == 0:
-            Im[d-1] = Base[d-1]
-            Hom[d] = Base[d]
+            # all the generators from Base[d] lie in the kernel
+            Im[d-1] = barcode_basis([], Base[d-1])
+            Ker = barcode_basis(
+                Base[d].barcode, Base[d], np.identity(Base[d].dim))
+            Ker.sort()
+            Hom[d] = quotient(Ker, Im[d], p)
         else:
             # compute barcode bases for image and kernel
             Im[d - 1], Ker, PreIm[d] = image_kernel(
-- 
2.43.0


From 186f2c13f8eb79be487e7774649565db8d57475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:22 +0000
Subject: [PATCH 06/16] fix: lift to a page whose homology vanishes but whose
 image does not

lift_to_page dropped the coefficients (Gammas) of page images whenever the
target homology was trivial, so that representatives were not corrected and
could not be lifted afterwards (RuntimeError).
---
 .../spectral_sequence/spectral_sequence_class.py    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index f392b1d..def6bcc 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -385,6 +385,9 @@ class spectral_sequence(object):
                 else:
                     Im_Hom = Hom.coordinates
                     barcode_col = Hom.barcode
+            elif Im.dim > 0:
+                Im_Hom = Im.coordinates
+                barcode_col = Im.barcode
             else:
                 Betas = np.array([])
                 Gammas = np.array([])
@@ -395,7 +398,8 @@ class spectral_sequence(object):
             barcode_col = np.append(barcode_col, Beta_barcode, axis=0)
             A = np.append(Im_Hom, Betas, axis=1)
             # barcodes of rows
-            barcode_row = self.Hom[k][n_dim][deg].prev_basis.barcode
+            prev_basis = Hom.prev_basis if Hom.dim > 0 else Im.prev_basis
+            barcode_row = prev_basis.barcode
             # gaussian reduction on matrix between persistence modules
             # order here barcode_row
             rows_basis = barcode_basis(barcode_row)
@@ -987,9 +991,10 @@ class spectral_sequence(object):
             Tdeg = Sdeg - target_page + 2
             preimage_reps = []
             # obtain preimage_coefficients from expressions in -Gammas
-            preimage_coefficients = np.matmul(
-                self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
-            )
+            if np.any(Gammas):
+                preimage_coefficients = np.matmul(
+                    self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
+                )
             # case of target_page is special due to local coordinates
             if np.any(Gammas) and target_page == 2:
                 prev = 0
-- 
2.43.0


From 5b1ad3cddaab64fa0673ce68d31378e06fe04538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:22 +0000
Subject: [PATCH 07/16] fix: keep vertical lifts on regions with trivial
 homology

Regions without homology classes may still carry boundaries which have to be
lifted; skipping them left gaps in the total complex representatives.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index def6bcc..b7c1eaf 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -539,7 +539,7 @@ class spectral_sequence(object):
         prev = self.cycle_dimensions[n_dim][deg][nerve_spx_index-1]
         next = self.cycle_dimensions[n_dim][deg][nerve_spx_index]
         # if trivial cover skip
-        if prev == next:
+        if prev == next and self.Im[0][n_dim][nerve_spx_index][deg].dim == 0:
             return
         # CECH DIFFERENTIAL
         generators, local_chains = self.cech_diff_local(
-- 
2.43.0


From 0a842a1f3c2f4743a2d4bf9e10da924c22c878ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:23 +0000
Subject: [PATCH 08/16] fix: add preimages from the right page to higher
 representatives

The representatives of the preimages live on page target_page - 1 (stored at
index target_page - 2), and its coefficients are expected as rows.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index b7c1eaf..07e86d0 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1015,9 +1015,9 @@ class spectral_sequence(object):
                     prev = next
                 # end for
             elif np.any(Gammas):
-                for chains in self.Hom_reps[target_page][Tn_dim][Tdeg]:
+                for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients))
+                        chains, preimage_coefficients.T))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
-- 
2.43.0


From 98d02e78432221e81336967c8eb6b07957def7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:23 +0000
Subject: [PATCH 09/16] fix: subtract total complex boundaries in the extension
 problem

When a class dies because of a differential, the extension algorithm
subtracted a representative of the image class, instead of the total complex
differential of its preimage. Both differ by a vertical boundary, whose lift
was lost: on some inputs the next entry was not a cycle (RuntimeError) and
in general extension coefficients would be wrong.
---
 .../spectral_sequence_class.py                | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 07e86d0..ac0556c 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1129,34 +1129,40 @@ class spectral_sequence(object):
                     raise(RuntimeError)
                 # MODIFY TOTAL COMPLEX REPS using GAMMAS
                 if np.any(Gammas):
-                    # compute coefficients of Gammas in 1st page
-                    image_classes = np.matmul(
-                        self.Im[target_page-1][Sn_dim][Sdeg].coordinates,
-                        -Gammas.T)
-                    # look for bars that might be already zero
+                    # position of the preimages of Gammas
+                    Tn_dim = Sn_dim + target_page - 1
+                    Tdeg = Sdeg - target_page + 2
+                    preimage_coefficients = np.matmul(
+                        self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T)
                     if target_page == 2:
-                        # obtain coefficients for gammas
-                        image_chains = local_chains(
-                            self.nerve_spx_number[Sn_dim])
+                        # preimages are classes on the first page
+                        preimage_chains = local_chains(
+                            self.nerve_spx_number[Tn_dim])
                         prev = 0
                         for nerv_idx, next in enumerate(self.cycle_dimensions[
-                                Sn_dim][Sdeg]):
+                                Tn_dim][Tdeg][:-1]):
                             if prev < next:
-                                image_chains.add_entry(
-                                    nerv_idx, range(np.size(Gammas, 0)),
+                                preimage_chains.add_entry(
+                                    nerv_idx,
+                                    np.array(range(np.size(Gammas, 0))),
                                     np.matmul(
-                                        image_classes[prev:next].T,
-                                        self.Hom[0][Sn_dim][nerv_idx][
-                                            Sdeg].coordinates.T)
+                                        self.Hom[0][Tn_dim][nerv_idx][
+                                            Tdeg].coordinates,
+                                        preimage_coefficients[prev:next]).T
                                 )
                             prev = next
                         # end for
                     else:
-                        image_chains = local_chains.sums(
-                            self.Hom_reps[target_page-2][Sn_dim][Sdeg][0],
-                            image_classes.T
+                        preimage_chains = local_chains.sums(
+                            self.Hom_reps[target_page-2][Tn_dim][Tdeg][
+                                target_page-2],
+                            preimage_coefficients.T
                         )
                     # end else
+                    # total complex differential of preimages. This is the
+                    # Cech differential of their last entry.
+                    image_chains = self.cech_diff(
+                        Sn_dim, Sdeg, preimage_chains)
                     chains += image_chains
                 # end if
             # end for
-- 
2.43.0


From 5d9f24db992e00deec67e40a404c9734ab359ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:14 +0000
Subject: [PATCH 10/16] fix: do not wait forever for a dead worker, nor leave
 workers behind

multiprocessing.Pool.map never returns when a worker process is killed (out
of memory, for example). Also, the pools were neither terminated when a task
raised an exception, nor joined after page 0.
---
 .../spectral_sequence/MV_spectral_seq.py      |  8 +---
 .../spectral_sequence_class.py                | 43 ++++++++++++++-----
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index deeda3a..00035be 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -7,7 +7,6 @@ import scipy.spatial.distance as dist
 
 import time
 
-from multiprocessing import Pool
 from functools import partial
 
 from ..covers import cubical_cover
@@ -21,7 +20,7 @@ from ..persistence_algebra.module_persistence_homology import (
      module_persistence_homology)
 from ..persistence_algebra.barcode_bases import barcode_basis
 
-from .spectral_sequence_class import spectral_sequence
+from .spectral_sequence_class import parallel_map, spectral_sequence
 
 
 def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
@@ -120,10 +119,7 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
                                               nerve_point_cloud,
                                               max_r, max_dim, p, n_dim)
 
-        workers_pool = Pool()
-        output = workers_pool.map(partial_persistent_homology,
-                                  range(n_spx_number))
-        workers_pool.close()
+        output = parallel_map(partial_persistent_homology, n_spx_number)
 
         MV_ss.add_output_first(output, n_dim)
 
diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index ac0556c..73f11b3 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -4,7 +4,7 @@
 
 import numpy as np
 
-from multiprocessing import Pool
+from concurrent.futures import ProcessPoolExecutor
 from functools import partial
 
 from ..simplicial_complexes.differentials import complex_differentials
@@ -15,6 +15,33 @@ from ..persistence_algebra.barcode_bases import barcode_basis
 from .local_chains_class import local_chains
 
 
+def parallel_map(function, size):
+    """ Evaluates `function` on `range(size)` using a pool of processes.
+
+    If a worker dies this raises BrokenProcessPool, whereas
+    `multiprocessing.Pool.map` would wait forever. No worker remains when this
+    function returns or raises.
+
+    Parameters
+    ----------
+    function : callable
+        Function to be evaluated, it takes an `int` as its only argument.
+    size : int
+        Number of evaluations.
+
+    Returns
+    -------
+    :obj:`list`
+        The `i` entry contains the result of `function(i)`.
+
+    """
+    # send a few tasks at once, `function` is pickled once per chunk
+    chunksize = 1 + size // 32
+    with ProcessPoolExecutor() as workers_pool:
+        return list(workers_pool.map(
+            function, range(size), chunksize=chunksize))
+
+
 class spectral_sequence(object):
     """Space and methods for Mayer-Vietoris spectral sequences
 
@@ -453,12 +480,9 @@ class spectral_sequence(object):
             partial_cech_diff_and_lift_local = partial(
                 self.cech_diff_and_lift_local, R, start_chains, n_dim - 1, deg)
             # map reduce local cech differential and lifts
-            workers_pool = Pool()
-            output = workers_pool.map(
+            output = parallel_map(
                 partial_cech_diff_and_lift_local,
-                range(self.nerve_spx_number[n_dim-1]))
-            workers_pool.close()
-            workers_pool.join()
+                self.nerve_spx_number[n_dim-1])
             # output = []
             # for j in range(self.nerve_spx_number[n_dim-1]):
             #     output.append(partial_cech_diff_and_lift_local(j))
@@ -814,11 +838,8 @@ class spectral_sequence(object):
         # compute vertical lifts in parallel
         partial_first_page_local_lift = partial(
             self.first_page_local_lift, n_dim, deg, start_chains, R)
-        workers_pool = Pool()
-        output = workers_pool.map(
-            partial_first_page_local_lift, range(self.nerve_spx_number[n_dim]))
-        workers_pool.close()
-        workers_pool.join()
+        output = parallel_map(
+            partial_first_page_local_lift, self.nerve_spx_number[n_dim])
         # proceed to store the result
         prev = 0
         for nerve_spx_index, next in enumerate(
-- 
2.43.0


From d8a69639c763a5551f8fb9aea0ef71dbc5d92fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:14 +0000
Subject: [PATCH 11/16] fix: measure elapsed time with a monotonic clock

The reported total time was wrong, even negative, if the system clock was
adjusted during a computation.
---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 00035be..330a6b3 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -90,7 +90,7 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
         21
 
     """
-    start = time.time()
+    start = time.monotonic()
     # Divide point cloud using hypercube cover
     # Use points_IN to build Nerve in future more general version
     nerve_point_cloud, points_IN, nerve = cubical_cover.generate_cover(
@@ -276,7 +276,7 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             MV_ss.persistent_homology.append(barcode_basis([]))
         # end if
     # end for
-    print("Total PerMaViss time:{}".format(time.time()-start))
+    print("Total PerMaViss time:{}".format(time.monotonic()-start))
     return MV_ss
 
 ###############################################################################
-- 
2.43.0


From 68d1b173ab988edd5509d34bc93657392eb0efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:14 +0000
Subject: [PATCH 12/16] fix: seeded samples neither depend on nor reset the
 global random state

Other threads drawing from numpy's global generator changed seeded samples,
and asking for a seeded sample restarted the caller's random numbers.
---
 src/permaviss/sample_point_clouds/examples.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9c8265f..9d492d2 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -26,12 +26,12 @@ def take_sample(point_cloud, no_samples, seed=None):
         Matrix storing the coordinates of the sampled points.
 
     """
-    if seed != None:
-        np.random.seed(seed)
+    # a seeded sample uses its own stream of random numbers
+    random = np.random if seed is None else np.random.RandomState(seed)
     no_points = len(point_cloud)
     no_samples = min(no_points, no_samples)
     Dist = dist.squareform(dist.pdist(point_cloud))
-    k = int(np.random.rand() * no_points) - 1
+    k = int(random.rand() * no_points) - 1
     selection = [k]
     point_selection = [point_cloud[k]]
     for i in range(no_samples-1):
@@ -92,12 +92,12 @@ def random_circle(no_points, radius, epsilon, center=[0, 0], seed=None):
         Coordinates of sampled points from around the circle.
 
     """
-    if seed != None:
-        np.random.seed(seed)
+    # a seeded sample uses its own stream of random numbers
+    random = np.random if seed is None else np.random.RandomState(seed)
     point_cloud = []
     for n in range(no_points):
-        random_angle = np.random.rand() * 2 * np.pi
-        random_rad = radius * (1 + np.random.rand() * epsilon)
+        random_angle = random.rand() * 2 * np.pi
+        random_rad = radius * (1 + random.rand() * epsilon)
         point_cloud.append([center[0] + random_rad * np.cos(random_angle),
                             center[1] + random_rad * np.sin(random_angle)])
 
-- 
2.43.0


From 3b3fa15b35d3703865a2f25589482ffd6f4a5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:35 +0000
Subject: [PATCH 13/16] fix: random_sphere ignored the radius

---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9d492d2..0b9721c 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -167,7 +167,7 @@ def random_sphere(no_points, radius, dim):
         v = np.array(point)
         norm = np.linalg.norm(v)
         for d in range(dim):
-            point[d] = point[d] / norm
+            point[d] = radius * point[d] / norm
 
         point_cloud.append(point)
 
-- 
2.43.0


From ea9cbfba9aa203293882d5d72ad8a94a8341fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:54 +0000
Subject: [PATCH 14/16] fix: regions of integer point clouds lost points

---
 src/permaviss/covers/cubical_cover.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index c0ecec6..bbf244a 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -117,6 +117,8 @@ def generate_cover(max_div, overlap, point_cloud):
     dim = np.size(point_cloud, 1)
     # Find the 'corners' of the dataset
     min_corner, max_corner = corners_hypercube(point_cloud)
+    # corners of regions are not integers even if all coordinates are
+    min_corner = np.array(min_corner, dtype=float)
     # Find the largest coordinate difference between min_corner and max_corner
     max_length = np.amax(np.absolute(max_corner - min_corner))
     side = max_length / max_div  # side of division hypercubes
-- 
2.43.0


From e34f37e0c78155e0e7cab39f804c9dcb03b8603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:02 +0000
Subject: [PATCH 15/16] fix: reduce sums of chains modulo p, so that they stay
 exact for large primes

---
 .../spectral_sequence/local_chains_class.py   | 11 +++++++---
 .../spectral_sequence_class.py                | 22 +++++++++++--------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/permaviss/spectral_sequence/local_chains_class.py b/src/permaviss/spectral_sequence/local_chains_class.py
index 38a34f0..16c051c 100644
--- a/src/permaviss/spectral_sequence/local_chains_class.py
+++ b/src/permaviss/spectral_sequence/local_chains_class.py
@@ -155,7 +155,7 @@ class local_chains(object):
     ###########################################################################
     # local_sums
 
-    def sums(chains, coord_sums):
+    def sums(chains, coord_sums, p=None):
         """Sum chains as indicated by "coord_sums"
 
         Parameters
@@ -165,6 +165,8 @@ class local_chains(object):
         coord_sums : :obj:`Numpy Array`
             Each sum is given by rows in coord_sums. These store the
             coefficients that the chain entries need to be added.
+        p : int, default is `None`
+            If given, the sums are reduced modulo p.
 
         """
         no_sums = np.size(coord_sums, axis=0)
@@ -173,8 +175,11 @@ class local_chains(object):
         for local_idx, ref in enumerate(chains.ref):
             if len(ref) > 0:
                 new_ref.append(np.array(range(no_sums)).astype(int))
-                new_coord.append(np.matmul(
-                    chains.coord[local_idx].T, (coord_sums.T)[ref]).T)
+                local_sums = np.matmul(
+                    chains.coord[local_idx].T, (coord_sums.T)[ref]).T
+                if p is not None:
+                    local_sums = local_sums % p
+                new_coord.append(local_sums)
             else:
                 new_ref.append([])
                 new_coord.append([])
diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 73f11b3..6bbf95b 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -944,7 +944,7 @@ class spectral_sequence(object):
                     nerv_idx, range(self.Hom[1][n_dim][deg].dim),
                     np.matmul(self.Hom[0][n_dim][
                         nerv_idx][deg].coordinates, coordinates_hom[prev:next]
-                        ).T)
+                        ).T % self.p)
             # end if
             prev = next
         # end for
@@ -990,7 +990,8 @@ class spectral_sequence(object):
         total_complex_reps = []
         # compute
         for chains in self.Hom_reps[current_page - 1][n_dim][deg]:
-            total_complex_reps.append(local_chains.sums(chains, hom_sums))
+            total_complex_reps.append(local_chains.sums(
+                chains, hom_sums, self.p))
         # end for
         # (n_dim, deg) --> (Sn_dim, Sdeg)
         Sn_dim = n_dim - current_page
@@ -1015,7 +1016,7 @@ class spectral_sequence(object):
             if np.any(Gammas):
                 preimage_coefficients = np.matmul(
                     self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
-                )
+                ) % self.p
             # case of target_page is special due to local coordinates
             if np.any(Gammas) and target_page == 2:
                 prev = 0
@@ -1024,7 +1025,7 @@ class spectral_sequence(object):
                     if prev < next:
                         local_preimage = (np.matmul(
                             self.Hom[0][Sn_dim + 1][spx_idx][Sdeg].coordinates,
-                            preimage_coefficients[prev:next])).T
+                            preimage_coefficients[prev:next])).T % self.p
                         # if non empby, add
                         if len(total_complex_reps[-1].ref[spx_idx]) > 0:
                             total_complex_reps[-1].coord[
@@ -1038,7 +1039,7 @@ class spectral_sequence(object):
             elif np.any(Gammas):
                 for chains in self.Hom_reps[target_page - 2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients.T))
+                        chains, preimage_coefficients.T, self.p))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
@@ -1116,7 +1117,8 @@ class spectral_sequence(object):
                         self.Hom_reps[self.no_pages - 1][Sn_dim][Sdeg]):
                     # compute chains using betas and substract to reps
                     # problem with local sums!!!
-                    local_chains_beta = local_chains.sums(Schains, -Betas)
+                    local_chains_beta = local_chains.sums(
+                        Schains, -Betas, self.p)
                     for k, local_coord in enumerate(
                             Hom_reps[ext_deg + idx].coord):
                         local_ref = Hom_reps[ext_deg + idx].ref[k]
@@ -1154,7 +1156,8 @@ class spectral_sequence(object):
                     Tn_dim = Sn_dim + target_page - 1
                     Tdeg = Sdeg - target_page + 2
                     preimage_coefficients = np.matmul(
-                        self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T)
+                        self.PreIm[target_page - 1][Tn_dim][Tdeg], -Gammas.T
+                    ) % self.p
                     if target_page == 2:
                         # preimages are classes on the first page
                         preimage_chains = local_chains(
@@ -1169,7 +1172,8 @@ class spectral_sequence(object):
                                     np.matmul(
                                         self.Hom[0][Tn_dim][nerv_idx][
                                             Tdeg].coordinates,
-                                        preimage_coefficients[prev:next]).T
+                                        preimage_coefficients[prev:next]
+                                    ).T % self.p
                                 )
                             prev = next
                         # end for
@@ -1177,7 +1181,7 @@ class spectral_sequence(object):
                         preimage_chains = local_chains.sums(
                             self.Hom_reps[target_page-2][Tn_dim][Tdeg][
                                 target_page-2],
-                            preimage_coefficients.T
+                            preimage_coefficients.T, self.p
                         )
                     # end else
                     # total complex differential of preimages. This is the
-- 
2.43.0


From a25cab4ce49ad38a7b2660f9c66ae8b86a53707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:11 +0000
Subject: [PATCH 16/16] fix: sample the whole ball, not only a cube inside it

---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 0b9721c..f5f71cd 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -129,7 +129,7 @@ def ball(no_points, radius, dim):
         while valid_point is False:
             point = []
             for d in range(dim):
-                point.append((np.random.rand() - 0.5) * radius)
+                point.append((np.random.rand() - 0.5) * 2 * radius)
 
             v = np.array(point)
             if np.linalg.norm(v) < radius:
-- 
2.43.0


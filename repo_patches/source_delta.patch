From 6e36027c29670ccec04f75db9de20dbed78a635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 01/74] fix: make the value pointer private in fsr_kernel

Each iteration associates the pointer with its own matrix element: sharing it
between the threads of the parallel loop made fsr_kernel test the values of
another row.
---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From 679534db139382988f41916583ba8e849fdb7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 02/74] fix: reduce the number of pixels per sample over the
 threads

object2pmatrix_sharp_edges declared the reduction on its input argument, and
the returned maximum was updated concurrently.
---
 src/flib/wcsutils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/wcsutils.f90 b/src/flib/wcsutils.f90
index 6bb9a70..f5b25d3 100644
--- a/src/flib/wcsutils.f90
+++ b/src/flib/wcsutils.f90
@@ -352,7 +352,7 @@ contains
         if (status /= 0) return
 
         !$omp parallel do private(isample, coords2, roi) &
-        !$omp reduction(max : npixels_per_sample) reduction(.or. : out)
+        !$omp reduction(max : new_npixels_per_sample) reduction(.or. : out)
         do isample = 1, npointings
 
             if (masked(isample)) then
-- 
2.43.0


From 46f02de8c73daf4cf407f8ce88f12e140254e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 03/74] fix: zero the samples without pixel in the
 one-pixel-per-sample projection

pmatrix_direct_one_pixel_per_sample left the output sample untouched when its
pointing element is masked, unlike pmatrix_direct.
---
 src/flib/module_pointingmatrix.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
-- 
2.43.0


From 30750ea7bc9d04abcb32b45b145906ad6de1c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 04/74] fix: use pyoperators.config.VERBOSE in the projection

pyoperators.memory.verbose does not exist anymore.
---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..370b0a0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -638,7 +638,7 @@ class ProjectionBaseOperator(Operator):
         if matrix.size == 0:
             return
         if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
             output_ = np.empty_like(output)
         else:
-- 
2.43.0


From 2d761ae6db3615b32cdd84f7e9ac549cfa7729d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 05/74] fix: projection of an empty pointing matrix is zero

The output was left uninitialised.
---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 370b0a0..a52ddc8 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -636,6 +636,7 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
         if not output.flags.contiguous:
             if pyoperators.config.VERBOSE:
-- 
2.43.0


From 5ed75ed28565b19758323158e23234e7d59a5407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 06/74] fix: initialise the out-of-map flag of the polygon
 integration

It was only set when a polygon falls outside of the map.
---
 src/flib/projection.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/projection.f90.j2 b/src/flib/projection.f90.j2
index fe5f3b8..d109dce 100644
--- a/src/flib/projection.f90.j2
+++ b/src/flib/projection.f90.j2
@@ -33,6 +33,7 @@ contains
         real({{ combo.rkind }})    :: polygon(2,nvertices), val
 
         min_ncolmax = 0
+        out = .false.
         !$omp parallel do private(xmin, xmax, ymin, ymax, ncols, polygon)      &
         !$omp             private(val), reduction(max: min_ncolmax)
         do isample = 1, ninputs
-- 
2.43.0


From 49f4f3aa2a6ff154ed3e3a5d5d772f4c0327fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 07/74] fix: ignore the missing pointing elements in ptp_one

They have a negative index and the routine wrote before the output array.
---
 src/flib/pointingmatrix_old.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..0215bde 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index < 0) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From 95940818f2178f49258870eb50929aae9304c092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 08/74] fix: pass the number of samples to the pointing matrix
 projections

---
 src/pysimulators/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a52ddc8..a562c54 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -645,7 +645,11 @@ class ProjectionBaseOperator(Operator):
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.ravel(),
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -665,7 +669,11 @@ class ProjectionBaseOperator(Operator):
         else:
             input_ = input
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.ravel(),
+            output.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
 
     def set_attrin(self, attr):
@@ -745,6 +753,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         else:
             flib.pointingmatrix.backprojection_weight(
@@ -753,6 +762,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         return out
 
-- 
2.43.0


From ae5d67911cb02f4a31fc269b92529a6b60c14e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 09/74] fix: the normal matrix of a projection is real

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a562c54..e17cb8b 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -711,9 +711,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From 9124819b3b8c7c4bc0a1b57b61ba567d0942d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 10/74] fix: honour the mask argument of get_pTx_pT1

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index e17cb8b..441cdf5 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -744,12 +744,13 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
+                np.asarray(mask, bool).ravel().view(np.int8),
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
-- 
2.43.0


From 76686683853a4131c0165ea89f6b5d72f4b60c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 11/74] fix: use np.cumprod

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 441cdf5..b5c30d9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -775,7 +775,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From d3647ea3e751dd39003a2f0ea5f0676dda66aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 12/74] fix: allocate the right number of elements for
 non-square blocks

---
 src/pysimulators/sparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..71ca80e 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -59,7 +59,10 @@ class _FSMatrix:
                     f'The maximum number of non-zero {straxes[0]}s per {straxes[1]} '
                     f'is not specified.'
                 )
-            shape_data = (shape[1 - sparse_axis] // block_shape[0], nmax)
+            shape_data = (
+                shape[1 - sparse_axis] // block_shape[1 - sparse_axis],
+                nmax,
+            )
             if dtype is None:
                 dtype = float
             if dtype_index is None:
-- 
2.43.0


From 405567c2bfd4d3a72764137e4e07e3bfc1565c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 13/74] fix: validate the block shape of FSRBlockMatrix like
 that of FSCBlockMatrix

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 71ca80e..c7fda89 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -466,7 +466,7 @@ class FSRBlockMatrix(_FSBlockMatrix):
     ):
         if data is not None:
             block_shape = data.dtype['value'].shape
-        _FSMatrix.__init__(
+        _FSBlockMatrix.__init__(
             self,
             'fsr_block',
             shape,
-- 
2.43.0


From 9c6fb4abaddb93dea58e64b0edeb6d0213e16983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 14/74] fix: return the flattened output of the
 FSRRotation3dMatrix fallback

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index c7fda89..2169e3d 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -768,7 +768,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 37cf8091f554f1df4bc8e834fc64a488ab5d40fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 15/74] fix: keep the imaginary part of complex inputs of
 sparse matrices

---
 src/pysimulators/sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 2169e3d..b6ab9ba 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -136,7 +136,11 @@ class _FSMatrix:
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-        if str(ds) not in ('float32', 'float64') or str(di) not in ('int32', 'int64'):
+        if (
+            str(ds) not in ('float32', 'float64')
+            or str(di) not in ('int32', 'int64')
+            or dv.kind == 'c'
+        ):
             return v, out, False
 
         if (
-- 
2.43.0


From a696ba69e96f8c23f3ded9128996488f6fc1f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 16/74] fix: do not simplify P.T * P into a diagonal operator
 when the input is broadcast

---
 src/pysimulators/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index b6ab9ba..97d2f1d 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1011,6 +1011,7 @@ class SparseOperator(SparseBase):
             )
             or self.matrix.ncolmax != 1
             or self.shapein is None
+            or product(self.shapein) != self.matrix.shape[1]
         ):
             return
         di = self.matrix.data.index.dtype
-- 
2.43.0


From 7f7ab7edae056149e02f664c43857c033ed7d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 17/74] fix: corestriction of the rotation sparse matrices

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 97d2f1d..c685c02 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -910,7 +910,7 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
+        mask_ = np.ravel(mask)
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-- 
2.43.0


From 680fb3e0fde45fdce6100b696abbd8dea88682af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 18/74] fix: pass the data type and shapes of operators over
 scipy sparse matrices

---
 src/pysimulators/sparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index c685c02..008ae13 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -782,7 +782,9 @@ class SparseOperator(SparseBase):
     def __init__(self, arg, shapein=None, shapeout=None, dtype=None, **keywords):
         if sp.issparse(arg):
             self.__class__ = pyoperators.linear.SparseOperator
-            self.__init__(arg, dtype=None, **keywords)
+            self.__init__(
+                arg, dtype=dtype, shapein=shapein, shapeout=shapeout, **keywords
+            )
             return
         if not isinstance(
             arg,
-- 
2.43.0


From 6203eda05224c0536ec455baab7c0dafb0f2cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 19/74] fix: copy of a packed table

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..c8b8f51 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -371,7 +371,7 @@ class PackedTable:
 
         """
         out = copy.deepcopy(self)
-        out.comm = self.comm.Dup()
+        object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
     def pack(self, x, out=None, copy=False):
-- 
2.43.0


From 86bea672d243e3eea2b482564d84a8c9aa244e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 20/74] fix: packed table slices with a negative step

---
 src/pysimulators/packedtables/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c8b8f51..8ea3715 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -181,8 +181,11 @@ class PackedTable:
 
     @property
     def _indexable(self):
+        return self._get_indexable(self._index)
+
+    @staticmethod
+    def _get_indexable(index):
         # slice index with negative stop values cannot be used for indexing
-        index = self._index
         if isinstance(index, slice) and index.stop < 0:
             return slice(index.start, None, index.step)
         return index
@@ -326,7 +329,7 @@ class PackedTable:
             index = slice(start, stop, step)
         else:
             index = self.index
-            index = index[selection]
+            index = index[self._get_indexable(selection)]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
@@ -341,7 +344,7 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, v[selection])
+                setattr(out, k, v[self._get_indexable(selection)])
         return out
 
     def __str__(self):
@@ -747,7 +750,7 @@ class PackedTable:
         if stop is None:
             stop = n if step > 0 else -1
         elif stop < 0:
-            stop = n + stop
+            stop = max(n + stop, -1)
         elif stop > n:
             stop = n
 
-- 
2.43.0


From 97e653977e4a3d0e66d179c1f8824ed0e493694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 21/74] fix: packed table selection with a repeated index

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 8ea3715..7316cc2 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -718,7 +718,7 @@ class PackedTable:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From a9e7243d73e6acd56e09a6eb362e6cedc02f0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 22/74] fix: packed table selections by indices of any integer
 type

---
 src/pysimulators/packedtables/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 7316cc2..63699e7 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -701,7 +701,9 @@ class PackedTable:
         elif not isinstance(selection, np.ndarray):
             raise TypeError('Invalid selection.')
 
-        if selection.dtype not in (bool, int):
+        if selection.dtype.kind in 'iu':
+            selection = selection.astype(self._dtype_index)
+        elif selection.dtype != bool:
             raise TypeError('Invalid selection.')
         if selection.dtype == int:
             if selection.ndim != 1:
-- 
2.43.0


From aa00ff94b0918610fcc6a1c43a40449a873e4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 23/74] fix: packed table selections by negative or out of
 range indices

---
 src/pysimulators/packedtables/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 63699e7..013990a 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -680,7 +680,8 @@ class PackedTable:
         ):
             return Ellipsis
         if isscalarlike(selection):
-            return np.asarray([selection], self._dtype_index)
+            selection = np.asarray([selection], self._dtype_index)
+            return self._normalize_indices(selection, product(shape))
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
@@ -708,6 +709,7 @@ class PackedTable:
         if selection.dtype == int:
             if selection.ndim != 1:
                 raise ValueError('Index selection is not 1-dimensional.')
+            selection = self._normalize_indices(selection, product(shape))
         elif selection.shape != shape:
             raise ValueError('Invalid boolean selection dimensions.')
 
@@ -728,6 +730,12 @@ class PackedTable:
                 return slice(start, stop, step)
         return s
 
+    @staticmethod
+    def _normalize_indices(s, n):
+        if np.any(s < -n) or np.any(s >= n):
+            raise IndexError('The selection is out of range.')
+        return np.where(s < 0, s + n, s)
+
     @staticmethod
     def _normalize_slice(s, n):
         step = 1 if s.step is None else s.step
-- 
2.43.0


From 9fe622fb73b8b5dd6ce47868754fe2943a7263eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 24/74] fix: multi-dimensional selections of a packed table
 with a negative step

---
 src/pysimulators/packedtables/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 013990a..5aa410b 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -776,6 +776,10 @@ class PackedTable:
 
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
+        if isinstance(selection, tuple):
+            selection = tuple(self._get_indexable(_) for _ in selection)
+        else:
+            selection = self._get_indexable(selection)
         out[selection] = True
         return out
 
-- 
2.43.0


From b143fa6f9b5ed1f880f6f37395417ae936dc794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 25/74] fix: gathering of packed tables

---
 src/pysimulators/packedtables/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 5aa410b..12e23b1 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -508,7 +508,7 @@ class PackedTable:
         """
 
         def func(x):
-            x = np.asarray(x)
+            x = np.ascontiguousarray(x)
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
@@ -536,6 +536,7 @@ class PackedTable:
             raise TypeError(f'gather takes at most 1 argument ({len(args)} given)')
 
         out = copy.copy(self)
+        object.__setattr__(out, 'comm', MPI.COMM_SELF)
         out._index = self._normalize_int_selection(
             func(self.index), product(self.shape[: self.ndim])
         )
-- 
2.43.0


From 794e9481a04f0725b845a514430e59ec7d640424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 26/74] fix: message of the error raised for an invalid
 sampling

---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 40bc987..bb92c31 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -75,7 +75,7 @@ class Acquisition:
             )
         if not isinstance(sampling, Sampling):
             raise TypeError(
-                f'The sampling input has an invalid type {type(instrument).__name__!r}.'
+                f'The sampling input has an invalid type {type(sampling).__name__!r}.'
             )
         if not isinstance(scene, Scene):
             raise TypeError(
-- 
2.43.0


From 17a8873ce7cd9ff7b308de1a6296cf56c4d899e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 27/74] fix: the restriction of an acquisition kept the
 operator of the whole acquisition

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index bb92c31..46b5c95 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -164,6 +164,7 @@ class Acquisition:
 
         if any(not is_colon(_) for _ in x):
             self._operator = None
+            out._operator = None
             gc.collect()
 
         out.instrument = self.instrument[x[0]]
-- 
2.43.0


From 932f61015c79c796336f5bbc675e6d50c855d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 28/74] fix: Acquisition.pack and unpack ignored their
 arguments

---
 src/pysimulators/acquisitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 46b5c95..9e24638 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -190,12 +190,14 @@ class Acquisition:
     __repr__ = __str__
 
     def pack(self, x, out=None, copy=False):
-        return self.instrument.detector.pack(x)
+        return self.instrument.detector.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
     def unpack(self, x, out=None, missing_value=None, copy=False):
-        return self.instrument.detector.unpack(x)
+        return self.instrument.detector.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From b3b6b6539153e07c4959102e3c05d0b47eb5132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 29/74] fix: the sampling period was not derived from the
 sampling times

---
 src/pysimulators/packedtables/samplings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f7d34d..caf8747 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -37,8 +37,9 @@ class Sampling(PackedTable):
         elif date_obs.is_scalar:  # work around astropy.time bug
             date_obs = Time([str(date_obs)], scale='utc')
         if period is None:
-            if hasattr(keywords, 'time'):
-                period = np.median(np.diff(keywords['time']))
+            time = keywords.get('time')
+            if time is not None and not callable(time) and np.size(time) > 1:
+                period = np.median(np.diff(time))
             else:
                 period = self.DEFAULT_PERIOD
         masked = keywords.pop('masked', False)
-- 
2.43.0


From afdf7b77f539a1dfdb9b3a7a1d311229cedcd086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 30/74] fix: SamplingSpherical.get_center modified the
 cartesian coordinates

---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index caf8747..f94dce3 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -162,7 +162,7 @@ class SamplingSpherical(Sampling):
             coords = self.cartesian
             if not isscalarlike(self.masked):
                 valid = 1 - self.masked
-                coords *= valid[:, None]
+                coords = coords * valid[:, None]
                 n = np.sum(valid)
             else:
                 n = len(self)
-- 
2.43.0


From 32c4047bc37ea235abb6f2e1db9c970e41321522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 31/74] fix: the name of an Imager can be None

---
 src/pysimulators/instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 347d769..4f36c09 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -357,7 +357,7 @@ class Imager(Instrument):
                 'Neither the image2object nor the object2image tr'
                 'ansforms are speficied.'
             )
-        Instrument.__init__(self, name, layout)
+        Instrument.__init__(self, layout, name)
         if object2image is not None:
             self.object2image = asoperator(object2image)
             self.image2object = self.object2image.I
-- 
2.43.0


From 9850e4aaef2bbb0526073902a48ec485205e2327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 32/74] fix: shape of a grid given as a list

---
 src/pysimulators/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..7f3606e 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -98,7 +98,7 @@ def create_grid(
 
     """
     if out is None:
-        out = _np.empty(shape + (2,))
+        out = _np.empty(tuple(shape) + (2,))
     _flib.geometry.create_grid(
         spacing, xreflection, yreflection, angle, center[0], center[1], out.T
     )
@@ -142,7 +142,7 @@ def create_grid_squares(
 
     """
     if out is None:
-        out = _np.empty(shape + (4, 2))
+        out = _np.empty(tuple(shape) + (4, 2))
     _flib.geometry.create_grid_squares(
         spacing,
         filling_factor,
-- 
2.43.0


From 0f8bc4a94329b9d59504c65d563daf3a6fabb254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:08 +0000
Subject: [PATCH 33/74] fix: packed table selections that mix slices and
 sequences of indices

---
 src/pysimulators/packedtables/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 12e23b1..e4d6a96 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -686,8 +686,7 @@ class PackedTable:
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
-            selection_ = np.asarray(selection)
-            if selection_.dtype == object:
+            if any(_ is Ellipsis or isinstance(_, slice) for _ in selection):
                 if len(selection) > len(shape):
                     raise ValueError('Invalid selection dimensions.')
                 selection = tuple(
@@ -699,7 +698,7 @@ class PackedTable:
                 except ValueError:
                     return Ellipsis
             else:
-                selection = selection_
+                selection = np.asarray(selection)
         elif not isinstance(selection, np.ndarray):
             raise TypeError('Invalid selection.')
 
-- 
2.43.0


From 4e49cb3a297126c80644d5734e558ffe5de01bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 34/74] fix: unit of the squared distances

---
 src/pysimulators/datautils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..c1ed7f1 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -233,6 +233,8 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
             out[...] = out_
     else:
         _distance2_slow(shape, center, scale, dtype, out)
+    if unit:
+        unit = {k: 2 * v for k, v in unit.items()}
     return Map(out, copy=False, unit=unit)
 
 
-- 
2.43.0


From b272fc5e4426f9f7ba466176f81c6efe0f33f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 35/74] fix: squared distances in more than two dimensions

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index c1ed7f1..6777201 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -261,7 +261,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
     if len(d) == 1:
         out[...] = d[0]
         return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    np.add(sum(d[:-1]), d[-1], out)
     return out
 
 
-- 
2.43.0


From 89fae03a56d90cd2b69eb80b3b347824d4856e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 36/74] fix: profile_psd2 was not centered on the zero
 frequency

---
 src/pysimulators/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 6777201..d7d57dc 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -565,6 +565,6 @@ def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
     if array.shape[0] != array.shape[1]:
         raise ValueError('The input array is not square.')
     psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
-    x, y = profile(psd, center=array.shape // np.array(2) + 1)
+    x, y = profile(psd, center=array.shape // np.array(2))
     x *= sampling_frequency / array.shape[1]
     return x, y
-- 
2.43.0


From bccc484df295902f19f651fbaae62a1feefe62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 37/74] fix: FITS headers specified by a CD matrix

---
 src/pysimulators/wcsutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 9e94496..2fc14d2 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -281,9 +281,9 @@ def create_fitsheader(
         if pa is None:
             pa = 0.0
         theta = np.deg2rad(-pa)
-    cd = np.diag(cdelt).dot(
-        np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
-    )
+        cd = np.diag(cdelt).dot(
+            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
+        )
 
     crval = np.asarray(crval, float)
     if crval.size != 2:
-- 
2.43.0


From 66b8b632177a14652817eb10839e71bf68abd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 38/74] fix: conversion of a string into a FITS header

---
 src/pysimulators/wcsutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 2fc14d2..1224fc3 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -493,13 +493,12 @@ def str2fitsheader(string):
     reached.
     """
     header = pyfits.Header()
-    cards = header.ascard()
     iline = 0
     while iline * 80 < len(string):
         line = string[iline * 80 : (iline + 1) * 80]
-        if line[0:3] == 'END':
+        if line[0:8].rstrip() == 'END':
             break
-        cards.append(pyfits.Card().fromstring(line))
+        header.append(pyfits.Card.fromstring(line), end=True)
         iline += 1
     return header
 
-- 
2.43.0


From 677a8dd103c7d779de4f21d5a6a00286d79ad5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 39/74] fix: has_wcs of a FITS header without axis

---
 src/pysimulators/wcsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 1224fc3..8d485af 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -459,6 +459,8 @@ def has_wcs(header):
     System.
     """
 
+    if header['NAXIS'] == 0:
+        return False
     required = 'CRPIX,CRVAL,CTYPE'.split(',')
     keywords = np.concatenate(
         [
-- 
2.43.0


From 667e6c4e39186726c5495410257d44b82d70bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 40/74] fix: folding of the two-sided power spectrum densities

---
 src/pysimulators/noises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..6431a8c 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -20,7 +20,7 @@ def _fold_psd(p):
     out = empty(p.shape[:-1] + (n,))
     out[..., 0] = p[..., 0]
     np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
-    out[..., -1] = p[..., n]
+    out[..., -1] = p[..., n - 1]
     return out
 
 
-- 
2.43.0


From 992d13e1d1972353dcb3916d073d1811ea74dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 41/74] fix: default correlation length of the inverse noise
 covariance operator

---
 src/pysimulators/instruments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 4f36c09..3872a64 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -229,6 +229,8 @@ class Instrument:
                 fftsize, sampling_frequency, sigma, fknee, fslope, twosided=True
             )
         p[..., 0] = p[..., 1]
+        if ncorr is None:
+            ncorr = min(nsamples_max - 1, fftsize // 2)
         invntt = _psd2invntt(p, new_bandwidth, ncorr, fftw_flag=fftw_flag)
 
         return SymmetricBandToeplitzOperator(
-- 
2.43.0


From 28aab4a0644af899efb9199e35fde471c2d0e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 42/74] fix: noise realizations with an odd number of samples

---
 src/pysimulators/instruments.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 3872a64..7c5fecf 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -325,14 +325,19 @@ class Instrument:
                 n, sampling_frequency, sigma, fknee, fslope, twosided=twosided
             )
         else:
-            # log-log interpolation of one-sided PSD
+            # log-log interpolation of one-sided PSD, which is unfolded into
+            # an even number of frequencies
+            n += n % 2
             f = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
             p = _logloginterp_psd(f, bandwidth, psd)
 
         # looping over the detectors
         for out_ in out:
             operation(
-                out_, _gaussian_sample(n, sampling_frequency, p, twosided=twosided)
+                out_,
+                _gaussian_sample(n, sampling_frequency, p, twosided=twosided)[
+                    : len(sampling)
+                ],
             )
 
         return out
-- 
2.43.0


From f3f22dc9fd5d4d0180a14494fe70d9e858b1f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 43/74] fix: the coordinate types were not compared when
 gathering FITS headers

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..255b871 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -54,7 +54,7 @@ def gather_fitsheader_if_needed(header, comm=MPI.COMM_WORLD):
             'The input FITS header does not define a world coordi' 'nate system.'
         )
     naxis = header['NAXIS']
-    required_same = ['CRVAL1', 'CRVAL2', 'CRTYPE1', 'CRTYPE2', 'CDELT1', 'CDELT2']
+    required_same = ['CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
     required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
     required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
     headers = comm.allgather(header)
-- 
2.43.0


From 7b124f85216cecd7d91349609a4232d1cb7380b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 44/74] fix: distribution of an empty set of observations or
 detectors

---
 src/pysimulators/mpiutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 255b871..b5ad241 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -104,10 +104,10 @@ def distribute_observation(detectors, observations, rank=None, comm=MPI.COMM_WOR
     nobservations = len(observations)
 
     # number of observations. They should approximatively be of the same length
-    nx = nobservations
+    nx = max(nobservations, 1)
 
     # number of detectors, grouped by the number of cpu cores
-    ny = int(np.ceil(ndetectors / nthreads))
+    ny = max(int(np.ceil(ndetectors / nthreads)), 1)
 
     # we start with the minimum blocksize and increase it until we find a
     # configuration that covers all the observations
-- 
2.43.0


From 58ed53d9d2be46074e014b708eadc135be2eac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 45/74] fix: reading of distributed FITS files: missing data,
 closing of the file, reference pixel

---
 src/pysimulators/mpiutils.py | 41 +++++++++++++-----------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index b5ad241..47c404c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -172,37 +172,26 @@ def read_fits(filename, extname, comm):
         raise ValueError('The file name is not the same for all MPI jobs.')
 
     # get primary hdu or extension
-    fits = pyfits.open(filename)
-    if extname is not None:
-        hdu = fits[extname]
-    else:
-        ihdu = 0
-        while True:
-            try:
-                hdu = fits[ihdu]
-            except IndexError:
+    with pyfits.open(filename) as fits:
+        if extname is not None:
+            hdu = fits[extname]
+        else:
+            for hdu in fits:
+                if hdu.header['NAXIS'] > 0 and hdu.data is not None:
+                    break
+            else:
                 raise OSError('The FITS file has no data.')
-            if hdu.header['NAXIS'] == 0:
-                ihdu += 1
-                continue
-            if hdu.data is not None:
-                break
 
-    header = hdu.header
-    n = header['NAXIS' + str(header['NAXIS'])]
-    s = split(n, comm.size, comm.rank)
-    output = pyfits.Section(hdu)[s]
+        header = hdu.header
+        n = header['NAXIS' + str(header['NAXIS'])]
+        s = split(n, comm.size, comm.rank)
+        output = pyfits.Section(hdu)[s]
 
-    if not output.dtype.isnative:
-        output = output.byteswap().view(output.dtype.newbyteorder('='))
+        if not output.dtype.isnative:
+            output = output.byteswap().view(output.dtype.newbyteorder('='))
 
     # update the header
-    header['NAXIS' + str(header['NAXIS'])] = s.stop - s.start
-    try:
-        if header['CTYPE1'] == 'RA---TAN' and header['CTYPE2'] == 'DEC--TAN':
-            header['CRPIX2'] -= s.start
-    except KeyError:
-        pass
+    header = scatter_fitsheader(header, comm=comm)
     comm.Barrier()
 
     return output, header
-- 
2.43.0


From b98fc32f4bb04fca6a246611a21874315a54c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 46/74] fix: collective writing of FITS files

---
 src/pysimulators/mpiutils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 47c404c..c471900 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -291,8 +291,10 @@ def write_fits(filename, data, header, extension, extname, comm):
     chunk = product(data.shape[1:])
     rank_nowork = min(comm.size, nglobal)
     group = comm.Get_group()
-    group.Incl(list(range(rank_nowork)))
-    newcomm = comm.Create(group)
+    newgroup = group.Incl(list(range(rank_nowork)))
+    newcomm = comm.Create(newgroup)
+    newgroup.Free()
+    group.Free()
 
     # collectively write data
     if comm.rank < rank_nowork:
@@ -303,7 +305,7 @@ def write_fits(filename, data, header, extension, extname, comm):
             or data.dtype.byteorder == '<'
         ):
             data = data.byteswap()
-        data = data.newbyteorder('=')
+        data = data.view(data.dtype.newbyteorder('='))
         mtype = DTYPE_MAP[data.dtype]
         ftype = mtype.Create_subarray(
             [nglobal * chunk], [nlocal * chunk], [s.start * chunk]
@@ -316,13 +318,13 @@ def write_fits(filename, data, header, extension, extname, comm):
         f.Write_all(data)
         f.Close()
         ftype.Free()
-    newcomm.Free()
+        newcomm.Free()
 
     # pad FITS file with zeros
     if comm.rank == 0:
         datasize = nglobal * chunk * int(data.dtype.itemsize)
         BLOCK_SIZE = 2880
-        padding = BLOCK_SIZE - (datasize % BLOCK_SIZE)
+        padding = -datasize % BLOCK_SIZE
         with open(filename, 'a') as f:
             if f.tell() - data_loc != datasize:
                 raise RuntimeError('Unexpected file size.')
-- 
2.43.0


From dc992ba18180495c3fd1a68487e31a643ee5bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 47/74] fix: location of the data of collectively written FITS
 files

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index c471900..76a77f9 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -280,7 +280,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     if comm.rank == 0:
         header['NAXIS' + str(ndim)] = nglobal
         shdu = pyfits.StreamingHDU(filename, header)
-        data_loc = shdu._datLoc
+        data_loc = shdu._data_offset
         shdu.close()
     else:
         data_loc = None
-- 
2.43.0


From 2a1ffeaeafdfd092703c82ddb01201f31c974c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 48/74] fix: MadMap1 blocks were all given the filters of all
 the blocks

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6734d81..6bbeb04 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -125,11 +125,11 @@ class MadMap1Observation(Acquisition):
         ops = [
             SymmetricBandToeplitzOperator(
                 (len(self.instrument), b.n),
-                self._filters,
+                filters,
                 fftw_flag=fftw_flag,
                 nthreads=nthreads,
             )
-            for b in self.block
+            for b, filters in zip(self.block, self._filters)
         ]
         return BlockDiagonalOperator(ops, axisin=-1)
 
-- 
2.43.0


From 5d3bc740a845901d48a9cae5deefbc55954ecbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 49/74] fix: MadMap1 filter file names with special characters

---
 src/pysimulators/interfaces/madmap1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6bbeb04..7cb07d0 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -211,7 +211,7 @@ def _read_one_filter(filename, bigendian=False):
 def _read_filters(filename, bigendian=False):
     if isinstance(filename, str):
         filename = Path(filename)
-    regex = re.compile(str(filename) + r'\.[0-9]+$')
+    regex = re.compile(re.escape(str(filename)) + r'\.[0-9]+$')
     files = sorted(
         (_ for _ in filename.parent.iterdir() if regex.match(str(_))),
         key=lambda f: int(f.suffix[1:]),
-- 
2.43.0


From 0fdda1e0d77d5866e658f9ab3b0cb103d649f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 50/74] fix: the MadMap1 mask file was not closed

---
 src/pysimulators/interfaces/madmap1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 7cb07d0..c68b143 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -61,11 +61,13 @@ class MadMap1Observation(Acquisition):
 
         m = re.search(r'(?P<filename>.*)\[(?P<extname>\w+)\]$', mapmaskfilename)
         if m is None:
-            mask = pyfits.open(mapmaskfilename)[0].data
+            with pyfits.open(mapmaskfilename) as fits:
+                mask = fits[0].data
         else:
             filename = m.group('filename')
             extname = m.group('extname')
-            mask = pyfits.open(filename)[str(extname)].data  # XXX Python3
+            with pyfits.open(filename) as fits:
+                mask = fits[str(extname)].data  # XXX Python3
         if mask is None:
             raise OSError('HDU ' + mapmaskfilename + ' has no data.')
         mapmask = np.zeros(mask.shape, dtype=bool)
-- 
2.43.0


From c54ae5bf964b32cf105c6baf06a66420fc1a9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 51/74] fix: validation of the reference frequency of
 BlackBodyOperator

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index b5c30d9..a48d7a9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -314,8 +314,8 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = np.asarray(frequency0, float)
         else:
             nu0 = c / np.asarray(wavelength0, float)
-        if nu.ndim != 0:
-            raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
+        if nu0.ndim != 0:
+            raise TypeError('The reference frequency or wavelength is not a scalar.')
         beta = float(beta)
         data = (
             (nu / nu0) ** (3 + beta)
-- 
2.43.0


From 612abd3cdad500c3043f805937d9ebdd3e7b1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 52/74] fix: strided single precision inputs of
 ConvolutionTruncatedExponentialOperator

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index a48d7a9..11fff8b 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -417,10 +417,11 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    itemsize = x.itemsize
+    if x.strides[1] != itemsize:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    shape_all = x.shape[0], x.strides[0] // itemsize
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (itemsize,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From 873182383efecd8bff0f21b10e14935eeb920455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 53/74] fix: canonical_basis_in_kernel for the matrices without
 compiled support

---
 src/pysimulators/operators.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 11fff8b..01e20fd 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1063,14 +1063,14 @@ class ProjectionOperator(SparseOperator):
             if operation in (operation_assignment, operator.iand, operator.imul):
                 return out
         else:
-            if isinstance(self.matrix, FSRMatrix):
-                indices = data.index[data.value != 0]
-            elif isinstance(self.matrix, FSRRotation2dMatrix):
-                indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
-            else:
-                indices = data.index[data.r11 != 0]
+            nonzero = np.zeros(data.shape, bool)
+            for name in data.dtype.names:
+                if name != 'index':
+                    value = data[name].reshape(data.shape + (-1,))
+                    nonzero |= np.any(value != 0, axis=-1)
             n = product(shape)
-            kernel = np.histogram(indices, n, range=(0, n))[0] == 0
+            kernel = np.histogram(data.index[nonzero], n, range=(0, n))[0] == 0
+            kernel = kernel.reshape(shape)
         operation(out, kernel)
         return out
 
-- 
2.43.0


From da5ec0ec60e71f78299af49b7298f177299670f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 54/74] fix: input and output shapes of the operators stacked
 by block_diagonal

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 01e20fd..c926fa6 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -200,7 +200,7 @@ def block_diagonal(*partition_args, **keywords):
                 if a is not None:
                     s[a] = p
                 else:
-                    np.delete(s, na)
+                    del s[na]
                 return tuple(s)
 
             if 'shapein' in keywords:
-- 
2.43.0


From d9a7d95ce04f8ad53de2812a1ce25efc410b9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 55/74] fix: the place holder of the on-the-fly projections
 when the computation of the pointing matrix fails

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c926fa6..69a9c39 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -925,9 +925,10 @@ class ProjectionOnFlyOperator(ProjectionBaseOperator):
 
     @property
     def matrix(self):
-        if self.place_holder['id'] is self.id:
-            return self.place_holder['matrix']
-        self.place_holder['matrix'] = None
+        matrix = self.place_holder['matrix']
+        if matrix is not None and self.place_holder['id'] is self.id:
+            return matrix
+        self.place_holder['id'], self.place_holder['matrix'] = None, None
         matrix = self.func(self.id)
         self.place_holder['id'], self.place_holder['matrix'] = self.id, matrix
         return matrix
-- 
2.43.0


From 1480fa5bd52e7f078c5ed75b72cf4a8f4f44f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 56/74] fix: product of a diagonal operator by an in-memory
 projection

---
 src/pysimulators/operators.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 69a9c39..c115faf 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -873,9 +873,19 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
         # rightward broadcasting can fail with structured arrays (np 1.7)
         if self.matrix.shape[-1] != 1 or d.broadcast == 'rightward':
             return
+        if d.dtype.kind == 'c':
+            return
         matrix = self.matrix.copy()
-        result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        matrix.value[..., 0] *= d.get_data()
+        result = ProjectionInMemoryOperator(
+            matrix,
+            derived_units=(self.duout, self.duin),
+            attrin=self._attrin,
+            attrout=self._attrout,
+            classin=self.classin,
+            classout=self.classout,
+        )
+        result.unit = self.unit
         return result
 
 
-- 
2.43.0


From e3483600e743d4694f0ce2eb5a7c071fa9fdb490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:55 +0000
Subject: [PATCH 57/74] fix: in-place transpose of the truncated exponential
 convolution

---
 src/flib/module_operators.f90.j2 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..da99266 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
@@ -517,6 +518,7 @@ contains
         n = size(input)
         if (tau == 0) then
             output = input
+            return
         else if (tau < 0) then
             output = 0
             return
-- 
2.43.0


From 9054d39188492aefb7971ac82690a6e9ae3fdd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 58/74] fix: the conversion of a quantity does not modify the
 derived units

---
 src/pysimulators/quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..413dfd5 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1236,6 +1236,8 @@ def _get_du(input, key, derived_units):
     if hasattr(input, '_header'):
         du = du.view(type(input))
         du._header = input._header
+    else:
+        du = du.view()
     du._derived_units = input._derived_units
     return du, broadcast
 
-- 
2.43.0


From 077b2ea5bd136763b692578688374e095cc89027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 59/74] fix: an Ellipsis in the selection of a quantity stands
 for all the missing dimensions

---
 src/pysimulators/quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 413dfd5..68e5666 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -880,7 +880,8 @@ class Quantity(np.ndarray):
         # Replace Ellipsis with ':'
         try:
             pos = key.index(Ellipsis)
-            key = key[:pos] + (self.ndim - len(key)) * (slice(None),) + key[pos + 1 :]
+            n = self.ndim - len(key) + 1
+            key = key[:pos] + n * (slice(None),) + key[pos + 1 :]
         except ValueError:
             pass
 
-- 
2.43.0


From b6ce26107ba41dcecf21b8b9083c49a75646be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 60/74] fix: a broadcast derived unit that becomes a scalar by
 selection keeps its unit

---
 src/pysimulators/quantities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 68e5666..ec9ecc1 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -898,9 +898,10 @@ class Quantity(np.ndarray):
             # the derived unit is broadcastable, let's update it
             broadcast = d[pos + 1 : -1]
             if broadcast == 'leftward':
-                v = v[key[-v.ndim :]]
+                v_ = v[key[-v.ndim :]]
             else:
-                v = v[key[: v.ndim]]
+                v_ = v[key[: v.ndim]]
+            v = v_ if isinstance(v_, Quantity) else Quantity(v_, v._unit, v._derived_units)
 
             if du is None:
                 du = item._derived_units.copy()
-- 
2.43.0


From 8af4164909d26d9b156d45834064c19603c5f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 61/74] fix: a list selects elements of the first dimension of
 the derived units, as it does of the quantity

---
 src/pysimulators/quantities.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index ec9ecc1..dd36e28 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -871,9 +871,6 @@ class Quantity(np.ndarray):
         if self.dtype.kind == 'V' and isinstance(key, str):
             return item.view(Quantity)
 
-        if isinstance(key, list):
-            key = tuple(key)
-
         if not isinstance(key, tuple):
             key = (key,)
 
-- 
2.43.0


From e429a1b7d9c31ef1ff9a9e6f3fcb849f97638b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 62/74] fix: fmax, fmin and remainder convert their second
 operand to the unit of the first

---
 src/pysimulators/quantities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index dd36e28..33c5397 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -739,10 +739,13 @@ class Quantity(np.ndarray):
         if ufunc in (
             np.add,
             np.clip,
+            np.fmax,
+            np.fmin,
             np.fmod,
             np.hypot,
             np.maximum,
             np.minimum,
+            np.remainder,
             np.subtract,
         ):
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
@@ -766,8 +769,6 @@ class Quantity(np.ndarray):
             np.fabs,
             np.float_power,
             np.floor,
-            np.fmax,
-            np.fmin,
             np.hypot,
             np.negative,
             np.rint,
-- 
2.43.0


From e06ee29c31abf813cb630c966219c2275497c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 63/74] fix: float_power raises the unit to the power

---
 src/pysimulators/quantities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 33c5397..454abb3 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -767,7 +767,6 @@ class Quantity(np.ndarray):
             np.conjugate,
             np.copysign,
             np.fabs,
-            np.float_power,
             np.floor,
             np.hypot,
             np.negative,
@@ -788,7 +787,7 @@ class Quantity(np.ndarray):
         elif ufunc is np.square:
             output_unit = _power_unit(input_units[0], 2)
 
-        elif ufunc is np.power:
+        elif ufunc in (np.float_power, np.power):
             power = (
                 inputs[1].view(np.ndarray)
                 if isinstance(inputs[1], Quantity)
-- 
2.43.0


From d99db7fa4f00cd715636799bbffffdef8edc4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 64/74] fix: the unary plus keeps the unit

---
 src/pysimulators/quantities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 454abb3..b8b3911 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -770,6 +770,7 @@ class Quantity(np.ndarray):
             np.floor,
             np.hypot,
             np.negative,
+            np.positive,
             np.rint,
             np.trunc,
         ):
-- 
2.43.0


From 4b6ef6d841d0de9d9523eb372677e259d688a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 65/74] fix: the result of copysign has the unit of its first
 operand

---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b8b3911..a53eb09 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -774,7 +774,7 @@ class Quantity(np.ndarray):
             np.rint,
             np.trunc,
         ):
-            output_unit = self._unit
+            output_unit = input_units[0]
 
         elif ufunc is np.reciprocal:
             output_unit = _power_unit(input_units[0], -1)
-- 
2.43.0


From 5bb0310fcacf5bfca7024c42efc615bc73b76801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 66/74] fix: the product of the elements of a dimensionless
 quantity is defined

---
 src/pysimulators/quantities.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index a53eb09..4ecbba3 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -796,6 +796,19 @@ class Quantity(np.ndarray):
             )
             output_unit = _power_unit(input_units[0], power)
 
+        elif len(input_units) == 1 and ufunc in (
+            np.multiply,
+            np.floor_divide,
+            np.true_divide,
+        ):
+            # reductions
+            if input_units[0]:
+                raise UnitError(
+                    f"The reduction by '{ufunc.__name__}' of a quantity that has the "
+                    f"unit '{_strunit(input_units[0])}' is not supported."
+                )
+            output_unit = {}
+
         elif ufunc in (np.matmul, np.matvec, np.multiply, np.vecdot, np.vecmat):
             output_unit = _multiply_unit(input_units[0], input_units[1])
 
-- 
2.43.0


From d3bd2e87b43c7d18a826379ea78407e8b2cde4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 67/74] fix: projections give the right result in an output
 that is not C-contiguous

---
 src/pysimulators/operators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c115faf..b8bdfbc 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -642,7 +642,7 @@ class ProjectionBaseOperator(Operator):
         if not output.flags.contiguous:
             if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty_like(output, order='C')
         else:
             output_ = output
         flib.pointingmatrix.direct(
@@ -669,13 +669,16 @@ class ProjectionBaseOperator(Operator):
             input_ = np.ascontiguousarray(input)
         else:
             input_ = input
+        output_ = np.ascontiguousarray(output)
         flib.pointingmatrix.transpose(
             matrix.ravel().view(np.int64),
             input_.ravel(),
-            output.T,
+            output_.T,
             matrix.shape[-1],
             matrix.size // matrix.shape[-1],
         )
+        if not output.flags.contiguous:
+            output[...] = output_
 
     def set_attrin(self, attr):
         if '_header' in attr:
-- 
2.43.0


From 97f07422ae4c886798781ce73bd9328a3d9bcbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 68/74] fix: PointingMatrix.pack renumbers matrices that are
 not contiguous

---
 src/pysimulators/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index b8bdfbc..8b571d4 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -576,12 +576,15 @@ class PointingMatrix(FitsArray):
         """
         if self.size == 0:
             return
+        data = self.ravel()
         flib.pointingmatrix.pack(
-            self.ravel().view(np.int64),
+            data.view(np.int64),
             mask.view(np.int8).T,
             self.shape[-1],
             self.size // self.shape[-1],
         )
+        if not self.flags.contiguous:
+            self[...] = data.reshape(self.shape)
         self.shape_input = tointtuple(mask.size - np.sum(mask))
 
     def get_mask(self, out=None):
-- 
2.43.0


From 6a68229d357087260a685e01cfb621c8161361ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:55 +0000
Subject: [PATCH 69/74] fix: get_pTx_pT1 fills destinations that are not
 contiguous

---
 src/pysimulators/operators.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 8b571d4..2b2bfc0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -753,13 +753,14 @@ class ProjectionBaseOperator(Operator):
             return out
         if mask is None:
             mask = getattr(x, 'mask', None)
+        back, weight = (np.ascontiguousarray(_) for _ in out)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
                 np.asarray(mask, bool).ravel().view(np.int8),
-                out[0].ravel(),
-                out[1].ravel(),
+                back.ravel(),
+                weight.ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
@@ -767,11 +768,15 @@ class ProjectionBaseOperator(Operator):
             flib.pointingmatrix.backprojection_weight(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                out[0].ravel(),
-                out[1].ravel(),
+                back.ravel(),
+                weight.ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
+        if not out[0].flags.contiguous:
+            out[0][...] = back
+        if not out[1].flags.contiguous:
+            out[1][...] = weight
         return out
 
     def intersects(self, fitscoords, axis=None, f=None):
-- 
2.43.0


From 0844a596b9e61c6d205d5e4cfc98495a98a54d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 70/74] fix: the projection methods fill destinations that are
 not contiguous

---
 src/pysimulators/operators.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 2b2bfc0..c04b11c 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1075,13 +1075,16 @@ class ProjectionOperator(SparseOperator):
 
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
+            kernel_ = np.ascontiguousarray(kernel)
             func(
                 data.view(np.int8).ravel(),
-                kernel.view(np.int8).ravel(),
+                kernel_.view(np.int8).ravel(),
                 self.matrix.ncolmax,
                 product(data.shape[:-1]),
                 data.strides[-1],
             )
+            if not kernel.flags.contiguous:
+                kernel[...] = kernel_
             if operation in (operation_assignment, operator.iand, operator.imul):
                 return out
         else:
@@ -1127,12 +1130,15 @@ class ProjectionOperator(SparseOperator):
             if operation is operation_assignment:
                 out[...] = 0
             func = getattr(flib.operators, f)
+            out_ = np.ascontiguousarray(out)
             func(
                 self.matrix.data.view(np.int8).ravel(),
-                out.ravel(),
+                out_.ravel(),
                 self.matrix.ncolmax,
                 self.matrix.data.shape[0],
             )
+            if not out.flags.contiguous:
+                out[...] = out_
         else:
             if self.shapeout is None:
                 shapein = (self.matrix.shape[0],)
@@ -1214,14 +1220,19 @@ class ProjectionOperator(SparseOperator):
                 pTx[...] = 0
                 pT1[...] = 0
             x = np.asarray(x, dtype=dtypeout, order='C')
+            pTx_, pT1_ = np.ascontiguousarray(pTx), np.ascontiguousarray(pT1)
             func = getattr(flib.operators, f)
             func(
                 self.matrix.data.view(np.int8).ravel(),
                 x.T,
-                pTx.ravel(),
-                pT1.ravel(),
+                pTx_.ravel(),
+                pT1_.ravel(),
                 self.matrix.ncolmax,
             )
+            if not pTx.flags.contiguous:
+                pTx[...] = pTx_
+            if not pT1.flags.contiguous:
+                pT1[...] = pT1_
         else:
             self.pT1(out=pT1, operation=operation)
             if isinstance(self.matrix, FSRMatrix):
-- 
2.43.0


From 72ae82a524580f885311f5c51dbee530fd8320e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 71/74] fix: rotation of points with integer coordinates

---
 src/pysimulators/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 7f3606e..810f5e4 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -302,6 +302,8 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind not in 'fc':
+        coords = coords.astype(float)
     if out is None:
         out = _np.empty_like(coords)
     if (
-- 
2.43.0


From 0234405bdbd0b1800790530f09490b0fe5971581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:14 +0000
Subject: [PATCH 72/74] fix: coverage of the 2-d rotation projections of
 multi-dimensional scenes

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index c04b11c..1a19ef0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1156,7 +1156,7 @@ class ProjectionOperator(SparseOperator):
                 ).ravel()
                 for i, d in zip(index, data):
                     if i >= 0:
-                        out[i] += d
+                        out.flat[i] += d
             else:
                 x = ones(shapein, self.dtype)
                 operation(out, self.T(x)[..., 0])
-- 
2.43.0


From a62b385b645ba0a6953dfe0adf589f0ac465a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 73/74] fix: maps and time-ordered data read from a Path keep
 their coverage, error, origin and mask

---
 src/pysimulators/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f77288a..1d35554 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -660,7 +660,7 @@ class Map(FitsArray):
         if not subok and type(result) is not cls:
             result = result.view(cls)
 
-        if isinstance(data, str):
+        if isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
@@ -1066,7 +1066,7 @@ class Tod(FitsArray):
         if mask is np.ma.nomask:
             mask = None
 
-        if mask is None and isinstance(data, str):
+        if mask is None and isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
-- 
2.43.0


From cb1f5624ee97a48d328b02ab6e9320d578ce8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 74/74] fix: the file read for its derived units is closed

---
 src/pysimulators/datatypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 1d35554..953948b 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -117,8 +117,9 @@ class FitsArray(Quantity):
                 comm = MPI.COMM_SELF
 
             try:
-                buf = pyfits.open(data)['derived_units'].data
-                derived_units = pickle.loads(buf.data)
+                with pyfits.open(data) as fits:
+                    buf = fits['derived_units'].data
+                    derived_units = pickle.loads(buf.data)
             except (ImportError, KeyError):
                 pass
 
-- 
2.43.0


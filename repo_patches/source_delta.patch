From 00adef21321e061142d5725f91d9e73401ae140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 01/24] fix: only merge low-rank columns that are equal in
 every batch element

The alignment of the factors of two low-rank matrices compared only the first
batch element, and did so with an absolute threshold, so columns that differ in
later batch elements or that are small in magnitude were wrongly merged.
---
 matrix/ops/algorithms/align.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 83f381e..a97a9f6 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -26,7 +26,15 @@ def align(a, b):
     b0 = b[(0,) * len(B.shape_batch(b)) + (slice(None), slice(None))]
 
     def equal(index_a, index_b):
-        return B.mean(B.subtract(a0[:, index_a], b0[:, index_b]) ** 2) < 1e-10
+        # Columns may only be merged if they are equal in _all_ batch elements. Judge
+        # equality relative to the magnitudes of the columns.
+        col_a = a[..., index_a]
+        col_b = b[..., index_b]
+        diff = B.sum(B.subtract(col_a, col_b) ** 2, axis=-1)
+        scale = B.sum(B.multiply(col_a, col_a), axis=-1) + B.sum(
+            B.multiply(col_b, col_b), axis=-1
+        )
+        return B.all(diff <= 1e-10 * scale)
 
     # We need the norms later on.
     a_norms = B.sum(B.multiply(a0, a0), axis=0)
-- 
2.43.0


From fcfeee3bf59552c25ad86f8705912a34612e86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 02/24] fix: judge cancellation of low-rank matrices relative
 to their magnitude

The sum of two low-rank matrices was replaced by zero if the joint middle factor
was small in absolute terms, which dropped small but significant matrices.
---
 matrix/ops/add.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/add.py b/matrix/ops/add.py
index 1c5df07..8032aed 100644
--- a/matrix/ops/add.py
+++ b/matrix/ops/add.py
@@ -189,7 +189,9 @@ def add(a: LowRank, b: LowRank):
     if B.control_flow.use_cache:
         is_zero = B.control_flow.get_outcome("add:is_zero")
     else:
-        is_zero = B.mean(B.abs(join_middle)) < 1e-10
+        # Judge whether the middle parts cancel relative to their magnitudes.
+        scale = add(B.abs(B.dense(a_mid)), B.abs(B.dense(b_mid)))
+        is_zero = B.all(B.abs(B.dense(join_middle)) <= 1e-10 * scale)
         if B.control_flow.caching:
             B.control_flow.set_outcome("add:is_zero", is_zero)
 
-- 
2.43.0


From e8c3adb0c86a33e895403a3369989920e1fb964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 03/24] fix: always densify tiled blocks to a numeric matrix

---
 matrix/ops/dense.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index f15fbf0..2264d53 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -119,5 +119,6 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.concat(*repeated_blocks, axis=axis)
+        # The blocks may be structured, so the concatenation may not yet be numeric.
+        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
     return a.dense
-- 
2.43.0


From 49c40d2e27184b28aed8db6cc3ddc74fa38acbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 04/24] fix: do not claim structure for sums whose matrix
 dimensions are broadcast

---
 matrix/ops/add.py  | 25 +++++++++++++++++++++++--
 matrix/ops/util.py | 17 ++++++++++++++++-
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/matrix/ops/add.py b/matrix/ops/add.py
index 8032aed..8a5e796 100644
--- a/matrix/ops/add.py
+++ b/matrix/ops/add.py
@@ -7,6 +7,7 @@ from plum import convert
 from wbml.warning import warn_upmodule
 
 from .algorithms.align import align
+from .util import expands
 from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..lowrank import LowRank
@@ -45,8 +46,7 @@ def add(a: Zero, b: AbstractMatrix):
 # Dense
 
 
-@B.dispatch
-def add(a: AbstractMatrix, b: AbstractMatrix):
+def _add_dense(a, b):
     if structured(a) and structured(b):
         warn_upmodule(
             f"Adding {a} and {b}: converting to dense.", category=ToDenseWarning
@@ -54,6 +54,11 @@ def add(a: AbstractMatrix, b: AbstractMatrix):
     return Dense(B.add(B.dense(a), B.dense(b)))
 
 
+@B.dispatch
+def add(a: AbstractMatrix, b: AbstractMatrix):
+    return _add_dense(a, b)
+
+
 @B.dispatch
 def add(a: Dense, b: Dense):
     return Dense(B.add(a.mat, b.mat))
@@ -64,6 +69,8 @@ def add(a: Dense, b: Dense):
 
 @B.dispatch
 def add(a: Diagonal, b: Diagonal):
+    if expands(a, b) or expands(b, a):
+        return _add_dense(a, b)
     return Diagonal(B.add(a.diag, b.diag))
 
 
@@ -96,6 +103,8 @@ def add(a: Constant, b: AbstractMatrix):
 @B.dispatch
 def add(a: Constant, b: Diagonal):
     assert_compatible(B.shape(a), B.shape(b))
+    if expands(b, a):
+        return _add_dense(a, b)
     a = Constant(a.const, *B.shape_matrix_broadcast(a, b))
     return add(convert(a, LowRank), b)
 
@@ -109,11 +118,15 @@ _reverse_call(Constant, Diagonal)
 
 @B.dispatch
 def add(a: LowerTriangular, b: LowerTriangular):
+    if expands(a, b) or expands(b, a):
+        return _add_dense(a, b)
     return LowerTriangular(a.mat + b.mat)
 
 
 @B.dispatch
 def add(a: LowerTriangular, b: Diagonal):
+    if expands(a, b) or expands(b, a):
+        return _add_dense(a, b)
     # TODO: Optimise away `B.dense` call.
     return LowerTriangular(a.mat + B.dense(b))
 
@@ -126,6 +139,8 @@ _reverse_call(LowerTriangular, Diagonal)
 
 @B.dispatch
 def add(a: UpperTriangular, b: UpperTriangular):
+    if expands(a, b) or expands(b, a):
+        return _add_dense(a, b)
     return UpperTriangular(a.mat + b.mat)
 
 
@@ -136,6 +151,8 @@ def add(a: UpperTriangular, b: LowerTriangular):
 
 @B.dispatch
 def add(a: UpperTriangular, b: Diagonal):
+    if expands(a, b) or expands(b, a):
+        return _add_dense(a, b)
     return UpperTriangular(a.mat + B.dense(b))
 
 
@@ -216,11 +233,15 @@ def add(a: Constant, b: LowRank):
 
 @B.dispatch
 def add(a: LowRank, b: Diagonal):
+    if expands(a, b) or expands(b, a):
+        return _add_dense(a, b)
     return Woodbury(b, a)
 
 
 @B.dispatch
 def add(a: Diagonal, b: LowRank):
+    if expands(a, b) or expands(b, a):
+        return _add_dense(a, b)
     return Woodbury(a, b)
 
 
diff --git a/matrix/ops/util.py b/matrix/ops/util.py
index ddef99b..968e7fc 100644
--- a/matrix/ops/util.py
+++ b/matrix/ops/util.py
@@ -1,11 +1,12 @@
 from typing import List, Union
 
 import lab as B
+from lab.shape import Shape
 from plum import Dispatcher
 
 from ..matrix import AbstractMatrix
 
-__all__ = ["align_batch", "batch_ones"]
+__all__ = ["align_batch", "batch_ones", "expands"]
 
 _dispatch = Dispatcher()
 
@@ -49,3 +50,17 @@ def batch_ones(a):
             of `a`.
     """
     return (1,) * len(B.shape_batch(a))
+
+
+def expands(a, *others):
+    """Check whether broadcasting against other matrices expands the matrix dimensions
+    of a matrix. If this is the case, the structure of the matrix will be lost.
+
+    Args:
+        a (matrix): Matrix.
+        *others (matrix): Matrices to broadcast `a` against.
+
+    Returns:
+        bool: `True` if the matrix dimensions of `a` are expanded and `False` otherwise.
+    """
+    return Shape(*B.shape_matrix_broadcast(a, *others)) != Shape(*B.shape_matrix(a))
-- 
2.43.0


From 5a19a8375c0e0d173670a99ed3b1a586cd76e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 05/24] fix: do not claim structure for products whose matrix
 dimensions are broadcast

---
 matrix/ops/multiply.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/matrix/ops/multiply.py b/matrix/ops/multiply.py
index 929aa6f..0e91efc 100644
--- a/matrix/ops/multiply.py
+++ b/matrix/ops/multiply.py
@@ -2,7 +2,7 @@ import lab as B
 from algebra import proven
 from wbml.warning import warn_upmodule
 
-from .util import align_batch
+from .util import align_batch, expands
 from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
@@ -40,8 +40,7 @@ def multiply(a: Zero, b: AbstractMatrix):
 # Dense
 
 
-@B.dispatch
-def multiply(a: AbstractMatrix, b: AbstractMatrix):
+def _multiply_dense(a, b):
     if structured(a, b):
         warn_upmodule(
             f"Multiplying {a} and {b}: converting to dense.", category=ToDenseWarning
@@ -49,6 +48,11 @@ def multiply(a: AbstractMatrix, b: AbstractMatrix):
     return Dense(B.multiply(B.dense(a), B.dense(b)))
 
 
+@B.dispatch
+def multiply(a: AbstractMatrix, b: AbstractMatrix):
+    return _multiply_dense(a, b)
+
+
 @B.dispatch
 def multiply(a: Dense, b: Dense):
     return Dense(B.multiply(a.mat, b.mat))
@@ -59,12 +63,16 @@ def multiply(a: Dense, b: Dense):
 
 @B.dispatch
 def multiply(a: Diagonal, b: Diagonal):
+    if expands(a, b) or expands(b, a):
+        return _multiply_dense(a, b)
     return Diagonal(B.multiply(a.diag, b.diag))
 
 
 @B.dispatch
 def multiply(a: Diagonal, b: AbstractMatrix):
     assert_compatible(B.shape(a), B.shape(b))
+    if expands(a, b):
+        return _multiply_dense(a, b)
     # In the case of broadcasting, `B.diag(b)` will get the diagonal of `b`, which may
     # not be equalt to the diagonal broadcasted version of `b`.
     rows, cols = B.shape_matrix(b)
@@ -113,6 +121,8 @@ def multiply(a: Constant, b: AbstractMatrix):
 @B.dispatch
 def multiply(a: Constant, b: Diagonal):
     assert_compatible(B.shape(a), B.shape(b))
+    if expands(b, a):
+        return _multiply_dense(a, b)
     return Diagonal(
         B.multiply(B.expand_dims(a.const, axis=-1, ignore_scalar=True), b.diag)
     )
@@ -127,17 +137,23 @@ _reverse_call(Constant, Diagonal)
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: LowerTriangular):
+    if expands(a, b) or expands(b, a):
+        return _multiply_dense(a, b)
     return LowerTriangular(B.multiply(a.mat, b.mat))
 
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: AbstractMatrix):
+    if expands(a, b):
+        return _multiply_dense(a, b)
     # TODO: Optimise away `B.dense` call.
     return LowerTriangular(B.multiply(a.mat, B.dense(b)))
 
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: Constant):
+    if expands(a, b):
+        return _multiply_dense(a, b)
     return LowerTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
@@ -154,22 +170,31 @@ redirect(B.multiply, (LowerTriangular, Diagonal), (AbstractMatrix, Diagonal))
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: UpperTriangular):
+    if expands(a, b) or expands(b, a):
+        return _multiply_dense(a, b)
     return UpperTriangular(B.multiply(a.mat, b.mat))
 
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: LowerTriangular):
+    rows, cols = B.shape_matrix(a)
+    if rows != cols or expands(a, b) or expands(b, a):
+        return _multiply_dense(a, b)
     return Diagonal(B.multiply(B.diag(a), B.diag(b)))
 
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: AbstractMatrix):
+    if expands(a, b):
+        return _multiply_dense(a, b)
     # TODO: Optimise away `B.dense` call.
     return UpperTriangular(B.multiply(a.mat, B.dense(b)))
 
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: Constant):
+    if expands(a, b):
+        return _multiply_dense(a, b)
     return UpperTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
@@ -231,6 +256,8 @@ def multiply(a: LowRank, b: LowRank):
 @B.dispatch
 def multiply(a: Constant, b: LowRank):
     assert_compatible(B.shape(a), B.shape(b))
+    if expands(b, a):
+        return _multiply_dense(a, b)
     return LowRank(
         b.left,
         b.right,
@@ -284,6 +311,8 @@ def multiply(a: Kronecker, b: Kronecker):
 @B.dispatch
 def multiply(a: Constant, b: Kronecker):
     assert_compatible(B.shape(a), B.shape(b))
+    if expands(b, a):
+        return _multiply_dense(a, b)
     return Kronecker(
         B.multiply(
             B.expand_dims(a.const, axis=-1, times=2, ignore_scalar=True), b.left
-- 
2.43.0


From 386e142e75356bf06690ccd7a37a24ff3bada15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 06/24] fix: only keep structure in powers that preserve zeros

---
 matrix/ops/power.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/matrix/ops/power.py b/matrix/ops/power.py
index da55a72..dca3a46 100644
--- a/matrix/ops/power.py
+++ b/matrix/ops/power.py
@@ -11,41 +11,62 @@ from ..util import ToDenseWarning
 __all__ = []
 
 
+def _power_dense(a, b):
+    if structured(a):
+        warn_upmodule(
+            f"Taking an element-wise power of {a}: converting to dense.",
+            category=ToDenseWarning,
+        )
+    return Dense(B.power(B.dense(a), b))
+
+
+def _preserves_zeros(b):
+    # Only powers with a positive exponent send zero to zero.
+    return isinstance(b, B.Number) and b > 0
+
+
 @B.dispatch
 def power(a: Zero, b: B.Numeric):
+    if not _preserves_zeros(b):
+        return _power_dense(a, b)
     return a
 
 
 @B.dispatch
 def power(a: AbstractMatrix, b: B.Numeric):
-    if structured(a):
-        warn_upmodule(
-            f"Taking an element-wise power of {a}: converting to dense.",
-            category=ToDenseWarning,
-        )
-    return Dense(B.power(B.dense(a), b))
+    return _power_dense(a, b)
 
 
 @B.dispatch
 def power(a: Diagonal, b: B.Numeric):
+    if not _preserves_zeros(b):
+        return _power_dense(a, b)
     return Diagonal(B.power(a.diag, b))
 
 
 @B.dispatch
 def power(a: Constant, b: B.Numeric):
+    if not B.is_scalar(b):
+        return _power_dense(a, b)
     return Constant(B.power(a.const, b), a.rows, a.cols)
 
 
 @B.dispatch
 def power(a: LowerTriangular, b: B.Numeric):
+    if not _preserves_zeros(b):
+        return _power_dense(a, b)
     return LowerTriangular(B.power(a.mat, b))
 
 
 @B.dispatch
 def power(a: UpperTriangular, b: B.Numeric):
+    if not _preserves_zeros(b):
+        return _power_dense(a, b)
     return UpperTriangular(B.power(a.mat, b))
 
 
 @B.dispatch
 def power(a: Kronecker, b: B.Numeric):
+    if not B.is_scalar(b):
+        return _power_dense(a, b)
     return Kronecker(B.power(a.left, b), B.power(a.right, b))
-- 
2.43.0


From bef0db2ef15a6761f02c2ced7fa3e0a0a3a6b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 07/24] fix: extract the diagonal of Kronecker products of
 non-square factors correctly

---
 matrix/ops/diag.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 3c349a7..3d29388 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -65,5 +65,13 @@ def diag(a: Woodbury):
 
 @B.dispatch
 def diag(a: Kronecker):
+    rows, cols = B.shape_matrix(a.right)
+    if rows != cols:
+        # The diagonal only factorises over blocks if the blocks are square.
+        warn_upmodule(
+            f"Getting the diagonal of {a}: converting to dense.",
+            category=ToDenseWarning,
+        )
+        return B.diag_extract(B.dense(a))
     left, right = align_batch(a.left, a.right)
     return B.kron(B.diag(left), B.diag(right), -1)
-- 
2.43.0


From 487a9f23f5a0b3a9adf6560828d177a83646934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 08/24] fix: take the rows of batched low-rank factors, not
 their batch elements

---
 matrix/ops/take.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index dbd5015..6721126 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -104,9 +104,9 @@ def take(a: UpperTriangular, indices_or_mask, axis: B.Int = -2):
 def take(a: LowRank, indices_or_mask, axis: B.Int = -2):
     axis = resolve_axis(a, axis, negative=True)
     if axis == -2:
-        return LowRank(B.take(a.left, indices_or_mask), a.right, a.middle)
+        return LowRank(B.take(a.left, indices_or_mask, axis=-2), a.right, a.middle)
     elif axis == -1:
-        return LowRank(a.left, B.take(a.right, indices_or_mask), a.middle)
+        return LowRank(a.left, B.take(a.right, indices_or_mask, axis=-2), a.middle)
     else:
         left, middle, right = align_batch(a.left, a.middle, a.right)
         axis = resolve_axis(a, axis)
-- 
2.43.0


From f1e435f5b6d8e9ad0fede049147dbf6a934fa938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 09/24] fix: only keep structure in submatrices for indices
 that preserve it

---
 matrix/ops/submatrix.py | 53 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/matrix/ops/submatrix.py b/matrix/ops/submatrix.py
index 8298c09..d2fc0cc 100644
--- a/matrix/ops/submatrix.py
+++ b/matrix/ops/submatrix.py
@@ -25,6 +25,36 @@ def _resolve_indices_or_mask(indices_or_mask):
     return indices_or_mask
 
 
+def _increasing(indices_or_mask, a):
+    # Check that the selection is strictly increasing, which masks always are.
+    x = _resolve_indices_or_mask(indices_or_mask)
+    if B.issubdtype(B.dtype(x), bool):
+        return True
+    elif B.isabstract(x):
+        return False
+    else:
+        rows, cols = B.shape_matrix(a)
+        x = np.array(B.jit_to_numpy(x))
+        if np.any(x < 0):
+            if rows != cols:
+                # Negative indices refer to different rows and columns.
+                return False
+            x = x % rows
+        return bool(np.all(x[1:] > x[:-1]))
+
+
+def _distinct(indices_or_mask, a):
+    # Check that nothing is selected more than once, which masks never do.
+    x = _resolve_indices_or_mask(indices_or_mask)
+    if B.issubdtype(B.dtype(x), bool):
+        return True
+    elif B.isabstract(x):
+        return False
+    else:
+        x = np.array(B.jit_to_numpy(x)) % B.shape_matrix(a, 0)
+        return len(np.unique(x)) == len(x)
+
+
 @B.dispatch
 def submatrix(a: AbstractMatrix, indices_or_mask):
     if structured(a):
@@ -45,7 +75,11 @@ def submatrix(a: Zero, indices_or_mask):
 
 @B.dispatch
 def submatrix(a: Diagonal, indices_or_mask):
-    return Diagonal(B.take(a.diag, indices_or_mask, axis=-1))
+    if _distinct(indices_or_mask, a):
+        return Diagonal(B.take(a.diag, indices_or_mask, axis=-1))
+    else:
+        # Repeated indices give off-diagonal elements.
+        return submatrix.invoke(AbstractMatrix, object)(a, indices_or_mask)
 
 
 @B.dispatch
@@ -57,12 +91,22 @@ def submatrix(a: Constant, indices_or_mask):
 
 @B.dispatch
 def submatrix(a: LowerTriangular, indices_or_mask):
-    return LowerTriangular(B.submatrix(a.mat, indices_or_mask))
+    mat = B.submatrix(a.mat, indices_or_mask)
+    if _increasing(indices_or_mask, a):
+        return LowerTriangular(mat)
+    else:
+        # Unsorted or repeated indices give elements on the other side of the diagonal.
+        return Dense(mat)
 
 
 @B.dispatch
 def submatrix(a: UpperTriangular, indices_or_mask):
-    return UpperTriangular(B.submatrix(a.mat, indices_or_mask))
+    mat = B.submatrix(a.mat, indices_or_mask)
+    if _increasing(indices_or_mask, a):
+        return UpperTriangular(mat)
+    else:
+        # Unsorted or repeated indices give elements on the other side of the diagonal.
+        return Dense(mat)
 
 
 @B.dispatch
@@ -76,7 +120,8 @@ def submatrix(a: LowRank, indices_or_mask):
 
 @B.dispatch
 def submatrix(a: Woodbury, indices_or_mask):
-    return Woodbury(
+    # If indices are repeated, then the submatrix of the diagonal part is not diagonal.
+    return B.add(
         B.submatrix(a.diag, indices_or_mask),
         B.submatrix(a.lr, indices_or_mask),
     )
-- 
2.43.0


From 0390bbc51ebab98c06b727633b0e936bbdc33777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 10/24] fix: compute Kronecker products between two zero
 matrices

---
 matrix/ops/kron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/kron.py b/matrix/ops/kron.py
index 0a5f26c..7ff996c 100644
--- a/matrix/ops/kron.py
+++ b/matrix/ops/kron.py
@@ -24,7 +24,7 @@ def kron(a: AbstractMatrix, b: Zero):
 
 @B.dispatch(precedence=proven())
 def kron(a: Zero, b: AbstractMatrix):
-    return kron(b, a)
+    return Zero(B.dtype(a), *B.shape_batch_broadcast(a, b), *_product_shape(a, b))
 
 
 # Dense
-- 
2.43.0


From 39a5d5ae2f7e3e8873acffef244260d78da0b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 11/24] fix: form block-diagonal matrices of batched tiled
 blocks

---
 matrix/ops/block_diag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index 0c03d1f..17b1159 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -8,7 +8,7 @@ from ..diagonal import Diagonal
 from ..matrix import AbstractMatrix, Dense
 from ..tiledblocks import TiledBlocks
 from ..util import ToDenseWarning
-from .util import align_batch
+from .util import align_batch, batch_ones
 
 __all__ = []
 
@@ -112,7 +112,7 @@ def _attempt_diagonal(blocks):
 def block_diag(a: TiledBlocks):
     return B.block_diag(
         *[
-            B.kron(B.eye(B.dtype(block), rep), block)
+            B.kron(B.eye(B.dtype(block), *batch_ones(block), rep, rep), block)
             for block, rep in zip(a.blocks, a.reps)
         ]
     )
-- 
2.43.0


From 3e300d42cc6a6f023d855e28b07842c9a64ceb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 12/24] fix: form block-diagonal matrices of a single array

---
 matrix/ops/block_diag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index 17b1159..300c89f 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -25,6 +25,10 @@ def block_diag(element: B.Numeric, *elements: B.Numeric):
     """
     elements = (element,) + elements
 
+    if len(elements) == 1:
+        # There is just one element. Return it.
+        return elements[0]
+
     # Align the batch dimensions to allow concatenation.
     elements = align_batch(*elements)
 
-- 
2.43.0


From 7ab1c9810fa0c36bbf82d71dca700dacbc4b8baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 13/24] fix: reject zero right-hand sides of incompatible
 shapes in solves

---
 matrix/ops/solve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/ops/solve.py b/matrix/ops/solve.py
index 91d9275..f9bc1a5 100644
--- a/matrix/ops/solve.py
+++ b/matrix/ops/solve.py
@@ -2,10 +2,12 @@ import lab as B
 from algebra import proven
 from wbml.warning import warn_upmodule
 
+from .matmul import _assert_composable
 from .util import align_batch
 from ..constant import Zero
 from ..diagonal import Diagonal
 from ..matrix import AbstractMatrix, Dense, structured
+from ..shape import assert_square
 from ..triangular import LowerTriangular, UpperTriangular
 from ..util import ToDenseWarning
 from ..woodbury import Woodbury
@@ -15,6 +17,10 @@ __all__ = []
 
 @B.dispatch(precedence=proven())
 def solve(a: AbstractMatrix, b: Zero):
+    assert_square(a, f"Can only solve against square matrices, but not against {a}.")
+    _assert_composable(a, b)
+    # Also the batch dimensions must be compatible.
+    B.shape_batch_broadcast(a, b)
     return b
 
 
-- 
2.43.0


From d0c4d2c79d0cb05785185b3aac6b4235ea7e58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 14/24] fix: compute log-determinants of low-rank and constant
 matrices from the dense matrix

---
 matrix/ops/logdet.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/logdet.py b/matrix/ops/logdet.py
index bcc183a..7f73708 100644
--- a/matrix/ops/logdet.py
+++ b/matrix/ops/logdet.py
@@ -1,12 +1,16 @@
 from typing import Union
 
 import lab as B
+from wbml.warning import warn_upmodule
 
+from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
-from ..matrix import AbstractMatrix
+from ..lowrank import LowRank
+from ..matrix import AbstractMatrix, Dense
 from ..shape import assert_square
 from ..triangular import LowerTriangular, UpperTriangular
+from ..util import ToDenseWarning
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -17,6 +21,16 @@ def logdet(a: AbstractMatrix):
     return 2 * B.logdet(B.cholesky(a))
 
 
+@B.dispatch
+def logdet(a: Union[Zero, Constant, LowRank]):
+    # The Cholesky-like decompositions of these matrices are not triangular.
+    warn_upmodule(
+        f"Converting {a} to dense to compute its log-determinant.",
+        category=ToDenseWarning,
+    )
+    return B.logdet(Dense(B.dense(a)))
+
+
 @B.dispatch
 def logdet(a: Union[Diagonal, LowerTriangular, UpperTriangular]):
     return B.sum(B.log(B.diag(a)), axis=-1)
-- 
2.43.0


From b615891678c01c941e062f0a7d04cd3180abfeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 15/24] fix: sample the parts of Woodbury matrices separately
 for every batch element

---
 matrix/ops/sample.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/sample.py b/matrix/ops/sample.py
index 42c9ed9..15f27b9 100644
--- a/matrix/ops/sample.py
+++ b/matrix/ops/sample.py
@@ -40,6 +40,10 @@ def sample(a, num: B.Int = 1):
 
 @B.dispatch
 def sample(state: B.RandomState, a: Woodbury, num: B.Int = 1):
-    state, sample_diag = B.sample(state, a.diag, num=num)
-    state, sample_lr = B.sample(state, a.lr, num=num)
+    # Every batch element must have its own noise, also if a part has no batch.
+    batch = B.shape_batch(a)
+    diag = B.broadcast_batch_to(a.diag, *batch)
+    lr = B.broadcast_batch_to(a.lr, *batch)
+    state, sample_diag = B.sample(state, diag, num=num)
+    state, sample_lr = B.sample(state, lr, num=num)
     return state, sample_diag + sample_lr
-- 
2.43.0


From 98b5fd9dff24c66e5402dc9c9d1c5a47e2ea4f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 16/24] fix: reject Woodbury matrices of which the matrix
 shapes of the parts differ

---
 matrix/woodbury.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/woodbury.py b/matrix/woodbury.py
index 4062294..47ac172 100644
--- a/matrix/woodbury.py
+++ b/matrix/woodbury.py
@@ -37,6 +37,12 @@ class Woodbury(AbstractMatrix):
     @_dispatch
     def __init__(self, diag: Diagonal, lr: LowRank):
         assert_compatible(B.shape(diag), B.shape(lr))
+        # The matrix dimensions of the parts cannot be broadcast.
+        if tuple(B.shape_matrix(diag)) != tuple(B.shape_matrix(lr)):
+            raise AssertionError(
+                f"Diagonal part has matrix shape {B.shape_matrix(diag)}, but low-rank "
+                f"part has matrix shape {B.shape_matrix(lr)}."
+            )
         self.diag = diag
         self.lr = lr
         self.cholesky = None
-- 
2.43.0


From ed339c4c73d84e8dae7a6d5fbfa7cb6826606fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 17/24] fix: low-rank matrices reject a middle factor that does
 not fit the omitted right factor

---
 matrix/lowrank.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/matrix/lowrank.py b/matrix/lowrank.py
index 30fdb6d..58b85c2 100644
--- a/matrix/lowrank.py
+++ b/matrix/lowrank.py
@@ -53,6 +53,15 @@ class LowRank(AbstractMatrix):
                     f"Left factor has {B.shape_matrix(self.left, 1)} column(s), "
                     f"but middle factor has {B.shape_matrix(self.middle, 0)} row(s)."
                 )
+            # If the right factor is omitted, then it is the left factor.
+            if self._right is None and (
+                B.shape_matrix(self.left, 1) != B.shape_matrix(self._middle, 1)
+            ):
+                raise AssertionError(
+                    f"Right factor is omitted, left factor has "
+                    f"{B.shape_matrix(self.left, 1)} column(s), but middle factor has "
+                    f"{B.shape_matrix(self._middle, 1)} column(s)."
+                )
 
         # Check right factor, if it is given.
         if self._right is not None:
-- 
2.43.0


From 7a8d3986e1e3c5bc8c88ba54cbd7b8422527136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 18/24] fix: low-rank matrices and Kronecker products reject
 factors that do not fit

---
 matrix/kronecker.py | 6 ++++++
 matrix/lowrank.py   | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/matrix/kronecker.py b/matrix/kronecker.py
index 0523b77..ff81305 100644
--- a/matrix/kronecker.py
+++ b/matrix/kronecker.py
@@ -2,6 +2,7 @@ import lab as B
 from lab.shape import Shape
 
 from .matrix import AbstractMatrix, repr_format
+from .shape import assert_matrix
 from .util import dtype_str, indent
 
 __all__ = ["Kronecker"]
@@ -27,6 +28,11 @@ class Kronecker(AbstractMatrix):
     """
 
     def __init__(self, left, right):
+        msg = "Can only construct Kronecker products from matrix factors."
+        assert_matrix(left, f"Left factor is not a tensor of at least rank 2. {msg}")
+        assert_matrix(right, f"Right factor is not a tensor of at least rank 2. {msg}")
+        # Check that the batches of the factors are compatible.
+        B.shape_batch_broadcast(left, right)
         self.left = left
         self.right = right
         self.cholesky = None
diff --git a/matrix/lowrank.py b/matrix/lowrank.py
index 58b85c2..f858955 100644
--- a/matrix/lowrank.py
+++ b/matrix/lowrank.py
@@ -83,6 +83,10 @@ class LowRank(AbstractMatrix):
                         f"but left factor has {B.shape_matrix(self.left, 1)} column(s)."
                     )
 
+        # Check that the batches of the factors are compatible.
+        factors = (self.left, self._right, self._middle)
+        B.shape_batch_broadcast(*(x for x in factors if x is not None))
+
         # Caching attributes:
         self.cholesky = None
         self.dense = None
-- 
2.43.0


From 3ea9f24f5250f4aef0b99c90dc380000541f0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 19/24] fix: zero and constant matrices are not broadcast to
 shapes that they cannot be broadcast to

---
 matrix/ops/broadcast_batch_to.py |  2 ++
 matrix/ops/broadcast_to.py       |  8 +++++---
 matrix/shape.py                  | 15 +++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/matrix/ops/broadcast_batch_to.py b/matrix/ops/broadcast_batch_to.py
index 60e0e47..a94f17d 100644
--- a/matrix/ops/broadcast_batch_to.py
+++ b/matrix/ops/broadcast_batch_to.py
@@ -5,6 +5,7 @@ from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import Dense
+from ..shape import assert_broadcastable
 from ..triangular import LowerTriangular, UpperTriangular
 from ..woodbury import Woodbury
 
@@ -31,6 +32,7 @@ def broadcast_batch_to(a: B.Numeric, *batch: B.Int):
 
 @B.dispatch
 def broadcast_batch_to(a: Zero, *batch: B.Int):
+    assert_broadcastable(a.batch, batch)
     return Zero(a.dtype, *batch, a.rows, a.cols)
 
 
diff --git a/matrix/ops/broadcast_to.py b/matrix/ops/broadcast_to.py
index 27b25df..f9a0a0e 100644
--- a/matrix/ops/broadcast_to.py
+++ b/matrix/ops/broadcast_to.py
@@ -5,7 +5,7 @@ from wbml.warning import warn_upmodule
 
 from ..constant import Constant, Zero
 from ..matrix import AbstractMatrix, Dense, structured
-from ..shape import expand_and_broadcast
+from ..shape import assert_broadcastable
 from ..util import ToDenseWarning
 
 __all__ = []
@@ -39,9 +39,11 @@ def _broadcast_to(a: AbstractMatrix, *shape: B.Int):
 
 @_dispatch
 def _broadcast_to(a: Zero, *shape: B.Int):
-    return Zero(a.dtype, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    assert_broadcastable(B.shape(a), shape)
+    return Zero(a.dtype, *shape)
 
 
 @_dispatch
 def _broadcast_to(a: Constant, *shape: B.Int):
-    return Constant(a.const, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    assert_broadcastable(B.shape(a), shape)
+    return Constant(a.const, *shape)
diff --git a/matrix/shape.py b/matrix/shape.py
index e34449d..18e4cb1 100644
--- a/matrix/shape.py
+++ b/matrix/shape.py
@@ -8,6 +8,7 @@ __all__ = [
     "assert_square",
     "compatible",
     "assert_compatible",
+    "assert_broadcastable",
     "broadcast",
     "expand_and_broadcast",
 ]
@@ -89,6 +90,20 @@ def assert_compatible(s1, s2):
         )
 
 
+def assert_broadcastable(s1, s2):
+    """Assert that a shape can be broadcast to another shape.
+
+    Args:
+        s1 (:class:`lab.shape.Shape`): Shape to broadcast.
+        s2 (:class:`lab.shape.Shape`): Shape to broadcast to.
+    """
+    s1, s2 = Shape(*s1), Shape(*s2)
+    if expand_and_broadcast(s1, s2) != s2:
+        raise AssertionError(
+            f"Shape {s1} is asserted to be broadcastable to {s2}, but it is not."
+        )
+
+
 @_dispatch
 def broadcast(s1: Shape, s2: Shape):
     """Broadcast the shapes of two objects.
-- 
2.43.0


From 6fdf04ba689180dbc26fc2e67a12359080a4c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 20/24] fix: log-determinants of triangular matrices that are
 not square raise an error

---
 matrix/ops/logdet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix/ops/logdet.py b/matrix/ops/logdet.py
index 7f73708..b8dec57 100644
--- a/matrix/ops/logdet.py
+++ b/matrix/ops/logdet.py
@@ -33,6 +33,9 @@ def logdet(a: Union[Zero, Constant, LowRank]):
 
 @B.dispatch
 def logdet(a: Union[Diagonal, LowerTriangular, UpperTriangular]):
+    assert_square(
+        a, f"Can only compute the log-determinant of square matrices, but not of {a}."
+    )
     return B.sum(B.log(B.diag(a)), axis=-1)
 
 
-- 
2.43.0


From 2f37f56ed85004a6df386b26f73e38f61933f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 21/24] fix: select submatrices in compiled functions, where
 shapes are lazy and indices may be abstract

---
 matrix/ops/submatrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matrix/ops/submatrix.py b/matrix/ops/submatrix.py
index d2fc0cc..23b2b38 100644
--- a/matrix/ops/submatrix.py
+++ b/matrix/ops/submatrix.py
@@ -30,10 +30,10 @@ def _increasing(indices_or_mask, a):
     x = _resolve_indices_or_mask(indices_or_mask)
     if B.issubdtype(B.dtype(x), bool):
         return True
-    elif B.isabstract(x):
+    elif B.isabstract(x) and not B.control_flow.use_cache:
         return False
     else:
-        rows, cols = B.shape_matrix(a)
+        rows, cols = (int(d) for d in B.shape_matrix(a))
         x = np.array(B.jit_to_numpy(x))
         if np.any(x < 0):
             if rows != cols:
@@ -48,10 +48,10 @@ def _distinct(indices_or_mask, a):
     x = _resolve_indices_or_mask(indices_or_mask)
     if B.issubdtype(B.dtype(x), bool):
         return True
-    elif B.isabstract(x):
+    elif B.isabstract(x) and not B.control_flow.use_cache:
         return False
     else:
-        x = np.array(B.jit_to_numpy(x)) % B.shape_matrix(a, 0)
+        x = np.array(B.jit_to_numpy(x)) % int(B.shape_matrix(a, 0))
         return len(np.unique(x)) == len(x)
 
 
-- 
2.43.0


From 38b2eb82a613804a647aa738676a18e37f5ddf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 22/24] fix: NumPy arrays on the left of an operator defer to
 the matrix on the right

---
 matrix/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix/matrix.py b/matrix/matrix.py
index d39eff5..996b0a6 100644
--- a/matrix/matrix.py
+++ b/matrix/matrix.py
@@ -17,6 +17,9 @@ _dispatch = Dispatcher()
 class AbstractMatrix(metaclass=abc.ABCMeta):
     """Abstract matrix type."""
 
+    # NumPy arrays on the left should defer to the reflected operators below.
+    __array_ufunc__ = None
+
     def __neg__(self):
         return B.negative(self)
 
-- 
2.43.0


From f3a63671ea48196b95796b078c276cc74f697147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:49 +0000
Subject: [PATCH 23/24] fix: sums of constant matrices made by operations are
 numeric, not arrays of objects

---
 matrix/constant.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/matrix/constant.py b/matrix/constant.py
index 4e27567..7e9457f 100644
--- a/matrix/constant.py
+++ b/matrix/constant.py
@@ -1,5 +1,5 @@
 import lab as B
-from lab.shape import Shape
+from lab.shape import Shape, unwrap_dimension
 
 from .matrix import AbstractMatrix, repr_format
 from .util import dtype_str, indent
@@ -76,8 +76,9 @@ class Constant(AbstractMatrix):
         # Check that at least a rank-2 tensor is specified.
         if len(shape) < 2:
             raise ValueError("Must specify the number of rows and columns.")
-        self.rows = shape[-2]
-        self.cols = shape[-1]
+        # The sizes are used in computations, where dimensions would give objects.
+        self.rows = unwrap_dimension(shape[-2])
+        self.cols = unwrap_dimension(shape[-1])
         if shape[:-2] == ():
             # No batch shape was specified. Infer it from `const`.
             self.batch = B.shape(const)
-- 
2.43.0


From 3fb1c7cf0f2ed6c9739d232dc5bb3a3f02bf104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:49 +0000
Subject: [PATCH 24/24] fix: means of structured matrices along an axis are
 numeric, not arrays of objects

---
 matrix/ops/mean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/mean.py b/matrix/ops/mean.py
index 44094c6..5872eab 100644
--- a/matrix/ops/mean.py
+++ b/matrix/ops/mean.py
@@ -3,6 +3,7 @@ from operator import mul
 from typing import Union
 
 import lab as B
+from lab.shape import unwrap_dimension
 from lab.util import resolve_axis
 
 from ..matrix import AbstractMatrix
@@ -15,5 +16,5 @@ def mean(a: AbstractMatrix, axis: Union[B.Int, None] = None):
     if axis is None:
         n = reduce(mul, B.shape(a), 1)
     else:
-        n = B.shape(a, resolve_axis(a, axis))
+        n = unwrap_dimension(B.shape(a, resolve_axis(a, axis)))
     return B.sum(a, axis=axis) / n
-- 
2.43.0


From 6c15c15f99390cacfb77bce5c86f7e0050f482ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 01/25] fix: make lookup table caches safe against crashes, I/O
 errors and corruption

The cache file was truncated and rewritten in place, so an interrupted or
concurrent run left an incomplete file behind that made every later run
raise. Write to a temporary file that atomically replaces the cache, and
fall back to regenerating the table if the cache cannot be read.
---
 e3x/so3/_lookup_table_generation_utility.py | 49 +++++++++++++++------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/e3x/so3/_lookup_table_generation_utility.py b/e3x/so3/_lookup_table_generation_utility.py
index 44dd3f9..654cc94 100644
--- a/e3x/so3/_lookup_table_generation_utility.py
+++ b/e3x/so3/_lookup_table_generation_utility.py
@@ -17,6 +17,7 @@
 import io
 import pkgutil
 from typing import Any, Callable, Dict, IO, Optional, Tuple
+import uuid
 import zipfile
 from absl import logging
 from etils import epath
@@ -56,23 +57,34 @@ def _load_lookup_table_from_disk(
   """
   # Load cached lookup table from path specified in Config.
   if config_cache_path is not None and config_cache_path.exists():
-    with config_cache_path.open('rb') as f:
-      return load_from_cache(f)
-  else:  # Load pre-computed lookup table included with package.
     try:
-      f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
-      return load_from_cache(f)
-    except (zipfile.BadZipFile, OSError, IOError, KeyError, ValueError):
+      with config_cache_path.open('rb') as f:
+        return load_from_cache(f)
+    except Exception:  # pylint: disable=broad-exception-caught
+      # Reading a damaged file can fail in many different ways.
       logging.exception(
           (
-              'Failed to load pre-computed %s lookup table included with the %s'
-              ' package (data may be corrupted). Consider re-installing the'
-              ' package to fix this problem.'
+              "Failed to load %s lookup table from '%s' (data may be"
+              ' corrupted). Ignoring its contents and continuing anyway...'
           ),
           lookup_table_name,
-          __name__,
+          config_cache_path,
       )
-      return -1, init_empty_lookup_table(max_degree)
+  # Load pre-computed lookup table included with package.
+  try:
+    f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
+    return load_from_cache(f)
+  except (zipfile.BadZipFile, OSError, IOError, KeyError, ValueError):
+    logging.exception(
+        (
+            'Failed to load pre-computed %s lookup table included with the %s'
+            ' package (data may be corrupted). Consider re-installing the'
+            ' package to fix this problem.'
+        ),
+        lookup_table_name,
+        __name__,
+    )
+    return -1, init_empty_lookup_table(max_degree)
 
 
 def _print_cache_usage_information(
@@ -152,9 +164,20 @@ def _save_lookup_table_to_disk(
   """
   logging.info('Saving %s lookup table to disk.', lookup_table_name)
   if config_cache_path is not None:
+    # The lookup table is first written to a temporary file, which then replaces
+    # the cache file. This way, interrupted or concurrent runs can never leave
+    # an incomplete lookup table behind.
+    tmp_path = config_cache_path.with_name(
+        f'{config_cache_path.name}.{uuid.uuid4().hex}.tmp'
+    )
     try:
-      with config_cache_path.open('wb') as f:
-        np.savez_compressed(f, **lookup_table)
+      try:
+        with tmp_path.open('wb') as f:
+          np.savez_compressed(f, **lookup_table)
+        tmp_path.replace(config_cache_path)
+      except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
     except (OSError, IOError):
       logging.exception(
           "Failed to save %s lookup table to '%s'. Continuing anyway...",
-- 
2.43.0


From fb7ddb171ef883a45702fee1ef7ef072a1de820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 02/25] fix: alignment_rotation for (almost) antiparallel
 vectors

The antiparallel case was only detected when rounding made the denominator
exactly zero, and then used a rotation axis that vanishes for u parallel to
(1, 1, 1); in both cases u was not mapped to v. For almost antiparallel
vectors, the result was not even orthogonal due to loss of precision.
---
 e3x/so3/rotations.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 267bfd2..67cd864 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -121,24 +121,38 @@ def alignment_rotation(
   u = ops.normalize(u, axis=-1)
   v = ops.normalize(v, axis=-1)
 
+  # The direct formula is only well-conditioned when the angle between both
+  # vectors is not too large. If they point to opposite half-spaces, u is
+  # aligned with -v first.
+  dot = jnp.sum(u * v, axis=-1, keepdims=True)
+  flip = dot < 0
+
   # Create the skew-symmetric cross product matrix.
-  x = jnp.cross(u, v)  # Cross product vector.
+  cross = jnp.cross(u, v)  # Cross product vector.
+  x = jnp.where(flip, -cross, cross)
   zeros = jnp.zeros_like(x[..., 0:1])
   col1 = jnp.concatenate((zeros, -x[..., 2:3], x[..., 1:2]), axis=-1)
   col2 = jnp.concatenate((x[..., 2:3], zeros, -x[..., 0:1]), axis=-1)
   col3 = jnp.concatenate((-x[..., 1:2], x[..., 0:1], zeros), axis=-1)
   skew = jnp.stack((col1, col2, col3), axis=-1)
 
-  # Calculate rotation matrix (does not handle antiparallel case correctly).
-  div = 1 + jnp.sum(u * v, axis=-1)
-  mask = div > 0
-  safe_div = jnp.where(mask, div, 1)
-  rot = skew + skew @ skew * (1 / safe_div)[..., None, None] + jnp.eye(3)
+  # Calculate rotation matrix that aligns u with v (or -v).
+  rot = skew + skew @ skew / (1 + jnp.abs(dot))[..., None] + jnp.eye(3)
 
-  # Handle antiparallel case.
-  w = ops.normalize(u + jnp.roll(u, shift=1, axis=-1))
-  axis = jnp.cross(u, w)
-  rot = jnp.where(mask[..., None, None], rot, rotation(axis, jnp.pi))
+  # Rotate by 180° about an axis perpendicular to v to get from -v to v. When u
+  # and v are (almost) antiparallel, the direction of their cross product is not
+  # well-defined and the axis is arbitrary.
+  eps = 4 * jnp.finfo(cross.dtype).eps
+  is_defined = jnp.sum(cross * cross, axis=-1, keepdims=True) > eps * eps
+  other = jax.nn.one_hot(
+      jnp.argmin(jnp.abs(v), axis=-1), num_classes=3, dtype=cross.dtype
+  )
+  axis = jnp.where(is_defined, cross, other)
+  axis = ops.normalize(axis, axis=-1)
+  axis = axis - jnp.sum(axis * v, axis=-1, keepdims=True) * v
+  axis = ops.normalize(axis, axis=-1)
+  half_turn = 2 * axis[..., :, None] * axis[..., None, :] - jnp.eye(3)
+  rot = jnp.where(flip[..., None], rot @ half_turn, rot)
 
   return rot
 
-- 
2.43.0


From cd3165c455fa6016c27da6c7b3fb9f87c76c7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:56 +0000
Subject: [PATCH 03/25] fix: compute the scale used in ops.norm per reduced
 slice

A single scale for the whole array made the norm of one vector depend on
unrelated entries of the batch (underflow to zero or NaN). Derivatives of
vanishingly small norms stay finite independently of the other entries.
---
 e3x/ops/safe.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/e3x/ops/safe.py b/e3x/ops/safe.py
index 61ab0f7..0ea1063 100644
--- a/e3x/ops/safe.py
+++ b/e3x/ops/safe.py
@@ -57,9 +57,13 @@ def norm(
     specified axis removed. If x is a 0-d array, or if axis is None, a scalar is
     returned.
   """
-  a = jnp.maximum(jnp.max(jnp.abs(x)), jnp.finfo(x.dtype).tiny)
+  # The scale must be determined separately for each individual norm, else the
+  # results are influenced by unrelated entries of x.
+  a = jnp.max(jnp.abs(x), axis=axis, keepdims=True)
+  a = jnp.maximum(a, jnp.finfo(x.dtype).tiny)
   b = x / a
-  return a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=keepdims))
+  n = a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=True))
+  return n if keepdims else jnp.squeeze(n, axis=axis)
 
 
 @norm.defjvp
@@ -76,11 +80,15 @@ def _norm_jvp_impl(
   masked_primal_out = jnp.where(primal_out > 0, primal_out, 1)
   if not keepdims and axis is not None:
     masked_primal_out = jnp.expand_dims(masked_primal_out, axis=axis)
-  tangent_out = jnp.sum(
-      x_dot * x / masked_primal_out,
-      axis=axis,
-      keepdims=keepdims,
+  # If primal_out**2 is smaller than finfo.tiny, higher order derivatives are
+  # unstable and primal_out is treated as a constant.
+  is_stable = masked_primal_out * masked_primal_out > jnp.finfo(x.dtype).tiny
+  u = jnp.where(
+      is_stable,
+      x / jnp.where(is_stable, masked_primal_out, 1),
+      x / jax.lax.stop_gradient(masked_primal_out),
   )
+  tangent_out = jnp.sum(x_dot * u, axis=axis, keepdims=keepdims)
   return primal_out, tangent_out
 
 
-- 
2.43.0


From df0644cb8ffc9e38b9b3d2dd973f8da32adc1a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 04/25] fix: padding index of sparse_to_dense_indices must
 exceed all indices

Only dst_idx was considered when pad_idx is None, so entries of src_idx could
be indistinguishable from padding.
---
 e3x/ops/indexed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 1611aa6..17642a8 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -232,7 +232,8 @@ def sparse_to_dense_indices(
   if dst_idx.size == 0:
     return jnp.empty_like(dst_idx, shape=(*dst_idx.shape[:-1], 0, 0))
   # Determine padding index.
-  pad_idx = jnp.max(dst_idx) + 1 if pad_idx is None else pad_idx
+  if pad_idx is None:
+    pad_idx = jnp.maximum(jnp.max(dst_idx), jnp.max(src_idx)) + 1
   # Remember original batch dimensions (might also be empty).
   batch_dims = dst_idx.shape[:-1]
   # Reshape so looping over batch dimension is possible.
-- 
2.43.0


From 49c0652cf46b4c011bad18957be30ebb5e59d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 05/25] fix: prevent NaNs in indexed_softmax when all entries
 are masked

Elements without any neighbors (e.g. all of them beyond the cutoff) produced
0/0 and poisoned the outputs and gradients of attention layers.
---
 e3x/ops/indexed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 17642a8..8328c18 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -801,6 +801,8 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
+  # Without any entries, there is no maximum.
+  maximum = jnp.where(maximum > jnp.finfo(inputs.dtype).min, maximum, 0)
   numerator = jnp.exp(inputs - lax.stop_gradient(maximum))
   if multiplicative_mask is not None:
     numerator *= multiplicative_mask
@@ -813,4 +815,5 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  return numerator / denominator
+  # Prevent division by zero if all entries are masked.
+  return numerator / jnp.where(denominator > 0, denominator, 1)
-- 
2.43.0


From a7e107f5c2a8b2a004b19bff5c8d64d83acfee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 06/25] fix: let changes of Config take effect after e3x is
 imported

The defaults were bound when the modules were imported, so calling
Config.set_cartesian_order, set_use_fused_tensor or set_normalization at the
start of a script (as documented) had no effect. Look them up when a function
is called or a module is instantiated instead.
---
 e3x/nn/modules.py    | 24 +++++++++++++++++------
 e3x/nn/wrappers.py   |  6 +++++-
 e3x/so3/irreps.py    | 45 +++++++++++++++++++++++++++++++++++---------
 e3x/so3/rotations.py |  8 ++++++--
 4 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 937a089..9e01938 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -409,7 +409,9 @@ class Tensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -740,7 +742,9 @@ class FusedTensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1142,8 +1146,12 @@ class TensorDense(nn.Module):
   max_degree: Optional[int] = None
   use_bias: bool = True
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1239,8 +1247,12 @@ class _Conv(nn.Module):
   max_degree: Optional[int] = None
   use_basis_bias: bool = False
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index af7c204..77e2e5d 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -58,7 +58,7 @@ def basis(
     damping_fn: Optional[
         Callable[[Float[Array, '...']], Float[Array, '...']]
     ] = None,
-    cartesian_order: bool = config.Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Union[
     Float[Array, '... 1 (max_degree+1)**2 num'],
     Tuple[Float[Array, '... 1 (max_degree+1)**2 num'], Float[Array, '...']],
@@ -170,6 +170,10 @@ def basis(
     (a tuple of basis function values and cutoff values and/or norms is
     returned).
   """
+  # Use default values for options that are not given.
+  if cartesian_order is None:
+    cartesian_order = config.Config.cartesian_order
+
   # Check that r is a collection of 3-vectors.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
diff --git a/e3x/so3/irreps.py b/e3x/so3/irreps.py
index a7079b7..ee7fa62 100755
--- a/e3x/so3/irreps.py
+++ b/e3x/so3/irreps.py
@@ -15,6 +15,7 @@
 r"""Functions related to irreducible representations of rotations."""
 
 import itertools
+from typing import Optional
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -42,8 +43,8 @@ def spherical_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
     r_is_normalized: bool = False,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian spherical harmonics :math:`Y_\ell^m(\vec{r})`.
 
@@ -132,6 +133,12 @@ def spherical_harmonics(
     ValueError: If ``r`` has an invalid shape (not a 3-vector), ``max_degree``
     is not positive or zero, or ``normalization`` has an invalid value.
   """
+  # Use default values for options that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
@@ -173,7 +180,7 @@ def spherical_harmonics(
 def solid_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian (regular) solid harmonics :math:`R_\ell^m(\vec{r})`.
 
@@ -221,7 +228,7 @@ def clebsch_gordan(
     max_degree1: int,
     max_degree2: int,
     max_degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '(max_degree1+1)**2 (max_degree2+1)**2 (max_degree3+1)**2']:
   r"""Clebsch-Gordan coefficients for coupling all degrees at once.
 
@@ -243,6 +250,10 @@ def clebsch_gordan(
     ValueError: If ``max_degree1``, ``max_degree2``, or ``max_degree3`` are not
       positive or zero.
   """
+  # Use default values for options that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   # Perform checks.
   _check_degree_is_positive_or_zero(max_degree1)
   _check_degree_is_positive_or_zero(max_degree2)
@@ -274,7 +285,7 @@ def clebsch_gordan_for_degrees(
     degree1: int,
     degree2: int,
     degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '2*degree1+1 2*degree2+1 2*degree3+1']:
   r"""Clebsch-Gordan coefficients for coupling only specific degrees.
 
@@ -295,6 +306,10 @@ def clebsch_gordan_for_degrees(
     ValueError: If ``degree1``, ``degree2``, or ``degree3`` are not positive or
       zero.
   """
+  # Use default values for options that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree1)
   _check_degree_is_positive_or_zero(degree2)
@@ -423,8 +438,8 @@ def _tensor_compression_indices(
 def tensor_to_irreps(
     x: Float[Array, '...'],  # Last degree dimensions must all have size 3.
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts a traceless symmetric tensor to irreducible representations.
 
@@ -449,6 +464,12 @@ def tensor_to_irreps(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
     inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  # Use default values for options that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   _check_tensor_shape(x, degree)
@@ -509,8 +530,8 @@ def _tensor_expansion_indices(degree) -> Integer[Array, '...']:
 def irreps_to_tensor(
     x: Float[Array, '... 2*degree+1'],
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts irreducible representations to a traceless symmetric tensor.
 
@@ -529,6 +550,12 @@ def irreps_to_tensor(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
       inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  # Use default values for options that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   if x.shape[-1] != 2 * degree + 1:
diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 67cd864..a41d098 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -15,7 +15,7 @@
 """Functions for generating rotation matrices."""
 
 import functools
-from typing import Tuple, Union
+from typing import Optional, Tuple, Union
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -387,7 +387,7 @@ def _wigner_d_euler(
 def wigner_d(
     rot: Float[Array, '... 3 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2 (max_degree+1)**2']:
   r"""Wigner-D matrix corresponding to a given :math:`3\times3` rotation matrix.
 
@@ -423,6 +423,10 @@ def wigner_d(
   Raises:
     ValueError: If ``rot`` does not have shape `(..., 3, 3)`.
   """
+  # Use default values for options that are not given.
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   _check_rotation_matrix_shape(rot)  # Raise if shape is not (..., 3, 3).
 
   with jax.ensure_compile_time_eval():
-- 
2.43.0


From 0852a30e1d3b2740de680bd96593b05239193ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 07/25] fix: mish(fast=True) must not return NaN for large
 negative inputs

exp(-x) overflows for x < -88 (float32), which resulted in inf / inf.
---
 e3x/nn/activations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 4ff81e5..a51e670 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -551,9 +551,10 @@ def mish(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
     if fast:  # Faster, but requires extra memory.
-      y = jnp.exp(-x)
-      z = 2 * y + 1
-      return z / (z + 2 * y * y)
+      # The exponent is never positive, so neither value nor derivatives overflow.
+      y = jnp.exp(jnp.where(x < 0, x, -x))
+      z = jnp.where(x < 0, y * y + 2 * y, 2 * y + 1)
+      return z / (z + jnp.where(x < 0, 2, 2 * y * y))
     else:
       return jnp.tanh(jax.nn.softplus(x))
 
-- 
2.43.0


From 53f59294816c103437a310cb0f13b0315fa7ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 08/25] fix: shifted_softplus is inaccurate for inputs close to
 zero

The gate was off by up to 40% (and its derivative by a factor of 1e6) for
inputs slightly larger than the machine epsilon.
---
 e3x/nn/activations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index a51e670..8143f27 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -653,12 +653,15 @@ def shifted_softplus(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
+    # The difference is subject to catastrophic cancellation for small x.
+    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps ** 0.25
     safe_x = jnp.where(not_tiny, x, 1)  # division safe x
+    tiny_x = jnp.where(not_tiny, 0, x)  # overflow safe x
     return jnp.where(
         not_tiny,
         (jnp.logaddexp(x, 0) - math.log(2)) / safe_x,
-        x / 8 + 1 / 2,  # + O(x^3) Taylor series around x=0
+        # Taylor series around x=0 up to O(x^5).
+        tiny_x / 8 - tiny_x**3 / 192 + 1 / 2,
     )
 
   return _gated_linear(g, x)
-- 
2.43.0


From ef407bde59d5ed99cec14a73a8fe9be4c81c8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 09/25] fix: derivative of the bent_identity gate is wrong for
 small inputs

sqrt(x^2 + 1) - 1 cancels completely for small x, so the derivative of the gate
was 1/2 instead of 1/4.
---
 e3x/nn/activations.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 8143f27..6ea712a 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -905,12 +905,7 @@ def bent_identity(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
-    safe_x = jnp.where(not_tiny, x, 1)
-    return jnp.where(
-        not_tiny,
-        (jnp.sqrt(x * x + 1) - 1) / (2 * safe_x) + 1,
-        x / 4 + 1,  # + O(x^3) (Taylor series around x=0).
-    )
+    # (sqrt(x^2 + 1) - 1) / (2x) without cancellation or division by zero.
+    return x / (2 * (jnp.sqrt(x * x + 1) + 1)) + 1
 
   return _gated_linear(g, x)
-- 
2.43.0


From 7f1d20a6b23564fbd2d54af313c372958c433a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:43 +0000
Subject: [PATCH 10/25] fix: second and higher derivatives of smooth_switch
 must not be NaN

Close to the lower boundary (e.g. for x in (1e-7, 0.01) in single precision)
the derivative rule was differentiated through an overflowing exponential.
---
 e3x/nn/functions/switch.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/e3x/nn/functions/switch.py b/e3x/nn/functions/switch.py
index 36a3c78..349d096 100644
--- a/e3x/nn/functions/switch.py
+++ b/e3x/nn/functions/switch.py
@@ -126,26 +126,17 @@ def _smooth_switch_jvp_impl(
   small = x < eps
   large = x > 1 - eps
   small_or_large = jnp.logical_or(small, large)
-  safe_x = jnp.where(small_or_large, 0.5, x)
 
-  # Compute primal output.
-  exp = _smooth_switch_exp(safe_x)
-  primal_out = jnp.where(
-      small,
-      0,
-      jnp.where(large, 1, 1 / (1 + exp)),
-  )
-
-  # Compute (appropriately masked) tangent output. Without masking, higher order
-  # derivatives can lead to nans, even though they should be zero.
-  primal_out2 = primal_out * primal_out
+  # Compute (appropriately masked) tangent output from the values of the switch
+  # function and its mirror image, so that higher order derivatives also use
+  # this rule. Without masking, higher order derivatives can lead to nans, even
+  # though they should be zero.
+  primal_out = smooth_switch(x)
+  factor = primal_out * smooth_switch(1 - x)
+  mask = jnp.logical_or(small_or_large, factor == 0)
+  safe_x = jnp.where(mask, 0.5, x)
   raw_tangent = (  # Raw tangent without masking.
-      -_SMOOTH_SWITCH_SLOPE
-      * (-1 / safe_x**2 - 1 / (1 - safe_x) ** 2)
-      * exp
-      * primal_out2
+      _SMOOTH_SWITCH_SLOPE * (1 / safe_x**2 + 1 / (1 - safe_x) ** 2) * factor
   )
-  zero_factors = jnp.logical_or(primal_out2 == 0, exp == 0)
-  mask = jnp.logical_or(small_or_large, zero_factors)
   tangent_out = jnp.where(mask, 0, raw_tangent) * x_dot
   return primal_out, tangent_out
-- 
2.43.0


From 8e83b54e87a01e1775ffd97f5240854c9ac6cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 11/25] fix: derivatives of the elu and celu gates are
 inaccurate close to zero

The derivative of the gate was off by up to 100% for inputs between the machine
epsilon and 1e-5 due to catastrophic cancellation.
---
 e3x/nn/activations.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 6ea712a..09b41f1 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -226,17 +226,19 @@ def elu(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
+    # The derivative is subject to catastrophic cancellation for small x.
+    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps ** 0.25
     expm1_safe_x = jnp.where(x > 0, 0.0, x)
     div_safe_x = jnp.where(not_tiny, x, 1)
+    tiny_x = jnp.where(not_tiny, 0, x)  # overflow safe x
     return jnp.where(
         x > 0,
         1,
         jnp.where(
             not_tiny,
             alpha * jnp.expm1(expm1_safe_x) / div_safe_x,
-            alpha * (x * x / 6 + x / 2 + 1),
-        ),  # + O(x^3) Taylor series around x=0
+            alpha * (tiny_x**3 / 24 + tiny_x**2 / 6 + tiny_x / 2 + 1),
+        ),  # + O(x^4) Taylor series around x=0
     )
 
   return _gated_linear(g, x)
@@ -361,17 +363,20 @@ def celu(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
+    # The derivative is subject to catastrophic cancellation for small x.
+    x = x / alpha
+    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps ** 0.25
     expm1_safe_x = jnp.where(x > 0, 0.0, x)
     div_safe_x = jnp.where(not_tiny, x, 1)
+    tiny_x = jnp.where(not_tiny, 0, x)  # overflow safe x
     return jnp.where(
         x > 0,
         1,
         jnp.where(
             not_tiny,
-            alpha * jnp.expm1(expm1_safe_x / alpha) / div_safe_x,
-            x * x / (6 * alpha * alpha) + x / (2 * alpha) + 1,
-        ),  # + O(x^3) Taylor series around x=0
+            jnp.expm1(expm1_safe_x) / div_safe_x,
+            tiny_x**3 / 24 + tiny_x**2 / 6 + tiny_x / 2 + 1,
+        ),  # + O(x^4) Taylor series around x=0
     )
 
   return _gated_linear(g, x)
-- 
2.43.0


From 7cc8ea09cea73bfbef79c81eae9f5fed34333667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 12/25] fix: derivatives of the damped reciprocal mapping are
 wrong close to zero

For x slightly larger than the machine epsilon, the first derivative was off by
up to 100% and the second derivative by a factor of 1e6.
---
 e3x/nn/functions/mappings.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/e3x/nn/functions/mappings.py b/e3x/nn/functions/mappings.py
index b8c1338..c9da9e0 100644
--- a/e3x/nn/functions/mappings.py
+++ b/e3x/nn/functions/mappings.py
@@ -89,9 +89,15 @@ def reciprocal_mapping(
   if kind == 'shifted':
     return 1 / (x + 1)
   elif kind == 'damped':
-    small = x < jnp.finfo(x.dtype).eps
+    # Derivatives are subject to catastrophic cancellation for small x.
+    small = x < jnp.finfo(x.dtype).eps ** 0.25
+    small_x = jnp.where(small, x, 0)
     safe_x = jnp.where(small, 1, x)
-    return jnp.where(small, 1 - x / 2 + x * x / 6, -jnp.expm1(-safe_x) / safe_x)
+    return jnp.where(
+        small,
+        1 - small_x / 2 + small_x**2 / 6 - small_x**3 / 24 + small_x**4 / 120,
+        -jnp.expm1(-safe_x) / safe_x,
+    )
   elif kind == 'cuspless':
     return 1 / (x + jnp.exp(-x))
   else:  # Protection from potential bugs if other valid values are added.
-- 
2.43.0


From bafd685e91978cf07e83eb4bc552c9f2f6852b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:04 +0000
Subject: [PATCH 13/25] fix: Bernstein polynomials are only accurate to 1e-6 in
 double precision

---
 e3x/nn/functions/bernstein.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/e3x/nn/functions/bernstein.py b/e3x/nn/functions/bernstein.py
index b64c6b8..221cf0d 100644
--- a/e3x/nn/functions/bernstein.py
+++ b/e3x/nn/functions/bernstein.py
@@ -15,6 +15,7 @@
 """Functions based on Bernstein polynomials."""
 
 import functools
+import math
 from typing import Any, Tuple, Union
 from e3x.nn.functions import mappings
 import jax
@@ -49,7 +50,10 @@ def _bernstein(
   with jax.ensure_compile_time_eval():
     n = num - 1
     v = jnp.arange(n + 1)
-    binomln = -jax.scipy.special.betaln(1 + n - v, 1 + v) - jnp.log(n + 1)
+    # Note: jax.scipy.special.betaln is only accurate to single precision.
+    binomln = jnp.asarray(
+        [math.log(math.comb(n, k)) for k in range(n + 1)], dtype=x.dtype
+    )
   eps = jnp.finfo(x.dtype).epsneg
   mask0 = x < eps
   mask1 = x > 1 - eps
-- 
2.43.0


From b3eb4de17ed71a70acc42dcb3ae3c3093ec5f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:42 +0000
Subject: [PATCH 14/25] fix: gradients of basis must not be NaN for almost
 vanishing vectors

---
 e3x/nn/wrappers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index 77e2e5d..ea83b2a 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -183,9 +183,7 @@ def basis(
     raise ValueError('return_cutoff is True, but no cutoff_fn was specified')
 
   # Normalize input vectors.
-  norm = ops.norm(r, axis=-1, keepdims=True)  # (..., 1)
-  u = r / jnp.where(norm > 0, norm, 1)
-  norm = norm.squeeze(-1)  # (...)
+  u, norm = ops.normalize_and_return_norm(r, axis=-1)  # (..., 3), (...)
 
   # Evaluate radial basis functions.
   rbf = radial_fn(norm, num)  # (..., N)
-- 
2.43.0


From 8a542fceb5246d79743cf730678742ff313f49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:42 +0000
Subject: [PATCH 15/25] fix: fused tensor initializers must respect the
 requested dtype

---
 e3x/nn/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/nn/initializers.py b/e3x/nn/initializers.py
index 8151f4c..00259be 100644
--- a/e3x/nn/initializers.py
+++ b/e3x/nn/initializers.py
@@ -405,7 +405,7 @@ def _fused_tensor_init(
         key=key,
         shape=shape,
         distribution=distribution,
-        variance=scale,
+        variance=jnp.asarray(scale, dtype=dtype),
         dtype=dtype,
     )
     return jnp.where(mask, params, 0)
-- 
2.43.0


From cb00032d152e56369906bd72a1406611e18b738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:10 +0000
Subject: [PATCH 16/25] fix: bent_identity gate overflows for large magnitudes

The gate (sqrt(x^2 + 1) - 1) / (2x) + 1 returned 1 instead of 1.5 (or 0.5)
when x^2 overflows. Evaluate it as x / (2 (sqrt(x^2 + 1) + 1)) + 1 with hypot.
---
 e3x/nn/activations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 09b41f1..eebf76b 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -910,7 +910,8 @@ def bent_identity(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    # (sqrt(x^2 + 1) - 1) / (2x) without cancellation or division by zero.
-    return x / (2 * (jnp.sqrt(x * x + 1) + 1)) + 1
+    # (sqrt(x^2 + 1) - 1) / (2x) without cancellation, division by zero, or
+    # overflow of x^2.
+    return 0.5 * x / (jnp.hypot(x, jnp.ones_like(x)) + 1) + 1
 
   return _gated_linear(g, x)
-- 
2.43.0


From 02e3c73d669f663050f8752f06a2da4435dc7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 17/25] fix: indexed_softmax with small masks and with large
 masked entries

Gradients were NaN when all entries of the multiplicative mask of a segment
are small (the square of the denominator underflows), e.g. for atoms whose
neighbours are all close to the cutoff. Entries with mask 0 took part in the
maximum, so that a large masked input made all other weights vanish.
---
 e3x/ops/indexed.py | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 8328c18..1dbbb4e 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -791,9 +791,14 @@ def indexed_softmax(
     )
 
   # The max input is subtracted from all inputs before applying exp for
-  # increased numerical stability (prevents overflow).
+  # increased numerical stability (prevents overflow). Entries that are masked
+  # are ignored, so that they cannot cause underflow of the other entries.
+  finfo = jnp.finfo(inputs.dtype)
+  exponent = inputs
+  if multiplicative_mask is not None:
+    exponent = jnp.where(multiplicative_mask != 0, inputs, finfo.min)
   maximum = indexed_max(
-      inputs=inputs,
+      inputs=lax.stop_gradient(exponent),
       keepdims=True,
       adj_idx=adj_idx,
       where=where,
@@ -802,18 +807,28 @@ def indexed_softmax(
       indices_are_sorted=indices_are_sorted,
   )
   # Without any entries, there is no maximum.
-  maximum = jnp.where(maximum > jnp.finfo(inputs.dtype).min, maximum, 0)
-  numerator = jnp.exp(inputs - lax.stop_gradient(maximum))
+  maximum = jnp.where(maximum > finfo.min, maximum, 0)
+  # Only masked entries can be larger than the maximum (the value is irrelevant,
+  # but has to be finite).
+  numerator = jnp.exp(jnp.minimum(inputs - maximum, 1))
   if multiplicative_mask is not None:
     numerator *= multiplicative_mask
-  denominator = indexed_sum(
-      inputs=numerator,
-      keepdims=True,
-      adj_idx=adj_idx,
-      where=where,
-      dst_idx=dst_idx,
-      num_segments=num_segments,
-      indices_are_sorted=indices_are_sorted,
-  )
-  # Prevent division by zero if all entries are masked.
-  return numerator / jnp.where(denominator > 0, denominator, 1)
+
+  def _sum(x):
+    total = indexed_sum(
+        inputs=x,
+        keepdims=True,
+        adj_idx=adj_idx,
+        where=where,
+        dst_idx=dst_idx,
+        num_segments=num_segments,
+        indices_are_sorted=indices_are_sorted,
+    )
+    # Prevent division by (almost) zero if all entries are masked.
+    return jnp.where(total > finfo.tiny**0.9, total, 1)
+
+  # The gradient contains the inverse square of the denominator. Rescaling by a
+  # constant prevents overflow when all entries of the mask are small.
+  if multiplicative_mask is not None:
+    numerator /= lax.stop_gradient(_sum(numerator))
+  return numerator / _sum(numerator)
-- 
2.43.0


From 571e412f8ce8cfc3c5524fe0a449488eb1e2c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 18/25] fix: random_rotation fails for perturbations that are
 integers or of another precision

---
 e3x/so3/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index a41d098..e203fe9 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -301,7 +301,7 @@ def random_rotation(
     1) representing random :math:`3\times3` rotation matrices.
   """
   # Clamp perturbation to a meaningful range.
-  perturbation = jax.lax.clamp(0.0, perturbation, 1.0)
+  perturbation = jnp.clip(perturbation, 0.0, 1.0)
   # Draw random numbers and transform them.
   twopi = 2 * jnp.pi
   u = jax.random.uniform(key, shape=(num, 3))
-- 
2.43.0


From 7c60e3776082655a5577d2e7e2ab2211f02106e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 19/25] fix: indexed_min and indexed_max of infinite values
 with dense indices

---
 e3x/ops/indexed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 1dbbb4e..1f8d4ae 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -470,9 +470,9 @@ def _indexed_reduce(
 
   # Check input dtype.
   if jnp.issubdtype(inputs.dtype, jnp.integer):
-    dtype_info = jnp.iinfo
+    lowest, highest = jnp.iinfo(inputs.dtype).min, jnp.iinfo(inputs.dtype).max
   elif jnp.issubdtype(inputs.dtype, jnp.floating):
-    dtype_info = jnp.finfo
+    lowest, highest = -jnp.inf, jnp.inf
   else:
     raise TypeError(
         'inputs must be floating point or integer dtype, received '
@@ -508,7 +508,7 @@ def _indexed_reduce(
           axis=axis,
           where=where,
           keepdims=keepdims,
-          initial=dtype_info(inputs.dtype).max,
+          initial=highest,
       )
     elif reduction_mode == 'max':
       outputs = jnp.max(
@@ -516,7 +516,7 @@ def _indexed_reduce(
           axis=axis,
           where=where,
           keepdims=keepdims,
-          initial=dtype_info(inputs.dtype).min,
+          initial=lowest,
       )
     else:  # Protection from potential bugs if other valid values are added.
       assert (
-- 
2.43.0


From 8413241f4ea30a433ea0fb29b9ba8a3c18c08882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 20/25] fix: negative degrees and features without degrees are
 not rejected

---
 e3x/nn/features.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/e3x/nn/features.py b/e3x/nn/features.py
index 9780946..66143d9 100644
--- a/e3x/nn/features.py
+++ b/e3x/nn/features.py
@@ -56,7 +56,7 @@ def _extract_max_degree_and_check_shape(shape: Shape) -> int:
     )
 
   # Extract max_degree from size of axis -2 (degree channel).
-  max_degree = round(math.sqrt(shape[-2]) - 1)
+  max_degree = max(round(math.sqrt(shape[-2]) - 1), 0)
 
   # Check that axis -2 (degree channel) has a valid size.
   expected_size = (max_degree + 1) ** 2
@@ -205,6 +205,10 @@ def change_max_degree_or_type(
       if include_pseudotensors is None
       else include_pseudotensors
   )
+  if max_degree < 0:
+    raise ValueError(
+        f'max_degree must be positive or zero, received {max_degree}'
+    )
 
   # Increase max_degree (slice).
   if max_degree < in_max_degree:
-- 
2.43.0


From bf8c9346f92a1992efc519ce4ba10a838b337d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 21/25] fix: derivative of smooth_switch accepted invalid
 boundaries

The rule for the derivative is used instead of the function when it is
differentiated, so the check of the boundaries was skipped.
---
 e3x/nn/functions/switch.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/e3x/nn/functions/switch.py b/e3x/nn/functions/switch.py
index 349d096..9eef398 100644
--- a/e3x/nn/functions/switch.py
+++ b/e3x/nn/functions/switch.py
@@ -32,6 +32,16 @@ Float = jaxtyping.Float
 _SMOOTH_SWITCH_SLOPE = math.sqrt(3) / 2
 
 
+def _check_boundaries(
+    x0: Union[Float[Array, ''], float], x1: Union[Float[Array, ''], float]
+) -> None:
+  """Checks that the boundaries of the switch function are valid."""
+  if x0 >= x1:
+    raise ValueError(
+        f'input x1 must be larger than x0, received x0={x0} and x1={x1}'
+    )
+
+
 def _smooth_switch_exp(x: Float[Array, '...']) -> Float[Array, '...']:
   """Helper function for smooth_switch and its JVP implementation."""
   return jnp.exp(_SMOOTH_SWITCH_SLOPE * (1 / x - 1 / (1 - x)))
@@ -82,11 +92,7 @@ def smooth_switch(
   Returns:
     The function value.
   """
-  # Check for valid boundaries.
-  if x0 >= x1:
-    raise ValueError(
-        f'input x1 must be larger than x0, received x0={x0} and x1={x1}'
-    )
+  _check_boundaries(x0, x1)
 
   # Rescale x if necessary.
   if x0 != 0.0 or x1 != 1.0:
@@ -116,6 +122,8 @@ def _smooth_switch_jvp_impl(
   (x,) = primals
   (x_dot,) = tangents
 
+  _check_boundaries(x0, x1)
+
   # Rescale x and x_dot if necessary.
   if x0 != 0.0 or x1 != 1.0:
     x = (x - x0) / (x1 - x0)
-- 
2.43.0


From 742366e805c2e597545839c301af8b23f60ca0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 22/25] fix: indexed operations on batches without pairs or
 without entries

Merging the batch axes with reshape(..., (-1, ...)) is not possible when one
of the other axes is empty, e.g. for a batch of graphs without pairs.
---
 e3x/ops/indexed.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 1f8d4ae..756671a 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -18,6 +18,7 @@ r"""Utility functions for performing indexed operations.
 """
 
 import functools
+import math
 from typing import Any, Literal, Optional, Sequence, Tuple, Union
 import jax
 from jax import lax
@@ -290,8 +291,11 @@ def _gather_dense(
   # There are batch dimensions, needs vmapping.
   if idx.ndim > 2:
     # Reshape to have a single batch dimension.
-    reshaped_inputs = jnp.reshape(inputs, (-1, *inputs.shape[idx.ndim - 2 :]))
-    reshaped_idx = jnp.reshape(idx, (-1, *idx.shape[-2:]))
+    batch_size = math.prod(idx.shape[:-2])
+    reshaped_inputs = jnp.reshape(
+        inputs, (batch_size, *inputs.shape[idx.ndim - 2 :])
+    )
+    reshaped_idx = jnp.reshape(idx, (batch_size, *idx.shape[-2:]))
     # Run vmap over batch dimension.
     gathered_inputs = jax.vmap(lambda x, i: x[i], in_axes=(0, 0), out_axes=0)(
         reshaped_inputs, reshaped_idx
@@ -339,8 +343,11 @@ def _gather_sparse(
   # There are batch dimensions, needs vmapping.
   if idx.ndim > 1:
     # Reshape to have a single batch dimension.
-    reshaped_inputs = jnp.reshape(inputs, (-1, *inputs.shape[idx.ndim - 1 :]))
-    reshaped_idx = jnp.reshape(idx, (-1, idx.shape[-1]))
+    batch_size = math.prod(idx.shape[:-1])
+    reshaped_inputs = jnp.reshape(
+        inputs, (batch_size, *inputs.shape[idx.ndim - 1 :])
+    )
+    reshaped_idx = jnp.reshape(idx, (batch_size, idx.shape[-1]))
     # Run vmap over batch dimension.
     gathered_inputs = jax.vmap(lambda x, i: x[i], in_axes=(0, 0), out_axes=0)(
         reshaped_inputs, reshaped_idx
@@ -560,10 +567,11 @@ def _indexed_reduce(
     # There are batch dimensions, needs vmapping.
     if dst_idx.ndim > 1:
       # Reshape to have a single batch dimension.
+      batch_size = math.prod(dst_idx.shape[:-1])
       reshaped_inputs = jnp.reshape(
-          inputs, (-1, *inputs.shape[dst_idx.ndim - 1 :])
+          inputs, (batch_size, *inputs.shape[dst_idx.ndim - 1 :])
       )
-      reshaped_dst_idx = jnp.reshape(dst_idx, (-1, dst_idx.shape[-1]))
+      reshaped_dst_idx = jnp.reshape(dst_idx, (batch_size, dst_idx.shape[-1]))
       # Run vmap over batch dimension.
       outputs = jax.vmap(
           functools.partial(
-- 
2.43.0


From 25bbfcfe78277f48501a0bf34b07cd6d27cd608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 23/25] fix: wigner_d of an empty batch of rotations

---
 e3x/so3/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index e203fe9..d69c272 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -442,7 +442,7 @@ def wigner_d(
   # Note: This is done via integer powers and indexing on purpose! Using
   # jnp.power or the "**"-operator for this operation leads to NaNs in the
   # gradients for some inputs (jnp.power is not NaN-safe).
-  rot_powers = _integer_powers(rot.reshape(*rot.shape[:-2], 1, -1), max_degree)
+  rot_powers = _integer_powers(rot.reshape(*rot.shape[:-2], 1, 9), max_degree)
   monomials = (
       rot_powers[..., 0][..., ls[:, 0]]  #   R_00**l_00.
       * rot_powers[..., 1][..., ls[:, 1]]  # R_01**l_01.
-- 
2.43.0


From 7be881eb05741d43ce3687d5cceeb4bb70fab864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 24/25] fix: attention over empty batches or without pairs

---
 e3x/nn/modules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 9e01938..8ed9032 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -1722,8 +1722,9 @@ class MultiHeadAttention(_Conv):
     )(inputs_kv)
 
     # Split heads -> shape=(..., parity, degrees, features, heads).
-    query = jnp.reshape(query, (*query.shape[:-1], -1, self.num_heads))
-    key = jnp.reshape(key, (*key.shape[:-1], -1, self.num_heads))
+    split = (qkv_features // self.num_heads, self.num_heads)
+    query = jnp.reshape(query, (*query.shape[:-1], *split))
+    key = jnp.reshape(key, (*key.shape[:-1], *split))
 
     # Scale query by 1/sqrt(depth) to normalize the dot product.
     depth = math.prod(query.shape[-4:-1])  # parity * degrees * features
@@ -1770,7 +1771,7 @@ class MultiHeadAttention(_Conv):
 
       # Split heads -> shape=(..., parity, degrees, features, heads).
       rel_pos_encoding = jnp.reshape(
-          rel_pos_encoding, (*rel_pos_encoding.shape[:-1], -1, self.num_heads)
+          rel_pos_encoding, (*rel_pos_encoding.shape[:-1], *split)
       )
 
       # Position encoding weighted dot product.
-- 
2.43.0


From bcc9fa10218e0b5fd089a4450657eb87cd8d7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 25/25] fix: norm over an empty axis is zero

---
 e3x/ops/safe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/ops/safe.py b/e3x/ops/safe.py
index 0ea1063..2c6dfae 100644
--- a/e3x/ops/safe.py
+++ b/e3x/ops/safe.py
@@ -59,7 +59,7 @@ def norm(
   """
   # The scale must be determined separately for each individual norm, else the
   # results are influenced by unrelated entries of x.
-  a = jnp.max(jnp.abs(x), axis=axis, keepdims=True)
+  a = jnp.max(jnp.abs(x), axis=axis, keepdims=True, initial=0)
   a = jnp.maximum(a, jnp.finfo(x.dtype).tiny)
   b = x / a
   n = a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=True))
-- 
2.43.0


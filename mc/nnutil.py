"""Helpers shared by the checks of neural network modules."""

import numpy as np

from mc import ref


def generic(shape, salt=0, scale=1.0):
  """Deterministic 'generic' numbers: no two equal, none zero, O(1)."""
  n = int(np.prod(shape)) if shape else 1
  k = np.arange(1, n + 1) + 7919 * (salt + 1)
  v = np.modf(k * 0.6180339887498949 + 0.1 * np.sin(k))[0]
  v = np.where(np.arange(n) % 2 == 0, 0.3 + 0.7 * v, -0.3 - 0.7 * v)
  return (scale * v).reshape(shape)


def generic_params(module, *args, dtype='float64', salt=0, **kwargs):
  """Parameters of the right structure filled with generic numbers.

  Properties must hold for all values of the parameters, hence neither the
  (random) initial values nor zeros at unused entries are used.
  """
  import jax
  import jax.numpy as jnp

  shapes = jax.eval_shape(
      lambda *a: module.init(jax.random.PRNGKey(0), *a, **kwargs), *args
  )
  leaves, tree = jax.tree_util.tree_flatten(shapes)
  out = [
      jnp.asarray(generic(l.shape, salt=salt + 31 * i), dtype)
      for i, l in enumerate(leaves)
  ]
  return jax.tree_util.tree_unflatten(tree, out)


class GenericInit:
  """Initialisers that return generic numbers (one trace for params + output)."""

  def __init__(self, salt=0):
    self.salt = salt

  def plain(self, key, shape, dtype):
    import jax.numpy as jnp

    del key
    self.salt += 31
    return jnp.asarray(generic(tuple(shape), salt=self.salt), dtype)

  def fused(self, scale=1.0, mask=True):
    del scale, mask
    return self.plain


def blocks(s, l_max):
  """List of (parity, degree, parity index, slice) of a feature array."""
  out = []
  for p in range(s):
    for l in range(l_max + 1):
      parity = p if s == 2 else l % 2
      out.append((parity, l, p, slice(l * l, (l + 1) ** 2)))
  return out


def features(lead, s, l_max, f, salt=0):
  return generic((*lead, s, (l_max + 1) ** 2, f), salt=salt)


def apply_o3(x, d, improper):
  """Rotates (row convention, D of degree <= l_max) and optionally reflects."""
  s = x.shape[-3]
  l_max = round(x.shape[-2] ** 0.5) - 1
  n = x.shape[-2]
  y = np.einsum('...lf,lm->...mf', np.asarray(x, np.float64), d[:n, :n])
  if improper:
    for parity, _, p, sl in blocks(s, l_max):
      if parity:
        y[..., p, sl, :] *= -1
  return y


# Generators of a dense subgroup of O(3): two rotations by angles that are not
# rational multiples of pi about different axes, and the inversion.  The set of
# group elements under which a continuous map is equivariant is a closed
# subgroup, hence it is all of O(3) once it contains these generators.
GENERATORS = [
    (ref.rz(1.0), False),
    (ref.rx(2.0), False),
    (np.eye(3), True),
    (ref.axis_angle([1, 2, 3], 0.7), True),
]


def group(l_max, cartesian=True, gens=None):
  return [
      (rot, improper, ref.wigner_d(rot, l_max, cartesian))
      for rot, improper in (GENERATORS if gens is None else gens)
  ]

"""Cartesian tensors <-> irreps conversion is an equivariant isomorphism."""

import itertools
import math

import numpy as np

from mc import ref

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = (
    'every degree <= 6 (thorough 7; table 15) x both orders x every'
    ' normalisation; inputs: complete bases of both (linear) spaces, harmonics'
    ' at every direction through {-1,0,1}^3 against the detraced power of the'
    ' vector, rotations of the octahedral and icosahedral groups; every single-'
    'entry perturbation, every trace direction and (degree <= 4) traceless'
    ' tensors with every partial permutation symmetry for the predicate;'
    ' batch ranks 0..2'
)
ASSUMPTIONS = ['linear maps are decided on a basis; tolerance 1e-9 in float64']


def plan(tier):
  top = 6 if tier == 'quick' else 7
  jobs = [dict(kind='maps', l=l, cart=c) for l in range(top + 1) for c in (True, False)]
  jobs += [dict(kind='predicate', l=l) for l in range(0, 5 if tier == 'quick' else 6)]
  jobs += [dict(kind='f32', l=l) for l in range(5)]
  jobs.append(dict(kind='invalid'))
  return jobs


def weight(job):
  return job.get('l', 0) + (5 if job['kind'] == 'predicate' else 0)


def power(v, l):
  """v (x) v (x) ... (x) v as an array with l axes (after the batch axis)."""
  out = np.ones(v.shape[:-1])
  for _ in range(l):
    out = out[..., None] * v.reshape(v.shape[:-1] + (1,) * (out.ndim - v.ndim + 1) + (3,))
  return out


def contract(t, v, l):
  """T(v, v, ..., v) for the batch of tensors t and vectors v -> (n_t, n_v)."""
  p = power(v, l).reshape(len(v), -1)
  return t.reshape(len(t), -1) @ p.T


def rotate_tensor(t, rot, l):
  """Applies the row-vector rotation to each of the l axes (axis 0 = batch)."""
  for ax in range(1, l + 1):
    t = np.moveaxis(np.tensordot(t, rot, axes=(ax, 0)), -1, ax)
  return t


def symmetric_traceless(t, l):
  if l < 2:
    return True
  for a, b in itertools.combinations(range(1, l + 1), 2):
    if np.abs(t - np.swapaxes(t, a, b)).max() > 1e-9:
      return False
    if np.abs(np.trace(t, axis1=a, axis2=b)).max() > 1e-9:
      return False
  return True


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  S = e3x.so3
  kind = job['kind']
  l = job.get('l', 0)
  x64 = kind != 'f32'
  jax.config.update('jax_enable_x64', x64)
  n = 2 * l + 1
  blk = slice(l * l, (l + 1) ** 2)
  if kind == 'maps':
    cart = job['cart']
    basis = np.eye(n)
    pts = ref.sphere_points(1)
    for norm in ref.NORMALIZATIONS:
      kw = dict(degree=l, cartesian_order=cart, normalization=norm)
      rec.states_bulk(('basis', l, cart, norm), n)
      t = np.asarray(S.irreps_to_tensor(jnp.asarray(basis), **kw))
      rec.call()
      rec.check(t.shape == (n,) + ((1,) if l == 0 else (3,) * l), 'tensor has the wrong shape', shape=t.shape)
      rec.check(symmetric_traceless(t, l), 'tensor is not symmetric and traceless', l=l, norm=norm)
      back = np.asarray(S.tensor_to_irreps(jnp.asarray(t), **kw))
      rec.call()
      rec.close(back, basis, 'irreps -> tensor -> irreps is not the identity', tol=1e-9, l=l, cart=cart, norm=norm)
      # Contracting the tensor of the irrep x with r gives x . Y(r) up to a
      # degree-dependent factor; the harmonics map to the detraced power of r.
      y = ref.spherical_harmonics(pts, l, cart, norm)[:, blk]
      ty = np.asarray(S.irreps_to_tensor(jnp.asarray(y), **kw))
      rec.call()
      rec.states_bulk(('harmonic', l, cart, norm), len(pts))
      got = contract(ty.reshape((len(pts),) + (3,) * l), pts, l)
      # Legendre: r1^(l) detraced, contracted with r2 = l!/(2l-1)!! P_l(r1.r2).
      dot = pts @ pts.T
      legendre = np.polynomial.legendre.legval(dot, [0] * l + [1])
      dfact = math.prod(range(2 * l - 1, 0, -2)) if l else 1
      rec.close(got, legendre * math.factorial(l) / dfact, 'tensor of the harmonics is not the detraced power of r', tol=1e-9, l=l, cart=cart, norm=norm)
      rec.close(
          np.asarray(S.tensor_to_irreps(jnp.asarray(ty), **kw)), y,
          'harmonics are not recovered from their tensor', tol=1e-9, l=l, norm=norm,
      )
      rec.call()
      rots = np.concatenate([ref.octahedral_group(), ref.icosahedral_group()[::7]])
      d = ref.wigner_d(rots, l, cart)[:, blk, blk]
      tt = t.reshape((n,) + (3,) * l)
      for i, r in enumerate(rots):
        rec.state('equivariance', l, cart, norm, i)
        rt = rotate_tensor(tt, r, l).reshape(t.shape)
        rec.call()
        rec.close(
            np.asarray(S.irreps_to_tensor(jnp.asarray(d[i]), **kw)), rt,
            'irreps_to_tensor is not equivariant', tol=1e-9, l=l, cart=cart, norm=norm,
        )
  elif kind == 'predicate':
    t = np.asarray(S.irreps_to_tensor(jnp.asarray(np.eye(n)), degree=l))
    probe = np.tensordot(np.linspace(0.5, 1.5, n), t, axes=1)
    rec.state('true', l)
    rec.call()
    rec.check(bool(S.is_traceless_symmetric(jnp.asarray(probe), l)), 'valid tensor rejected', l=l)
    rec.call()
    rec.check(bool(S.is_traceless_symmetric(jnp.asarray(t), l)), 'valid batch rejected', l=l)
    if l < 2:
      return
    for idx in itertools.product(range(3), repeat=l):
      if l == 4 and sum(idx) % 2 and idx[0] > 0:
        continue
      bad = probe.copy()
      bad[idx] += 0.1
      rec.state('single entry', idx)
      rec.call()
      rec.check(not bool(S.is_traceless_symmetric(jnp.asarray(bad), l)), 'perturbed tensor accepted', idx=idx)
    # Symmetric but traced: symmetrised delta_ab u_c u_d ...
    for u in np.eye(3):
      rest = power(u[None], l - 2)[0] if l > 2 else np.ones(())
      s = np.multiply.outer(np.eye(3), rest)
      sym = sum(np.transpose(s, p) for p in itertools.permutations(range(l)))
      rec.state('traced', tuple(u))
      rec.call()
      rec.check(not bool(S.is_traceless_symmetric(jnp.asarray(probe + 0.05 * sym), l)), 'traced tensor accepted', l=l)
      batch = np.stack([probe, probe + 0.05 * sym, probe])
      rec.call()
      rec.check(not bool(S.is_traceless_symmetric(jnp.asarray(batch), l)), 'batch with a traced tensor accepted', l=l)
    # Traceless but only symmetric under some transpositions.
    for a, b in itertools.combinations(range(l), 2):
      asym = np.zeros((3,) * l)
      i = [2] * l
      i[a], i[b] = 0, 1
      asym[tuple(i)] = 1
      i[a], i[b] = 1, 0
      asym[tuple(i)] = -1
      rec.state('antisymmetric', a, b)
      rec.call()
      rec.check(not bool(S.is_traceless_symmetric(jnp.asarray(probe + 0.1 * asym), l)), 'non-symmetric tensor accepted', axes=(a, b))
    # Traceless (in every pair of axes) and invariant under one permutation of
    # the indices (and its powers), but orthogonal to all symmetric tensors.
    if l <= 4:
      basis = np.eye(3**l).reshape(-1, *(3,) * l)
      perms = list(itertools.permutations(range(l)))
      full = sum(np.transpose(basis, (0, *(1 + i for i in p))) for p in perms).reshape(3**l, -1)
      cons = [full]
      for a, b in itertools.combinations(range(1, l + 1), 2):
        cons.append(np.trace(basis, axis1=a, axis2=b).reshape(3**l, -1))
      for p in perms:
        inv = (np.transpose(basis, (0, *(1 + i for i in p))) - basis).reshape(3**l, -1)
        m = np.concatenate([*cons, inv], axis=1).T
        _, sv, vt = np.linalg.svd(m)
        null = vt[int(np.sum(sv > 1e-9)):]
        null = list(null) if l < 4 else []
        if len(vt) > int(np.sum(sv > 1e-9)):
          free = vt[int(np.sum(sv > 1e-9)):]
          null.append(np.linspace(0.5, 1.5, len(free)) @ free / len(free) ** 0.5)
        for k, v in enumerate(null):
          bad = v.reshape((3,) * l)
          for shift in (0, 1):
            rec.state('partly symmetric', p, k, shift)
            rec.call()
            rec.check(not bool(S.is_traceless_symmetric(jnp.asarray(bad + shift * probe), l)), 'partly symmetric tensor accepted', invariant_under=p)
  elif kind == 'f32':
    base = np.eye(n)
    for shape in ((), (n,), (1, n), (2, n)):
      x = np.broadcast_to(base if shape else base[n // 2], (*shape, n)).astype(np.float32)
      for jit in (False, True):
        f = lambda x: S.tensor_to_irreps(S.irreps_to_tensor(x, l), l)
        f = jax.jit(f) if jit else f
        rec.state('roundtrip f32', l, shape, jit)
        rec.call(2)
        got = f(jnp.asarray(x))
        rec.check(got.dtype == jnp.float32, 'dtype changed')
        rec.close(got, x, 'float32 round trip differs', l=l, shape=shape)
    # Default arguments: Cartesian order, Racah normalisation.
    y = ref.spherical_harmonics(ref.sphere_points(1), l, True)[:, blk]
    v = S.irreps_to_tensor(jnp.asarray(y, jnp.float32), l)
    rec.call()
    if l == 1:
      rec.close(v, ref.sphere_points(1), 'a vector is not represented by its components')
  else:
    for l in (0, 1, 2, 3):
      for shape in ((2,), (3, 2), (4,), (2, 2)):
        rec.state('invalid', l, shape)
        if shape[-1] != 2 * l + 1:
          rec.raises(lambda: S.irreps_to_tensor(jnp.ones(shape), l), 'wrong irreps shape accepted', l=l, shape=shape)
        rec.raises(lambda: S.tensor_to_irreps(jnp.ones(shape), l), 'wrong tensor shape accepted', l=l, shape=shape)
        rec.raises(lambda: S.is_traceless_symmetric(jnp.ones(shape), l), 'wrong tensor shape accepted', l=l, shape=shape)
    rec.raises(lambda: S.irreps_to_tensor(jnp.ones(3), -1), 'negative degree accepted')
    rec.raises(lambda: S.tensor_to_irreps(jnp.ones(3), -1), 'negative degree accepted')
    rec.raises(lambda: S.tensor_to_irreps(jnp.ones(3), 1, normalization='x'), 'invalid normalization accepted')
    rec.raises(lambda: S.irreps_to_tensor(jnp.ones(3), 1, normalization='x'), 'invalid normalization accepted')

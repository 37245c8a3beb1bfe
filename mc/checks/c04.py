"""Spherical/solid harmonics agree with their definition everywhere.

Solid harmonics of degree <= L are polynomials of degree <= L in x, y, z: if
implementation and reference agree on a tensor grid with L+1 nodes per axis,
they agree on all of R^3 (interpolation is unisolvent), so enumerating the grid
decides the infinite input space up to rounding.
"""

import itertools

import numpy as np

from mc import ref

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = (
    'max_degrees 0..7, 10, 12, 15, 16 (thorough: all <= 17) x both orders x every normalisation x'
    ' r_is_normalized; inputs: complete tensor grid with max_degree+1 nodes per'
    ' axis (unisolvent for the polynomial degree), all directions through'
    ' {-2..2}^3, zero vector, magnitudes 1e-12..1e12, every batch rank 0..3;'
    ' values, orthogonality integrals and gradients against an independent'
    ' closed formula'
)
ASSUMPTIONS = [
    'float64 runs bound the algebraic error at 1e-8, float32 runs at 5e-4',
    'degrees above 15 (the shipped table) are covered for 16 (thorough: 17) only',
]


def plan(tier):
  top = 15
  jobs = []
  for l in (*range(8), 10, 12, 15) if tier == 'quick' else range(top + 1):
    jobs.append(dict(kind='grid', L=l))
  for l in (0, 1, 2, 4, 7) if tier == 'quick' else range(top + 1):
    jobs.append(dict(kind='shapes', L=l))
  jobs.append(dict(kind='f32'))
  for l in (2, 6) if tier == 'quick' else range(1, 13):
    jobs.append(dict(kind='grad', L=l))
  # Beyond the shipped table: generated on demand, then read from a cache.
  jobs += [dict(kind='beyond', L=l) for l in ((16,) if tier == 'quick' else (16, 17))]
  jobs.append(dict(kind='invalid'))
  return jobs


def weight(job):
  return job.get('L', 0)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  kind = job['kind']
  L = job.get('L', 0)
  jax.config.update('jax_enable_x64', kind != 'f32')
  S = e3x.so3
  if kind == 'grid':
    nodes = np.cos(np.pi * (np.arange(L + 1) + 0.5) / (L + 1))
    pts = np.array(list(itertools.product(nodes, repeat=3)))
    dirs = np.concatenate([ref.sphere_points(2), np.zeros((1, 3))])
    for cart in (True, False):
      expected = ref.solid_harmonics(pts, L, cart)
      rec.states_bulk(('solid', L, cart), len(pts))
      rec.call()
      got = S.solid_harmonics(jnp.asarray(pts), L, cartesian_order=cart)
      rec.close(got, expected, 'solid harmonics differ', tol=1e-8, L=L, cart=cart)
      exp_sph = {}
      for n in ref.NORMALIZATIONS:
        exp_sph[n] = ref.spherical_harmonics(dirs, L, cart, n)
        for scale in (1.0, 1e-12, 37.5, 1e12) if L < 8 else (37.5,):
          rec.states_bulk(('sph', L, cart, n, scale), len(dirs))
          rec.call()
          got = S.spherical_harmonics(
              jnp.asarray(dirs * scale), L, cartesian_order=cart, normalization=n
          )
          rec.close(
              got, exp_sph[n], 'spherical harmonics differ', tol=1e-8, L=L,
              cart=cart, normalization=n, scale=scale,
          )
        rec.call()
        got = S.spherical_harmonics(
            jnp.asarray(pts), L, cartesian_order=cart, normalization=n,
            r_is_normalized=True,
        )
        rec.close(
            got, ref.solid_harmonics(pts, L, cart, n),
            'harmonics with r_is_normalized differ', tol=1e-8, L=L, cart=cart,
            normalization=n,
        )
    # Orthogonality on the sphere (Gauss-Legendre x equispaced, exact to 2L+1).
    x, w = np.polynomial.legendre.leggauss(L + 1)
    phi = 2 * np.pi * np.arange(2 * L + 2) / (2 * L + 2)
    s = np.sqrt(1 - x**2)
    q = np.stack(
        [
            np.outer(s, np.cos(phi)).ravel(),
            np.outer(s, np.sin(phi)).ravel(),
            np.outer(x, np.ones_like(phi)).ravel(),
        ],
        -1,
    )
    wq = np.outer(w, np.full(len(phi), 2 * np.pi / len(phi))).ravel()
    diag = np.concatenate([np.full(2 * l + 1, 4 * np.pi / (2 * l + 1)) for l in range(L + 1)])
    four = np.full((L + 1) ** 2, 4 * np.pi)
    for n, d in (('racah', diag), ('schmidt', diag), ('4pi', four), ('orthonormal', four / (4 * np.pi))):
      rec.call()
      y = np.asarray(S.spherical_harmonics(jnp.asarray(q), L, normalization=n))
      rec.close(
          np.einsum('qa,qb,q->ab', y, y, wq), np.diag(d),
          'harmonics are not orthogonal', tol=1e-9, L=L, normalization=n,
      )
  elif kind == 'beyond':
    import os
    import tempfile

    dirs = np.concatenate([ref.sphere_points(2), np.zeros((1, 3))])
    with tempfile.TemporaryDirectory(dir=SCRATCH) as tmp:
      e3x.Config.set_spherical_harmonics_cache(os.path.join(tmp, 'c.npz'))
      for cart in (True, False):
        for n in ('racah', 'orthonormal'):
          rec.states_bulk(('beyond', L, cart, n), len(dirs))
          rec.call()
          got = S.spherical_harmonics(jnp.asarray(1.5 * dirs), L, cartesian_order=cart, normalization=n)
          rec.close(got, ref.spherical_harmonics(dirs, L, cart, n), 'spherical harmonics differ', tol=1e-8, L=L, cart=cart, normalization=n)
      rec.close(S.spherical_harmonics(jnp.asarray(dirs), 3), ref.spherical_harmonics(dirs, 3, True), 'lower degrees change', tol=1e-8)
      e3x.Config.set_spherical_harmonics_cache(None)
  elif kind == 'shapes':
    base = ref.sphere_points(2)[:24] * 1.7
    for shape in ((3,), (1, 3), (24, 3), (2, 12, 3), (2, 3, 4, 3), (0, 3)):
      num = int(np.prod(shape[:-1]))
      r = base[:num].reshape(shape)
      expected = ref.spherical_harmonics(base[:max(num, 1)], L, True)
      expected = expected[:num].reshape(shape[:-1] + ((L + 1) ** 2,))
      for jit in (False, True):
        rec.state('shape', L, shape, jit)
        rec.call()
        f = lambda r: S.spherical_harmonics(r, L, cartesian_order=True)
        f = jax.jit(f) if jit else f
        rec.close(f(jnp.asarray(r)), expected, 'batched harmonics differ', tol=1e-8, L=L, shape=shape, jit=jit)
    # A lower max_degree is a prefix of a higher one.
    hi = np.asarray(S.spherical_harmonics(jnp.asarray(base), L + 2))
    lo = np.asarray(S.spherical_harmonics(jnp.asarray(base), L))
    rec.call(2)
    rec.close(lo, hi[:, : (L + 1) ** 2], 'max_degree changes lower degrees', tol=1e-9, L=L)
  elif kind == 'f32':
    dirs = np.concatenate([ref.sphere_points(2), np.zeros((1, 3))])
    for L in (0, 1, 2, 3, 5, 8):
      for cart in (True, False):
        for scale in (1.0, 1e-9, 1e9):
          rec.states_bulk(('f32', L, cart, scale), len(dirs))
          rec.call()
          got = S.spherical_harmonics(
              jnp.asarray(dirs * scale, jnp.float32), L, cartesian_order=cart
          )
          rec.check(got.dtype == jnp.float32, 'dtype changed', dtype=got.dtype)
          rec.close(got, ref.spherical_harmonics(dirs, L, cart), 'float32 harmonics differ', tol=5e-5 * (1 + L), L=L)
  elif kind == 'grad':
    pts = np.concatenate([ref.sphere_points(1) * 0.8, np.zeros((1, 3))])
    h = 1e-5
    for name, f, g in (
        ('solid', lambda r: S.solid_harmonics(r, L), lambda r: ref.solid_harmonics(r, L, True)),
        ('spherical', lambda r: S.spherical_harmonics(r, L), lambda r: ref.spherical_harmonics(r, L, True)),
    ):
      jac = np.asarray(jax.vmap(jax.jacfwd(f))(jnp.asarray(pts)))
      rev = np.asarray(jax.vmap(jax.jacrev(f))(jnp.asarray(pts)))
      rec.call(2)
      rec.states_bulk(('grad', name, L), len(pts))
      rec.check(np.all(np.isfinite(jac)), 'derivative not finite', L=L, name=name)
      rec.close(rev, jac, 'reverse and forward derivative differ', tol=1e-8, L=L)
      sel = pts[:-1] if name == 'spherical' else pts  # undefined at r = 0
      num = np.stack(
          [(g(sel + h * e) - g(sel - h * e)) / (2 * h) for e in np.eye(3)], -1
      )
      rec.close(jac[: len(sel)], num, 'derivative of harmonics differs', tol=1e-5, L=L, name=name)
  elif kind == 'invalid':
    r = jnp.ones((2, 3))
    for L in (-1, -2, -7):
      for cart in (True, False):
        rec.state('invalid degree', L, cart)
        rec.raises(lambda: S.spherical_harmonics(r, L, cartesian_order=cart), 'negative degree accepted', L=L)
        rec.raises(lambda: S.solid_harmonics(r, L, cartesian_order=cart), 'negative degree accepted', L=L)
    for shape in ((2,), (3, 2), (3, 4), (2, 3, 1)):
      rec.state('invalid shape', shape)
      rec.raises(lambda: S.spherical_harmonics(jnp.ones(shape), 1), 'wrong vector shape accepted', shape=shape)
    for n in ('', 'foo', '4PI', 'Racah'):
      rec.state('invalid normalization', n)
      rec.raises(lambda: S.spherical_harmonics(r, 1, normalization=n), 'invalid normalization accepted', n=n)

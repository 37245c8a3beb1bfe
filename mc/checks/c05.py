"""Wigner-D matrices form the representation carried by the harmonics."""

import numpy as np

from mc import ref

PROPERTY = 'C05'
LEVEL = 'model_checking'
TABLES = dict(quick=(0, 4), thorough=(0, 5))
RULE = (
    'every max_degree <= 4 (thorough 5) x both orders; rotations: the complete'
    ' (2L+1)^3 Euler-angle grid (matrix elements are trigonometric polynomials'
    ' of degree <= L per angle, so the grid decides all of SO(3)), the 24'
    ' octahedral and 60 icosahedral rotations, every product of two octahedral'
    ' elements (Cayley graph: states = group elements, transitions = right'
    ' multiplication); oracle: independent harmonics'
)
ASSUMPTIONS = [
    'float32 tolerance 2e-5*(1+max); float64 tolerance 1e-9',
    'inputs are rotation matrices; other 3x3 matrices are outside the property',
]


def plan(tier):
  top = TABLES[tier][1]
  jobs = []
  for L in range(top + 1):
    for cart in (True, False):
      for x64 in (True, False):
        jobs.append(dict(kind='grid', L=L, cart=cart, x64=x64))
      jobs.append(dict(kind='cayley', L=L, cart=cart))
  jobs.append(dict(kind='shapes', L=2))
  jobs.append(dict(kind='shapes', L=top))
  jobs.append(dict(kind='invalid'))
  return jobs


def weight(job):
  return job.get('L', 0)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  S = e3x.so3
  kind = job['kind']
  L = job.get('L', 0)
  if kind == 'grid':
    cart, x64 = job['cart'], job['x64']
    jax.config.update('jax_enable_x64', x64)
    dtype = jnp.float64 if x64 else jnp.float32
    tol = 1e-9 if x64 else 2e-5
    rots = np.concatenate(
        [ref.euler_grid(L), ref.octahedral_group(), ref.icosahedral_group()]
    )
    rec.states_bulk(('rot', L, cart, x64), len(rots))
    rec.call()
    d = S.wigner_d(jnp.asarray(rots, dtype), L, cartesian_order=cart)
    rec.check(d.dtype == dtype, 'dtype changed', dtype=d.dtype)
    d = np.asarray(d)
    rec.close(d, ref.wigner_d(rots, L, cart), 'Wigner-D matrix differs', tol=tol, L=L, cart=cart)
    rec.close(
        np.einsum('nij,nkj->nik', d, d),
        np.tile(np.eye((L + 1) ** 2), (len(rots), 1, 1)),
        'Wigner-D matrix is not orthogonal', tol=5 * tol, L=L,
    )
    # Y(r) D(R) == Y(r R) with the library's own harmonics.
    pts = ref.sphere_points(1) * 1.3
    y = np.asarray(S.spherical_harmonics(jnp.asarray(pts, dtype), L, cartesian_order=cart))
    rr = np.einsum('pi,nij->npj', pts, rots)
    yr = np.asarray(S.spherical_harmonics(jnp.asarray(rr, dtype), L, cartesian_order=cart))
    rec.call(2)
    rec.states_bulk(('point', L, cart, x64), len(rots) * len(pts))
    rec.close(np.einsum('pa,nab->npb', y, d), yr, 'Y(r) @ D(R) != Y(r @ R)', tol=5 * tol, L=L, cart=cart)
  elif kind == 'cayley':
    cart = job['cart']
    jax.config.update('jax_enable_x64', False)
    g = ref.octahedral_group()
    prods = np.einsum('aij,bjk->abik', g, g)
    f = jax.jit(lambda r: S.wigner_d(r, L, cartesian_order=cart))
    d = np.asarray(f(jnp.asarray(g, jnp.float32)), np.float64)
    dp = np.asarray(f(jnp.asarray(prods, jnp.float32)), np.float64)
    rec.call(2)
    rec.states_bulk(('cayley', L, cart), 24 * 24)
    rec.close(np.einsum('aij,bjk->abik', d, d), dp, 'D(R1) D(R2) != D(R1 R2)', tol=2e-5, L=L, cart=cart)
    # Graph reachability: the implementation's matrices generate exactly a
    # homomorphic image of the group (no new matrices appear).
    seen = {tuple(np.round(d[0] * 1e3).astype(int).ravel())}
    frontier = [d[0]]
    gens = [d[i] for i in (1, 2, 5)]
    while frontier:
      new = []
      for m in frontier:
        for q in gens:
          c = m @ q
          rec.call()
          key = tuple((np.round(c * 1e3) + 0.0).astype(int).ravel())
          if key not in seen:
            seen.add(key)
            new.append(c)
      frontier = new
      rec.check(len(seen) <= 24, 'Wigner-D matrices of a finite group do not close', n=len(seen))
  elif kind == 'shapes':
    jax.config.update('jax_enable_x64', False)
    base = ref.icosahedral_group()[:24]
    expected = ref.wigner_d(base, L, True)
    n = (L + 1) ** 2
    for shape in ((), (1,), (24,), (2, 12), (2, 3, 4)):
      num = int(np.prod(shape))
      r = jnp.asarray(base[:num].reshape((*shape, 3, 3)), jnp.float32)
      for mode in ('eager', 'jit'):
        rec.state('shape', L, shape, mode)
        rec.call()
        f = lambda r: S.wigner_d(r, L, cartesian_order=True)
        f = jax.jit(f) if mode == 'jit' else f
        rec.close(f(r), expected[:num].reshape((*shape, n, n)), 'batched Wigner-D differs', shape=shape, L=L)
    r = jnp.asarray(base, jnp.float32)
    v = jax.vmap(lambda r: S.wigner_d(r, L, cartesian_order=True))(r)
    rec.close(v, expected, 'vmapped Wigner-D differs', L=L)
    # Derivatives along the group: D(R exp(tA))' finite and consistent.
    jac = np.asarray(jax.vmap(jax.jacfwd(lambda r: S.wigner_d(r, L, cartesian_order=True)))(
        jnp.asarray(np.concatenate([base, ref.octahedral_group()]), jnp.float32)))
    rec.call(2)
    rec.check(np.all(np.isfinite(jac)), 'derivative of Wigner-D not finite')
    h = 1e-5
    for k, gen in enumerate((ref.rx, ref.ry, ref.rz)):
      a = (gen(h) - gen(-h)) / (2 * h)
      rots = np.concatenate([base, ref.octahedral_group()])
      num = (ref.wigner_d(rots @ gen(h), L, True) - ref.wigner_d(rots @ gen(-h), L, True)) / (2 * h)
      got = np.einsum('nabij,nij->nab', jac, rots @ a)
      rec.states_bulk(('derivative', L, k), len(rots))
      rec.close(got, num, 'derivative of Wigner-D differs', tol=2e-4, L=L)
  else:
    for shape in ((3,), (3, 2), (2, 3), (4, 4), (3, 3, 1)):
      rec.state('invalid', shape)
      rec.raises(lambda: S.wigner_d(jnp.ones(shape), 1), 'wrong shape accepted', shape=shape)
    rec.raises(lambda: S.wigner_d(jnp.eye(3), -1), 'negative degree accepted')

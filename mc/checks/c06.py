"""Clebsch-Gordan coefficients are the orthonormal equivariant couplings."""

import itertools

import numpy as np

from mc import ref

PROPERTY = 'C06'
LEVEL = 'model_checking'
TABLES = dict(quick=(4, 0), thorough=(5, 0))
RULE = (
    'every (max_degree1, max_degree2, max_degree3) <= 4 (thorough 5) x both'
    ' orders, every single-degree block, every coefficient against an'
    ' independent closed formula (Racah), plus the intertwining relation on the'
    ' complete rotation grid that decides SO(3) for these degrees and'
    ' orthonormality/completeness of every coupling'
)
ASSUMPTIONS = ['coefficients compared at 1e-6 (float32) and 1e-12 (float64)']


def plan(tier):
  top = TABLES[tier][0]
  jobs = []
  for cart in (True, False):
    for l1 in range(top + 1):
      jobs.append(dict(kind='table', l1=l1, top=top, cart=cart))
    jobs.append(dict(kind='intertwine', top=min(top, 3), cart=cart))
  jobs.append(dict(kind='f64', top=top))
  jobs.append(dict(kind='invalid'))
  return jobs


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  S = e3x.so3
  kind = job['kind']
  jax.config.update('jax_enable_x64', kind == 'f64')
  sl = lambda l: slice(l * l, (l + 1) ** 2)
  if kind == 'table':
    top, cart, l1 = job['top'], job['cart'], job['l1']
    full = ref.full_cg(top, top, top, cart)
    for l2, l3 in itertools.product(range(top + 1), repeat=2):
      rec.state('max', l1, l2, l3, cart)
      rec.call(2)
      got = S.clebsch_gordan(l1, l2, l3, cartesian_order=cart)
      rec.close(
          got, full[: (l1 + 1) ** 2, : (l2 + 1) ** 2, : (l3 + 1) ** 2],
          'Clebsch-Gordan coefficients differ', tol=1e-6, degrees=(l1, l2, l3), cart=cart,
      )
      got = S.clebsch_gordan_for_degrees(l1, l2, l3, cartesian_order=cart)
      rec.close(
          got, full[sl(l1), sl(l2), sl(l3)],
          'Clebsch-Gordan block differs', tol=1e-6, degrees=(l1, l2, l3), cart=cart,
      )
  elif kind == 'intertwine':
    top, cart = job['top'], job['cart']
    cg = np.asarray(S.clebsch_gordan(top, top, top, cartesian_order=cart), np.float64)
    rec.call()
    rots = np.concatenate([ref.euler_grid(top)[::3], ref.octahedral_group()])
    d = ref.wigner_d(rots, top, cart)
    for l1, l2, l3 in itertools.product(range(top + 1), repeat=3):
      c = cg[sl(l1), sl(l2), sl(l3)]
      rec.states_bulk(('intertwine', l1, l2, l3, cart), len(rots))
      if not abs(l1 - l2) <= l3 <= l1 + l2:
        rec.check(np.all(c == 0), 'coupling outside the triangle', degrees=(l1, l2, l3))
        continue
      lhs = np.einsum('nam,nbk,mkc->nabc', d[:, sl(l1), sl(l1)], d[:, sl(l2), sl(l2)], c)
      rhs = np.einsum('abm,nmc->nabc', c, d[:, sl(l3), sl(l3)])
      rec.close(lhs, rhs, 'coupling is not equivariant', tol=1e-6, degrees=(l1, l2, l3))
      for m3 in range(top + 1):
        gram = np.einsum('abm,abn->mn', c, cg[sl(l1), sl(l2), sl(m3)])
        rec.close(gram, np.eye(2 * l3 + 1) if m3 == l3 else np.zeros((2 * l3 + 1, 2 * m3 + 1)), 'couplings not orthonormal', tol=1e-6, degrees=(l1, l2, l3))
    # Anchors: dot product and cross product of vectors in Cartesian order.
    c = np.asarray(S.clebsch_gordan(1, 1, 1, cartesian_order=True))
    rec.close(c[1:, 1:, 0], np.eye(3) / np.sqrt(3), 'coupling 1x1->0 is not the dot product', tol=1e-6)
    eps = np.zeros((3, 3, 3))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
      eps[i, j, k], eps[j, i, k] = 1, -1
    rec.close(np.abs(c[1:, 1:, 1:]), np.abs(eps) / np.sqrt(2), 'coupling 1x1->1 is not the cross product', tol=1e-6)
  elif kind == 'f64':
    top = job['top']
    for cart in (True, False):
      rec.state('f64', top, cart)
      rec.call()
      rec.close(S.clebsch_gordan(top, top, top, cartesian_order=cart), ref.full_cg(top, top, top, cart), 'Clebsch-Gordan coefficients imprecise', tol=1e-12)
      rec.call()
      got = jax.jit(lambda x: x * S.clebsch_gordan(1, 2, 3, cartesian_order=cart))(2.0)
      rec.close(got, 2 * ref.full_cg(1, 2, 3, cart), 'Clebsch-Gordan coefficients differ under jit', tol=1e-12)
  else:
    for bad in itertools.product((-1, 0, 1), repeat=3):
      if min(bad) < 0:
        rec.state('invalid', bad)
        rec.raises(lambda: S.clebsch_gordan(*bad), 'negative degree accepted', degrees=bad)
        rec.raises(lambda: S.clebsch_gordan_for_degrees(*bad), 'negative degree accepted', degrees=bad)

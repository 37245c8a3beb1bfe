"""Quadrature rules integrate every polynomial up to their precision."""

import numpy as np

from mc import ref

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = (
    'both families; every precision request -2..140 and every number-of-points'
    ' request 0..1300 (thorough: ..6000); every returned rule is integrated'
    ' against all spherical harmonics up to min(precision, 35) (a basis of the'
    ' polynomials restricted to the sphere; thorough: 60), checked for unit'
    ' vectors and total weight'
)
ASSUMPTIONS = [
    'the list of available rules is itself obtained by exhaustively requesting'
    ' every precision; rule precision = largest request it answers',
    'float64 tolerance 1e-9 (the stored grids are double precision)',
]


def plan(tier):
  return [
      dict(kind=k, what=w, tier=tier)
      for k in ('lebedev', 'delley')
      for w in ('precision', 'num', 'invalid')
  ]


def legendre_table(x, top):
  """Fully normalised associated Legendre, list over m of (top+1-m, n)."""
  s = np.sqrt(np.maximum(0, 1 - x * x))
  out = []
  pmm = np.ones_like(x)
  for m in range(top + 1):
    rows = [pmm]
    if m < top:
      rows.append(np.sqrt(2 * m + 3) * x * pmm)
    for l in range(m + 2, top + 1):
      a = np.sqrt((4 * l * l - 1) / (l * l - m * m))
      b = np.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
      rows.append(a * (x * rows[-1] - b * rows[-2]))
    out.append(np.array(rows))
    pmm = np.sqrt((2 * m + 3) / (2 * m + 2)) * s * pmm
  return out


def run_job(job, rec):
  import e3x
  import jax

  jax.config.update('jax_enable_x64', True)
  q = getattr(e3x.so3, job['kind'] + '_quadrature')
  if job['what'] == 'invalid':
    rec.state('invalid', job['kind'])
    rec.raises(lambda: q(), 'no request accepted')
    rec.raises(lambda: q(precision=3, num=6), 'two requests accepted')
    return
  # Exhaustively request every precision to learn which rules exist.
  rules = []  # (num points, precision, r, w) in order of precision
  top_request = 140
  sizes = {}
  for p in range(-2, top_request + 1):
    r, w = q(precision=p)
    rec.call()
    rec.state('precision', job['kind'], p)
    n = len(w)
    rec.check(r.shape == (n, 3) and w.shape == (n,), 'inconsistent shapes', p=p)
    sizes[p] = n
    if not rules or rules[-1][0] != n:
      rules.append([n, p, np.asarray(r, np.float64), np.asarray(w, np.float64)])
    rules[-1][1] = p
  nums = [x[0] for x in rules]
  rec.check(nums == sorted(set(nums)), 'requests of higher precision return fewer points', nums=nums)
  rec.outcome(len(rules))
  if job['what'] == 'precision':
    rec.check(len(rules) > 10, 'rules are missing', rules=len(rules))
    cap = 35 if job['tier'] == 'quick' else 60
    for i, (n, p, r, w) in enumerate(rules):
      rec.states_bulk(('rule', job['kind'], n), n)
      rec.close(np.linalg.norm(r, axis=1), np.ones(n), 'grid points are not on the unit sphere', tol=1e-9, p=p)
      rec.close(np.sum(w), 1.0, 'weights do not sum to one', tol=1e-9, p=p)
      last = i == len(rules) - 1
      top = min(p, cap)
      phi = np.arctan2(r[:, 1], r[:, 0])
      for m, table in enumerate(legendre_table(r[:, 2], top)):
        c = table @ (w * np.cos(m * phi))
        s = table @ (w * np.sin(m * phi))
        if m == 0:
          c[0] -= 1
        if last:
          # The last rule answers every larger request, its own precision is
          # smaller than the request; exactness is required to the next lower.
          keep = rules[i - 1][1] + 1 - m if i else 1
          c, s = c[: max(keep, 0)], s[: max(keep, 0)]
        if c.size:
          rec.check(max(np.abs(c).max(), np.abs(s).max()) < 1e-8, 'polynomial not integrated exactly', kind=job['kind'], precision=p, m=m, n=n, err=max(np.abs(c).max(), np.abs(s).max()))
  else:
    top = 1300 if job['tier'] == 'quick' else 6000
    for num in range(0, top + 1):
      if num > 120 and not any(abs(num - x) <= 2 for x in nums) and num % 25:
        continue
      r, w = q(num=num)
      rec.call()
      rec.state('num', job['kind'], num)
      fit = [x for x in nums if x <= num]
      expected = fit[-1] if fit else nums[0]
      rec.check(len(w) == expected and r.shape == (expected, 3), 'request for a number of points not answered by the largest rule that fits', num=num, got=len(w), expected=expected)
      k = nums.index(expected)
      rec.close(np.asarray(r), rules[k][2], 'num and precision requests return different rules', tol=1e-12)
      rec.close(np.asarray(w), rules[k][3], 'num and precision requests return different rules', tol=1e-12)

"""Matrix module: square matrices assembled from irreps."""

import itertools

import numpy as np

from mc import nnutil
from mc import ref

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = (
    'every list of up to 3 degrees out of 0..2 (thorough: up to 4 out of 0..3) x'
    ' multiplicity 1..3 x every maximum degree from the largest degree to twice'
    ' that x shift_by_id: the complete linear map from irreps to the matrix is read'
    ' out on its basis; every column must be one Clebsch-Gordan block in one'
    ' submatrix, all columns orthonormal, all admissible (submatrix, degree)'
    ' combinations hit exactly once; equivariance under the generators of a dense'
    ' subgroup of SO(3); traces, multiplicities, weights and channel mixing'
)
ASSUMPTIONS = [
    'irreps are given as combine_irreps returns them (degrees 0, 1, ... without'
    ' gaps, as many channels as make_dict_irreps_mult counts)',
]
TABLES = dict(quick=(4, 0), thorough=(6, 0))


def lists(tier):
  top, n = (3, 3) if tier == 'quick' else (4, 4)
  return [d for k in range(1, n + 1) for d in itertools.product(range(top), repeat=k)]


def plan(tier):
  jobs = []
  ls = lists(tier)
  for k, part in enumerate(np.array_split(np.arange(len(ls)), 16 if tier == 'quick' else 64)):
    jobs.append(dict(kind='square', lists=[ls[i] for i in part], salt=k, tier=tier))
  jobs += [dict(kind='counts', tier=tier), dict(kind='weights'), dict(kind='combine'), dict(kind='invalid')]
  return jobs


def counts(degrees, max_degree):
  out = {}
  for a, b in itertools.product(degrees, degrees):
    for l in range(abs(a - b), min(a + b, max_degree) + 1):
      out[l] = out.get(l, 0) + 1
  return out


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp
  from e3x.matrix import matmat

  kind = job['kind']
  jax.config.update('jax_enable_x64', True)

  if kind == 'square':
    gens = [ref.rz(2 * np.pi / 5), ref.ry(1.0)]
    for i, degrees in enumerate(job['lists']):
      top = max(degrees)
      for max_degree, mult in itertools.product(range(top, 2 * top + 1), (1, 2, 3)):
        if len(degrees) > 2 and mult > (1 if job['tier'] == 'quick' else 2):
          continue
        if max_degree > (4 if job['tier'] == 'quick' else 6):
          continue
        cfg = (tuple(degrees), max_degree, mult)
        n = matmat.make_dict_irreps_mult(degrees, max_degree)
        want = counts(degrees, max_degree)
        rec.check({k: v for k, v in n.items() if v} == want, 'wrong multiplicities', cfg=cfg, got=dict(n))
        l_top = max(want)
        dims = [(2 * l + 1, want.get(l, 0) * mult * mult) for l in range(l_top + 1)]
        sizes = [a * b for a, b in dims]
        total = sum(sizes)

        def build(vec, shift):
          irreps, k = [], 0
          for (a, b), s in zip(dims, sizes):
            irreps.append(vec[k:k + s].reshape(a, b))
            k += s
          return matmat.make_square_matrix(irreps, degrees, mult, max_degree, shift, 'highest')

        side = mult * sum(2 * d + 1 for d in degrees)
        basis = jnp.eye(total)
        cols = np.asarray(jax.jit(jax.vmap(lambda v: build(v, False)))(basis))
        rec.states_bulk(cfg, total)
        rec.call(total)
        rec.check(cols.shape == (total, side, side), 'wrong shape', shape=cols.shape, cfg=cfg)
        # Linear, and the identity is added exactly once.
        v = jnp.asarray(nnutil.generic((total,), salt=i))
        m0 = np.asarray(build(v, False))
        m1 = np.asarray(build(v, True))
        rec.call(2)
        rec.close(m0, np.einsum('k,kij->ij', np.asarray(v), cols), 'not linear in the irreps', tol=1e-5, cfg=cfg)
        rec.close(m1, m0 + np.eye(side), 'shift_by_id does not add the identity', tol=1e-6, cfg=cfg)
        # Isometry: no combination is lost or used twice.
        flat = cols.reshape(total, -1)
        rec.close(flat @ flat.T, np.eye(total), 'irreps are not embedded isometrically', tol=1e-5, cfg=cfg)
        # Every column is a Clebsch-Gordan block inside one submatrix.
        starts = []
        pos = 0
        for d in degrees:
          for _ in range(mult):
            starts.append((pos, d))
            pos += 2 * d + 1
        hits = set()
        k = 0
        for l, (a, b) in enumerate(dims):
          block = cols[k:k + a * b].reshape(a, b, side, side)
          for c in range(b):
            x = block[:, c]
            nz = [(p, q) for p, q in itertools.product(range(len(starts)), repeat=2)
                  if np.abs(x[:, starts[p][0]:starts[p][0] + 2 * starts[p][1] + 1, starts[q][0]:starts[q][0] + 2 * starts[q][1] + 1]).max() > 1e-5]
            rec.check(len(nz) == 1, 'one irrep does not belong to exactly one submatrix', degree=l, channel=c, submatrices=nz, cfg=cfg)
            p, q = nz[0]
            (sp, dp), (sq, dq) = starts[p], starts[q]
            rec.check(abs(dp - dq) <= l <= dp + dq, 'degree does not fit to its submatrix', degree=l, shape=(dp, dq), cfg=cfg)
            cg = ref.full_cg(dp, dq, l, True)[dp * dp:, dq * dq:, l * l:]
            got = x[:, sp:sp + 2 * dp + 1, sq:sq + 2 * dq + 1].transpose(1, 2, 0)
            rec.close(got, cg, 'submatrix is not the Clebsch-Gordan expansion', tol=1e-5, degree=l, shape=(dp, dq), cfg=cfg)
            rec.check((p, q, l) not in hits, 'degree is used twice in a submatrix', degree=l, cfg=cfg)
            hits.add((p, q, l))
          k += a * b
        want_hits = {(p, q, l) for p, q in itertools.product(range(len(starts)), repeat=2)
                     for l in range(abs(starts[p][1] - starts[q][1]), min(starts[p][1] + starts[q][1], max_degree) + 1)}
        rec.check(hits == want_hits, 'a submatrix lacks a degree', missing=sorted(want_hits - hits)[:3], cfg=cfg)
        # Rotated irreps give the conjugated matrix.
        for rot in gens:
          d = ref.wigner_d(rot, max(l_top, top), True)
          blk = lambda l: d[l * l:(l + 1) ** 2, l * l:(l + 1) ** 2]
          big = np.zeros((side, side))
          for s, l in starts:
            big[s:s + 2 * l + 1, s:s + 2 * l + 1] = blk(l)
          k, rotated = 0, []
          for l, (a, b) in enumerate(dims):
            rotated.append((blk(l).T @ np.asarray(v)[k:k + a * b].reshape(a, b)).reshape(-1))
            k += a * b
          out = np.asarray(build(jnp.asarray(np.concatenate(rotated)), True))
          rec.call()
          rec.close(out, big.T @ m1 @ big, 'matrix is not equivariant', tol=2e-5, cfg=cfg)
        # Traces of the square submatrices, invariant under rotations.
        for shift, m in ((False, m0), (True, m1)):
          tr = np.asarray(matmat.get_traces(jnp.asarray(m), degrees, mult, shift))
          rec.call()
          wantt, pos = [], 0
          for l in degrees:
            a = 2 * l + 1
            for p, q in itertools.product(range(mult), repeat=2):
              wantt.append(np.trace(m0[pos + p * a:pos + (p + 1) * a, pos + q * a:pos + (q + 1) * a]))
            pos += a * mult
          rec.close(tr, np.array(wantt), 'traces are wrong', tol=2e-5, cfg=cfg, shift=shift)
        rec.outcome((cfg, total, side))
  elif kind == 'counts':
    top, n = (4, 4) if job['tier'] == 'quick' else (6, 5)
    for k in range(1, n + 1):
      for degrees in itertools.product(range(top), repeat=k):
        for m in [None] + list(range(max(degrees), 2 * max(degrees) + 2)):
          rec.state('counts', degrees, m)
          rec.call()
          got = matmat.make_dict_irreps_mult(degrees, m)
          rec.check({a: b for a, b in got.items() if b} == counts(degrees, 10**6 if m is None else m), 'wrong multiplicities', degrees=degrees, max_degree=m)
          if m is None or m >= 2 * max(degrees):
            side = sum(2 * d + 1 for d in degrees)
            rec.check(sum((2 * l + 1) * c for l, c in got.items()) == side * side, 'multiplicities do not add up to the matrix dimension', degrees=degrees)
        rec.check(tuple(matmat.compute_side_lengths(degrees)) == tuple(2 * d + 1 for d in degrees), 'wrong side lengths', degrees=degrees)
  elif kind == 'weights':
    for degrees, mult, std, shells in itertools.product(((0,), (1,), (0, 1), (0, 1, 2), (2, 2)), (1, 2), (1.0, 0.1), (1, 5)):
      rec.state('weights', degrees, mult, std, shells)
      n = matmat.make_dict_irreps_mult(degrees, None)
      ws = e3x.matrix.init_matrix_irreps_weights(jax.random.PRNGKey(1), shells, n, mult, std)
      rec.call()
      rec.check(len(ws) == max(n) + 1, 'number of weight matrices', n=len(ws))
      for l, w in enumerate(ws):
        rec.check(w.shape == (shells, counts(degrees, 99).get(l, 0) * mult * mult), 'shape of weights', shape=w.shape, degree=l)
      again = e3x.matrix.init_matrix_irreps_weights(jax.random.PRNGKey(1), shells, n, mult, std)
      rec.check(all(bool((a == b).all()) for a, b in zip(ws, again)), 'weights are not reproducible')
    # Standard deviation per degree: stddev / sqrt(2 l + 1).
    n = matmat.make_dict_irreps_mult((0, 1, 2), None)
    for std in (1.0, 0.3):
      ws = e3x.matrix.init_matrix_irreps_weights(jax.random.PRNGKey(2), 2000, n, 1, std)
      rec.call()
      for l, w in enumerate(ws):
        rec.state('std', std, l)
        s = np.asarray(w).std() / std * np.sqrt(2 * l + 1)
        rec.check(0.93 < s < 1.07, 'standard deviation of weights', degree=l, ratio=s)
      for a, b in itertools.combinations(range(len(ws)), 2):
        k = min(ws[a].shape[1], ws[b].shape[1])
        u, v = np.asarray(ws[a])[:, :k].ravel(), np.asarray(ws[b])[:, :k].ravel()
        rec.check(abs(np.corrcoef(u, v)[0, 1]) < 0.2, 'weights of different degrees are correlated', degrees=(a, b))
  elif kind == 'combine':
    for l_in, lw, f, m, lead in itertools.product(range(4), range(4), (1, 3), (1, 2, 4), ((), (2,), (2, 3))):
      if lw > l_in:
        continue
      rec.state('combine', l_in, lw, f, m, lead)
      x = nnutil.generic((*lead, (l_in + 1) ** 2, f), salt=l_in)
      ws = [nnutil.generic((f, m + l), salt=l) for l in range(lw + 1)]
      out = matmat.combine_irreps(jnp.asarray(x), [jnp.asarray(w) for w in ws], 'highest')
      rec.call()
      rec.check(len(out) == lw + 1, 'number of irreps', n=len(out))
      for l, y in enumerate(out):
        rec.close(np.asarray(y), x[..., l * l:(l + 1) ** 2, :] @ ws[l], 'irreps are combined wrongly', tol=1e-6, degree=l)
  else:
    ok = [jnp.ones((1, 8)), jnp.ones((3, 8)), jnp.ones((5, 8))]
    bad = [
        ('max_degree below the largest degree', lambda: matmat.make_square_matrix(ok, [2], 1, 1, False, None)),
        ('even irrep dimension', lambda: matmat.make_square_matrix([jnp.ones((2, 8))], [0], 1, 0, False, None)),
        ('too few irreps', lambda: matmat.make_square_matrix([jnp.ones((1, 1)), jnp.ones((3, 1)), jnp.ones((5, 1))], [1, 1], 1, 2, False, None)),
        ('even side', lambda: matmat.make_rectangular_matrix(ok, [0, 0, 0], 2, 3, jnp.ones((9, 9, 9)), 1, None)),
        ('even side', lambda: matmat.make_rectangular_matrix(ok, [0, 0, 0], 3, 4, jnp.ones((9, 9, 9)), 1, None)),
        ('Clebsch-Gordan array too small', lambda: matmat.make_rectangular_matrix(ok, [0, 0, 0], 3, 3, jnp.ones((1, 9, 9)), 1, None)),
        ('Clebsch-Gordan array too small', lambda: matmat.make_rectangular_matrix(ok, [0, 0, 0], 3, 3, jnp.ones((9, 1, 9)), 1, None)),
        ('Clebsch-Gordan array too small', lambda: matmat.make_rectangular_matrix(ok, [0, 0, 0], 3, 3, jnp.ones((9, 9, 4)), 1, None)),
        ('irreps with batch axis', lambda: matmat.make_rectangular_matrix([jnp.ones((1, 1, 4))], [0], 1, 1, jnp.ones((1, 1, 1)), 1, None)),
    ]
    for what, f in bad:
      rec.state('invalid', what)
      rec.raises(f, f'{what}: accepted')

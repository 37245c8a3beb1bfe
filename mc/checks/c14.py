"""Equivariant layers: every (parity, degree) coupling path, exhaustively."""

import itertools

import numpy as np

from mc import nnutil
from mc import ref

PROPERTY = 'C14'
LEVEL = 'model_checking'
RULE = (
    'Tensor and FusedTensor: every combination of input/output maximum degrees'
    ' (inputs 0..2, thorough 0..3; output None and 0..sum, quick at most 3), input pseudotensor'
    ' channels, include_pseudotensors and component order; the complete'
    ' bilinear map is read out on all pairs of basis vectors and every block'
    ' (parity1, degree1) x (parity2, degree2) -> (parity3, degree3) is compared'
    ' with the coupling model (allowed: a non-zero multiple of the'
    ' Clebsch-Gordan block; forbidden: zero). Dense: the complete linear map'
    ' for every shape, TensorDense: polarised quadratic map under generators of'
    ' a dense subgroup of O(3); Embed: every index'
)
ASSUMPTIONS = [
    'layers are (bi)linear in their inputs, so basis vectors decide them (the'
    ' polarisation checks linearity itself on generic inputs)',
    'parameters are generic numbers, not all parameter values',
]
TABLES = dict(quick=(3, 0), thorough=(6, 0))


def plan(tier):
  top = 2 if tier == 'quick' else 3
  jobs = []
  for which in ('Tensor', 'FusedTensor'):
    for l1, l2 in itertools.product(range(top + 1), repeat=2):
      for s1, s2 in itertools.product((1, 2), repeat=2):
        jobs.append(dict(kind='bilinear', which=which, l1=l1, l2=l2, s1=s1, s2=s2, tier=tier))
  jobs += [dict(kind='dense', s=s, l=l) for s in (1, 2) for l in range(8 if tier == 'quick' else 12)]
  for fused in (True, False):
    jobs += [dict(kind='tensordense', s=s, l=l, fused=fused, part=q) for s in (1, 2) for l in range(3 if tier == 'thorough' else 2) for q in (0, 1)]
    jobs.append(dict(kind='tensordense', s=2, l=2, fused=fused, part=0))
  jobs += [dict(kind='embed'), dict(kind='invalid')]
  jobs += [dict(kind='batch', s=s, l=l) for s in (1, 2) for l in range(3)]
  return jobs


def weight(job):
  if job['kind'] == 'bilinear':
    return (job['l1'] + 1) * (job['l2'] + 1) * job['s1'] * job['s2']
  return 20 if job['kind'] == 'tensordense' else 8


def sixj_zero(lt, l1, l2, l3):
  """Does the documented matrix product couple l1 and l2 to l3 at all?"""
  c1, c2, c3 = (ref.real_cg(lt, lt, l) for l in (l1, l2, l3))
  t = np.einsum('abi,bcj,ack->ijk', c1, c2, c3)
  return np.abs(t).max() < 1e-9


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  kind = job['kind']
  jax.config.update('jax_enable_x64', kind != 'batch')
  nn = e3x.nn
  F = 2

  if kind == 'bilinear':
    l1, l2, s1, s2 = (job[k] for k in ('l1', 'l2', 's1', 's2'))
    n1, n2 = s1 * (l1 + 1) ** 2, s2 * (l2 + 1) ** 2
    # All pairs of basis vectors (all features one), then one generic pair.
    e1 = (np.eye(n1).reshape(n1, 1, s1, (l1 + 1) ** 2, 1) * np.ones((1, n2, 1, 1, F))).reshape(n1 * n2, s1, -1, F)
    e2 = (np.eye(n2).reshape(1, n2, s2, (l2 + 1) ** 2, 1) * np.ones((n1, 1, 1, 1, F))).reshape(n1 * n2, s2, -1, F)
    x1, x2 = nnutil.features((), s1, l1, F, 1), nnutil.features((), s2, l2, F, 2)
    e1, e2 = np.concatenate([e1, x1[None]]), np.concatenate([e2, x2[None]])
    outputs = (None,) + tuple(range(l1 + l2 + 1))
    if job['tier'] == 'quick' and l1 + l2 == 4:
      outputs = (None, 0, 3)
    for l3, pseudo in itertools.product(outputs, (True, False)):
      for cart in (True, False) if l3 is None and pseudo else (True,):
        cfg = (job['which'], l1, s1, l2, s2, l3, pseudo, cart)
        rec.state(*cfg)
        gi = nnutil.GenericInit()
        init = gi.plain if job['which'] == 'Tensor' else gi.fused
        mod = getattr(nn, job['which'])(max_degree=l3, include_pseudotensors=pseudo, cartesian_order=cart, kernel_init=init, param_dtype=jnp.float64)
        out = np.asarray(jax.jit(lambda a, b: mod.init_with_output(jax.random.PRNGKey(0), a, b)[0])(e1, e2))
        rec.call(2)
        l3v = max(l1, l2) if l3 is None else l3
        # Which output blocks exist?
        no_pseudo = s1 == s2 == 1 and 0 in (l1, l2, l3v)
        s3 = 2 if pseudo and not no_pseudo else 1
        rec.check(out.shape == (n1 * n2 + 1, s3, (l3v + 1) ** 2, F), 'output has the wrong shape', config=cfg, shape=out.shape)
        rec.check(bool(np.isfinite(out).all()), 'output is not finite', config=cfg)
        y, out = out[-1], out[:-1]
        b = out.reshape(s1, (l1 + 1) ** 2, s2, (l2 + 1) ** 2, s3, (l3v + 1) ** 2, F)
        weights = {f: [] for f in range(F)}
        lt = -(-max(l1, l2, l3v) // 2)
        for (p1, a, i1, sl1), (p2, c, i2, sl2), (p3, d, i3, sl3) in itertools.product(
            nnutil.blocks(s1, l1), nnutil.blocks(s2, l2), nnutil.blocks(s3, l3v)
        ):
          blk = b[i1, sl1, i2, sl2, i3, sl3]
          allowed = abs(a - c) <= d <= a + c and (p1 + p2) % 2 == p3
          if not allowed:
            rec.check(np.abs(blk).max() < 1e-6, 'forbidden coupling path contributes', config=cfg, path=((a, p1), (c, p2), (d, p3)), value=float(np.abs(blk).max()))
            continue
          cg = ref.real_cg(a, c, d)[np.ix_(*[np.array(ref.m_order(q, cart)) + q for q in (a, c, d)])]
          for f in range(F):
            w = np.sum(blk[..., f] * cg) / np.sum(cg * cg)
            rec.check(
                np.abs(blk[..., f] - w * cg).max() < 2e-6 * (1 + abs(w)),
                'coupling is not a multiple of the Clebsch-Gordan coefficients (not equivariant)',
                config=cfg, path=((a, p1), (c, p2), (d, p3)), feature=f,
            )
            if job['which'] == 'FusedTensor' and sixj_zero(lt, a, c, d):
              continue
            rec.check(abs(w) > 1e-6, 'allowed coupling path does not contribute', config=cfg, path=((a, p1), (c, p2), (d, p3)), feature=f)
            weights[f].append(w)
        if job['which'] == 'Tensor':
          for f in range(F):
            u = np.sort(weights[f])
            rec.check(len(u) < 2 or np.diff(u).min() > 1e-7, 'two coupling paths share a weight', config=cfg)
        # Linearity in each factor, on generic inputs.
        want = np.einsum('plf,qmf,plqmrnf->rnf', x1, x2, b)
        rec.close(y, want, 'layer is not bilinear and feature-wise', tol=2e-6, config=cfg)
        rec.outcome((out.shape, len(weights[0])))
  elif kind == 'dense':
    s, l = job['s'], job['l']
    n = s * (l + 1) ** 2
    for fin, fout, bias in itertools.product((1, 3), (1, 2), (True, False)):
      rec.state('dense', s, l, fin, fout, bias)
      mod = nn.Dense(fout, use_bias=bias)
      basis = np.eye(n * fin).reshape(n * fin, s, (l + 1) ** 2, fin)
      params = nnutil.generic_params(mod, jnp.asarray(basis))
      f = jax.jit(mod.apply)
      y0 = np.asarray(f(params, np.zeros((s, (l + 1) ** 2, fin))))
      y = np.asarray(f(params, basis)) - y0
      rec.call(2)
      rec.check(y.shape == (n * fin, s, (l + 1) ** 2, fout), 'output has the wrong shape', shape=y.shape)
      # Bias: only in the even-parity scalar.
      rest = y0.copy()
      rest[0, 0] = 0
      rec.check(np.abs(rest).max() < 1e-12, 'bias on features that are not even-parity scalars', s=s, l=l)
      rec.check((np.abs(y0[0, 0]) > 1e-3).all() if bias else np.abs(y0).max() < 1e-12, 'bias is missing or unexpected', bias=bias)
      m = y.reshape(s, (l + 1) ** 2, fin, s, (l + 1) ** 2, fout)
      mats = []
      for (p1, a, i1, sl1), (p2, c, i2, sl2) in itertools.product(nnutil.blocks(s, l), repeat=2):
        blk = m[i1, sl1, :, i2, sl2, :]
        if (p1, a) != (p2, c):
          rec.check(np.abs(blk).max() < 1e-9, 'irreps of different degree or parity are mixed', s=s, l=l, path=((a, p1), (c, p2)))
          continue
        w = blk[0, :, 0, :]
        want = np.einsum('mn,io->mino', np.eye(2 * a + 1), w)
        rec.close(blk, want, 'linear map is not the same for all components of an irrep', tol=1e-9, irrep=(a, p1))
        rec.check((np.abs(w) > 1e-3).all(), 'a feature does not contribute', irrep=(a, p1))
        mats.append(w.ravel())
      rec.check(len({tuple(np.round(w, 9)) for w in mats}) == len(mats), 'two irreps share a weight matrix', s=s, l=l)
      x = nnutil.features((3,), s, l, fin, 3)
      rec.call()
      rec.close(f(params, x), np.einsum('bplf,plfqmo->bqmo', x, m) + y0, 'layer is not affine', tol=1e-9)
  elif kind == 'tensordense':
    s, l, fused = job['s'], job['l'], job['fused']
    n = s * (l + 1) ** 2
    cases = [(None, p, c, True) for p in (True, False) for c in (True, False)]
    cases += [(q, True, True, bias) for q in (0, l + 1) if q <= 2 * l for bias in (True, False)]
    cases += [(None, True, True, False)]
    for l3, pseudo, cart, bias in cases[job['part'] :: 2]:
      mod = nn.TensorDense(features=2, max_degree=l3, include_pseudotensors=pseudo, cartesian_order=cart, use_bias=bias, use_fused_tensor=fused)
      rec.state('tensordense', s, l, fused, l3, pseudo, cart, bias)
      tops = max(l, l if l3 is None else l3)
      grp = nnutil.group(tops, cart)
      # Quadratic polynomial: e_i, e_i + e_j, 0 and generic feature vectors.
      eye = np.eye(n)
      pts = [np.zeros(n)] + list(eye) + list(-eye) + [eye[i] + eye[j] for i in range(n) for j in range(i)]
      x = np.array(pts).reshape(len(pts), s, (l + 1) ** 2, 1) * np.array([1.0])
      t = nnutil.features((), s, l, 1, 5)
      # One batch: points, their images under the generators, multiples of t.
      batch = np.concatenate([x] + [nnutil.apply_o3(x, d, imp) for _, imp, d in grp] + [np.stack([k * t for k in range(4)])])
      gi = nnutil.GenericInit()
      mod = mod.clone(
          param_dtype=jnp.float64, dense_kernel_init=gi.plain, dense_bias_init=gi.plain,
          tensor_kernel_init=gi.fused if fused else gi.plain,
      )
      out = np.asarray(jax.jit(lambda a: mod.init_with_output(jax.random.PRNGKey(0), a)[0])(batch))
      rec.call(len(grp) + 5)
      y = out[: len(pts)]
      l3v = l if l3 is None else l3
      s3 = 2 if pseudo and not (s == 1 and 0 in (l, l3v)) else 1
      rec.check(y.shape == (len(pts), s3, (l3v + 1) ** 2, 2), 'output has the wrong shape', shape=y.shape)
      for k, (_, improper, d) in enumerate(grp):
        got = out[(k + 1) * len(pts) : (k + 2) * len(pts)]
        rec.close(got, nnutil.apply_o3(y, d, improper), 'TensorDense is not equivariant', tol=5e-6, generator=k, config=(s, l, fused, l3, pseudo, cart, bias))
      # A product of two affine maps: third differences vanish.
      vals = out[-4:]
      rec.close(vals[3] - 3 * vals[2] + 3 * vals[1] - vals[0], 0 * vals[0], 'output is not quadratic', tol=1e-4)
    mod = nn.TensorDense(use_fused_tensor=fused)
    x = nnutil.features((2,), s, l, 3)
    y = mod.apply(nnutil.generic_params(mod, jnp.asarray(x)), x)
    rec.call()
    rec.check(y.shape[-1] == 3 and y.shape[-2] == (l + 1) ** 2, 'features or degree are not kept by default', shape=y.shape)
  elif kind == 'embed':
    for num, feat in ((1, 1), (5, 3), (7, 2)):
      mod = nn.Embed(num_embeddings=num, features=feat)
      params = nnutil.generic_params(mod, jnp.zeros((2,), jnp.int32))
      rows = np.asarray(mod.apply(params, jnp.arange(num)))
      rec.check(rows.shape == (num, 1, 1, feat), 'embedding has the wrong shape', shape=rows.shape)
      rec.check(len({tuple(r.ravel()) for r in rows}) == num, 'two indices share an embedding')
      for dt in ('int8', 'int32', 'uint8', 'int64'):
        for shape in ((), (num,), (2, 3), (1, 2, 2)):
          idx = (np.arange(int(np.prod(shape))) % num).reshape(shape).astype(dt)
          rec.state('embed', num, feat, dt, shape)
          rec.call()
          got = mod.apply(params, jnp.asarray(idx))
          rec.close(got, rows[idx], 'embedding differs from the row of the table', tol=1e-12)
      rec.raises(lambda: mod.apply(params, jnp.ones(2)), 'floating point index accepted')
  elif kind == 'batch':
    # Every layer treats leading axes as independent.
    for s, l in ((job['s'], job['l']),):
      for lead in ((2, 3),) if l else ((2,), (2, 3)):
        x, z = (nnutil.features(lead, s, l, F, k).astype(np.float32) for k in (1, 2))
        for name, mod, args in (
            ('Dense', nn.Dense(3), (x,)),
            ('Tensor', nn.Tensor(), (x, z)),
            ('FusedTensor', nn.FusedTensor(), (x, z)),
            ('TensorDense', nn.TensorDense(), (x,)),
        ):
          rec.state('batch', name, s, l, lead)
          params = nnutil.generic_params(mod, *map(jnp.asarray, args), dtype='float32')
          # XLA on CPU fails to compile the fused product for two batch axes under
          # jit (an internal error of this jax version), hence eager.
          f = jax.jit(mod.apply)
          y = np.asarray(mod.apply(params, *map(jnp.asarray, args)))
          flat = [a.reshape(-1, *a.shape[len(lead):]) for a in args]
          one = np.stack([np.asarray(f(params, *[q[i] for q in flat])) for i in range(len(flat[0]))])
          rec.call(1 + len(one))
          rec.close(y.reshape(one.shape), one, 'layer mixes batch entries', tol=1e-5, layer=name)
          rec.check(y.dtype == np.float32, 'dtype is not kept', layer=name, dtype=str(y.dtype))
  else:
    for which in ('Tensor', 'FusedTensor'):
      cls = getattr(nn, which)
      for l1, l2 in itertools.product(range(3), repeat=2):
        x, y = jnp.ones((1, (l1 + 1) ** 2, 2)), jnp.ones((2, (l2 + 1) ** 2, 2))
        rec.state('invalid degree', which, l1, l2)
        rec.raises(lambda: cls(max_degree=l1 + l2 + 1).init(jax.random.PRNGKey(0), x, y), 'impossible output degree accepted')
        rec.raises(lambda: cls().init(jax.random.PRNGKey(0), x, jnp.ones((2, (l2 + 1) ** 2, 3))), 'different numbers of features accepted')
      for bad in ((3, 4, 2), (1, 3, 2), (4, 2)):
        rec.state('invalid shape', which, bad)
        rec.raises(lambda: cls().init(jax.random.PRNGKey(0), jnp.ones(bad), jnp.ones((1, 4, 2))), 'invalid shape accepted', shape=bad)
    for bad in ((3, 4, 2), (1, 3, 2), (4, 2)):
      rec.raises(lambda: nn.Dense(2).init(jax.random.PRNGKey(0), jnp.ones(bad)), 'invalid shape accepted', shape=bad)

"""Radial-angular basis functions (basis, ExponentialBasis)."""

import functools
import itertools

import numpy as np

from mc import ref

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = (
    'basis: every maximum degree 0..4 (thorough 0..8) x number of functions 1..4 x'
    ' {no, smooth, cosine} cut-off x {no, smooth} damping x both component orders'
    ' x return_cutoff x return_norm x radial function {sinc, Bernstein,'
    ' reciprocal Gaussian, exponential Chebyshev} (all combinations of the'
    ' options; degrees, numbers and radial functions pairwise) on every vector of'
    ' {-2..2}^3 scaled to lengths 1e-30..50 incl. the zero vector, batch ranks'
    ' 0..3: values against the product of reference harmonics, radial function,'
    ' cut-off and damping; gradients against the derivative of that product;'
    ' custom angular functions; ExponentialBasis for every initial gamma'
)
ASSUMPTIONS = [
    'radial, cut-off and damping functions are those of e3x (decided by C18)',
    'tolerances: float64 1e-8 (values), 1e-5 (gradients against differences of'
    ' step 1e-5)',
]

RADIAL = ('sinc', 'basic_bernstein', 'reciprocal_gaussian', 'exponential_chebyshev')
OPTIONS = list(itertools.product((None, 'smooth', 'cosine'), (False, True), (False, True), (False, True), (False, True)))


def plan(tier):
  top = 5 if tier == 'quick' else 9
  jobs = []
  for i, (cut, damp, cart, rc, rn) in enumerate(OPTIONS):
    for j in range(1 if tier == 'quick' else 4):
      jobs.append(dict(
          kind='basis', cut=cut, damp=damp, cart=cart, rc=rc, rn=rn, l=(i + 2 * j) % top,
          num=1 + (i // 5 + j) % 4, radial=RADIAL[(i + i // 4 + j) % 4]))
  for l, num in itertools.product(range(top), range(1, 5)):
    jobs.append(dict(kind='basis', cut='smooth', damp=bool((l + num) % 2), cart=bool(l % 2), rc=True, rn=True, l=l, num=num, radial=RADIAL[(l + num) % 4]))
  for x64 in (False, True):
    for damp in (False, True):
      jobs.append(dict(kind='grad', x64=x64, damp=damp, l=3 if tier == 'quick' else 6))
  for f in ('bernstein', 'chebyshev', 'gaussian', 'fourier'):
    jobs.append(dict(kind='exponential', fam=f, tier=tier))
  jobs.append(dict(kind='other'))
  return jobs


def vectors(lengths=(1e-30, 1e-12, 1e-4, 0.3, 1.0, 1.9, 2.1, 50.0)):
  u = ref.sphere_points(2)
  out = [np.zeros((1, 3))]
  for i, s in enumerate(lengths):
    out.append(s * u[i % 3::3])
  out.append(1.3 * u)
  return np.concatenate(out)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  nn = e3x.nn
  jax.config.update('jax_enable_x64', job.get('x64', True))
  limit = 2.0

  def radial_fn(name):
    f = getattr(nn, name)
    return functools.partial(f, limit=limit) if name in ('sinc', 'basic_bernstein') else f

  cutoffs = {
      None: None,
      'smooth': functools.partial(nn.smooth_cutoff, cutoff=limit),
      'cosine': functools.partial(nn.cosine_cutoff, cutoff=limit),
  }

  def model(r, l, num, radial, cut, damp, cart):
    """Reference (numpy) values for vectors r of shape (n, 3)."""
    n = np.sqrt((r * r).sum(-1))
    n = np.where(n > 0, n, np.abs(r).max(-1))  # Squares of 1e-200 underflow.
    y = np.where((n > 0)[:, None], ref.spherical_harmonics(np.where((n > 0)[:, None], r / np.where(n > 0, n, 1)[:, None], [0.0, 0.0, 1.0]), l, cart, 'racah'), 0)
    y[:, 0] = 1
    g = np.asarray(radial(jnp.asarray(n), num))
    c = np.asarray(cut(jnp.asarray(n))) if cut is not None else np.ones_like(n)
    d = np.asarray(damp(jnp.asarray(n))) if damp is not None else np.ones_like(n)
    out = y[:, :, None] * (g * c[:, None])[:, None, :]
    out[:, 1:] *= d[:, None, None]
    return out[:, None], c, n

  if job['kind'] == 'basis':
    l, num, cart = job['l'], job['num'], job['cart']
    cut, damp = cutoffs[job['cut']], (nn.smooth_damping if job['damp'] else None)
    radial = radial_fn(job['radial'])
    kw = dict(max_degree=l, num=num, radial_fn=radial, cutoff_fn=cut, damping_fn=damp, return_cutoff=job['rc'], return_norm=job['rn'], cartesian_order=cart)
    r = vectors()
    cfg = tuple(sorted((k, str(v)) for k, v in job.items()))
    rec.states_bulk(cfg, len(r))
    if job['rc'] and cut is None:
      rec.raises(lambda: nn.basis(jnp.asarray(r), **kw), 'cut-off values are requested without a cut-off function')
      kw['return_cutoff'] = job_rc = False
    else:
      job_rc = job['rc']
    want, c, n = model(r, l, num, radial, cut, damp, cart)
    zero = n == 0
    if l and damp is None:
      want[zero, :, 1:] = np.nan  # Undefined: skipped below.
    expect = [want] + ([c] if job_rc else []) + ([n] if job['rn'] else [])

    def run(x):
      out = nn.basis(jnp.asarray(x), **kw)
      rec.call()
      tup = isinstance(out, tuple)
      rec.check(tup == (len(expect) > 1), 'wrong kind of result (tuple or array)', job=job)
      out = out if tup else (out,)
      rec.check(len(out) == len(expect), 'wrong number of results', job=job, n=len(out))
      return [np.asarray(o) for o in out]

    for shape, sel in (((len(r),), slice(None)), ((), 7), ((2, 3), slice(0, 6)), ((1, 2, 2), slice(9, 13)), ((0,), slice(0, 0))):
      x = r[sel].reshape(*shape, 3)
      out = run(x)
      for o, e, what in zip(out, expect, ('basis', 'second result', 'third result')):
        e = e[sel].reshape(shape + e.shape[1:])
        rec.check(o.dtype == np.float64, 'dtype changes', dtype=str(o.dtype))
        skip = np.isnan(e)
        rec.check(bool(np.isfinite(o).all()), f'{what} is not finite', job=job)
        rec.check(o.shape == e.shape, f'{what} has the wrong shape', shape=o.shape, expected=e.shape, job=job)
        rec.close(np.where(skip, 0, o), np.where(skip, 0, e), f'{what} is wrong', tol=1e-8, job=job)
    full = run(r)[0]
    if cut is not None:
      rec.check(bool((full[n >= limit] == 0).all()), 'basis functions do not vanish beyond the cut-off', job=job)
    rec.check(bool((full[zero][:, :, 0] != 0).any()) or job['radial'] == 'basic_bernstein', 'degree 0 vanishes at the origin', job=job)
    rec.outcome(str(np.round(np.abs(full).sum(), 6)))
  elif job['kind'] == 'grad':
    x64 = job['x64']
    damp = nn.smooth_damping if job['damp'] else None
    l, num = job['l'], 3
    dt = np.float64 if x64 else np.float32
    for name, cutname in itertools.product(RADIAL, (None, 'smooth', 'cosine')):
      radial, cut = radial_fn(name), cutoffs[cutname]
      # 50 is far beyond the limit; Bernstein is only defined within it.
      lengths = (1e-30, 1e-12, 1e-4, 0.05, 0.3, 1.0, 1.9, 2.1)
      r = vectors(lengths)[:: 1 if x64 else 2].astype(dt)
      rec.states_bulk(('grad', x64, damp is None, name, cutname), len(r))
      f = lambda v: nn.basis(v, max_degree=l, num=num, radial_fn=radial, cutoff_fn=cut, damping_fn=damp, cartesian_order=True)
      jac = np.asarray(jax.jit(jax.vmap(jax.jacfwd(f)))(jnp.asarray(r)))
      rec.call(len(r))
      # Zero vectors: degree l > 0 is undefined without damping; the gradient
      # must be finite nevertheless.
      bad = ~np.isfinite(jac.reshape(len(r), -1)).all(1)
      rec.check(not bad.any(), 'gradient is not finite', at=r[bad][:3].tolist(), radial=name, cut=cutname, damp=job['damp'])
      if x64:
        n = np.sqrt((r * r).sum(-1))
        ok = (n > 0.02) & (np.abs(n - limit) > 1e-3)
        if name == 'basic_bernstein':
          ok &= n < limit
        h = 1e-5
        want = np.stack([
            (model(r + h * e, l, num, radial, cut, damp, True)[0] - model(r - h * e, l, num, radial, cut, damp, True)[0]) / (2 * h)
            for e in np.eye(3)], -1)
        for i in np.nonzero(ok)[0][:: 1]:
          rec.close(jac[i], want[i], 'gradient is wrong', tol=2e-5, at=r[i].tolist(), radial=name, cut=cutname)
        if damp is not None:
          z = n < 1e-3
          rec.check(bool((np.abs(jac[z][:, :, 1:]) < 1e-6).all()), 'damped functions are not flat at the origin', radial=name, cut=cutname)
      if cut is not None:
        n = np.sqrt((r.astype(np.float64) ** 2).sum(-1))
        rec.check(bool((jac[n > limit + 1e-6] == 0).all()), 'gradient does not vanish beyond the cut-off', radial=name, cut=cutname)
  elif job['kind'] == 'exponential':
    r = vectors()[1::5]
    fams = ['exponential_' + job['fam']]
    for i, (fam, g0, dt) in enumerate(itertools.product(fams, (1e-3, 0.5, 1.0, 40.0) if job['tier'] == 'quick' else (1e-3, 0.1, 0.5, 1.0, 3.0, 40.0), ('float32', 'float64'))):
      rec.state('ExponentialBasis', fam, g0, dt)
      mod = nn.ExponentialBasis(initial_gamma=g0, param_dtype=jnp.dtype(dt))
      kw = dict(max_degree=i % 3, num=1 + i % 4, radial_fn=getattr(nn, fam), cutoff_fn=cutoffs['smooth'], return_cutoff=bool(i % 2), return_norm=bool(i % 3))
      x = jnp.asarray(r)
      params = mod.init(jax.random.PRNGKey(i), x, **kw)
      leaves = jax.tree_util.tree_leaves(params)
      rec.check(len(leaves) == 1 and leaves[0].shape == () and leaves[0].dtype == jnp.dtype(dt), 'parameter is not a scalar of the parameter dtype', got=str(leaves))

      def expected(g):
        return nn.basis(x, **{**kw, 'radial_fn': functools.partial(getattr(nn, fam), gamma=g)})

      def compare(p, g, what, tol):
        a = jax.tree_util.tree_leaves(mod.apply(p, x, **kw))
        e = jax.tree_util.tree_leaves(expected(g))
        rec.call()
        rec.check(len(a) == len(e), f'{what}: wrong number of results')
        for u, v in zip(a, e):
          rec.close(u, v, what, tol=tol, gamma=g, fam=fam)

      compare(params, g0, 'initial gamma is not used', 1e-5 if dt == 'float32' else 1e-9)
      # Every parameter value means gamma = softplus(parameter) > 0.
      for v in (-20.0, -1.0, 0.0, 2.0, 15.0):
        p = jax.tree_util.tree_map(lambda a: jnp.full_like(a, v), params)
        compare(p, float(np.logaddexp(0, v)), 'gamma is not the softplus of the parameter', 1e-6 if dt == 'float32' else 1e-9)
      p = jax.tree_util.tree_map(lambda a: jnp.full_like(a, 0.5), params)
      loss = lambda q: sum(jnp.sum(t * t) for t in jax.tree_util.tree_leaves(mod.apply(q, x, **kw)))
      g = jax.tree_util.tree_leaves(jax.grad(loss)(p))[0]
      h = 1e-4
      up, dn = (jax.tree_util.tree_map(lambda a: (a.astype(jnp.float64) + s), p) for s in (h, -h))
      fd = (loss(up) - loss(dn)) / (2 * h)
      rec.close(np.asarray(g, np.float64), np.asarray(fd), 'gradient for gamma is wrong', tol=1e-3, fam=fam)
  else:
    r = vectors()
    x = jnp.asarray(r)
    base = dict(max_degree=2, num=3, radial_fn=radial_fn('sinc'))
    seen = []

    def angular(r, max_degree, cartesian_order):
      seen.append((max_degree, cartesian_order))
      return 3 * e3x.so3.solid_harmonics(r, max_degree=max_degree, cartesian_order=cartesian_order)

    for cart in (False, True):
      rec.state('angular', cart)
      rec.call()
      out = np.asarray(nn.basis(x, angular_fn=angular, cartesian_order=cart, **base))
      n = np.sqrt((r * r).sum(-1))
      u = r / np.where(n > 0, n, 1)[:, None]
      y = 3 * ref.solid_harmonics(u, 2, cart, 'racah')
      g = np.asarray(base['radial_fn'](jnp.asarray(n), 3))
      rec.close(out, (y[:, :, None] * g[:, None])[:, None], 'custom angular function is not used', tol=1e-8)
      rec.check(seen[-1] == (2, cart), 'custom angular function receives wrong options', seen=seen)
    for i, norm in itertools.product(range(5), ('racah', 'orthonormal')):
      fn = functools.partial(e3x.so3.spherical_harmonics, normalization=norm)
      y = fn(x[1:], max_degree=i, cartesian_order=True)
      rec.state('normalization', i, norm)
      rec.call()
      out = np.asarray(nn.basis(x[1:], **{**base, 'max_degree': i}, angular_fn=fn, cartesian_order=True))
      g = np.asarray(base['radial_fn'](jnp.asarray(n[1:]), 3))
      rec.close(out, (np.asarray(y)[:, :, None] * g[:, None])[:, None], 'normalization is not used', tol=1e-8)
    for shape in ((2, 2), (2,), (3, 1), (5, 4)):
      rec.state('shape', shape)
      rec.raises(lambda: nn.basis(jnp.ones(shape), **base), 'not a collection of 3-vectors, but accepted', shape=shape)

"""Norm and normalisation are accurate, isolated per slice and NaN-free."""

import itertools

import numpy as np

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = (
    'every vector whose components are drawn from {0} and +-magnitudes covering'
    ' the whole exponent range of the dtype (all magnitude tuples), as single'
    ' vectors and as batches mixing all magnitudes, every axis specification'
    ' (None, positive, negative, every tuple) x keepdims of arrays of rank 0..3,'
    ' value + first and second derivatives, eager and jit'
)
ASSUMPTIONS = [
    'magnitudes are powers of ten times 1, 3: floating point behaviour between'
    ' them is taken to be uniform (scale invariance of binary floating point)',
    'norms above 1/tiny (8.5e37 for float32, 4.5e307 for float64) are out of'
    ' scope: XLA on CPU divides by them through a flushed reciprocal',
    'subnormal inputs (flushed by XLA on CPU) are checked for finiteness only',
]

MAGS = {
    'float32': [0.0, 1e-37, 1e-30, 3e-23, 3e-19, 1e-10, 1e-3, 1.0, 7.0, 1e4, 1e10, 1e19, 1e30, 1e37],
    'float64': [0.0, 1e-307, 1e-200, 3e-160, 1e-153, 1e-80, 1e-10, 1.0, 7.0, 1e10, 1e80, 1e155, 1e250, 1e307],
}
SIGNS = [(1, 1, 1), (-1, 1, -1), (1, -1, -1)]


def plan(tier):
  jobs = []
  for dt in ('float32', 'float64'):
    jobs.append(dict(kind='values', dt=dt))
    jobs.append(dict(kind='grad', dt=dt))
    jobs.append(dict(kind='isolated', dt=dt))
    for rank in (0, 1, 2, 3) + ((4,) if tier == 'thorough' else ()):
      jobs.append(dict(kind='axes', dt=dt, rank=rank))
  return jobs


def true_norm(x, axis=None, keepdims=False):
  x = x.astype(np.longdouble)  # 15 exponent bits: squares do not overflow
  return np.sqrt(np.sum(x * x, axis=axis, keepdims=keepdims))


def rel(rec, got, want, tol, message, **kw):
  """Elementwise relative comparison (a tolerance relative to each element)."""
  got = np.asarray(got)
  rec.check(got.shape == want.shape, message + ' (shape)', got=got.shape, want=want.shape, **kw)
  g = got.astype(np.longdouble)
  rec.check(bool(np.isfinite(got).all()), message + ' (not finite)', **kw)
  bad = np.abs(g - want) > tol * np.abs(want)
  if bad.any():
    i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
    rec.fail(message, index=tuple(map(int, i)), got=float(g[i]), want=float(want[i]), **kw)
  rec.compared += got.size


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  jax.config.update('jax_enable_x64', job['dt'] == 'float64')
  dt = np.dtype(job['dt'])
  eps = 8 * np.finfo(dt).eps
  tiny = np.finfo(dt).tiny
  mags = MAGS[job['dt']]
  vecs = np.array(
      [np.multiply(t, s) for t in itertools.product(mags, repeat=3) for s in SIGNS], dtype=dt
  )
  kind = job['kind']
  if kind == 'values':
    # norm and normalize along the last axis for all magnitude triples at once.
    want = true_norm(vecs, -1)
    n2 = want * want
    ok = (want >= tiny) | (want == 0)
    for jit in (False, True):
      wrap = jax.jit if jit else (lambda f: f)
      rec.states_bulk(('triples', job['dt'], jit), len(vecs))
      got = np.asarray(wrap(lambda x: e3x.ops.norm(x, axis=-1))(vecs))
      rec.call()
      rec.check(got.dtype == dt, 'dtype changed')
      rec.check(bool(np.isfinite(got).all()), 'norm of a finite vector is not finite')
      rel(rec, got[ok], want[ok], eps, 'norm differs from the Euclidean norm', jit=jit)
      y, n = wrap(lambda x: e3x.ops.normalize_and_return_norm(x, axis=-1))(vecs)
      y2 = wrap(lambda x: e3x.ops.normalize(x, axis=-1))(vecs)
      rec.call(2)
      y, n, y2 = map(np.asarray, (y, n, y2))
      rel(rec, n[ok], want[ok], eps, 'returned norm differs from the Euclidean norm', jit=jit)
      rec.check(np.array_equal(y, y2), 'normalize and normalize_and_return_norm differ')
      rec.check(bool(np.isfinite(y).all()), 'normalised vector is not finite')
      reg = n2 > 4 * tiny
      unit = (vecs.astype(np.longdouble) / np.where(want > 0, want, 1)[:, None])
      err = np.abs(y[reg] - unit[reg]).max()
      rec.check(err < 2 * eps, 'normalised vector is not a unit vector along the input', err=float(err))
      rec.compared += int(reg.sum())
      # Almost-zero vectors are returned unchanged.
      low = n2 < tiny / 4
      rec.check(np.array_equal(y[low & ok], vecs[low & ok]), 'a vector of almost zero norm was changed')
      rec.check(bool((y[want == 0] == 0).all()), 'normalising zero is not zero')
  elif kind == 'grad':
    want = true_norm(vecs, -1)
    # The reverse and forward mode derivative, and the Hessian.
    f = lambda x: e3x.ops.norm(x)
    for name, g in (('reverse', jax.grad(f)), ('forward', jax.jacfwd(f))):
      rec.states_bulk(('gradient', name, job['dt']), len(vecs))
      d = np.asarray(jax.jit(jax.vmap(g))(vecs))
      rec.call()
      rec.check(bool(np.isfinite(d).all()), f'{name} gradient of the norm is not finite')
      rec.check(bool((d[want == 0] == 0).all()), 'gradient of the norm at zero is not zero')
      reg = want >= 4 * tiny
      unit = vecs[reg].astype(np.longdouble) / want[reg][:, None]
      # Components below tiny are flushed, hence an absolute tolerance.
      err = np.abs(d[reg] - unit).max()
      rec.check(err < 4 * eps, f'{name} gradient of the norm is not the unit vector', err=float(err))
      rec.compared += len(vecs)
    g = lambda x: jax.grad(lambda v: jnp.sum(e3x.ops.norm(v, axis=-1)))(x)
    d = np.asarray(jax.jit(g)(vecs))
    rec.call()
    rec.check(bool(np.isfinite(d).all()), 'batched gradient of the norm is not finite')
    err = np.abs(d[reg] - unit).max()
    rec.check(err < 4 * eps, 'batched gradient of the norm is not the unit vector', err=float(err))
    rec.states_bulk(('hessian', job['dt']), len(vecs))
    h = np.asarray(jax.jit(jax.vmap(jax.jacfwd(jax.grad(f))))(vecs))
    rec.call()
    rec.check(bool(np.isfinite(h).all()), 'second derivative of the norm is not finite')
    mid = (want * want > 1e4 * tiny) & (want < np.sqrt(np.finfo(dt).max) * 1e-3)
    u = vecs.astype(np.longdouble) / np.where(want > 0, want, 1)[:, None]
    hw = (np.eye(3) - u[:, :, None] * u[:, None, :]) / np.where(want > 0, want, 1)[:, None, None]
    err = (np.abs(h - hw) * want[:, None, None])[mid].max()
    rec.check(err < 100 * eps, 'second derivative of the norm is wrong', err=float(err))
    rec.compared += int(mid.sum())
    # Derivatives of normalize.
    rec.states_bulk(('normalize jacobian', job['dt']), len(vecs))
    j = np.asarray(jax.jit(jax.vmap(jax.jacrev(lambda x: e3x.ops.normalize(x))))(vecs))
    rec.call()
    rec.check(bool(np.isfinite(j).all()), 'derivative of normalize is not finite')
    err = (np.abs(j - hw) * want[:, None, None])[mid].max()
    rec.check(err < 100 * eps, 'derivative of normalize is wrong', err=float(err))
    j2 = np.asarray(jax.jit(jax.vmap(jax.jacfwd(jax.jacrev(lambda x: e3x.ops.normalize(x)))))(vecs[np.abs(vecs).max(-1) < 1e10]))
    rec.call()
    sel = np.abs(vecs).max(-1)
    sel = sel[sel < 1e10]
    rec.check(bool(np.isfinite(j2[(sel == 0) | (sel > 1e-9)]).all()), 'second derivative of normalize is not finite')
  elif kind == 'isolated':
    # The result for a row must not depend on the other rows of the array.
    singles = {}
    one = np.array([[m, 0.5 * m, -m] for m in mags], dtype=dt)
    for i, v in enumerate(one):
      singles[i] = (np.asarray(e3x.ops.norm(v)), np.asarray(e3x.ops.normalize(v)))
      rec.call(2)
    norm2 = jax.jit(lambda x: (e3x.ops.norm(x, axis=-1), e3x.ops.normalize(x, axis=-1)))
    for i, j, k in itertools.product(range(len(mags)), repeat=3):
      rec.state('isolated', job['dt'], i, j, k)
      n, y = norm2(one[[i, j, k]])
      rec.call(2)
      for r, q in enumerate((i, j, k)):
        for a, b in ((np.asarray(n)[r], singles[q][0]), (np.asarray(y)[r], singles[q][1])):
          err = np.abs(a.astype(np.longdouble) - b)
          rec.check(
              bool((err <= eps * np.abs(b.astype(np.longdouble)) + tiny).all()),
              'the norm of a vector depends on the other vectors of the batch',
              magnitudes=(mags[i], mags[j], mags[k]), row=r, got=a, alone=b,
          )
  else:
    rank = job['rank']
    shape = (2, 3, 2, 2)[:rank]
    x = (np.arange(int(np.prod(shape))).reshape(shape) * 1.7 - 4).astype(dt)
    axes = [None]
    if rank:
      for r in range(1, rank + 1):
        for c in itertools.permutations(range(rank), r):
          if rank >= 3 and r > 1 and c not in (tuple(sorted(c)), tuple(sorted(c))[::-1]):
            continue
          variants = [c, tuple(a - rank for a in c)]
          if r > 1:
            variants.append((c[0],) + tuple(a - rank for a in c[1:]))
          axes += variants
          if r == 1:
            axes += [c[0], c[0] - rank]
    for ax in axes:
      for keep in (False, True):
        rec.state('axes', job['dt'], rank, ax, keep)
        n = e3x.ops.norm(x, axis=ax, keepdims=keep)
        want = true_norm(x, ax, keep)
        rec.call()
        rel(rec, n, want, eps, 'norm with this axis differs', axis=ax, keepdims=keep)
        y, m = e3x.ops.normalize_and_return_norm(x, axis=ax, keepdims=keep)
        rec.call()
        rel(rec, m, want, eps, 'returned norm with this axis differs', axis=ax, keepdims=keep)
        wy = x / true_norm(x, ax, True)
        rel(rec, y, wy, 2 * eps, 'normalised array differs', axis=ax)
        w = np.linspace(0.5, 1.5, want.size).reshape(want.shape).astype(dt)
        g = jax.grad(lambda v: jnp.sum(w * e3x.ops.norm(v, axis=ax, keepdims=keep)))(jnp.asarray(x))
        rec.call()
        wk = w if (keep or ax is None) else np.expand_dims(w, ax)
        rel(rec, g, wk * wy, 4 * eps, 'gradient with this axis differs', axis=ax, keepdims=keep)
      rec.call()
      rel(rec, e3x.ops.normalize(x, axis=ax), wy, 2 * eps, 'normalize with this axis differs', axis=ax)

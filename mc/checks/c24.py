"""Helper functions: repeated derivatives and the inverse of softplus."""

import itertools

import numpy as np

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = (
    'evaluate_derivatives: every function {monomials of degree 0..6, exp, sin,'
    ' 1/(1+x^2), switch} x every order 0..6 (thorough 0..8) x array shape'
    ' {(), (1,), (7,), (2, 3), (0,)} x dtype x {eager, jit}, and every composition'
    ' of two of the functions up to order 3; inverse_softplus: every magnitude'
    ' 1e-37..1e30 (12 per decade) x dtype, value and derivative, round trips in'
    ' both directions'
)
ASSUMPTIONS = ['functions act element-wise (as documented for the helper)']


def plan(tier):
  top = 6 if tier == 'quick' else 8
  jobs = [dict(kind='derivatives', x64=x, top=top) for x in (False, True)]
  jobs += [dict(kind='compose'), dict(kind='softplus', x64=False), dict(kind='softplus', x64=True), dict(kind='invalid')]
  return jobs


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp
  import mpmath as mp
  import sympy

  mp.mp.dps = 60
  ops = e3x.ops
  x64 = job.get('x64', True)
  jax.config.update('jax_enable_x64', x64)
  dt = np.float64 if x64 else np.float32
  s = sympy.Symbol('x')
  fns = {f'x^{k}': (lambda x, k=k: x**k if k else jnp.ones_like(x), s**k) for k in range(7)}
  fns['exp'] = (jnp.exp, sympy.exp(s))
  fns['sin'] = (jnp.sin, sympy.sin(s))
  fns['lorentz'] = (lambda x: 1 / (1 + x * x), 1 / (1 + s**2))
  pts = np.array([-1.3, -0.6, 0.0, 0.2, 0.9, 1.7, 2.1], dt)

  def exact(expr, order, x):
    d = sympy.lambdify(s, sympy.diff(expr, s, order), 'mpmath')
    return np.array([float(d(mp.mpf(float(v)))) for v in x.ravel()]).reshape(x.shape)

  if job['kind'] == 'derivatives':
    for (name, (f, expr)), order in itertools.product(fns.items(), range(job['top'] + 1)):
      for shape, jit in itertools.product(((), (1,), (7,), (2, 3), (0,)), (False, True)):
        if jit and shape != (7,):
          continue
        rec.state(name, order, shape, jit, x64)
        x = pts[:int(np.prod(shape))].reshape(shape) + dt(0.1 * (shape == ()))
        g = lambda v: ops.evaluate_derivatives(f, v, order)
        out = (jax.jit(g) if jit else g)(jnp.asarray(x))
        rec.call()
        rec.check(isinstance(out, list) and len(out) == order + 1, 'wrong number of derivatives', n=len(out), order=order)
        for k, y in enumerate(out):
          y = np.asarray(y)
          rec.check(y.dtype == dt, 'dtype is not preserved', dtype=str(y.dtype))
          if shape == (0,):
            rec.check(y.shape == (0,), 'wrong shape', shape=y.shape)
          else:
            rec.close(y, exact(expr, k, x), 'wrong derivative', tol=1e-10 if x64 else 2e-4, function=name, order=k)
        rec.outcome((name, order))
  elif job['kind'] == 'compose':
    for (n1, (f, e1)), (n2, (g, e2)) in itertools.product(fns.items(), repeat=2):
      rec.state('compose', n1, n2)
      expr = e1.subs(s, sympy.Symbol('y')).subs(sympy.Symbol('y'), e2) if e1 != 1 else e1
      x = pts[:5]
      out = ops.evaluate_derivatives(lambda v: f(g(v)), jnp.asarray(x), 3)
      rec.call()
      for k, y in enumerate(out):
        rec.close(np.asarray(y), exact(sympy.sympify(expr), k, x), 'wrong derivative', tol=1e-9, function=(n1, n2), order=k)
    for c, lim in itertools.product((0.5, 1.0), (1.0, 2.0)):
      # Derivatives of derivatives of library functions are consistent.
      x = jnp.asarray(np.linspace(0.1, 0.9, 9) * lim)
      f = lambda v: e3x.nn.smooth_cutoff(c * v, lim)
      out = ops.evaluate_derivatives(f, x, 3)
      ref_ = [f]
      for _ in range(3):
        ref_.append(jax.grad(ref_[-1]))
      rec.state('library', c, lim)
      rec.call()
      for y, g in zip(out, ref_):
        rec.close(np.asarray(y), np.asarray(jax.vmap(g)(x)), 'differs from nested gradients', tol=1e-9)
  elif job['kind'] == 'softplus':
    e = np.arange(-37 * 12, 30 * 12 + 1) / 12.0
    x = (10.0**e).astype(dt)
    rec.states_bulk(('softplus', x64), len(x))
    y = np.asarray(jax.jit(ops.inverse_softplus)(jnp.asarray(x)))
    rec.call(len(x))
    rec.check(y.dtype == dt, 'dtype is not preserved', dtype=str(y.dtype))
    want = np.array([float(mp.mpf(float(v)) + mp.log(-mp.expm1(-mp.mpf(float(v))))) for v in x])
    rec.check(bool(np.isfinite(y).all()), 'not finite', at=x[~np.isfinite(y)][:3].tolist())
    err = np.abs(y - want) / (1 + np.abs(want))
    rec.check(err.max() < (1e-12 if x64 else 1e-5), 'wrong value', at=float(x[err.argmax()]), actual=float(y[err.argmax()]), expected=float(want[err.argmax()]))
    rec.check(bool((np.diff(y) > 0).all()), 'not increasing')
    g = np.asarray(jax.vmap(jax.grad(ops.inverse_softplus))(jnp.asarray(x)))
    want = np.array([float(1 / -mp.expm1(-mp.mpf(float(v)))) for v in x])
    rec.check(bool(np.isfinite(g).all()), 'derivative is not finite')
    err = np.abs(g / want - 1)
    rec.check(err.max() < (1e-10 if x64 else 1e-4), 'wrong derivative', at=float(x[err.argmax()]))
    # Round trips.
    z = np.asarray(jax.nn.softplus(jnp.asarray(y)), np.float64)
    tol = 1e-10 if x64 else 1e-4
    rec.check(bool((np.abs(z / x.astype(np.float64) - 1) < tol).all()), 'softplus does not invert it', worst=float(np.abs(z / x - 1).max()))
    p = np.linspace(-80, 80, 641).astype(dt)
    q = np.asarray(ops.inverse_softplus(jax.nn.softplus(jnp.asarray(p))))
    rec.states_bulk(('round trip', x64), len(p))
    rec.check(bool((np.abs(q - p) <= tol * (1 + np.abs(p))).all()), 'it does not invert softplus', worst=float(np.abs(q - p).max()))
    for shape in ((), (2, 3), (0,)):
      v = x[300:300 + int(np.prod(shape))].reshape(shape)
      out = np.asarray(ops.inverse_softplus(jnp.asarray(v)))
      rec.check(out.shape == shape, 'wrong shape', shape=out.shape)
  else:
    for k in (-1, -5):
      rec.state('invalid', k)
      rec.raises(lambda: ops.evaluate_derivatives(jnp.sin, jnp.ones(2), k), 'negative order is accepted', order=k)

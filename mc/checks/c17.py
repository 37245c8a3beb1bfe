"""Activations: equivariant gates that equal their definition everywhere."""

import itertools

import numpy as np

from mc import nnutil
from mc import ref

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = (
    'all 18 activation functions x parameters x {float32, float64} x every'
    ' scalar of a grid over the magnitudes 1e-38..1e12, for values also up to'
    ' 2e38 (float64: 1e308) (both signs, 12 per decade between 1e-9 and 1e3) plus all break points and their neighbours: gate'
    ' values and derivatives against arbitrary-precision references; x every'
    ' feature shape (parity channels x degrees 0..3 x batch ranks 0..2): output'
    ' is the gate of the even scalar times the input'
)
ASSUMPTIONS = [
    'absolute tolerance of gates 1e-5 (float32) / 1e-9 (float64), of their'
    ' derivatives 5e-4 / 1e-7',
    'derivatives are not covered above 1e12 (cubic terms overflow in float32)',
]

SELU_L, SELU_A = '1.0507009873554804934193349852946', '1.6732632423543772848170429916717'


def specs():
  """(name, kwargs, gate(mp), break points)."""
  import mpmath as mp

  a = mp.mpf

  def sp(x):
    return mp.log1p(mp.exp(x)) if x < 0 else x + mp.log1p(mp.exp(-x))

  def elu(alpha, scale=1):
    return lambda x: a(scale) * (a(1) if x > 0 else a(alpha) * (mp.expm1(x) / x if x else 1))

  def celu(alpha):
    return lambda x: a(1) if x > 0 else (mp.expm1(x / a(alpha)) / (x / a(alpha)) if x else a(1))

  out = [
      ('relu', {}, lambda x: a(1) if x > 0 else a(0), [0]),
      ('selu', {}, lambda x: elu(SELU_A, SELU_L)(x), [0]),
      ('silu', {}, lambda x: 1 / (1 + mp.exp(-x)), []),
      ('swish', {}, lambda x: 1 / (1 + mp.exp(-x)), []),
      ('gelu', dict(approximate=True), lambda x: (1 + mp.tanh(mp.sqrt(2 / mp.pi) * (x + a('0.044715') * x**3))) / 2, []),
      ('gelu', dict(approximate=False), lambda x: (1 + mp.erf(x / mp.sqrt(2))) / 2, []),
      ('mish', dict(fast=True), lambda x: mp.tanh(sp(x)), []),
      ('mish', dict(fast=False), lambda x: mp.tanh(sp(x)), []),
      ('serf', {}, lambda x: mp.erf(sp(x)), []),
      ('shifted_softplus', {}, lambda x: (sp(x) - mp.log(2)) / x if x else a(1) / 2, []),
      ('hard_tanh', {}, lambda x: a(1) if abs(x) <= 1 else 1 / abs(x), [-1, 1]),
      ('soft_sign', {}, lambda x: 1 / (abs(x) + 1), [0]),
      ('relu6', {}, lambda x: a(0) if x <= 0 else (a(1) if x <= 6 else 6 / x), [0, 6]),
      ('hard_silu', {}, lambda x: min(max(x + 3, a(0)), a(6)) / 6, [-3, 3]),
      ('hard_swish', {}, lambda x: min(max(x + 3, a(0)), a(6)) / 6, [-3, 3]),
      ('bent_identity', {}, lambda x: (mp.sqrt(x * x + 1) - 1) / (2 * x) + 1 if x else a(1), []),
  ]
  for s in (None, 0.2, 0.5):
    v = 0.01 if s is None else s
    out.append(('leaky_relu', {} if s is None else dict(negative_slope=s), (lambda v: lambda x: a(1) if x >= 0 else a(v))(v), [0]))
  for al in (None, 1.0, 2.0, 0.5):
    v = 1 if al is None else al
    kw = {} if al is None else dict(alpha=al)
    out.append(('elu', kw, elu(v), [0] if v != 1 else [0]))
    out.append(('celu', kw, celu(v), [0]))
  return out


NAMES = [
    'relu', 'leaky_relu', 'elu', 'selu', 'celu', 'silu', 'swish', 'gelu', 'mish', 'serf', 'shifted_softplus',
    'hard_tanh', 'soft_sign', 'relu6', 'hard_silu', 'hard_swish', 'bent_identity',
]
N_SPECS = 27


def plan(tier):
  jobs = [dict(kind='gate', i=i, dtype=d, tier=tier) for i in range(N_SPECS) for d in ('float32', 'float64')]
  jobs += [dict(kind='shape', s=s, l=l) for s in (1, 2) for l in range(4)]
  jobs.append(dict(kind='invalid'))
  return jobs


def grid(breaks, dtype, tier):
  mags = {10.0 ** (k / 1) for k in range(-38, 39 if dtype == 'float32' else 200)} | {2e38}
  if dtype == 'float64':
    mags |= {10.0**k for k in range(200, 309, 9)} | {1e154, 1.35e154, 1e308}
  n = 12 if tier == 'quick' else 60
  mags |= {10.0 ** (k / n) for k in range(-9 * n, 3 * n + 1)}
  xs = {s * m for s in (1, -1) for m in mags} | {0.0}
  xs |= set(np.linspace(-8, 8, 161))
  for b in breaks:
    xs |= {b + s * 10.0**-k for s in (1, -1) for k in range(1, 7)}
    xs.add(float(b))
  return np.unique(np.array(sorted(xs), dtype))


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp
  import mpmath as mp

  kind = job['kind']
  if kind == 'gate':
    mp.mp.dps = 120
    all_specs = specs()
    assert len(all_specs) == N_SPECS
    name, kw, gate, breaks = all_specs[job['i']]
    jax.config.update('jax_enable_x64', job['dtype'] == 'float64')
    f32 = job['dtype'] == 'float32'
    xs = grid(breaks, job['dtype'], job['tier'])
    f = getattr(e3x.nn, name)
    rec.states_bulk((name, str(kw), job['dtype']), len(xs))

    # Features with degree <= 1: the vector part (1, 1, 1) reads off the gate.
    def g(x):
      v = jnp.concatenate([x.reshape(1, 1, 1), jnp.ones((1, 3, 1), x.dtype)], axis=1)
      y = f(v, **kw)
      return y[0, 1, 0], y

    val, full = jax.jit(jax.vmap(g))(xs)
    d = jax.jit(jax.vmap(jax.grad(lambda x: g(x)[0])))(xs)
    rec.call(2 * len(xs))
    val, d, full = (np.asarray(v) for v in (val, d, full))
    huge = np.abs(xs) > 1.1e12
    rec.check(full.dtype == xs.dtype, 'dtype changes', actual=str(full.dtype))
    rec.check(bool(np.isfinite(full).all()), 'not finite', at=xs[~np.isfinite(full).all((1, 2, 3))][:3].tolist())
    rec.check(bool(np.isfinite(d[~huge]).all()), 'derivative is not finite', at=xs[~huge & ~np.isfinite(d)][:3].tolist())
    kink = np.array([any(x == np.asarray(b, xs.dtype) for b in breaks) for x in xs])
    tol, dtol = (1e-5, 5e-4) if f32 else (1e-9, 1e-7)
    # Neighbouring (subnormal) numbers may be flushed to zero.
    sub = np.abs(xs) < 1.2e-38
    want = np.array([float(gate(mp.mpf(float(x)))) for x in xs])
    ok = kink | sub | (np.abs(val - want) <= tol * (1 + np.abs(want)))
    rec.check(bool(ok.all()), f'{name}: gate is wrong', kw=kw, dtype=job['dtype'], at=xs[~ok][:3].tolist(), actual=val[~ok][:3].tolist(), expected=want[~ok][:3].tolist())
    scal = full[:, 0, 0, 0]
    ok = np.abs(scal - want * xs) <= tol * (np.abs(xs) + 1e-30) * (1 + np.abs(want))
    ok |= kink & (np.abs(scal - want * xs) <= tol)
    ok |= sub
    rec.check(bool(ok.all()), f'{name}: value for scalars is wrong', kw=kw, at=xs[~ok][:3].tolist(), actual=scal[~ok][:3].tolist())
    ok = (full[:, 0, 1:, 0] == full[:, 0, 1:2, 0]).all(1)
    rec.check(bool(ok.all()), f'{name}: components of one vector are gated differently', kw=kw)
    for b in np.flatnonzero(kink):
      # At a break point: any value between the one-sided limits.
      h = mp.mpf(10) ** -9
      lo, hi = sorted(float(gate(mp.mpf(float(xs[b])) + s * h)) for s in (-1, 1))
      rec.check(lo - 1e-6 <= val[b] <= hi + 1e-6, f'{name}: gate at a break point outside of its limits', at=float(xs[b]), actual=float(val[b]))
    h = mp.mpf(10) ** -15

    def deriv(x):
      # Relative steps at tiny arguments would cross a break point.
      x = mp.mpf(float(x))
      near = [abs(x - b) for b in breaks]
      step = min([h * max(1, abs(x))] + [n / 4 for n in near if n > 0])
      return float((gate(x + step) - gate(x - step)) / (2 * step))

    mp.mp.dps = 120
    sel = ~kink & ~sub & ~huge
    dw = np.array([deriv(x) for x in xs[sel]])
    err = np.abs(d[sel] - dw)
    ok = err <= dtol * (1 + np.abs(dw))
    rec.check(bool(ok.all()), f'{name}: derivative of the gate is wrong', kw=kw, dtype=job['dtype'], at=xs[sel][~ok][:3].tolist(), actual=d[sel][~ok][:3].tolist(), expected=dw[~ok][:3].tolist())
    rec.outcome((name, str(kw), float(np.round(val.sum(), 3))))
  elif kind == 'shape':
    s, l = job['s'], job['l']
    jax.config.update('jax_enable_x64', False)
    for name in NAMES:
      f = getattr(e3x.nn, name)
      for lead in ((), (2,), (0,), (2, 3)):
        for nf in (1, 3):
          rec.state(name, s, l, lead, nf)
          x = (3 * nnutil.features(lead, s, l, nf, 5)).astype(np.float32)
          y = np.asarray(f(jnp.asarray(x)))
          rec.call()
          rec.check(y.shape == x.shape and y.dtype == x.dtype, f'{name}: wrong shape or dtype', shape=y.shape, dtype=str(y.dtype))
          if x.size == 0:
            continue
          # Gate of the even scalar, obtained from purely scalar features.
          sc = x[..., 0:1, 0:1, :]
          g = np.asarray(f(jnp.asarray(sc))) / sc
          rec.close(y, g * x, f'{name}: not the gate of the scalar times the features', tol=1e-5, shape=x.shape)
          if l:
            d = ref.wigner_d(ref.axis_angle([1, 2, 3], 1.0), l, True)
            for imp in (False, True):
              xr = nnutil.apply_o3(x, d, imp).astype(np.float32)
              rec.close(np.asarray(f(jnp.asarray(xr))), nnutil.apply_o3(y, d, imp), f'{name}: not equivariant', tol=2e-5, shape=x.shape, improper=imp)
  else:
    for name, shape in itertools.product(NAMES, ((), (2,), (4, 2))):
      rec.state(name, shape, 'invalid')
      rec.raises(lambda: getattr(e3x.nn, name)(jnp.ones(shape)), f'{name} accepts arrays without parity and degree axes', shape=shape)

"""Radial functions, cut-offs, windows, switches and mappings."""

import itertools

import numpy as np

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = (
    'every radial family {Bernstein, Chebyshev, Gaussian, Fourier} x {basic,'
    ' reciprocal (3 kinds), exponential (cuspless or not)} x weighting x num'
    ' {1, 2, 3, 5, 8, 16 (float64: 2, 8); thorough up to 64} x limit/gamma {0.5, 1, 1.7, 3} and'
    ' sinc, windows, cut-offs, switch, damping, mappings x {float32, float64} on'
    ' a distance grid with 0, 1e-30..1e4, every boundary and its neighbours at'
    ' distance 1e-7..1e-1: values and derivatives (switch: up to order 4; others'
    ' first order, second order finite) against arbitrary-precision references;'
    ' ranks 0..2, invalid arguments'
)
ASSUMPTIONS = [
    'distances are non-negative; basic functions are specified on [0, limit]'
    ' (sinc and windows everywhere on [0, inf))',
    'tolerance relative to the largest value over the grid: float32 2e-5 (values)'
    ' and 2e-3 (derivatives), float64 1e-9 and 1e-6',
    'second derivatives of the radial functions are checked for finiteness only;'
    ' first derivatives of Chebyshev functions are not compared within 2e-4'
    ' (float64 1e-9) of the end points, where cos(n arccos(x)) is ill-conditioned',
    'quick: for each num, a fixed quarter of the limit x weighting combinations',
]

FAMILIES = ('bernstein', 'chebyshev', 'gaussian', 'fourier')
MAPS = [('basic', {})]
MAPS += [('reciprocal', dict(kind=k)) for k in ('shifted', 'damped', 'cuspless')]
MAPS += [('exponential', dict(cuspless=c)) for c in (False, True)]
LIMITS = (1.0, 0.5, 1.7, 3.0)


def nums(tier, x64=False):
  if tier == 'quick':
    return (2, 8) if x64 else (1, 2, 3, 5, 8, 16)
  return (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 64)


def num_limits(tier, x64):
  """Pairs (num, limit) for sinc and windows."""
  pairs = list(itertools.product(nums(tier, x64)[:5], LIMITS))
  return [p for i, p in enumerate(pairs) if i % 3 == 0] if tier == 'quick' else pairs


def plan(tier):
  jobs = []
  for fam, m in itertools.product(FAMILIES, range(len(MAPS))):
    for x64 in (False, True):
      jobs.append(dict(kind='radial', fam=fam, map=m, x64=x64, tier=tier))
  for x64 in (False, True):
    for k in ('cutoff', 'switch', 'damping', 'mapping'):
      jobs.append(dict(kind=k, x64=x64, tier=tier))
    for num, lim in num_limits(tier, x64):
      jobs.append(dict(kind='sinc', x64=x64, num=num, lim=lim, tier=tier))
      jobs.append(dict(kind='window', x64=x64, num=num, lim=lim, tier=tier))
  jobs.append(dict(kind='invalid'))
  return jobs


def mapping(pre, kw, gamma=1.0):
  import mpmath as mp

  if pre == 'reciprocal':
    return {
        'shifted': lambda x: 1 / (1 + x),
        'damped': lambda x: -mp.expm1(-x) / x if x else mp.mpf(1),
        'cuspless': lambda x: 1 / (x + mp.exp(-x)),
    }[kw['kind']]
  g = mp.mpf(gamma)
  if kw['cuspless']:
    return lambda x: mp.exp(-g * (x + mp.exp(-x) - 1))
  return lambda x: mp.exp(-g * x)


def family(fam, num):
  """Functions of y in [0, 1], y = x / limit or 1 - mapping (see the docs)."""
  import mpmath as mp

  if fam == 'bernstein':
    return lambda y, k: mp.binomial(num - 1, k) * y**k * (1 - y) ** (num - 1 - k)
  if fam == 'gaussian':
    c = mp.sqrt(2 * num) * (num - 1)
    return lambda y, k: mp.exp(-c * (y - (mp.mpf(k) / (num - 1) if num > 1 else 0)) ** 2)
  if fam == 'fourier':
    return lambda y, k: mp.cos(k * mp.pi * y)
  return None


def cheb(t, k):
  import mpmath as mp

  if t >= 1:
    return mp.cosh(k * mp.acosh(t)) if t > 1 else mp.mpf(1)
  return mp.cos(k * mp.acos(t))


def fine(x64):
  return range(1, 16 if x64 else 8)


def dist_grid(x64, top=(1e4,), extra=()):
  xs = {0.0} | {m * 10.0**k for k in range(-30, 1) for m in (1, 2, 5)}
  xs |= set(np.linspace(0, 3, 25)) | {5.0, 10.0, 20.0, 60.0, 100.0, 1e3} | set(top)
  for e in extra:
    xs.add(e)
    for k in fine(x64):
      xs |= {e * (1 - 10.0**-k), e * (1 + 10.0**-k)}
  return np.unique(np.array(sorted(x for x in xs if x >= 0), np.float64 if x64 else np.float32))


def diff(f, x, order=1, lo=None):
  """Derivative by central (one-sided at the boundary) differences."""
  import mpmath as mp

  x = mp.mpf(float(x))
  if order == 0:
    return float(f(x))
  h = mp.mpf(10) ** -25
  if lo is not None and x - 4 * h < lo:
    c = {1: [-1.5, 2, -0.5], 2: [2, -5, 4, -1]}[order]
    return float(sum(mp.mpf(a) * f(x + i * h) for i, a in enumerate(c)) / h**order)
  c = {
      1: [(-1, -0.5), (1, 0.5)],
      2: [(-1, 1), (0, -2), (1, 1)],
      3: [(-2, -0.5), (-1, 1), (1, -1), (2, 0.5)],
      4: [(-2, 1), (-1, -4), (0, 6), (1, -4), (2, 1)],
  }[order]
  return float(sum(mp.mpf(a) * f(x + i * h) for i, a in c) / h**order)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp
  import mpmath as mp

  mp.mp.dps = 150
  nn = e3x.nn
  kind = job['kind']
  x64 = job.get('x64', False)
  jax.config.update('jax_enable_x64', x64)
  tols = (1e-9, 1e-6, 1e-4) if x64 else (2e-5, 2e-3, 5e-2)

  def compare(name, f, g, xs, orders=(0, 1), lo=0, skip=None, vector=None, finite=2, cfg=()):
    """f: traced scalar -> scalar or (num,); g(x, k): reference."""
    rec.states_bulk((name, x64) + tuple(cfg), len(xs))
    h = f
    for order in range(max(max(orders), finite) + 1):
      v = np.asarray(jax.jit(jax.vmap(h))(xs))
      rec.call(len(xs))
      rec.check(v.dtype == xs.dtype, f'{name}: dtype changes', dtype=str(v.dtype), cfg=cfg)
      bad = ~np.isfinite(v.reshape(len(xs), -1)).all(1)
      rec.check(not bad.any(), f'{name}: derivative of order {order} is not finite', at=xs[bad][:4].tolist(), cfg=cfg)
      if order in orders:
        if vector is None:
          want = np.array([diff(lambda t: g(t, 0), x, order, lo) for x in xs])
        else:
          want = np.array([[diff(lambda t: g(t, k), x, order, lo) for k in range(vector)] for x in xs])
        rec.check(v.shape == want.shape, f'{name}: wrong shape', shape=v.shape, cfg=cfg)
        err = np.abs(v - want) / (1 + np.abs(want).max(0))
        if skip is not None and order > 0:
          err = np.where(skip if vector is None else skip[:, None], 0, err)
        i = np.unravel_index(np.argmax(err), err.shape)
        rec.check(
            err[i] <= tols[min(order, 2)] * (1 if order < 3 else 10), f'{name}: derivative of order {order} is wrong',
            at=float(xs[i[0]]), index=i, actual=float(v[i]), expected=float(want[i]), cfg=cfg,
        )
        rec.outcome((name, order, x64, str(np.round(want.sum(), 4))))
      h = jax.jacfwd(h)

  if kind == 'radial':
    fam, (pre, kw) = job['fam'], MAPS[job['map']]
    f = getattr(nn, f'{pre}_{fam}')
    mp.mp.dps = 90
    for num in nums(job['tier'], x64):
      weighted = (False,) if pre == 'basic' else (False, True)
      params = LIMITS if pre != 'reciprocal' else (1.0,)
      combos = list(itertools.product(params, weighted))
      if num > 8 or (job['tier'] == 'quick' and num in (1, 5)):
        combos = [combos[num % len(combos)]]
      elif job['tier'] == 'quick':
        combos = [c for i, c in enumerate(combos) if (i + num) % 4 == 0 or len(combos) <= 2]
      for p, w in combos:
        cfg = (num, p, w)
        extra = dict(kw)
        if pre == 'basic':
          extra['limit'] = p
          xs = dist_grid(x64, (), (p,))
          xs = xs[xs <= np.asarray(p, xs.dtype)]
          m = (lambda p: lambda x: x / mp.mpf(p))(p)
          y_of, wt = m, None
          t_of = lambda x: 2 * y_of(x) - 1
        else:
          if pre == 'exponential':
            extra['gamma'] = p
          xs = dist_grid(x64)
          m = mapping(pre, kw, p)
          y_of = lambda x: 1 - m(x)
          t_of = lambda x: 2 * m(x) - 1
          wt = m if w else None
          if w:
            extra[f'use_{pre}_weighting'] = True
        if job['tier'] == 'quick':
          xs = xs[::2] if len(xs) > 90 else xs
        fun = family(fam, num)

        def g(x, k):
          v = fun(y_of(x), k) if fun else cheb(t_of(x), k)
          return v * wt(x) if wt else v

        # Derivatives next to the boundaries of [0, limit] are one-sided.
        skip = None
        if pre == 'basic':
          eps = 1e-15 if x64 else 1e-6
          if fam == 'chebyshev':  # cos(n arccos(x)) is ill-conditioned there.
            eps = 1e-9 if x64 else 2e-4
          skip = (np.abs(xs / p) < eps) | (np.abs(xs / p - 1) < eps)
        elif fam == 'chebyshev':
          skip = xs < (1e-9 if x64 else 2e-4)
        compare(f'{pre}_{fam}', lambda x: f(x, num, **extra), g, xs, vector=num, skip=skip, cfg=cfg)
        # Rank 0..2 and jit agree; shape is (..., num).
        y0 = np.asarray(f(jnp.asarray(xs), num, **extra))
        for shape in ((), (1,), (2, 2), (0,)):
          n = int(np.prod(shape))
          y = np.asarray(f(jnp.asarray(xs[:n].reshape(shape)), num, **extra))
          rec.close(y, y0[:n].reshape(*shape, num), 'result depends on the rank', tol=tols[0], cfg=cfg)
        if fam == 'bernstein':
          s = y0.sum(-1) if wt is None else y0.sum(-1) / np.array([float(wt(mp.mpf(float(x)))) or 1.0 for x in xs])
          ok = np.ones(len(xs), bool) if wt is None else np.array([float(wt(mp.mpf(float(x)))) > 1e-20 for x in xs])
          rec.close(s[ok], np.ones(ok.sum()), 'Bernstein functions do not sum to one', tol=tols[0], cfg=cfg)
  elif kind == 'sinc':
    for num, lim in [(job['num'], job['lim'])]:
      xs = dist_grid(x64, (7.0,), (lim,))
      lim_ = mp.mpf(lim)

      def g(x, k):
        if x > lim_:
          return mp.mpf(0)
        z = (k + 1) * mp.pi * x / lim_
        return mp.sin(z) / z if z else mp.mpf(1)

      skip = np.abs(xs / lim - 1) < (1e-12 if x64 else 1e-6)
      compare('sinc', lambda x: nn.sinc(x, num, limit=lim), g, xs, vector=num, skip=skip, cfg=(num, lim))
  elif kind == 'window':
    for num, lim in [(job['num'], job['lim'])]:
      width = lim / num
      knots = [k * width for k in range(num + 2)]
      xs = dist_grid(x64, (7.0,), [k for k in knots if k])
      near = np.min(np.abs(xs[:, None] / width - np.arange(num + 2)), axis=1) < (1e-10 if x64 else 3e-5)
      w_ = mp.mpf(lim) / num
      tri = lambda x, k: max(mp.mpf(0), 1 - abs(x / w_ - k))
      compare('triangular_window', lambda x: nn.triangular_window(x, num, limit=lim), tri, xs, vector=num, skip=near, finite=1, cfg=(num, lim))
      c = mp.sqrt(3) / 2

      def sw(t):
        if t <= 0:
          return mp.mpf(0)
        if t >= 1:
          return mp.mpf(1)
        return 1 / (1 + mp.exp(c * (1 / t - 1 / (1 - t))))

      compare('smooth_window', lambda x: nn.smooth_window(x, num, limit=lim), lambda x, k: sw(x / w_ - k + 1) - sw(x / w_ - k), xs, vector=num, finite=3, cfg=(num, lim))
      rec.states_bulk(('rectangular', num, lim, x64), len(xs))
      y = np.asarray(jax.jit(lambda x: nn.rectangular_window(x, num, limit=lim))(xs))
      rec.call(len(xs))
      want = np.array([[1.0 if k * width <= x <= (k + 1) * width else 0.0 for k in range(num)] for x in xs.astype(float)])
      ok = near[:, None] | (y == want)
      rec.check(bool(ok.all()), 'rectangular window is wrong', at=xs[~ok.all(1)][:3].tolist(), cfg=(num, lim))
      rec.check(bool(np.isin(y, (0, 1)).all()), 'rectangular window is not 0/1', cfg=(num, lim))
      # No gap between neighbouring windows.
      inside = (xs < lim * 0.9999)
      rec.check(bool((y[inside].sum(1) >= 1).all()), 'gap between rectangular windows', cfg=(num, lim))
      s = np.asarray(nn.smooth_window(jnp.asarray(xs), num, limit=lim)).sum(1)
      inner = xs <= (num - 1) * width * 0.9999 if num > 1 else xs == 0
      rec.close(s[inner], np.ones(inner.sum()), 'smooth windows do not sum to one', tol=tols[0], cfg=(num, lim))
  elif kind == 'cutoff':
    for lim in LIMITS:
      xs = dist_grid(x64, (7.0, 1e6, 1e12), (lim,))
      lim_ = mp.mpf(lim)
      smooth = lambda x, k: mp.exp(1 - 1 / (1 - (x / lim_) ** 2)) if x < lim_ else mp.mpf(0)
      cosine = lambda x, k: (mp.cos(mp.pi * x / lim_) + 1) / 2 if x < lim_ else mp.mpf(0)
      f1 = lambda x: nn.smooth_cutoff(x, lim)
      f2 = lambda x: nn.cosine_cutoff(x, lim)
      compare('smooth_cutoff', f1, smooth, xs, orders=(0, 1, 2), finite=4, cfg=(lim,))
      skip = np.abs(xs / lim - 1) < 1e-6
      compare('cosine_cutoff', f2, cosine, xs, finite=3, skip=skip, cfg=(lim,))
      for f in (f1, f2):
        y = np.asarray(f(jnp.asarray(xs)))
        rec.check(bool((y[xs >= np.asarray(lim, xs.dtype)] == 0).all()), 'cut-off is not exactly zero beyond the cut-off', lim=lim)
        rec.check(bool(((y >= 0) & (y <= 1)).all()) and y[0] == 1, 'cut-off outside of [0, 1]', lim=lim)
        rec.check(bool((np.diff(y) <= 1e-6).all()), 'cut-off is not decreasing', lim=lim)
    xs = dist_grid(x64, (7.0,), (1.0,))
    rec.close(np.asarray(nn.smooth_cutoff(jnp.asarray(xs))), np.asarray(nn.smooth_cutoff(jnp.asarray(xs), 1.0)), 'default cut-off is not 1', tol=1e-6)
  elif kind == 'switch':
    c = mp.sqrt(3) / 2
    for x0, x1 in ((0.0, 1.0), (0.5, 3.0), (-1.0, 2.0), (1.0, 1.25), (0.0, 2.5), (-1.0, 0.0), (0.5, 1.0), (1.0, 2.0)):
      a, b = mp.mpf(x0), mp.mpf(x1)

      def sw(x, k):
        t = (x - a) / (b - a)
        if t <= 0:
          return mp.mpf(0)
        if t >= 1:
          return mp.mpf(1)
        return 1 / (1 + mp.exp(c * (1 / t - 1 / (1 - t))))

      t = {0.0, 1.0, -0.5, 1.5, -10.0, 10.0} | set(np.linspace(0, 1, 81))
      t |= {s for k in fine(x64) for s in (10.0**-k, 2 * 10.0**-k, 5 * 10.0**-k, 1 - 10.0**-k, -(10.0**-k), 1 + 10.0**-k)}
      t |= {10.0**-k for k in range(1, 31)}
      xs = np.unique(np.array([x0 + v * (x1 - x0) for v in sorted(t)], np.float64 if x64 else np.float32))
      order = (0, 1, 2, 3, 4) if (x0, x1) == (0.0, 1.0) else (0, 1, 2)
      compare('smooth_switch', lambda x: nn.smooth_switch(x, x0, x1), sw, xs, orders=order, lo=None, finite=4, cfg=(x0, x1))
      y = np.asarray(nn.smooth_switch(jnp.asarray(xs), x0, x1))
      lo, hi = np.asarray(x0, xs.dtype), np.asarray(x1, xs.dtype)
      rec.check(bool((y[xs <= lo] == 0).all() and (y[xs >= hi] == 1).all()), 'switch is not exactly 0/1 outside of its interval', cfg=(x0, x1))
      rec.check(bool((np.diff(y) >= -1e-6).all()), 'switch is not increasing', cfg=(x0, x1))
  elif kind == 'damping':
    for gamma in (1.0, 0.3, 2.5):
      g_ = mp.mpf(gamma)
      xs = dist_grid(x64)
      compare('smooth_damping', lambda x: nn.smooth_damping(x, gamma), lambda x, k: mp.exp(-1 / mp.expm1(g_ * x)) if x else mp.mpf(0), xs, orders=(0, 1, 2), finite=3, skip=xs == 0, cfg=(gamma,))
      y = np.asarray(nn.smooth_damping(jnp.asarray(xs), gamma))
      rec.check(y[0] == 0 and bool(((y >= 0) & (y <= 1)).all()), 'damping outside of [0, 1]', gamma=gamma)
  elif kind == 'mapping':
    xs = dist_grid(x64)
    for k in ('shifted', 'damped', 'cuspless'):
      compare('reciprocal_mapping', lambda x: nn.reciprocal_mapping(x, k), lambda x, _: mapping('reciprocal', dict(kind=k))(x), xs, orders=(0, 1, 2), finite=3, skip=xs == 0, cfg=(k,))
      y = np.asarray(nn.reciprocal_mapping(jnp.asarray(xs), k))
      rec.check(bool(((y >= 0) & (y <= 1)).all()) and y[0] == 1, 'mapping outside of [0, 1]', mapping=k)
    for gamma, cus in itertools.product((1.0, 0.3, 2.5), (False, True)):
      compare('exponential_mapping', lambda x: nn.exponential_mapping(x, gamma, cuspless=cus), lambda x, _: mapping('exponential', dict(cuspless=cus), gamma)(x), xs, orders=(0, 1, 2), finite=3, cfg=(gamma, cus))
    # Slopes at zero distance: cuspless variants have none.
    for name, f, want in (
        ('cuspless reciprocal', lambda x: nn.reciprocal_mapping(x, 'cuspless'), 0.0),
        ('damped reciprocal', lambda x: nn.reciprocal_mapping(x, 'damped'), -0.5),
        ('shifted reciprocal', lambda x: nn.reciprocal_mapping(x, 'shifted'), -1.0),
        ('cuspless exponential', lambda x: nn.exponential_mapping(x, cuspless=True), 0.0),
        ('exponential', lambda x: nn.exponential_mapping(x), -1.0),
    ):
      rec.state(name, 'slope', x64)
      rec.close(np.asarray(jax.grad(f)(jnp.asarray(0.0))), np.asarray(want), f'{name}: wrong slope at zero', tol=1e-6)
  else:
    x = jnp.linspace(0, 1, 4)
    for fam, (pre, kw), num in itertools.product(FAMILIES, MAPS, (0, -1)):
      rec.state('num', fam, pre, str(kw), num)
      rec.raises(lambda: getattr(nn, f'{pre}_{fam}')(x, num, **kw), 'num < 1 is accepted', fam=fam, num=num)
    for f, c in itertools.product((nn.smooth_cutoff, nn.cosine_cutoff), (0.0, -1.0)):
      rec.state('cutoff', f.__name__, c)
      rec.raises(lambda: f(x, c), 'non-positive cut-off is accepted', cutoff=c)
    for x0, x1 in ((1.0, 0.0), (0.5, 0.5)):
      rec.state('switch', x0, x1)
      rec.raises(lambda: nn.smooth_switch(x, x0, x1), 'empty switching interval is accepted')
    rec.state('kind')
    rec.raises(lambda: nn.reciprocal_mapping(x, 'other'), 'unknown kind is accepted')

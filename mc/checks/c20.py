"""Initializers: forbidden paths are zero, others have the promised spread."""

import itertools

import numpy as np

PROPERTY = 'C20'
LEVEL = 'model_checking'
RULE = (
    'every kernel shape (parity channels 1/2 and maximum degrees 0..2, thorough'
    ' 0..3, of both inputs and the output) x every initializer (8 named, 9'
    ' mode/distribution combinations of variance scaling, 2 fused) with scales'
    ' and dtypes: zero pattern of every coupling path against the selection'
    ' rules, end points of the support (uniform, truncated normal) or spread'
    ' (normal) of every path against the documented variance with fans counted'
    ' over allowed paths; the initial kernels of Tensor, FusedTensor, Dense and'
    ' Embed for every shape; invalid arguments'
)
ASSUMPTIONS = [
    '4096 features per path: largest drawn magnitude between 97.5% and 100% of'
    ' the end point of the distribution (normal: spread within 12%); draws are'
    ' deterministic for the key used',
]
NUM = 4096
NAMED = {
    'glorot_uniform': (1.0, 'fan_avg', 'uniform'),
    'xavier_uniform': (1.0, 'fan_avg', 'uniform'),
    'glorot_normal': (1.0, 'fan_avg', 'truncated_normal'),
    'xavier_normal': (1.0, 'fan_avg', 'truncated_normal'),
    'lecun_uniform': (1.0, 'fan_in', 'uniform'),
    'lecun_normal': (1.0, 'fan_in', 'truncated_normal'),
    'he_uniform': (2.0, 'fan_in', 'uniform'),
    'kaiming_uniform': (2.0, 'fan_in', 'uniform'),
    'he_normal': (2.0, 'fan_in', 'truncated_normal'),
    'kaiming_normal': (2.0, 'fan_in', 'truncated_normal'),
}
MODES = ('fan_in', 'fan_out', 'fan_avg')
DISTS = ('truncated_normal', 'normal', 'uniform')
TABLES = dict(quick=(3, 0), thorough=(4, 0))


def shapes(tier):
  top = 3 if tier == 'quick' else 4
  return list(itertools.product((1, 2), range(1, top + 1), (1, 2), range(1, top + 1), (1, 2), range(1, top + 1)))


def plan(tier):
  s = shapes(tier)
  k = 16 if tier == 'quick' else 64
  jobs = [dict(kind='tensor', shapes=s[i::k], salt=i, full=tier == 'thorough') for i in range(k)]
  jobs += [dict(kind='modules', tier=tier, part=i) for i in range(6)]
  jobs += [dict(kind='fused', part=i) for i in range(4)] + [dict(kind='invalid')]
  return jobs


def fans(shape):
  """mask, fan_in, fan_out by counting allowed paths."""
  s1, n1, s2, n2, s3, n3 = shape
  parity = lambda s, p, l: p if s == 2 else l % 2
  mask = np.zeros(shape, bool)
  for p1, l1, p2, l2, p3, l3 in itertools.product(*map(range, shape)):
    mask[p1, l1, p2, l2, p3, l3] = (
        (parity(s1, p1, l1) + parity(s2, p2, l2) + parity(s3, p3, l3)) % 2 == 0
        and abs(l1 - l2) <= l3 <= l1 + l2)
  fan_in = np.broadcast_to(mask.sum((0, 1, 2, 3), keepdims=True), shape)
  fan_out = np.broadcast_to(mask.sum((4, 5), keepdims=True), shape)
  return mask, fan_in, fan_out


def spread_ok(rec, w, mask, var, dist, what, **details):
  """w (..., F): zero where not mask, else variance var of distribution dist."""
  w = np.asarray(w, np.float64)
  rec.check(bool((w[~mask] == 0).all()), f'{what}: parameters of unused paths are not zero', **details)
  rec.check(bool((w[mask] != 0).mean() > 0.999) if mask.any() else True, f'{what}: parameters of used paths are zero', **details)
  if not mask.any():
    return
  w, var = w[mask], np.broadcast_to(var, mask.shape)[mask]
  std = np.sqrt(var)
  top = np.abs(w).max(-1) / std
  if dist == 'normal':
    s = w.std(-1) / std
    rec.check(bool(((s > 0.88) & (s < 1.12)).all()), f'{what}: wrong variance', ratio=(s.min(), s.max()), **details)
    rec.check(bool((top > 2.9).all()), f'{what}: distribution is truncated', top=top.min(), **details)
  else:
    end = np.sqrt(3) if dist == 'uniform' else 2 / 0.87962566103423978
    rec.check(bool(((top > 0.975 * end) & (top <= end * 1.00001)).all()), f'{what}: wrong variance', ratio=(top.min() / end, top.max() / end), **details)
    # Fourth moment distinguishes the shape of the distributions.
    kurt = (w**4).mean(-1) / (w**2).mean(-1) ** 2
    want = 1.8 if dist == 'uniform' else 2.3655
    rec.check(bool((np.abs(kurt - want) < 0.3).all()), f'{what}: wrong distribution', kurtosis=(kurt.min(), kurt.max()), **details)
    rec.close(w.std(-1) / std, np.ones(len(w)), f'{what}: wrong variance', tol=0.06, **details)
  rec.check(bool((np.abs(w.mean(-1)) / std < 0.1).all()), f'{what}: mean is not zero', **details)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  nn = e3x.nn
  ini = nn.initializers
  jax.config.update('jax_enable_x64', True)

  def var_of(shape, scale, mode):
    mask, fi, fo = fans(shape)
    den = dict(fan_in=fi, fan_out=fo, fan_avg=(fi + fo) / 2)[mode]
    return mask, scale / np.maximum(den, 1)

  if job['kind'] == 'tensor':
    todo = [(f'tensor_{k}', None, v) for k, v in NAMED.items()]
    todo += [('tensor_variance_scaling', s, (s[0], s[1], s[2])) for s in ((0.7, m, d) for m, d in itertools.product(MODES, DISTS))]
    for i, shape in enumerate(map(tuple, job['shapes'])):
      # Every shape with every mode/distribution; the named ones in turns.
      sel = todo if job['full'] else [t for j, t in enumerate(todo) if (i + j + job['salt']) % 9 == 0 or i == 0]
      for name, args, (scale, mode, dist) in sel:
        rec.state('tensor', shape, name, args)
        key = jax.random.PRNGKey(i)
        init = getattr(ini, name)(*args) if args else getattr(ini, name)()
        dt = ('float32', 'float64')[i % 2]
        w = np.asarray(init(key, (*shape, NUM), jnp.dtype(dt)))
        rec.call()
        rec.check(w.shape == (*shape, NUM) and w.dtype == np.dtype(dt), f'{name}: wrong shape or dtype', shape=w.shape, dtype=str(w.dtype))
        mask, var = var_of(shape, scale, mode)
        spread_ok(rec, w, mask, var, dist, name, shape=shape, args=args)
        rec.outcome((shape, int(mask.sum())))
    shape = tuple(job['shapes'][0])
    for name in NAMED:
      init = getattr(ini, f'tensor_{name}')()
      a, b, c = (np.asarray(init(jax.random.PRNGKey(k), (*shape, 8), jnp.float32)) for k in (0, 0, 1))
      rec.call(3)
      rec.check(bool((a == b).all()), 'initialization is not reproducible')
      rec.check(bool((a != c).any()), 'initialization ignores the key')
  elif job['kind'] == 'modules':
    top = 3
    combos = list(itertools.product((1, 2), range(top), (1, 2), range(top), (False, True)))
    key = jax.random.PRNGKey(3)
    f = 2048
    for s1, l1, s2, l2, pseudo in combos[job['part']::6 if job['tier'] == 'thorough' else 18]:
      l3 = (l1 + 2 * l2 + pseudo) % (min(l1 + l2, top) + 1)
      rec.state('Tensor', s1, l1, s2, l2, l3, pseudo)
      x, y = (jnp.zeros((s, (l + 1) ** 2, f), jnp.float32) for s, l in ((s1, l1), (s2, l2)))
      p = nn.Tensor(max_degree=l3, include_pseudotensors=pseudo).init(key, x, y)
      (w,) = jax.tree_util.tree_leaves(p)
      out = jax.eval_shape(nn.Tensor(max_degree=l3, include_pseudotensors=pseudo).apply, p, x, y)
      shape = (s1, l1 + 1, s2, l2 + 1, out.shape[-3], l3 + 1)
      rec.call()
      if w.shape == (*shape, f):
        mask, var = var_of(shape, 1.0, 'fan_in')
        spread_ok(rec, w, mask, var, 'truncated_normal', 'Tensor', shape=shape)
    # Initial outputs have about unit variance for inputs of unit variance.
    for s1, l1, s2, l2, pseudo in combos[job['part']::6]:
      if (s1, s2) != (2, 2) or l1 != l2 or pseudo == (l1 == 1):
        continue
      for cls in (nn.Tensor, nn.FusedTensor):
        rec.state('unit variance', cls.__name__, l1, pseudo)
        k1, k2, k3 = jax.random.split(jax.random.PRNGKey(11), 3)
        x = jax.random.normal(k1, (s1, (l1 + 1) ** 2, 30000), jnp.float32)
        y = jax.random.normal(k2, (s2, (l2 + 1) ** 2, 30000), jnp.float32)
        z, _ = cls(max_degree=l1, include_pseudotensors=pseudo).init_with_output(k3, x, y)
        rec.call()
        v = np.asarray(z, np.float64).var()
        lo, hi = (0.05, 3.0)
        rec.check(lo < v < hi, 'initial outputs do not have unit scale', variance=v, layer=cls.__name__, degree=l1)
    # Parameters of Dense and Embed.
    for s, l, fin, fout in itertools.product((1, 2), range(3), (3, 64), (64,)):
      if (s + l + (fin > 3)) % 6 != job['part']:
        continue
      rec.state('Dense', s, l, fin, fout)
      p = nn.Dense(features=fout).init(key, jnp.zeros((s, (l + 1) ** 2, fin), jnp.float32))
      rec.call()
      kernels = [a for a in jax.tree_util.tree_leaves(p) if a.ndim == 2]
      biases = [a for a in jax.tree_util.tree_leaves(p) if a.ndim == 1]
      rec.check(len(kernels) == s * (l + 1), 'Dense: number of kernels', n=len(kernels), s=s, l=l)
      rec.check(len(biases) == 1 and bool((np.asarray(biases[0]) == 0).all()), 'Dense: only even scalars have a bias and it is zero initially', n=len(biases), s=s, l=l)
      for i, a in enumerate(kernels):
        rec.check(a.shape == (fin, fout), 'Dense: kernel shape', shape=a.shape)
        st = np.asarray(a, np.float64).std() * np.sqrt(fin)
        rec.check(0.8 < st < 1.2, 'Dense: kernel variance', ratio=st)
        rec.check(all(np.abs(np.asarray(a) - np.asarray(b)).max() > 0 for b in kernels[:i]), 'Dense: kernels of different degrees are equal initially')
    if job['part'] == 0:
      for n, f in itertools.product((1, 4, 16), (4096,)):
        rec.state('Embed', n)
        (e,) = jax.tree_util.tree_leaves(nn.Embed(num_embeddings=n, features=f).init(key, jnp.zeros((2,), jnp.int32)))
        rec.call()
        rec.check(e.size == n * f, 'Embed: shape of the parameters', shape=e.shape)
        rec.check(0.1 < np.asarray(e).std() * np.sqrt(f) < 100, 'Embed: parameters', std=np.asarray(e).std())
        rec.check(len(np.unique(np.asarray(e))) > 0.99 * e.size, 'Embed: embeddings are not distinct')
  elif job['kind'] == 'fused':
    for name, dist in (('fused_tensor_normal', 'truncated_normal'), ('fused_tensor_uniform', 'uniform')):
      for n, scale, masked, dt in itertools.product(range(1, 6), (1.0, 0.3, 'array'), (False, True), ('float32', 'float64')):
        if n % 4 != job['part']:
          continue
        rec.state(name, n, scale, masked, dt)
        var = np.linspace(0.2, 3, n)[:, None] if scale == 'array' else scale
        mask = (np.arange(n) % 2 == 0)[:, None] if masked else np.ones((n, 1), bool)
        kw = dict(scale=jnp.asarray(var) if scale == 'array' else var)
        if masked:
          kw['mask'] = jnp.asarray(mask)
        w = getattr(ini, name)(**kw)(jax.random.PRNGKey(n), (n, NUM), jnp.dtype(dt))
        rec.call()
        rec.check(w.shape == (n, NUM) and w.dtype == jnp.dtype(dt), f'{name}: wrong shape or dtype', dtype=str(w.dtype))
        v = np.broadcast_to(np.asarray(var), (n, 1))[:, 0]
        spread_ok(rec, w, mask[:, 0], v, dist, name, n=n, scale=scale, masked=masked)
    # Unused parameters of FusedTensor are zero, used ones are not.
    for s1, l1, s2, l2, pseudo in itertools.product((1, 2), range(3), (1, 2), range(3), (False, True)):
      if (s1 + l1 + s2 + l2 + pseudo) % 2 or (l1 + 2 * s1 + s2) % 4 != job['part']:
        continue
      rec.state('FusedTensor', s1, l1, s2, l2, pseudo)
      x, y = (jnp.zeros((s, (l + 1) ** 2, 16), jnp.float32) for s, l in ((s1, l1), (s2, l2)))
      p = nn.FusedTensor(include_pseudotensors=pseudo).init(jax.random.PRNGKey(0), x, y)['params']
      rec.call()
      rec.check(all(w.dtype == jnp.float32 for w in jax.tree_util.tree_leaves(p)), 'FusedTensor: parameters do not have the parameter dtype')
      for i, (s, l) in (('1', (s1, l1)), ('2', (s2, l2))):
        for c, par in (('e', 0), ('o', 1)):
          w = p.get(f'kernel_{c}{i}')
          if w is None or w.shape != (l + 1, 16):
            continue
          used = np.array([s == 2 or d % 2 == par for d in range(l + 1)])
          rec.check(bool((np.asarray(w)[~used] == 0).all()), 'FusedTensor: unused parameters are not zero', s=s, l=l, kernel=c + i)
          rec.check(bool((np.asarray(w)[used] != 0).all()), 'FusedTensor: used parameters are zero', s=s, l=l, kernel=c + i)
  else:
    key = jax.random.PRNGKey(0)
    ok = (1, 2, 1, 2, 1, 2, 4)
    for args in ((1.0, 'fan', 'normal'), (1.0, 'fan_in', 'gauss'), (1.0, '', 'uniform'), (1.0, 'fan_out', '')):
      rec.state('args', args)
      rec.raises(lambda: ini.tensor_variance_scaling(*args)(key, ok), 'invalid mode or distribution is accepted', args=args)
    for shape in (ok[:6], ok + (2,), (3, 2, 1, 2, 1, 2, 4), (1, 2, 0, 2, 1, 2, 4), (1, 2, 1, 2, 4, 2, 4), (2,)):
      rec.state('shape', shape)
      rec.raises(lambda: ini.tensor_lecun_normal()(key, shape), 'invalid kernel shape is accepted', shape=shape)
    for dt in ('float32', 'float64', 'bfloat16', 'float16'):
      rec.state('dtype', dt)
      w = ini.tensor_lecun_normal(jnp.dtype(dt))(key, ok)
      rec.call()
      rec.check(w.dtype == jnp.dtype(dt), 'dtype of the initializer is ignored', dtype=str(w.dtype))

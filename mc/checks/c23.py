"""Batching, jit, vmap, dtypes and derivatives of the whole public interface."""

import functools
import itertools

import numpy as np

from mc import nnutil
from mc import ref

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = (
    'every public operation on arrays (so3, ops, features, activations, radial'
    ' functions, basis, Dense, Tensor, FusedTensor, TensorDense, Embed; 67 in total)'
    ' x every batch shape {(), (1,), (4,), (2, 2), (1, 4), (2, 1, 2), (0,)} x'
    ' {eager, jit, vmap} (quick: jit for three of the shapes) x {float32, float64}: result of each batch entry equals'
    ' that of the entry alone; x every entry: all other entries replaced by NaN,'
    ' inf or huge values leave it unchanged; dtype is preserved; forward and'
    ' reverse mode derivatives agree'
)
ASSUMPTIONS = [
    'jit of FusedTensor with two or more batch axes is excluded (internal error'
    ' of the XLA CPU compiler, independent of e3x); wigner_d and tensor products'
    ' of empty batches are excluded',
    'tolerance 2e-5 (float32), 1e-10 (float64), relative to the largest entry',
]
TABLES = dict(quick=(2, 2), thorough=(3, 3))
BATCHES = ((), (1,), (4,), (2, 2), (1, 4), (2, 1, 2), (0,))
RADIALS = [f'{p}_{f}' for p, f in itertools.product(('basic', 'reciprocal', 'exponential'), ('bernstein', 'chebyshev', 'gaussian', 'fourier'))]
RADIALS += ['sinc', 'rectangular_window', 'triangular_window', 'smooth_window']
SCALARS = ['smooth_cutoff', 'cosine_cutoff', 'smooth_damping', 'smooth_switch', 'reciprocal_mapping', 'exponential_mapping']
ACTS = 'relu leaky_relu elu selu celu silu gelu mish serf shifted_softplus hard_tanh soft_sign relu6 hard_silu bent_identity'.split()


def names():
  so3 = ['spherical_harmonics', 'solid_harmonics', 'wigner_d', 'irreps_to_tensor', 'tensor_to_irreps', 'is_traceless_symmetric', 'rotation', 'rotation_euler', 'euler_angles', 'alignment_rotation']
  ops = ['norm', 'normalize', 'normalize_and_return_norm', 'inverse_softplus']
  feats = ['rotate', 'rotate_each', 'reflect', 'change_down', 'change_up', 'change_pseudo', 'add']
  mods = ['basis', 'basis_damped', 'Dense', 'Dense2', 'Tensor', 'FusedTensor', 'TensorDense', 'TensorDenseFused', 'Embed']
  return so3 + ops + feats + mods + RADIALS + SCALARS + ACTS


def plan(tier):
  return [dict(op=n, x64=x64, tier=tier) for n in names() for x64 in ((False,) if tier == 'quick' and n in ACTS + RADIALS and names().index(n) % 3 else (False, True))]


def weight(job):
  return job['op'] in ('Tensor', 'FusedTensor', 'TensorDense', 'TensorDenseFused', 'wigner_d', 'basis')


def table(e3x, jnp, jax, dt):
  """name -> (core shapes, function, kwargs: differentiable, scale)."""
  nn, so3, ops = e3x.nn, e3x.so3, e3x.ops
  d2 = jnp.asarray(ref.wigner_d(ref.euler(0.3, 1.1, -0.7), 2, True), dt)
  t = {
      'spherical_harmonics': ([(3,)], lambda r: so3.spherical_harmonics(r, 3)),
      'solid_harmonics': ([(3,)], lambda r: so3.solid_harmonics(r, 3)),
      'wigner_d': ([(3, 3)], lambda r: so3.wigner_d(r, 2)),
      'irreps_to_tensor': ([(5,)], lambda x: so3.irreps_to_tensor(x, 2)),
      'tensor_to_irreps': ([(3, 3)], lambda x: so3.tensor_to_irreps(x, 2)),
      'is_traceless_symmetric': ([(3, 3)], lambda x: so3.is_traceless_symmetric(x, 2)),
      'rotation': ([(3,), ()], so3.rotation),
      'rotation_euler': ([(), (), ()], so3.rotation_euler),
      'euler_angles': ([(), (), ()], lambda a, b, c: so3.euler_angles_from_rotation(so3.rotation_euler(a, b, c))),
      'alignment_rotation': ([(3,), (3,)], so3.alignment_rotation),
      'norm': ([(3, 2)], lambda x: ops.norm(x, axis=(-1, -2))),
      'normalize': ([(3,)], lambda x: ops.normalize(x, axis=-1)),
      'normalize_and_return_norm': ([(3,)], lambda x: ops.normalize_and_return_norm(x, axis=-1)),
      'inverse_softplus': ([()], lambda x: ops.inverse_softplus(jnp.abs(x) + 0.01)),
      'rotate': ([(2, 9, 2)], lambda x: nn.rotate(x, d2)),
      'rotate_each': ([(2, 9, 2), (9, 9)], nn.rotate),
      'reflect': ([(1, 9, 2)], nn.reflect),
      'change_down': ([(2, 9, 2)], lambda x: nn.change_max_degree_or_type(x, max_degree=1, include_pseudotensors=False)),
      'change_up': ([(1, 4, 2)], lambda x: nn.change_max_degree_or_type(x, max_degree=3, include_pseudotensors=True)),
      'change_pseudo': ([(2, 4, 2)], lambda x: nn.change_max_degree_or_type(x, max_degree=2)),
      'add': ([(2, 4, 2), (1, 9, 2), (1, 1, 2)], lambda *x: nn.add(*x)),
      'basis': ([(3,)], lambda r: nn.basis(r, max_degree=2, num=3, radial_fn=nn.reciprocal_bernstein, cutoff_fn=functools.partial(nn.smooth_cutoff, cutoff=3.0), return_cutoff=True, return_norm=True)),
      'basis_damped': ([(3,)], lambda r: nn.basis(r, max_degree=1, num=2, radial_fn=nn.sinc, damping_fn=nn.smooth_damping, return_norm=True)),
  }
  for name in RADIALS:
    t[name] = ([()], (lambda f: lambda x: f(jnp.abs(x), 4))(getattr(nn, name)))
  for name in SCALARS:
    t[name] = ([()], (lambda f: lambda x: f(jnp.abs(x)))(getattr(nn, name)))
  for name in ACTS:
    t[name] = ([(2, 4, 2)], getattr(nn, name))
  t['smooth_switch'] = ([()], lambda x: nn.smooth_switch(x, -1.5, 1.5))

  def layer(mod, *shapes):
    args = [jnp.zeros(s, dt) for s in shapes]
    params = nnutil.generic_params(mod, *args, dtype=dt, salt=5)
    return (list(shapes), lambda *a: mod.apply(params, *a))

  made = {
      'Dense': lambda: layer(nn.Dense(features=3), (2, 4, 2)),
      'Dense2': lambda: layer(nn.Dense(features=2), (1, 9, 3)),
      'Tensor': lambda: layer(nn.Tensor(max_degree=2), (2, 4, 2), (1, 9, 2)),
      'FusedTensor': lambda: layer(nn.FusedTensor(max_degree=2), (2, 4, 2), (1, 9, 2)),
      'TensorDense': lambda: layer(nn.TensorDense(features=2, max_degree=1, use_fused_tensor=False), (2, 4, 2)),
      'TensorDenseFused': lambda: layer(nn.TensorDense(features=2, max_degree=2, use_fused_tensor=True), (1, 4, 2)),
  }

  def embed():
    mod = nn.Embed(num_embeddings=5, features=3)
    params = nnutil.generic_params(mod, jnp.zeros((2,), jnp.int32), dtype=dt)
    return ([()], lambda i: mod.apply(params, jnp.abs(jnp.round(7 * i)).astype(jnp.int32) % 5))

  made['Embed'] = embed
  return t, made


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  x64, name = job['x64'], job['op']
  jax.config.update('jax_enable_x64', x64)
  dt = 'float64' if x64 else 'float32'
  tol = 1e-10 if x64 else 2e-5
  t, made = table(e3x, jnp, jax, dt)
  shapes, fn = made[name]() if name in made else t[name]
  heavy = name in ('Tensor', 'FusedTensor', 'TensorDense', 'TensorDenseFused')

  def tup(y):
    return y if isinstance(y, tuple) else (y,)

  f = lambda *a: tup(fn(*a))
  args = [nnutil.generic((4, *s), salt=i + 2).astype(dt) for i, s in enumerate(shapes)]
  if name == 'wigner_d':
    args = [np.stack([ref.euler(k, 0.5 * k, -k) for k in range(4)]).astype(dt)]
  if name == 'rotate_each':
    args[1] = np.stack([ref.wigner_d(ref.euler(k, 0.5 * k, -k), 2, True) for k in range(4)]).astype(dt)
  if name == 'is_traceless_symmetric':
    args[0][1] = np.diag([1.0, 1.0, -2.0])
    args[0][3] = np.array([[1, 0.5, 0.2], [0.5, 2, -0.1], [0.2, -0.1, -3]])
  if name == 'tensor_to_irreps':
    a = args[0] + np.swapaxes(args[0], -1, -2)
    args[0] = (a - np.trace(a, axis1=-1, axis2=-2)[:, None, None] * np.eye(3) / 3).astype(dt)
  ja = [jnp.asarray(a) for a in args]
  single = [[np.asarray(o) for o in f(*[a[k] for a in ja])] for k in range(4)]
  rec.call(4)
  n_out = len(single[0])
  for o in range(n_out):
    rec.check(single[0][o].dtype == np.dtype(dt) or name == 'is_traceless_symmetric', f'{name}: dtype is not preserved', dtype=str(single[0][o].dtype), input=dt)
    rec.check(all(bool(np.isfinite(single[k][o]).all()) for k in range(4)), f'{name}: result is not finite')
  per_batch_scalar = name == 'is_traceless_symmetric'
  if per_batch_scalar:
    # The predicate is a statement about the whole array: conjunction.
    y = np.asarray(fn(ja[0]))
    rec.state(name, x64)
    rec.check(y.shape in ((), (4,)), f'{name}: shape', shape=y.shape)
    rec.check(bool(np.all(y)) == all(bool(np.all(single[k][0])) for k in range(4)), f'{name}: batch')
    return
  want = [np.stack([single[k][o] for k in range(4)]) for o in range(n_out)]

  def compare(y, e, what, **details):
    for u, v in zip(y, e):
      rec.close(np.asarray(u), v, f'{name}: {what}', tol=tol, dtype=dt, **details)

  modes = {'eager': f}
  modes['jit'] = jax.jit(f)
  for batch in BATCHES:
    if batch == (0,) and (name in ('wigner_d', 'rotate_each', 'is_traceless_symmetric') or heavy):
      continue
    size = int(np.prod(batch))
    a = [v[:size].reshape((*batch, *v.shape[1:])) for v in ja]
    e = [v[:size].reshape((*batch, *v.shape[1:])) for v in want]
    for mode, g in modes.items():
      if mode == 'jit' and 'Fused' in name and len(batch) > 1:
        continue
      if heavy and mode == 'jit' and batch not in ((4,), ()):
        continue
      if job['tier'] == 'quick':
        if mode == 'jit' and batch not in ((4,), (), (2, 2)):
          continue
        if mode == 'eager' and batch in ((1, 4), (1,)) and name not in ('norm', 'normalize', 'basis', 'rotation'):
          continue
      rec.state(name, x64, batch, mode)
      rec.call()
      y = g(*a)
      compare(y, e, f'batch result differs from single results ({mode})', batch=batch)
      rec.check(all(np.asarray(u).dtype == np.dtype(dt) for u in y), f'{name}: dtype is not preserved ({mode})', batch=batch)
  rec.state(name, x64, 'vmap')
  rec.call()
  compare(jax.vmap(f)(*ja), want, 'vmap differs from single results')
  if not heavy and name != 'Embed':
    # vmap over an inner axis of a larger batch.
    rec.state(name, x64, 'vmap', 1)
    a = [v.reshape((2, 2, *v.shape[1:])) for v in ja]
    compare(jax.vmap(f, in_axes=1, out_axes=1)(*a), [v.reshape((2, 2, *v.shape[1:])) for v in want], 'vmap (axis 1) differs')
  # Poisoned entries.
  if name != 'Embed':
    g = f if heavy else modes['jit']
    for k, bad in itertools.product(range(4), (np.nan, np.inf, 1e30)):
      if heavy and bad != np.nan and k:
        continue
      rec.state(name, x64, 'poison', k, bad)
      rec.call()
      a = [np.full_like(v, bad) for v in args]
      for v, w in zip(a, args):
        v[k] = w[k]
      y = g(*[jnp.asarray(v) for v in a])
      compare([np.asarray(u)[k] for u in y], [v[k] for v in want], 'entry is influenced by another entry', entry=k, other=bad)
  # Derivatives: forward and reverse mode agree and act entry-wise.
  if name != 'Embed':
    rec.state(name, x64, 'derivative')
    u = [jnp.asarray(nnutil.generic(v.shape, salt=21 + i), dt) for i, v in enumerate(want)]
    dv = [jnp.asarray(nnutil.generic(v.shape, salt=41 + i), dt) for i, v in enumerate(args)]
    y, jv = jax.jvp(f, tuple(ja), tuple(dv))
    y2, vjp = jax.vjp(f, *ja)
    g = vjp(tuple(u))
    rec.call(2)
    lhs = [sum(np.sum(np.asarray(a, np.float64)[k] * np.asarray(b, np.float64)[k]) for a, b in zip(u, jv)) for k in range(4)]
    rhs = [sum(np.sum(np.asarray(a, np.float64)[k] * np.asarray(b, np.float64)[k]) for a, b in zip(g, dv)) for k in range(4)]
    compare(y, want, 'value changes under jvp')
    compare(y2, want, 'value changes under vjp')
    rec.close(np.array(lhs), np.array(rhs), f'{name}: forward and reverse mode disagree', tol=tol * 10)
    if x64 and name not in ('rectangular_window',):
      h = 1e-6
      plus = f(*[a + h * b for a, b in zip(ja, dv)])
      minus = f(*[a - h * b for a, b in zip(ja, dv)])
      if name not in ('wigner_d', 'tensor_to_irreps'):
        for o, (p, m, j) in enumerate(zip(plus, minus, jv)):
          rec.close(np.asarray(j), (np.asarray(p) - np.asarray(m)) / (2 * h), f'{name}: derivative is wrong', tol=1e-5, output=o)
  rec.outcome((name, x64, str(np.round(np.abs(want[0]).sum(), 3))))

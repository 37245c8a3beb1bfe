"""Global configuration: every history of changes selects the defaults."""

import itertools

import numpy as np

from mc import nnutil
from mc import ref

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = (
    'explicit-state search over the configuration automaton: 16 states (component'
    ' order x 4 normalizations x fused tensors), every action (set to each value,'
    ' reset by calling the setter without argument, invalid normalization, cache'
    ' path setters) from every state; after each transition every public operation'
    ' with defaults is executed and compared with the same operation with explicit'
    ' options, explicit results with their values in the initial state, results of'
    ' the two orders with the component permutation, and modules constructed'
    ' before the transition with their former results'
)
ASSUMPTIONS = [
    'functions that were traced by jax.jit before a change keep the former'
    ' defaults (inherent in jit) and are not covered',
]
TABLES = dict(quick=(2, 2), thorough=(3, 3))
NORMS = ('racah', '4pi', 'orthonormal', 'schmidt')
STATES = list(itertools.product((True, False), NORMS, (False, True)))


def actions():
  out = [('order', v) for v in (True, False, 'reset')]
  out += [('norm', v) for v in NORMS + ('reset', 'invalid')]
  out += [('fused', v) for v in (True, False, 'reset')]
  out += [('cache', 0)]
  return out


def step(state, action):
  c, n, f = state
  k, v = action
  if k == 'order':
    c = True if v == 'reset' else v
  if k == 'norm' and v != 'invalid':
    n = 'racah' if v == 'reset' else v
  if k == 'fused':
    f = False if v == 'reset' else v
  return c, n, f


def plan(tier):
  pairs = [[STATES[i], STATES[15 - i]] for i in range(8)]
  jobs = [dict(kind='walk', states=[list(s) for s in p], deg=2 if tier == 'quick' else 3, depth=1 if tier == 'quick' else 2) for p in pairs]
  return jobs + [dict(kind='initial', deg=2)]


def run_job(job, rec):
  if job['kind'] == 'initial':
    import subprocess
    import sys

    rec.state('initial')
    code = 'import e3x; c = e3x.Config; print(c.cartesian_order, c.normalization, c.use_fused_tensor, c.spherical_harmonics_cache, c.clebsch_gordan_cache, c.wigner_d_cache, c.tensor_conversion_cache)'
    out = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, check=True).stdout.split()
    rec.call()
    rec.check(out == ['True', 'racah', 'False'] + ['None'] * 4, 'initial configuration', out=out)
    return

  import e3x
  import jax
  import jax.numpy as jnp

  jax.config.update('jax_enable_x64', True)
  so3, nn, cfg = e3x.so3, e3x.nn, e3x.Config
  deg = job['deg']
  n = (deg + 1) ** 2
  r = jnp.asarray(nnutil.generic((5, 3), salt=1))
  rot = jnp.asarray(ref.euler(0.3, 1.1, -0.7))
  t2 = jnp.asarray(nnutil.generic((2,) + (3,) * deg, salt=3))
  x = jnp.asarray(nnutil.features((3,), 1, 2, 2, salt=4))
  y = jnp.asarray(nnutil.features((3,), 2, 2, 2, salt=5))
  irr = jnp.asarray(nnutil.generic((2, 2 * deg + 1), salt=2))
  basis = jnp.asarray(nnutil.features((2,), 1, 2, 3, salt=6))
  dst, src = jnp.asarray([0, 2]), jnp.asarray([1, 0])
  perm = ref.permutation(deg, True)  # cartesian = plain[perm]
  p1 = perm[deg * deg:] - deg * deg

  # Operations: name -> (function of explicit options, relation of the orders).
  def opts(c, m):
    return {k: v for k, v in (('cartesian_order', c), ('normalization', m)) if v is not None}

  def vec(a):
    return a[..., perm]

  def mat(a):
    return a[..., perm, :][..., perm]

  def one(a):  # Components of degree deg only.
    return a[..., p1]

  funcs = {
      'spherical_harmonics': (lambda c, m: so3.spherical_harmonics(r, deg, **opts(c, m)), vec),
      'solid_harmonics': (lambda c, m: so3.solid_harmonics(r, deg, **opts(c, None)), vec),
      'clebsch_gordan': (lambda c, m: so3.clebsch_gordan(deg, deg, deg, **opts(c, None)), lambda a: a[perm][:, perm][:, :, perm]),
      'clebsch_gordan_for_degrees': (lambda c, m: so3.clebsch_gordan_for_degrees(deg, deg, deg, **opts(c, None)), lambda a: a[p1][:, p1][:, :, p1]),
      'wigner_d': (lambda c, m: so3.wigner_d(rot, deg, **opts(c, None)), mat),
      'irreps_to_tensor': (lambda c, m: so3.irreps_to_tensor(irr, deg, **opts(c, m)), None),
      'tensor_to_irreps': (lambda c, m: so3.tensor_to_irreps(t2, deg, **opts(c, m)), one),
      'basis': (lambda c, m: nn.basis(r, max_degree=deg, num=2, radial_fn=nn.reciprocal_bernstein, **opts(c, None)), lambda a: a[..., perm, :]),
  }

  init = nnutil.GenericInit

  def make(name, c, f):
    """Constructs a layer with explicit (or default) options."""
    o = {} if c is None else dict(cartesian_order=c)
    if name == 'Tensor':
      return nn.Tensor(max_degree=2, **o), (x, y)
    if name == 'FusedTensor':
      return nn.FusedTensor(max_degree=2, **o), (x, y)
    if f is not None:
      o['use_fused_tensor'] = f
    if name == 'TensorDense':
      return nn.TensorDense(features=2, max_degree=2, **o), (y,)
    if name == 'MessagePass':
      return nn.MessagePass(max_degree=2, **o), (y, basis, dict(dst_idx=dst, src_idx=src))
    if name == 'SelfAttention':
      return nn.SelfAttention(max_degree=2, num_heads=1, **o), (y, basis, dict(dst_idx=dst, src_idx=src))
    return nn.MultiHeadAttention(max_degree=2, num_heads=1, **o), (y, x, basis, dict(dst_idx=dst, src_idx=src))

  layers = ('Tensor', 'FusedTensor', 'TensorDense', 'MessagePass', 'SelfAttention', 'MultiHeadAttention')

  def split(args):
    return (args[:-1], args[-1]) if isinstance(args[-1], dict) else (args, {})

  def generic_tree(shapes):
    leaves, tree = jax.tree_util.tree_flatten(shapes)
    return jax.tree_util.tree_unflatten(tree, [jnp.asarray(nnutil.generic(l.shape, salt=9 + 31 * i)) for i, l in enumerate(leaves)])

  def set_state(s):
    cfg.set_cartesian_order(s[0])
    cfg.set_normalization(s[1])
    cfg.set_use_fused_tensor(s[2])

  # Explicit results in the initial configuration (the reference).
  set_state((True, 'racah', False))
  base = {}
  for name, (f, order) in funcs.items():
    for c, m in itertools.product((True, False), NORMS):
      base[name, c, m] = np.asarray(f(c, m))
      rec.call()
    if order is not None:
      for m in NORMS:
        p = order(base[name, False, m])
        if p is not None:
          rec.close(base[name, True, m], p, f'{name}: component orders are not related by the permutation', tol=1e-6, normalization=m)
  for m, l in itertools.product(NORMS, range(deg + 1)):
    k = ref.norm_const(m, l)
    a, b = base['spherical_harmonics', True, m], base['spherical_harmonics', True, 'racah']
    rec.close(a[:, l * l:(l + 1) ** 2], k * b[:, l * l:(l + 1) ** 2], 'wrong normalization', tol=1e-6, normalization=m, degree=l)
  params, results, structure = {}, {}, {}
  for name in layers:
    for c, f in itertools.product((True, False), (True, False)):
      if name in ('Tensor', 'FusedTensor') and f:
        continue
      mod, args = make(name, c, f)
      a, kw = split(args)
      if (name, f) not in params:
        shapes = jax.eval_shape(lambda mod=mod, a=a, kw=kw: mod.init(jax.random.PRNGKey(0), *a, **kw))
        params[name, f] = generic_tree(shapes)
        structure[name, f] = str(jax.tree_util.tree_map(lambda l: l.shape, shapes))
      results[name, c, f] = np.asarray(mod.apply(params[name, f], *a, **kw))
      rec.call()

  def observe(s, before=()):
    c, m, f = s
    rec.check((cfg.cartesian_order, cfg.normalization, cfg.use_fused_tensor) == s, 'configuration does not have the values that were set', state=s, actual=(cfg.cartesian_order, cfg.normalization, cfg.use_fused_tensor))
    for name, (fn, _) in funcs.items():
      rec.call()
      rec.close(np.asarray(fn(None, None)), base[name, c, m], f'{name}: defaults do not follow the configuration', tol=1e-6, state=s)
      # Explicit options do not depend on the configuration.
      c2, m2 = (not c), NORMS[(NORMS.index(m) + 1) % 4]
      rec.call()
      rec.close(np.asarray(fn(c2, m2)), base[name, c2, m2], f'{name}: explicit options are overridden by the configuration', tol=1e-6, state=s)
    rec.outcome(s)

  def observe_layers(s):
    c, _, f = s
    made = []
    for name in layers:
      f_ = False if name in ('Tensor', 'FusedTensor') else f
      mod, args = make(name, None, None)
      a, kw = split(args)
      shapes = jax.eval_shape(lambda: mod.init(jax.random.PRNGKey(0), *a, **kw))
      rec.call()
      rec.check(str(jax.tree_util.tree_map(lambda l: l.shape, shapes)) == structure[name, f_], f'{name}: use_fused_tensor does not follow the configuration', state=s)
      out = np.asarray(mod.apply(params[name, f_], *a, **kw))
      rec.close(out, results[name, c, f_], f'{name}: defaults do not follow the configuration', tol=1e-5, state=s)
      made.append((name, mod, c, f_))
      # Explicit options win.
      f2 = False if name in ('Tensor', 'FusedTensor') else (not f)
      mod2, _ = make(name, not c, f2)
      rec.close(np.asarray(mod2.apply(params[name, f2], *a, **kw)), results[name, not c, f2], f'{name}: explicit options are overridden by the configuration', tol=1e-5, state=s)
    return made

  def again(made, s):
    for name, mod, c, f in made:
      _, args = make(name, None, None)
      a, kw = split(args)
      rec.call()
      rec.close(np.asarray(mod.apply(params[name, f], *a, **kw)), results[name, c, f], f'{name}: a layer changes with the configuration after its construction', tol=1e-5, state=s)

  def perform(a):
    k, v = a
    if k == 'norm' and v == 'invalid':
      for bad in ('other', '', None, 'Racah'):
        rec.raises(lambda: cfg.set_normalization(bad), 'invalid normalization is accepted', value=bad)
      return
    if k == 'cache':
      old = cfg.spherical_harmonics_cache, cfg.tensor_conversion_cache
      cfg.set_spherical_harmonics_cache(SCRATCH + '/sh.npz')
      cfg.set_tensor_conversion_cache(SCRATCH + '/tc.npz')
      rec.check(str(cfg.spherical_harmonics_cache) == SCRATCH + '/sh.npz', 'cache path is not set')
      cfg.set_spherical_harmonics_cache()
      cfg.set_tensor_conversion_cache()
      rec.check(cfg.spherical_harmonics_cache is None and cfg.tensor_conversion_cache is None, 'cache path is not reset')
      cfg.set_spherical_harmonics_cache(old[0])
      cfg.set_tensor_conversion_cache(old[1])
      return
    set_fn = {'order': cfg.set_cartesian_order, 'norm': cfg.set_normalization, 'fused': cfg.set_use_fused_tensor}[k]
    set_fn() if v == 'reset' else set_fn(v)

  try:
    for s0, seq in itertools.product(map(tuple, job['states']), itertools.product(actions(), repeat=job['depth'])):
      set_state(s0)
      s, made = s0, None
      rec.state(s0, seq)
      for a in seq:
        prev = s
        if job['depth'] == 1:
          observe(s)
        if a[0] in ('order', 'fused') and job['depth'] == 1 and s0[1] == 'racah':
          made = observe_layers(s) if a[1] != 'reset' else None
        perform(a)
        s = step(s, a)
        observe(s, prev)
      if job['depth'] > 1 and seq[0][0] != seq[1][0]:
        observe_layers(s)
      elif made:
        again(made, s)
        observe_layers(s)
  finally:
    set_state((True, 'racah', False))

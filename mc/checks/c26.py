"""Parameters depend on the configuration and the key, not on the data.

A model is initialised on one example and then used for, restored for, and
trained on others.  Hence its parameters must be a function of configuration,
feature shape and random key: every other difference between two calls of
`init` (number of atoms, batch axes, index format, number of pairs, padding,
values, dtype, compilation) must leave them unchanged, and parameters obtained
from one input must be usable for all of them.
"""

import itertools
import os

import numpy as np

from mc import nnutil

# The algebraic simplifier of the installed XLA compiler rejects its own output
# for chains of batched contractions (see DESIGN.md); unrelated to e3x.
os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '') + ' --xla_disable_hlo_passes=algsimp'

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = (
    'every module (Embed, Dense, Tensor, FusedTensor, TensorDense, MessagePass,'
    ' SelfAttention, MultiHeadAttention, ExponentialBasis) x options x feature'
    ' shapes (parity 1/2, degree 0..2) x every pair of inputs that differ in'
    ' number of atoms, batch axes, index format, number and order of pairs,'
    ' padding, values (also zero and non-finite), dtype, compilation and'
    ' abstract evaluation: same tree, shapes, dtypes and values of parameters;'
    ' parameters of each used for all; other keys; parameter dtypes;'
    ' serialisation; repeated and nested instances; no other state; every'
    ' initialiser and bias option x module: the parameters it controls (disjoint,'
    ' exhaustive), their roles in attention, and the requested result dtype'
)
ASSUMPTIONS = [
    'values of parameters are compared up to 1e-5 of the largest value (compilers may fuse'
    ' multiplications)',
]
TABLES = dict(quick=(2, 0), thorough=(3, 0))
F = 4


def plan(tier):
  shapes = [(s, l) for s in (1, 2) for l in range(3 if tier == 'quick' else 4)]
  jobs = []
  for s, l in shapes:
    for part in range(4):
      jobs.append(dict(kind='atomwise', s=s, l=l, part=part, tier=tier))
    for k, (mod, fused) in enumerate(itertools.product(('MessagePass', 'SelfAttention', 'MultiHeadAttention'), (False, True))):
      if tier == 'thorough' or (k + s + l) % 2 == 0:
        jobs.append(dict(kind='pair', mod=mod, fused=fused, s=s, l=l, tier=tier))
  jobs.append(dict(kind='other'))
  for s, l in ((1, 0), (2, 1)) if tier == 'quick' else shapes:
    jobs += [dict(kind='options', s=s, l=l, part=p, tier=tier) for p in range(4)]
  return jobs


def weight(job):
  return (job.get('l', 0), job.get('s', 0))


def inputs_atomwise(s, l, count):
  """(name, tuple of `count` feature arrays)."""
  n = (l + 1) ** 2
  out = []
  for lead in ((3,), (), (2, 3), (0,)):
    out.append((f'batch {lead}', [nnutil.generic((*lead, s, n, F), salt=i) for i in range(count)]))
  base = out[0][1]
  out.append(('zero', [0 * b for b in base]))
  out.append(('nan', [b * np.nan for b in base]))
  out.append(('float32', [b.astype(np.float32) for b in base]))
  return out


def inputs_pair(s, l, mod, ops):
  """(name, args, kwargs): different graphs, formats, values."""
  n = (l + 1) ** 2

  def case(name, atoms, idx, lead=(), scale=1.0, dtype=np.float64, lb=1):
    x = (nnutil.generic((*lead, atoms, s, n, F), salt=1) * scale).astype(dtype)
    pairs = next(iter(idx.values())).shape
    b = (nnutil.generic((*pairs, 1, (lb + 1) ** 2, 3), salt=2) * scale).astype(dtype)
    c = np.abs(nnutil.generic(pairs, salt=3)).astype(dtype)
    args = (x, b)
    if mod != 'MessagePass':
      args += (c,)
    if mod == 'MultiHeadAttention':
      args = (x, *args)
    return name, args, idx

  def dense(k):
    return dict(adj_idx=np.asarray(ops.dense_pairwise_indices(k)))

  def sparse(k):
    d, t = map(np.asarray, ops.sparse_pairwise_indices(k))
    return dict(dst_idx=d, src_idx=t)

  out = [case('sparse 3', 3, sparse(3)), case('dense 3', 3, dense(3)), case('sparse 5', 5, sparse(5)), case('dense 2', 2, dense(2))]
  e = sparse(3)
  out.append(case('reversed', 3, {k: v[::-1] for k, v in e.items()}))
  out.append(case('padded', 3, {k: np.concatenate([v, [9, 9]]) for k, v in e.items()}))
  out.append(case('one pair', 3, {k: v[:1] for k, v in e.items()}))
  out.append(case('one atom', 1, dict(dst_idx=np.array([0]), src_idx=np.array([0]))))
  out.append(case('batched', 3, {k: np.stack([v, v]) for k, v in e.items()}, lead=(2,)))
  out.append(case('batched dense', 3, {k: np.stack([v, v]) for k, v in dense(3).items()}, lead=(2,)))
  out.append(case('zero', 3, e, scale=0.0))
  out.append(case('nan', 3, e, scale=np.nan))
  out.append(case('float32', 3, e, dtype=np.float32))
  return out


def examine(rec, label, make, variants, jax, jnp, brief=False):
  """make(**options) -> module; variants: (name, args, kwargs)."""
  from flax import serialization
  import flax.linen as fnn

  tu = jax.tree_util
  key = jax.random.PRNGKey(5)
  conv = lambda a: jnp.asarray(a)
  ready = [(nm, tuple(map(conv, a)), {k: conv(v) for k, v in kw.items()}) for nm, a, kw in variants]
  flat = lambda t: {tu.keystr(p): v for p, v in tu.tree_flatten_with_path(t)[0]}
  sig = lambda t: {k: (tuple(v.shape), str(v.dtype)) for k, v in flat(t).items()}
  run_init = jax.jit(lambda k, a, kw: make().init(k, *a, **kw))

  base = None
  for nm, a, kw in ready:
    rec.case = (label, nm)
    rec.state(label, nm)
    p = run_init(key, a, kw)
    rec.call()
    last = p
    rec.check(set(p) <= {'params'}, 'a module has state besides its parameters', module=label, collections=sorted(p))
    if base is None:
      base = p
      rec.check(len(flat(p)) > 0, 'a module without parameters', module=label)
      continue
    rec.check(sig(p) == sig(base), 'the parameters have another structure for another input', module=label, input=nm, got=str(sig(p)), base=str(sig(base)))
    for k, v in flat(p).items():
      w = np.asarray(flat(base)[k], np.float64)
      rec.check(bool((np.abs(np.asarray(v, np.float64) - w) <= 1e-5 * np.abs(w).max(initial=0)).all()), 'initial values depend on the data', module=label, input=nm, leaf=k)
    rec.outcome((label, tuple(sorted(sig(p)))))

  # Without compilation, together with the output, again, by another instance.
  nm, a, kw = ready[0]
  rec.case = (label, 'repeat')
  eager = base if brief else make().init(key, *a, **kw)
  out, both = jax.jit(lambda k, a, kw: make().init_with_output(k, *a, **kw))(key, a, kw)
  rec.call(2)
  rec.state(label, 'repeat')
  rec.check(sig(eager) == sig(base), 'parameters depend on compilation', module=label)
  for k, v in flat(base).items():
    w = np.asarray(flat(eager)[k], np.float64)
    rec.check(bool((np.abs(np.asarray(flat(both)[k], np.float64) - w) <= 1e-5 * np.abs(w).max(initial=0)).all()), 'repeated initialisation differs', module=label, leaf=k)
    rec.check(bool((np.abs(w - np.asarray(v, np.float64)) <= 1e-5 * np.abs(w).max(initial=0)).all()), 'initial values depend on compilation', module=label, leaf=k)
    rec.check(bool(np.isfinite(w).all()), 'initial values are not finite', module=label, leaf=k)

  # One set of parameters serves every input.
  apply = jax.jit(lambda p, a, kw: make().apply(p, *a, **kw))
  tried = set()
  for nm, a, kw in ready:
    kind = str([(k, v.shape, v.dtype) for k, v in enumerate(tu.tree_leaves((a, kw)))])
    if kind in tried:
      continue
    tried.add(kind)
    rec.case = (label, 'use', nm)
    rec.state(label, 'use', nm)
    jax.eval_shape(lambda p, a, kw: make().apply(p, *a, **kw), base, a, kw)
    rec.call()
  nm, a, kw = ready[0]
  y0 = tu.tree_leaves(apply(base, a, kw))
  rec.call()
  rec.check(all(bool(np.isfinite(np.asarray(u)).all()) for u in y0), 'output is not finite', module=label)
  for u, v in zip(tu.tree_leaves(out), y0):
    rec.close(u, v, 'init_with_output and apply disagree', tol=1e-6, module=label)

  # Other keys: every parameter that is drawn at random is drawn anew.
  others = [run_init(jax.random.PRNGKey(k), a, kw) for k in (6, 7)]
  rec.call(2)
  for k, v in flat(base).items():
    v = np.asarray(v)
    rec.state(label, 'key', k)
    same = [bool((np.asarray(flat(o)[k]) == v).all()) for o in others]
    rec.check(same[0] == same[1], 'some keys have no influence', module=label, leaf=k)
    random = np.unique(v).size > 2
    if random:
      rec.check(not same[0], 'initial values do not depend on the key', module=label, leaf=k)
      u, w = (np.asarray(flat(o)[k]) for o in others)
      used = v != 0
      rec.check(bool(((u != 0) == used).all() and ((w != 0) == used).all()), 'other entries are zero for another key', module=label, leaf=k)
      rec.check(bool((u != w)[used].mean() > 0.99), 'the same values are drawn for another key', module=label, leaf=k)
  # No two parameters share their random numbers.
  seen = {}
  for k, v in flat(base).items():
    v = np.asarray(v)
    if np.unique(v).size > 2 and v.size >= 4:
      x = v[v != 0].ravel()[:4]
      x = tuple(np.round(x / x[0], 6))
      rec.check(x not in seen, 'two parameters are initialised with the same random numbers', module=label, leaves=(k, seen.get(x)))
      seen[x] = k

  # Type of the parameters.
  for dt in (jnp.float32, jnp.float64, jnp.bfloat16):
    rec.state(label, 'dtype', str(dt.__name__))
    sh = jax.eval_shape(lambda k, a, kw: make(param_dtype=dt).init(k, *a, **kw), key, a, kw)
    rec.call()
    bad = {k: str(v.dtype) for k, v in flat(sh).items() if v.dtype != dt}
    rec.check(not bad, 'parameters do not have the requested dtype', module=label, want=dt.__name__, got=bad)
    rec.check({k: s[0] for k, s in sig(sh).items()} == {k: s[0] for k, s in sig(base).items()}, 'shapes depend on the parameter dtype', module=label)

  # Save and restore.
  data = serialization.to_bytes(base)
  back = serialization.from_bytes(tu.tree_map(jnp.zeros_like, last), data)
  rec.state(label, 'restore')
  rec.check(sig(back) == sig(base), 'restored parameters have another structure', module=label)
  for u, v in zip(y0, tu.tree_leaves(apply(tu.tree_map(jnp.asarray, back), a, kw))):
    rec.check(bool(np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True)), 'restored parameters give another result', module=label)

  # Several instances in one model are independent; one instance is shared.
  class Two(fnn.Module):
    share: bool

    @fnn.compact
    def __call__(self, a, kw):
      m = make()
      other = m if self.share else make()
      return m(*a, **kw), other(*a, **kw)

  one = len(flat(base))
  for share in (True, False):
    rec.state(label, 'nested', share)
    if share:
      p = jax.eval_shape(lambda k, a, kw: Two(True).init(k, a, kw), key, a, kw)
    elif brief:
      p = jax.eval_shape(lambda k, a, kw: Two(False).init(k, a, kw), key, a, kw)
    else:
      (y, z), p = jax.jit(lambda k, a, kw: Two(False).init_with_output(k, a, kw))(key, a, kw)
    rec.call()
    rec.check(len(flat(p)) == (one if share else 2 * one), 'instances share parameters or a shared instance does not', module=label, share=share)
    if share or brief:
      continue
    equal = all(np.array_equal(np.asarray(u), np.asarray(v)) for u, v in zip(tu.tree_leaves(y), tu.tree_leaves(z)))
    if seen:
      rec.check(not equal, 'two instances in one model are initialised alike', module=label)


def options_job(job, rec, e3x, jax, jnp):
  """Every option reaches the parameters (and results) it is named after."""
  nn, ops = e3x.nn, e3x.ops
  s, l = job['s'], job['l']
  tu = jax.tree_util
  n = (l + 1) ** 2
  dst, src = ops.sparse_pairwise_indices(3)
  x = jnp.asarray(nnutil.generic((3, s, n, F), salt=1))
  b = jnp.asarray(nnutil.generic((6, 1, 4, 3), salt=2))
  pairs = dict(dst_idx=dst, src_idx=src)
  key = jax.random.PRNGKey(0)

  def leaves(m, a, kw):
    p = jax.jit(lambda k, a, kw: m.init(k, *a, **kw))(key, a, kw)
    rec.call()
    return {tu.keystr(q): np.asarray(v) for q, v in tu.tree_flatten_with_path(p)[0]}

  # Options for initial values and biases of each module: (option, bias switch).
  att = {f'{w}_': f'{w}_use_bias' for w in ('query', 'key', 'value', 'output')}
  cases = [('Dense', nn.Dense, dict(features=5), (x,), {}, {'': 'use_bias'}, ())]
  for fused in (False, True):
    t = dict(use_fused_tensor=fused)
    cases.append(('TensorDense', nn.TensorDense, t, (x,), {}, {'dense_': 'use_bias'}, ('tensor_kernel_init',)))
    cases.append(('MessagePass', nn.MessagePass, t, (x, b), pairs, {'dense_': 'use_basis_bias'}, ('tensor_kernel_init',)))
    cases.append(('SelfAttention', nn.SelfAttention, dict(t, num_heads=2), (x, b), pairs, {'dense_': 'use_basis_bias', **att}, ('tensor_kernel_init',)))
    cases.append(('MultiHeadAttention', nn.MultiHeadAttention, dict(t, num_heads=2), (x, x, b), pairs, {'dense_': 'use_basis_bias', **att}, ('tensor_kernel_init',)))
  mine = [(0, 3), (1, 2, 4), (5, 6, 7), (8,)][job['part']]
  if job['tier'] == 'quick':  # Each attention layer with one kind of product.
    mine = [i for i in mine if i not in ((4, 7) if l else (3, 8))]
  cases = [cases[i] for i in mine]
  types = [(jnp.bfloat16, jnp.float16, jnp.float32), (jnp.float32, jnp.bfloat16, jnp.float64), (jnp.float64, jnp.float32, jnp.float32), (jnp.float32, jnp.float64, jnp.float32), (jnp.bfloat16, jnp.bfloat16, jnp.float32)]
  if job['tier'] == 'thorough':
    types = list(itertools.product((jnp.bfloat16, jnp.float32, jnp.float64), (jnp.float16, jnp.bfloat16, jnp.float32, jnp.float64), (jnp.float32, jnp.float64)))
  for name, cls, fixed, a, kw, layers, extra in cases:
    const = jax.nn.initializers.constant
    off = {sw: False for sw in layers.values()}
    on = {sw: True for sw in layers.values()}
    rec.case = (name, s, l, str(fixed))
    none, every = leaves(cls(**fixed, **off), a, kw), leaves(cls(**fixed, **on), a, kw)
    rec.check(set(none) <= set(every), 'a bias removes other parameters', module=name)
    added, kernels = {}, {}
    for prefix, sw in layers.items():
      rec.state('options', name, s, l, str(fixed), sw)
      got = leaves(cls(**fixed, **{**off, sw: True}, **{prefix + 'bias_init': const(0.625)}), a, kw)
      rec.check(set(none) <= set(got) <= set(every), 'a bias switch changes other parameters', module=name, option=sw)
      added[sw] = set(got) - set(none)
      rec.check(bool(added[sw]), 'a bias is requested but missing', module=name, option=sw)
      rec.check(all((got[q] == 0.625).all() for q in added[sw]), 'the initial value of a bias is ignored', module=name, option=prefix + 'bias_init')
      rec.check(all(np.array_equal(got[q], none[q]) for q in none), 'a bias changes the initial values of other parameters', module=name, option=sw)
      got = leaves(cls(**fixed, **off, **{prefix + 'kernel_init': const(0.625)}), a, kw)
      rec.check(set(got) == set(none), 'an initialiser changes the structure of the parameters', module=name, option=prefix + 'kernel_init')
      kernels[prefix] = {q for q in got if (got[q] == 0.625).all()}
      rec.check(bool(kernels[prefix]), 'an initialiser is ignored', module=name, option=prefix + 'kernel_init')
      rec.check(all(np.array_equal(got[q], none[q]) for q in set(got) - kernels[prefix]), 'an initialiser changes other parameters', module=name, option=prefix + 'kernel_init')
    for option in extra:
      rec.state('options', name, s, l, str(fixed), option)
      init = (lambda *_, **__: const(0.625)) if fixed['use_fused_tensor'] else const(0.625)
      got = leaves(cls(**fixed, **off, **{option: init}), a, kw)
      kernels[option] = {q for q in got if (got[q] == 0.625).all()}
      rec.check(bool(kernels[option]), 'an initialiser is ignored', module=name, option=option)
    # The options are responsible for disjoint sets that exhaust all parameters.
    for sets, whole in ((added, set(every) - set(none)), (kernels, set(none))):
      union = set().union(*sets.values())
      rec.check(union == whole, 'some parameters cannot be controlled by options', module=name, leaves=sorted(whole ^ union))
      rec.check(sum(map(len, sets.values())) == len(union), 'two options control the same parameter', module=name, sets=str(sets))
    rec.outcome((name, len(none), len(every)))
    # Results: what each layer does.
    if not name.endswith('Attention'):
      continue
    base = dict(fixed, use_relative_positional_encoding_v=False, use_relative_positional_encoding_qk=False)
    base.update(off, output_use_bias=False)
    run = lambda **o: np.asarray(cls(**{**base, **o}).init_with_output(key, *(jnp.asarray(u) for u in a), **kw)[0])
    zero = const(0.0)
    rec.state('roles', name, s, l, str(fixed))
    rec.call(8)
    normal = run()
    rec.check(bool((np.abs(normal).max() > 1e-3)), 'attention does not give anything', module=name)
    rec.check(not run(value_kernel_init=zero).any(), 'without values there is a result', module=name)
    rec.check(not run(output_kernel_init=zero).any(), 'without output layer there is a result', module=name)
    rec.check(bool(run(value_kernel_init=zero, value_use_bias=True, value_bias_init=const(1.0)).any()), 'the bias of values has no effect', module=name)
    rec.check(not run(output_kernel_init=zero, value_use_bias=True, value_bias_init=const(1.0)).any(), 'the bias of values acts behind the output layer', module=name)
    uniform = [run(**{k: zero}) for k in ('query_kernel_init', 'key_kernel_init')]
    rec.close(uniform[0], uniform[1], 'without queries or keys the weights are not uniform', tol=1e-9, module=name)
    rec.check(np.abs(uniform[0] - normal).max() > 1e-6, 'queries and keys do not matter', module=name)
    # A constant added to all scalars of the query (key) is invisible if keys
    # (queries) are zero; a bias of the keys changes nothing but the weights.
    rec.close(run(query_kernel_init=zero, key_use_bias=True, key_bias_init=const(3.0)), uniform[0], 'the bias of keys acts without queries', tol=1e-9, module=name)
    rec.close(run(key_kernel_init=zero, query_use_bias=True, query_bias_init=const(3.0)), uniform[0], 'the bias of queries acts without keys', tol=1e-9, module=name)
  # Requested type of the result.
  for name, cls, fixed, a, kw, _, _ in cases:
    if name in ('TensorDense', 'MessagePass'):
      continue
    for given, want, param in types:
      rec.state('computation dtype', name, s, l, str(fixed), given.__name__, want.__name__, param.__name__)
      rec.call()
      arr = tuple(jax.ShapeDtypeStruct(u.shape, given) for u in a)
      y, p = jax.eval_shape(lambda *u: cls(**fixed, dtype=want, param_dtype=param).init_with_output(key, *u, **kw), *arr)
      rec.check(y.dtype == want, 'the result does not have the requested dtype', module=name, given=given.__name__, want=want.__name__, got=str(y.dtype))
      rec.check(all(v.dtype == param for v in tu.tree_leaves(p)), 'parameters do not have the requested dtype', module=name, want=param.__name__)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  jax.config.update('jax_enable_x64', True)
  nn, ops = e3x.nn, e3x.ops
  opt = lambda cls, *a, **o: lambda **extra: cls(*a, **o, **extra)

  full = job.get('tier') == 'thorough'
  if job['kind'] == 'atomwise':
    s, l = job['s'], job['l']
    one = [(nm, tuple(a), {}) for nm, a in inputs_atomwise(s, l, 1)]
    two = [(nm, tuple(a), {}) for nm, a in inputs_atomwise(s, l, 2)]
    part = iter(range(10**6))
    mine = lambda: next(part) % 4 == job['part']
    for bias in (True, False):
      if mine():
        examine(rec, ('Dense', s, l, bias), opt(nn.Dense, 5, use_bias=bias), one, jax, jnp)
    for fused, pseudo, deg in itertools.product((False, True), (True, False), (None, 0, 1)):
      if deg is not None and deg > 2 * l:
        continue
      kw = dict(include_pseudotensors=pseudo, max_degree=deg)
      cls = nn.FusedTensor if fused else nn.Tensor
      which = pseudo + (deg or 0) + (deg is None) + fused
      if (which % 2 or full) and mine():
        examine(rec, (cls.__name__, s, l, pseudo, deg), opt(cls, **kw), two, jax, jnp, brief=not full)
      if (which % 2 == 0 or full) and (deg is None or deg <= l) and mine():
        examine(rec, ('TensorDense', fused, s, l, pseudo, deg), opt(nn.TensorDense, F, use_fused_tensor=fused, **kw), one, jax, jnp, brief=not full)
  elif job['kind'] == 'pair':
    s, l, name = job['s'], job['l'], job['mod']
    variants = inputs_pair(s, l, name, ops)
    if not full and l == 2:  # Every variant takes part for l < 2.
      variants = variants[:2] + variants[2 + s::2]
    options = [dict(), dict(include_pseudotensors=False, max_degree=0)]
    if name != 'MessagePass':
      options = [dict(o, num_heads=2) for o in options] + [dict(num_heads=2, use_relative_positional_encoding_v=False, use_basis_bias=True)]
    else:
      options += [dict(use_basis_bias=True)]
    cls = getattr(nn, name)
    for i, o in enumerate(options):
      if not full and i == (s + l) % 3:
        continue
      examine(rec, (name, i, job['fused'], s, l), opt(cls, use_fused_tensor=job['fused'], **o), variants, jax, jnp, brief=not full)
  elif job['kind'] == 'options':
    options_job(job, rec, e3x, jax, jnp)
  else:
    idx = [(nm, (a,), {}) for nm, a in (('3', np.array([0, 1, 2])), ('scalar', np.array(1)), ('batch', np.zeros((2, 2), int)), ('uint8', np.array([3], np.uint8)), ('none', np.zeros(0, int)))]
    examine(rec, ('Embed',), opt(nn.Embed, 4, F), idx, jax, jnp)
    base = [(f'batch {b}', (nnutil.generic((*b, 3), salt=3),), {}) for b in ((4,), (), (2, 2), (0,))]
    base += [('zero', (np.zeros((2, 3)),), {}), ('nan', (np.full((2, 3), np.nan),), {})]
    for gamma in (0.1, 1.0, 7.5):

      def make(gamma=gamma, **extra):
        import flax.linen as fnn

        class Wrapped(fnn.Module):

          @fnn.compact
          def __call__(self, r):
            return nn.ExponentialBasis(initial_gamma=gamma, **extra)(
                r, max_degree=1, num=3, radial_fn=nn.exponential_bernstein, cutoff_fn=nn.smooth_cutoff)

        return Wrapped()

      examine(rec, ('ExponentialBasis', gamma), make, base, jax, jnp)

"""Malformed requests are rejected, well-formed ones are served.

Shapes of features, index lists and options that do not fit together would
often still broadcast to *something*; the library promises an error instead
(and, conversely, to serve every request that is well-formed).  Each job
enumerates a grid of requests, most of them by abstract evaluation of the real
code, and compares accepted / rejected and the shape of the result with a model
of the documented rules.
"""

import itertools

import numpy as np

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = (
    'all requests in grids of shapes and options: features of rank 0..4 (parity'
    ' size 0..3, degree size 0..17, empty batches) x unary operations; pairs of'
    ' shapes x maximum degree for sums and tensor products; every subset of the'
    ' index arguments x shapes x dtypes for indexed operations; every subset of'
    ' up to 3 modifications of a valid call of message passing and attention;'
    ' degrees, ranks and option values of so3, matrix, initialisers and basis'
    ' functions; every combination of empty axes (batch, atoms, pairs, features) x'
    ' operation, also differentiated: accepted exactly if the documented conditions hold, with the'
    ' documented shape; the same when evaluated abstractly and (where values'
    ' exist) eagerly'
)
ASSUMPTIONS = [
    'any exception counts as a rejection',
    'requests on which the documentation is silent are not enumerated',
]
TABLES = dict(quick=(2, 0), thorough=(4, 0))


def plan(tier):
  jobs = [dict(kind='features', part=p, tier=tier) for p in range(4)]
  jobs += [dict(kind='empty', part=p) for p in range(4)]
  jobs += [dict(kind='add'), dict(kind='so3'), dict(kind='options'), dict(kind='indexed')]
  for fused in (False, True):
    for p in range(4):
      jobs.append(dict(kind='tensor', fused=fused, part=p, tier=tier))
  for mod in ('MessagePass', 'MessagePassBasis', 'SelfAttention', 'MultiHeadAttention'):
    for fmt in ('dense', 'sparse'):
      jobs.append(dict(kind='layer', mod=mod, fmt=fmt, tier=tier))
  return jobs


def weight(job):
  return dict(empty=30, layer=10, tensor=25, indexed=15, so3=12).get(job['kind'], 5)


def degree_of(size):
  r = round(size**0.5)
  return r - 1 if size > 0 and r * r == size else None


def is_feature(shape):
  return len(shape) >= 3 and shape[-3] in (1, 2) and degree_of(shape[-2]) is not None


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  jax.config.update('jax_enable_x64', True)
  S = lambda shape, dtype=jnp.float32: jax.ShapeDtypeStruct(tuple(shape), dtype)
  shapes = lambda t: tuple(tuple(np.shape(v)) for v in jax.tree_util.tree_leaves(t))

  def ask(f, *args):
    """Shapes of the result, or None if the request is rejected."""
    rec.call()
    try:
      return shapes(jax.eval_shape(f, *args))
    except Exception:  # pylint: disable=broad-exception-caught
      return None

  def ask_values(f, *args):
    rec.call()
    try:
      return shapes(f(*args))
    except Exception:  # pylint: disable=broad-exception-caught
      return None

  def expect(key, got, want):
    """want: None (must be rejected), 'skip' or tuple of shapes."""
    if isinstance(want, str):
      return
    rec.state(*key)
    rec.outcome((key[0], want is None))
    if want is None:
      rec.check(got is None, 'a malformed request is accepted', request=key, result=got)
    else:
      want = tuple(map(tuple, want))
      rec.check(got is not None, 'a well-formed request is rejected', request=key)
      rec.check(got == want, 'the result has the wrong shape', request=key, result=got, expected=want)

  globals()['job_' + job['kind']](job, e3x, jax, jnp, S, ask, ask_values, expect)


def feature_shapes():
  out = [(), (4,), (1, 4), (2, 4), (4, 2), (0,), (0, 4)]
  for lead in ((), (2,), (0,)):
    for s, n, f in itertools.product(range(4), range(18), (1, 2)):
      out.append((*lead, s, n, f))
  return out


def job_features(job, e3x, jax, jnp, S, ask, ask_values, expect):
  nn = e3x.nn
  key = jax.random.PRNGKey(0)
  for shape in feature_shapes()[job['part'] :: 4]:
    ok = is_feature(shape)
    x = S(shape)
    expect(('reflect', shape), ask(nn.reflect, x), (shape,) if ok else None)
    if ok:
      expect(('reflect eager', shape), ask_values(nn.reflect, jnp.zeros(shape)), (shape,))
    else:
      expect(('reflect eager', shape), ask_values(nn.reflect, jnp.zeros(shape)), None)
    for degree, pseudo in itertools.product((None, -2, -1, 0, 1, 3), (None, False, True)):
      want = None
      if ok and (degree is None or degree >= 0):
        n = shape[-2] if degree is None else (degree + 1) ** 2
        s = shape[-3] if pseudo is None else 1 + pseudo
        want = ((*shape[:-3], s, n, shape[-1]),)
      f = lambda x: nn.change_max_degree_or_type(x, max_degree=degree, include_pseudotensors=pseudo)
      expect(('change', shape, degree, pseudo), ask(f, x), want)
    for use_bias in (False, True):
      f = lambda x: nn.Dense(3, use_bias=use_bias).init_with_output(key, x)[0]
      expect(('Dense', shape, use_bias), ask(f, x), ((*shape[:-1], 3),) if ok else None)
    for fact in (nn.relu, nn.silu, nn.hard_tanh):
      # (Activations only require the three axes.)
      want = None if len(shape) < 3 else (shape,)
      if ok or want is None:
        expect((fact.__name__, shape), ask(fact, x), want)
    for mat in ((), (1,), (1, 4), (4, 4), (1, 1), (9, 9), (4, 9), (2, 4, 4), (2, 1, 1), (3, 4, 4), (0, 4, 4), (2, 2, 4, 4)):
      fits = ok and len(mat) >= 2 and mat[-2:] == (shape[-2],) * 2
      fits = fits and (len(mat) == 2 or mat[:-2] == shape[:-3])
      expect(('rotate', shape, mat), ask(nn.rotate, x, S(mat)), (shape,) if fits else None)


POOL = [
    (1, 1, 2), (2, 1, 2), (1, 4, 2), (2, 4, 2), (1, 9, 2), (1, 4, 3), (1, 4, 1),
    (3, 4, 2), (0, 4, 2), (1, 0, 2), (1, 5, 2), (2, 8, 2), (4, 2),
]


def job_add(job, e3x, jax, jnp, S, ask, ask_values, expect):
  def want_of(*given):
    ok = all(map(is_feature, given))
    if not ok or len({(g[:-3], g[-1]) for g in given}) > 1:
      return None
    return ((*given[0][:-3], max(g[-3] for g in given), max(g[-2] for g in given), given[0][-1]),)

  f = lambda *a: e3x.nn.add(*a)
  leads = ((), (2,), (3,), (0,), (2, 3), (1,))
  every = [(*lead, *p) for lead in leads for p in POOL]
  for a in every:
    expect(('add', a), ask(f, S(a)), want_of(a))
  for a, b in itertools.product(every, repeat=2):
    if (a[:-3] != b[:-3]) and POOL.index(a[-3:] if a[-3:] in POOL else a[-2:]) % 3:
      continue
    expect(('add', a, b), ask(f, S(a), S(b)), want_of(a, b))
  for a, b, c in itertools.product(POOL[1:6] + POOL[9:11], repeat=3):
    expect(('add', a, b, c), ask(f, S(a), S(b), S(c)), want_of(a, b, c))
  # Different types are not mixed silently.
  types = (jnp.float32, jnp.float64, jnp.bfloat16, jnp.float16)
  for t, u in itertools.product(types, repeat=2):
    expect(('add types', str(t), str(u)), ask(f, S((1, 4, 2), t), S((2, 1, 2), u)), ((2, 4, 2),) if t is u else None)
  expect(('add nothing',), ask(f), None)


def job_tensor(job, e3x, jax, jnp, S, ask, ask_values, expect):
  nn = e3x.nn
  key = jax.random.PRNGKey(0)
  fused = job['fused']
  make = nn.FusedTensor if fused else nn.Tensor
  zeros = lambda key, shape, dtype=jnp.float32: jnp.zeros(shape, dtype)
  opts = dict(kernel_init=(lambda *a, **k: zeros) if fused else zeros)
  pairs = list(itertools.product(POOL, repeat=2))
  pairs = [((*x, *a), (*y, *b)) for a, b in pairs for x, y in (((), ()),)]
  pairs += [((*x, *a), (*y, *b)) for a, b in itertools.product(POOL[:4], repeat=2) for x, y in (((2,), (2,)), ((2,), (3,)), ((2, 3), (2, 3)))]
  for a, b in pairs[job['part'] :: 4]:
    ok = is_feature(a) and is_feature(b) and a[-1] == b[-1]
    ok = ok and a[:-3] == b[:-3]
    l1, l2 = degree_of(a[-2]), degree_of(b[-2])
    tops = [None, 1] if not ok else [None, *range(l1 + l2 + 2)]
    for top, pseudo in itertools.product(tops, (False, True)):
      if not ok and pseudo != (top is None):
        continue
      want = None
      if ok:
        l3 = max(l1, l2) if top is None else top
        if l3 <= l1 + l2:
          s = 1 + pseudo
          if a[-3] == b[-3] == 1 and 0 in (l1, l2, l3):
            s = 1  # (No pseudotensors can arise.)
          want = ((*a[:-3], s, (l3 + 1) ** 2, a[-1]),)
      f = lambda x, y: make(max_degree=top, include_pseudotensors=pseudo, **opts).init_with_output(key, x, y)[0]
      expect(('FusedTensor' if fused else 'Tensor', a, b, top, pseudo), ask(f, S(a), S(b)), want)
    if b == POOL[0]:
      for bias, pseudo in itertools.product((False, True), repeat=2):
        f = lambda x: nn.TensorDense(
            features=3, use_bias=bias, include_pseudotensors=pseudo, use_fused_tensor=fused,
        ).init_with_output(key, x)[0]
        want = None
        if is_feature(a):
          s = 1 + pseudo if a[-3] == 2 or a[-2] > 1 else 1
          want = ((*a[:-3], s, a[-2], 3),)
        expect(('TensorDense', fused, a, bias, pseudo), ask(f, S(a)), want)


def subsets(n, top):
  for k in range(top + 1):
    yield from itertools.combinations(range(n), k)


def job_indexed(job, e3x, jax, jnp, S, ask, ask_values, expect):
  ops = e3x.ops
  i32, f32 = jnp.int32, jnp.float32
  names = ('adj_idx', 'where', 'dst_idx', 'src_idx', 'num_segments')

  def call(f, static, x, kw, **more):
    return ask(lambda x, kw, more: f(x, **kw, **static, **more), x, kw, more)

  for lead in ((), (2,), (2, 4)):
    arrays = dict(
        adj_idx=S((*lead, 3, 2), i32), where=S((*lead, 3, 2), bool),
        dst_idx=S((*lead, 5), i32), src_idx=S((*lead, 5), i32),
    )
    data = dict(
        dense=(*lead, 3, 2), sparse=(*lead, 5), atoms=(*lead, 3),
        wrong=(*lead, 4, 2), flat=lead,
    )
    if len(lead) == 2:  # The same number of entries, but other batch axes.
      other = lead[::-1]
      data = dict(
          dense=(*lead, 3, 2), sparse=(*lead, 5), atoms=(*lead, 3),
          dense_swapped=(*other, 3, 2), sparse_swapped=(*other, 5), atoms_swapped=(*other, 3),
          dense_merged=(8, 3, 2), sparse_merged=(8, 5), atoms_merged=(8, 3),
      )
    reducers = (ops.indexed_sum, ops.indexed_min, ops.indexed_max, ops.indexed_softmax)
    for choice in subsets(5, 5):
      given = {names[i] for i in choice}
      kw = {k: v for k, v in arrays.items() if k in given}
      dense, sparse = 'adj_idx' in given, bool({'dst_idx', 'src_idx'} & given)
      static = dict(num_segments=3) if 'num_segments' in given else {}
      for form, tail in itertools.product(data, ((), (4,), (1, 4, 2))):
        shape = (*data[form], *tail)
        # Reductions.
        args = {k: v for k, v in kw.items() if k != 'src_idx'}
        for f in reducers:
          soft = f is ops.indexed_softmax
          for dt in (f32, i32, bool, jnp.complex64) if tail == (4,) else (f32,):
            ok = dense != ('dst_idx' in given)
            ok = ok and (('where' in given) if dense else ('num_segments' in given))
            key_shape = (*lead, 3, 2) if dense else (*lead, 5)
            ok = ok and shape[: len(key_shape)] == key_shape
            ok = ok and (dt is f32 or (dt is i32 and not soft))
            if 'src_idx' in given:
              continue
            want = None
            if ok:
              want = (shape,) if soft else ((*lead, 3, *shape[len(key_shape) :]),)
            expect((f.__name__, lead, tuple(sorted(given)), shape, str(dt)), call(f, static, S(shape, dt), args), want)
            if soft and dt is f32:
              for m in (shape, (*shape, 1), shape[:-1], (*shape[:-1], 1) if shape else ()):
                if len(m) < 1 or m == (1,):
                  continue
                w = want if m == shape else None
                expect((f.__name__, lead, tuple(sorted(given)), shape, 'mask', m), call(f, static, S(shape), args, multiplicative_mask=S(m)), w)
        # Collecting values.
        if given - {'adj_idx', 'src_idx', 'dst_idx'}:
          continue
        args = {k: v for k, v in kw.items() if k != 'dst_idx'}
        if 'dst_idx' not in given:
          ok = dense != sparse and shape[: len(lead)] == lead and len(shape) > len(lead)
          rest = shape[len(lead) + 1 :]
          want = ((*lead, 3, 2, *rest) if dense else (*lead, 5, *rest),) if ok else None
          expect(('gather_src', lead, tuple(sorted(given)), shape), call(ops.gather_src, {}, S(shape), args), want)
        if 'src_idx' not in given:
          args = {k: v for k, v in kw.items() if k != 'src_idx'}
          if sparse or not dense:
            ok = dense != sparse and shape[: len(lead)] == lead and len(shape) > len(lead)
            want = ((*lead, 5, *shape[len(lead) + 1 :]),) if ok else None
            expect(('gather_dst', lead, tuple(sorted(given)), shape), call(ops.gather_dst, {}, S(shape), args), want)
  # Lists of pairs.
  for f in (ops.dense_pairwise_indices, ops.sparse_pairwise_indices):
    for num, mask in itertools.product(range(-2, 6), (True, False)):
      pairs = num * (num - 1) if mask else num * num
      want = None
      if num >= 1:
        want = ((num, pairs // num),) if f is ops.dense_pairwise_indices else ((pairs,), (pairs,))
      expect((f.__name__, num, mask), ask_values(lambda: f(num, mask_self=mask)), want)
  for shape in ((), (3,), (3, 2), (2, 3, 2), (0, 2), (3, 0), (2, 0, 2)):
    x = jnp.zeros(shape, int)
    want = None
    if len(shape) >= 2:
      want = (((*shape[:-2], shape[-2] * shape[-1])),) * 2
    expect(('dense_to_sparse_indices', shape), ask_values(ops.dense_to_sparse_indices, x), want)
  every = ((3,), (2,), (1,), (2, 3), (3, 2), (1, 3), (0,))
  for a, b in itertools.product(every, repeat=2):
    got = ask_values(ops.sparse_to_dense_indices, jnp.zeros(a, int), jnp.zeros(b, int))
    if a != b:
      expect(('sparse_to_dense_indices', a, b), got, None)
    elif 0 in a:
      expect(('sparse_to_dense_indices', a, b), got, ((*a[:-1], 0, 0),))
    else:
      expect(('sparse_to_dense_indices', a, b), got, ((*a[:-1], 1, a[-1]),))


def job_layer(job, e3x, jax, jnp, S, ask, ask_values, expect):
  """All sets of up to 3 modifications of a valid call."""
  nn = e3x.nn
  mod, fmt = job['mod'], job['fmt']
  dense = fmt == 'dense'
  key = jax.random.PRNGKey(0)
  i32 = jnp.int32
  attention = mod in ('SelfAttention', 'MultiHeadAttention')
  multi = mod == 'MultiHeadAttention'
  use_basis = mod != 'MessagePass'

  def base():
    r = dict(
        x=(3, 2, 4, 4), lead=(), pairs=(3, 2) if dense else (5,), basis_lead=None, basis=(1, 4, 2),
        adj=dense, dst=not dense, src=not dense, src_pairs=None, opts={}, extra={}, q=None, cutoff=None,
        weights=None, positional=True,
    )
    r['basis'] = r['basis'] if use_basis else None
    return r

  mods = []

  def modification(f):
    mods.append(f)

  # Harmless ones (must stay accepted, on their own and together).
  def batched(r):
    r['lead'] = (2,)

  def small(r):
    r['x'] = (3, 1, 1, 4)

  def segments(r):
    r['extra']['num_segments'] = 3

  modification(batched)
  modification(small)
  modification(segments)
  # Defective ones.
  def no_dst(r):
    r['dst'] = False
    r['bad'] = True
    if dense:
      r['adj'] = False

  def both_kinds(r):
    r['adj'] = r['src'] = r['dst'] = True
    r['bad'] = True

  def bad_degree(r):
    r['x'] = (*r['x'][:-2], 5, 4)
    r['bad'] = True

  def bad_parity(r):
    r['x'] = (r['x'][0], 3, *r['x'][2:])
    r['bad'] = True

  def too_flat(r):
    r['x'] = r['x'][1:]
    r['bad'] = True

  modification(no_dst)
  modification(both_kinds)
  if mod != 'MessagePass':
    # (A plain sum of neighbours works for any parity and degree axes.)
    modification(bad_degree)
    modification(bad_parity)
    modification(too_flat)
  if not dense:
    def no_src(r):
      r['src'] = False
      r['bad'] = True

    def other_src(r):
      r['src_pairs'] = (4,)
      r['bad'] = True

    modification(no_src)
    modification(other_src)
  if use_basis:
    def basis_pairs(r):
      r['basis_lead'] = (4, 2) if dense else (4,)
      r['bad'] = True

    def basis_degree(r):
      r['basis'] = (1, 3, 2)
      r['bad'] = True

    def basis_rank(r):
      r['basis_lead'] = r['pairs'][:-1]
      r['bad'] = True

    def high(r):
      r['opts']['max_degree'] = 9
      r['bad'] = True

    modification(basis_pairs)
    modification(basis_degree)
    modification(basis_rank)
    modification(high)
  if attention:
    def heads(r):
      r['opts']['num_heads'] = 3  # (Does not divide the number of features.)
      r['bad'] = True

    def projected(r):
      r['opts'].update(qkv_features=6, num_heads=r['opts'].get('num_heads', 2))
      if r['opts']['num_heads'] == 3:
        r['bad_heads_ok'] = True

    def cutoff(r):
      r['cutoff'] = 'ok'

    def bad_cutoff(r):
      r['cutoff'] = 'bad'
      r['bad'] = True

    def no_basis(r):
      r['basis'] = None
      r['bad'] = True

    def no_position(r):
      r['opts'].update(use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False)

    def out(r):
      r['opts']['out_features'] = 7

    modification(heads)
    modification(out)
    modification(cutoff)
    modification(bad_cutoff)
    modification(no_basis)
    modification(projected)
    del no_position
  if multi:
    def other_atoms(r):
      # Queries for another number of atoms (documented), same batch.
      r['q'] = 3 if dense else 4

    def other_lead(r):
      r['q_lead'] = (3,)
      r['bad'] = True

    def other_features(r):
      # Queries with another number of features (which the result has, too).
      r['q_features'] = 6

    modification(other_atoms)
    modification(other_lead)
    modification(other_features)
  if mod == 'MessagePass':
    def weights(r):
      r['weights'] = 'ok'

    def bad_weights(r):
      r['weights'] = 'bad'
      r['bad'] = True

    modification(weights)
    modification(bad_weights)

  zeros = lambda key, shape, dtype=jnp.float32: jnp.zeros(shape, dtype)
  depth = 3 if job['tier'] == 'thorough' else 2
  for choice in subsets(len(mods), depth):
    names = tuple(mods[i].__name__ for i in choice)
    if len(choice) > 2 and 'batched' not in names and job['tier'] == 'quick':
      continue
    r = base()
    for i in choice:
      mods[i](r)
    bad = r.get('bad', False)
    if 'heads' in names and {'projected', 'other_features'} & set(names):
      # 6 features, 3 heads: fine, unless something else is wrong.
      rest = set(names) - {'projected', 'heads'}
      if any(n not in ('batched', 'small', 'segments', 'cutoff', 'other_atoms', 'other_features', 'out') for n in rest):
        pass
      else:
        bad = False
    if 'batched' in names and 'too_flat' in names:
      continue  # (Looks like a call without batch.)
    if 'small' in names and ('bad_degree' in names or 'bad_parity' in names):
      continue
    lead = r['lead']
    x = S((*lead, *r['x']))
    n_atoms = r['x'][0]
    kw = {}
    if r['adj']:
      kw['adj_idx'] = S((*lead, *(r['pairs'] if dense else (3, 2))), i32)
    if r['dst']:
      kw['dst_idx'] = S((*lead, *(r['pairs'] if not dense else (5,))), i32)
    if r['src']:
      kw['src_idx'] = S((*lead, *(r['src_pairs'] or (r['pairs'] if not dense else (5,)))), i32)
    args = [x]
    static = dict(r['extra'])
    if r['basis'] is not None:
      pairs = r['pairs'] if r['basis_lead'] is None else r['basis_lead']
      args.append(S((*lead, *pairs, *r['basis'])))
    else:
      args.append(None)
    full = (*lead, *r['pairs'])
    if r['cutoff']:
      args.append(S(full if r['cutoff'] == 'ok' else (*full[:-1], full[-1] + 1)))
    if r['weights']:
      kw['weights'] = S((*full, 1, 1, 1) if r['weights'] == 'ok' else (*full[:-1], full[-1] + 1, 1, 1, 1))
    opts = dict(r['opts'])
    if attention:
      opts.setdefault('num_heads', 2)
    atoms_out = n_atoms
    if multi:
      n_q = r['q'] or n_atoms
      q = S((*r.get('q_lead', lead), n_q, *r['x'][1:-1], r.get('q_features', r['x'][-1])) if 'too_flat' not in names else r['x'])
      args = [q, *args]
      atoms_out = n_q
      if 'segments' in names and n_q != 3:
        continue
    cls = dict(MessagePass='MessagePass', MessagePassBasis='MessagePass').get(mod, mod)
    make = lambda: getattr(nn, cls)(**opts)

    def f(args, kw):
      args = list(args)
      return make().init_with_output(key, *args, **kw, **static)[0]

    got = ask(f, args, kw)
    want = None
    if not bad:
      s, n, c = r['x'][1:]
      c = opts.get('out_features', r.get('q_features', c))
      l = degree_of(n)
      if cls == 'MessagePass' and not use_basis:
        want = ((*lead, 3, s, n, c),)
      else:
        lb = degree_of(r['basis'][1])
        l3 = max(l, lb)
        # (Scalars without pseudotensors do not create any.)
        s3 = 1 if s == 1 and r['basis'][0] == 1 and 0 in (l, lb, l3) else 2
        want = ((*lead, atoms_out, s3, (l3 + 1) ** 2, c),)
    expect((mod, fmt, names), got, want)


def job_so3(job, e3x, jax, jnp, S, ask, ask_values, expect):
  so3 = e3x.so3
  degrees = range(-3, 4)
  harmonics = (so3.spherical_harmonics, so3.solid_harmonics)
  # Spherical and solid harmonics.
  for shape in ((), (0,), (1,), (2,), (3,), (4,), (5,), (2, 3), (3, 2), (0, 3), (2, 0, 3)):
    ok = len(shape) >= 1 and shape[-1] == 3
    for l, f in itertools.product(degrees, harmonics):
      want = ((*shape[:-1], (l + 1) ** 2),) if ok and l >= 0 else None
      expect((f.__name__, shape, l), ask(lambda r: f(r, l), S(shape)), want)
      got = ask(lambda r: f(r, l, cartesian_order=False), S(shape))
      expect((f.__name__, 'options', shape, l), got, want)
      if l == 2 or shape == (3,):
        expect((f.__name__, 'values', shape, l), ask_values(lambda: f(jnp.ones(shape), l)), want)
  for norm, l in itertools.product(('racah', '4pi', 'orthonormal', 'schmidt', 'Racah', '', 'none', '4PI'), (0, 2)):
    ok = norm in ('racah', '4pi', 'orthonormal', 'schmidt')
    got = ask(lambda r: so3.spherical_harmonics(r, l, normalization=norm), S((3,)))
    expect(('spherical_harmonics', norm, l), got, (((l + 1) ** 2,),) if ok else None)
    got = ask(lambda x: so3.tensor_to_irreps(x, l, normalization=norm), S((3,) * l or (1,)))
    expect(('tensor_to_irreps', norm, l), got, ((2 * l + 1,),) if ok else None)
    got = ask(lambda x: so3.irreps_to_tensor(x, l, normalization=norm), S((2 * l + 1,)))
    expect(('irreps_to_tensor', norm, l), got, ((3,) * l or (1,),) if ok else None)
  # Tensors.
  tensors = [
      (), (1,), (3,), (3, 3), (3, 3, 3), (2, 3), (2, 3, 3), (2, 1), (9,), (3, 2), (5,), (2, 5),
      (7,), (3, 1), (3, 3, 1), (0, 3), (0, 3, 3), (2, 0, 1), (4, 3, 3, 3), (0,), (3, 5),
  ]
  for shape, l in itertools.product(tensors, range(-2, 4)):
    tail = (3,) * l if l > 0 else (1,)
    front = shape[: max(len(shape) - len(tail), 0)]
    ok = l >= 0 and shape == (*front, *tail)
    got = ask(lambda x: so3.tensor_to_irreps(x, l), S(shape))
    expect(('tensor_to_irreps', shape, l), got, ((*front, 2 * l + 1),) if ok else None)
    if 0 not in shape:
      got = ask_values(lambda: so3.is_traceless_symmetric(jnp.zeros(shape), l))
      expect(('is_traceless_symmetric', shape, l), None if got is None else (), () if ok else None)
    if shape:
      ok = l >= 0 and shape[-1] == 2 * l + 1
      got = ask(lambda x: so3.irreps_to_tensor(x, l), S(shape))
      expect(('irreps_to_tensor', shape, l), got, ((*shape[:-1], *tail),) if ok else None)
  # Rotations.
  for shape in ((), (3,), (3, 3), (2, 3, 3), (0, 3, 3), (2, 2), (3, 2), (2, 3), (4, 4), (3, 3, 2), (9,), (1, 9), (3, 3, 1)):
    ok = shape[-2:] == (3, 3)
    got = ask(so3.euler_angles_from_rotation, S(shape))
    expect(('euler_angles_from_rotation', shape), got, (shape[:-2],) * 3 if ok else None)
    for l, c in itertools.product((0, 1, 2), (True, False)):
      n = (l + 1) ** 2
      got = ask(lambda r: so3.wigner_d(r, l, cartesian_order=c), S(shape))
      expect(('wigner_d', shape, l, c), got, ((*shape[:-2], n, n),) if ok else None)
  # Coupling coefficients.
  for ls in itertools.product(range(-2, 3), repeat=3):
    ok = min(ls) >= 0
    got = ask_values(lambda: so3.clebsch_gordan(*ls))
    expect(('clebsch_gordan', ls), got, (tuple((l + 1) ** 2 for l in ls),) if ok else None)
    got = ask_values(lambda: so3.clebsch_gordan_for_degrees(*ls))
    expect(('clebsch_gordan_for_degrees', ls), got, (tuple(2 * l + 1 for l in ls),) if ok else None)
  # Quadrature grids: exactly one of precision and number of points.
  for f in (so3.lebedev_quadrature, so3.delley_quadrature):
    for precision, num in itertools.product((None, -1, 0, 3, 5), (None, -1, 0, 1, 6, 14)):
      got = ask_values(lambda: f(precision=precision, num=num))
      ok = (precision is None) != (num is None)
      key = (f.__name__, precision, num)
      if ok and got is not None:
        n = got[0][0] if got and got[0] else None
        expect(key, got, ((n, 3), (n,)))
      else:
        expect(key, got, ((1, 3), (1,)) if ok else None)


def job_options(job, e3x, jax, jnp, S, ask, ask_values, expect):
  nn = e3x.nn
  key = jax.random.PRNGKey(0)
  x = S((4,))
  for cutoff in (-np.inf, -1.0, -1e-30, -0.0, 0.0, 0, 1e-3, 1, 1.0, 2.5):
    for f in (nn.smooth_cutoff, nn.cosine_cutoff):
      want = ((4,),) if cutoff > 0 else None
      expect((f.__name__, cutoff), ask(lambda x: f(x, cutoff), x), want)
      expect((f.__name__, 'values', cutoff), ask_values(lambda: f(jnp.ones(4), cutoff)), want)
      expect((f.__name__, 'derivative', cutoff), ask(jax.grad(lambda x: f(x, cutoff).sum()), x), want)
  edges = (-2.0, -1.0, 0.0, 0.5, 1.0, 1.5, 2.0)
  for x0, x1 in itertools.product(edges, repeat=2):
    want = ((4,),) if x0 < x1 else None
    f = lambda x: nn.smooth_switch(x, x0, x1)
    expect(('smooth_switch', x0, x1), ask(f, x), want)
    expect(('smooth_switch', 'derivative', x0, x1), ask(jax.grad(lambda x: f(x).sum()), x), want)
  kinds = ('shifted', 'damped', 'cuspless', 'Shifted', '', 'exponential', 'none')
  for kind in kinds:
    ok = kind in kinds[:3]
    expect(('reciprocal_mapping', kind), ask(lambda x: nn.reciprocal_mapping(x, kind), x), ((4,),) if ok else None)
    for family, num, w in itertools.product(('bernstein', 'chebyshev', 'fourier', 'gaussian'), (-1, 0, 1, 3), (True, False)):
      f = getattr(nn, 'reciprocal_' + family)
      got = ask(lambda x: f(x, num, kind=kind, use_reciprocal_weighting=w), x)
      expect((f.__name__, kind, num, w), got, ((4, num),) if ok and num >= 2 else 'skip' if num == 1 and ok else None)
  for family, num, shape in itertools.product(('bernstein', 'chebyshev', 'fourier', 'gaussian'), (-3, -1, 0, 2, 5), ((), (4,), (0,), (2, 3))):
    want = ((*shape, num),) if num >= 1 else None
    for prefix, opts in (('basic', dict(limit=[1.0, 2.0])), ('exponential', dict(gamma=[1.0, 2.0], cuspless=[False, True], use_exponential_weighting=[False, True]))):
      f = getattr(nn, f'{prefix}_{family}')
      for values in itertools.product(*opts.values()):
        kw = dict(zip(opts, values))
        expect((f.__name__, num, shape, str(kw)), ask(lambda x: f(x, num, **kw), S(shape)), want)
  # Radial-angular basis functions.
  cut = lambda r: nn.smooth_cutoff(r, 5.0)
  for shape in ((0,), (1,), (2,), (3,), (4,), (2, 3), (3, 2), (0, 3)):
    for l, with_cut, ret_cut, ret_norm in itertools.product((-1, 0, 2), (False, True), (False, True), (False, True)):
      ok = shape[-1] == 3 and l >= 0 and (with_cut or not ret_cut)
      want = [(*shape[:-1], 1, (l + 1) ** 2, 4)] + [shape[:-1]] * (ret_cut + ret_norm) if ok else None
      f = lambda r: nn.basis(
          r, max_degree=l, num=4, radial_fn=nn.basic_bernstein, cutoff_fn=cut if with_cut else None,
          return_cutoff=ret_cut, return_norm=ret_norm,
      )
      expect(('basis', shape, l, with_cut, ret_cut, ret_norm), ask(f, S(shape)), want)
  # Embeddings take integers only.
  for dt in (jnp.int32, jnp.int8, jnp.uint8, jnp.int64, jnp.float32, jnp.float64, jnp.bfloat16, jnp.complex64, bool):
    for shape in ((), (3,), (2, 3), (0,)):
      f = lambda i: nn.Embed(num_embeddings=5, features=3).init_with_output(key, i)[0]
      want = ((*shape, 1, 1, 3),) if jnp.issubdtype(dt, jnp.integer) else None
      expect(('Embed', str(dt), shape), ask(f, S(shape, dt)), want)
  # Derivatives, lists of initial values, initialisers.
  for order in range(-3, 4):
    got = ask(lambda x: e3x.ops.evaluate_derivatives(jnp.sin, x, max_order=order), x)
    expect(('evaluate_derivatives', order), got, ((4,),) * (order + 1) if order >= 0 else None)
  init = nn.initializers
  good = (2, 2, 2, 2, 2, 2, 3)
  for k in range(0, 10):
    shape = (good + (3, 3))[:k]
    f = lambda: init.tensor_lecun_normal()(key, shape)
    expect(('initialiser', shape), ask(f), (shape,) if k == 7 else None)
  for pos, size in itertools.product((0, 2, 4), (0, 1, 2, 3, 4)):
    shape = tuple(size if i == pos else v for i, v in enumerate(good))
    f = lambda: init.tensor_glorot_uniform()(key, shape)
    expect(('initialiser', shape), ask(f), (shape,) if size in (1, 2) else None)
  modes = ('fan_in', 'fan_out', 'fan_avg', 'fan', '', 'FAN_IN')
  laws = ('truncated_normal', 'normal', 'uniform', 'Normal', '', 'cauchy')
  for mode, law in itertools.product(modes, laws):
    f = lambda: init.tensor_variance_scaling(1.0, mode, law)(key, good)
    ok = mode in modes[:3] and law in laws[:3]
    expect(('variance scaling', mode, law), ask(f), (good,) if ok else None)
  # Matrices made of irreps.
  for degrees, top in itertools.product(((0,), (1,), (0, 1), (1, 1)), (0, 1, 2)):
    for wrong in ('no', 'even', 'rank', 'few'):
      from e3x.matrix import matmat
      have = matmat.make_dict_irreps_mult(degrees, top)
      irreps = [jnp.ones((2 * l + 1, max(1, have.get(l, 0)))) for l in range(top + 1)]
      if wrong == 'even':
        irreps[-1] = jnp.ones((2 * top + 2, irreps[-1].shape[1]))
      if wrong == 'rank':
        irreps[0] = jnp.ones((1,))
      if wrong == 'few':
        if have.get(0, 0) < 1:
          continue
        irreps[0] = irreps[0][:, :-1]
      side = sum(2 * l + 1 for l in degrees)
      f = lambda *irr: e3x.matrix.make_square_matrix(list(irr), degrees, 1, top, False, None)
      ok = wrong == 'no' and top >= max(degrees)
      got = ask(f, *irreps)
      expect(('make_square_matrix', degrees, top, wrong), got, ((side, side),) if ok else None)


def job_empty(job, e3x, jax, jnp, S, ask, ask_values, expect):
  """Nothing is special about axes of size zero."""
  nn, ops, so3 = e3x.nn, e3x.ops, e3x.so3
  key = jax.random.PRNGKey(0)
  i32 = jnp.int32
  leads = ((), (0,), (2,), (0, 2), (2, 0))

  def try_both(name, f, args, want, diff=0):
    expect((*name, 'value'), ask(f, *args), want)
    if diff is not None:

      def total(x, *rest):
        out = f(*rest[:diff], x, *rest[diff:])
        return sum(jnp.sum(o) for o in jax.tree_util.tree_leaves(out))

      rest = args[:diff] + args[diff + 1 :]
      expect((*name, 'gradient'), ask(jax.grad(total), args[diff], *rest), (args[diff].shape,))

  if job['part'] == 0:
    for lead, n, p, f in itertools.product(leads, (0, 1, 3), (0, 1, 2), (0, 4)):
      adj, idx = S((*lead, n, p), i32), S((*lead, p), i32)
      x, y, z = S((*lead, n, f)), S((*lead, n, p, f)), S((*lead, p, f))
      where = S((*lead, n, p), bool)
      at = (lead, n, p, f)
      if p and not n:  # (Nothing can be read from no atoms.)
        continue
      try_both(('gather_src dense', *at), lambda x, i: ops.gather_src(x, adj_idx=i), (x, adj), ((*lead, n, p, f),))
      try_both(('gather_dst dense', *at), lambda x, i: ops.gather_dst(x, adj_idx=i), (x, adj), ((*lead, n, 1, f),))
      try_both(('gather_src', *at), lambda x, i: ops.gather_src(x, src_idx=i), (x, idx), ((*lead, p, f),))
      try_both(('gather_dst', *at), lambda x, i: ops.gather_dst(x, dst_idx=i), (x, idx), ((*lead, p, f),))
      for red in (ops.indexed_sum, ops.indexed_min, ops.indexed_max, ops.indexed_softmax):
        soft = red is ops.indexed_softmax
        try_both((red.__name__, 'dense', *at), lambda y, i, w: red(y, adj_idx=i, where=w), (y, adj, where), ((*lead, n, p, f) if soft else (*lead, n, f),))
        try_both((red.__name__, *at), lambda z, i: red(z, dst_idx=i, num_segments=n), (z, idx), ((*lead, p, f) if soft else (*lead, n, f),))
  elif job['part'] == 1:
    for lead, n, p, fmt in itertools.product(leads[:4], (0, 2), (0, 2), ('dense', 'sparse')):
      if p and not n:
        continue
      x = S((*lead, n, 2, 4, 4))
      pairs = (*lead, n, p) if fmt == 'dense' else (*lead, p)
      b, c, idx = S((*pairs, 1, 4, 3)), S(pairs), S(pairs, i32)
      kw = (lambda i: dict(adj_idx=i)) if fmt == 'dense' else (lambda i: dict(dst_idx=i, src_idx=i))
      for fused in (fmt == 'dense',):
        run = lambda m, *a, **k: m.init_with_output(key, *a, **k)[0]
        at = (lead, n, p, fmt, fused)
        f = lambda x, b, c, i: run(nn.MessagePass(use_fused_tensor=fused), x, b, **kw(i))
        try_both(('MessagePass', *at), f, (x, b, c, idx), (x.shape,), 1)
        f = lambda x, b, c, i: run(nn.SelfAttention(num_heads=2, use_fused_tensor=fused), x, b, c, **kw(i))
        try_both(('SelfAttention', *at), f, (x, b, c, idx), (x.shape,), 1)
        f = lambda x, b, c, i: run(nn.MultiHeadAttention(num_heads=2, use_fused_tensor=fused, use_relative_positional_encoding_qk=False), x, x, b, c, **kw(i))
        try_both(('MultiHeadAttention', *at), f, (x, b, c, idx), (x.shape,), 1)
  else:
    run = lambda m, *a: m.init_with_output(key, *a)[0]
    cut = lambda r: nn.smooth_cutoff(r, 5.0)
    for lead in leads[job['part'] - 2 :: 2]:
      r, rot = S((*lead, 3)), S((*lead, 3, 3))
      a = S(lead)
      for l in (0, 2):
        n = (l + 1) ** 2
        try_both(('spherical_harmonics', lead, l), lambda r: so3.spherical_harmonics(r, l), (r,), ((*lead, n),))
        try_both(('solid_harmonics', lead, l), lambda r: so3.solid_harmonics(r, l), (r,), ((*lead, n),))
        try_both(('wigner_d', lead, l), lambda r: so3.wigner_d(r, l), (rot,), ((*lead, n, n),))
        t, u = S((*lead, *((3,) * l or (1,)))), S((*lead, 2 * l + 1))
        try_both(('tensor_to_irreps', lead, l), lambda x: so3.tensor_to_irreps(x, l), (t,), (u.shape,))
        try_both(('irreps_to_tensor', lead, l), lambda x: so3.irreps_to_tensor(x, l), (u,), (t.shape,))
        expect(('is_traceless_symmetric', lead, l), ask_values(lambda: jnp.asarray(so3.is_traceless_symmetric(jnp.zeros(t.shape), l))), ((),))
        x = S((*lead, 2, n, 4))
        try_both(('rotate', lead, l), nn.rotate, (x, S((*lead, n, n))), (x.shape,))
        try_both(('reflect', lead, l), nn.reflect, (x,), (x.shape,))
        try_both(('add', lead, l), nn.add, (x, S((*lead, 1, 4, 4))), ((*lead, 2, max(n, 4), 4),))
        for top, pseudo in itertools.product((0, 1, 3), (False, True)):
          f = lambda x: nn.change_max_degree_or_type(x, top, pseudo)
          try_both(('change', lead, l, top, pseudo), f, (x,), ((*lead, 1 + pseudo, (top + 1) ** 2, 4),))
        try_both(('Dense', lead, l), lambda x: run(nn.Dense(3), x), (x,), ((*lead, 2, n, 3),))
        for fused in (False, True):
          try_both(('TensorDense', lead, l, fused), lambda x: run(nn.TensorDense(3, use_fused_tensor=fused), x), (x,), ((*lead, 2, n, 3),))
          cls = nn.FusedTensor if fused else nn.Tensor
          try_both(('Tensor', lead, l, fused), lambda x, y: run(cls(), x, y), (x, x), (x.shape,))
        for name in ('relu', 'gelu', 'silu', 'mish', 'shifted_softplus', 'hard_tanh', 'bent_identity'):
          try_both((name, lead, l), getattr(nn, name), (x,), (x.shape,))
        f = lambda r: nn.basis(r, max_degree=l, num=3, radial_fn=nn.reciprocal_bernstein, cutoff_fn=cut, damping_fn=nn.smooth_damping)
        try_both(('basis', lead, l), f, (r,), ((*lead, 1, n, 3),))
      try_both(('rotation', lead), so3.rotation, (r, a), (rot.shape,))
      try_both(('alignment_rotation', lead), so3.alignment_rotation, (r, r), (rot.shape,))
      try_both(('rotation_euler', lead), so3.rotation_euler, (a, a, a), (rot.shape,))
      try_both(('euler_angles_from_rotation', lead), so3.euler_angles_from_rotation, (rot,), (lead,) * 3)
      for name in ('basic_bernstein', 'reciprocal_chebyshev', 'exponential_gaussian', 'basic_fourier', 'sinc'):
        try_both((name, lead), lambda x: getattr(nn, name)(x, 4), (a,), ((*lead, 4),))
      for name in ('smooth_cutoff', 'cosine_cutoff', 'smooth_switch', 'smooth_damping', 'reciprocal_mapping', 'exponential_mapping'):
        try_both((name, lead), getattr(nn, name), (a,), (lead,))
      expect(('Embed', lead), ask(lambda i: run(nn.Embed(3, 4), i), S(lead, i32)), ((*lead, 1, 1, 4),))
      for axis in (None, *range(-len(lead) - 1, len(lead) + 1)):
        for keep in (False, True):
          x = np.zeros((*lead, 3), np.float32)
          want = np.sum(x, axis=axis, keepdims=keep).shape
          try_both(('norm', lead, axis, keep), lambda x: ops.norm(x, axis=axis, keepdims=keep), (r,), (want,))
        try_both(('normalize', lead, axis), lambda x: ops.normalize(x, axis=axis), (r,), (r.shape,))
    expect(('random_rotation', 0), ask(lambda: so3.random_rotation(key, num=0)), ((0, 3, 3),))

"""Feature transforms keep every (parity, degree) block where it belongs."""

import itertools

import numpy as np

from mc import ref

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = (
    'explicit-state search: model states map (parity, degree) to a block of'
    ' numbers; from every feature shape (with / without pseudotensors, maximum'
    ' degree 0..3, thorough 0..4) all sequences of operations {change maximum'
    ' degree and type (every combination), reflect, rotate (generators), add'
    ' (with every feature shape)} up to depth 3 (thorough 4) with deduplication;'
    ' every transition is executed by the implementation and compared; plus'
    ' batch ranks 0..2, dtypes, sums of up to 4 operands in every order and'
    ' invalid shapes'
)
ASSUMPTIONS = ['operations are linear: one generic integer-valued input per shape']

F = 2


def shapes(top):
  return [(s, l) for s in (1, 2) for l in range(top + 1)]


def plan(tier):
  top = 3 if tier == 'quick' else 4
  jobs = [dict(kind='search', s=s, l=l, top=top, depth=3 if tier == 'quick' else 4) for s, l in shapes(top)]
  jobs += [dict(kind='adds', part=p, parts=4, top=2 if tier == 'quick' else 3) for p in range(4)]
  jobs += [dict(kind='batch'), dict(kind='masks'), dict(kind='invalid')]
  return jobs


def weight(job):
  return job.get('l', 0) * 10 + job.get('s', 0) if job['kind'] == 'search' else 20


def initial(s, l, salt=0):
  n = s * (l + 1) ** 2 * F
  x = ((np.arange(n) * 37 + 11 + salt) % 101 - 50).astype(np.float64)
  return x.reshape(s, (l + 1) ** 2, F)


# The model: (parity, degree) -> block; "has_pseudo" and max degree.
def to_model(x):
  s, n, _ = x.shape
  l_max = round(n**0.5) - 1
  blocks = {}
  for l in range(l_max + 1):
    sl = slice(l * l, (l + 1) ** 2)
    if s == 2:
      blocks[(0, l)], blocks[(1, l)] = x[0, sl], x[1, sl]
    else:
      blocks[(l % 2, l)] = x[0, sl]
  return (s == 2, l_max, blocks)


def zeros(l):
  return np.zeros((2 * l + 1, F))


def to_array(model):
  pseudo, l_max, blocks = model
  out = np.zeros((2 if pseudo else 1, (l_max + 1) ** 2, F))
  for l in range(l_max + 1):
    sl = slice(l * l, (l + 1) ** 2)
    for p in (0, 1):
      if pseudo:
        out[p, sl] = blocks.get((p, l), zeros(l))
      elif p == l % 2:
        out[0, sl] = blocks.get((p, l), zeros(l))
  return out


def m_change(model, l_new, pseudo_new):
  pseudo, l_max, blocks = model
  l_new = l_max if l_new is None else l_new
  pseudo_new = pseudo if pseudo_new is None else pseudo_new
  keep = {
      (p, l): b
      for (p, l), b in blocks.items()
      if l <= l_new and (pseudo_new or p == l % 2)
  }
  return (pseudo_new, l_new, keep)


def m_reflect(model):
  return (model[0], model[1], {(p, l): -b if p else b for (p, l), b in model[2].items()})


def m_rotate(model, d):
  return (
      model[0],
      model[1],
      {(p, l): d[l * l : (l + 1) ** 2, l * l : (l + 1) ** 2].T @ b for (p, l), b in model[2].items()},
  )


def m_add(*models):
  l_max = max(m[1] for m in models)
  pseudo = any(m[0] for m in models)
  out = {}
  for m in models:
    for k, b in m[2].items():
      out[k] = out.get(k, 0) + b
  return (pseudo, l_max, out)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  jax.config.update('jax_enable_x64', True)
  nn = e3x.nn
  kind = job['kind']

  if kind == 'search':
    top = job['top']
    gens = [ref.rz(np.pi / 2), ref.rx(2 * np.pi / 5)]
    ds = {l: [ref.wigner_d(g, l, True) for g in gens] for l in range(top + 1)}
    others = {sl: initial(*sl, salt=7) for sl in shapes(top)}

    def successors(model):
      pseudo, l_max, _ = model
      for l_new in (None,) + tuple(range(top + 1)):
        for p_new in (None, True, False):
          if l_new is None and p_new is None:
            continue
          yield ('change', l_new, p_new), m_change(model, l_new, p_new)
      yield ('reflect',), m_reflect(model)
      for i in range(len(gens)):
        yield ('rotate', i), m_rotate(model, ds[l_max][i])
      for sl in others:
        yield ('add', *sl), m_add(model, to_model(others[sl]))

    fns = {}

    def impl(op):
      if op not in fns:
        if op[0] == 'change':
          f = lambda x: nn.change_max_degree_or_type(x, max_degree=op[1], include_pseudotensors=op[2])
        elif op[0] == 'reflect':
          f = nn.reflect
        elif op[0] == 'rotate':
          f = lambda x: nn.rotate(x, jnp.asarray(ds[round(x.shape[-2] ** 0.5) - 1][op[1]]))
        else:
          f = lambda x: nn.add(x, jnp.asarray(others[op[1:]]))
        fns[op] = jax.jit(f)
      return fns[op]

    frontier = [to_model(initial(job['s'], job['l']))]
    seen = set()
    for depth in range(job['depth']):
      nxt = []
      for model in frontier:
        x = to_array(model)
        for op, after in successors(model):
          want = to_array(after)
          got = np.asarray(impl(op)(x))
          rec.call()
          rec.case = (job['s'], job['l'], depth, op)
          rec.close(got, want, f'{op} differs from the model', tol=1e-9, shape=x.shape)
          key = (want.shape, np.round(want, 6).tobytes())
          if key not in seen:
            seen.add(key)
            rec.state('state', key[0], key[1])
            # States first reached by an addition after another operation are
            # checked but not extended.
            if depth + 1 < job['depth'] and not (depth >= 1 and op[0] == 'add'):
              nxt.append(after)
      frontier = nxt
      rec.outcome((job['s'], job['l'], depth, len(seen)))
    # One generic state is also pushed through eagerly (no jit).
    x = initial(job['s'], job['l'])
    for op, after in successors(to_model(x)):
      y = jnp.asarray(x)
      if op[0] == 'change':
        got = nn.change_max_degree_or_type(y, op[1], op[2])
      elif op[0] == 'reflect':
        got = nn.reflect(y)
      elif op[0] == 'rotate':
        got = nn.rotate(y, jnp.asarray(ds[job['l']][op[1]]))
      else:
        got = nn.add(y, jnp.asarray(others[op[1:]]))
      rec.call()
      rec.close(got, to_array(after), f'{op} differs from the model (eager)', tol=1e-9)
  elif kind == 'adds':
    sh = shapes(job['top'])
    k = 0
    for n in (1, 2, 3):
      for combo in itertools.product(sh, repeat=n):
        k += 1
        if k % job['parts'] != job['part']:
          continue
        xs = [initial(*c, salt=i * 5) for i, c in enumerate(combo)]
        rec.state('add', combo)
        rec.call()
        rec.close(nn.add(*map(jnp.asarray, xs)), to_array(m_add(*map(to_model, xs))), 'add differs from the model', tol=1e-9, shapes=combo)
    xs = [initial(*c, salt=i) for i, c in enumerate(((1, 1), (2, 0), (1, 2), (2, 1)))]
    for perm in itertools.permutations(range(4)):
      rec.state('add order', perm)
      rec.call()
      rec.close(nn.add(*[jnp.asarray(xs[i]) for i in perm]), to_array(m_add(*map(to_model, xs))), 'sum depends on the order', tol=1e-9)
  elif kind == 'batch':
    for s, l in shapes(2):
      base = initial(s, l)
      for lead in ((3,), (2, 2)):
        n = int(np.prod(lead))
        xb = np.stack([initial(s, l, salt=q) for q in range(n)]).reshape(*lead, *base.shape)
        for dt in ('float32', 'float64'):
          y = jnp.asarray(xb, dt)
          flat = xb.reshape(n, *base.shape)
          rots = ref.octahedral_group()[[1, 5, 9, 17]][:n]
          d = ref.wigner_d(rots, l, True)
          cases = [
              ('reflect', nn.reflect(y), [to_array(m_reflect(to_model(q))) for q in flat]),
              ('rotate', nn.rotate(y, jnp.asarray(d[0], dt)), [to_array(m_rotate(to_model(q), d[0])) for q in flat]),
              ('batched rotate', nn.rotate(y, jnp.asarray(d.reshape(*lead, *d.shape[1:]), dt)), [to_array(m_rotate(to_model(q), d[i])) for i, q in enumerate(flat)]),
              ('add', nn.add(y, y), [2 * q for q in flat]),
          ]
          for l2, p2 in itertools.product((None, 0, 1, 2), (None, True, False)):
            cases.append(((l2, p2), nn.change_max_degree_or_type(y, l2, p2), [to_array(m_change(to_model(q), l2, p2)) for q in flat]))
          for name, got, want in cases:
            rec.state('batch', s, l, lead, dt, name)
            rec.call()
            want = np.stack(want)
            rec.check(got.dtype == y.dtype, 'dtype changed', op=name)
            rec.close(got, want.reshape(*lead, *want.shape[1:]), 'batched operation differs', tol=2e-6, op=name)
  elif kind == 'masks':
    for l_max in range(0, 9):
      deg = np.repeat(np.arange(l_max + 1), 2 * np.arange(l_max + 1) + 1)
      rec.state('masks', l_max)
      rec.call(2)
      e = np.asarray(nn.even_degree_mask(l_max))
      o = np.asarray(nn.odd_degree_mask(l_max))
      rec.check(e.shape == o.shape == ((l_max + 1) ** 2, 1) and e.dtype == bool, 'mask shape', shape=e.shape)
      rec.check(np.array_equal(e[:, 0], deg % 2 == 0), 'even degree mask', l_max=l_max)
      rec.check(np.array_equal(o[:, 0], deg % 2 == 1), 'odd degree mask', l_max=l_max)
      # Large degrees of the transforms themselves.
      x = initial(2, l_max)
      rec.close(nn.reflect(jnp.asarray(x)), to_array(m_reflect(to_model(x))), 'reflect', l=l_max)
      x1 = initial(1, l_max)
      rec.close(nn.reflect(jnp.asarray(x1)), to_array(m_reflect(to_model(x1))), 'reflect', l=l_max)
      rec.close(nn.change_max_degree_or_type(jnp.asarray(x), include_pseudotensors=False), to_array(m_change(to_model(x), None, False)), 'type change', l=l_max)
      rec.close(nn.change_max_degree_or_type(jnp.asarray(x1), include_pseudotensors=True), to_array(m_change(to_model(x1), None, True)), 'type change', l=l_max)
      rec.call(4)
  else:
    for shape in ((4, 2), (4,), (3, 4, 2), (0, 4, 2), (1, 2, 1), (1, 3, 1), (2, 5, 1), (1, 8, 1), (2, 10, 1), (1, 0, 2), (2, 0, 1)):
      x = jnp.ones(shape)
      rec.state('invalid', shape)
      rec.raises(lambda: nn.reflect(x), 'invalid shape accepted', shape=shape)
      rec.raises(lambda: nn.change_max_degree_or_type(x, 1), 'invalid shape accepted', shape=shape)
      rec.raises(lambda: nn.add(x, x), 'invalid shape accepted', shape=shape)
      rec.raises(lambda: nn.rotate(x, jnp.eye(shape[-2] if len(shape) > 1 else 1)), 'invalid shape accepted', shape=shape)
    for s, l, deg, pseudo in itertools.product((1, 2), (0, 1, 2), (-1, -2, -3, -4), (None, False, True)):
      x = jnp.ones((s, (l + 1) ** 2, 2))
      rec.state('negative', s, l, deg, pseudo)
      rec.raises(lambda: nn.change_max_degree_or_type(x, deg, pseudo), 'negative degree accepted', shape=x.shape, max_degree=deg)
    a = jnp.ones((2, 1, 4, 2))
    for b in (jnp.ones((3, 1, 4, 2)), jnp.ones((2, 1, 4, 3)), jnp.ones((1, 4, 2)), jnp.ones((2, 1, 4, 1)), jnp.ones((2, 1, 4, 2), jnp.float32), jnp.ones((1, 1, 4, 2))):
      rec.state('incompatible', b.shape, str(b.dtype))
      rec.raises(lambda: nn.add(a, b), 'incompatible operands accepted', shape=b.shape)
      rec.raises(lambda: nn.add(b, a), 'incompatible operands accepted', shape=b.shape)
    for d in (jnp.eye(9), jnp.eye(1), jnp.ones((3, 4, 4)), jnp.ones((1, 4, 4))):
      rec.raises(lambda: nn.rotate(a, d), 'incompatible Wigner-D matrix accepted', shape=d.shape)

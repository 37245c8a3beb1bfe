"""Gather and indexed reductions agree with their definition on every list."""

import itertools

import numpy as np

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = (
    'every dense index list of shape 3x2 (thorough 3x3 and 4x2) over the'
    ' indices 0..3, 3 = padding, and every sparse list of 4 (thorough 5) pairs'
    ' over 0..3, 3 = padding, one by one and stacked along 1 and 2 batch axes'
    ' x feature ranks 0..2 x {float32, float64, int32} x {sum, min, max,'
    ' softmax with every mask pattern} x keepdims x sorted; adversarial values'
    ' (NaN, inf, huge) in every masked position; every assignment of infinite and'
    ' extreme values to three entries'
)
ASSUMPTIONS = [
    'inputs are small fixed integer-valued arrays (exact arithmetic); the'
    ' quantifier enumerated is the index list, mask and shape'
]


def plan(tier):
  jobs = []
  for dt in ('float32', 'float64', 'int32'):
    for feat in ((), (2,), (2, 1)):
      jobs.append(dict(kind='sparse', dt=dt, feat=feat, p=4 if tier == 'quick' else 5))
      for shape in ((3, 2),) if tier == 'quick' else ((3, 2), (3, 3), (4, 2)):
        jobs.append(dict(kind='dense', dt=dt, feat=feat, shape=shape))
  jobs += [dict(kind='gather', feat=f) for f in ((), (2,), (2, 1, 2))]
  jobs += [dict(kind='softmax-dense', dt=dt) for dt in ('float32', 'float64')]
  jobs += [dict(kind='softmax-sparse', dt=dt) for dt in ('float32', 'float64')]
  jobs += [dict(kind='softmax-magnitudes', dt=dt) for dt in ('float32', 'float64')]
  jobs += [dict(kind='specials', dt=dt) for dt in ('float32', 'float64')]
  jobs.append(dict(kind='invalid'))
  return jobs


REDUCE = {'sum': np.sum, 'min': np.min, 'max': np.max}


def inputs(shape, dt):
  n = int(np.prod(shape))
  k = np.arange(n)
  return (((k * 7919 + 13) % 23) - 11).reshape(shape).astype(dt)


def softmax_ref(x, m):
  """x, m: 1-d (members of one segment)."""
  if len(x) == 0:
    return x
  if (m > 0).any():  # entries with mask 0 take no part, however large they are
    w = np.exp(np.minimum(x - x[m > 0].max(), 0)) * m
  else:
    w = 0 * x
  s = w.sum()
  return w / s if s > 0 else w * 0


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  ops = e3x.ops
  kind = job['kind']
  jax.config.update('jax_enable_x64', job.get('dt') == 'float64')
  dt = job.get('dt', 'float32')
  fns = {'sum': ops.indexed_sum, 'min': ops.indexed_min, 'max': ops.indexed_max}
  feat = tuple(job.get('feat', ()))
  isint = dt == 'int32'

  def expect(op, groups, shape):
    """groups: function (i) -> array of members; rows i of the output."""
    rows = []
    for g in groups:
      if len(g) == 0:
        if op == 'sum':
          rows.append((np.zeros(shape, dt), True))
        else:
          rows.append((None, False))
      else:
        rows.append((REDUCE[op](g, axis=0), True))
    return rows

  def empty_ok(op, got):
    info = (np.iinfo if isint else np.finfo)(dt)
    return bool(np.all(got >= info.max)) if op == 'min' else bool(np.all(got <= info.min))

  if kind == 'sparse':
    p, n = job['p'], 3
    lists = np.array(list(itertools.product(range(n + 1), repeat=p)), dtype=np.int32)
    x = inputs((p, *feat), dt)
    evil = [np.nan, np.inf, -np.inf, 3.0] if not isint else [2**31 - 1, -(2**31), 5, 7]
    for op in fns:
      one = jax.jit(lambda x, d, op=op: fns[op](x, dst_idx=d, num_segments=n))
      keep = jax.jit(lambda x, d, op=op: fns[op](x, dst_idx=d, num_segments=n, keepdims=True))
      srt = jax.jit(lambda x, d, op=op: fns[op](x, dst_idx=d, num_segments=n, indices_are_sorted=True))
      xs = np.stack([x] * len(lists))
      for b, d in enumerate(lists):
        # Whatever is stored at the padded positions must not matter.
        for q in np.nonzero(d >= n)[0]:
          xs[b, q] = evil[(b + q) % 4]
      outs = []
      for b, d in enumerate(lists):
        rec.state(op, 'sparse', dt, feat, tuple(d.tolist()))
        got = np.asarray(one(xs[b], d))
        outs.append(got)
        rec.call()
        rec.check(got.shape == (n, *feat) and got.dtype == np.dtype(dt), 'shape or dtype of the reduction', shape=got.shape, dtype=got.dtype)
        exp = expect(op, [xs[b][d == i] for i in range(n)], feat)
        for i, (e, has) in enumerate(exp):
          if has:
            rec.check(np.array_equal(got[i], e), f'indexed_{op} differs from its definition', dst=d.tolist(), i=i, got=got[i].tolist(), want=np.asarray(e).tolist())
          else:
            rec.check(empty_ok(op, got[i]), f'indexed_{op} of an empty segment is not the identity', dst=d.tolist(), got=got[i].tolist())
        k = np.asarray(keep(xs[b], d))
        rec.call()
        rec.check(k.shape == x.shape, 'keepdims changes the shape', shape=k.shape)
        v = d < n
        rec.check(np.array_equal(k[v], got[d[v]]), 'keepdims is not the reduction at the destination', dst=d.tolist())
        if np.all(np.diff(d) >= 0):
          rec.call()
          rec.check(np.array_equal(np.asarray(srt(xs[b], d)), got), 'indices_are_sorted changes the result', dst=d.tolist())
      outs = np.stack(outs)
      for lead in ((len(lists),), (4, len(lists) // 4), (len(lists) // 4, 1, 4)):
        rec.state(op, 'sparse batched', dt, feat, lead)
        got = np.asarray(fns[op](jnp.asarray(xs.reshape(*lead, p, *feat)), dst_idx=jnp.asarray(lists.reshape(*lead, p)), num_segments=n))
        rec.call()
        rec.check(np.array_equal(got, outs.reshape(*lead, n, *feat)), 'batched reduction differs from the unbatched one', op=op, lead=lead)
        kd = np.asarray(fns[op](jnp.asarray(xs.reshape(*lead, p, *feat)), keepdims=True, dst_idx=jnp.asarray(lists.reshape(*lead, p)), num_segments=n))
        rec.call()
        kd = kd.reshape(len(lists), p, *feat)
        v = lists < n
        bb, _ = np.nonzero(v)
        rec.check(np.array_equal(kd[v], outs[bb, lists[v]]), 'batched keepdims differs', op=op, lead=lead)
  elif kind == 'dense':
    n, m = job['shape']
    vals = 4 if n * m <= 6 else 2
    masks = np.array(list(itertools.product((False, True), repeat=n * m))).reshape(-1, n, m)
    lists = np.array(list(itertools.product(range(vals), repeat=min(n * m, 4))), dtype=np.int32)
    x = inputs((n, m, *feat), dt)
    evil = [np.nan, np.inf, -np.inf, 3.0] if not isint else [2**31 - 1, -(2**31), 5, 7]
    adj0 = np.zeros((n, m), np.int32)
    for op in fns:
      f = {
          k: jax.jit(lambda x, a, w, op=op, k=k: fns[op](x, keepdims=k, adj_idx=a, where=w))
          for k in (None, False, True)
      }
      xs = np.stack([x] * len(masks))
      for b, w in enumerate(masks):
        for q, (i, j) in enumerate(np.argwhere(~w)):
          xs[b, i, j] = evil[(b + q) % 4]
      outs = []
      for b, w in enumerate(masks):
        rec.state(op, 'dense', dt, feat, w.tobytes())
        got = np.asarray(f[None](xs[b], adj0, w))
        rec.call()
        outs.append(got)
        rec.check(got.shape == (n, *feat) and got.dtype == np.dtype(dt), 'shape or dtype of the reduction', shape=got.shape)
        exp = expect(op, [xs[b][i][w[i]] for i in range(n)], feat)
        for i, (e, has) in enumerate(exp):
          if has:
            rec.check(np.array_equal(got[i], e), f'indexed_{op} differs from its definition', where=w.tolist(), i=i, got=got[i].tolist(), want=np.asarray(e).tolist())
          else:
            rec.check(empty_ok(op, got[i]), f'indexed_{op} without entries is not the identity', where=w.tolist(), got=got[i].tolist())
        k = np.asarray(f[True](xs[b], adj0, w))
        rec.call()
        rec.check(np.array_equal(k, got[:, None]), 'keepdims differs', where=w.tolist())
      rec.check(np.array_equal(np.asarray(f[False](xs[0], adj0, masks[0])), outs[0]), 'keepdims=False differs')
      # The values in the index list itself do not matter for a reduction.
      for lst in lists:
        a = np.resize(lst, (n, m)).astype(np.int32)
        w = a < vals - 1
        b = int(np.flatnonzero((masks == w).all((1, 2)))[0])
        rec.state(op, 'dense list', dt, feat, a.tobytes())
        rec.call()
        rec.check(np.array_equal(np.asarray(f[None](xs[b], a, w)), outs[b]), 'reduction depends on the index values', adj=a.tolist())
      outs = np.stack(outs)
      for lead in ((len(masks),), (4, len(masks) // 4), (len(masks) // 4, 1, 4)):
        rec.state(op, 'dense batched', dt, feat, lead)
        got = np.asarray(fns[op](jnp.asarray(xs.reshape(*lead, n, m, *feat)), adj_idx=jnp.zeros((*lead, n, m), jnp.int32), where=jnp.asarray(masks.reshape(*lead, n, m))))
        rec.call()
        rec.check(np.array_equal(got, outs.reshape(*lead, n, *feat)), 'batched reduction differs from the unbatched one', op=op, lead=lead)
  elif kind == 'specials':
    # Every assignment of extreme values to three entries.
    big = float(np.finfo(dt).max)
    pool = (-np.inf, -big, -1.0, 0.0, 2.5, big, np.inf)
    xs = np.array(list(itertools.product(pool, repeat=3)), dt)
    with np.errstate(all='ignore'):
      for op in fns:
        for d in itertools.product(range(3), repeat=3):
          rec.state(op, 'special sparse', dt, d)
          got = np.asarray(fns[op](jnp.asarray(xs), dst_idx=jnp.tile(jnp.array(d), (len(xs), 1)), num_segments=2))
          rec.call()
          for i in range(2):
            members = xs[:, np.array(d) == i]
            if members.size:
              rec.check(np.array_equal(got[:, i], REDUCE[op](members, axis=1), equal_nan=True), f'indexed_{op} of extreme values', dst=d)
        for w in itertools.product((False, True), repeat=3):
          rec.state(op, 'special dense', dt, w)
          where = jnp.tile(jnp.array([[w]]), (len(xs), 1, 1))
          got = np.asarray(fns[op](jnp.asarray(xs)[:, None], adj_idx=jnp.zeros((len(xs), 1, 3), int), where=where))
          rec.call()
          if any(w):
            rec.check(np.array_equal(got[:, 0], REDUCE[op](xs[:, list(w)], axis=1), equal_nan=True), f'indexed_{op} of extreme values (dense)', where=w)
  elif kind == 'gather':
    n = 3
    for dtype in ('float32', 'int32'):
      x = inputs((n, *feat), dtype)
      # Sparse.
      lists = np.array(list(itertools.product(range(n + 1), repeat=3)), dtype=np.int32)
      fs = jax.jit(lambda x, i: ops.gather_src(x, src_idx=i))
      fd = jax.jit(lambda x, i: ops.gather_dst(x, dst_idx=i))
      for i in lists:
        rec.state('gather sparse', dtype, feat, tuple(i.tolist()))
        a, b = np.asarray(fs(x, i)), np.asarray(fd(x, i))
        rec.call(2)
        v = i < n
        rec.check(a.shape == b.shape == (3, *feat) and a.dtype == x.dtype, 'shape of the gathered array', shape=a.shape)
        rec.check(np.array_equal(a[v], x[i[v]]), 'gather_src differs from inputs[src]', idx=i.tolist())
        rec.check(np.array_equal(b[v], x[i[v]]), 'gather_dst differs from inputs[dst]', idx=i.tolist())
        rec.check(bool(np.isfinite(a).all() and np.isfinite(b).all()), 'padding entries gather values that are not finite', idx=i.tolist())
      # Dense.
      dl = np.array(list(itertools.product(range(n + 1), repeat=4)), dtype=np.int32).reshape(-1, 2, 2)
      fa = jax.jit(lambda x, i: ops.gather_src(x, adj_idx=i))
      for i in dl:
        rec.state('gather dense', dtype, feat, i.tobytes())
        a = np.asarray(fa(x, i))
        rec.call()
        v = i < n
        rec.check(a.shape == (2, 2, *feat), 'shape of the gathered array', shape=a.shape)
        rec.check(np.array_equal(a[v], x[i[v]]), 'gather_src differs from inputs[adj]', idx=i.tolist())
        rec.check(bool(np.isfinite(a).all()), 'padding entries gather values that are not finite', idx=i.tolist())
      # Batched: entry b gathers from entry b only.
      for lead in ((64,), (4, 16), (2, 8, 4), (1, 64)):
        xb = inputs((*lead, n, *feat), dtype)
        rec.state('gather batched', dtype, feat, lead)
        ib = lists[:64].reshape(*lead, 3) % n
        got = np.asarray(ops.gather_src(jnp.asarray(xb), src_idx=jnp.asarray(ib)))
        gotd = np.asarray(ops.gather_dst(jnp.asarray(xb), dst_idx=jnp.asarray(ib)))
        flat = xb.reshape(64, n, *feat)
        want = np.stack([flat[b][ib.reshape(64, 3)[b]] for b in range(64)]).reshape(*lead, 3, *feat)
        rec.call(2)
        rec.check(np.array_equal(got, want), 'batched gather_src differs', lead=lead)
        rec.check(np.array_equal(gotd, want), 'batched gather_dst differs', lead=lead)
        ab = dl[:64].reshape(*lead, 2, 2) % n
        got = np.asarray(ops.gather_src(jnp.asarray(xb), adj_idx=jnp.asarray(ab)))
        want = np.stack([flat[b][ab.reshape(64, 2, 2)[b]] for b in range(64)]).reshape(*lead, 2, 2, *feat)
        rec.call()
        rec.check(np.array_equal(got, want), 'batched dense gather_src differs', lead=lead)
        a3 = np.zeros((*lead, n, 2), np.int32)
        gd = np.asarray(ops.gather_dst(jnp.asarray(xb), adj_idx=jnp.asarray(a3)))
        rec.call()
        bb = np.broadcast_to(gd, (*lead, n, 2, *feat)) if gd.ndim == len(lead) + 2 + len(feat) else None
        rec.check(bb is not None, 'dense gather_dst has the wrong rank', shape=gd.shape)
        rec.check(all(np.array_equal(np.take(bb, j, axis=len(lead) + 1), xb) for j in range(2)), 'dense gather_dst differs', lead=lead)
      # gather + sum is the adjacency matrix times the inputs, dense == sparse.
      if feat == (2,) and dtype == 'float32':
        for mat in itertools.product((0, 1), repeat=n * n):
          m = np.array(mat).reshape(n, n)
          rec.state('message sum', mat)
          dst, src = np.nonzero(m)
          dstp = np.concatenate([dst, np.full(n * n - len(dst), n)]).astype(np.int32)
          srcp = np.concatenate([src, np.full(n * n - len(src), n)]).astype(np.int32)
          want = m @ x
          jx = jnp.asarray(x)
          s = ops.indexed_sum(ops.gather_src(jx, src_idx=srcp), dst_idx=dstp, num_segments=n)
          adj = np.full((n, n), n, np.int32)
          for i in range(n):
            r = np.nonzero(m[i])[0]
            adj[i, : len(r)] = r
          d = ops.indexed_sum(ops.gather_src(jx, adj_idx=adj), adj_idx=adj, where=adj < n)
          rec.call(4)
          rec.check(np.array_equal(np.asarray(s), want) and np.array_equal(np.asarray(d), want), 'dense and sparse message sums differ from A @ x', matrix=m.tolist())
  elif kind == 'softmax-dense':
    n, m = 2, 3
    where_all = np.array(list(itertools.product((False, True), repeat=n * m))).reshape(-1, n, m)
    masks = [None] + [np.resize(np.array(v, dt), (n, m)) for v in itertools.product((0.0, 0.25, 1.0), repeat=4)]
    adj = np.zeros((n, m), np.int32)
    for scale in (1.0, 100.0, 1e4):
      x = (inputs((n, m), dt) / 11 * scale).astype(dt)
      f0 = jax.jit(lambda x, w: ops.indexed_softmax(x, adj_idx=adj, where=w))
      f1 = jax.jit(lambda x, mm, w: ops.indexed_softmax(x, mm, adj_idx=adj, where=w))
      loss = lambda x, mm, w: jnp.sum(jnp.where(w, ops.indexed_softmax(x, mm, adj_idx=adj, where=w), 0) * jnp.arange(1.0, 1 + n * m).reshape(n, m).astype(dt))
      gr = jax.jit(jax.grad(loss, argnums=(0, 1)))
      for mi, mm in enumerate(masks):
        for w in where_all:
          rec.state('softmax dense', dt, scale, mi, w.tobytes())
          got = np.asarray(f0(x, w) if mm is None else f1(x, mm, w))
          rec.call()
          rec.check(got.dtype == np.dtype(dt) and got.shape == x.shape, 'softmax shape or dtype')
          for i in range(n):
            mk = np.ones(m, dt) if mm is None else mm[i]
            want = softmax_ref(x[i][w[i]].astype(np.float64), mk[w[i]])
            rec.close(got[i][w[i]], want, 'indexed_softmax differs from its definition', tol=1e-5, where=w.tolist(), mask=None if mm is None else mm.tolist(), scale=scale)
          if mi % 4 == 0:
            a, b = map(np.asarray, gr(x, np.ones((n, m), dt) if mm is None else mm, w))
            rec.call()
            rec.check(bool(np.isfinite(a).all() and np.isfinite(b).all()), 'gradient of indexed_softmax is not finite', where=w.tolist(), mask=None if mm is None else mm.tolist())
            for i in range(n):
              mk = np.ones(m) if mm is None else mm[i]
              p = np.zeros(m)
              p[w[i]] = softmax_ref(x[i][w[i]].astype(np.float64), mk[w[i]])
              c = np.arange(1.0, 1 + n * m).reshape(n, m)[i]
              want = p * (c - (p * c).sum())
              rec.close(a[i][w[i]], want[w[i]], 'gradient of indexed_softmax is wrong', tol=2e-5, where=w.tolist())
    # Batched.
    xb = inputs((len(where_all), n, m), dt) / 5
    for lead in ((64,), (8, 8), (4, 1, 16)):
      got = np.asarray(ops.indexed_softmax(jnp.asarray(xb.reshape(*lead, n, m)), adj_idx=jnp.zeros((*lead, n, m), jnp.int32), where=jnp.asarray(where_all.reshape(*lead, n, m)))).reshape(xb.shape)
      rec.call()
      rec.state('softmax dense batched', lead)
      for b, w in enumerate(where_all):
        for i in range(n):
          rec.close(got[b, i][w[i]], softmax_ref(xb[b, i][w[i]].astype(np.float64), np.ones(w[i].sum())), 'batched softmax differs', tol=1e-5)
  elif kind == 'softmax-sparse':
    p, n = 4, 3
    lists = np.array(list(itertools.product(range(n + 1), repeat=p)), dtype=np.int32)
    masks = [None] + [np.array(v, dt) for v in itertools.product((0.0, 0.25, 1.0), repeat=p)]
    for scale in (1.0, 100.0, 1e4):
      x = (inputs((p,), dt) / 11 * scale).astype(dt)
      f0 = jax.jit(lambda x, d: ops.indexed_softmax(x, dst_idx=d, num_segments=n))
      f1 = jax.jit(lambda x, mm, d: ops.indexed_softmax(x, mm, dst_idx=d, num_segments=n))
      loss = lambda x, mm, d: jnp.sum(jnp.where(d < n, ops.indexed_softmax(x, mm, dst_idx=d, num_segments=n), 0) * jnp.arange(1.0, 1 + p).astype(dt))
      gr = jax.jit(jax.grad(loss, argnums=(0, 1)))
      for mi, mm in enumerate(masks):
        for d in lists:
          rec.state('softmax sparse', dt, scale, mi, tuple(d.tolist()))
          got = np.asarray(f0(x, d) if mm is None else f1(x, mm, d))
          rec.call()
          rec.check(got.dtype == np.dtype(dt) and got.shape == x.shape, 'softmax shape or dtype')
          mk = np.ones(p, dt) if mm is None else mm
          want = np.zeros(p)
          for i in range(n):
            want[d == i] = softmax_ref(x[d == i].astype(np.float64), mk[d == i])
          v = d < n
          rec.close(got[v], want[v], 'indexed_softmax differs from its definition', tol=1e-5, dst=d.tolist(), mask=mk.tolist(), scale=scale)
          if mi % 9 == 0:
            a, b = map(np.asarray, gr(x, mk, d))
            rec.call()
            rec.check(bool(np.isfinite(a).all() and np.isfinite(b).all()), 'gradient of indexed_softmax is not finite', dst=d.tolist(), mask=mk.tolist())
            c = np.arange(1.0, 1 + p)
            tot = np.array([(want * c)[d == i].sum() for i in range(n + 1)])
            wg = np.where(v, want * (c - tot[d]), 0)
            rec.close(a[v], wg[v], 'gradient of indexed_softmax is wrong', tol=2e-5, dst=d.tolist())
    xb = inputs((len(lists), p), dt) / 5
    for lead in ((256,), (16, 16), (4, 1, 64)):
      rec.state('softmax sparse batched', lead)
      got = np.asarray(ops.indexed_softmax(jnp.asarray(xb.reshape(*lead, p)), dst_idx=jnp.asarray(lists.reshape(*lead, p)), num_segments=n)).reshape(xb.shape)
      rec.call()
      for b, d in enumerate(lists):
        for i in range(n):
          rec.close(got[b][d == i], softmax_ref(xb[b][d == i].astype(np.float64), np.ones((d == i).sum())), 'batched softmax differs', tol=1e-5)
  elif kind == 'softmax-magnitudes':
    # Segments of two entries, every pair of mask magnitudes (and zero) and
    # several pairs of exponents, all segments in one call.
    if dt == 'float64':
      jax.config.update('jax_enable_x64', True)
    low, step = (31, 1) if dt == 'float32' else (270, 6)
    sizes = [0.0] + [10.0**-k for k in range(0, low, step)]
    cases = [(a, b, x, y) for a, b in itertools.product(sizes, repeat=2) for x, y in ((0, 0), (3, -2), (-2, 3), (40, 0), (0, 40), (200, 0), (0, 200)) if a > 0 or b > 0]
    tiny = [10.0**-k for k in (range(31, 46) if dt == 'float32' else range(270, 324, 3))]
    cases += [(a, b, x, y) for a, b in itertools.product(tiny + [0.0], repeat=2) for x, y in ((0, 0), (3, -2), (200, 0))]
    num = len(cases)
    rec.states_bulk(('softmax magnitudes', dt), num)
    m = np.array([c[:2] for c in cases]).astype(dt)
    x = np.array([c[2:] for c in cases], dt)
    coef = np.array([3.0, -2.0], dt)
    md, xd = m.astype(np.longdouble), x.astype(np.longdouble)
    with np.errstate(all='ignore'):
      top = np.where(md > 0, xd, -np.inf).max(1, keepdims=True)
      w = np.where(md > 0, np.exp(np.minimum(xd - top, 0)) * md, 0)
      total = w.sum(1, keepdims=True)
      w = np.where(total > 0, w / np.where(total > 0, total, 1), 0)
    sharp = md.max(1) >= 10.0 ** -(low - 1)
    # The exponential of the difference itself underflows.
    sharp &= (total[:, 0] >= 10.0 ** -(low - 1))
    slope = w[:, 0] * w[:, 1] * (coef[0] - coef[1])
    for fmt in ('sparse', 'dense'):
      if fmt == 'sparse':
        soft = lambda x, m: ops.indexed_softmax(x.reshape(-1), m.reshape(-1), dst_idx=jnp.repeat(jnp.arange(num), 2), num_segments=num).reshape(-1, 2)
      else:
        soft = lambda x, m: ops.indexed_softmax(x, m, adj_idx=jnp.zeros((num, 2), jnp.int32), where=jnp.ones((num, 2), bool))
      for f in (jax.jit(soft), soft):
        got = np.asarray(f(jnp.asarray(x), jnp.asarray(m)))
        rec.call(num)
        rec.close(got[sharp], w[sharp].astype(np.float64), 'softmax with small masks differs from its definition', tol=1e-5, fmt=fmt)
        rec.check(bool(np.isfinite(got).all()), 'softmax is not finite', fmt=fmt)
        a, b = map(np.asarray, jax.grad(lambda x, m: jnp.sum(f(x, m) * coef), argnums=(0, 1))(jnp.asarray(x), jnp.asarray(m)))
        rec.call(num)
        bad = ~(np.isfinite(a).all(1) & np.isfinite(b).all(1))
        rec.check(not bad.any(), 'gradient of softmax is not finite', fmt=fmt, at=[cases[i] for i in np.flatnonzero(bad)[:3]])
        rec.close(a[sharp], np.stack([slope, -slope], 1)[sharp].astype(np.float64), 'gradient of softmax with small masks is wrong', tol=2e-5, fmt=fmt)
        both = sharp & (m > 0).all(1)
        rec.close((b.astype(np.float64) * m)[both], np.stack([slope, -slope], 1)[both].astype(np.float64), 'gradient with respect to small masks is wrong', tol=2e-5, fmt=fmt)
  else:
    x = jnp.ones((3, 2))
    adj = jnp.zeros((3, 2), jnp.int32)
    d = jnp.zeros(3, jnp.int32)
    bad = [
        lambda: ops.gather_src(x),
        lambda: ops.gather_src(x, adj_idx=adj, src_idx=d),
        lambda: ops.gather_dst(x),
        lambda: ops.gather_src(x, adj_idx=jnp.zeros((2, 3, 2), jnp.int32)),
        lambda: ops.gather_src(x, src_idx=jnp.zeros((2, 3), jnp.int32)),
        lambda: ops.gather_src(jnp.ones(3), src_idx=jnp.zeros((3, 2), jnp.int32)),
    ]
    for f in fns.values():
      bad += [
          lambda f=f: f(x),
          lambda f=f: f(x, adj_idx=adj),
          lambda f=f: f(x, dst_idx=d),
          lambda f=f: f(x, adj_idx=adj, where=adj < 1, dst_idx=d),
          lambda f=f: f(x, dst_idx=jnp.zeros(2, jnp.int32), num_segments=3),
          lambda f=f: f(x, adj_idx=jnp.zeros((3, 3), jnp.int32), where=jnp.ones((3, 3), bool)),
          lambda f=f: f(x > 0, adj_idx=adj, where=adj < 1),
      ]
    bad += [
        lambda: ops.indexed_softmax(x, jnp.ones((3, 3)), adj_idx=adj, where=adj < 1),
        lambda: ops.indexed_softmax(x.astype(jnp.int32), adj_idx=adj, where=adj < 1),
    ]
    for i, b in enumerate(bad):
      rec.state('invalid', i)
      rec.raises(b, 'invalid index arguments accepted', number=i)

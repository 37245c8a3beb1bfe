"""Neighbour lists: pairwise lists and dense <-> sparse conversions."""

import collections
import itertools

import numpy as np

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = (
    'every dense list of the shapes 1x1..3x2 (thorough 3x3) over the indices'
    ' 0..3 and every sparse list of up to 3 (thorough 4) pairs over 0..2,'
    ' unbatched and stacked as batches (ranks 1 and 2: every dense pair, every'
    ' sparse list with 12 representative second lists), x'
    ' every padding index (None, 0..4); every pairwise list up to 64 elements'
    ' and those around powers of two up to 1025 (sums and products beyond the'
    ' 8- and 16-bit integers; thorough up to 4097);'
    ' conversion chains dense->sparse->dense->sparse'
)
ASSUMPTIONS = ['edges are compared as multisets per destination and batch entry']


LARGE = [
    list(range(13, 65)),
    [127, 128, 129, 181, 182, 183],
    [254, 255, 256, 257, 258, 300],
    [511, 512, 513, 1023, 1024, 1025],
    [2047, 2048, 2049, 4095, 4096, 4097],
]


def dense_shapes(tier):
  return [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 3)] if tier == 'quick' else [
      (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 3), (2, 3), (3, 3)
  ]


def values(shape):
  n = shape[0] * shape[1]
  return 4 if n <= 4 else (3 if n <= 6 else 2)


def plan(tier):
  jobs = [dict(kind='pairwise', lo=lo, hi=lo + 4) for lo in (1, 5, 9)]
  jobs += [dict(kind='pairwise-large', nums=n) for n in LARGE[:4 if tier == 'quick' else None]]
  for shape in dense_shapes(tier):
    v = values(shape)
    total = v ** (shape[0] * shape[1])
    parts = max(1, total // 60)
    jobs += [dict(kind='dense', shape=shape, v=v, part=p, parts=parts) for p in range(parts)]
  top = 3 if tier == 'quick' else 4
  for p in range(1, top + 1):
    v = 3 if p <= 3 else 2
    parts = max(1, (v * v) ** p // 60)
    jobs += [dict(kind='sparse', p=p, v=v, part=q, parts=parts) for q in range(parts)]
  jobs += [dict(kind='dense-batch', part=q, parts=4) for q in range(4)]
  jobs += [dict(kind='sparse-batch', part=q, parts=4) for q in range(4)]
  jobs.append(dict(kind='edge'))
  return jobs


def edges_dense(adj, pad):
  """Counter of (dst, src) of one 2-d dense list."""
  c = collections.Counter()
  for i, row in enumerate(np.asarray(adj)):
    for j in row:
      if pad is None or j < pad:
        c[(i, int(j))] += 1
  return c


def edges_sparse(dst, src, pad):
  c = collections.Counter()
  for i, j in zip(np.asarray(dst), np.asarray(src)):
    if pad is None or (i < pad and j < pad):
      c[(int(i), int(j))] += 1
  return c


def run_job(job, rec):
  import e3x
  import jax.numpy as jnp

  ops = e3x.ops
  kind = job['kind']

  def check_d2s(adj, pad):
    """adj: (..., N, M) numpy."""
    rec.state('dense->sparse', adj.shape, tuple(adj.ravel().tolist()), pad)
    dst, src = ops.dense_to_sparse_indices(jnp.asarray(adj), pad_idx=pad)
    rec.call()
    dst, src = np.asarray(dst), np.asarray(src)
    rec.check(dst.shape == src.shape and dst.shape[:-1] == adj.shape[:-2], 'sparse list has the wrong shape', dst=dst.shape)
    rec.check(np.issubdtype(dst.dtype, np.integer) and np.issubdtype(src.dtype, np.integer), 'indices are not integers')
    flat = adj.reshape((-1,) + adj.shape[-2:])
    d2, s2 = dst.reshape(len(flat), -1), src.reshape(len(flat), -1)
    limit = adj.max() + 1 if pad is None else pad
    longest = 0
    for b in range(len(flat)):
      want = edges_dense(flat[b], pad)
      valid = s2[b] < limit
      got = edges_sparse(d2[b][valid], s2[b][valid], None)
      rec.check(got == want, 'dense -> sparse changes the set of edges', adj=adj.tolist(), pad=pad, dst=d2[b].tolist(), src=s2[b].tolist())
      rec.check(bool((d2[b][~valid] >= limit).all()), 'a padding entry has a valid destination', dst=d2[b].tolist(), src=s2[b].tolist())
      longest = max(longest, sum(want.values()))
    rec.check(d2.shape[1] == longest, 'sparse list is not as long as the longest entry of the batch', got=d2.shape, want=longest)
    return dst, src

  def check_s2d(dst, src, pad):
    rec.state('sparse->dense', dst.shape, tuple(dst.ravel().tolist()), tuple(src.ravel().tolist()), pad)
    adj = np.asarray(ops.sparse_to_dense_indices(jnp.asarray(dst), jnp.asarray(src), pad_idx=pad))
    rec.call()
    rec.check(adj.shape[:-2] == dst.shape[:-1] and adj.ndim == dst.ndim + 1, 'dense list has the wrong shape', adj=adj.shape)
    rec.check(np.issubdtype(adj.dtype, np.integer), 'indices are not integers')
    limit = max(dst.max(), src.max()) + 1 if pad is None else pad
    n = int(np.prod(dst.shape[:-1]))
    rows = adj.reshape((n,) + adj.shape[-2:])
    df, sf = dst.reshape(n, -1), src.reshape(n, -1)
    width = 0
    for b in range(n):
      want = edges_sparse(df[b], sf[b], limit)
      got = edges_dense(rows[b], limit)
      rec.check(got == want, 'sparse -> dense changes the set of edges', dst=df[b].tolist(), src=sf[b].tolist(), pad=pad, adj=rows[b].tolist())
      counts = collections.Counter(int(i) for i in df[b] if i < limit)
      width = max([width] + list(counts.values()))
    rec.check(rows.shape[1] > max([i for i in df.ravel() if i < limit], default=-1), 'dense list has too few rows')
    rec.check(rows.shape[2] == width, 'dense list is not as wide as the largest number of neighbours', got=rows.shape, want=width)
    return adj

  if kind == 'pairwise':
    for n in range(job['lo'], job['hi']):
      for mask in (True, False):
        rec.state('pairwise', n, mask)
        adj = np.asarray(ops.dense_pairwise_indices(n, mask_self=mask))
        dst, src = map(np.asarray, ops.sparse_pairwise_indices(n, mask_self=mask))
        rec.call(2)
        want = collections.Counter(
            (i, j) for i in range(n) for j in range(n) if not (mask and i == j)
        )
        rec.check(adj.shape == (n, n - mask), 'dense pairwise list has the wrong shape', n=n, shape=adj.shape)
        rec.check(dst.shape == src.shape == (n * (n - mask),), 'sparse pairwise list has the wrong shape', n=n)
        rec.check(edges_dense(adj, None) == want, 'dense pairwise list is not the set of all pairs', n=n, mask=mask)
        rec.check(edges_sparse(dst, src, None) == want, 'sparse pairwise list is not the set of all pairs', n=n, mask=mask)
        if n <= 6:
          if adj.size:
            check_d2s(adj, None)
            check_s2d(dst, src, None)
    default = np.asarray(ops.dense_pairwise_indices(3))
    rec.check(default.shape == (3, 2), 'self pairs are not masked by default')
    rec.check(len(ops.sparse_pairwise_indices(3)[0]) == 6, 'self pairs are not masked by default')
  elif kind == 'pairwise-large':
    for n in job['nums']:
      for mask in (True, False):
        rec.state('pairwise', n, mask)
        i = np.arange(n)[:, None]
        dst, src = map(np.asarray, ops.sparse_pairwise_indices(n, mask_self=mask))
        rec.call()
        rec.check(dst.shape == src.shape == (n * (n - mask),), 'sparse pairwise list has the wrong shape', n=n)
        rec.check(dst.min() >= 0 and src.min() >= 0 and dst.max() < n and src.max() < n, 'index out of range', n=n)
        # All pairs, each once.
        count = np.bincount(dst.astype(np.int64) * n + src, minlength=n * n).reshape(n, n)
        rec.check(bool((count == (1 - np.eye(n) if mask else np.ones((n, n)))).all()), 'sparse pairwise list is not the set of all pairs', n=n, mask=mask)
        del count, dst, src
        adj = np.asarray(ops.dense_pairwise_indices(n, mask_self=mask))
        rec.call()
        rec.check(adj.shape == (n, n - mask), 'dense pairwise list has the wrong shape', n=n, shape=adj.shape)
        count = np.bincount((i * n + adj.astype(np.int64)).ravel() if adj.min() >= 0 and adj.max() < n else [0], minlength=n * n).reshape(n, n)
        rec.check(bool((count == (1 - np.eye(n) if mask else np.ones((n, n)))).all()), 'dense pairwise list is not the set of all pairs', n=n, mask=mask)
        del count
  elif kind == 'dense':
    shape = job['shape']
    allv = itertools.product(range(job['v']), repeat=shape[0] * shape[1])
    for k, vals in enumerate(allv):
      if k % job['parts'] != job['part']:
        continue
      adj = np.array(vals, dtype=np.int32).reshape(shape)
      for pad in (None, 0, 1, 2, 3) if shape[0] * shape[1] <= 4 else (None, 1, 2):
        dst, src = check_d2s(adj, pad)
        if dst.size and pad is not None and pad >= shape[0] and shape[1] <= 2:
          # Chain: the edges survive the conversion back and forth.
          back = check_s2d(dst, src, pad)
          rec.check(edges_dense(back, pad) == edges_dense(adj, pad), 'dense -> sparse -> dense loses edges', adj=adj.tolist(), pad=pad)
        elif dst.size and pad is None:
          check_s2d(dst, src, None)
  elif kind == 'sparse':
    pairs = list(itertools.product(range(job['v']), repeat=2))
    for k, lst in enumerate(itertools.product(pairs, repeat=job['p'])):
      if k % job['parts'] != job['part']:
        continue
      dst = np.array([a for a, _ in lst], dtype=np.int32)
      src = np.array([b for _, b in lst], dtype=np.int32)
      for pad in (None, 1, 2, 4):
        adj = check_s2d(dst, src, pad)
        if pad in (None, 2):
          lim = max(dst.max(), src.max()) + 1 if pad is None else pad
          d2, s2 = check_d2s(adj, int(lim)) if adj.size else (dst[:0], src[:0])
          rec.check(edges_sparse(d2, s2, lim) == edges_sparse(dst, src, lim), 'sparse -> dense -> sparse loses edges', dst=dst.tolist(), src=src.tolist(), pad=pad)
  elif kind == 'dense-batch':
    singles = [np.array(v, np.int32).reshape(2, 1) for v in itertools.product(range(3), repeat=2)]
    for k, combo in enumerate(itertools.product(singles, repeat=2)):
      if k % job['parts'] != job['part']:
        continue
      batch = np.stack(combo)
      for pad in (None, 1, 2):
        check_d2s(batch, pad)
        check_d2s(batch[:, None], pad)
        check_d2s(batch[None], pad)
    for k, vals in enumerate(itertools.product(range(3), repeat=4)):
      if k % job['parts'] == job['part']:
        check_d2s(np.array(vals, np.int32).reshape(2, 2, 1, 1), 2)
        check_d2s(np.array(vals, np.int32).reshape(2, 1, 2), 2)
  elif kind == 'sparse-batch':
    lists = list(itertools.product(itertools.product(range(3), repeat=2), repeat=2))
    # Second entries: no edge in common structure with the first is needed, one
    # representative per multiset of destinations and sources suffices.
    few = [((0, 0), (0, 0)), ((0, 1), (2, 0)), ((1, 1), (1, 2)), ((2, 2), (0, 1)), ((2, 1), (1, 0)), ((1, 0), (0, 2)), ((2, 0), (2, 1)), ((1, 2), (2, 2)), ((0, 2), (1, 1)), ((0, 0), (2, 2)), ((1, 1), (0, 0)), ((2, 2), (2, 2))]
    for k, (a, b) in enumerate(itertools.product(lists, few)):
      if k % job['parts'] != job['part']:
        continue
      x = np.array([a, b], np.int32)
      dst, src = x[..., 0], x[..., 1]
      pad = (None, 2, 3)[k // job['parts'] % 3]
      adj = check_s2d(dst, src, pad)
      if k % 16 == job['part']:
        check_s2d(dst[:, None], src[:, None], pad)
        check_s2d(dst[None], src[None], 2)
  else:
    for shape in ((0, 0), (2, 0), (3, 0, 0), (2, 3, 0)):
      rec.state('empty dense', shape)
      dst, src = ops.dense_to_sparse_indices(jnp.zeros(shape, jnp.int32))
      rec.call()
      rec.check(dst.shape == src.shape == (*shape[:-2], 0), 'empty dense list', shape=shape, dst=dst.shape)
    for shape in ((0,), (2, 0), (2, 3, 0)):
      rec.state('empty sparse', shape)
      adj = ops.sparse_to_dense_indices(jnp.zeros(shape, jnp.int32), jnp.zeros(shape, jnp.int32))
      rec.call()
      rec.check(adj.size == 0 and adj.shape[:-2] == shape[:-1] and adj.ndim == len(shape) + 1, 'empty sparse list', shape=shape, adj=adj.shape)
    for n in (0, -1):
      rec.raises(lambda: ops.dense_pairwise_indices(n), 'invalid number accepted', n=n)
      rec.raises(lambda: ops.sparse_pairwise_indices(n), 'invalid number accepted', n=n)
    rec.raises(lambda: ops.dense_to_sparse_indices(jnp.zeros(3, jnp.int32)), '1-d dense list accepted')
    rec.raises(lambda: ops.sparse_to_dense_indices(jnp.zeros(3, jnp.int32), jnp.zeros(2, jnp.int32)), 'mismatched lists accepted')
    for dt in ('int8', 'int16', 'int32', 'uint8'):
      adj = np.array([[1, 2], [0, 3], [1, 3]], dt)
      d, s = check_d2s(adj, 3)
      check_s2d(d, s, 3)
    # A duplicate edge is kept (as often as it is listed).
    check_s2d(np.array([0, 0, 0, 1], np.int32), np.array([1, 1, 2, 0], np.int32), None)

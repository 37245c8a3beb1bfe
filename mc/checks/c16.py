"""Interaction layers act on the graph as documented, for every graph.

All directed graphs (with self loops) on 3 nodes are enumerated and evaluated
by the real layers along a batch axis, in dense and sparse format and in
several edge orders.  The model: every edge contributes independently, weighted
by its weight (message passing) or by a softmax over the neighbours
(attention), where the contribution of a single edge is read off the graph that
consists of this edge only.
"""

import itertools

import numpy as np

from mc import nnutil

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = (
    'all 512 directed graphs with self loops on 3 nodes (and all 64 bipartite'
    ' graphs between 2 queries and 3 keys) x {dense, sparse} x edge orders x'
    ' padding amounts with non-finite values in padded slots x {MessagePass,'
    ' SelfAttention, MultiHeadAttention} x tensor product kinds, degrees,'
    ' weights, cut-off values, heads, positional encodings; every permutation of'
    ' the nodes; gradients on every graph; attention (combinations of shapes,'
    ' encodings, cut-off, biases, numbers of features) and message passing against'
    ' a reference implementation of their definition'
)
ASSUMPTIONS = [
    'float64, tolerance 1e-8 relative; parameters and features are generic',
    'the contribution of an edge is defined by the single-edge graph',
]
TABLES = dict(quick=(2, 0), thorough=(2, 0))

N = 3
EDGES = [(i, j) for i in range(N) for j in range(N)]
F = 4


def graphs(n=N, m=N):
  edges = [(i, j) for i in range(n) for j in range(m)]
  return [[e for k, e in enumerate(edges) if b >> k & 1] for b in range(2 ** len(edges))]


def layouts(gs, n, m, fmt, order, rng_pad=0):
  """Index lists of all graphs; returns kwargs and, per slot, the edge or None."""
  out = []
  for g in gs:
    if fmt == 'dense':
      rows = []
      for i in range(n):
        js = [j for (a, j) in g if a == i]
        js = js[::-1] if order == 'reversed' else js
        js = js + [None] * (m + rng_pad - len(js))
        if order == 'rotated':
          js = js[1:] + js[:1]
          js = js[-1:] + js[:-1] if len(js) % 2 else js[::-1]
        rows.append([None if j is None else (i, j) for j in js])
      out.append(rows)
    else:
      es = list(g)
      if order == 'reversed':
        es = es[::-1]
      es = es + [None] * (n * m + rng_pad - len(es))
      if order == 'rotated':
        es = es[-2:] + es[:-2]
      out.append(es)
  return out


def index_kwargs(slots, n, m, fmt):
  if fmt == 'dense':
    adj = np.array([[[m if e is None else e[1] for e in r] for r in g] for g in slots], np.int32)
    return dict(adj_idx=adj)
  dst = np.array([[n if e is None else e[0] for e in g] for g in slots], np.int32)
  src = np.array([[m if e is None else e[1] for e in g] for g in slots], np.int32)
  return dict(dst_idx=dst, src_idx=src)


def edge_values(slots, table, fill):
  """Per-edge values laid out like the index list."""

  def rec(s):
    if s is None:
      return np.full_like(table[0, 0], fill)
    if isinstance(s, tuple):
      return table[s]
    return np.stack([rec(t) for t in s])

  return np.stack([rec(g) for g in slots])


def plan(tier):
  jobs = []
  for l, s, fused, out, w in (
      [(1, 2, False, 1, True), (1, 1, True, None, False), (0, 1, False, 1, True), (1, 2, True, 0, True), (1, 1, False, 0, False)]
      + ([(2, 2, False, None, True), (2, 1, True, 2, True)] if tier == 'thorough' else [])
  ):
    jobs.append(dict(kind='mp', l=l, s=s, fused=fused, out=out, weights=w))
  for heads, qk, v, cut in itertools.product((1, 2, 4), (1, 0), (1, 0), (0, 1)):
    if tier == 'quick' and (heads == 4) != (qk + v + cut == 0) and not (heads == 2 or (heads == 1 and (qk + v + cut) % 2)):
      continue
    jobs.append(dict(kind='att', heads=heads, qk=qk, v=v, cut=cut, s=1 + (heads + v) % 2, fused=bool(v and heads == 2 and not cut)))
  jobs += [dict(kind='bipartite', fmt=f, v=v) for f in ('dense', 'sparse') for v in (0, 1)]
  jobs += [dict(kind='batch', which=w) for w in ('MessagePass', 'SelfAttention')]
  jobs += [dict(kind='cancel', which=w, fmt=f) for w in ('MessagePass', 'SelfAttention') for f in ('dense', 'sparse')]
  jobs.append(dict(kind='invalid'))
  # Against the definition: positional encodings x cut-off x shapes.
  shapes = [((2, 1), (2, 1)), ((1, 0), (2, 1)), ((2, 2), (1, 1)), ((1, 1), (1, 2))]
  for k, (sq, skv) in enumerate(shapes):
    for qk, v, cut in itertools.product((1, 0), (1, 0), (0, 1)):
      if tier == 'quick' and cut != (qk + v + k) % 2:
        continue
      jobs.append(dict(kind='definition', q=sq, kv=skv, qk=qk, v=v, cut=cut, fused=bool((k + qk) % 2)))
  jobs += [dict(kind='definition_mp', fused=f) for f in (False, True)]
  return jobs


def ref_dense(tree, x):
  """Every parity and degree has its own matrix; the bias belongs to scalars."""
  s, n = x.shape[-3:-1]
  out = None
  for parity, l, p, sl in nnutil.blocks(s, round(n**0.5) - 1):
    leaf = tree[f'{l}{"+-"[parity]}']
    y = x[..., p, sl, :] @ np.asarray(leaf['kernel'])
    if 'bias' in leaf:
      y = y + np.asarray(leaf['bias'])
    if out is None:
      out = np.zeros((*x.shape[:-1], y.shape[-1]))
    out[..., p, sl, :] = y
  return out


def common_channels(x, s, l):
  """Channels of x that exist for s parities up to degree l."""
  x = x[..., : (l + 1) ** 2, :]
  if x.shape[-3] == 2 and s == 1:
    return np.concatenate([x[..., k % 2 : k % 2 + 1, k * k : (k + 1) ** 2, :] for k in range(l + 1)], axis=-2)
  assert x.shape[-3] == s
  return x


def weight(job):
  return {'att': 5, 'mp': 4}.get(job['kind'], 1) * (2 if job.get('fused') else 1)


def eye_init(key, shape, dtype):
  import jax.numpy as jnp

  del key
  return jnp.eye(*shape[-2:], dtype=dtype) * jnp.ones(shape, dtype)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  jax.config.update('jax_enable_x64', True)
  nn = e3x.nn
  kind = job['kind']
  key = jax.random.PRNGKey(0)

  def make(which, **extra):
    gi = nnutil.GenericInit(salt=extra.pop('salt', 0))
    opts = dict(
        use_fused_tensor=bool(job.get('fused')), param_dtype=jnp.float64,
        dense_kernel_init=gi.plain, tensor_kernel_init=gi.fused if job.get('fused') else gi.plain,
    )
    if which != 'MessagePass':
      opts |= {f'{k}_kernel_init': gi.plain for k in ('query', 'key', 'value')}
      opts |= dict(output_kernel_init=eye_init, output_use_bias=False)
    opts |= extra
    return getattr(nn, which)(**opts)

  def run(mod, params, *args, **kw):
    rec.call()
    args = [None if a is None else jnp.asarray(a) for a in args]
    kw = {k: jnp.asarray(v) for k, v in kw.items()}
    if params is None:
      y, p = mod.init_with_output(key, *args, **kw)
      return np.asarray(y), p
    return np.asarray(mod.apply(params, *args, **kw))

  gs = graphs()
  rows = {e: gs.index([e]) for e in EDGES}

  def neighbours(g, i):
    return [j for (a, j) in g if a == i]

  if kind == 'mp':
    l, s = job['l'], job['s']
    x = nnutil.features((N,), s, l, F, 3)
    lb = 1
    table = nnutil.generic((N, N, 1, (lb + 1) ** 2, 2), salt=9)
    wtab = nnutil.generic((N, N, 1, 1, 1), salt=11)
    mod = make('MessagePass', max_degree=job['out'])
    params, base = None, None
    for fmt, order, pad in itertools.product(('dense', 'sparse'), ('plain', 'reversed', 'rotated'), (0, 2)):
      if pad and order != 'plain':
        continue
      rec.states_bulk((tuple(job.items()), fmt, order, pad), len(gs))
      slots = layouts(gs, N, N, fmt, order, pad)
      kw = index_kwargs(slots, N, N, fmt)
      b = edge_values(slots, table, np.nan)
      xs = np.broadcast_to(x, (len(gs), *x.shape))
      if params is None:
        y, params = run(mod, None, xs, b, **kw)
      else:
        y = run(mod, params, xs, b, **kw)
      rec.check(bool(np.isfinite(y).all()), 'padding leaks into the output', fmt=fmt, order=order, pad=pad)
      if base is None:
        base = y
        single = {e: y[rows[e]] for e in EDGES}
        for (i, j), v in single.items():
          others = np.delete(v, i, axis=0)
          rec.check(np.abs(others).max() == 0, 'an edge contributes to a node it does not point to', edge=(i, j))
          rec.check(np.abs(v[i]).max() > 1e-3, 'an edge contributes nothing', edge=(i, j))
        for g, v in zip(gs, y):
          want = sum((single[e] for e in g), np.zeros_like(v))
          rec.close(v, want, 'messages of the edges are not summed', tol=1e-10, graph=g)
      else:
        rec.close(y, base, 'output depends on the format or order of the index list', tol=1e-10, fmt=fmt, order=order, pad=pad)
      if job['weights'] and order != 'reversed':
        w = edge_values(slots, wtab, 1.0)
        yw = run(mod, params, xs, b, w, **kw)
        for g, v in zip(gs, yw):
          want = sum((wtab[e].reshape(()) * single[e] for e in g), np.zeros_like(v))
          rec.close(v, want, 'messages are not weighted by the weight of their edge', tol=1e-10, graph=g, fmt=fmt)
    # An explicit mask instead of padding indices; more segments than nodes.
    slots = layouts(gs, N, N, 'dense', 'rotated')
    adj = index_kwargs(slots, N, N, 'dense')['adj_idx']
    y = run(mod, params, xs, edge_values(slots, table, np.nan), adj_idx=np.where(adj < N, adj, 0), where=adj < N)
    rec.close(y, base, 'the mask is not respected', tol=1e-10)
    # The message is a function of the source features and the basis only.
    same = np.broadcast_to(table[0, 1], table.shape)
    slots = layouts(gs, N, N, 'sparse', 'plain')
    kw = index_kwargs(slots, N, N, 'sparse')
    y = run(mod, params, xs, edge_values(slots, same, 0.0), **kw)
    for j in range(N):
      for i in range(N):
        rec.close(y[rows[i, j], i], y[rows[0, j], 0], 'message depends on more than source and basis', tol=1e-10, edge=(i, j))
    # Linear in the source features.
    x2 = nnutil.features((N,), s, l, F, 5)
    b = edge_values(slots, table, 0.0)
    y2 = run(mod, params, np.broadcast_to(x2, xs.shape), b, **kw)
    y3 = run(mod, params, xs - 2 * np.broadcast_to(x2, xs.shape), b, **kw)
    rec.close(y3, base - 2 * y2, 'not linear in the features', tol=1e-10)
    # Gradients on every graph.
    for fmt in ('dense', 'sparse'):
      slots = layouts(gs, N, N, fmt, 'plain')
      kw = index_kwargs(slots, N, N, fmt)
      b = edge_values(slots, table, 0.5)
      gx, gb = jax.grad(lambda a, c: jnp.sum(mod.apply(params, a, c, **kw) ** 2), argnums=(0, 1))(jnp.asarray(xs), jnp.asarray(b))
      rec.call()
      rec.check(bool(np.isfinite(gx).all() and np.isfinite(gb).all()), 'gradient is not finite', fmt=fmt)
      gx = np.asarray(gx)
      for k, g in enumerate(gs):
        for j in range(N):
          if not any(b_ == j for _, b_ in g):
            rec.check(np.abs(gx[k, j]).max() == 0, 'gradient reaches a node without outgoing edges', graph=g, node=j)
  elif kind == 'att':
    l, s, heads = 1, job['s'], job['heads']
    x = nnutil.features((N,), s, l, F, 3)
    table = nnutil.generic((N, N, 1, 4, 2), salt=9)
    ctab = np.abs(nnutil.generic((N, N), salt=12))
    mod = make(
        'SelfAttention', num_heads=heads, qkv_features=F, out_features=F,
        use_relative_positional_encoding_qk=bool(job['qk']),
        use_relative_positional_encoding_v=bool(job['v']),
    )
    params, base = None, None
    for fmt, order, pad in itertools.product(('dense', 'sparse'), ('plain', 'reversed', 'rotated'), (0, 2)):
      if pad and order != 'plain':
        continue
      rec.states_bulk((tuple(job.items()), fmt, order, pad), len(gs))
      slots = layouts(gs, N, N, fmt, order, pad)
      kw = index_kwargs(slots, N, N, fmt)
      b = edge_values(slots, table, 7.0) if job['qk'] or job['v'] else None
      c = edge_values(slots, ctab, 3.0) if job['cut'] else None
      xs = np.broadcast_to(x, (len(gs), *x.shape))
      if params is None:
        y, params = run(mod, None, xs, b, c, **kw)
      else:
        y = run(mod, params, xs, b, c, **kw)
      if base is None:
        base = y
      else:
        rec.close(y, base, 'output depends on the format or order of the index list', tol=1e-10, fmt=fmt, order=order, pad=pad)
    model_weights = check_attention(rec, gs, rows, base, heads, N, N)
    # An explicit mask instead of padding indices.
    slots_d = layouts(gs, N, N, 'dense', 'rotated')
    adj = index_kwargs(slots_d, N, N, 'dense')['adj_idx']
    y = run(mod, params, xs, edge_values(slots_d, table, 7.0) if b is not None else None, edge_values(slots_d, ctab, 3.0) if job['cut'] else None, adj_idx=np.where(adj < N, adj, 0), where=adj < N)
    rec.close(y, base, 'the mask is not respected', tol=1e-10)
    # Without cut-off values: same weights up to the cut-off factor.
    if job['cut']:
      y = run(mod, params, xs, b, None, **kw)
      plain = check_attention(rec, gs, rows, y, heads, N, N)
      for i, f in itertools.product(range(N), range(F)):
        ratio = [model_weights[i, f][j] / plain[i, f][j] / ctab[i, j] for j in range(N)]
        rec.close(np.array(ratio) / ratio[0], np.ones(N), 'cut-off values do not multiply the unnormalised weights', tol=1e-6, node=i, feature=f)
      # A vanishing cut-off value is the same as removing the edge.
      c0 = edge_values(slots, np.where(np.eye(N) > 0, 0.0, ctab), 3.0)
      y = run(mod, params, xs, b, c0, **kw)
      for k, g in enumerate(gs):
        h = [e for e in g if e[0] != e[1]]
        rec.close(y[k], base[gs.index(h)], 'an edge with cut-off value 0 still contributes', tol=1e-9, graph=g)
    # Every permutation of the nodes.
    for perm in itertools.permutations(range(N)):
      inv = np.argsort(perm)
      xp = x[np.array(perm)]  # new node k is old node perm[k]
      tp = table[np.ix_(perm, perm)]
      cp = ctab[np.ix_(perm, perm)]
      rec.states_bulk((tuple(job.items()), 'perm', perm), len(gs))
      y = run(mod, params, np.broadcast_to(xp, xs.shape), edge_values(slots, tp, 7.0) if b is not None else None, edge_values(slots, cp, 3.0) if c is not None else None, **kw)
      for k, g in enumerate(gs):
        h = sorted((int(inv[i]), int(inv[j])) for i, j in g)
        kk = rows_of(h)
        rec.close(y[kk], base[k][np.array(perm)], 'not equivariant under permutations of the nodes', tol=1e-9, graph=g, perm=perm)
    for fmt in ('dense', 'sparse'):
      slots = layouts(gs, N, N, fmt, 'plain')
      kw = index_kwargs(slots, N, N, fmt)
      b = jnp.asarray(edge_values(slots, table, 7.0)) if job['qk'] or job['v'] else None
      c = jnp.asarray(edge_values(slots, ctab, 3.0)) if job['cut'] else None
      g = jax.grad(lambda a, b_, c_: jnp.sum(mod.apply(params, a, b_, c_, **kw) ** 2), argnums=(0,) + ((1,) if b is not None else ()) + ((2,) if c is not None else ()))(jnp.asarray(xs), b, c)
      rec.call()
      rec.check(all(bool(np.isfinite(v).all()) for v in g), 'gradient is not finite', fmt=fmt)
  elif kind == 'bipartite':
    n, m, fmt = 2, 3, job['fmt']
    gs2 = graphs(n, m)
    xq = nnutil.features((n,), 2, 1, F, 3)
    xk = nnutil.features((m,), 2, 1, 3, 4)
    table = nnutil.generic((n, m, 1, 4, 2), salt=9)
    mod = make('MultiHeadAttention', num_heads=2, qkv_features=F, out_features=F, use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=bool(job['v']))
    slots = layouts(gs2, n, m, fmt, 'plain')
    kw = index_kwargs(slots, n, m, fmt)
    b = edge_values(slots, table, 7.0) if job['v'] else None
    rec.states_bulk((tuple(job.items()), 'bipartite'), len(gs2))
    bq = lambda a: np.broadcast_to(a, (len(gs2), *a.shape))
    y, params = run(mod, None, bq(xq), bq(xk), b, **kw)
    rows2 = {e: gs2.index([e]) for e in itertools.product(range(n), range(m))}
    w1 = check_attention(rec, gs2, rows2, y, 2, n, m)
    # The scores are linear in the queries, the values do not depend on them.
    y2 = run(mod, params, bq(2 * xq), bq(xk), b, **kw)
    for e in rows2.values():
      rec.close(y2[e], y[e], 'the value of a single neighbour depends on the query', tol=1e-10)
    w2 = check_attention(rec, gs2, rows2, y2, 2, n, m)
    for i, f in itertools.product(range(n), range(F)):
      a, c = (np.log(np.array([w[i, f][j] for j in range(m)])) for w in (w1, w2))
      rec.close(c - c[0], 2 * (a - a[0]), 'attention scores are not linear in the queries', tol=1e-6)
    # Scores are linear in the keys as well; values too.
    y3 = run(mod, params, bq(xq), bq(2 * xk), b, **kw)
    for e in rows2.values():
      rec.close(y3[e], 2 * y[e], 'values are not linear in the inputs', tol=1e-10)
    w3 = check_attention(rec, gs2, rows2, y3, 2, n, m)
    for i, f in itertools.product(range(n), range(F)):
      a, c = (np.log(np.array([w[i, f][j] for j in range(m)])) for w in (w1, w3))
      rec.close(c - c[0], 2 * (a - a[0]), 'attention scores are not linear in the keys', tol=1e-6)
  elif kind == 'definition':
    n, m, heads, f = 2, 3, 2, 6
    (s_q, l_q), (s_k, l_k) = job['q'], job['kv']
    gs2 = graphs(n, m)
    xq = nnutil.features((n,), s_q, l_q, 4, 3)
    xk = nnutil.features((m,), s_k, l_k, 5, 4)
    table = nnutil.generic((n, m, 1, 4, 3), salt=9)
    ctab = np.abs(nnutil.generic((n, m), salt=12))
    bias = nnutil.GenericInit(salt=77).plain
    mod = make(
        'MultiHeadAttention', num_heads=heads, qkv_features=f, out_features=5, use_basis_bias=True,
        use_relative_positional_encoding_qk=bool(job['qk']), use_relative_positional_encoding_v=bool(job['v']),
        query_use_bias=True, value_use_bias=True, output_use_bias=True, output_kernel_init=bias,
        **{k + '_bias_init': bias for k in ('dense', 'query', 'value', 'output')},
    )
    first = None
    for fmt in ('dense', 'sparse'):
      slots = layouts(gs2, n, m, fmt, 'plain')
      kw = index_kwargs(slots, n, m, fmt)
      rec.states_bulk((str(job), fmt), len(gs2))
      b = edge_values(slots, table, 0.5)  # (Unused if there is no encoding.)
      c = edge_values(slots, ctab, 0.5) if job['cut'] else None
      bq = lambda a: np.broadcast_to(a, (len(gs2), *a.shape))
      if first is None:
        first, params = run(mod, None, bq(xq), bq(xk), b, c, **kw)
      else:
        rec.close(run(mod, params, bq(xq), bq(xk), b, c, **kw), first, 'formats differ', tol=1e-10)
    t = params['params']
    s, l = min(s_q, s_k), min(l_q, l_k)
    query = ref_dense(t['query'], common_channels(xq, s, l)).reshape(n, s, (l + 1) ** 2, f // heads, heads)
    keys = ref_dense(t['key'], common_channels(xk, s, l)).reshape(m, s, (l + 1) ** 2, f // heads, heads)
    value = ref_dense(t['value'], xk)
    enc = np.ones((n, m, s, (l + 1) ** 2, f))
    if job['qk']:
      leaf = t['relative_positional_encoding']
      e = (table[..., 0, 0, :] @ np.asarray(leaf['kernel']) + np.asarray(leaf['bias'])).reshape(n, m, s, l + 1, f)
      enc = np.repeat(e, 2 * np.arange(l + 1) + 1, axis=-2)
    enc = enc.reshape(n, m, s, (l + 1) ** 2, f // heads, heads)
    score = np.einsum('isdfh,jsdfh,ijsdfh->ijh', query, keys, enc) / np.sqrt(s * (l + 1) ** 2 * (f // heads))
    filters = ref_dense(t['filter'], table) if job['v'] else None
    for k, g in enumerate(gs2):
      for i in range(n):
        js = [j for a, j in g if a == i]
        w = np.zeros((m, heads))
        if js:
          e = np.exp(score[i, js] - score[i, js].max(axis=0)) * (ctab[i, js][:, None] if job['cut'] else 1)
          w[js] = e / e.sum(axis=0)
        # (Heads own consecutive features of the values.)
        weighted = np.repeat(w, f // heads, axis=-1)[:, None, None, :] * value
        if job['v']:
          tensor = getattr(nn, 'FusedTensor' if job['fused'] else 'Tensor')()
          name = 'fused_tensor' if job['fused'] else 'tensor'
          if k == 0 and i == 0:
            couple = jax.jit(lambda a, b_: tensor.apply({'params': t[name]}, a, b_))
          out = np.asarray(couple(filters[i], weighted))
        else:
          out = weighted
        out = out[js].sum(axis=0) if js else np.zeros(out.shape[1:])
        rec.close(first[k, i], ref_dense(t['out'], out), 'attention differs from its definition', tol=1e-8, graph=g, node=i)
  elif kind == 'definition_mp':
    table = nnutil.generic((N, N, 1, 4, 3), salt=9)
    wtab = nnutil.generic((N, N, 1, 1, 1), salt=11)
    bias = nnutil.GenericInit(salt=77).plain
    for s, l in ((1, 0), (1, 2), (2, 1)):
      x = nnutil.features((N,), s, l, F, 3)
      mod = make('MessagePass', use_basis_bias=True, dense_bias_init=bias)
      slots = layouts(gs, N, N, 'dense', 'plain')
      kw = index_kwargs(slots, N, N, 'dense')
      rec.states_bulk((str(job), s, l), len(gs))
      xs = np.broadcast_to(x, (len(gs), *x.shape))
      y, params = run(mod, None, xs, edge_values(slots, table, 0.5), edge_values(slots, wtab, 0.5), **kw)
      t = params['params']
      filters = ref_dense(t['filter'], table)
      tensor = getattr(nn, 'FusedTensor' if job['fused'] else 'Tensor')()
      name = 'fused_tensor' if job['fused'] else 'tensor'
      out = np.asarray(tensor.apply({'params': t[name]}, filters, wtab * x[None]))
      for g, v in zip(gs, y):
        want = np.zeros_like(v)
        for i, j in g:
          want[i] += out[i, j]
        rec.close(v, want, 'message passing differs from its definition', tol=1e-9, graph=g)
  elif kind == 'batch':
    # Batch entries do not influence each other; batch ranks 0, 1, 2.
    x = nnutil.features((2, 2, N), 2, 1, F, 3)
    sel = [gs[k] for k in (511, 0, 2 + 16, 1 + 8 + 64)]
    table = nnutil.generic((N, N, 1, 4, 2), salt=9)
    mod = make(job['which'])
    for fmt in ('dense', 'sparse'):
      slots = layouts(sel, N, N, fmt, 'plain')
      kw = index_kwargs(slots, N, N, fmt)
      b = edge_values(slots, table, 0.0)
      rec.state(tuple(job.items()), fmt, 'rank2')
      y, params = run(mod, None, x, b.reshape(2, 2, *b.shape[1:]), **{k: v.reshape(2, 2, *v.shape[1:]) for k, v in kw.items()})
      rec.check(y.shape[:3] == (2, 2, N), 'wrong batch shape', shape=y.shape)
      y = y.reshape(4, *y.shape[2:])
      x1 = x.reshape(4, *x.shape[2:])
      rec.state(tuple(job.items()), fmt, 'rank1')
      rec.close(run(mod, params, x1, b, **kw), y, 'output depends on the batch rank', tol=1e-10)
      for i in range(4):
        rec.state(tuple(job.items()), fmt, i)
        y0 = run(mod, params, x1[i], b[i], **{k: v[i] for k, v in kw.items()})
        rec.close(y0, y[i], 'batch entries influence each other', tol=1e-10, entry=i)
        # Default number of nodes: trailing padding removed.
        yj = jax.jit(lambda a, c: mod.apply(params, a, c, **{k: v[i] for k, v in kw.items()}))(x1[i], b[i])
        rec.close(np.asarray(yj), y[i], 'differs under jit', tol=1e-10)
  elif kind == 'cancel':
    # Two disjoint systems in one list give the results of the single systems.
    fmt = job['fmt']
    table = nnutil.generic((N, N, 1, 4, 2), salt=9)
    mod = make(job['which'])
    x = nnutil.features((2 * N,), 2, 1, F, 3)
    params = None
    for a, c in itertools.product((511, 0, 18, 73, 256), repeat=2):
      rec.state(tuple(job.items()), a, c)
      both = gs[a] + [(i + N, j + N) for i, j in gs[c]]
      big = np.zeros((2 * N, 2 * N, 1, 4, 2))
      big[:N, :N], big[N:, N:] = table, table[::-1]
      slots = layouts([both], 2 * N, 2 * N, fmt, 'plain')
      kw = {k: v[0] for k, v in index_kwargs(slots, 2 * N, 2 * N, fmt).items()}
      b = edge_values(slots, big, 0.0)[0]
      if params is None:
        y, params = run(mod, None, x, b, **kw)
      else:
        y = run(mod, params, x, b, **kw)
      for part, k, t in ((slice(0, N), a, table), (slice(N, 2 * N), c, table[::-1])):
        slots = layouts([gs[k]], N, N, fmt, 'plain')
        kw = {q: v[0] for q, v in index_kwargs(slots, N, N, fmt).items()}
        y1 = run(mod, params, x[part], edge_values(slots, t, 0.0)[0], **kw)
        rec.close(y[part], y1, 'disconnected parts of the graph influence each other', tol=1e-9)
  else:
    x = nnutil.features((N,), 1, 1, F, 3)
    b = nnutil.generic((2, 1, 4, 2), salt=9)
    idx = dict(dst_idx=np.array([0, 1]), src_idx=np.array([1, 0]))
    rec.state('basis required')
    rec.raises(lambda: make('SelfAttention').init_with_output(key, x, **idx), 'attention accepts missing basis functions')
    rec.state('heads')
    rec.raises(lambda: make('SelfAttention', num_heads=3).init_with_output(key, x, b, **idx), 'features not divisible by heads are accepted')
    rec.state('no index list')
    rec.raises(lambda: make('MessagePass').init_with_output(key, x, b), 'missing index lists are accepted')
    rec.state('basis shape')
    rec.raises(lambda: make('MessagePass').init_with_output(key, x, b[:1], **idx), 'basis functions of another shape are accepted')
    rec.state('weights shape')
    rec.raises(lambda: make('MessagePass').init_with_output(key, x, b, np.ones((3, 1, 1, 1)), **idx), 'weights of another shape are accepted')


def rows_of(h):
  return sum(1 << EDGES.index(e) for e in h)


def check_attention(rec, gs, rows, y, heads, n, m):
  """Weights of every node and feature must form a softmax; returns them."""
  rec.check(bool(np.isfinite(y).all()), 'output is not finite')
  f_all = y.shape[-1]
  out = {}
  for i in range(n):
    value = np.stack([y[rows[i, j], i] for j in range(m)])  # (m, s, L, F)
    for k, g in enumerate(gs):
      nb = [j for (a, j) in g if a == i]
      if not nb:
        rec.check(np.abs(y[k, i]).max() == 0, 'a node without neighbours attends to something', graph=g, node=i)
    full = len(gs) - 1
    for f in range(f_all):
      a = value[..., f].reshape(m, -1).T
      w, *_ = np.linalg.lstsq(a, y[full, i, ..., f].reshape(-1), rcond=None)
      rec.close(a @ w, y[full, i, ..., f].reshape(-1), 'output is not a weighted sum of the values of the neighbours', tol=1e-7, node=i)
      rec.check(bool((w > 0).all()) and abs(w.sum() - 1) < 1e-7, 'attention weights are not a convex combination', node=i, weights=w.tolist())
      out[i, f] = w
    for k, g in enumerate(gs):
      nb = [j for (a, j) in g if a == i]
      if nb:
        want = np.zeros_like(y[k, i])
        for f in range(f_all):
          w = out[i, f][nb] / out[i, f][nb].sum()
          want[..., f] = np.einsum('j,jsl->sl', w, value[nb][..., f])
        rec.close(y[k, i], want, 'attention weights are not a softmax over the neighbours', tol=1e-7, graph=g, node=i)
    pats = np.stack([out[i, f] for f in range(f_all)])
    distinct = []
    for p in pats:
      if not any(np.abs(p - q).max() < 1e-9 for q in distinct):
        distinct.append(p)
    rec.check(len(distinct) == heads, 'number of different attention patterns is not the number of heads', found=len(distinct), heads=heads)
  rec.outcome(tuple(np.round(out[0, 0], 6)))
  return out

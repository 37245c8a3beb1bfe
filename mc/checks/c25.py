"""A documented model is a smooth, conservative, invariant potential.

The model of the documentation (embedding, basis functions with a cut-off,
interaction layers, atom-wise refinement, sum over atoms) is assembled from the
public interface and evaluated on every placement of its atoms on a lattice that
contains coincident atoms, collinear and planar arrangements, pairs exactly at
the cut-off and pairs beyond it.
"""

import itertools
from functools import partial
import os

import numpy as np

from mc import nnutil

# The algebraic simplifier of the installed XLA compiler rejects its own output
# for chains of batched contractions (see DESIGN.md); unrelated to e3x.
os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '') + ' --xla_disable_hlo_passes=algsimp'

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = (
    'potentials assembled as documented from {MessagePass, SelfAttention,'
    ' MultiHeadAttention} x dense/sparse index lists x 4 radial functions x'
    ' smooth/cosine cut-off x max_degree 0..2 x tensor product kinds x component'
    ' order (16 models; thorough: 48) x every placement of 3 (thorough also 4,'
    ' on 8 points) atoms on a 3x3x3 lattice (coincident, collinear, exactly at'
    ' the cut-off, beyond it): energies and forces finite, forces = finite'
    ' differences, no net force and torque, invariance under generators of O(3),'
    ' translation, and every permutation; removal of every subset of pairs beyond the'
    ' cut-off; an atom pulled through the cut-off; padding; batches; in float32,'
    ' approach of the cut-off and of another atom in 900 steps'
)
ASSUMPTIONS = [
    'generic parameters, float64; finite differences at 2e-6',
    'forces on coincident atoms are only required to be finite (the potential'
    ' has no derivative there)',
]
TABLES = dict(quick=(2, 0), thorough=(2, 0))

CUT = 1.8
STEP = 0.9  # two steps: exactly at the cut-off
F = 4


def variants(tier):
  out = []
  radials = ('reciprocal_bernstein', 'exponential_gaussian', 'basic_fourier', 'exponential_chebyshev')
  n = 16 if tier == 'quick' else 48
  for i in range(n):
    out.append(dict(
        inter=('MessagePass', 'SelfAttention', 'MessagePass', 'MultiHeadAttention')[i % 4],
        fmt=('sparse', 'dense')[(i // 4 + i) % 2],
        radial=radials[(i + i // 4) % 4],
        cut=('smooth_cutoff', 'cosine_cutoff')[(i // 2) % 2],
        l=(1, 2, 0, 1, 2)[i % 5],
        fused=bool((i // 3) % 2),
        cart=bool((i // 5 + 1) % 2),
        pseudo=bool((i // 2 + i // 8 + 1) % 2),
        act=('silu', 'gelu', 'shifted_softplus', 'mish', 'bent_identity')[i % 5],
        dense=('Dense', 'TensorDense')[(i // 7) % 2],
    ))
  return out


def plan(tier):
  jobs = [dict(v, n=3) for v in variants(tier)]
  jobs += [dict(v, n=3, single=True) for v in variants(tier)]
  if tier == 'thorough':
    jobs += [dict(v, n=4) for v in variants('quick')]
  return jobs


def weight(job):
  return (not job.get('single'), job['l'], job['inter'] != 'MessagePass', job['fused'])


def build(e3x, jax, jnp, c):
  """energy(params, z, r, index lists, number of atoms) -> atomic energies."""
  import flax.linen as fnn

  nn, ops = e3x.nn, e3x.ops
  cutoff = lambda x: getattr(nn, c['cut'])(x, CUT)
  DT = jnp.float32 if c.get('single') else jnp.float64
  kw = dict(use_fused_tensor=c['fused'], cartesian_order=c['cart'], param_dtype=DT)

  class Model(fnn.Module):

    @fnn.compact
    def __call__(self, z, r, idx):
      disp = ops.gather_src(r, **idx) - ops.gather_dst(r, **idx)
      extra = {} if c['radial'].startswith(('rec', 'exp')) else dict(limit=CUT)
      basis, cut = nn.basis(
          disp, max_degree=c['l'], num=3, cutoff_fn=cutoff, return_cutoff=True, cartesian_order=c['cart'],
          radial_fn=lambda x, num: getattr(nn, c['radial'])(x, num, **extra),
      )
      x = nn.Embed(num_embeddings=4, features=F, param_dtype=DT)(z)
      for it in range(2):
        opts = dict(kw)
        if it:
          opts |= dict(max_degree=0, include_pseudotensors=False)
        else:
          opts |= dict(include_pseudotensors=c['pseudo'])
        if c['inter'] == 'MessagePass':
          y = nn.MessagePass(**opts)(x, basis, **idx)
        elif c['inter'] == 'SelfAttention':
          y = nn.SelfAttention(num_heads=2, **opts)(x, basis, cut, **idx)
        else:
          y = nn.MultiHeadAttention(num_heads=2, **opts)(x, x, basis, cut, **idx)
        if it:
          x = nn.change_max_degree_or_type(x, max_degree=0, include_pseudotensors=False)
          y = nn.change_max_degree_or_type(y, max_degree=0, include_pseudotensors=False)
        y = nn.add(x, y)
        if c['dense'] == 'TensorDense' and not it:
          y = nn.TensorDense(F, **kw)(y)
        else:
          y = nn.Dense(F, param_dtype=DT)(y)
        y = getattr(nn, c['act'])(y)
        y = nn.Dense(F, param_dtype=DT)(y)
        x = nn.add(x, y)
      return fnn.Dense(1, use_bias=False, param_dtype=DT)(x)[..., 0, 0, 0]

  return Model()


def approach(rec, job, cfg, ev, n):
  """One atom (next to others, or as the only neighbour) approaches the cut-off,
  or another atom, in single precision: energies and forces stay finite and do
  not jump."""
  frac = 1 - np.concatenate([np.linspace(0.2, 0.001, 800), 10.0 ** -np.arange(3, 8, 0.25), [0, -1e-6, -1e-3, -0.1]])
  near = 10.0 ** -np.arange(0, 46, 0.5)
  axis = np.array([0.6, 0.0, 0.8])
  for name, dist, other in (('alone', frac * CUT, 40.0), ('beside', frac * CUT, 0.7), ('close alone', near, 40.0), ('close beside', near, 0.7)):
    rec.states_bulk((cfg, name), len(dist))
    path = np.array([[[0, 0, 0], t * axis, [0, other, 0.1], [0.2, other, 0.5]][:n] for t in dist])
    e, g = ev(path)
    rec.call(len(path))
    ok = np.isfinite(e) & np.isfinite(g).all((1, 2))
    rec.check(bool(ok.all()), 'energy or force is not finite (float32)', model=cfg, path=name, distance=dist[~ok][:3].tolist())
    if not name.startswith('close'):
      span = 1 + np.abs(e).max() + np.abs(g).max()
      rec.check(bool((np.abs(np.diff(e)) <= (20 * np.abs(np.diff(dist)) + 2e-5) * span).all()), 'energy jumps on approach of the cut-off (float32)', model=cfg, path=name, jump=float(np.abs(np.diff(e)).max()))


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  single = job.get('single', False)
  dt = np.float32 if single else np.float64
  jax.config.update('jax_enable_x64', not single)
  ops = e3x.ops
  n, fmt = job['n'], job['fmt']
  cfg = tuple((k, v) for k, v in job.items())
  model = build(e3x, jax, jnp, job)

  def full(k, mask=None, off=0, pad=0):
    """Index lists of all pairs of k atoms (in steps of the mask)."""
    if fmt == 'dense':
      adj = np.asarray(ops.dense_pairwise_indices(k))
      adj = np.concatenate([adj, np.full((k, pad), k + 3)], 1)
      return dict(adj_idx=jnp.asarray(adj))
    d, s = map(np.asarray, ops.sparse_pairwise_indices(k))
    p = np.full(pad, k + 3)
    return dict(dst_idx=jnp.asarray(np.concatenate([d, p])), src_idx=jnp.asarray(np.concatenate([s, p])))

  z = np.array([1, 2, 1, 3])[:n]
  lists = {k: full(k) for k in range(2, n + 1)}
  shapes = jax.eval_shape(lambda: model.init(jax.random.PRNGKey(0), jnp.asarray(z), jnp.ones((n, 3)), lists[n]))
  leaves, tree = jax.tree_util.tree_flatten(shapes)
  params = jax.tree_util.tree_unflatten(tree, [jnp.asarray(nnutil.generic(l.shape, salt=31 * i, scale=1.2 if job['fused'] else 0.6), dt) for i, l in enumerate(leaves)])

  energy = lambda p, z, r, idx: jnp.sum(model.apply(p, z, r, idx))

  def tile(idx, m, k):
    """The index lists of m copies of a molecule of k atoms, as one list."""
    out = {}
    for key, v in idx.items():
      v = np.asarray(v)
      v = np.where(v < k, v + k * np.arange(m).reshape((m,) + (1,) * v.ndim), m * k + 3)
      out[key] = jnp.asarray(v.reshape((-1,) + v.shape[2:]))
    return out

  @partial(jax.jit, static_argnums=3)
  def many(r, z, idx, count):
    def total(r):
      a = model.apply(params, z, r, idx).reshape(count, -1)[:, :n].sum(1)
      return a.sum(), a

    (_, a), g = jax.value_and_grad(total, has_aux=True)(r)
    return a, g.reshape(count, -1, 3)

  def ev(r, z=z, idx=None):
    r = np.asarray(r)
    count, k = r.shape[:2]
    m = 1000 if count <= 1000 else 2000 if count <= 2000 else count
    r = np.concatenate([r, np.repeat(r[-1:], m - count, 0)])  # one compilation
    args = jnp.asarray(r.reshape(-1, 3), dt), jnp.asarray(np.tile(z, m)), tile(idx or lists[k], m, k)
    return tuple(np.asarray(v)[:count] for v in many(*args, m))

  if n == 3:
    points = [np.array(p) * STEP for p in itertools.product(range(3), repeat=3)]
  else:
    points = [np.array(p) * STEP for p in itertools.product((0, 2), (0, 1), (0, 1))]
  conf = np.array([[points[0], *p] for p in itertools.product(points, repeat=n - 1)])
  conf = np.concatenate([conf, conf[1::3] + nnutil.generic(conf[1::3].shape, salt=3, scale=0.2)])
  rec.states_bulk(cfg, len(conf))
  rec.case = cfg
  e, g = ev(conf)
  rec.call(len(conf))
  rec.check(bool(np.isfinite(e).all()), 'energy is not finite', model=cfg, at=conf[~np.isfinite(e)][:1].tolist())
  bad = ~np.isfinite(g).all((1, 2))
  rec.check(not bad.any(), 'force is not finite', model=cfg, at=conf[bad][:1].tolist())
  dist = np.linalg.norm(conf[:, :, None] - conf[:, None], axis=-1)
  pairs = list(itertools.combinations(range(n), 2))
  dp = np.stack([dist[:, i, j] for i, j in pairs], 1)
  regular = dp.min(1) > 1e-9
  inter = e[regular & (dp.min(1) < 1.0)]
  if single:
    approach(rec, job, cfg, ev, n)
    rec.outcome((cfg, float(np.round(e.sum(), 1))))
    return
  rec.check(inter.max() - inter.min() > 1e-4, 'the potential does not depend on the positions', model=cfg)
  scale = 1 + np.abs(g[regular]).max()

  # Forces are the negative gradient; no net force, no torque.
  h = 1e-5
  num = np.zeros_like(g)
  for i, k in itertools.product(range(n), range(3)):
    dr = np.zeros((n, 3))
    dr[i, k] = h
    num[:, i, k] = (ev(conf + dr)[0] - ev(conf - dr)[0]) / (2 * h)
    rec.call(2 * len(conf))
  # The cosine cut-off has a kink of the curvature at the cut-off.
  tol = 2e-6 if job['cut'] == 'smooth_cutoff' else 2e-4
  rec.close(g[regular] / scale, num[regular] / scale, 'forces are not the gradient of the energy', tol=tol, model=cfg)
  rec.close(g[regular].sum(1) / scale, np.zeros((regular.sum(), 3)), 'net force', tol=1e-9, model=cfg)
  rec.close(np.cross(conf, g)[regular].sum(1) / scale, np.zeros((regular.sum(), 3)), 'net torque', tol=1e-9, model=cfg)

  # Symmetries.
  for rot, imp in nnutil.GENERATORS:
    m = rot * (-1 if imp else 1)
    rec.states_bulk((cfg, 'symmetry', np.round(m, 3).tolist()), len(conf))
    e2, g2 = ev(conf @ m + np.array([0.4, -1.3, 2.1]))
    rec.call(len(conf))
    rec.close(e2, e, 'energy is not invariant', tol=1e-8, model=cfg, improper=imp)
    rec.close(g2[regular] / scale, (g @ m)[regular] / scale, 'forces do not rotate', tol=1e-8, model=cfg, improper=imp)
  for perm in itertools.permutations(range(n)):
    rec.states_bulk((cfg, 'permutation', perm), len(conf))
    e2, g2 = ev(conf[:, list(perm)], z[list(perm)])
    rec.call(len(conf))
    rec.close(e2, e, 'energy depends on the order of the atoms', tol=1e-9, model=cfg, perm=perm)
    rec.close(g2[regular] / scale, g[:, list(perm)][regular] / scale, 'forces depend on the order of the atoms', tol=1e-9, model=cfg, perm=perm)
  # Atoms of the same kind cannot be told apart, different kinds can.
  e2, _ = ev(conf, np.array([2, 1, 1, 3])[:n])
  rec.check(np.abs(e2 - e)[regular].max() > 1e-4, 'the kind of an atom does not matter', model=cfg)

  # Index lists without the pairs beyond the cut-off (any subset of them).
  beyond = np.repeat(dp[:, :, None] > CUT + 1e-9, 1, 2)[:, :, 0]
  for drop in range(1, 2 ** len(pairs)):
    gone = np.array([bool(drop >> k & 1) for k in range(len(pairs))])
    sel = (beyond[:, gone]).all(1)
    if n > 3 and drop % 7:
      continue
    if not sel.any():
      continue
    rec.states_bulk((cfg, 'beyond', drop), int(sel.sum()))
    lost = {p for k, p in enumerate(pairs) if gone[k]}
    has = lambda i, j: (min(i, j), max(i, j)) not in lost
    if fmt == 'dense':
      adj = np.array([[j if has(i, j) else n for j in range(n) if j != i] for i in range(n)])
      idx = dict(adj_idx=jnp.asarray(adj))
    else:
      es = [(i, j) for i in range(n) for j in range(n) if i != j]
      es = [x for x in es if has(*x)] + [(n, n)] * (2 * len(lost))
      idx = dict(dst_idx=jnp.asarray([x[0] for x in es]), src_idx=jnp.asarray([x[1] for x in es]))
    e2, g2 = ev(conf[sel], z, idx)
    rec.call(int(sel.sum()))
    rec.close(e2, e[sel], 'pairs beyond the cut-off change the energy', tol=1e-9, model=cfg, pairs=sorted(lost))
    rec.close(g2 / scale, g[sel] / scale, 'pairs beyond the cut-off change the forces', tol=1e-9, model=cfg, pairs=sorted(lost))

  # An atom is pulled through the cut-off: energy and forces are continuous.
  line = CUT + np.concatenate([-(10.0 ** -np.arange(1, 13)), [0], 10.0 ** -np.arange(12, 0, -1.0)])
  axis = np.array([0.6, 0.0, 0.8])
  path = np.array([[[0, 0, 0], [0.7, -0.3, 0.2], t * axis, [0.1, 0.9, 0.5]][:n] for t in line])
  rec.states_bulk((cfg, 'path'), len(path))
  ep, gp = ev(path)
  rec.call(len(path))
  rec.check(bool(np.isfinite(ep).all() and np.isfinite(gp).all()), 'energy or force at the cut-off is not finite', model=cfg)
  step = np.abs(np.diff(line))
  size = 1 + np.abs(gp).max()
  rec.check(bool((np.abs(np.diff(ep)) <= 20 * size * step + 1e-11).all()), 'energy jumps at the cut-off', model=cfg, jump=np.abs(np.diff(ep)).max())
  fine = step < 1e-5
  rec.check(bool((np.abs(np.diff(gp, axis=0)).max((1, 2))[fine] <= 5e3 * size * step[fine] + 1e-9).all()), 'force jumps at the cut-off', model=cfg)

  # Padding: more pairs, more atoms.
  sub = conf[:: max(1, len(conf) // 64)]
  e0, g0 = ev(sub)
  for pad_pairs, pad_atoms in ((3, 0), (2, 2)):
    rec.states_bulk((cfg, 'padding', pad_pairs, pad_atoms), len(sub))
    idx = full(n, pad=pad_pairs)
    r2 = np.concatenate([sub, np.full((len(sub), pad_atoms, 3), 0.3)], 1)
    z2 = np.concatenate([z, np.zeros(pad_atoms, int)])
    if fmt == 'dense' and pad_atoms:
      a = np.asarray(idx['adj_idx'])
      idx = dict(adj_idx=jnp.asarray(np.concatenate([a, np.full((pad_atoms, a.shape[1]), n + 3)])))
    e2, g2 = ev(r2, z2, idx)
    rec.call(len(sub))
    rec.check(bool(np.isfinite(g2).all()), 'force is not finite with padding', model=cfg)
    rec.close(e2, e0, 'padding changes the energy', tol=1e-9, model=cfg, pairs=pad_pairs, atoms=pad_atoms)
    rec.close(g2[:, :n], g0, 'padding changes the forces', tol=1e-9, model=cfg, pairs=pad_pairs, atoms=pad_atoms)
    rec.check(np.abs(g2[:, n:]).max(initial=0) == 0, 'force on a padding atom', model=cfg)

  # Batches: molecules in one list, told apart by their segments only; they may
  # overlap in space.
  pick = conf[[len(conf) // 5, len(conf) // 2, -1]]
  es, gs = ev(pick)
  for sizes in ((n, n), (n, 1, n), (1, n)):
    rec.state(cfg, 'batch', sizes)
    rs, zs, dst, src, seg, want, wantf = [], [], [], [], [], [], []
    for k, m in enumerate(sizes):
      off = sum(sizes[:k])
      rs.append(pick[k][:m])
      zs.append(z[:m])
      seg += [k] * m
      d, s = np.asarray([(i, j) for i in range(m) for j in range(m) if i != j], int).reshape(-1, 2).T
      dst.append(d + off)
      src.append(s + off)
      if m == n:
        want.append(es[k])
        wantf.append(gs[k])
      else:
        none = dict(dst_idx=jnp.full((1,), 9), src_idx=jnp.full((1,), 9))
        want.append(float(energy(params, jnp.asarray(z[:m]), jnp.asarray(pick[k][:m]), none)) if fmt == 'sparse' else None)
        wantf.append(np.zeros((m, 3)))
    dst, src = np.concatenate(dst), np.concatenate(src)
    if fmt == 'dense':
      idx = dict(adj_idx=ops.sparse_to_dense_indices(jnp.asarray(dst), jnp.asarray(src)))
      rows = idx['adj_idx'].shape[0]
      if rows < sum(sizes):
        continue
    else:
      idx = dict(dst_idx=jnp.asarray(dst), src_idx=jnp.asarray(src))

    def total(r):
      a = model.apply(params, jnp.asarray(np.concatenate(zs)), r, idx)
      en = jax.ops.segment_sum(a, segment_ids=jnp.asarray(seg), num_segments=len(sizes))
      return jnp.sum(en), en

    (_, en), gr = jax.jit(jax.value_and_grad(total, has_aux=True))(jnp.asarray(np.concatenate(rs)))
    rec.call()
    for k, w in enumerate(want):
      if w is not None:
        rec.close(en[k], w, 'molecules of one batch influence each other', tol=1e-9, model=cfg, sizes=sizes)
    rec.close(gr, np.concatenate(wantf), 'forces in a batch differ', tol=1e-9, model=cfg, sizes=sizes)

  # Training on forces: derivatives with respect to the parameters.
  sub = conf[regular][:: max(1, int(regular.sum()) // 64)]
  rec.states_bulk((cfg, 'training'), len(sub))
  zt, it = jnp.asarray(np.tile(z, len(sub))), tile(lists[n], len(sub), n)

  def loss(p, r):
    f = jax.grad(energy, argnums=2)(p, zt, r, it)
    return jnp.sum(f**2)

  gp = jax.jit(jax.grad(loss))(params, jnp.asarray(sub.reshape(-1, 3)))
  rec.call(len(sub))
  for leaf in jax.tree_util.tree_leaves(gp):
    rec.check(bool(np.isfinite(np.asarray(leaf)).all()), 'gradient of a force loss is not finite', model=cfg)
  rec.outcome((cfg, float(np.round(e.sum(), 4))))

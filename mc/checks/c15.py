"""Message passing and attention models are E(3)-equivariant end to end.

Positions -> basis functions -> interaction layer -> features.  Equivariance is
checked under generators of a dense subgroup of O(3) (rotations about two axes
by angles that are irrational multiples of pi, the inversion), a translation
and their products: a continuous map that commutes with the generators commutes
with the whole group.
"""

import itertools

import numpy as np

from mc import nnutil
from mc import ref

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = (
    'MessagePass, SelfAttention and MultiHeadAttention x input degrees 0..2 x'
    ' basis degrees 0..2 x output degree {None, 0..2} x input parity channels x'
    ' include_pseudotensors x plain/fused tensor products x component order x'
    ' dense/sparse lists (quick: a fixed fraction of the product that contains'
    ' every pair of option values; thorough: all) x generators of a dense'
    ' subgroup of O(3) and a translation, on a generic 4-node graph with one'
    ' isolated and one one-way connected node'
)
ASSUMPTIONS = [
    'parameters and positions are generic numbers (float64, tolerance 1e-6)',
    'equivariance for generators implies equivariance for the generated dense'
    ' subgroup and, by continuity, for O(3)',
]
TABLES = dict(quick=(3, 0), thorough=(4, 0))

POS = np.array([[0.1, 0.2, -0.3], [0.9, -0.4, 0.5], [-0.6, 0.7, 0.8], [0.3, -0.9, -0.7]])
DST = np.array([0, 0, 0, 1, 1, 3])
SRC = np.array([1, 2, 3, 0, 2, 2])  # node 2 receives nothing
ADJ = np.array([[1, 2, 3], [0, 4, 2], [4, 4, 4], [2, 4, 4]])
F = 2


def configs(which):
  if which == 'MultiHeadAttention':
    ls = [(a, b) for a in range(3) for b in range(3)]
  else:
    ls = [(a, None) for a in range(3)]
  for (l, lkv), lb, out, s, pseudo, fused, cart, dense in itertools.product(
      ls, range(3), (None, 0, 1, 2), (1, 2), (True, False), (False, True), (True, False), (True, False)
  ):
    if out is None or out <= lb + (l if lkv is None else lkv):
      yield dict(l=l, lkv=lkv, lb=lb, out=out, s=s, pseudo=pseudo, fused=fused, cart=cart, dense=dense)


def plan(tier):
  jobs = []
  for which in ('MessagePass', 'SelfAttention', 'MultiHeadAttention'):
    cfgs = list(configs(which))
    if tier == 'quick':
      # The binary options follow a parity code: every pair of values of any
      # two options occurs for every combination of degrees.
      keep = []
      for c in cfgs:
        bits = [c['s'] - 1, c['pseudo'], c['fused'], c['cart'], c['dense']]
        deg = c['l'] + c['lb'] + (3 if c['out'] is None else c['out']) + (c['lkv'] or 0)
        if which != 'MessagePass' and ((c['out'] is None) != (deg % 2 == 0)):
          continue
        if which == 'MultiHeadAttention' and (c['lkv'] == c['l'] or c['lb'] == 2):
          continue
        s, p, f, o, d = map(int, bits)
        # 8 of 32: two linear constraints, offset by the degrees.
        if (s + p + f + deg) % 2 == 0 and (f + o + d + deg // 2) % 2 == 0:
          keep.append(c)
      cfgs = keep
      if which == 'MultiHeadAttention':
        cfgs = cfgs[::2]
    for i, c in enumerate(cfgs):
      # Relative positional encoding of (query/key, value), see the docs.
      c['rel'] = [(1, 1), (1, 1), (0, 1), (1, 0), (0, 0)][i % 5]
    n = 12
    jobs += [dict(which=which, configs=cfgs[i:i + n]) for i in range(0, len(cfgs), n)]
  return jobs


def weight(job):
  return sum((1 + c['l']) * (1 + c['lb']) * c['s'] * (1 + (c['out'] or 1)) for c in job['configs'])


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  jax.config.update('jax_enable_x64', True)
  nn = e3x.nn
  for c in job['configs']:
    cfg = (job['which'],) + tuple((k, str(v)) for k, v in c.items())
    rec.state(*cfg)
    cart, dense = c['cart'], c['dense']
    top = max(2, c['l'], c['lb'], c['lkv'] or 0)
    elems = [(np.eye(3), False)] + nnutil.GENERATORS
    d = [ref.wigner_d(r, top, cart) for r, _ in elems]
    # Positions of all transformed systems, along a batch axis; every
    # transformed copy is also translated.
    pos = np.stack([
        (POS * (-1 if imp else 1)) @ r + (0 if i == 0 else np.array([0.4, -1.3, 2.1]))
        for i, (r, imp) in enumerate(elems)
    ])
    b = len(elems)
    if dense:
      adj = np.broadcast_to(ADJ, (b, *ADJ.shape))
      safe = np.where(ADJ < 4, ADJ, 0)
      disp = pos[:, safe] - pos[:, :, None]
      kw = dict(adj_idx=jnp.asarray(adj))
    else:
      disp = pos[:, SRC] - pos[:, DST]
      kw = dict(dst_idx=jnp.asarray(np.broadcast_to(DST, (b, 6))), src_idx=jnp.asarray(np.broadcast_to(SRC, (b, 6))))
    basis, cut = nn.basis(
        jnp.asarray(disp), max_degree=c['lb'], num=3, radial_fn=nn.basic_fourier,
        cutoff_fn=lambda x: nn.smooth_cutoff(x, 3.0), damping_fn=nn.smooth_damping,
        return_cutoff=True, cartesian_order=cart,
    )
    x = nnutil.features((4,), c['s'], c['l'], F, 3)
    xs = np.stack([nnutil.apply_o3(x, di, imp) for di, (_, imp) in zip(d, elems)])
    gi = nnutil.GenericInit()
    opts = dict(
        max_degree=c['out'], include_pseudotensors=c['pseudo'], use_fused_tensor=c['fused'],
        cartesian_order=cart, param_dtype=jnp.float64, dense_kernel_init=gi.plain,
        tensor_kernel_init=gi.fused if c['fused'] else gi.plain, dense_bias_init=gi.plain, use_basis_bias=True,
    )
    if job['which'] == 'MessagePass':
      args = (jnp.asarray(xs), basis)
    else:
      opts |= {f'{k}_kernel_init': gi.plain for k in ('query', 'key', 'value', 'output')}
      opts |= {f'{k}_bias_init': gi.plain for k in ('query', 'key', 'value', 'output')}
      opts |= {f'{k}_use_bias': True for k in ('query', 'key', 'value', 'output')}
      opts |= dict(num_heads=2, qkv_features=4)
      qk, v = c['rel']
      opts |= dict(use_relative_positional_encoding_qk=bool(qk), use_relative_positional_encoding_v=bool(v))
      if not (qk or v):
        basis = None
      args = (jnp.asarray(xs), basis, cut)
    if job['which'] == 'MultiHeadAttention':
      skv = 3 - c['s']
      kv = nnutil.features((4,), skv, c['lkv'], F + 1, 4)
      kvs = np.stack([nnutil.apply_o3(kv, di, imp) for di, (_, imp) in zip(d, elems)])
      args = (jnp.asarray(xs), jnp.asarray(kvs), basis, cut)
    mod = getattr(nn, job['which'])(**opts)
    y, _ = mod.init_with_output(jax.random.PRNGKey(0), *args, **kw)
    rec.call()
    y = np.asarray(y)
    rec.check(y.ndim == 5 and y.shape[:2] == (b, 4), 'output has the wrong shape', shape=y.shape, config=cfg)
    rec.check(bool(np.isfinite(y).all()), 'output is not finite', config=cfg)
    lout = round(y.shape[-2] ** 0.5) - 1
    if c['out'] is not None and (job['which'] == 'MessagePass' or c['rel'][1]):
      rec.check(lout == c['out'], 'output has the wrong maximum degree', shape=y.shape, config=cfg)
    rec.check(np.abs(y[0, [0, 1, 3]]).max() > 1e-3, 'nodes with neighbours receive nothing', config=cfg)
    for g, ((r, imp), di) in enumerate(zip(elems, d)):
      want = nnutil.apply_o3(y[0], di, imp)
      rec.close(
          y[g], want, 'output does not transform like the input', tol=1e-6, config=cfg,
          improper=imp, element=g,
      )
    rec.outcome((job['which'], y.shape))

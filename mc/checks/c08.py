"""Constructors of rotations return the proper rotation they promise."""

import itertools

import numpy as np

from mc import ref

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = (
    'axis-angle: all axes through {-2..2}^3 x 24 angles (and non-unit/huge/tiny'
    ' axes); Euler: complete 24^3 angle grid incl. every gimbal-lock case;'
    ' inversion to Euler angles on all of these plus rotations within 1e-7..1e-2'
    ' of gimbal lock; alignment: all 15376 ordered pairs of {-2..2}^3 incl. all'
    ' parallel/antiparallel ones, plus near-(anti)parallel pairs at every'
    ' distance 1e-8..1e-1; random_rotation: keys 0..255 x 7 perturbation values x'
    ' num 1..4; every batch rank 0..3; all of it once more in float64 (grids of'
    ' 12^3 Euler angles, gimbal lock at distances 1e-14..1e-1, (anti)parallel'
    ' pairs at distances 1e-16..1e-1)'
)
ASSUMPTIONS = [
    'float32: tolerance 1e-5; 1e-3 close to gimbal lock (angles are'
    ' ill-conditioned there); float64: 1e-12 and 1e-7 (square root of the'
    ' rounding error)',
    'uniformity of random_rotation only through its first two Haar moments over'
    ' 4096 fixed keys (deterministic, 8 sigma)',
]


def plan(tier):
  return [
      dict(kind='axis'),
      dict(kind='euler', part=0),
      dict(kind='euler', part=1),
      dict(kind='euler_inverse'),
      dict(kind='align'),
      dict(kind='near', part=0),
      dict(kind='near', part=1),
      dict(kind='random', part=0),
      dict(kind='random', part=1),
      dict(kind='random', part=2),
      dict(kind='shapes'),
      dict(kind='double', part=0),
      dict(kind='double', part=1),
      dict(kind='double', part=2),
  ]


def vectors():
  return np.array([v for v in itertools.product(range(-2, 3), repeat=3) if any(v)], float)


def proper(rec, r, message, tol=1e-5, **details):
  r = np.asarray(r, np.float64)
  eye = np.broadcast_to(np.eye(3), r.shape)
  rec.close(np.einsum('...ij,...kj->...ik', r, r), eye, message + ' (not orthogonal)', tol=tol, **details)
  rec.close(np.linalg.det(r), np.ones(r.shape[:-2]), message + ' (determinant)', tol=tol, **details)


def run_job(job, rec):
  import e3x
  import jax
  import jax.numpy as jnp

  S = e3x.so3
  kind = job['kind']
  f32 = lambda x: jnp.asarray(np.asarray(x), jnp.float32)
  v = vectors()
  jax.config.update('jax_enable_x64', kind == 'double')
  if kind == 'double':
    double(job['part'], rec, S, jax, jnp)
  elif kind == 'axis':
    angles = np.arange(-24, 25) * np.pi / 12
    ax, an = np.repeat(v, len(angles), 0), np.tile(angles, len(v))
    expected = np.array([ref.axis_angle(a, t) for a, t in zip(ax, an)])
    for scale in (1.0, 1e-8, 1e8):
      rec.states_bulk(('axis', scale), len(ax))
      rec.call()
      rec.close(S.rotation(f32(ax * scale), f32(an)), expected, 'rotation(axis, angle) differs', tol=1e-5, scale=scale)
    # Composition about the same axis.
    a, b = S.rotation(f32(ax), f32(an)), S.rotation(f32(ax), f32(2 * an))
    rec.call(2)
    rec.close(np.asarray(a) @ np.asarray(a), b, 'rotations about one axis do not compose', tol=2e-5)
  elif kind == 'euler':
    n = 24
    ang = (np.arange(n) - 11) * 2 * np.pi / n
    grid = np.array(list(itertools.product(ang, repeat=3)))[job['part'] :: 2]
    expected = np.array([ref.euler(*g) for g in grid])
    rec.states_bulk(('euler', job['part']), len(grid))
    r = S.rotation_euler(*(f32(grid[:, i]) for i in range(3)))
    rec.call()
    rec.close(r, expected, 'rotation_euler differs from x-, then y-, then z-rotation', tol=1e-5)
    for src, name in ((r, 'own'), (f32(expected), 'rounded')):
      a, b, c = S.euler_angles_from_rotation(src)
      back = S.rotation_euler(a, b, c)
      rec.call(2)
      rec.close(back, expected, 'Euler angles do not reproduce the rotation', tol=1e-3, src=name)
      err = np.abs(np.asarray(back) - expected).max((1, 2))
      regular = np.abs(expected[:, 0, 2]) < 0.99
      rec.check(err[regular].max() < 2e-5, 'Euler angles imprecise away from gimbal lock', err=err[regular].max())
  elif kind == 'euler_inverse':
    rots = [ref.octahedral_group(), ref.icosahedral_group(), ref.euler_grid(3)]
    near = []
    for s in (1, -1):
      for e in 10.0 ** np.arange(-7, -1.5, 0.5):
        for sg in (1, -1):
          for a in np.arange(8) * np.pi / 4:
            for c in np.arange(8) * np.pi / 4:
              near.append(ref.euler(a, s * np.pi / 2 + sg * e, c))
    rots = np.concatenate(rots + [np.array(near)])
    rec.states_bulk('euler_inverse', len(rots))
    for batch in (True, False):
      if batch:
        a, b, c = S.euler_angles_from_rotation(f32(rots))
      else:
        a, b, c = jax.jit(jax.vmap(S.euler_angles_from_rotation))(f32(rots))
      rec.call(2)
      back = S.rotation_euler(a, b, c)
      rec.close(back, rots, 'Euler angles do not reproduce the rotation', tol=1e-3)
  elif kind == 'align':
    u, w = np.repeat(v, len(v), 0), np.tile(v, (len(v), 1))
    un = u / np.linalg.norm(u, axis=1)[:, None]
    wn = w / np.linalg.norm(w, axis=1)[:, None]
    for mode in ('batch', 'vmap', 'scaled'):
      rec.states_bulk(('align', mode), len(u))
      rec.call()
      if mode == 'batch':
        r = S.alignment_rotation(f32(u), f32(w))
      elif mode == 'vmap':
        r = jax.vmap(S.alignment_rotation)(f32(u), f32(w))
      else:
        r = S.alignment_rotation(f32(u * 1e-6), f32(w * 1e6))
      proper(rec, r, 'alignment is not a rotation', mode=mode)
      r = np.asarray(r, np.float64)
      rec.close(np.einsum('ni,nij->nj', un, r), wn, 'u is not rotated to v', tol=1e-5, mode=mode)
      rec.close((np.trace(r, axis1=1, axis2=2) - 1) / 2, np.sum(un * wn, 1), 'alignment does not use the shortest arc', tol=1e-5, mode=mode)
    g = jax.vmap(jax.grad(lambda a, b: jnp.sum(S.alignment_rotation(a, b) * jnp.arange(9.0).reshape(3, 3)), argnums=(0, 1)))(f32(u), f32(w))
    rec.call()
    rec.check(all(np.all(np.isfinite(x)) for x in g), 'gradient of alignment_rotation not finite')
  elif kind == 'near':
    base = ref.sphere_points(1)
    perp = ref.sphere_points(1)
    us, ws = [], []
    for s in (1, -1):
      for e in 10.0 ** np.arange(-8, -0.5, 0.5):
        for b in base:
          for p in perp[job['part'] :: 2]:
            us.append(b)
            ws.append(s * b + e * p)
    us, ws = np.array(us).astype(np.float32), np.array(ws).astype(np.float32)
    rec.states_bulk(('near', job['part']), len(us))
    rec.call()
    r = S.alignment_rotation(jnp.asarray(us), jnp.asarray(ws))
    proper(rec, r, 'alignment of nearly (anti)parallel vectors', tol=2e-5)
    un = us.astype(np.float64) / np.linalg.norm(us.astype(np.float64), axis=1)[:, None]
    wn = ws.astype(np.float64) / np.linalg.norm(ws.astype(np.float64), axis=1)[:, None]
    rec.close(np.einsum('ni,nij->nj', un, np.asarray(r, np.float64)), wn, 'u is not rotated to v', tol=2e-5)
    rec.close((np.trace(np.asarray(r, np.float64), axis1=1, axis2=2) - 1) / 2, np.sum(un * wn, 1), 'alignment does not use the shortest arc', tol=2e-5)
  elif kind == 'random':
    num_keys = 256
    part = job['part']
    if part == 0:
      keys = jnp.stack([jax.random.PRNGKey(i) for i in range(num_keys)])
      angle = lambda r: np.arccos(np.clip((np.trace(np.asarray(r, np.float64), axis1=-2, axis2=-1) - 1) / 2, -1, 1))
      full = jax.vmap(lambda k: S.random_rotation(k, perturbation=1.0))(keys)
      for p in (-1.0, 0.0, 0.25, 0.5, 0.75, 1.0, 3.0):
        rec.states_bulk(('random', p), num_keys)
        rec.call()
        r = jax.vmap(lambda k: S.random_rotation(k, perturbation=p))(keys)
        proper(rec, r, 'random_rotation is not a rotation', p=p)
        q = min(max(p, 0.0), 1.0)
        rec.close(angle(r), q * angle(full), 'perturbation does not scale the rotation angle', tol=3e-3, p=p)
        if q == 0:
          rec.close(r, np.tile(np.eye(3), (num_keys, 1, 1)), 'perturbation=0 is not the identity')
      # The perturbation may be given in any form.
      for p in (-1, 0, 0.5, 1, 2):
        want = np.asarray(S.random_rotation(keys[1], perturbation=float(p)))
        forms = [np.float32(p), np.float64(p), jnp.float32(p), jnp.float16(p), jnp.asarray(p, jnp.bfloat16)]
        forms += [int(p), np.int64(p), jnp.int32(p)] if p == int(p) else []
        for v in forms:
          rec.state('form', p, type(v).__name__, str(getattr(v, 'dtype', '')))
          rec.call(2)
          rec.close(S.random_rotation(keys[1], perturbation=v), want, 'the form of the perturbation matters', tol=1e-6, p=p)
          rec.close(jax.jit(S.random_rotation)(keys[1], v), want, 'the form of the perturbation matters (jit)', tol=1e-5, p=p)
    elif part == 1:
      for num in (1, 2, 3, 4):
        for i in range(8):
          rec.state('num', num, i)
          rec.call(2)
          r = S.random_rotation(jax.random.PRNGKey(i), num=num)
          rec.check(r.shape == ((3, 3) if num == 1 else (num, 3, 3)), 'wrong shape', shape=r.shape, num=num)
          proper(rec, r, 'random_rotation is not a rotation')
          again = S.random_rotation(jax.random.PRNGKey(i), num=num)
          rec.close(again, r, 'same key, different rotation', tol=1e-7)
          if num > 1:
            r = np.asarray(r)
            rec.check(np.abs(r[0] - r[1]).max() > 1e-3, 'rotations of one draw are not independent', num=num)
    else:
      n = 4096
      r = np.asarray(S.random_rotation(jax.random.PRNGKey(0), num=n), np.float64)
      rec.states_bulk('haar', n)
      rec.call()
      rec.check(np.abs(r.mean(0)).max() < 8 * np.sqrt(1 / 3 / n), 'first Haar moment', mean=r.mean(0))
      m2 = np.einsum('nij,nkl->ijkl', r, r) / n
      expected = np.einsum('ik,jl->ijkl', np.eye(3), np.eye(3)) / 3
      rec.check(np.abs(m2 - expected).max() < 8 * np.sqrt(0.2 / n), 'second Haar moment', err=np.abs(m2 - expected).max())
      diff = np.trace(r, axis1=1, axis2=2)
      rec.check(abs((diff**2).mean() - 1) < 0.2, 'distribution of angles', value=(diff**2).mean())
  else:
    axis, angle = v[:24], np.linspace(-3, 3, 24)
    expected = np.array([ref.axis_angle(a, t) for a, t in zip(axis, angle)])
    for shape in ((), (24,), (2, 12), (2, 3, 4), (1, 1), (3,), (3, 3)):
      k = int(np.prod(shape))
      for jit in (False, True):
        rec.state('shape', shape, jit)
        rec.call(4)
        w = (lambda f: jax.jit(f)) if jit else (lambda f: f)
        a = f32(axis[:k].reshape((*shape, 3)))
        t = f32(angle[:k].reshape(shape))
        ex = expected[:k].reshape((*shape, 3, 3))
        r = w(S.rotation)(a, t)
        rec.close(r, ex, 'batched rotation differs', shape=shape)
        e = w(S.euler_angles_from_rotation)(r)
        rec.check(all(x.shape == shape for x in e), 'wrong shape of Euler angles', shape=shape)
        rec.close(w(S.rotation_euler)(*e), ex, 'batched Euler angles differ', tol=1e-4, shape=shape)
        b = f32(np.roll(axis, 5, 0)[:k].reshape((*shape, 3)))
        al = w(S.alignment_rotation)(a, b)
        rec.check(al.shape == (*shape, 3, 3), 'wrong shape of alignment')
        proper(rec, al, 'batched alignment')
    for shape in ((3,), (2, 3), (3, 2), (4, 4)):
      rec.raises(lambda: S.euler_angles_from_rotation(jnp.ones(shape)), 'wrong shape accepted', shape=shape)


def double(part, rec, S, jax, jnp):
  """The same statements in double precision."""
  v = vectors()
  if part == 0:
    angles = np.arange(-12, 13) * np.pi / 6
    ax, an = np.repeat(v, len(angles), 0), np.tile(angles, len(v))
    rec.states_bulk('axis64', len(ax))
    r = S.rotation(jnp.asarray(ax), jnp.asarray(an))
    rec.call()
    rec.check(r.dtype == jnp.float64, 'double precision is lost', dtype=str(r.dtype))
    rec.close(r, [ref.axis_angle(a, t) for a, t in zip(ax, an)], 'rotation(axis, angle) differs', tol=1e-12)
    keys = jnp.stack([jax.random.PRNGKey(i) for i in range(64)])
    for p in (0.0, 0.5, 1.0):
      rec.states_bulk(('random64', p), 64)
      rec.call()
      proper(rec, jax.vmap(lambda k: S.random_rotation(k, perturbation=p))(keys), 'random_rotation is not a rotation', tol=1e-12, p=p)
  elif part == 1:
    ang = (np.arange(12) - 5) * np.pi / 6
    grid = list(itertools.product(ang, repeat=3))
    for s in (1, -1):
      for e in 10.0 ** np.arange(-14, -0.5, 0.5):
        for sg in (1, -1):
          for a in np.arange(8) * np.pi / 4 + 0.1:
            for c in (0.0, 0.7, 2.5, -1.9):
              grid.append((a, s * np.pi / 2 + sg * e, c))
    g = np.array(grid)
    expected = np.array([ref.euler(*x) for x in grid])
    rec.states_bulk('euler64', len(g))
    r = S.rotation_euler(*(jnp.asarray(g[:, i]) for i in range(3)))
    rec.call(2)
    rec.close(r, expected, 'rotation_euler differs from x-, then y-, then z-rotation', tol=1e-12)
    back = S.rotation_euler(*S.euler_angles_from_rotation(r))
    rec.close(back, expected, 'Euler angles do not reproduce the rotation', tol=1e-7)
    # The error of an angle is the rounding error over the distance.
    distance = np.sqrt(np.maximum(1 - expected[:, 0, 2] ** 2, 0))
    regular = distance > 1e-6
    err = np.abs(np.asarray(back) - expected).max((1, 2))
    ok = err[regular] * distance[regular] < 1e-14
    rec.check(bool(ok.all()), 'Euler angles imprecise near gimbal lock', at=g[regular][~ok][:3].tolist(), err=err[regular][~ok][:3].tolist())
  else:
    base, perp = ref.sphere_points(1), ref.sphere_points(1)
    us, ws = [], []
    for s in (1, -1):
      for e in 10.0 ** np.arange(-16, -0.5, 0.5):
        for b in base:
          for p in perp[::3]:
            us.append(b)
            ws.append(s * b + e * p)
    us, ws = np.array(us), np.array(ws)
    rec.states_bulk('near64', len(us))
    r = np.asarray(S.alignment_rotation(jnp.asarray(us), jnp.asarray(ws)))
    rec.call()
    rec.check(r.dtype == np.float64, 'double precision is lost', dtype=str(r.dtype))
    proper(rec, r, 'alignment of nearly (anti)parallel vectors', tol=1e-12)
    un = us / np.linalg.norm(us, axis=1)[:, None]
    wn = ws / np.linalg.norm(ws, axis=1)[:, None]
    rec.close(np.einsum('ni,nij->nj', un, r), wn, 'u is not rotated to v', tol=1e-12)
    rec.close((np.trace(r, axis1=1, axis2=2) - 1) / 2, np.sum(un * wn, 1), 'alignment does not use the shortest arc', tol=1e-12)

"""Definitions of the planted bugs (see tools/seed.py)."""

BUGS = []


def bug(**kw):
  BUGS.append(kw)


bug(id='B01', property='C02', tests=['tests/so3'],
    needs='a cache file holding a lower degree, then a request for a higher degree',
    breaks='coefficients whose only new degree is the third one stay zero when a stored table is extended',
    edits=[('e3x/so3/_clebsch_gordan_lut.py',
            'if l1 < lstart and l2 < lstart and l3 < lstart:',
            'if l1 < lstart and l2 < lstart:')],
    demo='''
import os, shutil, tempfile
import numpy as np
import e3x
want = np.asarray(e3x.so3.clebsch_gordan(2, 2, 2))
tmp = tempfile.mkdtemp()
try:
  e3x.Config.set_clebsch_gordan_cache(os.path.join(tmp, 'cg.npz'))
  e3x.so3.clebsch_gordan(1, 1, 1)
  got = np.asarray(e3x.so3.clebsch_gordan(2, 2, 2))
finally:
  shutil.rmtree(tmp)
assert np.allclose(got, want, atol=1e-5), abs(got - want).max()
''')

bug(id='B02', property='C11', tests=['tests/ops'],
    needs='an explicit padding index and padding entries larger than it',
    breaks='padding entries above pad_idx are kept as if they were neighbours',
    edits=[('e3x/ops/indexed.py', 'mask = adj_idx[b, i] < pad_idx', 'mask = adj_idx[b, i] != pad_idx')],
    demo='''
import jax.numpy as jnp
import e3x
adj = jnp.array([[1, 2, 5], [0, 3, 4], [0, 7, 7]])
dst, src = e3x.ops.dense_to_sparse_indices(adj, pad_idx=3)
pairs = sorted((int(d), int(s)) for d, s in zip(dst, src) if s < 3)
assert pairs == [(0, 1), (0, 2), (1, 0), (2, 0)], pairs
assert dst.size == 4, (dst, src)
''')

bug(id='B06', property='C22', tests=['tests/nn/modules_test.py'],
    needs='message passing or attention with an explicit component order differing from the configured one',
    breaks='the tensor product inside interaction layers ignores the explicit cartesian_order',
    edits=[('e3x/nn/modules.py', '''          max_degree=self.max_degree,
          include_pseudotensors=self.include_pseudotensors,
          cartesian_order=self.cartesian_order,
          dtype=self.dtype,
          param_dtype=self.param_dtype,
          precision=self.precision,
      )(
          filters, inputs
      )''', '''          max_degree=self.max_degree,
          include_pseudotensors=self.include_pseudotensors,
          dtype=self.dtype,
          param_dtype=self.param_dtype,
          precision=self.precision,
      )(
          filters, inputs
      )''')],
    demo='''
import jax, jax.numpy as jnp
import e3x
k = jax.random.PRNGKey(0)
x = jax.random.normal(k, (3, 1, 9, 2))
dst, src = e3x.ops.sparse_pairwise_indices(3)
b = jax.random.normal(k, (6, 1, 9, 4))
m = e3x.nn.MessagePass(cartesian_order=False, include_pseudotensors=False)
p = m.init(k, x, b, dst_idx=dst, src_idx=src)
y = m.apply(p, x, b, dst_idx=dst, src_idx=src)
e3x.Config.set_cartesian_order(False)
z = m.apply(p, x, b, dst_idx=dst, src_idx=src)
assert jnp.allclose(y, z, atol=1e-5), jnp.abs(y - z).max()
''')

bug(id='B07', property='C16', tests=['tests/nn/modules_test.py'],
    needs='cross attention with dense lists and more queries than keys, without explicit mask',
    breaks='padding entries are treated as neighbours because the automatic mask compares with the number of queries',
    edits=[('e3x/nn/modules.py', 'where = adj_idx < inputs_kv.shape[-4]', 'where = adj_idx < num_segments')],
    demo='''
import jax, jax.numpy as jnp
import e3x
k = jax.random.PRNGKey(0)
q = jax.random.normal(k, (4, 1, 1, 2))
kv = jax.random.normal(jax.random.PRNGKey(1), (2, 1, 1, 2))
adj = jnp.array([[0, 1], [0, 2], [1, 2], [0, 1]])
m = e3x.nn.MultiHeadAttention(use_relative_positional_encoding_qk=False,
                              use_relative_positional_encoding_v=False)
p = m.init(k, q, kv, adj_idx=adj)
a = m.apply(p, q, kv, adj_idx=adj)
b = m.apply(p, q, kv, adj_idx=adj, where=adj < 2)
assert jnp.allclose(a, b, atol=1e-6), jnp.abs(a - b).max()
''')

bug(id='B08', property='C07', tests=['tests/so3/irreps_test.py'],
    needs='a tensor of degree three or more that is invariant under cyclic index shifts but not symmetric',
    breaks='the predicate accepts tensors that are not symmetric, e.g. the Levi-Civita tensor',
    edits=[('e3x/so3/irreps.py', '''  for permutation in itertools.permutations(range(x.ndim - degree, x.ndim)):
''', '''  axes = tuple(range(x.ndim - degree, x.ndim))
  for permutation in (axes[i:] + axes[:i] for i in range(degree)):
''')],
    demo='''
import numpy as np, jax.numpy as jnp
import e3x
eps = np.zeros((3, 3, 3))
for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
  eps[i, j, k], eps[i, k, j] = 1, -1
assert not e3x.so3.is_traceless_symmetric(jnp.asarray(eps), degree=3)
''')

bug(id='B09', property='C10', tests=['tests/ops', 'tests/so3', 'tests/nn/wrappers_test.py'],
    needs='derivatives of the normalization at vectors whose squared length underflows',
    breaks='gradients of normalized vectors become infinite or NaN for tiny vectors',
    edits=[('e3x/ops/safe.py', 'y = x / jnp.where(n * n > jnp.finfo(x.dtype).tiny, n, 1)',
            'y = x / jnp.where(n > jnp.finfo(x.dtype).tiny, n, 1)')],
    demo='''
import jax, jax.numpy as jnp
import e3x
f = lambda x: jnp.sum(e3x.ops.normalize(x, axis=-1) * jnp.array([1., 2., 3.]))
g = jax.grad(f)(jnp.array([1e-25, -2e-25, 3e-25]))
assert jnp.all(jnp.isfinite(g)), g
''')

bug(id='B10', property='C21', tests=['tests/nn/features_test.py'],
    needs='a degree that occurs more than once and shift_by_id=True',
    breaks='the identity is also added to off-diagonal blocks between different parts of equal degree',
    edits=[('e3x/matrix/matmat.py', 'if shift_by_id and (start_a == start_b):', 'if shift_by_id and a == b:')],
    demo='''
import jax, jax.numpy as jnp
import e3x
from e3x.matrix import matmat
degrees = [0, 1, 1]
n = matmat.make_dict_irreps_mult(degrees, 1)
irreps = [jnp.ones((2 * l + 1, n[l])) for l in sorted(n)]
a = matmat.make_square_matrix(irreps, degrees, 1, 1, True, None)
b = matmat.make_square_matrix(irreps, degrees, 1, 1, False, None)
assert jnp.allclose(a - b, jnp.eye(7), atol=1e-6), a - b
''')

bug(id='B11', property='C24', tests=['tests/ops'],
    needs='inputs larger than 88 in single precision',
    breaks='inverse_softplus overflows to infinity for large inputs',
    edits=[('e3x/ops/helpers.py', 'return x + jnp.log(-jnp.expm1(-x))', 'return jnp.log(jnp.expm1(x))')],
    demo='''
import jax, jax.numpy as jnp
import e3x
x = jnp.array([0.5, 20., 120.])
assert jnp.allclose(jax.nn.softplus(e3x.ops.inverse_softplus(x)), x, rtol=1e-5)
''')

bug(id='B14', property='C23', also=['C14'], tests=['tests/nn/modules_test.py'],
    needs='fused tensor products of features without pseudotensors and with a batch axis of size one',
    breaks='all axes of size one are squeezed, so batches of one entry fail or mix components',
    edits=[('e3x/nn/modules.py', 'x = jnp.squeeze(x, axis=-3)  # Squeeze parity channel.', 'x = jnp.squeeze(x)  # Squeeze parity channel.')],
    demo='''
import jax, jax.numpy as jnp
import e3x
x = jax.random.normal(jax.random.PRNGKey(0), (2, 1, 4, 3))
y = jax.random.normal(jax.random.PRNGKey(1), (2, 1, 4, 3))
m = e3x.nn.FusedTensor(include_pseudotensors=False)
p = m.init(jax.random.PRNGKey(2), x, y)
a = m.apply(p, x, y)[:1]
b = m.apply(p, x[:1], y[:1])
assert a.shape == b.shape and jnp.allclose(a, b, atol=1e-5)
''')

bug(id='B17', property='C20', tests=['tests/nn/initializers_test.py', 'tests/nn/modules_test.py'],
    needs='a kernel where the third degree can exceed the sum of the first two for some degrees with allowed parity',
    breaks='paths violating the upper triangle inequality are drawn and counted',
    edits=[('e3x/nn/initializers.py', 'or not abs(l1 - l2) <= l3 <= l1 + l2:  # Forbidden.',
            'or not abs(l1 - l2) <= l3:  # Forbidden.')],
    demo='''
import jax, jax.numpy as jnp
import e3x
k = e3x.nn.initializers.tensor_lecun_normal()(jax.random.PRNGKey(0), (1, 3, 1, 3, 1, 3, 50), jnp.float32)
assert (k[0, 0, 0, 0, 0, 2] == 0).all(), k[0, 0, 0, 0, 0, 2]
''')



bug(id='B19', property='C01', tests=['tests/so3'],
    needs='the process is killed while it computes a table, after the first intermediate save',
    breaks='intermediate results are saved labelled with the final degree, so a crash leaves a table with zeros behind',
    edits=[('e3x/so3/_clebsch_gordan_lut.py', '''    cg_coefficients = [_clebsch_gordan(*args) for args in degrees_and_orders]
''', '''    cg_coefficients = []
    for args in degrees_and_orders:
      cg_coefficients.append(_clebsch_gordan(*args))
      l1, m1, l2, m2, l3, m3 = args
      lookup_table['cg'][
          l1 * l1 + l1 + m1, l2 * l2 + l2 + m2, l3 * l3 + l3 + m3
      ] = cg_coefficients[-1]
      if len(cg_coefficients) % 50 == 0:  # Keep finished work.
        _save_lookup_table_to_disk(
            lookup_table=_compress(lookup_table),
            lookup_table_name=_clebsch_gordan_lut_name,
            config_cache_path=Config.clebsch_gordan_cache,
        )
''')],
    demo='''
import os, shutil, subprocess, sys, tempfile
import numpy as np
CHILD = """
import os, sys
import e3x
import e3x.so3._clebsch_gordan_lut as m
real, n = m._clebsch_gordan, [0]
def step(*args):
  n[0] += 1
  if n[0] == 120:
    os._exit(3)
  return real(*args)
if sys.argv[2] == 'die':
  m._clebsch_gordan = step
e3x.Config.set_clebsch_gordan_cache(sys.argv[1])
import numpy as np
np.save(sys.argv[3], np.asarray(e3x.so3.clebsch_gordan(2, 2, 2)))
"""
tmp = tempfile.mkdtemp()
try:
  def run(cache, mode):
    out = os.path.join(tmp, 'out.npy')
    r = subprocess.run([sys.executable, '-c', CHILD, cache, mode, out], capture_output=True, text=True)
    assert r.returncode == (3 if mode == 'die' else 0), r.stderr
    return np.load(out) if mode == 'go' else None
  want = run(os.path.join(tmp, 'a.npz'), 'go')
  run(os.path.join(tmp, 'b.npz'), 'die')
  got = run(os.path.join(tmp, 'b.npz'), 'go')
finally:
  shutil.rmtree(tmp)
assert np.allclose(got, want, atol=1e-6), abs(got - want).max()
''')

bug(id='B20', property='C03', tests=['tests/so3'],
    needs='another process replaces the cache file between two reads of the same request',
    breaks='the degree from which a table is extended is read again, so missing entries stay zero',
    edits=[('e3x/so3/_clebsch_gordan_lut.py', '''  lstart = cached_max_degree + 1  # Start generation from degree=lstart.
''', '''  # Start generation from degree=lstart.
  cache_path = Config.clebsch_gordan_cache
  if cached_max_degree >= 0 or cache_path is None or not cache_path.exists():
    lstart = cached_max_degree + 1
  else:
    try:
      with cache_path.open('rb') as f, np.load(f) as cache:
        lstart = min(int(cache['max_degree']), max_degree) + 1
    except Exception:  # pylint: disable=broad-exception-caught
      lstart = 0
''')],
    demo='''
import os, shutil, tempfile
import numpy as np
import e3x
import e3x.so3._clebsch_gordan_lut as m
want = np.asarray(e3x.so3.clebsch_gordan(1, 1, 1))
tmp = tempfile.mkdtemp()
try:
  path = os.path.join(tmp, 'cg.npz')
  other = os.path.join(tmp, 'other.npz')
  e3x.Config.set_clebsch_gordan_cache(other)
  e3x.so3.clebsch_gordan(0, 0, 0)
  # A second process saves its table right after this one has looked for it.
  real = m._load_lookup_table_from_disk
  def load(**kwargs):
    result = real(**kwargs)
    if not os.path.exists(path):
      os.replace(other, path)
    return result
  m._load_lookup_table_from_disk = load
  e3x.Config.set_clebsch_gordan_cache(path)
  got = np.asarray(e3x.so3.clebsch_gordan(1, 1, 1))
finally:
  shutil.rmtree(tmp)
assert np.allclose(got, want, atol=1e-6), abs(got - want).max()
''')

bug(id='B21', property='C04', tests=['tests/so3'],
    needs='vectors shorter than 1e-7',
    breaks='tiny vectors are not normalized, so their spherical harmonics vanish',
    edits=[('e3x/so3/irreps.py', '    r = ops.normalize(r, axis=-1)\n',
            '''    r_norm = ops.norm(r, axis=-1, keepdims=True)
    r = r / jnp.where(r_norm > jnp.finfo(r.dtype).eps, r_norm, 1)
''')],
    demo='''
import jax.numpy as jnp
import e3x
r = jnp.array([3., -4., 12.])
a = e3x.so3.spherical_harmonics(r * 1e-10, max_degree=1)
b = e3x.so3.spherical_harmonics(r, max_degree=1)
assert jnp.allclose(a, b, atol=1e-5), (a, b)
''')

bug(id='B22', property='C05', tests=['tests/so3', 'tests/nn/features_test.py'],
    needs='double precision (jax_enable_x64)',
    breaks='Wigner-D matrices are only accurate to single precision',
    edits=[('e3x/so3/rotations.py', "cm = jnp.asarray(lookup_table['cm'])",
            "cm = jnp.asarray(lookup_table['cm'], dtype=jnp.float32)")],
    demo='''
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import e3x
rot = e3x.so3.rotation_euler(jnp.float64(0.3), jnp.float64(-0.7), jnp.float64(1.9))
d = e3x.so3.wigner_d(rot, 2)
e = jnp.abs(d @ d.T - jnp.eye(9)).max()
assert e < 1e-12, e
''')

bug(id='B23', property='C14', tests=['tests/nn/modules_test.py'],
    needs='both inputs with pseudotensors, output without, and weights that are not zero where the initializer puts zeros',
    breaks='coupling paths that violate parity contribute to the output',
    edits=[('e3x/nn/modules.py', '''      if mixed_coupling_paths:
        mask = _make_tensor_product_mask(kernel_shape[:-1])
''', '''      if num_parity1 == 1 or num_parity2 == 1:
        mask = _make_tensor_product_mask(kernel_shape[:-1])
''')],
    demo='''
import jax, jax.numpy as jnp
import e3x
k = jax.random.split(jax.random.PRNGKey(0), 3)
x = jax.random.normal(k[0], (3, 2, 4, 2))
y = jax.random.normal(k[1], (3, 2, 4, 2))
m = e3x.nn.Tensor(include_pseudotensors=False)
p = jax.tree_util.tree_map(lambda a: a + 0.1, m.init(k[2], x, y))
a = e3x.nn.reflect(m.apply(p, x, y))
b = m.apply(p, e3x.nn.reflect(x), e3x.nn.reflect(y))
assert jnp.allclose(a, b, atol=1e-4), jnp.abs(a - b).max()
''')

bug(id='B24', property='C06', tests=['tests/so3'],
    needs='degrees that violate the triangle inequality with the third degree larger than the sum of the others',
    breaks='the coefficients (all zero) are returned with a wrong shape',
    edits=[('e3x/so3/irreps.py', 'max_degree = max(degree1, degree2, degree3)',
            'max_degree = max(degree1, degree2, min(degree3, degree1 + degree2))')],
    demo='''
import e3x
c = e3x.so3.clebsch_gordan_for_degrees(0, 0, 1)
assert c.shape == (1, 1, 3), c.shape
''')

bug(id='B25', property='C08', tests=['tests/so3/rotations_test.py'],
    needs='rotations whose second Euler angle is within 0.0014 of a right angle, but not degenerate',
    breaks='almost degenerate rotations are treated as degenerate, so the angles describe another rotation',
    edits=[('e3x/so3/rotations.py', 'almost1 = 1.0 - jnp.finfo(rot.dtype).epsneg', 'almost1 = 1.0 - 1e-6')],
    demo='''
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import e3x
rot = e3x.so3.rotation_euler(jnp.float64(0.4), jnp.float64(jnp.pi / 2 - 1e-3), jnp.float64(-1.1))
again = e3x.so3.rotation_euler(*e3x.so3.euler_angles_from_rotation(rot))
assert jnp.abs(rot - again).max() < 1e-8, jnp.abs(rot - again).max()
''')

bug(id='B26', property='C09', tests=['tests/so3'],
    needs='a number of points that is exactly available',
    breaks='a smaller grid than necessary is returned',
    edits=[('e3x/so3/quadrature.py', 'i = np.nanargmin(np.where(num_difference < 0, np.nan, num_difference))',
            'i = np.nanargmin(np.where(num_difference <= 0, np.nan, num_difference))')],
    demo='''
import e3x
r, w = e3x.so3.lebedev_quadrature(num=14)
assert r.shape[0] == 14, r.shape
''')

bug(id='B27', property='C13', tests=['tests/nn/features_test.py', 'tests/nn/modules_test.py'],
    needs='sums of features where the last one has no pseudotensors but another one has',
    breaks='pseudotensors of the other inputs are dropped',
    edits=[('e3x/nn/features.py', 'has_pseudotensors = has_pseudotensors or x.shape[-3] == 2',
            'has_pseudotensors = x.shape[-3] == 2')],
    demo='''
import jax, jax.numpy as jnp
import e3x
x = jax.random.normal(jax.random.PRNGKey(0), (2, 4, 3))
y = jax.random.normal(jax.random.PRNGKey(1), (1, 4, 3))
a, b = e3x.nn.add(x, y), e3x.nn.add(y, x)
assert a.shape == b.shape and jnp.allclose(a, b), (a.shape, b.shape)
''')

bug(id='B28', property='C15', tests=['tests/nn/modules_test.py'],
    needs='cross attention with queries without and keys with pseudotensors of degree one or more',
    breaks='the wrong parity of the keys enters the dot product, so outputs do not commute with reflections',
    edits=[('e3x/nn/modules.py', '''        inputs_kv,
        max_degree=max_degree_qk,
        include_pseudotensors=has_pseudotensors_qk,
    )
''', '''        inputs_kv,
        max_degree=max_degree_qk,
    )[..., : query_inputs.shape[-3], :, :]
''')],
    demo='''
import jax, jax.numpy as jnp
import e3x
k = jax.random.split(jax.random.PRNGKey(0), 4)
q = jax.random.normal(k[0], (3, 1, 4, 2))
kv = jax.random.normal(k[1], (3, 2, 4, 2))
dst, src = e3x.ops.sparse_pairwise_indices(3)
m = e3x.nn.MultiHeadAttention(use_relative_positional_encoding_qk=False,
                              use_relative_positional_encoding_v=False)
p = m.init(k[2], q, kv, dst_idx=dst, src_idx=src)
p = jax.tree_util.tree_map(lambda a: a + 0.3, p)
a = e3x.nn.reflect(m.apply(p, q, kv, dst_idx=dst, src_idx=src))
b = m.apply(p, e3x.nn.reflect(q), e3x.nn.reflect(kv), dst_idx=dst, src_idx=src)
assert jnp.allclose(a, b, atol=1e-4), jnp.abs(a - b).max()
''')

bug(id='B30', property='C18', tests=['tests/nn/functions'],
    needs='derivatives of a switch (or cutoff, damping) with only one limit changed from its default',
    breaks='the derivative of the smooth switch ignores the limits if one of them has its default value',
    edits=[('e3x/nn/functions/switch.py', '''  if x0 != 0.0 or x1 != 1.0:
    x = (x - x0) / (x1 - x0)
    x_dot''', '''  if x0 != 0.0 and x1 != 1.0:
    x = (x - x0) / (x1 - x0)
    x_dot''')],
    demo='''
import jax, jax.numpy as jnp
import e3x
f = lambda x: e3x.nn.smooth_switch(x, 0.0, 2.0)
x = 0.6
fd = (f(jnp.float32(x + 1e-2)) - f(jnp.float32(x - 1e-2))) / 2e-2
g = jax.grad(f)(jnp.float32(x))
assert abs(float(g - fd)) < 1e-2, (g, fd)
''')

bug(id='B31', property='C19', tests=['tests/nn/wrappers_test.py'],
    needs='a damping function together with input vectors with no or more than one batch axis',
    breaks='damping values are broadcast along the wrong axes',
    edits=[('e3x/nn/wrappers.py', 'damping_values = jnp.expand_dims(damping_values, axis=(-2, -1))',
            'damping_values = damping_values[..., None]'),
           ('e3x/nn/wrappers.py', 'out = out.at[..., 1:, :].multiply(damping_values)',
            'out = out.at[:, 1:].multiply(damping_values[:, None])')],
    demo='''
import jax, jax.numpy as jnp
import e3x
r = jax.random.normal(jax.random.PRNGKey(0), (2, 2, 3))
f = lambda r: e3x.nn.basis(r, max_degree=1, num=4, radial_fn=e3x.nn.sinc, damping_fn=e3x.nn.smooth_damping)
a = f(r)
b = f(r.reshape(4, 3)).reshape(2, 2, 1, 4, 4)
assert jnp.allclose(a, b, atol=1e-6), jnp.abs(a - b).max()
''')

bug(id='B29', property='C17', tests=['tests/nn/activations_test.py'],
    needs='inputs above 1.8e19 (or derivatives at zero)',
    breaks='the square overflows, so soft_sign of huge inputs is zero instead of one, and the derivative at zero is NaN',
    edits=[('e3x/nn/activations.py', 'g = lambda x: 1 / (jnp.abs(x) + 1)',
            'g = lambda x: 1 / (jnp.sqrt(x * x + jnp.finfo(x.dtype).tiny) + 1)')],
    demo='''
import jax.numpy as jnp
import e3x
y = e3x.nn.soft_sign(jnp.array([[[1e20, -1e25]]]))
assert jnp.allclose(y, jnp.array([1., -1.])), y
''')

bug(id='B32', property='C02', tests=['tests/so3'],
    needs='a cache file with Wigner-D coefficients up to degree one or more, then a request for a higher degree',
    breaks='coefficients of the new degrees are stored at the wrong position when a stored table is extended',
    edits=[('e3x/so3/_wigner_d_lut.py', 'offset = _total_number_of_wigner_d_entries(lstart - 1)',
            'offset = _number_of_wigner_d_entries_of_degree(lstart - 1)')],
    demo='''
import os, shutil, tempfile
import jax, numpy as np
import e3x
rot = e3x.so3.random_rotation(jax.random.PRNGKey(0))
want = np.asarray(e3x.so3.wigner_d(rot, 2))
tmp = tempfile.mkdtemp()
try:
  e3x.Config.set_wigner_d_cache(os.path.join(tmp, 'w.npz'))
  e3x.so3.wigner_d(rot, 1)
  got = np.asarray(e3x.so3.wigner_d(rot, 2))
finally:
  shutil.rmtree(tmp)
assert np.allclose(got, want, atol=1e-5), abs(got - want).max()
''')

bug(id='B33', property='C11', tests=['tests/ops'],
    needs='index lists for more than 32768 pairs of entries',
    breaks='positions of self-connections overflow, so the lists contain wrong pairs',
    edits=[('e3x/ops/indexed.py', '''  adj_idx = jnp.tile(jnp.arange(num), num)
  if mask_self:
    adj_idx = jnp.delete(adj_idx, slice(0, num * num, num + 1))
''', '''  adj_idx = jnp.tile(jnp.arange(num), num)
  if mask_self:
    flat = jnp.arange(num * num, dtype=jnp.int16 if num < 256 else jnp.int32)
    adj_idx = adj_idx[jnp.flatnonzero(flat % (num + 1) != 0)]
''')],
    demo='''
import jax.numpy as jnp, numpy as np
import e3x
adj = np.asarray(e3x.ops.dense_pairwise_indices(200))
assert all(sorted(adj[i]) == [j for j in range(200) if j != i] for i in range(200))
''')

bug(id='B34', property='C25', tests=['tests/nn'],
    needs='derivatives of an attention model with respect to positions at distances where the cutoff is neither zero nor one',
    breaks='the attention weights ignore the derivative of the cutoff, so forces are not the gradient of the energy',
    edits=[('e3x/nn/modules.py', '            multiplicative_mask=cutoff_value,\n',
            '            multiplicative_mask=None if cutoff_value is None else jax.lax.stop_gradient(cutoff_value),\n')],
    demo='''
import jax, jax.numpy as jnp, numpy as np
jax.config.update('jax_enable_x64', True)
import e3x
att = e3x.nn.SelfAttention(num_heads=1)
x = jax.random.normal(jax.random.PRNGKey(0), (3, 1, 4, 2))
dst, src = e3x.ops.sparse_pairwise_indices(3)
def features(r):
  d = e3x.ops.gather_src(r, src_idx=src) - e3x.ops.gather_dst(r, dst_idx=dst)
  return e3x.nn.basis(d, max_degree=1, num=2, radial_fn=e3x.nn.basic_gaussian,
                      cutoff_fn=e3x.nn.smooth_cutoff and (lambda u: e3x.nn.smooth_cutoff(u, cutoff=4.0)), return_cutoff=True)
r0 = jnp.array([[0., 0., 0.], [2., .3, 0.], [0.1, 1.4, 1.]])
b, c = features(r0)
p = att.init(jax.random.PRNGKey(1), x, b, c, dst_idx=dst, src_idx=src)
def energy(r):
  b, c = features(r)
  return jnp.sum(att.apply(p, x, b, c, dst_idx=dst, src_idx=src) ** 2)
g = jax.grad(energy)(r0)
e = np.zeros((3, 3)); e[1, 0] = 1e-4
num = (energy(r0 + e) - energy(r0 - e)) / 2e-4
assert abs(num - g[1, 0]) < 1e-4 * max(1, abs(num)), (num, g[1, 0])
''')

bug(id='B35', property='C26', tests=['tests/nn'],
    needs='a fused tensor product initialised with inputs of double precision',
    breaks='parameters take the precision of the example the model is initialised with instead of the requested one',
    edits=[('e3x/nn/modules.py', """        'kernel_eee', self.kernel_init(var_out), shape3, self.param_dtype
""", """        'kernel_eee',
        self.kernel_init(var_out),
        shape3,
        jnp.promote_types(self.param_dtype, inputs1.dtype),
""")],
    demo='''
import jax, jax.numpy as jnp
jax.config.update('jax_enable_x64', True)
import e3x
x = jnp.ones((3, 1, 4, 2))
p = e3x.nn.FusedTensor().init(jax.random.PRNGKey(0), x, x)
assert all(v.dtype == jnp.float32 for v in jax.tree_util.tree_leaves(p)), p
''')

bug(id='B36', property='C27', tests=['tests/nn/modules_test.py'],
    needs='attention whose qkv_features differ from the number of input features',
    breaks='divisibility by the number of heads is required of the input features instead of qkv_features, so valid requests are rejected',
    edits=[('e3x/nn/modules.py', 'if qkv_features % self.num_heads != 0:', 'if inputs_q.shape[-1] % self.num_heads != 0:')],
    demo='''
import jax, jax.numpy as jnp
import e3x
att = e3x.nn.SelfAttention(num_heads=3, qkv_features=6, use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False)
x = jnp.ones((3, 1, 4, 4))
dst, src = e3x.ops.sparse_pairwise_indices(3)
y, _ = att.init_with_output(jax.random.PRNGKey(0), x, dst_idx=dst, src_idx=src)
assert y.shape == (3, 1, 4, 4), y.shape
''')

bug(id='B37', property='C16', tests=['tests/nn'],
    needs='attention on features with pseudotensors (two parity channels)',
    breaks='attention scores are not divided by the square root of the number of query components (parity, degree, features), so the temperature is wrong',
    edits=[('e3x/nn/modules.py', 'depth = math.prod(query.shape[-4:-1])', 'depth = math.prod(query.shape[-3:-1])')],
    demo='''
import jax, jax.numpy as jnp, numpy as np
jax.config.update('jax_enable_x64', True)
import e3x
ones = jax.nn.initializers.ones
# All kernels are one: q_i . k_j is known, values are the features of the source.
att = e3x.nn.SelfAttention(num_heads=1, use_relative_positional_encoding_qk=False,
  use_relative_positional_encoding_v=False, query_kernel_init=ones, key_kernel_init=ones,
  value_kernel_init=ones, output_kernel_init=ones, param_dtype=jnp.float64)
x = jnp.asarray(np.random.RandomState(0).normal(size=(3, 2, 4, 1)))
dst, src = e3x.ops.sparse_pairwise_indices(3)
y, _ = att.init_with_output(jax.random.PRNGKey(0), x, dst_idx=dst, src_idx=src)
want = np.zeros(x.shape)
for i in range(3):
  js = [j for j in range(3) if j != i]
  s = np.array([float(jnp.sum(x[i] * x[j])) for j in js]) / np.sqrt(8)
  w = np.exp(s) / np.exp(s).sum()
  want[i] = sum(a * np.asarray(x[j]) for a, j in zip(w, js))
assert np.allclose(y, want, atol=1e-6), np.abs(y - want).max()
''')

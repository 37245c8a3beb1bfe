"""Independent reference mathematics (numpy float64 only, no e3x, no jax).

Conventions documented by e3x: row vectors (r @ R), real harmonics without
Condon-Shortley phase, Racah normalisation (Y_00 = 1) unless stated otherwise,
m-order [-l..l] or "Cartesian" order [l, -l, l-1, -(l-1), ..., 0].
"""

import functools
import itertools
import math
from fractions import Fraction

import numpy as np

NORMALIZATIONS = ('racah', 'schmidt', '4pi', 'orthonormal')


def norm_const(normalization, l):
  if normalization in ('racah', 'schmidt'):
    return 1.0
  if normalization == '4pi':
    return math.sqrt(2 * l + 1)
  if normalization == 'orthonormal':
    return math.sqrt((2 * l + 1) / (4 * math.pi))
  raise ValueError(normalization)


def m_order(l, cartesian):
  if not cartesian:
    return list(range(-l, l + 1))
  out = []
  for m in range(l, 0, -1):
    out += [m, -m]
  return out + [0]


def permutation(max_degree, cartesian):
  """Index array p with ordered = plain[..., p] (plain is m = -l..l)."""
  p = []
  for l in range(max_degree + 1):
    p += [l * l + l + m for m in m_order(l, cartesian)]
  return np.array(p, dtype=int)


@functools.lru_cache(maxsize=None)
def _pi_coefficients(l, m):
  """Coefficients c[k] of r^(2k) z^(l-2k-m) (without the square root)."""
  out = []
  for k in range((l - m) // 2 + 1):
    c = Fraction(
        (-1) ** k
        * math.comb(l, k)
        * math.comb(2 * l - 2 * k, l)
        * math.factorial(l - 2 * k),
        2**l * math.factorial(l - 2 * k - m),
    )
    out.append(float(c))
  scale = math.sqrt(math.factorial(l - m) / math.factorial(l + m))
  return [c * scale for c in out]


def solid_harmonics(r, max_degree, cartesian=False, normalization='racah'):
  """Homogeneous polynomials |r|^l Y_lm(r/|r|)."""
  r = np.asarray(r, dtype=np.float64)
  x, y, z = r[..., 0], r[..., 1], r[..., 2]
  r2 = x * x + y * y + z * z
  xy = x + 1j * y
  xym = [np.ones_like(xy)]
  for _ in range(max_degree):
    xym.append(xym[-1] * xy)
  out = []
  for l in range(max_degree + 1):
    n = norm_const(normalization, l)
    for m in m_order(l, cartesian):
      p = 0.0
      for k, c in enumerate(_pi_coefficients(l, abs(m))):
        p = p + c * r2**k * z ** (l - 2 * k - abs(m))
      if m > 0:
        p = p * math.sqrt(2) * xym[m].real
      elif m < 0:
        p = p * math.sqrt(2) * xym[-m].imag
      out.append(n * p * np.ones_like(x))
  return np.stack(out, axis=-1)


def spherical_harmonics(r, max_degree, cartesian=False, normalization='racah'):
  r = np.asarray(r, dtype=np.float64)
  n = np.linalg.norm(r, axis=-1, keepdims=True)
  return solid_harmonics(
      r / np.where(n > 0, n, 1), max_degree, cartesian, normalization
  )


def sphere_points(k=2):
  """Unit vectors through all non-zero points of {-k..k}^3."""
  v = np.array(
      [p for p in itertools.product(range(-k, k + 1), repeat=3) if any(p)],
      dtype=np.float64,
  )
  v = v / np.linalg.norm(v, axis=-1, keepdims=True)
  return np.unique(np.round(v, 12), axis=0)


@functools.lru_cache(maxsize=None)
def _wigner_points(max_degree):
  pts = sphere_points(3)
  y = solid_harmonics(pts, max_degree)
  return pts, np.linalg.pinv(y)


def wigner_d(rot, max_degree, cartesian=False):
  """D with Y(r) @ D == Y(r @ rot), block by block, from the harmonics."""
  rot = np.asarray(rot, dtype=np.float64)
  pts, pinv = _wigner_points(max_degree)
  d = np.matmul(pinv, solid_harmonics(np.matmul(pts, rot), max_degree))
  p = permutation(max_degree, cartesian)
  return d[..., p, :][..., :, p]


def rx(a):
  c, s = np.cos(a), np.sin(a)
  return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])


def ry(a):
  c, s = np.cos(a), np.sin(a)
  return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])


def rz(a):
  c, s = np.cos(a), np.sin(a)
  return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


def euler(a, b, c):
  """Row-vector matrix: about x by a, then about y by b, then about z by c."""
  return rx(a) @ ry(b) @ rz(c)


def axis_angle(axis, angle):
  """Row-vector matrix of the counterclockwise rotation about axis."""
  axis = np.asarray(axis, dtype=np.float64)
  u = axis / np.linalg.norm(axis)
  k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
  col = np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * (k @ k)
  return col.T


@functools.lru_cache(maxsize=None)
def octahedral_group():
  """The 24 proper rotations that map the coordinate axes to themselves."""
  out = []
  for p in itertools.permutations(range(3)):
    for s in itertools.product((1, -1), repeat=3):
      m = np.zeros((3, 3))
      for i in range(3):
        m[i, p[i]] = s[i]
      if np.linalg.det(m) > 0:
        out.append(m)
  return np.array(out)


@functools.lru_cache(maxsize=None)
def icosahedral_group():
  """The 60 rotations of the icosahedron (closure of two generators)."""
  phi = (1 + 5**0.5) / 2
  gens = [axis_angle([0, 1, phi], 2 * np.pi / 5), axis_angle([1, 1, 1], 2 * np.pi / 3)]
  elems = [np.eye(3)]
  frontier = [np.eye(3)]
  while frontier:
    new = []
    for e in frontier:
      for g in gens:
        c = e @ g
        if not any(np.allclose(c, q, atol=1e-6) for q in elems):
          elems.append(c)
          new.append(c)
    frontier = new
    assert len(elems) <= 60
  assert len(elems) == 60
  return np.array(elems)


def euler_grid(max_degree):
  """(2L+1)^3 rotations deciding trigonometric identities of degree <= L.

  Matrix elements of degree <= L are trigonometric polynomials of degree <= L in
  each Euler angle, hence determined by 2L+1 equispaced values per angle.
  """
  n = 2 * max_degree + 1
  angles = 2 * np.pi * (np.arange(n) + 0.3) / n
  return np.array(
      [euler(a, b, c) for a in angles for b in angles for c in angles]
  )


def complex_cg(j1, m1, j2, m2, j3, m3):
  """Condon-Shortley Clebsch-Gordan coefficient <j1 m1 j2 m2 | j3 m3>."""
  if m1 + m2 != m3 or not abs(j1 - j2) <= j3 <= j1 + j2:
    return 0.0
  f = math.factorial
  pre = math.sqrt(
      (2 * j3 + 1)
      * f(j3 + j1 - j2)
      * f(j3 - j1 + j2)
      * f(j1 + j2 - j3)
      / f(j1 + j2 + j3 + 1)
  )
  pre *= math.sqrt(
      f(j3 + m3) * f(j3 - m3) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2)
  )
  s = 0.0
  for k in range(0, j1 + j2 - j3 + 1):
    d = [
        k,
        j1 + j2 - j3 - k,
        j1 - m1 - k,
        j2 + m2 - k,
        j3 - j2 + m1 + k,
        j3 - j1 - m2 + k,
    ]
    if min(d) < 0:
      continue
    s += (-1) ** k / math.prod(f(i) for i in d)
  return pre * s


@functools.lru_cache(maxsize=None)
def _complex_to_real(l):
  """U with Y_real[m] = sum_mu U[m, mu] Y_complex[mu] (CS phase in complex)."""
  u = np.zeros((2 * l + 1, 2 * l + 1), dtype=complex)
  for m in range(-l, l + 1):
    if m > 0:
      u[l + m, l + m] = (-1) ** m / math.sqrt(2)
      u[l + m, l - m] = 1 / math.sqrt(2)
    elif m < 0:
      u[l + m, l + m] = 1j / math.sqrt(2)
      u[l + m, l - m] = -1j * (-1) ** m / math.sqrt(2)
    else:
      u[l, l] = 1
  return u


@functools.lru_cache(maxsize=None)
def real_cg(l1, l2, l3):
  """Real Clebsch-Gordan block (m = -l..l) in the sign convention of e3x."""
  c = np.zeros((2 * l1 + 1, 2 * l2 + 1, 2 * l3 + 1), dtype=complex)
  for m1 in range(-l1, l1 + 1):
    for m2 in range(-l2, l2 + 1):
      m3 = m1 + m2
      if abs(m3) <= l3:
        c[l1 + m1, l2 + m2, l3 + m3] = complex_cg(l1, m1, l2, m2, l3, m3)
  u1, u2, u3 = (_complex_to_real(l) for l in (l1, l2, l3))
  out = np.einsum('am,bn,ck,mnk->abc', u1, u2, u3.conj(), c)
  out = out.imag if (l1 + l2 + l3) % 2 == 1 else out.real
  return (-1) ** ((l1 + l2 - l3 + 1) // 2) * out


def full_cg(max1, max2, max3, cartesian=False):
  c = np.zeros(((max1 + 1) ** 2, (max2 + 1) ** 2, (max3 + 1) ** 2))
  for l1 in range(max1 + 1):
    for l2 in range(max2 + 1):
      for l3 in range(max3 + 1):
        if abs(l1 - l2) <= l3 <= l1 + l2:
          c[
              l1**2 : (l1 + 1) ** 2,
              l2**2 : (l2 + 1) ** 2,
              l3**2 : (l3 + 1) ** 2,
          ] = real_cg(l1, l2, l3)
  p1, p2, p3 = (permutation(m, cartesian) for m in (max1, max2, max3))
  return c[p1][:, p2][:, :, p3]

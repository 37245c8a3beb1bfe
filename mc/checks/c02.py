"""Cache transparency: tables do not depend on cache files or the history."""

import itertools
import os

from mc import fsproc

PROPERTY = 'C02'
LEVEL = 'model_checking'
NEEDS_E3X = False
SPAWNS = True
RULE = (
    'histories: for each of the four tables, every sequence of 3 (thorough 4;'
    ' Clebsch-Gordan 3) steps from {set the cache path to P1, P2, None, a path in'
    ' a missing directory; request degree 0, 1 (thorough: 2); restart the process;'
    ' replace the file at P1 by: nothing, a truncated copy, an empty file,'
    ' garbage, a valid empty table, tables of degree 0/1, an npz of another table,'
    ' a directory} and every sequence of 4 (thorough 5) steps from the subset {P1,'
    ' P2, None, request 0, 1, restart, delete} (Clebsch-Gordan thorough only)'
    ' followed by requests of every degree is executed on the real code (processes'
    ' are forked, so in-process state takes part; directories are snapshot and'
    ' restored; restarts are deduplicated by directory contents): every request'
    ' returns the correct table without an exception, and if a writable path is'
    ' configured the file is complete and covers the request afterwards. damage:'
    ' every truncation length and every single-bit flip (thorough also every byte'
    ' value) of a cache file: later requests are correct. growth: every increasing'
    ' sequence of 2 or 3 degrees <= 3 (Clebsch-Gordan, Wigner-D: <= 2; thorough: all'
    ' <= 3) extends one file step by step, with or without restarts. command'
    ' line: the documented pre-generation command. api: public functions'
    ' give identical results for every history of cache settings of length 3'
)
ASSUMPTIONS = [
    'correct table = the table returned without a configured cache in a fresh'
    ' process (its values are decided by C04, C05, C06, C07)',
]


def plan(tier):
  jobs = []
  deep = tier == 'thorough'
  for t in fsproc.TABLES:
    for first in steps(t, tier):
      jobs.append(dict(kind='hist', t=t, first=list(first), depth=(2 if t == 'cg' or not deep else 3), tier=tier))
    for first in SMALL:
      if t != 'cg' or deep:
        jobs.append(dict(kind='hist', t=t, first=list(first), depth=3 if not deep else 4, small=True, tier=tier))
    for deg in (0, 1):
      parts = 4 if t in ('cg', 'wigner') and deg else 1
      for part in range(parts):
        jobs.append(dict(kind='damage', t=t, deg=deg, part=part, parts=parts, tier=tier))
  for t in fsproc.TABLES:
    top = 3 if deep or t in ('sh', 'tensor') else 2
    for n in range(1, 3 if not deep else top + 1):
      for chain in itertools.combinations(range(top + 1), n + 1):
        jobs.append(dict(kind='grow', t=t, chain=list(chain)))
  if not deep:
    jobs.append(dict(kind='grow', t='wigner', chain=[2, 3]))
  for t in fsproc.TABLES:
    jobs.append(dict(kind='cli', t=t))
  jobs.append(dict(kind='pool'))
  jobs.append(dict(kind='api'))
  return jobs


SMALL = [('path', 'P1'), ('path', 'P2'), ('path', None), ('req', 0), ('req', 1), ('restart', None), ('file', 'none')]


def weight(job):
  return (job['kind'] == 'api', job['kind'] == 'hist' and job['t'] == 'cg', job['kind'] == 'damage')


def run_job(job, rec):
  fsproc.spawn(job, rec, __name__, shim=False)


FILES = ('none', 'cut', 'empty', 'garbage', 'd-1', 'd0', 'd1', 'other', 'dir')


def steps(t, tier):
  """The alphabet of a history."""
  degs = (0, 1) if t in ('cg', 'wigner') or tier == 'quick' else (0, 1, 2)
  out = [('path', p) for p in ('P1', 'P2', None, 'missing/P3')]
  out += [('req', d) for d in degs]
  out += [('restart', None)]
  out += [('file', f) for f in FILES]
  return out


def path_of(w, p):
  return None if p is None else f'{w.root}/{p}.npz'


def apply_file(w, t, kind):
  import shutil

  p = f'{w.root}/P1.npz'
  if os.path.isdir(p):
    shutil.rmtree(p)
  elif os.path.exists(p):
    os.remove(p)
  if kind == 'none':
    return
  if kind == 'dir':
    os.mkdir(p)
    return
  if kind == 'cut':
    data = w.seed_file(t, 1)
    data = data[: len(data) // 2]
  elif kind == 'empty':
    data = b''
  elif kind == 'garbage':
    data = bytes(range(256)) * 3
  elif kind == 'other':
    data = w.seed_file('tensor' if t != 'tensor' else 'cg', 1)
  else:
    data = w.seed_file(t, int(kind[1:]))
  with open(p, 'wb') as f:
    f.write(data)


class Histories:

  def __init__(self, w, rec, t, tier, small):
    self.w, self.rec, self.t = w, rec, t
    self.alphabet = SMALL if small else steps(t, tier)
    self.degs = (0, 1) if t in ('cg', 'wigner') else (0, 1, 2)
    if t == 'cg':
      self.alphabet = [s for s in self.alphabet if s != ('file', 'empty')]

  def request(self, d, path, history):
    """One request in the current process."""
    w, rec, t = self.w, self.rec, self.t
    rec.case = (t, history)
    rec.call()
    try:
      table = w.gen[t][0](d)
    except Exception as e:  # pylint: disable=broad-exception-caught
      rec.fail(f'request of degree {d} raised {type(e).__name__}: {e}'[:300], history=history)
    problem = fsproc.same(table, w.ref(t, d))
    rec.check(problem is None, f'wrong table for degree {d}', problem=problem, history=history)
    p = path_of(w, path)
    if p is not None and os.path.isfile(p) and t in ('cg', 'wigner'):
      # (The other tables fall back to the packaged table, without writing.)
      with open(p, 'rb') as f:
        rec.check(fsproc.parse(f.read()) is not None, 'incomplete cache file', history=history)

  def apply(self, step, path, history):
    kind, arg = step
    if kind == 'path':
      self.w.set_path(self.t, path_of(self.w, arg))
      return arg
    if kind == 'req':
      self.request(arg, path, history)
    elif kind == 'file':
      apply_file(self.w, self.t, arg)
    return path

  def legal(self, step, path, last):
    # Consecutive replacements of the file overwrite each other; so do paths.
    if last is not None and step[0] == last[0] and step[0] in ('file', 'path', 'restart'):
      return False
    # A damaged SH/tensor file is irrelevant while another path is configured
    # for good; keep everything else.
    return True

  def dfs(self, snap, path, depth, history, first=None):
    """All continuations inside the current process; returns restart points."""
    restarts = {}
    for step in [first] if first else self.alphabet:
      if not self.legal(step, path, history[-1] if history else None):
        continue
      h = history + (tuple(step),)
      if step[0] == 'restart':
        self.rec.state(self.t, h)
        restarts.setdefault((frozenset(snap.items()), depth - 1), h)
        continue
      def child(step=step, h=h):
        rec = self.rec
        rec.states, rec.calls, rec.compared = set(), 0, 0
        self.w.restore(snap)
        from mc import core

        try:
          rec.state(self.t, h)
          p = self.apply(step, path, h)
          s = self.w.snapshot()
          if depth > 1:
            more = self.dfs(s, p, depth - 1, h)
          else:
            for d in self.degs:
              self.w.restore(s)
              self.request(d, p, h + (('req', d),))
            more = {}
        except core.Violation as e:
          return None, str(e), rec.case, None, None
        return rec.states, rec.calls, rec.compared, more, None
      a, b, c, more, _ = self.w.in_child(child)
      if a is None:
        self.rec.case = c
        self.rec.fail(b)
      self.rec.states |= a
      self.rec.calls += b
      self.rec.compared += c
      for k, v in more.items():
        restarts.setdefault(k, v)
    return restarts


def drive(job, rec, w):
  if job['kind'] == 'hist':
    t = job['t']
    h = Histories(w, rec, t, job['tier'], job.get('small'))
    for d in (0, 1, 2):
      w.ref(t, d) if (t not in ('cg', 'wigner') or d < 2) else None
      if not (t in ('cg', 'wigner') and d == 2):
        w.seed_file(t, d)
        w.seed_file('tensor' if t != 'tensor' else 'cg', 1)
    first = (job['first'][0], job['first'][1])
    seen = set()
    pending = [({}, job['depth'] + 1, (), first)]
    while pending:
      snap, depth, hist, f = pending.pop()
      if depth <= 0:
        # A new process: path configured, all degrees.
        for p in ('P1', None):
          def child(p=p):
            w.restore(snap)
            w.set_path(t, path_of(w, p))
            for d in h.degs[::-1]:
              h.request(d, p, hist + (('path', p), ('req', d)))
          w.in_child(child)
        continue
      more = h.dfs(snap, None, depth, hist, f)
      for (s, d), hh in more.items():
        if (s, d) in seen:
          continue
        seen.add((s, d))
        pending.append((dict(s), d, hh, None))
    rec.outcome((t, first, len(seen)))
  elif job['kind'] == 'damage':
    damage(job, rec, w)
  elif job['kind'] == 'pool':
    pool(rec, w)
  elif job['kind'] == 'grow':
    grow(job, rec, w)
  elif job['kind'] == 'cli':
    cli(job, rec, w)
  else:
    api(rec, w)


def damage(job, rec, w):
  t, deg = job['t'], job['deg']
  data = w.seed_file(t, deg)
  ref = w.ref(t, deg)
  p = f'{w.root}/c.npz'
  cases = [('cut', n) for n in range(len(data))]
  cases += [('flip', i, 1 << b) for i in range(len(data)) for b in range(8)]
  if job['tier'] == 'thorough':
    cases += [('flip', i, b) for i in range(len(data)) for b in range(1, 256) if b & (b - 1)]
  if deg and job['tier'] == 'quick':  # slower generation
    cases = [c for c in cases if c[0] == 'flip' and c[2] == 1 << c[1] % 8 or c[0] == 'cut' and t != 'cg']
  cases = cases[job['part']::job['parts']]
  w.restore({})

  def child():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    w.set_path(t, p)
    n = 0
    for c in cases:
      if c[0] == 'cut':
        d = data[: c[1]]
      else:
        d = bytearray(data)
        d[c[1]] ^= c[2]
      with open(p, 'wb') as f:
        f.write(d)
      try:
        table = w.gen[t][0](deg)
      except Exception as e:  # pylint: disable=broad-exception-caught
        return c, f'raised {type(e).__name__}: {e}'[:300]
      n += 1
      problem = fsproc.same(table, ref)
      if problem is not None:
        return c, problem
      with open(p, 'rb') as f:
        now = f.read()
      if now != d and now != data and not fsproc.equal_contents(fsproc.parse(now), fsproc.parse(data)):
        return c, 'the rewritten cache file is wrong'
    return None, n

  c, out = w.in_child(child)
  rec.states_bulk((t, deg, 'damage', job['part']), len(cases))
  rec.call(len(cases))
  rec.case = (t, deg, c)
  rec.check(c is None, 'damaged cache file', damage=c, problem=out)
  rec.compared += len(cases)


def grow(job, rec, w):
  """A cache file which is extended from degree to degree.

  Every increasing sequence of degrees, within one process or with a new process
  per request; the file then has the contents of a file generated in one go.
  """
  t, chain = job['t'], job['chain']
  top = chain[-1]
  refs = {}
  # The reference grows in one go from an empty file (for the tables without a
  # packaged version this is the same as no cache at all).
  for d in {*chain, *range(top)}:
    refs[d] = w.ref(t, d)
  direct = fsproc.parse(w.seed_file(t, top))
  for restart in (False, True):
    w.restore({'c.npz': w.seed_file(t, -1)})
    rec.case = (t, chain, 'restart' if restart else 'one process')
    rec.state('grow', t, tuple(chain), restart)

    def run(degrees):
      w.set_path(t, f'{w.root}/c.npz')
      for d in degrees:
        problem = fsproc.same(w.gen[t][0](d), refs[d])
        if problem is not None:
          return f'degree {d}: {problem}'

    for degrees in [[d] for d in chain] if restart else [chain]:
      rec.call(len(degrees))
      problem = w.in_child(lambda: run(degrees))
      rec.check(problem is None, 'table grown step by step is wrong', table=t, chain=chain, restart=restart, problem=problem)
    with open(f'{w.root}/c.npz', 'rb') as f:
      now = fsproc.parse(f.read())
    rec.check(close_contents(now, direct), 'file grown step by step is wrong', table=t, chain=chain, restart=restart)
    rec.call(top)
    problem = w.in_child(lambda: run(range(top)))
    rec.check(problem is None, 'lower degree from a grown file is wrong', table=t, chain=chain, problem=problem)


def close_contents(a, b):
  import numpy as np

  if a is None or b is None or set(a) != set(b):
    return False
  return all(
      a[k].shape == b[k].shape and np.allclose(a[k], b[k], rtol=0, atol=1e-12)
      for k in a
  )


def cli(job, rec, w):
  """The documented pre-generation command writes a correct, complete file."""
  import subprocess
  import sys

  t = job['t']
  name = dict(cg='clebsch_gordan', wigner='wigner_d', sh='spherical_harmonics', tensor='tensor_conversion')[t]
  w.ref(t, 1)
  for deg, num, init in ((1, 2, -1), (0, 1, -1), (1, 1, 0)):
    w.restore({'c.npz': w.seed_file(t, init)})
    rec.case = (t, 'command line', deg, num, init)
    rec.state('cli', t, deg, num, init)
    rec.call()
    env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
    r = subprocess.run(
        [sys.executable, '-m', f'e3x.so3._{name}_lut', '--max_degree', str(deg),
         '--path', f'{w.root}/c.npz', '--num_processes', str(num)],
        cwd=w.root, env=env, capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=600)
    rec.check(r.returncode == 0, 'pre-generation command fails', table=t, args=(deg, num), stderr=r.stderr[-300:])
    with open(f'{w.root}/c.npz', 'rb') as f:
      now = fsproc.parse(f.read())
    rec.check(close_contents(now, fsproc.parse(w.seed_file(t, deg))), 'pre-generated file is wrong', table=t, args=(deg, num))
    problem = w.in_child(w.request(t, f'{w.root}/c.npz', deg))
    rec.check(problem is None, 'pre-generated table is wrong', table=t, args=(deg, num), problem=problem)


def pool(rec, w):
  """Pre-generation with several processes gives the same tables and files."""
  for t in fsproc.TABLES:
    for init in (-1, 0):
      for num in (1, 2, 3):
        deg = 1
        w.restore({'c.npz': w.seed_file(t, init)})
        ref = w.ref(t, deg)

        def child():
          w.set_path(t, f'{w.root}/c.npz')
          return fsproc.same(w.gen[t][0](deg, num), ref)

        rec.state('pool', t, init, num)
        rec.call()
        problem = w.in_child(child)
        rec.check(problem is None, 'pre-generation', table=t, num_processes=num, problem=problem)
        with open(f'{w.root}/c.npz', 'rb') as f:
          cur = fsproc.parse(f.read())
        rec.check(
            fsproc.equal_contents(cur, fsproc.parse(w.seed_file(t, deg))),
            'pre-generated file', table=t, num_processes=num)


def api(rec, w):
  """Public functions under every history of cache settings."""
  import itertools

  def child():
    import jax.numpy as jnp
    import numpy as np

    e3x = w.e3x
    c = e3x.Config
    setters = (c.set_clebsch_gordan_cache, c.set_wigner_d_cache, c.set_spherical_harmonics_cache, c.set_tensor_conversion_cache)
    v = jnp.asarray([[0.3, -0.4, 0.8], [1.0, 2.0, 3.0]])
    rot = jnp.asarray([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
    t2 = jnp.arange(9.0).reshape(3, 3)
    fns = dict(
        cg=lambda: e3x.so3.clebsch_gordan(1, 1, 1),
        wigner=lambda: e3x.so3.wigner_d(rot, 1),
        sh=lambda: e3x.so3.spherical_harmonics(v, 1),
        tensor=lambda: e3x.so3.tensor_to_irreps(t2, degree=2),
        cg_real=lambda: e3x.so3.clebsch_gordan_for_degrees(1, 1, 0),
    )
    for s in setters:
      s(None)
    w.restore({})
    ref = {k: np.asarray(f()) for k, f in fns.items()}
    n = 0
    for hist in itertools.product(('a', 'b', None), repeat=3):
      w.restore({f'a{i}.npz': w.seed_file(t, -1) for i, t in enumerate(fsproc.TABLES)})
      for p in hist:
        for i, s in enumerate(setters):
          s(None if p is None else f'{w.root}/{p}{i}.npz')
        for k, f in fns.items():
          n += 1
          if not np.allclose(np.asarray(f()), ref[k], rtol=0, atol=1e-6):
            return n, f'{k} differs after {hist}'
    return n, None

  # seed files first, without jax
  for t in fsproc.TABLES:
    w.seed_file(t, -1)
  n, problem = w.in_child(child)
  rec.states_bulk(('api',), 27)
  rec.call(n)
  rec.check(problem is None, 'public functions', problem=problem)

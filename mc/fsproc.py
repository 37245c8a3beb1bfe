"""Runs the table generation of e3x in controlled processes.

`spawn(job, rec, module, shim=True)` starts a fresh single-threaded interpreter
(the *driver*; with the LD_PRELOAD shim mc/fsshim.c if wanted), which imports
e3x from the working tree and executes `module.drive(job, rec, world)`.  The
driver forks one child per simulated process run; each child reports every file
operation below the watched directory before it takes effect and waits for the
driver's answer (go, die, torn write, error, short count).  So the driver
controls crash points, I/O errors and the interleaving of several processes
completely, on the real code.
"""

import errno
import os
import pickle
import shutil
import signal
import socket
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
TABLES = ('cg', 'wigner', 'sh', 'tensor')
OPS_LIMIT = 20000


def build_shim(outdir):
  """Compiles the shim (once per run directory)."""
  so = os.path.join(outdir, 'fsshim.so')
  if not os.path.exists(so):
    fd, tmp = tempfile.mkstemp(dir=outdir, suffix='.so')
    os.close(fd)
    subprocess.check_call([
        'gcc', '-O1', '-w', '-shared', '-fPIC', '-o', tmp,
        os.path.join(HERE, 'fsshim.c'), '-ldl', '-lpthread',
    ])
    os.replace(tmp, so)
  return so


def spawn(job, rec, module, shim=True, timeout=3600):
  """Executes module.drive(job, rec, world) in a driver process."""
  scratch = tempfile.mkdtemp(prefix='fs-', dir=sys.modules[module].SCRATCH)
  try:
    with open(f'{scratch}/job', 'wb') as f:
      pickle.dump((job, module), f)
    env = dict(os.environ)
    if shim:
      env['LD_PRELOAD'] = build_shim(scratch)
    r = subprocess.run(
        [sys.executable, '-m', 'mc.fsproc', scratch],
        env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True,
        timeout=timeout,
    )
    if r.returncode != 0 or not os.path.exists(f'{scratch}/out'):
      raise RuntimeError(f'driver failed ({r.returncode}): {r.stderr[-3000:]}')
    with open(f'{scratch}/out', 'rb') as f:
      out = pickle.load(f)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  rec.states |= out['states']
  rec.calls += out['calls']
  rec.compared += out['compared']
  rec.samples += out['samples'][: 2 - len(rec.samples)] if len(rec.samples) < 2 else []
  rec.outcomes |= out['outcomes']
  rec.case = out['case']
  if out['violation']:
    rec.fail(out['violation'])


# --------------------------------------------------------------------------
# Driver side.


class Stuck(Exception):
  """A simulated process does not finish."""


def same(a, b):
  """None if two tables are the same, else a description."""
  import numpy as np

  if not isinstance(a, dict) or set(a) != set(b):
    return f'keys {sorted(a) if isinstance(a, dict) else type(a)} instead of {sorted(b)}'
  for k in b:
    x, y = a[k], b[k]
    if not isinstance(y, list):
      x, y = [x], [y]
    if len(x) != len(y):
      return f'{k}: {len(x)} instead of {len(y)} entries'
    for u, v in zip(x, y):
      u, v = np.asarray(u), np.asarray(v)
      if u.shape != v.shape:
        return f'{k}: shape {u.shape} instead of {v.shape}'
      if u.dtype.kind not in 'iuf' or (u.dtype.kind == 'f') != (v.dtype.kind == 'f'):
        return f'{k}: dtype {u.dtype} instead of {v.dtype}'
      if u.size and not np.max(np.abs(u.astype(float) - v.astype(float))) <= 1e-12:
        i = np.unravel_index(np.argmax(np.nan_to_num(np.abs(u - v), nan=1e300)), u.shape)
        return f'{k}{list(map(int, i))}: {u[i]} instead of {v[i]}'
  return None


class World:
  """The watched directory, the reference tables and process control."""

  def __init__(self, scratch, shim):
    self.root = os.path.realpath(scratch) + '/w'
    os.mkdir(self.root)
    self.tmp = self.root + '/tmp'
    self.shim = shim
    import time

    fixed = time.localtime(1700000000)
    time.localtime = lambda *a: fixed  # reproducible time stamps in npz files
    from absl import logging

    logging.set_verbosity(logging.FATAL)
    from mc import core

    e3x = core.setup_e3x(None)
    from e3x.so3 import _clebsch_gordan_lut, _wigner_d_lut, _spherical_harmonics_lut, _tensor_conversion_lut

    c = e3x.Config
    self.e3x = e3x
    self.gen = dict(
        cg=(_clebsch_gordan_lut._generate_clebsch_gordan_lookup_table, c.set_clebsch_gordan_cache),
        wigner=(_wigner_d_lut._generate_wigner_d_lookup_table, c.set_wigner_d_cache),
        sh=(_spherical_harmonics_lut._generate_spherical_harmonics_lookup_table, c.set_spherical_harmonics_cache),
        tensor=(_tensor_conversion_lut._generate_tensor_conversion_lookup_table, c.set_tensor_conversion_cache),
    )
    if shim:
      import ctypes

      self.lib = ctypes.CDLL(None)
      self.arm, self.disarm = self.lib.fsshim_arm, self.lib.fsshim_disarm
    self.refs = {}
    self.files = {}

  def set_path(self, table, path):
    self.gen[table][1](path)

  def ref(self, table, degree):
    """The table of a process without a configured cache (fresh fork)."""
    if (table, degree) not in self.refs:
      self.refs[table, degree] = self.in_child(lambda: self._plain(table, degree))
    return self.refs[table, degree]

  def _plain(self, table, degree):
    self.set_path(table, None)
    return self.gen[table][0](degree)

  def seed_file(self, table, degree):
    """Bytes of a cache file holding exactly the given degree (-1: nothing).

    Produced by the code under test in an undisturbed run.
    """
    import io

    import numpy as np

    if (table, degree) not in self.files:
      buf = io.BytesIO()
      np.savez_compressed(buf, max_degree=-1)
      data = buf.getvalue()
      if degree >= 0:
        d = tempfile.mkdtemp(dir=os.path.dirname(self.root))
        with open(d + '/c.npz', 'wb') as f:
          f.write(data)

        def run():
          self.set_path(table, d + '/c.npz')
          self.gen[table][0](degree)

        self.in_child(run)
        with open(d + '/c.npz', 'rb') as f:
          data = f.read()
        shutil.rmtree(d)
      self.files[table, degree] = data
    return self.files[table, degree]

  def in_child(self, fn):
    """fn() in a forked child; raises what it raised (as RuntimeError)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(r)
        try:
          out = pickle.dumps((True, fn()))
        except BaseException as e:  # pylint: disable=broad-exception-caught
          out = pickle.dumps((False, f'{type(e).__name__}: {e}'[:800]))
        with os.fdopen(w, 'wb') as f:
          f.write(out)
      finally:
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
      data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
      raise RuntimeError(f'child process died (status {status})')
    ok, value = pickle.loads(data)
    if not ok:
      raise RuntimeError(value)
    return value

  # Directory states.

  def restore(self, snap):
    """Makes the watched directory equal to a snapshot {relpath: bytes|None}."""
    shutil.rmtree(self.root)
    os.mkdir(self.root)
    os.mkdir(self.tmp)
    for p, data in sorted(snap.items()):
      q = f'{self.root}/{p}'
      if data is None:
        os.makedirs(q, exist_ok=True)
      else:
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
          f.write(data)

  def snapshot(self):
    out = {}
    for d, dirs, files in os.walk(self.root):
      for x in dirs:
        out[os.path.relpath(f'{d}/{x}', self.root)] = None
      for x in files:
        with open(f'{d}/{x}', 'rb') as f:
          out[os.path.relpath(f'{d}/{x}', self.root)] = f.read()
    out.pop('tmp', None)
    return out

  def proc(self, fn):
    return Proc(self, fn)

  def request(self, table, path, degree):
    """A process run: configure the path, ask for the table, compare."""
    ref = self.ref(table, degree)

    def fn():
      self.set_path(table, path)
      try:
        t = self.gen[table][0](degree)
      except Exception as e:  # pylint: disable=broad-exception-caught
        return f'raised {type(e).__name__}: {e}'[:300]
      return same(t, ref)

    return fn


class Proc:
  """A forked child whose file operations are controlled."""

  def __init__(self, world, fn):
    a, b = socket.socketpair()
    self.ops = []
    self.result = None
    self.status = None
    self.event = None
    pid = os.fork()
    if pid == 0:
      try:
        a.close()
        os.environ['TMPDIR'] = world.tmp
        tempfile.tempdir = None
        os.chdir(world.root)
        world.arm(b.fileno(), world.root.encode())
        try:
          r = (True, fn())
        except BaseException as e:  # pylint: disable=broad-exception-caught
          r = (False, f'{type(e).__name__}: {e}'[:800])
        world.disarm()
        data = pickle.dumps(r)
        b.sendall(f'done\t{len(data)}\n'.encode() + data)
      finally:
        os._exit(0)
    b.close()
    self.pid, self.sock = pid, a
    self.file = a.makefile('rb')

  def next(self, answer=None):
    """Sends an answer and returns the next event.

    ('op', kind, path, path2, size) | ('done', result) | ('dead', status)
    """
    if answer is not None:
      self.sock.sendall((answer + '\n').encode())
    line = self.file.readline()
    if not line.endswith(b'\n'):
      _, self.status = os.waitpid(self.pid, 0)
      self.close()
      self.event = ('dead', self.status)
    elif line.startswith(b'done\t'):
      n = int(line[5:])
      ok, value = pickle.loads(self.file.read(n))
      os.waitpid(self.pid, 0)
      self.close()
      if not ok:
        raise RuntimeError(value)
      self.result = value
      self.event = ('done', value)
    else:
      kind, p, p2, size = line.decode().rstrip('\n').split('\t')
      p, p2 = (x.removesuffix(' (deleted)') for x in (p, p2))
      self.event = ('op', kind, p, p2, int(size))
      self.ops.append(self.event[1:])
      if len(self.ops) > OPS_LIMIT:
        self.kill()
        raise Stuck(f'process still busy after {OPS_LIMIT} file operations')
    return self.event

  def close(self):
    self.file.close()
    self.sock.close()

  def kill(self):
    if self.event is not None and self.event[0] != 'op':
      return
    try:
      os.kill(self.pid, signal.SIGKILL)
      os.waitpid(self.pid, 0)
    except (ProcessLookupError, ChildProcessError):
      pass
    self.close()
    self.event = ('dead', -9)


def parse(data):
  """Contents of an npz file (None: not a complete npz file)."""
  import io

  import numpy as np

  if data is None:
    return None
  try:
    with np.load(io.BytesIO(data)) as f:
      return {k: f[k] for k in f.files}
  except Exception:  # pylint: disable=broad-exception-caught
    return None


def equal_contents(a, b):
  import numpy as np

  if a is None or b is None or set(a) != set(b):
    return False
  return all(a[k].shape == b[k].shape and np.array_equal(a[k], b[k]) for k in a)


def main():
  scratch = sys.argv[1]
  with open(f'{scratch}/job', 'rb') as f:
    job, module = pickle.load(f)
  import importlib

  from mc import core

  mod = importlib.import_module(module)
  rec = core.Recorder()
  violation = None
  try:
    mod.drive(job, rec, World(scratch, 'LD_PRELOAD' in os.environ))
  except core.Violation as e:
    violation = str(e)
  except Stuck as e:
    violation = f'does not terminate: {e}'
  out = dict(
      states=rec.states, calls=rec.calls, compared=rec.compared,
      samples=rec.samples, outcomes=rec.outcomes, case=repr(rec.case)[:1500],
      violation=violation,
  )
  with open(f'{scratch}/out', 'wb') as f:
    pickle.dump(out, f)


ERRNO = {k: getattr(errno, k) for k in ('ENOSPC', 'EIO', 'EACCES')}

if __name__ == '__main__':
  main()

"""Crash consistency and I/O-error tolerance of the table caches."""

import itertools

from mc import fsproc
from mc.fsproc import ERRNO

PROPERTY = 'C01'
LEVEL = 'fault_enumeration'
NEEDS_E3X = False
SPAWNS = True
RULE = (
    'for each of the four tables (Clebsch-Gordan, Wigner-D, spherical harmonics,'
    ' tensor conversion), each initial cache file {absent, empty table, degree 0,'
    ' degree 1, truncated} and each requested degree: the real code runs in a'
    ' process whose file-system calls below the cache directory are intercepted;'
    ' it is killed before every such call, after the last one, and inside every'
    ' write after 0, 1, half, size-1 bytes (every crash point x torn-write'
    ' pattern); the cache file left behind must hold the complete old or the'
    ' complete new table, and fresh processes requesting lower, the same and'
    ' higher degrees must return correct tables and leave a complete file. Every'
    ' call is also made to fail (ENOSPC, EIO, EACCES, short writes and reads,'
    ' once or persistently): the request must return the correct table without an'
    ' exception and without leaving temporary files. Thorough: a second crash at'
    ' every point of the recovery run (directory states deduplicated)'
)
ASSUMPTIONS = [
    'process crash, not power loss: completed system calls persist',
    'correct table = the table returned without a configured cache (its values'
    ' are decided by C04, C05, C06, C07)',
    'failing stat calls are not injected (the configured directory is readable);'
    ' close errors only for files open for writing',
    'file-system calls made through libc entry points (as CPython does)',
]


def plan(tier):
  jobs = []
  for t in fsproc.TABLES:
    for init in ('absent', 'd-1', 'd0', 'd1', 'cut'):
      if init == 'absent' and t in ('sh', 'tensor'):
        continue  # never written then (the packaged table is used)
      for deg in (0, 1, 2):
        if t in ('cg', 'wigner') and deg == 2 and tier == 'quick':
          continue
        if deg == 2 and init != 'd1' and tier == 'quick':
          continue
        if init == 'd1' and deg < 2:
          continue
        if init == 'd0' and deg < 1:
          continue
        if init == 'cut' and t in ('sh', 'tensor'):
          continue
        for mode in ('crash', 'error'):
          jobs.append(dict(t=t, init=init, deg=deg, mode=mode, tier=tier))
        if tier == 'thorough' and deg < 2:
          jobs.append(dict(t=t, init=init, deg=deg, mode='crash2', tier=tier))
  return jobs


def weight(job):
  return (job['mode'] == 'crash2', job['deg'], job['t'] == 'cg', job['t'] == 'wigner')


def run_job(job, rec):
  fsproc.spawn(job, rec, __name__)


def initial(w, t, init):
  if init == 'absent':
    return {}
  if init == 'cut':
    return {'c.npz': w.seed_file(t, 1)[:-7]}
  return {'c.npz': w.seed_file(t, int(init[1:]))}


def torn(ev):
  """Fault variants of one operation for crashes."""
  _, kind, _, _, size = ev
  if kind == 'write':
    return ['k'] + [f't {n}' for n in sorted({1, size // 2, size - 1} - {0, size}) if 0 < n < size]
  return ['k']


def errors(ev):
  """Fault variants of one operation for I/O errors: (answer, persistent)."""
  _, kind, _, _, size = ev
  e = lambda *names: [f'e {ERRNO[n]}' for n in names]
  return {
      'opentrunc': e('ENOSPC', 'EACCES'), 'openexcl': e('ENOSPC', 'EACCES'),
      'openw': e('ENOSPC', 'EACCES'), 'openr': e('EACCES', 'EIO'),
      'write': e('ENOSPC', 'EIO') + [f's {n}' for n in sorted({1, size // 2}) if 0 < n < size],
      'writev': e('ENOSPC', 'EIO'),
      'read': e('EIO') + ([f's 1'] if size > 1 else []),
      'closew': e('ENOSPC', 'EIO'), 'rename': e('EACCES', 'EIO'),
      'link': e('EACCES', 'EIO'), 'mkdir': e('EACCES'), 'truncate': e('ENOSPC'),
      'fsync': e('EIO'), 'unlink': e('EACCES'),
  }.get(kind, [])


def run(w, rec, fn, at, answer, persistent=False):
  """One process run with the fault `answer` at operation number `at`."""
  p = w.proc(fn)
  ev = p.next()
  i = 0
  kind = None
  while ev[0] == 'op':
    rec.call()
    if i == at:
      kind = ev[1]
      a = answer
    elif persistent and i > at and ev[1] == kind:
      a = answer
    else:
      a = 'g'
    ev = p.next(a)
    i += 1
  return p, ev


def names(w, snap):
  return sorted(k for k in snap if k != 'c.npz')


def drive(job, rec, w):
  t, deg, mode = job['t'], job['deg'], job['mode']
  path = w.root + '/c.npz'
  snap0 = initial(w, t, job['init'])
  fn = w.request(t, path, deg)
  # Undisturbed run: which operations are there, what is the result.
  w.restore(snap0)
  p, ev = run(w, rec, fn, -1, 'g')
  rec.check(ev == ('done', None), 'undisturbed request', event=ev)
  ops = [('op', *o) for o in p.ops]
  final = w.snapshot()
  old, new = snap0.get('c.npz'), final.get('c.npz')
  rec.check(names(w, final) == [], 'undisturbed request leaves other files', files=names(w, final))
  rec.state(job['t'], job['init'], deg, mode, 'undisturbed', [o[1] for o in ops])
  rec.outcome(f"{len(ops)} operations")
  wrote = any(o[1] in ('write', 'writev', 'rename') for o in ops)
  rec.check(wrote, 'the generated table is not saved')
  pold, pnew = fsproc.parse(old), fsproc.parse(new)
  rec.check(pnew is not None, 'no complete cache file after an undisturbed request')
  complete = (pold, pnew)

  seen = set()

  def check_file(snap, complete, what):
    data = snap.get('c.npz')
    if data in (old, new):
      return
    cur = fsproc.parse(data)
    if not any(fsproc.equal_contents(cur, c) for c in complete if c is not None):
      rec.fail('cache file is neither the complete old nor the complete new table',
               after=what, size=None if data is None else len(data))

  def recover(snap, complete, what, degrees):
    key = tuple(sorted((k if k == 'c.npz' else '*', v) for k, v in snap.items()))
    if key in seen:
      return
    seen.add(key)
    for d in degrees:
      w.restore(snap)
      r = w.in_child(w.request(t, path, d))
      rec.call()
      rec.check(r is None, f'request of degree {d} by a later process', after=what, problem=r)
      with open(path, 'rb') as f:
        left = fsproc.parse(f.read())
      rec.check(left is not None, f'no complete cache file after a later request of degree {d}', after=what)
      # A process that relies on what is there now.
      r = w.in_child(w.request(t, path, d))
      rec.check(r is None, f'second later request of degree {d}', after=what, problem=r)

  degrees = (0, 1) if t in ('cg', 'wigner') else (0, 1, 2)

  if mode in ('crash', 'crash2'):
    for i, ev in enumerate(ops):
      variants = torn(ev) + (['a'] if i == len(ops) - 1 else [])
      for a in variants:
        rec.state(t, job['init'], deg, 'crash', i, ev[1], a)
        w.restore(snap0)
        p, e = run(w, rec, fn, i, a)
        if e[0] != 'dead':
          rec.fail('the run is not reproducible', at=i, event=e)
        what = f'crash at operation {i} ({ev[1]}) {a}'
        snap = w.snapshot()
        check_file(snap, complete, what)
        rec.outcome((ev[1], a[0], len(snap), snap.get('c.npz') == old))
        recover(snap, complete, what, degrees)
        if mode == 'crash2':
          second(job, rec, w, t, path, snap, what, seen, check_file)
  else:
    for i, ev in enumerate(ops):
      for a in errors(ev):
        for persistent in (False, True):
          rec.state(t, job['init'], deg, 'error', i, ev[1], a, persistent)
          w.restore(snap0)
          p, e = run(w, rec, fn, i, a, persistent)
          what = f'failing operation {i} ({ev[1]}) {a}' + (' persistently' if persistent else '')
          rec.check(e == ('done', None), 'request with a failing file operation', after=what, event=e)
          snap = w.snapshot()
          rec.outcome((ev[1], a, persistent, snap.get('c.npz') == old))
          if ev[1] != 'unlink':
            rec.check(names(w, snap) == [], 'temporary files left behind', after=what, files=names(w, snap))
          check_file(snap, complete, what)
          recover(snap, complete, what, degrees)


def second(job, rec, w, t, path, snap, what, seen, check_file):
  """Crashes of the recovery run."""
  key = ('2', tuple(sorted((k if k == 'c.npz' else '*', v) for k, v in snap.items())))
  if key in seen:
    return
  seen.add(key)
  deg = job['deg']
  fn = w.request(t, path, deg)
  w.restore(snap)
  p, e = run(w, rec, fn, -1, 'g')
  rec.check(e == ('done', None), 'recovery request', after=what, event=e)
  ops = [('op', *o) for o in p.ops]
  old, new = fsproc.parse(snap.get('c.npz')), fsproc.parse(w.snapshot().get('c.npz'))
  for i, ev in enumerate(ops):
    for a in torn(ev):
      rec.state(t, job['init'], deg, what, 'second', i, a)
      w.restore(snap)
      run(w, rec, fn, i, a)
      s = w.snapshot()
      cur = fsproc.parse(s.get('c.npz'))
      ok = s.get('c.npz') == snap.get('c.npz') or fsproc.equal_contents(cur, old) or fsproc.equal_contents(cur, new)
      rec.check(ok, 'cache file is neither complete old nor new after two crashes', after=what, then=(i, a))
      k2 = tuple(sorted((k if k == 'c.npz' else '*', v) for k, v in s.items()))
      if k2 in seen:
        continue
      seen.add(k2)
      for d in (0, 1):
        w.restore(s)
        r = w.in_child(w.request(t, path, d))
        rec.call()
        rec.check(r is None, f'request of degree {d} after two crashes', after=what, then=(i, a), problem=r)

"""Explorer core: enumerates jobs, runs them on the real code, aggregates.

A check module (mc/checks/cXX.py) provides

  PROPERTY, LEVEL, RULE, ASSUMPTIONS  (strings / list of strings)
  TABLES = dict(quick=(cg_degree, wigner_degree), thorough=(...))   (optional)
  plan(tier) -> list of JSON-serialisable job descriptors (the *whole* bounded
      space, partitioned; nothing is sampled)
  run_job(job, rec) -> None   executes every case of one job on the real code

The parent process never imports jax/e3x; each worker process is forked from it
and imports e3x from /repo's working tree.  A job records

  rec.state(key)   a distinct explored state / configuration / input (hashed)
  rec.call(n)      n executed transitions (applications of public operations)
  rec.agree(...)   one comparison of the implementation with the oracle

and reports a counterexample by raising Violation.  Everything is deterministic:
VERIF_SEED only permutes the order in which jobs are executed.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('E3X_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')


class Violation(Exception):
  """The property does not hold for the recorded case."""


class Recorder:
  """Counts what a job covered."""

  def __init__(self):
    self.states = set()
    self.calls = 0
    self.compared = 0
    self.samples = []
    self.outcomes = set()
    self.case = None

  def state(self, *key):
    """Registers a distinct state (configuration or input) by its key."""
    self.case = key
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    new = h not in self.states
    self.states.add(h)
    if new and len(self.samples) < 2:
      self.samples.append(repr(key)[:300])
    return new

  def states_bulk(self, prefix, n):
    """Registers n distinct states sharing a prefix (vectorised cases)."""
    self.case = (prefix, f'{n} vectorised cases')
    for i in range(n):
      self.states.add(
          hashlib.blake2b(f'{prefix!r}#{i}'.encode(), digest_size=8).digest()
      )
    if len(self.samples) < 2:
      self.samples.append(f'{prefix!r} x {n} cases'[:300])

  def call(self, n=1):
    self.calls += n

  def outcome(self, value):
    """Remembers a coarse observation, to report how many differ."""
    if len(self.outcomes) < 1000:
      self.outcomes.add(str(value))

  def fail(self, message, **details):
    text = message
    if details:
      text += ' | ' + ', '.join(f'{k}={_short(v)}' for k, v in details.items())
    raise Violation(text)

  def check(self, condition, message, **details):
    self.compared += 1
    if not condition:
      self.fail(message, **details)

  def close(self, actual, expected, message, tol=2e-5, **details):
    """max|actual-expected| <= tol*(1+max|expected|), same shape, no NaNs."""
    import numpy as np

    actual = np.asarray(actual)
    expected = np.asarray(expected)
    self.compared += max(1, actual.shape[0] if actual.ndim else 1)
    if actual.shape != expected.shape:
      self.fail(
          message + ' (shape)',
          actual=actual.shape,
          expected=expected.shape,
          **details,
      )
    if actual.size == 0:
      return
    a = actual.astype(np.float64)
    e = expected.astype(np.float64)
    if not np.all(np.isfinite(a)):
      i = np.unravel_index(np.argmin(np.isfinite(a)), a.shape)
      self.fail(
          message + ' (not finite)',
          index=tuple(map(int, i)),
          actual=a[i],
          expected=e[i],
          **details,
      )
    err = np.abs(a - e)
    bound = tol * (1 + np.max(np.abs(e)))
    if np.max(err) > bound:
      i = np.unravel_index(np.argmax(err), err.shape)
      self.fail(
          message,
          index=tuple(map(int, i)),
          actual=a[i],
          expected=e[i],
          err=err[i],
          bound=bound,
          **details,
      )

  def raises(self, fn, message, **details):
    """fn() must raise (any exception): invalid input must not be accepted."""
    self.compared += 1
    self.calls += 1
    try:
      fn()
    except Exception:  # pylint: disable=broad-exception-caught
      return
    self.fail(message, **details)


def _short(v):
  s = repr(v)
  return s if len(s) < 400 else s[:400] + '...'


# --------------------------------------------------------------------------
# Worker side.


def setup_e3x(scratch):
  """Imports e3x from REPO and points the slow tables at this run's scratch."""
  import logging

  os.environ.setdefault('JAX_PLATFORMS', 'cpu')
  logging.getLogger('absl').setLevel(logging.CRITICAL)
  from absl import logging as absl_logging

  absl_logging.set_verbosity(absl_logging.FATAL)
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  import e3x

  if os.path.realpath(os.path.dirname(os.path.dirname(e3x.__file__))) != (
      os.path.realpath(REPO)
  ):
    raise RuntimeError(f'imported e3x from {e3x.__file__}, expected {REPO}')
  if scratch is not None:
    e3x.Config.set_clebsch_gordan_cache(os.path.join(scratch, 'cg.npz'))
    e3x.Config.set_wigner_d_cache(os.path.join(scratch, 'wigner.npz'))
  return e3x


def _make_table(scratch, which, degree):
  e3x = setup_e3x(scratch)
  import jax.numpy as jnp

  if which == 'cg':
    e3x.so3.clebsch_gordan(degree, degree, degree)
  else:
    e3x.so3.wigner_d(jnp.eye(3), degree)


def _run_one(mod, job):
  rec = Recorder()
  violation = None
  t0 = time.time()
  try:
    mod.run_job(job, rec)
  except Violation as e:
    violation = dict(kind='violation', message=str(e))
  except Exception as e:  # pylint: disable=broad-exception-caught
    # An operation on a valid input raised (or returned something on which the
    # oracle cannot even be evaluated, e.g. a wrong shape).
    violation = dict(
        kind='exception',
        message=f'{type(e).__name__}: {e}'[:600],
        traceback=traceback.format_exc()[-4000:],
    )
  if violation is not None:
    violation['job'] = job
    violation['case'] = repr(rec.case)[:1000]
  return dict(
      states=rec.states,
      calls=rec.calls,
      compared=rec.compared,
      samples=rec.samples,
      outcomes=rec.outcomes,
      violation=violation,
      wall=time.time() - t0,
      job=job,
  )


def _worker(modname, scratch, needs_e3x, inq, outq):
  try:
    mod = importlib.import_module(modname)
    mod.SCRATCH = scratch
    if needs_e3x:
      setup_e3x(scratch)
  except Exception:  # pylint: disable=broad-exception-caught
    outq.put(('fatal', traceback.format_exc()))
    return
  outq.put(('ready', None))
  while True:
    job = inq.get()
    if job is None:
      return
    outq.put(('start', (os.getpid(), job)))
    outq.put(('done', _run_one(mod, job)))


# --------------------------------------------------------------------------
# Parent side.


def run_check(prop, tier, seed, only_job=None, verbose=False):
  t0 = time.time()
  modname = f'mc.checks.{prop.lower()}'
  mod = importlib.import_module(modname)
  os.makedirs(EVIDENCE, exist_ok=True)
  scratch = tempfile.mkdtemp(prefix=f'e3x-mc-{prop}-')
  ctx = mp.get_context('fork')
  try:
    violations = []
    deadline = t0 + (800 if tier == 'quick' else 4 * 3600)
    # Tables needed by all jobs, generated by the code under test.
    cg_degree, wigner_degree = getattr(mod, 'TABLES', {}).get(tier, (0, 0))
    if not getattr(mod, 'NEEDS_E3X', True):
      cg_degree = wigner_degree = 0
    procs = []
    for which, degree in (('cg', cg_degree), ('wigner', wigner_degree)):
      if degree > 0:
        p = ctx.Process(target=_make_table, args=(scratch, which, degree))
        p.start()
        procs.append((which, p))
    jobs = mod.plan(tier) if only_job is None else [only_job]
    random.Random(seed).shuffle(jobs)
    # Long jobs first, if the module knows.
    if hasattr(mod, 'weight'):
      jobs.sort(key=mod.weight, reverse=True)
    for which, p in procs:
      p.join(max(1, deadline - time.time()))
      if p.is_alive() or p.exitcode != 0:
        p.kill()
        violations.append(
            dict(
                kind='exception',
                message=f'generation of the {which} table failed',
                job=None,
                case=which,
            )
        )
    if verbose:
      print(f'# tables {time.time() - t0:.1f}s, {len(jobs)} jobs')
    states = set()
    calls = compared = done = 0
    samples = []
    outcomes = set()
    walls = []
    if not violations and jobs:
      inq, outq = ctx.Queue(), ctx.Queue()
      n = min(int(os.environ.get('MC_WORKERS', '8')), len(jobs))
      for j in jobs:
        inq.put(j)
      for _ in range(n):
        inq.put(None)
      workers = [
          ctx.Process(
              target=_worker,
              args=(modname, scratch, getattr(mod, 'NEEDS_E3X', True), inq, outq),
              daemon=not getattr(mod, 'SPAWNS', False),
          )
          for _ in range(n)
      ]
      for w in workers:
        w.start()
      running = {}
      import queue as queue_mod

      while done < len(jobs):
        try:
          kind, payload = outq.get(timeout=2)
        except queue_mod.Empty:
          dead = [w for w in workers if w.exitcode not in (None, 0)]
          for w in dead:
            if w.pid in running:
              violations.append(
                  dict(
                      kind='exception',
                      message=f'process died with exit code {w.exitcode}',
                      job=running[w.pid],
                      case='',
                  )
              )
          if dead or all(w.exitcode is not None for w in workers):
            break
          if time.time() > deadline:
            violations.append(
                dict(
                    kind='timeout',
                    message='operations did not terminate in time',
                    job=list(running.values())[:8],
                    case='',
                )
            )
            break
          continue
        if kind == 'fatal':
          violations.append(
              dict(kind='exception', message=payload[-1500:], job=None, case='')
          )
          break
        if kind == 'start':
          running[payload[0]] = payload[1]
        if kind == 'done':
          done += 1
          states |= payload['states']
          calls += payload['calls']
          compared += payload['compared']
          outcomes |= payload['outcomes']
          walls.append((payload['wall'], payload['job']))
          if len(samples) < 6:
            samples += payload['samples']
          if payload['violation'] is not None:
            violations.append(payload['violation'])
            if not verbose:
              break
      for w in workers:
        if w.is_alive():
          w.terminate()
      for w in workers:
        w.join(5)
    wall = time.time() - t0
    known = load_known(prop)
    fresh = []
    for v in violations:
      k = [f for f in known if f['match'] in (v['message'] + ' ' + v['case'])]
      if k:
        print(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
      else:
        fresh.append(v)
    extra = {}
    if hasattr(mod, 'coverage'):
      extra = mod.coverage(tier)
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=mod.LEVEL,
        coverage=dict(
            states=len(states),
            transitions=calls,
            traces_validated_against_impl=compared,
            evaluations=done,
            distinct_nontrivial=len(outcomes) if outcomes else len(states),
            rule=mod.RULE,
            samples=samples[:6] or ['none'],
            exhaustive=(done == len(jobs)),
            counting=(
                'states: distinct explored cases; transitions: operations of the'
                ' implementation executed; traces_validated_against_impl:'
                ' oracle comparisons; evaluations: jobs (partitions of the'
                ' space) completed; distinct_nontrivial: distinct observed'
                ' outcomes if recorded, else distinct cases'
            ),
            **extra,
        ),
        assumptions=mod.ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
      json.dump(evidence, f, indent=1)
    print(
        f'{prop} [{tier}] jobs={done}/{len(jobs)} states={len(states)}'
        f' transitions={calls} comparisons={compared}'
        f' outcomes={len(outcomes)} wall={wall:.1f}s'
    )
    if verbose:
      for w, j in sorted(walls, key=lambda t: -t[0])[:8]:
        print(f'#   {w:.1f}s {_short(j)}')
    if fresh:
      path = os.path.join(EVIDENCE, f'replay-{prop}.json')
      with open(path, 'w') as f:
        json.dump(
            dict(
                property=prop,
                violations=fresh,
                replay=(
                    'cd /verif && bash run.sh'
                    f' {prop} {tier} --job <this file> re-runs only the failing'
                    ' job'
                ),
            ),
            f,
            indent=1,
            default=str,
        )
      for v in fresh[:5]:
        print(f"# {v['message'][:700]}\n#   case {v['case'][:400]}")
      print(f'VIOLATION property={prop} replay={path}')
      return 1
    if done < len(jobs):
      print('# incomplete exploration')
      return 2
    return 0
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def load_known(prop):
  """Known findings: lines 'known: property=<id> match=<text> :: <what>'."""
  out = []
  path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith(f'known: property={prop} match='):
        match, what = line.split(' match=', 1)[1].split(' :: ', 1)
        out.append(dict(match=match, what=what))
  return out


def main(argv):
  prop = argv[0]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
    tier = argv[1]
  seed = int(os.environ.get('VERIF_SEED', '0') or 0)
  only = None
  if '--job' in argv:
    arg = argv[argv.index('--job') + 1]
    if os.path.exists(arg):
      only = json.load(open(arg))['violations'][0]['job']
    else:
      only = json.loads(arg)
  try:
    return run_check(prop, tier, seed, only, '-v' in argv)
  except Exception:  # pylint: disable=broad-exception-caught
    traceback.print_exc()
    return 2


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))

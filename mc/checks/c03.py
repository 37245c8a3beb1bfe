"""Concurrent processes sharing one cache file."""

import itertools

from mc import fsproc

PROPERTY = 'C03'
LEVEL = 'model_checking'
NEEDS_E3X = False
SPAWNS = True
RULE = (
    'two (thorough: also three) processes run the real table generation on one'
    ' cache path; their file-system calls are intercepted and interleaved in every'
    ' order with at most 2 (thorough 3; three processes 2) preemptions at'
    ' operations on files that more than one process accesses (the set is iterated'
    ' to a fixpoint; operations on private files commute with everything the other'
    ' process does), for each of the four tables, initial cache file {absent,'
    ' empty, degree 0, truncated} and every pair of requested degrees in {0, 1}'
    ' (and 2 where generation is cheap): every process returns the correct table'
    ' without an exception, the cache file is complete after every schedule, and a'
    ' later process gets correct tables; no schedule deadlocks or livelocks'
)
ASSUMPTIONS = [
    'correct table = the table returned without a configured cache (its values'
    ' are decided by C04, C05, C06, C07)',
    'single file-system calls are atomic (as on local POSIX file systems);'
    ' scheduling points are libc calls',
    'preemption bound as stated',
]


def plan(tier):
  jobs = []
  for t in fsproc.TABLES:
    inits = ('absent', 'd-1', 'd0', 'cut') if t in ('cg', 'wigner') else ('d-1', 'd0', 'd1')
    for init in inits:
      for degs in itertools.combinations_with_replacement((0, 1, 2), 2):
        have = int(init[1:]) if init[0] == 'd' else -1
        if max(degs) <= have:
          continue
        if 2 in degs and (tier == 'quick' or t == 'cg') and not (t == 'sh' and init == 'd1'):
          continue
        if tier == 'quick' and t == 'sh' and degs == (0, 2):
          continue
        if tier == 'quick' and init in ('cut', 'd-1') and t in ('cg', 'wigner') and degs != (0, 1):
          continue
        slow = t == 'cg' and 1 in degs
        bound = 2 if tier == 'quick' else 3
        parts = 4 if slow or 2 in degs else 2
        for part in range(parts):
          jobs.append(dict(t=t, init=init, degs=list(degs), bound=bound, part=part, parts=parts))
      if tier == 'thorough' and t != 'cg':
        for part in range(8):
          jobs.append(dict(t=t, init=init, degs=[0, 1, 1] if init != 'd1' else [2, 1, 2], bound=2, part=part, parts=8))
  return jobs


def weight(job):
  return (len(job['degs']), 2 in job['degs'], job['t'] == 'cg', sum(job['degs']))


def run_job(job, rec):
  fsproc.spawn(job, rec, __name__)


WRITES = {'opentrunc', 'openexcl', 'openw', 'write', 'writev', 'rename', 'link', 'unlink', 'truncate', 'mkdir', 'rmdir'}


class Scheduler:
  """Depth-first exploration of all schedules within the preemption bound."""

  def __init__(self, w, rec, job, fns, snap0):
    self.w, self.rec, self.job, self.fns, self.snap0 = w, rec, job, fns, snap0
    self.shared = set()
    self.every = False  # a directory listing makes all operations visible

  def visible(self, ev):
    return self.every or ev[1] in ('lock', 'unlock', 'sleep') or bool(
        {ev[2], ev[3]} & self.shared)

  def execute(self, prefix):
    """Runs one schedule: follows `prefix`, then never preempts.

    Returns the list of decisions [(options, chosen, preemptive_flags)].
    """
    w, rec = self.w, self.rec
    w.restore(self.snap0)
    procs = [w.proc(f) for f in self.fns]
    touched = [dict() for _ in procs]
    decisions = []
    trace = []
    try:
      for p in procs:
        p.next()
      current = None
      waiting = set()
      idle = 0
      while True:
        live = [i for i, p in enumerate(procs) if p.event[0] == 'op']
        if not live:
          break
        ready = [i for i in live if i not in waiting]
        if not ready:
          waiting.clear()
          idle += 1
          if idle > 200:
            rec.fail('schedule without progress (deadlock or livelock)', trace=trace[-30:])
          ready = live
        ev = procs[current].event if current in ready else None
        if ev is not None and not self.visible(ev):
          choice = current
        else:
          # Options: stay with the current process first, then the others.
          options = ([current] if ev is not None else []) + [i for i in ready if i != current]
          if len(options) > 1:
            n = len(decisions)
            choice = prefix[n] if n < len(prefix) else options[0]
            if choice not in options:
              rec.fail('the schedule is not reproducible', prefix=prefix, options=options)
            decisions.append((options, choice, ev is not None))
          else:
            choice = options[0]
        ev = procs[choice].event
        kind = ev[1]
        if kind == 'opendir':
          if not self.every:
            self.every = True
            return None
        for x in ev[2:4]:
          if x:
            touched[choice][x] = touched[choice].get(x, False) or kind in WRITES
        trace.append((choice, kind, ev[2].rsplit('/', 1)[-1][-24:]))
        rec.call()
        procs[choice].next('g')
        current = choice
        if kind in ('lockwait', 'sleep') and procs[choice].event[0] == 'op':
          waiting.add(choice)
        else:
          waiting.discard(choice)
          if kind not in ('lockwait', 'sleep'):
            idle = 0
            waiting.clear()
      results = [p.event for p in procs]
    finally:
      for p in procs:
        p.kill()
    # Files several processes access, at least one of them writing.
    new = set()
    for x in set().union(*touched):
      who = [i for i, d in enumerate(touched) if x in d]
      if len(who) > 1 and any(touched[i][x] for i in who):
        new.add(x)
    if not new <= self.shared:
      self.shared |= new
      return None
    return decisions, results, trace

  def explore(self, part, parts):
    done = False
    while not done:
      done = True
      stack = [[]]
      count = 0
      seen_files = set()
      while stack:
        prefix = stack.pop()
        out = self.execute(prefix)
        if out is None:  # more shared files: start over
          done = False
          break
        decisions, results, trace = out
        self.judge(results, trace, seen_files)
        count += 1
        self.rec.state(self.job['t'], self.job['init'], self.job['degs'], tuple(d[1] for d in decisions))
        used = 0
        for n, (options, choice, preemptive) in enumerate(decisions):
          if n >= len(prefix):
            for alt in options:
              if alt == choice:
                continue
              cost = used + (1 if preemptive else 0)
              if cost > self.job['bound']:
                continue
              # Partition the space over the jobs by the first preemption.
              if preemptive and used == 0 and n % parts != part:
                continue
              stack.append([d[1] for d in decisions[:n]] + [alt])
          if preemptive and choice != options[0]:
            used += 1
    return count

  def judge(self, results, trace, seen_files):
    rec, w, t = self.rec, self.w, self.job['t']
    for d, ev in zip(self.job['degs'], results):
      rec.check(ev == ('done', None), f'concurrent request of degree {d}', event=ev, schedule=compact(trace))
    snap = w.snapshot()
    rec.check(sorted(snap) == ['c.npz'], 'files left by concurrent requests', files=sorted(snap), schedule=compact(trace))
    cur = fsproc.parse(snap.get('c.npz'))
    rec.check(cur is not None, 'incomplete cache file after concurrent requests', schedule=compact(trace))
    rec.outcome((t, self.job['init'], tuple(self.job['degs']), int(cur.get('max_degree', -9))))
    if snap['c.npz'] in seen_files:
      return
    seen_files.add(snap['c.npz'])
    for d in range(max(self.job['degs']) + 1):
      w.restore(snap)
      r = w.in_child(w.request(t, w.root + '/c.npz', d))
      rec.call()
      rec.check(r is None, f'request of degree {d} after concurrent requests', problem=r, schedule=compact(trace))


def compact(trace):
  out = []
  for i, kind, name in trace:
    if out and out[-1][0] == i:
      out[-1][1].append(kind)
    else:
      out.append([i, [kind]])
  return [(i, len(k), k[0], k[-1]) for i, k in out]


def drive(job, rec, w):
  from mc.checks.c01 import initial

  t = job['t']
  path = w.root + '/c.npz'
  fns = [w.request(t, path, d) for d in job['degs']]
  n = Scheduler(w, rec, job, fns, initial(w, t, job['init'])).explore(job['part'], job['parts'])
  rec.outcome(f'{n} schedules')

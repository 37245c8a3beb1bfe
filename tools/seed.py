"""Generates and tries the planted bugs of /verif/seeded.

  seed.py make ID...        write patch.diff, demo.sh, demo.py and meta.json
  seed.py try ID...         demo on the unchanged and changed tree, nearby tests
  seed.py demo ID...        demo only
  seed.py check ID...       run the check of the property on the changed tree

Bugs are defined in tools/bugs.py. Works in a scratch copy of /repo in /tmp.
"""

import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bugs

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def copy():
  d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
  subprocess.check_call(['cp', '-a', '/repo', d + '/r'])
  return d, d + '/r'


def apply(b, repo):
  for f, old, new in b['edits']:
    p = f'{repo}/{f}'
    s = open(p).read()
    assert s.count(old) == 1, (b['id'], f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))


def make(b):
  d, repo = copy()
  try:
    apply(b, repo)
    diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
  finally:
    shutil.rmtree(d)
  out = f'{ROOT}/seeded/{b["id"]}'
  os.makedirs(out, exist_ok=True)
  open(out + '/patch.diff', 'w').write(diff)
  open(out + '/demo.py', 'w').write(b['demo'].lstrip())
  open(out + '/demo.sh', 'w').write(DEMO_SH)
  json.dump({'property': b['property'], 'needs': b['needs'],
             'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)


def demo(b, repo):
  tmp = tempfile.mkdtemp(prefix='seeddemo_', dir='/tmp')
  try:
    shutil.copytree(f'{ROOT}/seeded/{b["id"]}', tmp + '/x')
    r = subprocess.run(['bash', tmp + '/x/demo.sh'], cwd=repo, capture_output=True, text=True, timeout=300)
  finally:
    shutil.rmtree(tmp)
  return r.returncode, (r.stdout + r.stderr).strip().split('\n')[-1][:150]


def main():
  mode, ids = sys.argv[1], sys.argv[2:]
  for b in bugs.BUGS:
    if ids and not any(b['id'].startswith(i) for i in ids):
      continue
    if mode == 'make':
      make(b)
      continue
    d, repo = copy()
    try:
      if mode in ('try', 'demo'):
        print(b['id'], 'unchanged', demo(b, repo), flush=True)
      subprocess.check_call(['git', '-C', repo, 'apply', f'{ROOT}/seeded/{b["id"]}/patch.diff'])
      if mode in ('try', 'demo'):
        print(b['id'], 'changed  ', demo(b, repo), flush=True)
      if mode == 'demo':
        continue
      if mode == 'try':
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu',
                   XLA_FLAGS='--xla_cpu_multi_thread_eigen=false', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '8',
                            '--dist', 'worksteal', '--ignore=tests/matrix/matmat_test.py', *b['tests']],
                           cwd=repo, env=env, capture_output=True, text=True)
        print(b['id'], 'tests    ', r.returncode, r.stdout.strip().split('\n')[-1], flush=True)
        if r.returncode:
          print('\n'.join(l for l in r.stdout.split('\n') if l.startswith('FAILED'))[:600])
      else:
        for prop in [b['property']] + b.get('also', []):
          r = subprocess.run(['bash', f'{ROOT}/run.sh', prop], env=dict(os.environ, E3X_REPO=repo),
                             capture_output=True, text=True)
          lines = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
          print(b['id'], prop, 'exit', r.returncode, lines[:1], r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)
    finally:
      shutil.rmtree(d)


main()

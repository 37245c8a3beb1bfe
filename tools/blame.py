"""Reports for each planted bug whether the lines it removes are original."""
import os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'b62b74e'
base = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', BASE], text=True).strip()
for b in sorted(os.listdir(ROOT + '/seeded')):
  f, bad, n = None, [], 0
  for line in open(f'{ROOT}/seeded/{b}/patch.diff'):
    if line.startswith('--- a/'): f = line[6:].strip()
    elif line.startswith('@@'): n = int(re.match(r'@@ -(\d+)', line)[1])
    elif line.startswith('-') and not line.startswith('---'):
      h = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-L', f'{n},{n}', 'HEAD', '--', f], text=True).split()[0]
      if h.lstrip('^')[:39] != base[:39]: bad.append((f, n))
      n += 1
    elif line.startswith(' '): n += 1
  print(b, 'added lines: %s' % bad if bad else 'ok')

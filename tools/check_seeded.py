"""Lists planted bugs that no longer count: those whose patch does not apply to
/repo's HEAD, or changes no line of the original repository (first commit)."""
import glob, os, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
git = lambda *a, **k: subprocess.run(('git', '-C', '/repo') + a, capture_output=True, text=True, **k)
base = git('rev-list', '--max-parents=0', 'HEAD').stdout.split()[0]
for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'patch.diff'))):
  name = p.split('/')[-2]
  if git('apply', '--check', p).returncode:
    print(name, 'does not apply')
    continue
  own, total, f = 0, 0, None
  for l in open(p).read().splitlines():
    if l.startswith('--- a/'):
      f = git('show', f'{base}:{l[6:]}').stdout.splitlines()
    elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
      total += 1
      own += l[1:] not in f
  if total and own == total:
    print(name, 'changes only lines of our own commits')

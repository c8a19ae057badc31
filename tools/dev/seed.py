#!/usr/bin/env python3
"""seed.py NAME: takes /verif/seeded/NAME/{demo.cpp,demo.sh,meta.json} and edits in /tmp/seeds/NAME.edit (json list [file, old, new]); makes the patch and validates."""
import sys, json, subprocess, os, shutil
name = sys.argv[1]
d = f'/verif/seeded/{name}'
edits = json.load(open(f'/tmp/seeds/{name}.json'))
W = f'/tmp/seedrepo_{name}'
subprocess.run(['rm', '-rf', W]); subprocess.run(['cp', '-a', '/repo', W], check=True)
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
for f, old, new in edits['edits']:
    p = f'{W}/{f}'; s = open(p).read()
    n = edits.get('occ', 1)
    assert s.count(old) >= 1, (f, old, s.count(old))
    if s.count(old) > 1:
        k = edits['nth']; parts = s.split(old); s = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
    else: s = s.replace(old, new)
    open(p, 'w').write(s)
diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
open(f'{d}/patch.diff', 'w').write(diff)
def ns(cmd): return subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {W} /repo && cd /repo && {cmd}'], capture_output=True, text=True)
shutil.rmtree(f'/tmp/demo_{name}', ignore_errors=True)
shutil.copytree(d, f'/tmp/demo_{name}')
r0 = subprocess.run(['bash', f'/tmp/demo_{name}/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = ns('bash /opt/vp/test.sh /tmp/o_%s.json' % name)
res = json.load(open(f'/tmp/o_{name}.json'))
base = json.load(open('/opt/vp/BASELINE.json'))
r1 = ns(f'bash /tmp/demo_{name}/demo.sh')
bl = base.get('stable') or base.get('passed') or base
missing = [t for t in (bl if isinstance(bl, list) else list(bl)) if t not in res['passed']]
print(name, 'clean demo', r0.returncode, 'patched demo', r1.returncode, 'passed', len(res['passed']), 'missing', missing[:4])
if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
if not r1.returncode: print(r1.stdout[-800:], r1.stderr[-800:])
if not res['passed']: print(b.stdout[-1500:], b.stderr[-500:])
subprocess.run(['rm', '-rf', W, f'/tmp/demo_{name}'])

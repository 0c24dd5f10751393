#!/usr/bin/env python3
"""seed.py DIR CHECKS : DIR holds edits.txt (mut.py syntax, first line of each part FILE:path), demo.py, meta.json.
Confirms in /repo (undone afterwards): builds, stable tests pass, demo 0 / nonzero; writes patch.diff, demo.sh, kit; runs the checks."""
import sys, os, subprocess, json, shutil
d = os.path.abspath(sys.argv[1]); checks = sys.argv[2].split(',') if len(sys.argv) > 2 else []
fast = '--fast' in sys.argv
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
for f in ('kit.py', 'stubs.py'):
    shutil.copy('/verif/dev/' + f, d)
with open(d + '/demo.sh', 'w') as f:
    f.write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec timeout 200 bash /opt/vp/jy.sh "$D/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
try:
    r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo unchanged', r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else '')
    ok = r.returncode == 0
    if os.path.exists(d + '/edits.txt'):
        for part in open(d + '/edits.txt').read().split('@@@@\n'):
            h, part = part.split('\n', 1); fn = '/repo/' + h[5:].strip()
            old, new = part.split('====\n')
            old, new = old.rstrip('\n'), new.rstrip('\n')
            s = open(fn).read()
            assert s.count(old) == 1, ('MATCHES', s.count(old), old[:90])
            open(fn, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    else:
        print(sh('git -C /repo apply %s/patch.diff' % d).stderr)
    r = sh('bash %s/demo.sh' % d, cwd='/repo'); print('demo patched', r.returncode, (r.stdout + r.stderr)[-500:].strip())
    ok = ok and r.returncode != 0
    for c in checks:
        if c.startswith('--'): continue
        r = sh('python3 /verif/check.py ' + c, cwd='/verif')
        l = [x for x in r.stdout.splitlines() if 'VIOLATION' in x or 'broken by' in x or 'BROKEN' in x]
        print(c, 'exit', r.returncode, l[:3])
    if not fast:
        b = sh('bash /opt/vp/build.sh'); print('build', b.returncode, b.stdout[-300:] if b.returncode else '')
        sh('bash /opt/vp/test.sh /tmp/seed.json')
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open('/tmp/seed.json'))['passed'])
        print('stable missing', miss)
        ok = ok and b.returncode == 0 and not miss
finally:
    print(sh('git -C /repo checkout -- .').stderr, end='')
print('SEED', 'OK' if ok else 'BAD', d)
if ok and not fast and os.path.exists(d + '/edits.txt'): os.remove(d + '/edits.txt')

#!/usr/bin/env python3
"""Development helper: validates planted bugs and runs checks against them (never used by a check).
usage: seed.py new ID        record /repo's working-tree diff as seeded/ID/patch.diff, then validate it
       seed.py val ID...     validate: applies, builds, passes the tests, demo fails with it and passes without
       seed.py chk ID [Cnn]  apply, run the check of its property (or Cnn), undo"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def clean():
    assert sh('git -C %s checkout -- .' % R).returncode == 0


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0


def tests():
    sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    d = json.load(open('/tmp/seedtest.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base if isinstance(base, list) else base.get('passed') or base.get('stable') or base
    return [n for n in names if n not in d['passed']]


def demo(i):
    r = sh('timeout 300 bash %s/seeded/%s/demo.sh' % (V, i), cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def val(i):
    d = '%s/seeded/%s' % (V, i)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo dirty'
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    if a.returncode:
        print(i, 'patch does not apply', a.stderr)
        return
    try:
        if not build():
            print(i, 'BUILD FAILS')
            return
        bad = tests()
        rc, out = demo(i)
    finally:
        clean()
    build()
    rc0, out0 = demo(i)
    print(i, 'tests failing: %d %s' % (len(bad), bad[:4]), 'demo with: %d, without: %d' % (rc, rc0),
          'GOOD' if not bad and rc and not rc0 else 'BAD')
    if rc == 0:
        print('with:', out)
    if rc0:
        print('without:', out0)


def chk(i, props=None):
    d = '%s/seeded/%s' % (V, i)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo dirty'
    assert sh('git -C %s apply %s/patch.diff' % (R, d)).returncode == 0, i
    try:
        for p in props or [json.load(open(d + '/meta.json'))['property']]:
            t = time.time()
            r = sh('python3 check.py --property %s' % p, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, p, 'rc=%d %s %.0fs' % (r.returncode, 'CAUGHT' if v and r.returncode == 1 else 'MISSED', time.time() - t))
            print('    ' + (r.stdout + r.stderr).strip()[:500].replace('\n', '\n    '))
    finally:
        clean()


c, a = sys.argv[1], sys.argv[2:]
if c == 'new':
    d = '%s/seeded/%s' % (V, a[0])
    os.makedirs(d, exist_ok=True)
    s = sh('git -C %s diff' % R).stdout
    if s.strip():
        open(d + '/patch.diff', 'w').write(s)
        clean()
    val(a[0])
elif c == 'val':
    for i in a:
        val(i)
elif c == 'chk':
    chk(a[0], a[1:])
elif c == 'chkall':
    for i in sorted(os.listdir(V + '/seeded')):
        chk(i)

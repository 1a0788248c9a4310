#!/usr/bin/env python3
"""tools/plant.py ID [PROP...]: confirm a planted bug. If /repo is modified, its diff becomes seeded/ID/patch.diff.
Builds, runs the tests, runs the demo on both trees and the named checks (default: the property of meta.json)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
diff = sh('git -C /repo diff').stdout
if diff:
    open(d + '/patch.diff', 'w').write(diff)
    sh('git -C /repo checkout -- .')
meta = json.load(open(d + '/meta.json'))
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok = True
def demo():
    sh('rm -rf /tmp/demo_%s; cp -r %s /tmp/demo_%s' % (sid, d, sid))
    r = sh('bash /tmp/demo_%s/demo.sh' % sid, cwd='/repo', timeout=300)
    sh('rm -rf /tmp/demo_%s' % sid)
    return r
assert sh('bash /opt/vp/build.sh').returncode == 0
r = demo()
print('demo clean', r.returncode, (r.stdout + r.stderr)[-200:] if r.returncode else '')
ok &= r.returncode == 0
a = sh('git -C /repo apply %s/patch.diff' % d)
assert a.returncode == 0, a.stderr
try:
    t = sh('bash /opt/vp/test.sh /tmp/plant.json')
    res = json.load(open('/tmp/plant.json'))
    lost = base - set(res['passed'])
    print('tests lost', len(lost), sorted(lost)[:3])
    ok &= not lost
    r = demo()
    print('demo patched', r.returncode, (r.stdout + r.stderr)[-200:])
    ok &= r.returncode != 0
    for p in sys.argv[2:] or [meta['property']]:
        r = sh('python3 check.py ' + p, cwd=V)
        print(p, 'rc', r.returncode, '\n'.join(x[:250] for x in r.stdout.splitlines()[:2] + r.stdout.splitlines()[-1:]), r.stderr[-300:])
finally:
    sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
print('PLANT', sid, 'OK' if ok else 'BAD')

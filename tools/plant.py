"""Validate one planted bug: plant.py SPECFILE   (spec: python, defines id, prop, file, edits=[(old,new)], needs, breaks, demo)
Applies the edits in a scratch copy bound over /repo in a private namespace, builds, runs the stable tests and the demo."""
import sys, os, subprocess, json, shutil, fcntl
spec = {}; exec(open(sys.argv[1]).read(), spec)
H = '/verif/seeded/' + spec['id']; S = '/tmp/plant-scratch'
DEMO = '''#!/bin/bash
d=$(dirname "$(readlink -f "$0")")
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 -I/repo/include "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
'''
os.makedirs(H, exist_ok=True)
open(H + '/demo.cpp', 'w').write(spec['demo']); open(H + '/demo.sh', 'w').write(DEMO); os.chmod(H + '/demo.sh', 0o755)
json.dump(dict(property=spec['prop'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(H + '/meta.json', 'w'), indent=1)
lk = open('/tmp/plant.lock', 'w'); fcntl.flock(lk, fcntl.LOCK_EX)
if not os.path.isdir(S): subprocess.run(['cp', '-a', '/repo', S], check=True)
subprocess.run('git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD' % (S, S), shell=True, check=True)
def ns(cmd, **k): return subprocess.run(['unshare', '-Ur', '-m', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (S, cmd)], capture_output=True, text=True, **k)
r = ns('bash %s/demo.sh' % H); base = r.returncode
files = spec.get('files') or {spec['file']: spec['edits']}
for f, eds in files.items():
    t = open(S + '/' + f).read()
    for o, n in eds:
        assert t.count(o) == 1, ('not unique', t.count(o), o)
        t = t.replace(o, n)
    open(S + '/' + f, 'w').write(t)
d = subprocess.run(['git', '-C', S, 'diff'], capture_output=True, text=True).stdout
open(H + '/patch.diff', 'w').write(d)
r2 = ns('bash %s/demo.sh' % H)
print(spec['id'], 'demo base rc', base, '| with patch rc', r2.returncode, (r2.stdout + r2.stderr)[-200:])
if base == 0 and r2.returncode not in (0, 2) and '--notest' not in sys.argv:
    r3 = ns('bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1; bash /opt/vp/test.sh /tmp/plant-out.json >/tmp/plant-test.log 2>&1')
    o = json.load(open('/tmp/plant-out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    st = b.get('stable') or b.get('passed') or b.get('tests')
    miss = [t for t in st if t not in set(o['passed'])]
    print(spec['id'], 'stable tests missing:', len(miss), miss[:6])
    if miss: print('REJECTED')
else: print('demo only' if base == 0 and r2.returncode not in (0, 2) else 'REJECTED')
subprocess.run(['git', '-C', S, 'checkout', '-q', '--', '.'])

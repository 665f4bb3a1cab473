"""Development tool: makes and validates a planted bug in a scratch copy.
usage: seed.py SPECFILE   (python file defining ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS)"""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedrepo'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this case
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
clang++-18 -std=c++20 -O1 -w -Iinclude -I3rdparty -Iprec -I/opt/vp/include -include PrecompiledCore.hpp "$d/demo.cpp" bin/libcore.a -o "$t/demo" -pthread -ldl -lz || { echo "demo does not build"; rm -rf "$t"; exit 2; }
( cd "$t" && timeout 120 ./demo ); r=$?
rm -rf "$t"
exit $r
'''


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def fresh():
    if not os.path.exists(W): sh('cp -a /repo ' + W)
    sh('rsync -a --delete --exclude bin --exclude build --exclude .git /repo/ %s/ || cp -a /repo/src /repo/include %s/' % (W, W))
    os.makedirs('/tmp/seedvp', exist_ok=True)
    for f in ('build.sh', 'test.sh', 'common.sh', 'run_tests.py', 'results.py', 'stale.py', 'shim.cpp'):
        s = open('/opt/vp/' + f).read().replace('/repo', W).replace('/opt/vp/common', '/tmp/seedvp/common').replace('/opt/vp/run_tests', '/tmp/seedvp/run_tests').replace('/opt/vp/results', '/tmp/seedvp/results').replace('/opt/vp/stale', '/tmp/seedvp/stale')
        open('/tmp/seedvp/' + f, 'w').write(s)


def build():
    r = sh('bash /tmp/seedvp/build.sh')
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]


def demo(d):
    r = sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-800:]


def main(f):
    s = runpy.run_path(f)
    d = os.path.join(V, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    sh('cp -a /repo/src /repo/include %s/' % W) if os.path.exists(W) else None
    fresh()
    sh('cp -a /repo/src /repo/include %s/' % W)
    open(d + '/demo.cpp', 'w').write(s['DEMO'])
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    ok, o = build()
    assert ok, o
    rc, o = demo(d)
    print('demo unchanged:', rc, o.strip()[:300])
    bad = rc != 0
    for fn, old, new in s['EDITS']:
        p = W + '/' + fn
        t = open(p, encoding='utf-8', errors='surrogateescape').read()
        assert t.count(old) == 1, ('not unique', fn, t.count(old), old)
        open(p, 'w', encoding='utf-8', errors='surrogateescape').write(t.replace(old, new))
    diff = ''
    for fn in sorted(set(e[0] for e in s['EDITS'])):
        x = sh('diff -u /repo/%s %s/%s' % (fn, W, fn)).stdout.split('\n')
        x[0], x[1] = '--- a/' + fn, '+++ b/' + fn
        diff += '\n'.join(x)
    open(d + '/patch.diff', 'w').write(diff)
    r = sh('git -C /repo apply --check %s/patch.diff' % d)
    if r.returncode: print('patch does not apply', r.stderr); bad = True
    ok, o = build()
    if not ok: print('patched tree does not build', o); bad = True
    else:
        rc, o = demo(d)
        print('demo patched:', rc, o.strip()[:400])
        if rc == 0: bad = True
        sh('bash /tmp/seedvp/test.sh /tmp/seedt.json')
        res = json.load(open('/tmp/seedt.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        st = base['stable']; st = st if isinstance(st, list) else list(st)
        failed = [t for t in st if t not in res.get('passed', res.get('pass', []))]
        print('stable tests failing:', failed[:5])
        if failed: bad = True
    if bad: print('REJECTED', s['ID'])
    else: print('KEPT', s['ID'])
    if '--check' in sys.argv and not bad:
        r = sh('VP_REPO=%s %s/check %s' % (W, V, s['PROP']))
        print(r.stdout[-1500:]); print('check exit', r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED')
    sh('cp -a /repo/src /repo/include %s/' % W)


main(sys.argv[1])

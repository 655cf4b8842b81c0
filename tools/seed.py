#!/usr/bin/env python3
"""seed.py ID : makes and verifies /verif/seeded/ID from /verif/seeded/ID/{demo_test.go,meta.json} and EDITS.
usage: seed.py new ID PROP PKG FILE OLD NEW NEEDS BREAKS [RUNDIR]   (demo test read from stdin)
       seed.py check ID        run the property's check with the patch applied to /repo (undone afterwards)
       seed.py demo ID         demo without and with the patch"""
import sys, os, json, subprocess, shutil
S = '/verif/seeded/'
BASE = '2eb767c'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo dirty'
def tests():
    sh('bash /opt/vp/test.sh /tmp/seed.json')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open('/tmp/seed.json'))
    return b - set(o['passed'])
def demo(id): 
    t = '/tmp/seeddemo'; shutil.rmtree(t, ignore_errors=True); shutil.copytree(S+id, t)
    for f in ('patch.diff','meta.json'):
        if os.path.exists(t+'/'+f): os.remove(t+'/'+f)
    r = sh(f'cd /repo && timeout 300 bash {t}/demo.sh'); shutil.rmtree(t); return r
def verify(id):
    clean()
    r = demo(id); assert r.returncode == 0, 'demo fails on clean tree\n' + r.stdout[-3000:] + r.stderr[-2000:]
    r = sh(f'git -C /repo apply {S}{id}/patch.diff'); assert r.returncode == 0, r.stderr
    try:
        r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stderr
        m = tests(); assert not m, f'stable tests broken {m}'
        r = demo(id); assert r.returncode != 0, 'demo passes with patch'
        print('\n'.join(x for x in r.stdout.split('\n') if 'demo_test' in x)[:300])
    finally:
        sh('git -C /repo checkout -- .')
def check(id, tier='quick'):
    p = json.load(open(S+id+'/meta.json'))['property']
    c = f'/tmp/seedrepo-{id}'; shutil.rmtree(c, ignore_errors=True)
    sh(f'cp -a /repo {c} && git -C {c} checkout -q -- . && git -C {c} apply {S}{id}/patch.diff')
    try: r = sh(f'cd /verif && VERIF_REPO={c} GOSYM_OUT=/tmp/seedout VERIF_TIER={tier} ./check.sh {p}')
    finally: shutil.rmtree(c)
    print(id, p, 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED rc=%d' % r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l][:2])
cmd = sys.argv[1]
if cmd == 'new':
    id, prop, pkg, f, old, new, needs, breaks = sys.argv[2:10]
    clean()
    d = S+id; os.makedirs(d, exist_ok=True)
    open(d+'/demo_test.go','w').write(sys.stdin.read())
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the guarantee holds
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo '{{"Replace":{{"'"$PWD"'/{pkg}/zz_demo_test.go":"'"$d"'/demo_test.go"}}}}' > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo$' ./{pkg}
''')
    s = open('/repo/'+f).read(); assert s.count(old) == 1, f'old occurs {s.count(old)} times'
    b = sh(f'git -C /repo show {BASE}:{f}').stdout
    if old not in b: print('WARNING: old text not in base revision as such')
    open('/repo/'+f,'w').write(s.replace(old,new))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    verify(id); check(id)
elif cmd == 'check':
    for id in sys.argv[2:] or sorted(os.listdir(S)): check(id)
elif cmd == 'verify':
    for id in sys.argv[2:] or sorted(os.listdir(S)): verify(id); print(id,'ok')

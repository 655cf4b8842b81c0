#!/usr/bin/env python3
"""mut.py FILE : runs checks against mutations in scratch copies of /repo.
FILE: blocks separated by a line '====': first line 'ID PROP[,PROP] path', then OLD, a line '----', NEW."""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = '. /verif/tools/env.sh; '
def run(b):
    lines = b.strip('\n').split('\n'); id, props, path = lines[0].split()
    k = lines.index('----'); old = '\n'.join(lines[1:k]); new = '\n'.join(lines[k+1:])
    c = f'/tmp/mut/{id}'; shutil.rmtree(c, ignore_errors=True); sh(f'cp -a /repo {c}')
    try:
        f = c+'/'+path; s = open(f).read()
        if s.count(old) != 1: return f'{id} BAD old occurs {s.count(old)}'
        open(f,'w').write(s.replace(old,new))
        r = sh(env+f'cd {c} && go build ./... && go test -json -vet=off -count=1 -timeout 5m ./...')
        failed=[]
        for l in r.stdout.split('\n'):
            try: d=json.loads(l)
            except Exception: continue
            if d.get('Action')=='fail' and d.get('Test'): failed.append(d['Test'])
        if r.returncode and not failed: return f'{id} DOES NOT BUILD {r.stderr[-400:]}'
        t = 'tests-fail:'+','.join(failed[:3]) if failed else 'tests-pass'
        out=[]
        for p in props.split(','):
            r = sh(f'cd /verif && VERIF_REPO={c} GOSYM_OUT=/tmp/mut/out-{id} VERIF_TIER=quick timeout 900 ./check.sh {p}')
            v=[l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'KNOWN' in l]
            out.append(f'{p} '+('CAUGHT' if r.returncode==1 and v else f'MISSED rc={r.returncode} '+r.stdout.strip().split('\n')[-1][-200:]))
        return f'{id} {t} '+'; '.join(out)
    finally: shutil.rmtree(c, ignore_errors=True)
bs=[b for b in open(sys.argv[1]).read().split('\n====\n') if b.strip()]
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for r in ex.map(run, bs): print(r, flush=True)

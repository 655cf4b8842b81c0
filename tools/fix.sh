#!/bin/bash
# fix.sh MSG PROPERTY WHAT : run the stable tests, commit /repo's change as "fix: MSG", record it.
set -e
bash /opt/vp/build.sh
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1 || true
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/o.json'))
m=b-set(o['passed'])
if m: print("BROKEN",m); sys.exit(1)
P
cd /repo
git commit -qam "fix: $1"
echo "fixed: property=$2 $(git rev-parse --short HEAD) $3" >> /verif/known-findings.txt
git log --oneline | head -1

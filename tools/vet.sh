#!/bin/bash
# vet.sh : every harness file must compile against the current tree (checks drop those that do not).
cd "$(dirname "$0")/.."
. tools/env.sh
r=0
for c in $(bin/gosym list | grep -o 'C[0-9][0-9]' | sort -u); do
  if GOSYM_OUT=/tmp/vet bin/gosym check $c -only VfNothing -strict 2>&1 | grep dropped; then r=1; fi
done
exit $r

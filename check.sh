#!/bin/bash
# check.sh PROPERTY [gosym flags]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. tools/env.sh
mkdir -p bin evidence
(cd engine && go build -o ../bin/gosym ./cmd/gosym) || exit 2
P="$1"; shift
exec bin/gosym check "$P" -tier "${VERIF_TIER:-quick}" "$@"

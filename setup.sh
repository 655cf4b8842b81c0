#!/bin/bash
# Builds the engine and warms the Go build cache for native replay.
set -e
cd "$(dirname "$0")"
. tools/env.sh
mkdir -p bin evidence
(cd engine && go build -o ../bin/gosym ./cmd/gosym)
bin/gosym list >/dev/null
(cd /repo && go build ./... ) || true
echo "setup done"

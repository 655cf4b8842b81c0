export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=0
export HOME="${HOME:-/root}"

#!/bin/bash
# Compiles every check program once, so that the checks start from a warm build cache.
cd "$(dirname "$0")" || exit 1
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=readonly CGO_ENABLED=0
unset GODEBUG
cd harness && go build -o /dev/null ./... && CGO_ENABLED=1 go build -race -o /dev/null ./cmd/net && echo "setup done"

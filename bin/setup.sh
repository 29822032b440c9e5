#!/bin/bash
# Checks that the tools are there and warms the Go build cache. Every check
# builds what it needs itself, so nothing depends on this having run.
cd "$(dirname "$0")/../harness" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=$PWD/go.work
for t in go java python3 strace; do command -v $t > /dev/null || { echo "missing: $t"; exit 1; }; done
go build -o /dev/null ./... || exit 1
go test -c -vet=off -tags verif -o /dev/null ./drv || exit 1
go test -c -vet=off -o /dev/null ./drv || exit 1

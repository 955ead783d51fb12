#!/bin/bash
# Builds the symbolic execution engine (vendored dependencies, no network).
cd "$(dirname "$0")/symgo" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on
export HOME=${HOME:-/root}
mkdir -p ../bin
exec go build -o ../bin/symgo .

#!/bin/bash
# Builds the analyzer, offline.
cd "$(dirname "$0")/analyzer" || exit 1
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
unset GOOS GOARCH
mkdir -p bin ../evidence && go build -o bin/modesan .

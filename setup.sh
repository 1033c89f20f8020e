#!/bin/bash
# Build the harness once, plain and with the race detector: shows that the
# toolchain works and warms the build cache.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd "$here/harness"
go build -o /dev/null .
go build -race -o /dev/null .
mkdir -p "$here/evidence" "$here/out/replay"

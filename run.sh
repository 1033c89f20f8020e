#!/bin/bash
# run.sh ID             build the harness against /repo's working tree and check property ID
# run.sh replay FILE    run a recorded violation again
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
unset GORACE GODEBUG GOEXPERIMENT 2>/dev/null || true
export VH_VERIF="$here" VH_REPO=/repo
bin="$(mktemp -d "${TMPDIR:-/tmp}/vh-bin-XXXXXX")" || exit 2
trap 'rm -rf "$bin"' EXIT
build() { # build OUT FLAGS...
  local out="$1"; shift
  (cd "$here/harness" && go build "$@" -o "$out" .) || { echo "the harness does not build against /repo" >&2; exit 2; }
}
build "$bin/vh"
if [ "${1:-}" = C03 ]; then
  build "$bin/vh-race" -race
  export VH_RACE="$bin/vh-race"
fi
if [ "${1:-}" = replay ]; then
  "$bin/vh" replay "$2"
else
  "$bin/vh" check "$1"
fi

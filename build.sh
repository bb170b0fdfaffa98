#!/bin/bash
# Builds the simulator against /repo's working tree. $1: where to put it.
# Exit 3: it cannot be built (that is not a verdict on any property).
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
cache=${VERIF_CACHE:-$here/.cache}
mkdir -p "$cache"
export GOCACHE=$cache/gocache
cd "$here/sim" || exit 3
GOCACHE=$HOME/.cache/go-build go build -o "$cache/mkov" ./mkov >&2 || exit 3
root=$(go env GOROOT) || exit 3
for instr in 1 0; do
  "$cache/mkov" "$cache/ov" "$repo" "$root" $instr || exit 3
  if go build -trimpath=false -overlay "$cache/ov/overlay.json" -o "$cache/sim" ./cmd/sim 2>"$cache/build.log"; then
    exit 0
  fi
  cat "$cache/build.log" >&2
done
exit 3

#!/bin/bash
# Builds the simulator and, from /repo's working tree, the worker.
# usage: build.sh [race]
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
out=$here/.build
mkdir -p "$out"
export GOFLAGS=-buildvcs=false GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
[ -n "${HOME:-}" ] || export HOME=/root
cd "$here/sim"
go build -o "$out/orch" ./cmd/orch
go build -o "$out/mkoverlay" ./cmd/mkoverlay
make_worker() {
  "$out/mkoverlay" -out "$out" -rt "$here/sim/rt" "$@" >/dev/null || return
  if [ "$race" = race ]; then
    CGO_ENABLED=1 go build -race -tags faketime -overlay "$out/overlay.json" -o "$out/worker-race" ./cmd/worker
  else
    CGO_ENABLED=0 go build -tags faketime -overlay "$out/overlay.json" -o "$out/worker" ./cmd/worker
  fi
}
race=${1:-}
# Should some assignment not compile when it is split, none is.
make_worker 2>"$out/build.log" || make_worker -whole

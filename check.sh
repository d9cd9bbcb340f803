#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] ; or: check.sh --build
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOENV=off
unset GOFLAGS GOOS GOARCH GOEXPERIMENT
go=$(command -v go || echo /usr/local/bin/go)
# The binary is keyed by its sources.
key=$(cd "$here/checker" && cat go.mod *.go ai/*.go load/*.go rules/*.go | sha256sum | cut -c1-16)
bin=$here/bin/gojicheck-$key
if [ ! -x "$bin" ]; then
  mkdir -p "$here/bin"
  tmp=$here/bin/.build.$$
  if ! (cd "$here/checker" && "$go" build -mod=vendor -o "$tmp" .); then
    echo "check.sh: the checker does not build" >&2
    exit 3
  fi
  mv -f "$tmp" "$bin"
fi
[ "${1:-}" = --build ] && exit 0
GOJICHECK_GOROOT=$("$go" env GOROOT)
export GOJICHECK_GOROOT
exec "$bin" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${GOJI_REPO:-/repo}" -verif "$here"

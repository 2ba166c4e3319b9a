#!/bin/bash
# Usage: replay.sh ID FILE: runs a recorded counterexample natively against /repo.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} CGO_ENABLED=0 GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
pkg=$(echo "$1" | tr 'A-Z' 'a-z')
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
{ echo "package main"; echo "import h \"verifh/h/$pkg\""; echo "func init() {"
  grep -ho '^func H_[A-Za-z0-9_]*' harness/h/$pkg/*.go | sed 's/^func \(.*\)/ registry["\1"] = h.\1/'; echo "}"; } > "$tmp/reg.go"
echo "{\"Replace\":{\"$PWD/harness/cmd/replay/reg.go\":\"$tmp/reg.go\"}}" > "$tmp/o.json"
(cd harness && go build -overlay "$tmp/o.json" -o "$tmp/replay" ./cmd/replay) || exit 2
REPLAY_STACK=1 "$tmp/replay" "${3:-one}" "$2"

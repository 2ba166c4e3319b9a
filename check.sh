#!/bin/bash
# Usage: check.sh ID [quick|thorough] [engine flags]
# Builds the engine (cached) and decides property ID against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} CGO_ENABLED=0 GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
mkdir -p bin evidence
(cd engine && go build -o ../bin/symgo .) || exit 2
exec ./bin/symgo -verif "$PWD" -id "$id" -tier "$tier" "$@"

#!/bin/bash
# Builds the engine and warms the Go build cache; checks rebuild whatever is missing.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} CGO_ENABLED=0 GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
(cd engine && go build -o ../bin/symgo .) || exit 1
(cd harness && go build ./...) || exit 1

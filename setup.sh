#!/bin/bash
# Builds the verifier and its instrumentation tools from the committed sources, offline.
set -e
cd "$(dirname "$0")"
export GOENV=off GOWORK=off GO111MODULE=on GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
mkdir -p .build
(cd gover && go build -o ../.build/gover .)
for t in tools/*/; do
  [ -d "$t" ] || continue
  n=$(basename "$t")
  (cd "$t" && go build -o "../../.build/$n" .)
done
echo setup done

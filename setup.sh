#!/bin/bash
# Builds the engine from the committed sources (offline).
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local HOME="${HOME:-/root}"
mkdir -p ../bin ../evidence
go build -o ../bin/verif.tmp.$$ . && mv ../bin/verif.tmp.$$ ../bin/verif

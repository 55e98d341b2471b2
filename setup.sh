#!/bin/bash
# Builds the engine from the committed sources, offline.
set -e
cd "$(dirname "$0")/engine"
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/verifengine.tmp .
mv ../bin/verifengine.tmp ../bin/verifengine

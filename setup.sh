#!/bin/sh
# Builds the engine from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
mkdir -p bin evidence replays
cd engine && env -u GOFLAGS GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local go build -o ../bin/engine.new . && mv ../bin/engine.new ../bin/engine

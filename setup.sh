#!/bin/bash
# Builds the engine and the harnesses once, to warm the build cache.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
(cd gosym && go build -o /dev/null .) && (cd harness && go build -race -o /dev/null ./sym ./lib && go build -o /dev/null ./sym ./lib)

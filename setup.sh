#!/bin/bash
# Builds the checker offline from the committed sources and the module cache.
cd "$(dirname "$0")/checker" || exit 2
mkdir -p ../bin
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
t=$(mktemp ../bin/checker.XXXXXX)
go build -o "$t" . || { rm -f "$PWD/$t"; exit 2; }
chmod 755 "$t" && mv -f "$t" ../bin/checker

#!/bin/bash
# runs the repository's tests of the packages that do not build offline, against the stub modules
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
"$(dirname "$(realpath "$0")")/../stubs/overlay.sh" ${REPO:-/repo} "$T"
export GOROOT=/opt/veriftools/go1.24.13 HOME=/root GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off GOFLAGS= GOPATH=/root/go GOEXPERIMENT=synctest CGO_ENABLED=0
export PATH=$GOROOT/bin:$PATH
cd ${REPO:-/repo} && go test -vet=off -count=1 -timeout 120s -modfile=$T/go.mod -overlay=$T/overlay.json "$@" $(ls -d dkv dkv/*/ | sed 's,^,./,') ./jobs/... ./workers/... ./storage/... ./partitioning/... ./connectors/... ./rpc/... ./batching/... ./util/... ./clocks/... 2>&1 | grep -v "no test files"

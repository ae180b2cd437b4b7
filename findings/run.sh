#!/bin/bash
# run.sh PKG FILE_test.go [go test args]: runs an in-package test against /repo through an overlay
# (documentation of the defects found; no check uses it).
set -e
PKG=$1; F=$(realpath "$2"); shift 2
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
"$(dirname "$(realpath "$0")")/../stubs/overlay.sh" ${REPO:-/repo} "$T"
python3 - "$T/overlay.json" "${REPO:-/repo}/$PKG/zz_$(basename "$F")" "$F" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); d["Replace"][sys.argv[2]]=sys.argv[3]; json.dump(d,open(sys.argv[1],'w'))
P
export GOROOT=/opt/veriftools/go1.24.13 HOME=/root GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off GOFLAGS= GOPATH=/root/go GOEXPERIMENT=synctest CGO_ENABLED=0
export PATH=$GOROOT/bin:$PATH
cd ${REPO:-/repo} && go test -vet=off -count=1 -timeout 120s -modfile=$T/go.mod -overlay=$T/overlay.json "$@" ./$PKG

#!/bin/bash
# overlay.sh REPO OUTDIR : prepares, in OUTDIR, a module file and a build overlay with which
# every package of REPO (except e2e) type-checks and compiles offline. Writes nothing in REPO.
# Afterwards: go build|test|list -modfile=OUTDIR/go.mod -overlay=OUTDIR/overlay.json ...
set -e
REPO=$(realpath "$1"); OUT=$(realpath -m "$2"); STUBS=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export GOROOT=/opt/veriftools/go1.24.13
export PATH=$GOROOT/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export HOME=/root GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off GOFLAGS= GOPATH=/root/go
mkdir -p "$OUT/gen"
cp "$REPO/go.mod" "$OUT/go.mod"; cp "$REPO/go.sum" "$OUT/go.sum"
go mod edit -replace=reduction.dev/reduction-go="$STUBS/reduction-go" \
  -replace=reduction.dev/reduction-protocol="$STUBS/reduction-protocol" "$OUT/go.mod"
cd "$REPO"
find proto connectors -name '*.proto' | sort | while read -r p; do
  protoc -I . -I "$STUBS/reduction-protocol" \
    --plugin=protoc-gen-go=/opt/vp/tools/protoc-gen-go \
    --go_opt=paths=source_relative --go_out="$OUT/gen" \
    --plugin=protoc-gen-connect-go=/opt/vp/tools/protoc-gen-connect-go \
    --connect-go_opt=paths=source_relative --connect-go_out="$OUT/gen" "$p"
done
{
  echo '{"Replace": {'
  sep=
  # stale generated files in REPO never stand in for what the .proto files say now
  { find proto connectors \( -name '*.pb.go' -o -name '*.connect.go' \); (cd "$OUT/gen" && find . -name '*.go' | sed 's,^\./,,'); } | sort -u |
  while read -r g; do
    if [ -f "$OUT/gen/$g" ]; then t="$OUT/gen/$g"; else t=""; fi
    printf '%s"%s": "%s"' "$sep" "$REPO/$g" "$t"; sep=$',\n'
  done
  echo '}}'
} > "$OUT/overlay.json"

#!/bin/bash
# usage: run with cwd = the source tree; runs demo_test.go as part of package PKG
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export HOME="$t" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
cat > "$t/o.json" <<J
{"Replace": {"$PWD/@PKG@/zz_demo_test.go": "$here/demo_test.go"}}
J
go test -vet=off -count=1 -timeout 250s -overlay "$t/o.json" -run '^TestZZDemo$' ./@PKG@

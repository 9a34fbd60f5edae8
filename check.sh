#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]: builds the analyzer if needed and
# decides one property for the source in /repo (or $POWLINT_REPO).
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"
unset GOOS GOARCH
mkdir -p bin
(cd analyzer && go build -o ../bin/powlint .) || { echo "the analyzer does not build" >&2; exit 2; }
[ "$1" = build ] && exit 0
exec bin/powlint -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${POWLINT_REPO:-/repo}" -out .

#!/bin/bash
# Builds the harness once, plain, with the race detector and with counters, so that the checks
# find the standard library and the harness in the build cache.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CGO_ENABLED=1
work=$(mktemp -d "${TMPDIR:-/tmp}/dscheck.XXXXXX") || exit 2
trap '[ -n "$work" ] && rm -rf "$work"' EXIT
mkdir -p "$here/evidence" "$here/replay"
cd "$here/harness" || exit 2
pkgs=$(go list -deps . | grep '^github.com/timtadh/data-structures' | tr '\n' ',')
go build -o "$work/dscheck" . && go build -race -o "$work/dscheck-race" . &&
	go build -cover -covermode=atomic -coverpkg="${pkgs}dscheck" -o "$work/dscheck-cover" .

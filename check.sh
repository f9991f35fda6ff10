#!/bin/bash
# check.sh <property>          run the check of a property
# check.sh replay <file>       run the case of a replay file again
# Builds the harness against the working tree of /repo. Everything it writes
# goes to a scratch directory, evidence/ and replay/.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CGO_ENABLED=1
work=$(mktemp -d "${TMPDIR:-/tmp}/dscheck.XXXXXX") || exit 2
trap '[ -n "$work" ] && rm -rf "$work"' EXIT
cd "$here/harness" || exit 2
if ! go build -o "$work/dscheck" . ; then
	echo "the harness does not build against /repo" >&2
	exit 2
fi
export DSCHECK_HOME="$here" DSCHECK_WORK="$work"
id=$1
if [ "$id" = replay ]; then
	id=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
fi
bin="$work/dscheck"
needs=$("$bin" needs "$id") || exit 2
if [ "$needs" = race ]; then
	if ! go build -race -o "$work/dscheck-race" . ; then
		echo "the harness does not build with the race detector" >&2
		exit 2
	fi
	export DSCHECK_WORKER="$work/dscheck-race"
elif [ "$needs" = cover ]; then
	# the packages of the library, counting the steps they take
	pkgs=$(go list -deps . | grep '^github.com/timtadh/data-structures' | tr '\n' ',')
	if ! go build -cover -covermode=atomic -coverpkg="${pkgs}dscheck" -o "$work/dscheck-cover" . ; then
		echo "the harness does not build with counters" >&2
		exit 2
	fi
	mkdir -p "$work/counters"
	export DSCHECK_WORKER="$work/dscheck-cover" GOCOVERDIR="$work/counters"
fi
if [ "$1" = replay ]; then
	export GORACE="halt_on_error=1 exitcode=1"
	"${DSCHECK_WORKER:-$bin}" replay "$(cd "$here" && realpath "$2")"
	exit $?
fi
"$bin" run "$id"
exit $?

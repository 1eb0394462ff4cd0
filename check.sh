#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decides one property on /repo's current tree
# check.sh replay FILE                 reruns a recorded violation
# Builds the engine from its source on every run; writes only under /verif/evidence and a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
unset GOROOT GOTOOLDIR
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
GO=$(ls -d /opt/veriftools/go1.27*/bin/go /opt/veriftools/go1.26*/bin/go 2>/dev/null | head -1)
: "${GO:=go}"
work=$(mktemp -d /tmp/ssacheck.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
export TMPDIR=$work
(cd "$here/engine" && "$GO" build -o "$work/ssacheck" .) || { echo "ERROR: the engine does not build"; exit 2; }
if [ "$1" = warm ]; then
	exit 0
elif [ "$1" = replay ]; then
	"$work/ssacheck" -repo "$repo" -verif "$here" -replay "$2"
else
	"$work/ssacheck" -repo "$repo" -verif "$here" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
fi

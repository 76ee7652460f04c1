#!/bin/bash
# check.sh <property> <tier>: rebuild the checker against /repo's working tree and run one check.
set -u
cd "$(dirname "$0")/mc" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-mc.XXXXXX") || exit 2
trap 'case "$work" in /tmp/*|"${TMPDIR:-/tmp}"/*) rm -rf -- "$work";; esac' EXIT
if [ "$1" = C27 ]; then
	# controlled scheduler: a scheduling point before every statement of the
	# library (in a build overlay, /repo is not touched) and the race detector
	go run ./cmd/instrument /repo/gitdiff "$work/overlay" >&2 &&
		go build -race -tags sched -overlay "$work/overlay/overlay.json" -o "$work/mc" ./cmd/mc || { echo "build failed" >&2; exit 2; }
elif [ "$1" = C36 ]; then
	# counts the statements of the library that are executed
	go run ./cmd/instrument -steps /repo/gitdiff "$work/overlay" >&2 &&
		go build -tags steps -overlay "$work/overlay/overlay.json" -o "$work/mc" ./cmd/mc || { echo "build failed" >&2; exit 2; }
else
	go build -o "$work/mc" ./cmd/mc || { echo "build failed" >&2; exit 2; }
fi
VERIF_WORK="$work" VERIF_TIER="$2" "$work/mc" -property "$1" -tier "$2"

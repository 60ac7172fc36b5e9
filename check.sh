#!/bin/bash
# check.sh ID [quick|thorough]: decides one property. check.sh replay FILE: replays a violation.
cd "$(dirname "$0")/sim" || exit 3
export PATH="$PATH:/usr/local/go/bin" GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
if ! go build -o "$work/vsim" ./cmd/vsim; then echo "can't build the simulator" >&2; exit 3; fi
if [ "$1" = replay ]; then "$work/vsim" replay "$2"; else "$work/vsim" check "$@"; fi
exit $?

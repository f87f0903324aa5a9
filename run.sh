#!/bin/bash
# run.sh <property>: builds the analyser if needed and runs one check on /repo.
cd "$(dirname "$0")" || exit 3
root=$PWD
export HOME="${HOME:-/root}"
stamp=$(cat icscheck/*.go icscheck/go.mod | sha256sum | cut -d' ' -f1)
if [ ! -x bin/icscheck ] || [ "$(cat bin/stamp 2>/dev/null)" != "$stamp" ]; then
	mkdir -p bin
	(cd icscheck && GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$root/bin/icscheck.$$" .) || exit 3
	mv "bin/icscheck.$$" bin/icscheck
	echo "$stamp" > bin/stamp
fi
[ "$1" = build ] && exit 0
VERIF_DIR="$root" exec bin/icscheck check "$1"

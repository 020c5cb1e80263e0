#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   Builds the analyser (offline) and decides one property.
root="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
bin="$root/bin/rpcheck"
if [ ! -x "$bin" ] || [ -n "$(find "$root/checker" -name '*.go' -newer "$bin" -print -quit)" ]; then
	mkdir -p "$root/bin"
	(cd "$root/checker" && GOFLAGS="-mod=vendor -buildvcs=false" go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the analyser" >&2; exit 3; }
fi
[ "$1" = build ] && exit 0
VERIF_DIR="$root" GOMEMLIMIT=20GiB exec "$bin" -tier "${2:-quick}" "$1"

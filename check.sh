#!/bin/bash
# check.sh check ID | check.sh replay FILE : builds the driver and runs it against /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS= GOSUMDB=off
export GZ_VERIF=$here
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
(cd "$here/driver" && go build -o "$d/gzdriver" .) || exit 2
"$d/gzdriver" "$@"

#!/bin/bash
# check.sh PROPERTY quick|thorough   decides one property on /repo's working tree
# check.sh replay FILE               replays a reported counterexample
# check.sh dev HARNESS [TIER]        explores one harness
# check.sh setup                     builds everything once
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 TZ=UTC
export HOME=${HOME:-/root}
cd "$(dirname "$(readlink -f "$0")")" || exit 2
work=$(mktemp -d /tmp/symgo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$HOME/.cache/go-build" 2>/dev/null && [ -w "$HOME/.cache/go-build" ] || export GOCACHE=$work/cache
go build -o "$work/symgo" ./cmd/symgo || { echo "build failed" >&2; exit 2; }
race=
if "$work/symgo" races "$@"; then
	race=-race
	CGO_ENABLED=1 go build -race -o "$work/runner" ./harness/runner || race=
fi
if [ -z "$race" ]; then
	go build -o "$work/runner" ./harness/runner || { echo "build failed" >&2; exit 2; }
fi
case "$1" in
setup) "$work/symgo" list >/dev/null && echo ok ;;
replay) "$work/symgo" $race -runner "$work/runner" replay "$2" ;;
dev) shift; "$work/symgo" -root "$PWD" $race -runner "$work/runner" dev "$@" ;;
*) "$work/symgo" -root "$PWD" $race -runner "$work/runner" check "$1" "${2:-quick}" ;;
esac

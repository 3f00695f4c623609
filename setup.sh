#!/bin/bash
# Compiles every check once, so that later builds find the packages cached.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
cd "$here/harness" || exit 2
tmp="$(mktemp -d /tmp/hxs-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
go test -c -vet=off -o "$tmp/" ./... || exit 2
for f in */build.flags; do
  go test -c -vet=off $(cat "$f") -o "$tmp/x.test" "./$(dirname "$f")" || exit 2
done

#!/bin/bash
# usage: check.sh ID [--replay FILE]
# Builds the check of property ID against /repo's working tree and runs it.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
export ASAN_OPTIONS=detect_leaks=0
export HX_VERIF="$here" HX_REPO="${HX_REPO:-/repo}" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
pkg="$(echo "$id" | tr 'A-Z' 'a-z')"
if [ "$1" = "--replay" ]; then
  eval "$(python3 - "$2" <<'PY'
import json,sys,shlex
r=json.load(open(sys.argv[1]))
print("export HX_ONLY="+shlex.quote(r["check"]))
print("export VERIF_SEED="+shlex.quote(str(r["seed"])))
print("export VERIF_TIER="+shlex.quote(r["tier"]))
if r.get("failfile"): print("export HX_FAILFILE="+shlex.quote(r["failfile"]))
PY
)"
fi
tmp="$(mktemp -d /tmp/hxb-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" || exit 2
modfile=go.mod
if [ "$HX_REPO" != /repo ]; then
  # development only: check another copy of the repository
  modfile="$tmp/go.mod"; cp go.sum "$tmp/go.sum"
  sed "s|=> /repo|=> $HX_REPO|" go.mod > "$modfile"
fi
flags="$(cat "$pkg/build.flags" 2>/dev/null)"
if ! go test -c -vet=off $flags -modfile="$modfile" -o "$tmp/$pkg.test" "./$pkg" >"$tmp/build.log" 2>&1; then
  echo "ERROR: the check does not build"; tail -40 "$tmp/build.log"; exit 2
fi
cd "$tmp" && TMPDIR="$tmp" "$tmp/$pkg.test" -test.v
exit $?

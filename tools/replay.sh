#!/bin/bash
# tools/replay.sh PKGDIR TESTNAME: run one harness of /verif/replay on the real code
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in $(cd "$here/replay" && find . -name '*.go' | sed 's|^\./||'); do
    d=$(dirname "$f")
    case "$f" in
      *_test.go) [ "$d" = "$1" ] && grep -qE "func $2\(|//verif:shared" "$here/replay/$f" || continue;;
    esac
    echo "$sep\"$repo/$f\":\"$here/replay/$f\""
    sep=,
  done
  echo '}}'
} > "$tmp/overlay.json"
cd "$repo" && VERIF_SCRATCH=$tmp TMPDIR=$tmp VERIF_SECS=${VERIF_SECS:-20} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go test -overlay "$tmp/overlay.json" -vet=off -count=1 -v -run "^$2\$" "./$1"

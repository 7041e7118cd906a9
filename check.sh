#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off VERIF_HOME=$here
export VERIF_SEED=${VERIF_SEED:-1}
bin=$here/.cache/gvc
src=$(cat gvc/*.go gvc/go.mod gvc/go.sum | sha256sum | cut -c1-16)
if [ ! -x "$bin-$src" ]; then
  mkdir -p "$here/.cache"
  (cd gvc && go build -o "$bin-$src.$$" . && mv "$bin-$src.$$" "$bin-$src") || { echo "gvc does not build" >&2; exit 3; }
fi
[ "$1" = setup ] && exit 0
exec "$bin-$src" check "$1" "${2:-${VERIF_TIER:-quick}}"

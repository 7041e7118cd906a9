#!/bin/bash
# tools/mut.sh PATCHFILE|'sed-expr file' PROP...: run checks against a changed copy of /repo
rm -rf /tmp/m && mkdir -p /tmp/m/out && cp -a /repo /tmp/m/r
if [ -f "$1" ]; then git -C /tmp/m/r apply "$(realpath "$1")" || exit 9; shift; else
 f=$1; e=$2; shift 2; before=$(md5sum < /tmp/m/r/$f); perl -0pi -e "$e" /tmp/m/r/$f; [ "$before" = "$(md5sum < /tmp/m/r/$f)" ] && { echo NOCHANGE; exit 9; }; fi
cd /tmp/m/r && GOFLAGS=-mod=mod go build ./... || exit 9
cd /verif
for p in "$@"; do VERIF_REPO=/tmp/m/r VERIF_OUT=/tmp/m/out ./check.sh $p 2>&1 | tail -${T:-4} | cut -c1-${W:-300}; done

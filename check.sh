#!/bin/bash
# usage: check.sh <property> quick|thorough     decide one property on /repo's working tree
#        check.sh replay <file>                 re-run a recorded violation
# exit 0: held; 1: VIOLATION line printed; 2: the check itself failed
set -u
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod
HERE="$(cd "$(dirname "$0")" && pwd)"
WORK="$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX")" || exit 2
trap 'rm -rf "$WORK"' EXIT
cd "$HERE/harness" || exit 2
if ! go build -o "$WORK/check" . ; then
  echo "harness does not build against /repo" >&2
  exit 2
fi
PROP="$1"
RACE=()
if [ "$PROP" = replay ]; then
  if grep -q '"race": true' "$2"; then NEED=1; else NEED=0; fi
else
  if "$WORK/check" -needrace "$PROP"; then NEED=1; else NEED=0; fi
fi
if [ "$NEED" = 1 ]; then
  CGO_ENABLED=1 go build -race -o "$WORK/check-race" . || { echo "race build failed" >&2; exit 2; }
  RACE=(-racebin "$WORK/check-race")
fi
if [ "$PROP" = replay ]; then
  "$WORK/check" -verif "$HERE" "${RACE[@]}" -replay "$2"
  exit $?
fi
"$WORK/check" -verif "$HERE" "${RACE[@]}" ${VERIF_ARGS:-} "$PROP" "$2"
exit $?

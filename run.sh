#!/bin/bash
# run.sh PROPERTY quick|thorough — builds the harness from /repo's working tree and runs one check.
# run.sh replay FILE — re-executes a replay file.
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export VERIF_DIR=$H
TAGS=
ID=$1
[ "$1" = replay ] && ID=$(grep -oE '"property": *"P[0-9]+"' "$2" | grep -oE 'P[0-9]+')
case "$ID" in P25|P26) TAGS=cli;; P29) TAGS=race;; esac
"$H/build.sh" "$W/vrun" "$W" $TAGS >"$W/build.log" 2>&1 || { cat "$W/build.log"; echo "ERROR: build failed"; exit 2; }
if [ "$1" = replay ]; then "$W/vrun" replay "$2"; exit $?; fi
"$W/vrun" check "$1" "$2"
exit $?

#!/bin/bash
# check.sh <property> [quick|thorough] | check.sh replay <file>
# Instruments and builds /repo's current working tree in a scratch directory, then decides the property.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ID=${1:?property}
ARG=${2:-${VERIF_TIER:-quick}}
S=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'chmod -R u+w "$S" 2>/dev/null; rm -rf "$S"' EXIT
trap 'exit 2' INT TERM
bash "$HERE/build.sh" "$S" "$ID" || { echo "check: cannot build the instrumented tree" >&2; exit 2; }
NA=$(cat "$S/noaccess" 2>/dev/null)
mkdir -p "$S/work"
if [ "$ID" = replay ]; then
  "$S/harness" -replay "$ARG" -scratch "$S/work" -known "$HERE/known-findings.txt" $NA
  exit $?
fi
DL=${VERIF_DEADLINE:-}
if [ -z "$DL" ]; then if [ "$ARG" = thorough ]; then DL=700; else DL=240; fi; fi
"$S/harness" -id "$ID" -tier "$ARG" -evidence "$HERE/evidence/$ID.json" -replays "$HERE/evidence/replays" \
  -known "$HERE/known-findings.txt" -scratch "$S/work" -deadline "$DL" $NA
RC=$?
exit $RC

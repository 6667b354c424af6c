#!/bin/bash
# build.sh SCRATCH [ID]: instrument /repo's working tree and build the harness binary SCRATCH/harness.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
S=$1
ASAN=
[ "${2:-}" = C29 ] && ASAN=-asan # the bundled C code runs under AddressSanitizer
cp /repo/go.sum "$S/v.sum" && sed 's/^go 1\.1[0-9].*/go 1.20/' /repo/go.mod > "$S/v.mod" || exit 1
(cd "$HERE/go/instr" && go build -o "$S/instr" .) || exit 1
attempt() {
  rm -rf "$S/out"; mkdir -p "$S/out"
  (cd /repo && "$S/instr" $1 -out "$S/out" -modfile "$S/v.mod" -extra "vs=$HERE/go/vs,harness=$HERE/go/harness" \
    && go build $2 -modfile="$S/v.mod" -overlay "$S/out/overlay.json" -o "$S/harness" ./zzverif/harness)
}
if [ -n "$ASAN" ] && attempt "" -asan > "$S/build0.log" 2>&1; then :
elif attempt "" "" > "$S/build.log" 2>&1; then :
elif attempt "-access=false" "" > "$S/build2.log" 2>&1; then echo "-noaccess" > "$S/noaccess"
else cat "$S/build.log" "$S/build2.log" >&2; exit 1
fi

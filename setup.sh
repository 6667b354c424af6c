#!/bin/bash
# Warm the build cache and prove the harness builds; every check builds its own copy anyway.
HERE=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 1
trap 'chmod -R u+w "$S" 2>/dev/null; rm -rf "$S"' EXIT
bash "$HERE/build.sh" "$S"

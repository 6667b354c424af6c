#!/bin/bash
# many.sh PATCH ID...: run the checks on the patched copy, 2 at a time; print those not OK
P=$1; shift
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'o=$(bash /verif/tools/try.sh {} '$P' 2>&1 | tail -3 | cut -c1-600); case "$o" in *"OK property"*) ;; *) echo "== {}: $o";; esac'
echo end

#!/bin/bash
# try.sh ID PATCH|- [tier] [deadline]: one check against a scratch copy of /repo with PATCH applied (for
# development: nothing in /repo is touched, several can run at once). REV=1 applies the patch in reverse.
S=$(mktemp -d /tmp/try.XXXXXX); W=$S/repo; mkdir -p $S/w
git -C /repo archive --prefix=repo/ HEAD | tar -x -C $S
if [ "$2" != - ]; then (cd $W && git init -q . && git apply ${REV:+-R} "$2" && go build ./...) || { echo PATCH-OR-BUILD-FAILED; rm -rf $S; exit 3; }; fi
sed -e "s#/repo\b#$W#g" -e "s#^HERE=.*#HERE=${VW:-/verif}#" -e "s#instr\" \$1#instr\" -repo $W \$1#" ${VW:-/verif}/build.sh > $S/build.sh
bash $S/build.sh $S $1 && $S/harness -id $1 -tier ${3:-quick} -scratch $S/w -known /verif/known-findings.txt -replays $S/rp -deadline ${4:-240} $(cat $S/noaccess 2>/dev/null) 2>&1 | cut -c1-${CUT:-700} | tail -40
chmod -R u+w $S; rm -rf $S

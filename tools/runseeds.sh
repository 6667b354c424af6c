#!/bin/bash
# runseeds.sh [id...]: each planted bug against the quick check of its property.
cd /verif/seeded || exit 1
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=$(date +%s)
  bash /verif/tools/try.sh $p /verif/seeded/$s/patch.diff > /tmp/seed.out 2>&1
  if grep -q "^VIOLATION property=$p" /tmp/seed.out; then r=caught; else r=MISSED; fi
  echo "$s $p $r $(( $(date +%s)-t ))s"
  [ $r = caught ] || tail -3 /tmp/seed.out
done

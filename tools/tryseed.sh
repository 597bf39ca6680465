#!/bin/bash
# tryseed.sh ID... : run each planted bug's own check (or $CHECKS) against a scratch clone with the bug applied
W=/tmp/sw0
[ $# = 0 ] && set -- $(ls /verif/seeded)
for id in "$@"; do
  (cd $W && git checkout -q -f . && git fetch -q && git checkout -q -f origin/main && git apply /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$P}; do
    s=$(date +%s)
    (cd /verif && VERIF_REPO=$W timeout 900 python3 check.py $c >/tmp/seeds/$id.$c.log 2>&1); rc=$?
    echo "$id $c rc=$rc $(grep -c VIOLATION /tmp/seeds/$id.$c.log) keys: $(grep '^---' /tmp/seeds/$id.$c.log | head -4 | cut -c5-90 | tr '\n' '|') $(( $(date +%s)-s ))s"
  done
  (cd $W && git checkout -q -f .)
done

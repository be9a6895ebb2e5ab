#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id no-apply"; continue; }
    s=$(date +%s)
    /verif/check.sh $p quick >/tmp/catch.log 2>&1; r=$?
    git -C /repo checkout -- .
    echo "$id $p rc=$r $(($(date +%s)-s))s $(grep -c VIOLATION /tmp/catch.log) $(grep -B1 VIOLATION /tmp/catch.log | head -1 | cut -c1-150)"
done

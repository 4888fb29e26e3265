#!/bin/bash
# bugcheck.sh ID [tier]: applies a planted change to /repo, runs its property's check, undoes it.
id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
cd /verif; s=$(date +%s); tools/check.sh $p ${2:-quick} > /tmp/bc.$id 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id $p exit $rc $(( $(date +%s)-s ))s: $(grep VIOLATION /tmp/bc.$id | head -1)"

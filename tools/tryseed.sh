#!/bin/bash
# tryseed.sh ID... : run the check of the bug's property with the bug applied to /repo, then undo it (development aid)
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
cd /verif && timeout 900 bash check.sh $p quick > /tmp/tryseed.$id.log 2>&1; r=$?
git -C /repo checkout -- .
echo "$id exit $r: $(grep -h VIOLATION /tmp/tryseed.$id.log | head -2 | cut -c1-300)"
done

#!/bin/bash
# run the property's check against each seed (in /repo, applied then undone)
cd /verif/seeded
for d in ${@:-*}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
 o=$(VERIF_DIR=/verif RP_EVDIR=/tmp/ev timeout 300 /tmp/rpcheck $p 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$d $p rc=$rc $(echo "$o" | grep -m1 -E '^VIOLATION|rule' | cut -c1-200)"
done

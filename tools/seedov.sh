#!/bin/bash
# Development aid: run the property's check against each seed through an overlay, /repo untouched.
cd /verif/seeded
for d in ${@:-*}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
 t=$(mktemp -d); ov=""
 for f in $(grep '^+++ b/' $d/patch.diff | sed 's|^+++ b/||'); do mkdir -p $t/$(dirname $f); cp /repo/$f $t/$f; ov="$ov;/repo/$f=$t/$f"; done
 (cd $t && patch -s -p1 < /verif/seeded/$d/patch.diff) || { echo "$d NOAPPLY"; continue; }
 o=$(RP_OVERLAY="${ov#;}" VERIF_DIR=/verif RP_EVDIR=/tmp/ev timeout 600 ${BIN:-/tmp/rpcheck} ${ONLY:+-only "$ONLY"} $p 2>&1); rc=$?
 echo "$d $p rc=$rc $(echo "$o" | grep -m1 -A1 -E '^VIOLATION' | tail -1 | cut -c1-200)"
 rm -rf "$t"
done

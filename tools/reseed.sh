#!/bin/bash
# reseed.sh ID...: runs the quick check of a stored planted bug's property against a scratch copy of /repo with the bug applied
for id in "$@"; do d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); t=$(mktemp -d /tmp/rs.XXXXXX); git clone -q /repo $t/r; git -C $t/r apply $d/patch.diff || { echo "$id does not apply"; rm -rf $t; continue; }
 for q in ${PROPS:-$p}; do ICL_REPO=$t/r python3 /verif/check.py $q quick > $t/out 2>&1; rc=$?; [ $rc = 1 ] && grep -q "VIOLATION property=$q" $t/out && echo "$id $q CAUGHT" || { echo "$id $q MISSED rc=$rc"; tail -2 $t/out | cut -c1-200; }; done; rm -rf $t; done

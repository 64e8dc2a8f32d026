#!/bin/bash
# runbugs.sh [ID...]: applies each planted bug to a scratch copy of /repo and runs the check of its property on it.
cd /verif
w=/tmp/runbugs; mkdir -p $w
for id in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    rm -rf /tmp/runbugs/repo; mkdir -p $w/repo; git -C /repo archive HEAD | tar x -C $w/repo
    (cd $w/repo && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: does not apply"; continue; }
    s=$(date +%s)
    VERIF_REPO=$w/repo python3 check.py $p > $w/$id.out 2>&1; rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -a '^violation' $w/$id.out | head -1 | cut -c1-150) $(grep -a "choices" $w/$id.out | grep -ao "[0-9]* recorded choices (found with [0-9]*)" | head -1)$(grep -a "could not be minimised" $w/$id.out) $(f=$(grep -ao 'replay=.*' $w/$id.out | head -1 | cut -c8-); [ -n "$f" ] && VERIF_REPO=$w/repo python3 replay.py $f --quiet 2>&1 | grep -ao 'the same execution\|DIFFERENT')"
done
rm -rf /tmp/runbugs/repo

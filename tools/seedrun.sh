#!/bin/bash
# tools/seedrun.sh ID...: runs the check of each planted change's property against a scratch copy with the change.
cd "$(dirname "$0")/.."
for id in "$@"; do
    p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
    t=$(mktemp -d /tmp/seedrun.XXXXXX)
    mkdir $t/repo && cp -r /repo/include $t/repo/ && (cd $t/repo && git init -q . && git apply "$OLDPWD/seeded/$id/patch.diff") || { echo "$id: does not apply"; continue; }
    s=$(date +%s)
    VP_REPO=$t/repo VP_EVIDENCE=$t/ev timeout 900 python3-vt engine/check.py $p > $t/log 2>&1
    rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -h 'VIOLATION\|BOUNDED\|ERROR' $t/log | head -2 | cut -c1-200 | tr '\n' ' ')"
    grep -h "failed obligation" $t/ev/work/*/*.replay.txt 2>/dev/null | head -2
    rm -rf "$t"
done

#!/bin/bash
# tools/seedtest.sh ID...: confirms planted changes in a scratch copy of /repo: the patch applies, builds, passes the
# stable tests, and the demonstration tells the trees apart.
set -u
S=/tmp/seedscratch
if [ ! -d $S/repo ]; then
    mkdir -p $S && git clone -q /repo $S/repo
    cp -a /opt/vp $S/vp
    sed -i "s|^REPO=/repo|REPO=$S/repo|" $S/vp/cetl/env.sh
    sed -i "s|/opt/vp/cetl/env.sh|$S/vp/cetl/env.sh|; s|bash /opt/vp/build.sh|bash $S/vp/build.sh|" $S/vp/build.sh $S/vp/test.sh
fi
git -C $S/repo checkout -q -- . && git -C $S/repo pull -q
for id in "$@"; do
    d=$(cd "$(dirname "$0")/../seeded/$id" && pwd)
    rm -rf $S/demo && mkdir $S/demo && cp "$d"/* $S/demo/ && rm -f $S/demo/*.diff $S/demo/meta.json
    (cd $S/repo && bash $S/demo/demo.sh > $S/demo.log 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -5 $S/demo.log; continue; }
    git -C $S/repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    (cd $S/repo && bash $S/demo/demo.sh > $S/demo.log 2>&1) && echo "$id: demo passes with the patch"
    bash $S/vp/test.sh $S/out.json > $S/test.log 2>&1
    python3 - "$id" $S/out.json <<'PY'
import json, sys
o = json.load(open(sys.argv[2])); b = json.load(open("/opt/vp/BASELINE.json"))
lost = set(b["stable"]) - set(o["passed"])
print(sys.argv[1] + ":", "ok" if not lost else "tests lost %d: %s" % (len(lost), sorted(lost)[:3]))
PY
    git -C $S/repo checkout -q -- .
done

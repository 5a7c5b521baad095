"""python3 seedadd.py FILE: FILE defines SEEDS = [dict(id, property, file, edits=[(old, new)...], demo, needs, breaks, std)].
Writes /verif/seeded/<id>/."""
import difflib, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    patch = ""
    edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    for f, es in edits.items():
        a = open("/repo/" + f).read()
        b = a
        for o, n in es:
            assert b.count(o) == 1, (s["id"], b.count(o), o)
            b = b.replace(o, n)
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0 if the property holds on this input
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++%s %s -I "$PWD/include" "$here/demo.cpp" -o "$t/demo" || exit 3
"$t/demo"
''' % (s.get("std", 14), s.get("flags", "-O0 -g")))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(s["id"])

"""Helper for writing /verif/seeded/<id>: S(id, property, file, [(old, new)], needs, breaks,
demo C++ body, repo sources to link)."""
import difflib, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# exit 0: behaves as it should; 1: the property is broken
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -fopenmp -pthread %s -I "$R/include" -isystem /usr/include/eigen3 "$D/demo.cpp" %s -o "$T/demo" -lz || exit 3
cd "$T" && timeout 120 ./demo
r=$?; [ $r -eq 0 ] || { echo "demo failed ($r)"; exit 1; }
'''
def S(id, prop, file, edits, needs, breaks, demo, libs=(), flags="", extra=()):
    files = [(file, edits)] + list(extra)
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    out = ""
    for f, ed in files:
        old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        new = old
        for a, b in ed:
            assert new.count(a) == 1, (id, f, new.count(a), a)
            new = new.replace(a, b)
        out += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(SH % (flags, " ".join('"$R/src/common_robotics_utilities/%s.cpp"' % l for l in libs)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)

#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], SOURCES=[...], DEMO=c++ text."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EDYN_REPO", "/repo")
SH = '''#!/bin/bash
# Run with cwd at the repository. Exit 0: behaviour as documented.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/gen/edyn"; echo > "$T/gen/edyn/build_settings.h"
g++ -std=c++17 -O0 -ffunction-sections -w -DEDYN_DEBUG -DEDYN_DISABLE_PROFILING -pthread -Iinclude -I"$T/gen" %s "$D/demo.cpp" %s -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
ALL = ["-Wl,--gc-sections"] + ["src/edyn/" + f + ".cpp" for f in "math/geom math/quaternion math/triangle math/shape_volume shapes/box_shape shapes/cylinder_shape shapes/polyhedron_shape shapes/triangle_mesh util/shape_util util/shape_io".split()]

def make(ID, PROPERTY, NEEDS, BREAKS, EDITS, SOURCES, DEMO, FLAGS=""):
    assert subprocess.run(f"git -C {REPO} status --porcelain --untracked-files=no", shell=True, capture_output=True, text=True).stdout == ""
    try:
        for f, old, new in EDITS:
            p = os.path.join(REPO, f); s = open(p).read()
            assert s.count(old) == 1, (ID, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(f"git -C {REPO} diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(f"git -C {REPO} checkout -- .", shell=True, capture_output=True)
    d = os.path.join(V, "seeded", ID); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff); open(d + "/demo.cpp", "w").write(DEMO)
    open(d + "/demo.sh", "w").write(SH % (FLAGS, " ".join(SOURCES)))
    json.dump(dict(property=PROPERTY, needs=NEEDS, what_it_breaks=BREAKS), open(d + "/meta.json", "w"), indent=1)
if __name__ == "__main__":
    ns = {"make": make, "ALL": ALL}
    exec(open(sys.argv[1]).read(), ns)

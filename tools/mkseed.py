#!/usr/bin/env python3
"""mkseed.py: helper to write a seeded change. Usage from python: mk(id, prop, needs, breaks, [(file, old, new)], demo_cpp, link_lib, flags)"""
import json, os, subprocess, stat
R = os.environ.get("SEED_REPO", "/repo")
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0: behaves as it should; run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/i/edyn"
if [ -f _build/include/edyn/build_settings.h ]; then cp _build/include/edyn/build_settings.h "$T/i/edyn/"; else echo '#define EDYN_DISABLE_PROFILING' > "$T/i/edyn/build_settings.h"; fi
g++ -std=c++17 -O1 -w %s -I"$T/i" -Iinclude "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 99
timeout 120 "$T/demo"
'''
def mk(sid, prop, needs, breaks, edits, demo, srcs=(), flags="-DEDYN_DEBUG"):
    d = os.path.join(V, sid)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C "+R+" status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C "+R+" diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C "+R+" checkout -q -- .", shell=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (flags, " ".join("src/edyn/" + s for s in srcs)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", sid)

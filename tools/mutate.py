#!/usr/bin/env python3
"""mutate.py [substring...]: sensitivity of the checks to small changes, each made in a scratch copy of /repo.
Mutants are listed in tools/mutants.txt:  C17 | file | old | new   (\\n for newlines)."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = []
for l in re.split(r"\n(?=C\d\d ¦ )", "\n" + open(os.path.join(V, "tools", "mutants.txt")).read()):
    l = "\n".join(x for x in l.strip("\n").split("\n") if not x.startswith("#"))
    if not l:
        continue
    q = l.split("¦")
    p, f, a, b = [x.strip() if i < 2 else x[1:].replace("\\n", "\n") if i == 3 else x[1:-1].replace("\\n", "\n") for i, x in enumerate(q)]
    muts.append((p, f, a, b))
sel = sys.argv[1:]
muts = [m for m in muts if not sel or any(s == m[0] or s in m[1] or s in m[2] for s in sel)]
def one(i, m):
    p, f, a, b = m
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        for x in ("include", "src"):
            shutil.copytree(os.path.join(os.environ.get("MUT_FROM", "/repo"), x), os.path.join(d, x))
        fn = os.path.join(d, f)
        s = open(fn).read()
        if s.count(a) < 1:
            return i, "NOT-APPLICABLE (%d matches)" % s.count(a)
        open(fn, "w").write(s.replace(a, b, 1))
        r = subprocess.run([sys.executable, os.path.join(V, "run.py"), p, "quick"], env=dict(os.environ, VERIF_REPO=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return i, {0: "MISSED", 1: "caught", 2: "ERROR " + r.stdout[-600:]}.get(r.returncode, str(r.returncode))
    finally:
        shutil.rmtree(d, ignore_errors=True)
bad = 0
with cf.ThreadPoolExecutor(3) as ex:
    for i, res in ex.map(lambda t: one(*t), enumerate(muts)):
        if res != "caught":
            bad += 1
        print(muts[i][0], muts[i][1].split("/")[-1], repr(muts[i][2][:60]), "->", repr(muts[i][3][:60]), ":", res, flush=True)
print(len(muts), "mutants,", bad, "not caught")

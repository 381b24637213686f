"""Exploring schedules of the parallel code with the controlled scheduler (drivers/sched.cpp)."""
import concurrent.futures as cf
import os, re


def explore(c, randoms, dfs, module, driver="pool.cpp", sources=("parallel/job_dispatcher.cpp", "parallel/job_queue.cpp"),
            shim=False, nrandom=None, limit=None):
    name = os.path.splitext(driver)[0]
    exe = c.path(name)
    if not os.path.exists(exe):
        exe = c.build(name, [driver, "sched.cpp"], sources, flags=["-fsanitize=thread"], per_file={"sched.cpp": ["-fno-sanitize=all"]},
                      shim=shim, link_sanitize=False)
    nrandom = nrandom or (60000 if c.thorough else 6000)
    limit = limit or (120000 if c.thorough else 12000)
    jobs = []
    for r in randoms:
        for k in range(4):
            jobs.append((r, c.seed * 10 + k, nrandom // 4))
    for d in dfs:
        jobs.append((d, 1, limit))

    def one(j):
        out = c.path(f"{name}-{j[0]}-{j[1]}.ndjson")
        return c.drive(exe, [j[0], j[1], j[2]], out, timeout=240)
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    total = 0
    for f in outs:
        e = open(f + ".err", errors="replace").read()
        m = re.search(r"schedules (\d+) complete (\d)", e)
        if m:
            c.notes.setdefault("enumerated_schedules", {})[os.path.basename(f)] = {"schedules": int(m.group(1)), "complete": m.group(2) == "1"}
    t = c.path(f"{name}-{module}-distinct.ndjson")
    runs, distinct = c.distinct(outs, t)
    c.notes["executions_" + module] = runs
    c.log(f"{runs} executions explored, {distinct} distinct histories")
    return c.validate(module, t)

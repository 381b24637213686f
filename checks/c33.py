import islands


def run(c):
    open(c.path("none.txt"), "w").close()
    exe = islands.build(c)
    t = c.drive(exe, [c.path("none.txt"), c.seed, 4000 if c.thorough else 700, 1], c.path("trace.ndjson"))
    c.validate("SleepTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; every edge has at least one procedural body")

import islands


def run(c):
    g = c.generate("IslandsGen", "IslandsGenDeep.cfg" if c.thorough else "IslandsGen.cfg", "beh.txt", expect_min=1000)
    exe = islands.build(c)
    t = c.drive(exe, [g, c.seed, 2000 if c.thorough else 300, 0], c.path("trace.ndjson"))
    c.validate("IslandsTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; every edge has at least one procedural body")

def run(c):
    g = c.generate("CollideGen", "CollideGenDeep.cfg" if c.thorough else "CollideGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("drv", "collide.cpp", ["collision/should_collide.cpp", "util/exclude_collision.cpp"],
                  flags=["-fsanitize=address,undefined"], shim=True)
    t = c.drive(exe, [g, c.seed, 1500 if c.thorough else 200], c.path("trace.ndjson"))
    c.validate("CollideTrace", t)
    c.assumptions.append("a body takes part in at most 16 exclusions at a time (documented limit); exclusions are "
                         "removed only where one exists; run against the EnTT stand-in in shim/")

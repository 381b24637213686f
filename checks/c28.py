def run(c):
    c.model_check("InputHistoryMC")
    g = c.generate("InputHistoryGen", "InputHistoryGenDeep.cfg" if c.thorough else "InputHistoryGen.cfg", "beh.txt", expect_min=500)
    exe = c.build("drv", "input_history.cpp", repo_sources=["replication/map_child_entity.cpp"],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True)
    t = c.drive(exe, [g, c.seed, 4000 if c.thorough else 500], c.path("trace.ndjson"))
    c.validate("InputHistoryTrace", t)
    c.assumptions.append("a sender resends its log from at or before the first entry not yet received, equal timestamps are sent together, "
                         "and the clock offset between two clients does not change between repeated deliveries")

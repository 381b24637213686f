def run(c):
    c.model_check("ReplicationMC")
    beh = c.generate("ReplicationGen", "ReplicationGenDeep.cfg" if c.thorough else "ReplicationGen.cfg", "edits", expect_min=14641)
    exe = c.build("replication", "replication.cpp", repo_sources=["replication/map_child_entity.cpp"], shim=True)
    t = c.drive(exe, [beh, c.seed, 3000 if c.thorough else 800, 10], c.path("trace.ndjson"))
    c.validate("ReplicationTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; entities are unobserved before they are destroyed at the source")

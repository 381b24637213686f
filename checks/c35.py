def run(c):
    c.model_check("SnapshotMC")
    beh = c.generate("SnapshotGen", "SnapshotGenDeep.cfg" if c.thorough else "SnapshotGen.cfg", "orders", expect_min=1000)
    exe = c.build("snapshot", "snapshot.cpp", repo_sources=["replication/map_child_entity.cpp", "core/entity_graph.cpp", "networking/util/clock_sync.cpp"], shim=True)
    t = c.drive(exe, [beh, c.seed, 4000 if c.thorough else 1500, 8], c.path("trace.ndjson"))
    c.validate("SnapshotTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; at most 256 entities in a snapshot; pools as the exporters write them")

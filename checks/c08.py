def run(c):
    c.model_check("EntityGraph")
    g = c.generate("EntityGraphGen", "EntityGraphGenDeep.cfg" if c.thorough else "EntityGraphGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("drv", "entity_graph.cpp", ["core/entity_graph.cpp"], flags=["-fsanitize=address,undefined"], shim=True)
    t = c.drive(exe, [g, c.seed, 600 if c.thorough else 100], c.path("trace.ndjson"))
    c.validate("EntityGraphTrace", t)
    c.assumptions.append("nodes are removed only when they have no edges, as the interface requires")

def run(c):
    c.model_check("EntityMap")
    g = c.generate("EntityMapGen", "EntityMapGenDeep.cfg" if c.thorough else "EntityMapGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("drv", "entity_map.cpp", [], flags=["-fsanitize=address,undefined"], shim=True)
    t = c.drive(exe, [g, c.seed, 1500 if c.thorough else 200], c.path("trace.ndjson"))
    c.validate("EntityMapTrace", t)
    c.assumptions.append("only pairs whose two entities are unmapped are inserted, as the interface requires")

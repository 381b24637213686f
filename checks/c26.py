def run(c):
    g = c.generate("ModifiedCompsGen", "ModifiedCompsGenDeep.cfg" if c.thorough else "ModifiedCompsGen.cfg", "beh.txt", expect_min=500)
    exe = c.build("drv", "modified_comps.cpp", flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [g, c.seed, 200 * 10 if c.thorough else 200], c.path("trace.ndjson"))
    c.validate("ModifiedCompsTrace", t)

def run(c):
    c.model_check("FreeListImpl")
    g = c.generate("FreeListGen", "FreeListGenDeep.cfg" if c.thorough else "FreeListGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("free_list", "free_list.cpp", flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [g, c.seed, 2000 if c.thorough else 150], c.path("trace.ndjson"))
    c.validate("FreeListTrace", t)

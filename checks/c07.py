def run(c):
    c.model_check("NestedArrayImpl")
    g = c.generate("NestedArrayGen", "NestedArrayGenDeep.cfg" if c.thorough else "NestedArrayGen.cfg", "beh.txt", expect_min=500)
    exe = c.build("drv", "nested_array.cpp", flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [g, c.seed, 100 * 10 if c.thorough else 100], c.path("trace.ndjson"))
    c.validate("NestedArrayTrace", t)

def run(c):
    g = c.generate("RowPrepGen", "RowPrepGenDeep.cfg" if c.thorough else "RowPrepGen.cfg", "beh.txt", expect_min=500)
    exe = c.build("drv", "row_prep.cpp", flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [g, c.seed, 300 * 10 if c.thorough else 300], c.path("trace.ndjson"))
    c.validate("RowPrepTrace", t)

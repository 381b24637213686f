def run(c):
    c.model_check("ActionHistoryImpl")
    g = c.generate("ActionHistoryGen", "ActionHistoryGenDeep.cfg" if c.thorough else "ActionHistoryGen.cfg", "beh.txt", expect_min=500)
    exe = c.build("drv", "action_hist.cpp", flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [g, c.seed, 200 * 10 if c.thorough else 200], c.path("trace.ndjson"))
    c.validate("ActionHistoryTrace", t)

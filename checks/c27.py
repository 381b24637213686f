def run(c):
    c.model_check("ClockSyncNet", "ClockSyncNet-Lossy.cfg")
    c.model_check("ClockSyncNet", "ClockSyncNet-Good.cfg")
    g = c.generate("ClockSyncGen", "ClockSyncGenDeep.cfg" if c.thorough else "ClockSyncGen.cfg", "beh.txt", expect_min=500)
    exe = c.build("drv", "clock_sync.cpp", repo_sources=["networking/util/clock_sync.cpp"],
                  flags=["-fsanitize=address,undefined"], shim=True)
    t = c.drive(exe, [g, c.seed, 3000 if c.thorough else 300], c.path("trace.ndjson"))
    c.validate("ClockSyncTrace", t)
    c.assumptions.append("request ids are drawn by std::rand and do not repeat within one connection")

def run(c):
    g = c.generate("MaterialMixGen", "MaterialMixGenDeep.cfg" if c.thorough else "MaterialMixGen.cfg", "beh.txt", expect_min=500)
    exe = c.build("drv", "material_mix.cpp", flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [g, c.seed, 300 * 10 if c.thorough else 300], c.path("trace.ndjson"))
    c.validate("MaterialMixTrace", t)

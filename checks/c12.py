def run(c):
    g = c.generate("DynamicTreeGen", "DynamicTreeGenDeep.cfg" if c.thorough else "DynamicTreeGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("drv", "dynamic_tree.cpp", ["collision/dynamic_tree.cpp", "math/geom.cpp", "math/quaternion.cpp"], flags=["-fsanitize=address,undefined"], shim=True)
    t = c.drive(exe, [g, c.seed, 400 if c.thorough else 50], c.path("trace.ndjson"))
    c.validate("DynamicTreeTrace", t)
    c.assumptions.append("boxes and segments on a grid of halves; answers within a hundredth of touching are left open")

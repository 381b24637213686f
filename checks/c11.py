def run(c):
    exe = c.build("drv", "static_tree.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp"], flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 12000 if c.thorough else 1200], c.path("trace.ndjson"))
    c.validate("StaticTreeTrace", t)
    c.assumptions.append("box coordinates are small integers, so that overlap is decided exactly")

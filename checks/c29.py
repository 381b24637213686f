SRC = ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp"]
def run(c, which="round"):
    import os
    from lib.vlib import DRIVERS
    exe = c.build("drv", "archive.cpp", SRC, opt="-O0", flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,nonnull-attribute", "-I" + os.path.join(DRIVERS, "stub")])
    g = c.generate("ArchiveGen", "ArchiveGenDeep.cfg" if c.thorough else "ArchiveGen.cfg", "beh.txt", expect_min=1000)
    t = c.drive(exe, ["prim", g], c.path("prim.ndjson"))
    c.validate("ArchiveTrace", t)
    t = c.drive(exe, ["types", c.seed, 400 if c.thorough else 60], c.path("types.ndjson"))
    c.validate("ArchiveTypesTrace", t, cfg="ArchiveTypesTrace-%s.cfg" % which, whole=False)
    c.assumptions.append("containers of at most 65535 elements (the documented length field); values flattened to integers by the driver")

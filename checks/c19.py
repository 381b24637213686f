def run(c):
    exe = c.build("drv", "hull2d.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 40000 if c.thorough else 5000], c.path("trace.ndjson"))
    c.validate("Hull2DTrace", t, whole=False)
    c.assumptions.append("at least one point; points closer than one unit to each other coincide (the tolerance is relative to edges of unit length)")

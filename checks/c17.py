def run(c):
    exe = c.build("drv", "intersect.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 40000 if c.thorough else 3000], c.path("trace.ndjson"))
    c.validate("IntersectTrace", t, whole=False)
    c.assumptions.append("inputs have small integer coordinates; touching is decided only where the arithmetic is exact")

def run(c):
    exe = c.build("drv", "closest.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 60000 if c.thorough else 4000], c.path("trace.ndjson"))
    c.validate("ClosestTrace", t, whole=False)
    c.assumptions.append("inputs have small integer coordinates; results are compared within thousandths")

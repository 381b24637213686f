def run(c):
    exe = c.build("drv", "support.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp", "shapes/box_shape.cpp", "shapes/cylinder_shape.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 30000 if c.thorough else 2500], c.path("trace.ndjson"))
    c.validate("SupportTrace", t, whole=False)
    c.assumptions.append("directions are rational unit vectors, shapes have integer dimensions; results are compared within thousandths; box extents exceed the feature threshold")

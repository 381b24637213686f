def run(c):
    exe = c.build("drv", "box_tables.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp", "shapes/box_shape.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 5000 if c.thorough else 1000], c.path("trace.ndjson"))
    c.validate("BoxTablesTrace", t, whole=False)
    c.assumptions.append("integer half extents 1..3, rational rotations; results are compared within thousandths")

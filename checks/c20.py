def run(c):
    exe = c.build("drv", "insertion.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "shapes/triangle_mesh.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 40000 if c.thorough else 3000], c.path("trace.ndjson"))
    c.validate("InsertionTrace", t, whole=False)
    c.assumptions.append("points on an integer grid with offsets of multiples of 4 mm; spread conditions are checked on grid points, where scores are exact")

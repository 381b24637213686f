def run(c):
    exe = c.build("drv", "volume.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp", "shapes/box_shape.cpp", "shapes/cylinder_shape.cpp", "shapes/polyhedron_shape.cpp", "math/shape_volume.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 40000 if c.thorough else 4000], c.path("trace.ndjson"))
    c.validate("VolumeTrace", t, whole=False)
    c.assumptions.append("polyhedra are hulls of integer points; results are compared within 0.5% of a unit or 1e-5 relative")

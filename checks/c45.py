def run(c):
    exe = c.build("drv", "inertia.cpp", ["dynamics/moment_of_inertia.cpp", "shapes/convex_mesh.cpp", "shapes/polyhedron_shape.cpp", "shapes/compound_shape.cpp", "math/geom.cpp", "math/quaternion.cpp", "math/shape_volume.cpp", "math/triangle.cpp", "util/shape_util.cpp", "sys/update_rotated_meshes.cpp", "sys/update_inertias.cpp", "shapes/triangle_mesh.cpp", "shapes/box_shape.cpp", "shapes/cylinder_shape.cpp"],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True)
    t = c.drive(exe, [c.seed, 6000 if c.thorough else 700], c.path("trace.ndjson"))
    c.validate("InertiaTrace", t, whole=False)
    c.assumptions.append("integer dimensions, masses and rational rotations; moments compared within 1/500 (compounds) to 1/5000")

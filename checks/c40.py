def run(c):
    exe = c.build("drv", "aabb.cpp", ["util/aabb_util.cpp", "shapes/convex_mesh.cpp", "shapes/polyhedron_shape.cpp", "shapes/compound_shape.cpp", "math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "sys/update_rotated_meshes.cpp", "sys/update_aabbs.cpp", "shapes/triangle_mesh.cpp", "shapes/paged_triangle_mesh.cpp", "shapes/box_shape.cpp", "shapes/cylinder_shape.cpp"],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True)
    t = c.drive(exe, [c.seed, 9000 if c.thorough else 1000], c.path("trace.ndjson"))
    c.validate("AabbTrace", t, whole=False)
    c.assumptions.append("integer dimensions, rational rotations; boxes compared within thousandths (0.03 for cylinders)")

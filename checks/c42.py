def run(c):
    exe = c.build("drv", "convex.cpp", ["shapes/convex_mesh.cpp", "math/geom.cpp", "math/quaternion.cpp", "math/shape_volume.cpp", "math/triangle.cpp", "util/shape_util.cpp", "sys/update_rotated_meshes.cpp", "shapes/triangle_mesh.cpp", "shapes/box_shape.cpp", "shapes/cylinder_shape.cpp"],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True)
    t = c.drive(exe, [c.seed, 6000 if c.thorough else 700], c.path("trace.ndjson"))
    c.validate("ConvexMeshTrace", t, whole=False)
    c.assumptions.append("vertices have small integer coordinates; normals and rotated data are compared within 1/1700")

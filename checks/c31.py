SRC = ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "util/shape_io.cpp", "math/shape_volume.cpp", "shapes/convex_mesh.cpp", "shapes/compound_shape.cpp", "sys/update_rotated_meshes.cpp", "util/aabb_util.cpp",
       "shapes/triangle_mesh.cpp", "shapes/box_shape.cpp", "shapes/cylinder_shape.cpp", "shapes/polyhedron_shape.cpp"]
def run(c):
    g = c.generate("ObjGen", "ObjGenDeep.cfg" if c.thorough else "ObjGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("drv", "obj.cpp", SRC, flags=["-fsanitize=address,undefined"], shim=True)
    t = c.drive(exe, [g, c.seed, 20000 if c.thorough else 1500], c.path("trace.ndjson"))
    c.validate("ObjTrace", t, whole=False)
    c.assumptions.append("well-formed files: positive indices into the object's own vertices, given after them, keywords at the start of the line followed by a space")

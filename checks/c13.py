SRC = ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "util/shape_util.cpp", "shapes/triangle_mesh.cpp"]
def run(c, mode="adj", n=(2500, 25000)):
    exe = c.build("drv", "mesh.cpp", SRC, flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [mode, c.seed, n[1] if c.thorough else n[0]], c.path("trace.ndjson"))
    c.validate("MeshTrace", t, whole=False)
    c.assumptions.append("integer vertices, consistent winding, no degenerate triangles, at most two triangles per edge; results within thousandths")

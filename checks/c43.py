def run(c):
    exe = c.build("drv", "algebra.cpp", ["math/geom.cpp", "math/quaternion.cpp", "math/triangle.cpp", "shapes/triangle_mesh.cpp"],
                  flags=["-fsanitize=address,undefined"])
    t = c.drive(exe, [c.seed, 30000 if c.thorough else 2500], c.path("trace.ndjson"))
    c.validate("AlgebraTrace", t, whole=False)
    c.assumptions.append("operands are integers and rationals (unit quaternions and vectors with integer numerators), angles those of Pythagorean triangles; results are compared within 3e-4 absolute / 2e-6 relative")

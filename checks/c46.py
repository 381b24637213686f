SRC = ["constraints/%s_constraint.cpp" % k for k in "point distance soft_distance gravity cone hinge cvjoint generic".split()] + \
      ["constraints/constraint_row.cpp", "util/constraint_util.cpp", "math/geom.cpp", "math/quaternion.cpp"]


def run(c):
    c.model_check("JointsMC")
    g = c.generate("JointsGen", "JointsGenDeep.cfg" if c.thorough else "JointsGen.cfg", "beh.txt", expect_min=200)
    exe = c.build("drv", "joints.cpp", SRC, flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True)
    t = c.drive(exe, ["-", c.seed, 4000 if c.thorough else 250], c.path("rows.ndjson"))
    c.validate("JointsTrace", t, whole=False)
    t = c.drive(exe, [g, c.seed, 0], c.path("turns.ndjson"))
    c.validate("JointsTrace", t)
    c.assumptions.append("integer pivots, velocities and stiffnesses; poses by quarter and 3-4-5 rotations; one step size; rows compared within 4/1000 up to the sign of the row")

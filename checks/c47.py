SRC = ["constraints/contact_constraint.cpp", "constraints/contact_extras_constraint.cpp", "constraints/constraint_row.cpp", "constraints/constraint_row_friction.cpp",
       "constraints/constraint_row_spin_friction.cpp", "util/constraint_util.cpp", "math/geom.cpp", "math/quaternion.cpp"]


def run(c):
    c.model_check("ContactsMC")
    g = c.generate("ContactsGen", "ContactsGenDeep.cfg" if c.thorough else "ContactsGen.cfg", "beh.txt", expect_min=200)
    exe = c.build("drv", "contacts.cpp", SRC, flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True)
    t = c.drive(exe, ["-", c.seed, 6000 if c.thorough else 600], c.path("alone.ndjson"))
    c.validate("ContactsTrace", t, whole=False)
    t = c.drive(exe, [g, c.seed, 0], c.path("lives.ndjson"))
    c.validate("ContactsTrace", t)
    c.assumptions.append("integer pivots, velocities, inverse masses and moments; normals and poses by quarter and 3-4-5 rotations; one step size")

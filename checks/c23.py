def run(c):
    g = c.generate("SolverGen", "SolverGenDeep.cfg" if c.thorough else "SolverGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("drv", "solver_rows.cpp", ["constraints/constraint_row.cpp", "constraints/constraint_row_friction.cpp", "constraints/constraint_row_spin_friction.cpp", "util/constraint_util.cpp"],
                  flags=["-fsanitize=address,undefined"], shim=True)
    t = c.drive(exe, [g, c.seed, 8 if c.thorough else 2], c.path("trace.ndjson"))
    c.validate("SolverTrace", t)
    c.assumptions.append("small integer Jacobians, masses and inertias in quarters; results within 1/40 of a unit")

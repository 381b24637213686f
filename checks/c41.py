import world


def run(c):
    g = c.generate("RigidBodyGen", "RigidBodyGenDeep.cfg" if c.thorough else "RigidBodyGen.cfg", "beh.txt", expect_min=1000)
    exe = world.build(c, "rigidbody.cpp")
    t = c.drive(exe, [g, c.seed, 3000 if c.thorough else 400], c.path("trace.ndjson"), timeout=600)
    c.validate("RigidBodyTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; functions called within their documented preconditions; bodies do not touch")

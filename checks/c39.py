import world


def run(c):
    exe = world.build(c, "raycast.cpp")
    t = c.drive(exe, [c.seed, 2400 if c.thorough else 350], c.path("trace.ndjson"), timeout=600)
    c.validate("RaycastTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; casts happen after the steps that follow a change, since the broad phase is refreshed when a step begins")

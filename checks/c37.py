import islands


def run(c):
    g = c.generate("BroadphaseGen", "BroadphaseGenDeep.cfg" if c.thorough else "BroadphaseGen.cfg", "beh.txt", expect_min=1000)
    exe = c.build("drv", ["broadphase.cpp", "collide_stubs.cpp"], islands.SOURCES + ["util/collision_util.cpp", "util/exclude_collision.cpp",
                  "collision/collision_result.cpp", "parallel/message_dispatcher.cpp", "shapes/triangle_mesh.cpp", "shapes/paged_triangle_mesh.cpp"],
                  flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True, opt="-O0")
    t = c.drive(exe, [g, c.seed, 3000 if c.thorough else 400], c.path("trace.ndjson"))
    c.validate("BroadphaseTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; static, sleeping and disabled bodies do not move; "
                         "gaps are never exactly at the thresholds")

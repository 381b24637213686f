import pool
SRC = ["shapes/paged_triangle_mesh.cpp", "serialization/paged_triangle_mesh_s11n.cpp", "shapes/triangle_mesh.cpp",
       "parallel/message_dispatcher.cpp", "math/geom.cpp", "math/triangle.cpp", "util/aabb_util.cpp", "math/quaternion.cpp"]


def run(c):
    import os
    exe = c.build("drv", "paged.cpp", SRC, flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True)
    d = c.path("pages")
    os.makedirs(d, exist_ok=True)
    t = c.drive(exe, [c.seed, 3000 if c.thorough else 250, d], c.path("trace.ndjson"))
    c.validate("PagedMeshTrace", t)
    pool.explore(c, ["rand"], ["dfs-1-1-2-0-0-2", "dfs-1-1-2-1-0-2", "dfs-0-2-2-1-0-2", "dfs-1-1-2-0-1-1", "dfs-0-1-2-0-1-2"], "PagedConcTrace", driver="paged_conc.cpp", sources=SRC,
                 shim=True, nrandom=20000 if c.thorough else 2000, limit=20000 if c.thorough else 2000)
    c.assumptions.append("every page has fewer vertices than the cache limit")
    c.assumptions.append("with loads under way in other threads, the limit is kept with respect to what is cached when a page is requested")

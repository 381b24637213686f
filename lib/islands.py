SOURCES = ["simulation/island_manager.cpp", "core/entity_graph.cpp", "util/island_util.cpp", "util/rigidbody.cpp",
           "util/constraint_util.cpp", "util/contact_manifold_util.cpp", "collision/broadphase.cpp",
           "collision/contact_manifold_map.cpp", "collision/dynamic_tree.cpp", "util/gravity_util.cpp", "dynamics/moment_of_inertia.cpp", "util/aabb_util.cpp",
           "util/shape_util.cpp", "math/quaternion.cpp", "collision/should_collide.cpp",
           "math/geom.cpp", "math/triangle.cpp", "math/shape_volume.cpp", "time/common/time.cpp", "time/unix/time.cpp",
           "context/task.cpp", "context/start_thread.cpp", "parallel/job_dispatcher.cpp", "parallel/job_queue.cpp",
           "shapes/box_shape.cpp", "sys/update_inertias.cpp"]


def build(c):
    return c.build("drv", "islands.cpp", SOURCES, flags=["-fsanitize=address,undefined", "-fno-sanitize=alignment"], shim=True, opt="-O0")

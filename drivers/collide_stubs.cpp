// Weak stand-ins for shape pair tests that the drivers link but never reach; a real definition, when linked, wins.
#include "edyn/collision/collide.hpp"
#include <cstdlib>
#define STUB(A, B) __attribute__((weak)) void collide(const A &, const B &, const collision_context &, collision_result &) { std::abort(); }
namespace edyn {
STUB(box_shape, box_shape)
STUB(box_shape, capsule_shape)
STUB(box_shape, cylinder_shape)
STUB(box_shape, plane_shape)
STUB(box_shape, polyhedron_shape)
STUB(box_shape, sphere_shape)
STUB(box_shape, triangle_mesh)
STUB(capsule_shape, box_shape)
STUB(capsule_shape, capsule_shape)
STUB(capsule_shape, cylinder_shape)
STUB(capsule_shape, plane_shape)
STUB(capsule_shape, polyhedron_shape)
STUB(capsule_shape, sphere_shape)
STUB(capsule_shape, triangle_mesh)
STUB(compound_shape, compound_shape)
STUB(compound_shape, plane_shape)
STUB(compound_shape, triangle_mesh)
STUB(cylinder_shape, box_shape)
STUB(cylinder_shape, capsule_shape)
STUB(cylinder_shape, cylinder_shape)
STUB(cylinder_shape, plane_shape)
STUB(cylinder_shape, polyhedron_shape)
STUB(cylinder_shape, sphere_shape)
STUB(cylinder_shape, triangle_mesh)
STUB(plane_shape, box_shape)
STUB(plane_shape, capsule_shape)
STUB(plane_shape, compound_shape)
STUB(plane_shape, cylinder_shape)
STUB(plane_shape, polyhedron_shape)
STUB(plane_shape, sphere_shape)
STUB(polyhedron_shape, box_shape)
STUB(polyhedron_shape, capsule_shape)
STUB(polyhedron_shape, cylinder_shape)
STUB(polyhedron_shape, plane_shape)
STUB(polyhedron_shape, polyhedron_shape)
STUB(polyhedron_shape, sphere_shape)
STUB(polyhedron_shape, triangle_mesh)
STUB(sphere_shape, box_shape)
STUB(sphere_shape, capsule_shape)
STUB(sphere_shape, cylinder_shape)
STUB(sphere_shape, plane_shape)
STUB(sphere_shape, polyhedron_shape)
STUB(sphere_shape, sphere_shape)
STUB(sphere_shape, triangle_mesh)
}

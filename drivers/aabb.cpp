// Bounding boxes of shapes and their algebra.
#include "hull.hpp"
#include <entt/entity/registry.hpp>
#include <edyn/util/aabb_util.hpp>
#include <edyn/shapes/shapes.hpp>
#include <edyn/comp/orientation.hpp>
#include <edyn/comp/position.hpp>
#include <edyn/comp/origin.hpp>
#include <edyn/comp/tag.hpp>
#include <edyn/comp/island.hpp>
#include <edyn/sys/update_aabbs.hpp>
using namespace geo;
namespace edyn { AABB plane_aabb(const vector3 &normal, scalar constant); }
static std::string jb(const AABB &b, double s = 1000) { return "[" + js(b.min, s) + "," + js(b.max, s) + "]"; }
template<typename S> static AABB through(rng &r, const S &sh, const vector3 &pos, const quaternion &q) {
    // the several ways a box of a shape is computed
    switch (r.below(3)) {
    case 0: return shape_aabb(sh, pos, q);
    case 1: { shapes_variant_t v = sh; return shape_aabb(v, pos, q); }
    default: {
        entt::registry reg;
        auto dummy = reg.create(); (void)dummy;
        auto e = reg.create();
        reg.emplace<S>(e, sh); reg.emplace<shape_index>(e, get_shape_index<S>());
        if (r.below(2)) { reg.emplace<position>(e, pos); } else { reg.emplace<position>(e, pos + vector3{7, 8, 9}); reg.emplace<origin>(e, pos); }
        reg.emplace<orientation>(e, q); reg.emplace<AABB>(e); reg.emplace<procedural_tag>(e);
        if (r.below(2)) reg.emplace<dynamic_tag>(e); else reg.emplace<kinematic_tag>(e);
        int how = r.below(3); if (std::is_same_v<S, mesh_shape> && how == 1) how = 2;   // static shapes are not updated in bulk
        switch (how) { case 0: update_aabb(reg, e); break; case 1: update_aabbs(reg); break; default: update_aabbs(reg, std::vector<entt::entity>{e}); }
        return reg.get<AABB>(e);
    } }
}
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    auto RR = all_rots();
    for (int k = 0; k < N; ++k) {
        auto &R = RR[r.below((int)RR.size())]; iv pos = ri(r, 6);
        int rad = r.range(1, 4), len = r.range(1, 4), ax = r.below(3); iv h = {r.range(1, 5), r.range(1, 5), r.range(1, 5)};
        auto axis = coordinate_axis(ax);
        rec(o, "prim").n("r", rad).n("l", len).n("ax", ax).i("h", h).i("pos", pos).raw("m", jm(R))
            .raw("bo", jb(through(r, box_shape{f(h)}, f(pos), R.q))).raw("sp", jb(through(r, sphere_shape{scalar(rad)}, f(pos), R.q)))
            .raw("cy", jb(through(r, cylinder_shape{scalar(rad), scalar(len), axis}, f(pos), R.q))).raw("ca", jb(through(r, capsule_shape{scalar(rad), scalar(len), axis}, f(pos), R.q)));
        auto hu = rand_hull(r, 4, 8);
        auto mesh = std::make_shared<convex_mesh>(); for (auto &v : hu.v) mesh->vertices.push_back(f(v));
        polyhedron_shape ps(mesh); auto rot = make_rotated_mesh(*mesh, R.q); ps.rotated = &rot;
        rec(o, "cloud").raw("v", jl(hu.v)).i("pos", pos).raw("m", jm(R)).raw("raw", jb(point_cloud_aabb(mesh->vertices))).raw("it", jb(point_cloud_aabb(mesh->vertices.begin(), mesh->vertices.end())))
            .raw("w", jb(point_cloud_aabb(mesh->vertices, f(pos), R.q))).raw("sh", jb(shape_aabb(ps, f(pos), R.q))).raw("up", jb(through(r, ps, f(pos), R.q)));
        iv a = ri(r, 5), b = {a.x + r.range(0, 6), a.y + r.range(0, 6), a.z + r.range(0, 6)};
        AABB bx{f(a), f(b)};
        rec(o, "world").raw("b", "[" + js(a) + "," + js(b) + "]").i("pos", pos).raw("m", jm(R)).raw("w", jb(aabb_to_world_space(bx, f(pos), R.q))).raw("o", jb(aabb_to_object_space(bx, f(pos), R.q)));
        {
            compound_shape co; int n = r.range(1, 5); std::string s = "[";
            for (int i = 0; i < n; ++i) {
                auto &Q = RR[r.below((int)RR.size())]; iv p = ri(r, 4);
                int pr = r.range(1, 3), pl = r.range(1, 3), pa = r.below(3); iv ph = {r.range(1, 3), r.range(1, 3), r.range(1, 3)};
                int t = r.below(5); auto pax = coordinate_axis(pa);
                s += (i ? ",{" : "{") + ("\"t\":" + std::to_string(t) + ",\"r\":" + std::to_string(pr) + ",\"l\":" + std::to_string(pl) + ",\"ax\":" + std::to_string(pa) + ",\"h\":" + js(ph) + ",\"R\":" + jm(Q) + ",\"p\":" + js(p));
                if (t == 0) co.add_shape(sphere_shape{scalar(pr)}, f(p), Q.q);
                else if (t == 1) co.add_shape(cylinder_shape{scalar(pr), scalar(pl), pax}, f(p), Q.q);
                else if (t == 2) co.add_shape(capsule_shape{scalar(pr), scalar(pl), pax}, f(p), Q.q);
                else if (t == 3) co.add_shape(box_shape{f(ph)}, f(p), Q.q);
                else { auto hh = rand_hull(r, 3, 6); auto mm = std::make_shared<convex_mesh>(); for (auto &v : hh.v) mm->vertices.push_back(f(v)); co.add_shape(polyhedron_shape(mm), f(p), Q.q); s += ",\"v\":" + jl(hh.v); }
                s += "}";
            }
            co.finish();
            std::string nb = "["; for (auto &nd : co.nodes) nb += (nb.size() > 1 ? "," : "") + jb(nd.aabb);
            rec(o, "comp").raw("ps", s + "]").i("pos", pos).raw("m", jm(R)).raw("nb", nb + "]").raw("root", jb(co.tree.root_aabb())).raw("b", jb(through(r, co, f(pos), R.q)));
        }
        if (r.chance(1, 3)) {
            auto tm = std::make_shared<triangle_mesh>(); std::vector<vector3> v; std::vector<iv> vi; std::vector<uint32_t> id;
            for (int i = 0, nt = 3 * r.range(1, 3); i < nt; ++i) { iv p = {r.range(-5, 5) + 20 * i, r.range(-5, 5) + (i % 3) * 11, r.range(-5, 5)}; vi.push_back(p); v.push_back(f(p)); id.push_back(i); }
            tm->insert_vertices(v.begin(), v.end()); tm->insert_indices(id.begin(), id.end()); tm->initialize();
            rec(o, "mesh").raw("v", jl(vi)).i("pos", pos).raw("b", jb(through(r, mesh_shape{tm}, f(pos), quaternion_identity)));
        }
        if (r.chance(1, 3)) {
            iv n; int c = r.range(-50, 50);
            do n = ri(r, 1); while (!n.x && !n.y && !n.z);
            bool axial = std::abs(n.x) + std::abs(n.y) + std::abs(n.z) == 1;
            if (axial) rec(o, "plane").i("n", n).n("c", c).raw("b", jb(shape_aabb(plane_shape{f(n), scalar(c)}, f(pos), R.q), 1));
        }
        {
            int m = r.range(1, 3);
            auto rb = [&](iv &lo, iv &hi) { lo = ri(r, m); hi = {lo.x + r.range(0, m), lo.y + r.range(0, m), lo.z + r.range(0, m)}; };
            iv al, ah, bl, bh; rb(al, ah); rb(bl, bh); iv p = ri(r, m), v = ri(r, 2);
            AABB A{f(al), f(ah)}, B{f(bl), f(bh)};
            rec(o, "alg").raw("a", "[" + js(al) + "," + js(ah) + "]").raw("b", "[" + js(bl) + "," + js(bh) + "]").i("p", p).i("v", v)
                .b("is", intersect(A, B)).b("is2", intersect(B, A)).raw("en", jb(enclosing_aabb(A, B), 1)).b("ca", A.contains(B)).b("cp", A.contains(f(p)))
                .raw("ctr2", js(A.center() * 2, 1)).v("sz", A.size(), 1).s("ar", A.area(), 1).raw("in", jb(A.inset(f(v)), 1));
        }
    }
}

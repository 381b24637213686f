// Moments of inertia.
#include "hull.hpp"
#include <entt/entity/registry.hpp>
#include <edyn/dynamics/moment_of_inertia.hpp>
#include <edyn/shapes/shapes.hpp>
#include <edyn/comp/orientation.hpp>
#include <edyn/comp/inertia.hpp>
#include <edyn/comp/tag.hpp>
#include <edyn/sys/update_inertias.hpp>
using namespace geo;
static std::string jmat(const matrix3x3 &m, double s = 1000) { return "[" + js(m.row[0], s) + "," + js(m.row[1], s) + "," + js(m.row[2], s) + "]"; }
static std::shared_ptr<convex_mesh> mesh_of(const ihull &h, std::vector<std::vector<int>> &fs, rng &r) {
    fs = h.faces;
    if (r.chance(1, 3)) { std::vector<std::vector<int>> t; for (auto &f : fs) for (size_t i = 1; i + 1 < f.size(); ++i) t.push_back({f[0], f[i], f[i + 1]}); fs = t; }
    for (size_t i = fs.size(); i-- > 1;) std::swap(fs[i], fs[r.below((int)i + 1)]);
    for (auto &f : fs) std::rotate(f.begin(), f.begin() + r.below((int)f.size()), f.end());
    auto m = std::make_shared<convex_mesh>();
    for (auto &v : h.v) m->vertices.push_back(f(v));
    for (auto &x : fs) { m->faces.push_back((uint32_t)m->indices.size()); m->faces.push_back((uint32_t)x.size()); for (int i : x) m->indices.push_back(i); }
    return m;
}
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    auto RR = all_rots();
    for (int k = 0; k < N; ++k) {
        int m = r.range(1, 9);
        int rad = r.range(1, 4), len = r.range(1, 4), ax = r.below(3); iv h = {r.range(1, 5), r.range(1, 5), r.range(1, 5)};
        auto axis = coordinate_axis(ax);
        shapes_variant_t var;
        box_shape bo{f(h)}; sphere_shape sp{scalar(rad)}; cylinder_shape cy{scalar(rad), scalar(len), axis}; capsule_shape ca{scalar(rad), scalar(len), axis};
        if (r.chance(1, 8)) { ca.half_length = 0; }
        int cl = ca.half_length == 0 ? 0 : len;
        if (cl == 0) { cy.half_length = scalar(0.0001f); }
        if (cl) {
            matrix3x3 I[4] = {moment_of_inertia(bo, m), moment_of_inertia(sp, m), moment_of_inertia(cy, m), moment_of_inertia(ca, m)};
            if (r.below(2)) { var = bo; I[0] = moment_of_inertia(var, m); var = sp; I[1] = moment_of_inertia(var, m); var = cy; I[2] = moment_of_inertia(var, m); var = ca; I[3] = moment_of_inertia(var, m); }
            rec(o, "prim").n("m", m).n("r", rad).n("l", len).n("ax", ax).i("h", h).raw("bo", jmat(I[0])).raw("sp", jmat(I[1])).raw("cy", jmat(I[2])).raw("ca", jmat(I[3]))
                .v("hc", moment_of_inertia_hollow_cylinder(m, len * 2, rad, rad + 1, axis)).s("hs", moment_of_inertia_hollow_sphere(m, rad));
        }
        {
            auto hu = rand_hull(r, 3, 8); std::vector<std::vector<int>> fs;
            iv off = r.chance(1, 2) ? iv{0, 0, 0} : ri(r, 2);
            for (auto &v : hu.v) v = {v.x + off.x, v.y + off.y, v.z + off.z};
            auto mesh = mesh_of(hu, fs, r); polyhedron_shape ps(mesh);
            auto I = r.below(2) ? moment_of_inertia(ps, m) : moment_of_inertia_polyhedron(m, mesh->vertices, mesh->indices, mesh->faces);
            rec(o, "poly").n("m", m).raw("v", jl(hu.v)).raw("f", jlists(fs, 1)).raw("I", jmat(I));
        }
        {
            iv d = {r.range(1, 20), r.range(1, 20), r.range(1, 20)}, p = ri(r, 5);
            rec(o, "shift").n("m", m).i("d", d).i("p", p).raw("I", jmat(shift_moment_of_inertia(diagonal_matrix(f(d)), m, f(p))));
        }
        {
            compound_shape co; bool round = r.below(2); int n = r.range(1, 4); std::string ps = "[";
            for (int i = 0; i < n; ++i) {
                auto &R = RR[r.below((int)RR.size())]; iv p = ri(r, 4);
                int pr = r.range(1, 3), pl = r.range(1, 3), pa = r.below(3); iv ph = {r.range(1, 3), r.range(1, 3), r.range(1, 3)};
                int t = round ? r.below(3) : r.range(3, 4); auto pax = coordinate_axis(pa);
                ps += (i ? ",{" : "{") + ("\"t\":" + std::to_string(t) + ",\"r\":" + std::to_string(pr) + ",\"l\":" + std::to_string(pl) + ",\"ax\":" + std::to_string(pa) + ",\"h\":" + js(ph) + ",\"R\":" + jm(R) + ",\"p\":" + js(p));
                if (t == 0) co.add_shape(sphere_shape{scalar(pr)}, f(p), R.q);
                else if (t == 1) co.add_shape(cylinder_shape{scalar(pr), scalar(pl), pax}, f(p), R.q);
                else if (t == 2) co.add_shape(capsule_shape{scalar(pr), scalar(pl), pax}, f(p), R.q);
                else if (t == 3) co.add_shape(box_shape{f(ph)}, f(p), R.q);
                else { auto hu = rand_hull(r, 2, 6); std::vector<std::vector<int>> fs; auto mesh = mesh_of(hu, fs, r); co.add_shape(polyhedron_shape(mesh), f(p), R.q); ps += ",\"v\":" + jl(hu.v) + ",\"f\":" + jlists(fs, 1); }
                ps += "}";
            }
            var = co;
            rec(o, "comp").n("m", m).raw("ps", ps + "]").raw("I", jmat(r.below(2) ? moment_of_inertia(co, m) : moment_of_inertia(var, m)));
        }
        {
            entt::registry reg; auto &R = RR[r.below((int)RR.size())]; iv d = {r.range(1, 12), r.range(1, 12), r.range(1, 12)};
            std::vector<entt::entity> es; for (int i = 0; i < 3; ++i) es.push_back(reg.create());
            auto e = es[1];
            for (auto x : es) { reg.emplace<orientation>(x, x == e ? R.q : quaternion_identity); reg.emplace<inertia_inv>(x, diagonal_matrix(vector3{1 / scalar(d.x), 1 / scalar(d.y), 1 / scalar(d.z)})); reg.emplace<inertia_world_inv>(x, matrix3x3_identity); reg.emplace<dynamic_tag>(x); }
            switch (r.below(3)) { case 0: update_inertias(reg); break; case 1: update_inertia(reg, e); break; default: update_inertias(reg, es); }
            rec(o, "world").i("d", d).raw("R", jm(R)).raw("W", jmat(reg.get<inertia_world_inv>(e), 10000));
        }
    }
}

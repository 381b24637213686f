// Triangle mesh: adjacency and interpolation (mode adj), region and ray queries (mode query).
#include "mesh_gen.hpp"
#include <edyn/math/triangle.hpp>
#include <edyn/util/shape_util.hpp>
using namespace geo;
// Materials are only ever assigned by serialization, which is a friend of the mesh.
struct material_setter { std::vector<material::id_type> ids; void operator()(std::vector<material::id_type> &v) { v = ids; } };
namespace edyn { template<typename Archive> void serialize(Archive &a, triangle_mesh &m) { a(m.m_material_ids); } }
template<typename F> static std::string list(size_t n, F fn) { std::string s = "["; for (size_t i = 0; i < n; ++i) s += (i ? "," : "") + fn(i); return s + "]"; }
template<typename A> static std::string ja(const A &a, int base = 0) { std::string s = "["; bool sep = false; for (auto x : a) { if (sep) s += ","; sep = true; s += std::to_string((long long)x + base); } return s + "]"; }
template<typename A> static std::string jinf(const A &a) { return list(a.size(), [&](size_t i) { return "[" + std::to_string(a[i].id) + "," + std::to_string(sc(a[i].fraction, 1000)) + "]"; }); }
static void adj(out &o, rng &r, const imesh &m) {
    triangle_mesh tm;
    std::vector<float> fr, re; std::vector<int> fi, ri_;
    for (size_t i = 0; i < m.v.size(); ++i) { fi.push_back(r.below(9)); ri_.push_back(r.below(9)); fr.push_back(fi.back() / 8.0f); re.push_back(ri_.back() / 8.0f); }
    bool hf = r.chance(3, 4), hr = r.chance(3, 4);
    build_mesh(m, tm, hf ? fr : std::vector<float>{}, hr ? re : std::vector<float>{});
    std::vector<int> mi;
    bool hm = r.chance(3, 4);
    if (hm) { material_setter a; for (size_t i = 0; i < m.v.size(); ++i) { mi.push_back(r.below(9)); a.ids.push_back(mi.back()); } serialize(a, tm); }
    size_t E = tm.num_edges(), T = tm.num_triangles();
    if (E > 3 * T) { rec(o, "bad"); return; }
    rec(o, "mesh").raw("v", jl(m.v)).raw("t", jlists(m.t, 1)).n("nv", tm.num_vertices()).n("nt", T)
        .raw("vp", list(tm.num_vertices(), [&](size_t i) { return js(tm.get_vertex_position(i)); }))
        .raw("tv", list(T, [&](size_t i) { return jl(tm.get_triangle_vertices(i)); }))
        .raw("fv", list(T, [&](size_t i) { return list(3, [&](size_t k) { return std::to_string(tm.get_face_vertex_index(i, k) + 1); }); }))
        .raw("fe", list(T, [&](size_t i) { return list(3, [&](size_t k) { return std::to_string(tm.get_face_edge_index(i, k) + 1); }); }))
        .raw("ev", list(E, [&](size_t i) { return ja(tm.get_edge_vertex_indices(i), 1); }))
        .raw("ep", list(E, [&](size_t i) { return jl(tm.get_edge_vertices(i)); }))
        .raw("ef", list(E, [&](size_t i) { return ja(tm.get_edge_face_indices(i), 1); }))
        .raw("bd", list(E, [&](size_t i) { return std::string(tm.is_boundary_edge(i) ? "true" : "false"); }))
        .raw("cx", list(E, [&](size_t i) { return std::string(tm.is_convex_edge(i) ? "true" : "false"); }))
        .raw("fn", list(T, [&](size_t i) { return js(tm.get_triangle_normal(i)); }))
        .raw("an", list(T, [&](size_t i) { return list(3, [&](size_t k) { return js(tm.get_adjacent_face_normal(i, k)); }); }))
        .raw("mf", list(T, [&](size_t i) { return list(7, [&](size_t k) {
            auto ft = k == 0 ? triangle_feature::face : k < 4 ? triangle_feature::edge : triangle_feature::vertex;
            return std::to_string(get_triangle_mesh_feature_index(tm, i, ft, k == 0 ? 0 : (k - 1) % 3) + 1); }); }))
        .raw("box", "[" + js(tm.get_aabb().min) + "," + js(tm.get_aabb().max) + "]")
        .b("hf", tm.has_per_vertex_friction() == hf).b("hr", tm.has_per_vertex_restitution() == hr).b("hm", tm.has_per_vertex_material_id() == hm);
    if (hf && hr && hm) for (int q = 0; q < 3; ++q) {
        size_t e = r.below((int)E), t = r.below((int)T), v = r.below((int)m.v.size());
        int k = r.below(5);
        auto [a, b] = tm.get_edge_vertices(e);
        auto ids = tm.get_edge_vertex_indices(e);
        scalar s = k / 4.0f; vector3 p = a + (b - a) * s;
        int b0 = r.below(5), b1 = r.below(5 - b0), b2 = 4 - b0 - b1;
        auto tv = tm.get_triangle_vertices(t);
        // off the plane too: only the projection counts
        vector3 pf = tv[0] * (b0 / 4.0f) + tv[1] * (b1 / 4.0f) + tv[2] * (b2 / 4.0f);
        if (r.chance(1, 3)) pf += tm.get_triangle_normal(t) * 0.5f;
        rec(o, "mix").raw("fr", jlist(fi)).raw("re", jlist(ri_)).raw("ev", ja(ids, 1)).n("k", k).raw("tv", jlist(m.t[t], 1)).raw("bc", jlist({b0, b1, b2})).n("v", v + 1)
            .s("vf", tm.get_vertex_friction(v)).s("vr", tm.get_vertex_restitution(v))
            .s("ef", tm.get_edge_friction(e, s)).s("er", tm.get_edge_restitution(e, s))
            .s("pf", tm.get_edge_friction(e, p)).s("pr", tm.get_edge_restitution(e, p))
            .s("ff", tm.get_face_friction(t, pf)).s("frr", tm.get_face_restitution(t, pf)).v("b", tm.barycentric_coordinates(t, pf))
            .raw("mi", jlist(mi)).n("vm", tm.get_vertex_material_id(v)).raw("em", jinf(tm.get_edge_material_id(e, s))).raw("pm", jinf(tm.get_edge_material_id(e, p))).raw("fm", jinf(tm.get_face_material_id(t, pf)))
            .s("it", tm.interpolate_triangle(t, pf, {1, 2, 4}));
    }
    static auto U = unit_dirs(7);
    for (int q = 0; q < 3; ++q) {
        size_t t = r.below((int)T); auto &u = U[r.below((int)U.size())];
        int ft = r.below(3); size_t fi2 = r.below(3);
        auto tv = tm.get_triangle_vertices(t);
        auto x = clip_triangle_separating_axis(f(u), tm, t, tv, tm.get_triangle_normal(t), static_cast<triangle_feature>(ft), fi2);
        rec(o, "clip").i("d", u.d).n("n", u.n).raw("p", jl(std::vector<iv>{m.v[m.t[t][0]], m.v[m.t[t][1]], m.v[m.t[t][2]]})).v("tn", tm.get_triangle_normal(t))
            .raw("an", list(3, [&](size_t k) { return js(tm.get_adjacent_face_normal(t, k)); })).n("ft", ft).n("fi", fi2 + 1).v("x", x);
    }
}
static void query(out &o, rng &r, const imesh &m) {
    triangle_mesh tm; build_mesh(m, tm);
    std::string boxes = "[";
    for (size_t i = 0; i < m.t.size(); ++i) {
        iv a = m.v[m.t[i][0]], b = m.v[m.t[i][1]], c = m.v[m.t[i][2]];
        boxes += (i ? ",[" : "[") + js(iv{std::min({a.x, b.x, c.x}), std::min({a.y, b.y, c.y}), std::min({a.z, b.z, c.z})}) + "," + js(iv{std::max({a.x, b.x, c.x}), std::max({a.y, b.y, c.y}), std::max({a.z, b.z, c.z})}) + "]";
    }
    boxes += "]";
    std::string all = "[";
    tm.visit_all([&](auto i, auto &verts) { all += (all.size() > 1 ? ",[" : "[") + std::to_string(i + 1) + "," + jl(verts) + "]"; });
    rec(o, "all").raw("v", jl(m.v)).raw("t", jlists(m.t, 1)).raw("all", all + "]");
    for (int k = 0; k < 6; ++k) {
        iv p = ri(r, 5), q = ri(r, 5);
        if (r.chance(1, 4)) q.x = p.x; if (r.chance(1, 4)) q.y = p.y; if (r.chance(1, 4)) q.z = p.z;
        std::vector<int> vis;
        if (k % 2) {
            tm.raycast(f(p), f(q), [&](auto i) { vis.push_back((int)i + 1); });
            rec(o, "ray").raw("b", boxes).i("p", p).i("q", q).raw("vis", jlist(vis));
        } else {
            iv lo = {std::min(p.x, q.x), std::min(p.y, q.y), std::min(p.z, q.z)}, hi = {std::max(p.x, q.x), std::max(p.y, q.y), std::max(p.z, q.z)};
            tm.visit_triangles(AABB{f(lo), f(hi)}, [&](auto i) { vis.push_back((int)i + 1); });
            rec(o, "region").raw("b", boxes).i("p", lo).i("q", hi).raw("vis", jlist(vis));
        }
    }
}
int main(int argc, char **argv) {
    bool q = !strcmp(argv[1], "query");
    rng r(atoi(argv[2])); int N = atoi(argv[3]);
    out o(argv[4]);
    for (int k = 0; k < N; ++k) { auto m = rand_mesh(r, q ? 6 : 4); if (q) query(o, r, m); else adj(o, r, m); }
}

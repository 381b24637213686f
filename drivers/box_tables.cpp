// All index tables and feature accessors of box_shape.
#include "hull.hpp"
#include <edyn/shapes/box_shape.hpp>
#include <edyn/util/shape_util.hpp>
using namespace geo;
template<typename F> static std::string list(int n, F fn) { std::string s = "["; for (int i = 0; i < n; ++i) s += (i ? "," : "") + fn(i); return s + "]"; }
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    auto R = all_rots(); auto U = unit_dirs(); auto F = unit_dirs_fine();
    std::vector<iv> hs;
    for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int c = 1; c <= 3; ++c) hs.push_back({a, b, c});
    int idx = 0;
    for (auto &h : hs) for (int k = 0; k < (N > 2000 ? 40 : 6); ++k, ++idx) {
        auto &q = R[(idx * 7 + (int)r.below(3)) % R.size()];
        iv pos = ri(r, 4);
        box_shape b{f(h)};
        auto p = f(pos);
        rec(o, "box").i("h", h).i("pos", pos).raw("m", jm(q))
            .raw("v", list(8, [&](int i) { return js(b.get_vertex(i)); }))
            .raw("vw", list(8, [&](int i) { return js(b.get_vertex(i, p, q.q)); }))
            .raw("eg", list(12, [&](int i) { return jl(b.get_edge(i)); }))
            .raw("ew", list(12, [&](int i) { return jl(b.get_edge(i, p, q.q)); }))
            .raw("f", list(6, [&](int i) { return jl(b.get_face(i)); }))
            .raw("fw", list(6, [&](int i) { return jl(b.get_face(i, p, q.q)); }))
            .raw("fn", list(6, [&](int i) { return js(b.get_face_normal(i)); }))
            .raw("fnw", list(6, [&](int i) { return js(b.get_face_normal(i, q.q)); }))
            .raw("fc", list(6, [&](int i) { return js(b.get_face_center(i, p, q.q)); }))
            .raw("fb", list(6, [&](int i) { auto m = b.get_face_basis(i, q.q); return jl(std::array<vector3, 3>{m.column(0), m.column(1), m.column(2)}); }))
            .raw("fh", list(6, [&](int i) { return js(b.get_face_half_extents(i)); }))
            .raw("fe", list(6, [&](int i) { return list(4, [&](int j) { return std::to_string(b.get_face_edge_index(i, j) + 1); }); }))
            .raw("fv", list(6, [&](int i) { return list(4, [&](int j) { return std::to_string(b.get_vertex_index_from_face(i, j) + 1); }); }))
            .raw("ei", list(8, [&](int i) { return list(8, [&](int j) {
                // only pairs joined by an edge may be asked for
                int d = 0; auto x = b.get_vertex(i), y = b.get_vertex(j); for (int c = 0; c < 3; ++c) d += x[c] != y[c];
                return std::to_string(d == 1 ? (long)b.get_edge_index(i, j) + 1 : 0); }); }))
            .raw("ef", list(12, [&](int i) { auto x = b.get_edge_face_indices(i); return "[" + std::to_string(x[0] + 1) + "," + std::to_string(x[1] + 1) + "]"; }))
            .raw("en", list(12, [&](int i) { return jl(b.get_edge_face_normals(i)); }))
            .raw("enw", list(12, [&](int i) { return jl(b.get_edge_face_normals(i, q.q)); }));
    }
    // closest feature on a face: points at quarters, tolerances at eighths (never on a boundary)
    for (auto &h : hs) for (int face = 0; face < 6; ++face) {
        int ax = face / 2, s = face % 2 ? -1 : 1;
        int hh[3] = {h.x, h.y, h.z};
        if (N <= 2000 && (h.x + 3 * h.y + 2 * h.z) % 3) continue;
        for (int tol : {1, 3}) {   // eighths
            for (int a = -4 * hh[(ax + 1) % 3]; a <= 4 * hh[(ax + 1) % 3]; ++a) for (int c = -4 * hh[(ax + 2) % 3]; c <= 4 * hh[(ax + 2) % 3]; ++c) {
                int x[3]; x[ax] = 4 * s * hh[ax]; x[(ax + 1) % 3] = a; x[(ax + 2) % 3] = c;
                box_shape b{f(h)};
                auto res = b.get_closest_feature_on_face(face, vector3{x[0] / 4.0f, x[1] / 4.0f, x[2] / 4.0f}, tol / 8.0f);
                std::vector<vector3> v;
                if (res.first == box_feature::vertex && res.second < 8) v.push_back(b.get_vertex(res.second));
                else if (res.first == box_feature::edge && res.second < 12) { for (auto &y : b.get_edge(res.second)) v.push_back(y); }
                else if (res.first == box_feature::face && res.second < 6) for (auto &y : b.get_face(res.second)) v.push_back(y);
                rec(o, "cf").i("h", h).n("ax", ax + 1).n("s", s).n("tol", tol).i("x", {x[0], x[1], x[2]}).n("t", (int)res.first).raw("v", jl(v));
            }
        }
    }
    for (auto *L : {&U, &F}) for (auto &u : *L) {
        box_shape b{f(hs[r.below((int)hs.size())])};
        auto i = b.support_face_index(f(u));
        rec(o, "sf").i("d", u.d).v("n", i < 6 ? b.get_face_normal(i) : vector3_zero);
    }
    for (auto &h : hs) {
        std::vector<vector3> v; std::vector<uint32_t> in, fa;
        make_box_mesh(f(h), v, in, fa);
        std::vector<int> a(in.begin(), in.end()), b(fa.begin(), fa.end());
        rec(o, "mesh").i("h", h).raw("v", jl(v)).raw("i", jlist(a, 1)).raw("f", jlist(b));
    }
    for (int nx = 2; nx <= 5; ++nx) for (int nz = 2; nz <= 5; ++nz) {
        std::vector<vector3> v; std::vector<uint16_t> in;
        int ex = r.range(1, 6), ez = r.range(1, 6);
        make_plane_mesh(ex, ez, nx, nz, v, in);
        std::vector<int> a(in.begin(), in.end());
        rec(o, "plane").n("ex", ex).n("ez", ez).n("nx", nx).n("nz", nz).raw("v", jl(v)).raw("i", jlist(a, 1));
    }
}

// Convex mesh derived data.
#include "hull.hpp"
#include <edyn/shapes/convex_mesh.hpp>
#include <edyn/sys/update_rotated_meshes.hpp>
#include <edyn/serialization/memory_archive.hpp>
#include <edyn/serialization/std_s11n.hpp>
#include <edyn/serialization/math_s11n.hpp>
namespace edyn { void update_rotated_mesh(rotated_mesh &, const convex_mesh &, const quaternion &); }
using namespace geo;
static const double Q = 20000;
static std::string jq(const vector3 &v) { return js(v, Q); }
static std::string lv(const std::vector<vector3> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + jq(v[i]); return s + "]"; }
static std::string lu(const std::vector<uint32_t> &v, int base) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i] == UINT32_MAX ? 0 : (long)v[i] + base); return s + "]"; }
static void record(out &o, const std::vector<iv> &v, const std::vector<std::vector<int>> &fs, const convex_mesh &m, const rotated_mesh &rm, const rot &R, bool shifted) {
    std::string ge = "[", gd = "[", rge = "[", rgd = "[";
    auto id = [](uint32_t x) { return std::to_string(x == UINT32_MAX ? 0 : (long)x + 1); };
    for (size_t k = 0; k < m.num_edges(); ++k) {
        auto ev = m.get_edge_vertices(k); auto ef = m.get_edge_faces(k);
        auto c = k ? "," : "";
        ge += c + ("[" + id(ev[0]) + "," + id(ev[1]) + "," + id(ef[0]) + "," + id(ef[1]) + "]");
        gd += c + jq(m.get_edge_direction(k));
        auto rv = m.get_rotated_edge(rm, k); auto rn = rm.get_edge_normals(k); auto rv2 = rm.get_edge_vertices(k);
        rge += c + ("[" + jq(rv2[0]) + "," + jq(rv[1]) + "," + jq(rn[0]) + "," + jq(rn[1]) + "]");
        rgd += c + jq(m.get_rotated_edge_direction(rm, k));
    }
    rec(o, "mesh").raw("v", jl(v)).raw("f", jlists(fs, 1)).b("shifted", shifted).raw("m", jm(R)).b("ok", m.validate())
        .raw("pv", lv(m.vertices)).raw("nm", lv(m.normals)).raw("ed", lu(m.edges, 1)).raw("ef", lu(m.edge_faces, 1)).raw("ev", lv(m.edge_vertices)).raw("en", lv(m.edge_normals))
        .raw("ns", lu(m.neighbors_start, 0)).raw("ni", lu(m.neighbor_indices, 1)).raw("rf", lu(m.relevant_faces, 1)).raw("rn", lv(m.relevant_normals)).raw("re", lu(m.relevant_edges, 1))
        .raw("rv", lv(rm.vertices)).raw("rnm", lv(rm.normals)).raw("rrn", lv(rm.relevant_normals)).raw("rev", lv(rm.edge_vertices)).raw("ren", lv(rm.edge_normals))
        .raw("ge", ge + "]").raw("gd", gd + "]").raw("rge", rge + "]").raw("rgd", rgd + "]");
}
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    auto RR = all_rots();
    convex_mesh reused;
    for (int k = 0; k < N; ++k) {
        auto h = rand_hull(r, 3, 10);
        if (r.chance(1, 3)) { // thin: nearly parallel faces
            std::vector<iv> p; for (auto v : h.v) p.push_back({v.x * 3, v.y * 3, v.z}); ihull t; if (make_hull(p, t)) h = t;
        }
        iv off = r.chance(1, 2) ? iv{0, 0, 0} : ri(r, 4);
        for (auto &v : h.v) v = {v.x + off.x, v.y + off.y, v.z + off.z};
        auto fs = h.faces;
        // sometimes triangulate; sometimes add a vertex in the middle of an edge of its two faces
        if (r.chance(1, 4)) { std::vector<std::vector<int>> t; for (auto &f : fs) for (size_t i = 1; i + 1 < f.size(); ++i) t.push_back({f[0], f[i], f[i + 1]}); fs = t; }
        else if (r.chance(1, 3)) {
            for (auto &e : h.edges) { iv a = h.v[e[0]], b = h.v[e[1]];
                if ((a.x + b.x) % 2 || (a.y + b.y) % 2 || (a.z + b.z) % 2 || r.below(2)) continue;
                int id = (int)h.v.size(); h.v.push_back({(a.x + b.x) / 2, (a.y + b.y) / 2, (a.z + b.z) / 2});
                for (auto &f : fs) for (size_t i = 0; i < f.size(); ++i) { int p = f[i], q = f[(i + 1) % f.size()]; if ((p == e[0] && q == e[1]) || (p == e[1] && q == e[0])) { f.insert(f.begin() + i + 1, id); break; } }
                break; }
        }
        for (size_t i = fs.size(); i-- > 1;) std::swap(fs[i], fs[r.below((int)i + 1)]);
        for (auto &f : fs) std::rotate(f.begin(), f.begin() + r.below((int)f.size()), f.end());
        bool open = r.chance(1, 6);
        if (open) fs.pop_back();
        bool shift = !open && r.below(2);
        convex_mesh fresh;
        bool reuse = r.chance(1, 3);
        convex_mesh &m = reuse ? reused : fresh;
        m.vertices.clear(); m.indices.clear(); m.faces.clear();
        for (auto &v : h.v) m.vertices.push_back(f(v));
        if (r.chance(1, 4)) m.indices.push_back(0);
        for (auto &x : fs) { m.faces.push_back((uint32_t)m.indices.size()); m.faces.push_back((uint32_t)x.size()); for (int i : x) m.indices.push_back(i); }
        if (shift && r.chance(1, 3)) { // through an archive, into a mesh that held something else
            std::vector<uint8_t> buf; { auto a = memory_output_archive(buf); a(m); }
            auto a = memory_input_archive(buf.data(), buf.size()); a(reused);
            if (&m != &reused) m = reused;
        }
        else if (shift) { if (getenv("DBG")) fprintf(stderr, "%s %s\n", jl(h.v).c_str(), jlists(fs, 0).c_str()); m.initialize(); } else m.update_calculated_properties();
        auto &R = RR[r.below((int)RR.size())]; auto &R2 = RR[r.below((int)RR.size())];
        auto rm = make_rotated_mesh(m, r.below(2) ? R.q : R2.q);
        update_rotated_mesh(rm, m, R.q);
        record(o, h.v, fs, m, rm, R, shift);
        if (!open && r.chance(1, 3)) { // push a vertex inside the hull or bend a face
            auto b = m; size_t i = r.below((int)h.v.size());
            auto rest = h.v; rest.erase(rest.begin() + i); ihull t;
            if (!make_hull(rest, t)) continue;   // the vertex moves to the middle of the others
            vector3 c = vector3_zero; for (size_t j = 0; j < b.vertices.size(); ++j) if (j != i) c += b.vertices[j];
            b.vertices[i] = c / scalar(rest.size());
            b.calculate_normals();
            rec(o, "bad").b("ok", b.validate());
        }
    }
}

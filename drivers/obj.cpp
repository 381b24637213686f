// Mesh files: behaviours of ObjGen and random files, formatted in many ways, loaded through every entry point.
#include "hull.hpp"
#include <edyn/util/shape_io.hpp>
#include <sstream>
#include <unistd.h>
using namespace geo;
struct line { std::string k; std::vector<int> a; };
static std::string jline(const line &l) { std::string s = "[\"" + l.k + "\""; for (int x : l.a) s += "," + std::to_string(x); return s + "]"; }
static std::string num(rng &r, int eighths) {
    char b[64]; double v = eighths / 8.0;
    switch (r.below(4)) { case 0: snprintf(b, sizeof b, "%g", v); break; case 1: snprintf(b, sizeof b, "%.6f", v); break; case 2: snprintf(b, sizeof b, "%.4e", v); break; default: snprintf(b, sizeof b, "%.3f", v); }
    return b;
}
static std::string text(rng &r, const std::vector<line> &ls) {
    std::string t; bool crlf = r.chance(1, 6), lastnl = r.chance(3, 4); int slash = r.below(4);
    for (size_t i = 0; i < ls.size(); ++i) {
        auto &l = ls[i]; std::string s;
        auto sp = [&] { return std::string(r.chance(1, 6) ? 2 : 1, ' '); };
        if (l.k == "o") s = "o Obj" + std::to_string(l.a[0]);
        else if (l.k == "v" || l.k == "vc") { s = "v"; for (int x : l.a) s += sp() + num(r, x); }
        else if (l.k == "f") { s = "f"; for (int x : l.a) { s += sp() + std::to_string(x); if (slash == 1) s += "/" + std::to_string(r.range(1, 99)); if (slash == 2) s += "//" + std::to_string(r.range(1, 99)); if (slash == 3) s += "/7/" + std::to_string(r.range(1, 99)); } }
        else {
            static const char *c[] = {"# v 1 2 3", "#", "# comment", "vn 0 1 0", "vt 0.5 0.5", "s off", "usemtl None", "mtllib a.mtl", "g group f 1 2 3", "", "vp 1 2 3", "l 1 2", "fo 1 2 3", "#o x", "ov 1 2 3", "of 3"};
            s = c[r.below(16)];
        }
        if ((l.k == "v" || l.k == "vc" || l.k == "f") && r.chance(1, 8)) s += " ";
        t += s;
        if (crlf) t += "\r";
        if (i + 1 < ls.size() || lastnl) t += "\n";
    }
    return t;
}
static std::string ju(const std::vector<uint32_t> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string((int)v[i]); return s + "]"; }
static std::string jv(const std::vector<vector3> &v, double s) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + js(v[i], s); return o + "]"; }
static int name_of(const std::string &s) { if (s.empty()) return 0; auto p = s.find("Obj"); return p == std::string::npos ? -1 : atoi(s.c_str() + p + 3); }
static std::string jm(const std::vector<obj_mesh> &ms) {
    std::string s = "[";
    for (size_t i = 0; i < ms.size(); ++i) s += std::string(i ? "," : "") + "{\"name\":" + std::to_string(name_of(ms[i].name)) + ",\"v\":" + jv(ms[i].vertices, 200) + ",\"c\":" + jv(ms[i].colors, 8) + ",\"i\":" + ju(ms[i].indices) + ",\"f\":" + ju(ms[i].faces) + "}";
    return s + "]";
}
static std::string tmp;
static void one(out &o, rng &r, const std::vector<line> &ls, const std::vector<rot> &rots, bool poly) {
    std::string t = text(r, ls);
    iv pos = r.below(2) ? ri(r, 9) : iv{0, 0, 0}, scale = r.below(2) ? iv{r.range(1, 4), r.range(1, 4), r.range(1, 4)} : iv{1, 1, 1};
    if (!poly && r.chance(1, 5)) scale.y = -scale.y;
    rot q = r.below(3) ? rots[r.below((int)rots.size())] : rots[0];
    if (!r.below(3)) { int id[3][3] = {{25, 0, 0}, {0, 25, 0}, {0, 0, 25}}; q = make_rot(id); q.q = quaternion_identity; }
    { std::ofstream f(tmp, std::ios::binary); f << t; }
    std::string L = "["; for (size_t i = 0; i < ls.size(); ++i) L += (i ? "," : "") + jline(ls[i]); L += "]";
    auto &e = o.begin(poly ? "poly" : "obj").key("lines").raw(L).key("pos").raw(js(pos)).key("scale").raw(js(scale)).key("rot").raw(geo::jm(q));
    if (poly) {
        std::stringstream ss(t);
        auto ps = r.below(2) ? load_convex_polyhedrons_from_obj(ss, f(pos), q.q, f(scale)) : load_convex_polyhedrons_from_obj(tmp, f(pos), q.q, f(scale));
        std::string s = "[";
        for (size_t i = 0; i < ps.size(); ++i) { auto &m = *ps[i].shape.mesh; s += std::string(i ? "," : "") + "{\"c\":" + js(ps[i].center, 200) + ",\"v\":" + jv(m.vertices, 200) + ",\"i\":" + ju(m.indices) + ",\"f\":" + ju(m.faces) + "}"; }
        e.key("polys").raw(s + "]").kv("compound", ps.size());
        o.endq();
        return;
    }
    std::vector<obj_mesh> ms, fm;
    { std::stringstream ss(t); load_meshes_from_obj(ss, ms, f(pos), q.q, f(scale)); }
    bool hit = load_meshes_from_obj(tmp, fm, f(pos), q.q, f(scale));
    std::vector<obj_mesh> none; bool miss = load_meshes_from_obj(tmp + ".missing", none);
    auto tri = [&](bool file, bool col) {
        std::vector<vector3> v, c; std::vector<uint32_t> i;
        if (file) hit = load_tri_mesh_from_obj(tmp, v, i, col ? &c : nullptr, f(pos), q.q, f(scale)) && hit;
        else { std::stringstream ss(t); load_tri_mesh_from_obj(ss, v, i, col ? &c : nullptr, f(pos), q.q, f(scale)); }
        return "{\"v\":" + jv(v, 200) + ",\"i\":" + ju(i) + ",\"c\":" + jv(c, 8) + "}";
    };
    std::string a = tri(false, true), b = tri(true, true), c = tri(r.below(2), false);
    { std::vector<vector3> v; std::vector<uint32_t> i; miss = load_tri_mesh_from_obj(tmp + ".missing", v, i) || miss || !none.empty(); }
    e.key("meshes").raw(jm(ms)).key("fmeshes").raw(jm(fm)).key("tri").raw(a).key("ftri").raw(b).key("nctri").raw(c).kb("filehit", hit).kb("filemiss", miss);
    o.endq();
}
struct builder {
    rng &r; std::vector<line> ls; int total = 0, own = 0, names = 0;
    void obj() { ls.push_back({"o", {++names}}); if (own) { own = 0; } }
    void v() { ls.push_back({"v", {r.range(-80, 80), r.range(-80, 80), r.range(-80, 80)}}); ++total; ++own; }
    void vc() { ls.push_back({"vc", {r.range(-80, 80), r.range(-80, 80), r.range(-80, 80), r.below(9), r.below(9), r.below(9)}}); ++total; ++own; }
    void f(int n) {
        std::vector<int> p; for (int i = 0; i < own; ++i) p.push_back(total - own + 1 + i);
        for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[r.below((int)i + 1)]);
        p.resize(std::min<size_t>(n, p.size())); ls.push_back({"f", p});
    }
    void x() { ls.push_back({"x", {}}); }
};
int main(int argc, char **argv) {
    auto bs = vdrv::read_behaviours(argv[1]);
    rng r(atoi(argv[2])); int n = atoi(argv[3]);
    out o(argv[4]);
    tmp = std::string(argv[4]) + ".obj";
    auto rots = all_rots();
    for (auto &b : bs) {
        builder w{r};
        for (int k : b) { if (k == 0) w.obj(); else if (k == 1) { w.v(); w.v(); w.v(); } else if (k == 2) w.vc(); else if (k == 3) w.f(3); else if (k == 4) w.f(r.range(4, 6)); else w.x(); }
        one(o, r, w.ls, rots, false);
    }
    for (int i = 0; i < n; ++i) {
        builder w{r};
        for (int k = r.range(5, 40); k > 0; --k) {
            int q = r.below(10);
            if (q == 0) w.obj(); else if (q < 5) { if (r.chance(1, 4)) w.vc(); else w.v(); } else if (q < 8 && w.own >= 3) w.f(r.range(3, 7)); else if (q == 9) w.x();
        }
        one(o, r, w.ls, rots, false);
    }
    for (int i = 0; i < n / 4; ++i) {
        std::vector<line> ls; int off = 1;
        for (int k = r.range(1, 3); k > 0; --k) {
            auto h = rand_hull(r, 3, 9);
            if (off > 1 || r.below(2)) ls.push_back({"o", {k}});
            for (auto &v : h.v) ls.push_back({"v", {8 * v.x, 8 * v.y, 8 * v.z}});
            for (auto &fc : h.faces) { line l{"f", {}}; for (int x : fc) l.a.push_back(x + off); ls.push_back(l); if (r.chance(1, 8)) ls.push_back({"x", {}}); }
            off += (int)h.v.size();
        }
        one(o, r, ls, rots, true);
    }
    unlink(tmp.c_str());
}

// C15: drives paged_triangle_mesh with a loader that answers at once, later, or from files.
#include <entt/entity/registry.hpp>
#include "mesh_gen.hpp"
#include <deque>
#include <sstream>
#include "edyn/parallel/message_dispatcher.hpp"
#include "edyn/parallel/message.hpp"
#include "edyn/shapes/create_paged_triangle_mesh.hpp"
#include "edyn/serialization/paged_triangle_mesh_s11n.hpp"
#include "edyn/util/paged_mesh_load_reporting.hpp"
#include <unistd.h>
using namespace geo;
using namespace edyn;
using steps_t = std::vector<std::vector<int>>;

struct tap {
    message_queue_handle<msg::paged_triangle_mesh_load_page> q =
        message_dispatcher::global().make_queue<msg::paged_triangle_mesh_load_page>(internal::paged_mesh_load_queue_identifier);
    std::vector<int> got;
    paged_triangle_mesh *mesh = nullptr;
    tap() { q.sink<msg::paged_triangle_mesh_load_page>().connect<&tap::on>(*this); }
    void on(message<msg::paged_triangle_mesh_load_page> &m) { got.push_back(m.content.trimesh == mesh ? (int)m.content.mesh_index + 1 : -1); }
    std::vector<int> drain() { q.update(); auto g = got; got.clear(); return g; }
};

struct loader : triangle_mesh_page_loader_base {
    tap &t;
    std::vector<std::shared_ptr<triangle_mesh>> store;
    std::deque<size_t> pending;
    bool sync = true;
    steps_t steps;
    triangle_mesh_page_loader_base *file = nullptr;
    loader(tap &t) : t(t) {}
    void load(paged_triangle_mesh *m, size_t i) override {
        for (int x : t.drain()) steps.push_back({2, x});
        steps.push_back({1, (int)i + 1});
        if (file) { file->load(m, i); for (int x : t.drain()) steps.push_back({3, x}); }
        else if (sync) { m->assign_mesh(i, std::make_shared<triangle_mesh>(*store[i])); for (int x : t.drain()) steps.push_back({3, x}); }
        else pending.push_back(i);
    }
};

static std::vector<long long> tri_rec(const triangle_mesh &m, size_t k, const std::vector<std::array<long long, 3>> *cols) {
    std::vector<long long> v;
    auto put = [&](const vector3 &a, double s) { v.push_back(sc(a.x, s)); v.push_back(sc(a.y, s)); v.push_back(sc(a.z, s)); };
    for (auto &p : m.get_triangle_vertices(k)) put(p, 8);
    put(m.get_triangle_normal(k), 1000);
    for (int i = 0; i < 3; ++i) put(m.get_adjacent_face_normal(k, i), 1000);
    for (int i = 0; i < 3; ++i) v.push_back(m.is_convex_edge(m.get_face_edge_index(k, i)));
    for (int i = 0; i < 3; ++i) {
        auto ix = m.get_face_vertex_index(k, i);
        if (cols) { if (!cols->empty()) for (auto x : (*cols)[ix]) v.push_back(x); }
        else if (m.has_per_vertex_friction()) {
            v.push_back(sc(m.get_vertex_friction(ix))); v.push_back(sc(m.get_vertex_restitution(ix))); v.push_back((long long)m.get_vertex_material_id(ix));
        }
    }
    return v;
}
static std::string jr(const std::vector<std::vector<long long>> &r) {
    std::string s = "[";
    for (auto &x : r) { if (s.size() > 1) s += ","; s += "["; for (size_t i = 0; i < x.size(); ++i) { if (i) s += ","; s += std::to_string(x[i]); } s += "]"; }
    return s + "]";
}
static std::string tris_of(const triangle_mesh &m) {
    std::vector<std::vector<long long>> r;
    for (size_t k = 0; k < m.num_triangles(); ++k) r.push_back(tri_rec(m, k, nullptr));
    return jr(r);
}
static iv x8(iv a) { return {8 * a.x, 8 * a.y, 8 * a.z}; }

struct world {
    out &o; rng &r; tap &t;
    std::shared_ptr<loader> ld;
    std::shared_ptr<paged_triangle_mesh> pm;
    bool hascol;
    size_t npages = 0;
    size_t vmax = 0, vtot = 0;
    void obs() {
        std::vector<int> l; std::vector<long long> th;
        for (size_t i = 0; i < pm->num_submeshes(); ++i) if (auto m = pm->get_submesh(i)) { l.push_back((int)i + 1); th.push_back(sc(m->get_thickness(), 8)); }
        bool f = pm->has_per_vertex_friction(), g = pm->has_per_vertex_restitution(), h = pm->has_per_vertex_material_id();
        o.arr("ld", l).arr("th", th).kv("gt", sc(pm->get_thickness(), 8)).kv("nv", (long long)pm->cache_num_vertices()).kb("hascol", hascol).key("col");
        o.raw(f == g && g == h ? (f ? "true" : "false") : "\"mixed\"").endq();
    }
    void header(const imesh &m, const std::vector<std::array<long long, 3>> &cols, int maxtri, bool all) {
        triangle_mesh g; build_mesh(m, g);
        std::vector<std::vector<long long>> full;
        for (size_t k = 0; k < g.num_triangles(); ++k) full.push_back(tri_rec(g, k, &cols));
        o.begin("mesh").kv("max", maxtri).kv("lim", (long long)pm->m_max_cache_num_vertices).kv("thick", sc(pm->get_thickness(), 8)).kb("all", all);
        o.key("full").raw(jr(full)).key("pages").raw("[");
        for (size_t i = 0; i < ld->store.size(); ++i) {
            o.raw(i ? ",{\"nv\":" : "{\"nv\":").raw(std::to_string(ld->store[i]->num_vertices())).raw(",\"tris\":").raw(tris_of(*ld->store[i])).raw("}");
        }
        o.raw("]");
        obs();
    }
    void query(int kind, iv a, iv b) {     // a, b in eighths
        auto lo = f(a) / 8, hi = f(b) / 8;
        steps_t seen;
        auto see = [&](size_t m, size_t k) { seen.push_back({(int)m + 1, (int)k + 1}); };
        ld->steps.clear();
        bool ray = kind == 2 || kind == 4;
        switch (kind) {
        case 0: pm->visit_triangles({lo, hi}, see); break;
        case 1: pm->visit_submeshes({lo, hi}, [&](size_t m) { seen.push_back({(int)m + 1, 0}); }); break;
        case 2: pm->raycast(lo, hi, see); break;
        case 3: pm->visit_cached_triangles({lo, hi}, see); break;
        case 4: pm->raycast_cached(lo, hi, see); break;
        }
        for (int x : t.drain()) ld->steps.push_back({kind < 3 ? 2 : 9, x});
        o.begin(kind < 3 ? "visit" : "look").ks("q", ray ? "ray" : "box").key("a").raw(js(a)).key("b").raw(js(b)).kb("whole", kind == 1);
        o.arr2("steps", ld->steps).arr2("seen", seen);
        obs();
    }
    void all() {
        steps_t seen, ed;
        pm->visit_all_cached_triangles([&](size_t m, size_t k) { seen.push_back({(int)m + 1, (int)k + 1}); });
        pm->visit_all_cached_edges([&](size_t m, size_t k) { ed.push_back({(int)m + 1, (int)k + 1}); });
        o.begin("all").arr2("seen", seen).arr2("edges", ed); obs();
    }
    // attributes at a point inside a triangle of a cached page
    void point() {
        std::vector<size_t> l;
        for (size_t i = 0; i < pm->num_submeshes(); ++i) if (pm->get_submesh(i)) l.push_back(i);
        if (l.empty() || !hascol) return;
        size_t i = l[r.below((int)l.size())];
        auto m = pm->get_submesh(i);
        size_t k = r.below((int)m->num_triangles());
        std::array<int, 3> bc{1, 1, 1};
        bc[r.below(3)] = 2;
        auto tv = m->get_triangle_vertices(k);
        auto p = (tv[0] * scalar(bc[0]) + tv[1] * scalar(bc[1]) + tv[2] * scalar(bc[2])) / 4;
        auto mi = pm->get_material_id(p);
        std::vector<std::vector<long long>> inf;
        for (auto &x : mi) inf.push_back({(long long)x.id, sc(x.fraction)});
        o.begin("point").kv("i", (int)i + 1).kv("k", (int)k + 1).arr("bc", bc).kv("f", sc(pm->get_friction(p))).kv("r", sc(pm->get_restitution(p))).key("m").raw(jr(inf));
        obs();
    }
    void arrive(size_t k) {
        size_t i = ld->pending[k];
        ld->pending.erase(ld->pending.begin() + k);
        pm->assign_mesh(i, std::make_shared<triangle_mesh>(*ld->store[i]));
        o.begin("arrive").kv("i", (int)i + 1).arr("msgs", t.drain()); obs();
    }
    void content() {
        for (size_t i = 0; i < pm->num_submeshes(); ++i) if (auto m = pm->get_submesh(i)) o.begin("content").kv("i", (int)i + 1).key("tris").raw(tris_of(*m)).endq();
    }
    void rand_box(iv &a, iv &b) {
        // mostly small boxes, never on the grid of the vertices
        auto c = ri(r, 4); int s = r.chance(1, 4) ? r.range(0, 6) : r.below(2);
        a = {8 * c.x - 4, 8 * c.y - 4 - 8 * r.below(3), 8 * c.z - 4};
        b = {a.x + 8 * (s + 1), a.y + 8 * (s + 4), a.z + 8 * (s + 1)};
    }
    void step(bool files) {
        iv a, b; rand_box(a, b);
        int k = r.below(20);
        if (!ld->sync && !ld->pending.empty() && k < 6) { arrive(r.below((int)ld->pending.size())); return; }
        if (k < 10) query(r.below(2), a, b);
        else if (k < 12) { auto p = ri(r, 5), q = ri(r, 5); p = x8(p); q = x8(q); p.x += 3; p.y += 1; q.z += 5; query(r.chance(1, 2) ? 2 : 4, p, q); }
        else if (k < 14) query(3, a, b);
        else if (k == 14) { all(); point(); }
        else if (k == 15) { pm->clear_cache(); t.drain(); o.begin("clear"); obs(); }
        else if (k == 16) { int v = r.range(1, 40); pm->set_thickness(scalar(v) / 8); o.begin("thick").kv("t", v); obs(); }
        else if (k == 17) { pm->m_max_cache_num_vertices = r.range((int)vmax + 1, (int)vtot + 2); o.begin("limit").kv("lim", (long long)pm->m_max_cache_num_vertices); obs(); }
        else if (files) content();
        else query(0, a, b);
    }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    rng r(atoi(argv[1]));
    int runs = atoi(argv[2]);
    out o(argv[4]);
    std::string dir = argv[3];
    for (int n = 0; n < runs; ++n) {
        tap t;
        imesh m;
        do m = rand_mesh(r, 6); while (m.t.size() < 4);
        // vertices no triangle uses are dropped so that counts are comparable
        {
            std::vector<int> id(m.v.size(), -1); std::vector<iv> v;
            for (auto &x : m.t) for (auto &i : x) { if (id[i] < 0) { id[i] = (int)v.size(); v.push_back(m.v[i]); } i = id[i]; }
            m.v = v;
            // coincident vertices would be counted once
            bool dup = false;
            for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (v[i].x == v[j].x && v[i].y == v[j].y && v[i].z == v[j].z) dup = true;
            if (dup) { --n; continue; }
        }
        std::vector<vector3> v; for (auto &x : m.v) v.push_back(f(x));
        std::vector<uint32_t> ix; for (auto &x : m.t) for (int i : x) ix.push_back(i);
        bool hascol = r.chance(1, 2);
        std::vector<vector3> colors; std::vector<std::array<long long, 3>> cols;
        int sx = r.range(1, 3), sy = r.range(1, 3);
        if (hascol) for (size_t i = 0; i < v.size(); ++i) {
            int a = r.range(0, 4), b = r.range(0, 4), c = r.range(0, 255);
            colors.push_back({scalar(a) / 4, scalar(b) / 4, scalar(c) / 255});
            cols.push_back({250 * a * sx, 250 * b * sy, c});
        }
        int maxtri = r.range(1, 4);
        auto ldr = std::make_shared<loader>(t);
        auto pm = std::make_shared<paged_triangle_mesh>(ldr);
        t.mesh = pm.get();
        if (r.chance(1, 3)) pm->set_thickness(scalar(r.range(1, 20)) / 8);
        // create_paged_triangle_mesh runs its tasks through a given function or directly
        static enqueue_task_wait_t *direct = [](task_delegate_t task, unsigned size) {
            unsigned h = size / 2; if (h) task(0, h); if (h < size) task(h, size);
        };
        create_paged_triangle_mesh(*pm, v.begin(), v.end(), ix.begin(), ix.end(), maxtri, colors, {scalar(sx), scalar(sy), 1}, r.chance(1, 2) ? direct : nullptr);
        for (size_t i = 0; i < pm->num_submeshes(); ++i) {
            auto s = pm->get_submesh(i);
            ldr->store.push_back(s ? std::make_shared<triangle_mesh>(*s) : std::make_shared<triangle_mesh>());
        }
        world w{o, r, t, ldr, pm, hascol};
        for (auto &s : ldr->store) { w.vmax = std::max(w.vmax, s->num_vertices()); w.vtot += s->num_vertices(); }
        pm->m_max_cache_num_vertices = r.chance(1, 4) ? w.vtot + 5 : r.range((int)w.vmax + 1, (int)std::max(w.vtot, w.vmax + 1));
        ldr->sync = r.chance(1, 2);
        o.reset();
        w.header(m, cols, maxtri, true);
        int files = r.below(4);      // 2: embedded, 3: external
        std::shared_ptr<paged_triangle_mesh_file_input_archive> in;
        std::string path = dir + (r.chance(1, 2) ? "/m.bin" : "/m");
        if (files >= 2) {
            auto mode = files == 2 ? paged_triangle_mesh_serialization_mode::embedded : paged_triangle_mesh_serialization_mode::external;
            {
                paged_triangle_mesh_file_output_archive oa(path, mode);
                serialize(oa, *pm);
            }
            in = std::make_shared<paged_triangle_mesh_file_input_archive>(path, nullptr);
            auto pm2 = std::make_shared<paged_triangle_mesh>(ldr);
            serialize(*in, *pm2);
            pm2->m_max_cache_num_vertices = pm->m_max_cache_num_vertices;
            ldr->file = in.get();
            w.pm = pm2; t.mesh = pm2.get();
            ldr->sync = true;
            o.reset();
            w.header(m, cols, maxtri, false);
        } else if (r.chance(1, 2)) { pm->clear_cache(); o.begin("clear"); w.obs(); }
        for (int k = 0; k < 25; ++k) w.step(files >= 2);
        w.content();
        if (files >= 2) {
            for (size_t i = 0; i < w.pm->num_submeshes(); ++i) unlink(get_submesh_path(path, i).c_str());
            unlink(path.c_str());
        }
    }
}

// C12: drives edyn::dynamic_tree through create/move/destroy/clear histories with box and ray queries after each step.
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/collision/dynamic_tree.hpp"
using namespace edyn;
using vdrv::out;
struct ib { int lo[3], hi[3]; };      // halves
static AABB ab(const ib &b) {
    return {{b.lo[0] / scalar(2), b.lo[1] / scalar(2), b.lo[2] / scalar(2)}, {b.hi[0] / scalar(2), b.hi[1] / scalar(2), b.hi[2] / scalar(2)}};
}
static std::string p3(const int *p) { return "[" + std::to_string(p[0] * 50) + "," + std::to_string(p[1] * 50) + "," + std::to_string(p[2] * 50) + "]"; }
static std::string f3(const vector3 &v) { return "[" + std::to_string(vdrv::sc(v.x, 100)) + "," + std::to_string(vdrv::sc(v.y, 100)) + "," + std::to_string(vdrv::sc(v.z, 100)) + "]"; }
static std::string bs(const ib &b) { return "[" + p3(b.lo) + "," + p3(b.hi) + "]"; }
static std::string bs(const AABB &b) { return "[" + f3(b.min) + "," + f3(b.max) + "]"; }
struct run {
    out &o; vdrv::rng &r; dynamic_tree t;
    struct lf { tree_node_id_t id; ib box; };
    std::vector<lf> leaves; int next = 1, span, nq;
    run(out &o_, vdrv::rng &r_, int span_, int nq_) : o(o_), r(r_), span(span_), nq(nq_) { o.reset(); }
    void all() {
        std::string s = "[";
        for (auto &l : leaves) {
            auto &n = t.get_node(l.id);
            s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string(l.id) + "," + std::to_string(n.leaf() ? (long long)(uint32_t)n.entity : -1) + "," + bs(n.aabb) + "]";
        }
        o.key("all").raw(s + "]").endq();
        for (int i = 0; i < nq; ++i) query();
        for (auto &l : leaves) if (r.chance(1, 3)) qbox(l.box);
    }
    std::string vis(const std::vector<tree_node_id_t> &v) {
        std::string s = "[";
        for (auto id : v) { auto &n = t.get_node(id); s += (s.size() > 1 ? "," : "") + std::string("[") + std::to_string(id) + "," + std::to_string((long long)(uint32_t)n.entity) + "]"; }
        return s + "]";
    }
    void qbox(const ib &b) {
        std::vector<tree_node_id_t> v;
        t.query(ab(b), [&](tree_node_id_t id) { v.push_back(id); });
        o.begin("q").key("box").raw(bs(b)).key("v").raw(vis(v)).endq();
    }
    ib rbox() {
        ib b;
        for (int k = 0; k < 3; ++k) { b.lo[k] = r.range(-span, span); b.hi[k] = b.lo[k] + r.range(0, r.chance(1, 8) ? span : 3); }
        return b;
    }
    void query() {
        if (r.chance(1, 2)) { auto b = rbox(); if (r.chance(1, 10)) for (int k = 0; k < 3; ++k) { b.lo[k] = -3 * span; b.hi[k] = 3 * span; } qbox(b); return; }
        int p[3], q[3];
        for (int k = 0; k < 3; ++k) { p[k] = r.range(-span - 2, span + 4); q[k] = r.chance(1, 3) ? p[k] : r.range(-span - 2, span + 4); }
        std::vector<tree_node_id_t> v;
        t.raycast({p[0] / scalar(2), p[1] / scalar(2), p[2] / scalar(2)}, {q[0] / scalar(2), q[1] / scalar(2), q[2] / scalar(2)}, [&](tree_node_id_t id) { v.push_back(id); });
        o.begin("r").key("p").raw(p3(p)).key("q").raw(p3(q)).key("v").raw(vis(v)).endq();
    }
    void create(const ib &b) {
        int e = next++;
        auto id = t.create(ab(b), entt::entity(e));
        leaves.push_back({id, b});
        o.begin("c").kv("id", id).kv("ent", e).key("box").raw(bs(b)).key("st").raw(bs(t.get_node(id).aabb)); all();
    }
    void move(size_t k, const ib &b) {
        auto &l = leaves[k]; l.box = b;
        bool m = t.move(l.id, ab(b));
        o.begin("m").kv("id", l.id).key("box").raw(bs(b)).key("st").raw(bs(t.get_node(l.id).aabb)).kb("moved", m); all();
    }
    void destroy(size_t k) {
        auto id = leaves[k].id; t.destroy(id); leaves.erase(leaves.begin() + k);
        o.begin("d").kv("id", id); all();
    }
    void clear() { t.clear(); leaves.clear(); o.begin("x"); all(); }
};
static ib at(int x, int y, int z, int s) { return {{x, y, z}, {x + s, y + s, z + s}}; }
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = vdrv::read_behaviours(argv[1]);
    vdrv::rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    out o(argv[4]);
    for (auto &b : beh) {
        run x(o, r, 8, 1);
        for (int k = 0; k < b[1]; ++k) x.create(at(3 * k, 0, 0, 1));
        for (size_t i = 3; i + 2 < b.size(); i += 3) {
            int a = b[i + 1], p = b[i + 2];
            switch (b[i]) {
            case 1: x.create(at(a == 0 ? -5 : a == 1 ? 3 : 3 * (int)x.leaves.size(), a == 1 ? 1 : 0, 0, 1)); break;
            case 2: { ib q = x.leaves[a].box; int d = p ? 7 : 1; q.lo[0] -= d; q.hi[0] -= d; x.move(a, q); break; }
            case 3: x.destroy(a); break;
            case 4: x.clear(); break;
            }
        }
        fflush(o.f);
    }
    for (int it = 0; it < n; ++it) {
        run x(o, r, r.range(3, 14), r.range(1, 3));
        int target = r.range(1, r.chance(1, 5) ? 40 : 14), mode = r.below(4);
        int steps = target > 14 ? 120 : 50;
        for (int s = 0; s < steps; ++s) {
            int p = r.below(100), m = (int)x.leaves.size();
            if (p == 0 && r.chance(1, 3)) x.clear();
            else if (m > 0 && p < 45) {
                int k = r.below(m); ib b = x.leaves[k].box;
                if (r.chance(1, 3)) b = x.rbox();
                else for (int a = 0; a < 3; ++a) { int d = r.range(-2, 2); b.lo[a] += d; b.hi[a] += d; }
                if (r.chance(1, 4)) b.hi[r.below(3)] += 1;          // grows
                if (r.chance(1, 8)) b = x.leaves[k].box;            // unchanged
                x.move(k, b);
            } else if (m > 0 && (m > target ? p < 85 : p < 60)) x.destroy(r.chance(1, 2) ? r.below(m) : (mode & 1 ? m - 1 : 0));
            else x.create(mode == 2 ? at(2 * s, 0, 0, 1) : mode == 3 ? at(-s, s, 0, 2) : x.rbox());
        }
        fflush(o.f);
    }
}

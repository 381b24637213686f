// C11: builds static trees over boxes with small integer coordinates, dumps them and queries them.
#include "vdrv.hpp"
#include <edyn/collision/static_tree.hpp>
#include <map>
#include <cmath>
#include <algorithm>
using namespace edyn;
using vdrv::out;
struct ibox { int lo[3], hi[3]; };
static AABB to_aabb(const ibox &b) {
    return {{scalar(b.lo[0]), scalar(b.lo[1]), scalar(b.lo[2])}, {scalar(b.hi[0]), scalar(b.hi[1]), scalar(b.hi[2])}};
}
static std::string v3(const int *p) { return "[" + std::to_string(p[0]) + "," + std::to_string(p[1]) + "," + std::to_string(p[2]) + "]"; }
static std::string v3(const vector3 &v) {
    return "[" + std::to_string(vdrv::sc(v.x, 1)) + "," + std::to_string(vdrv::sc(v.y, 1)) + "," + std::to_string(vdrv::sc(v.z, 1)) + "]";
}
static void one(out &o, vdrv::rng &r, static_tree &tree, const std::vector<ibox> &boxes, uint32_t max_obj, int span, int nq) {
    std::vector<AABB> aabbs;
    for (auto &b : boxes) aabbs.push_back(to_aabb(b));
    std::vector<std::vector<int>> leaves;
    auto report = [&](static_tree::tree_node &node, auto b, auto e) {
        node.id = leaves.size();
        leaves.emplace_back(b, e);
    };
    tree.build(aabbs.begin(), aabbs.end(), report, max_obj);
    o.begin("build").kv("max", max_obj).kb("empty", tree.empty());
    o.key("boxes"); std::string s = "[";
    for (auto &b : boxes) s += (s.size() > 1 ? "," : "") + std::string("[") + v3(b.lo) + "," + v3(b.hi) + "]";
    o.raw(s + "]").arr2("leaves", leaves);
    o.key("root").raw("[" + v3(tree.root_aabb().min) + "," + v3(tree.root_aabb().max) + "]");
    // Dump in depth-first order.
    struct rec { AABB b; size_t c1, c2, leaf; };
    std::vector<rec> dump;
    struct walker {
        std::vector<rec> &d; const static_tree &t; size_t limit;
        size_t go(uint32_t id) {
            if (d.size() > limit) return limit + 10;
            auto &n = t.get_node(id);
            size_t at = d.size();
            d.push_back({n.aabb, 0, 0, 0});
            if (n.leaf()) d[at].leaf = size_t(n.id) + 1;
            else { auto a = go(n.child1); d[at].c1 = a; auto b = go(n.child2); d[at].c2 = b; }
            return at + 1;
        }
    } w{dump, tree, boxes.size() * 2 + 4};
    w.go(0);
    s = "[";
    for (auto &n : dump)
        s += (s.size() > 1 ? "," : "") + std::string("[") + v3(n.b.min) + "," + v3(n.b.max) + "," + std::to_string(n.c1) + "," +
             std::to_string(n.c2) + "," + std::to_string(n.leaf) + "]";
    o.key("nodes").raw(s + "]").end();
    for (int i = 0; i < nq; ++i) {
        int p[3], q[3];
        for (int k = 0; k < 3; ++k) { p[k] = r.range(-1, span + 1); q[k] = r.chance(1, 4) ? p[k] : r.range(-1, span + 1); }
        std::vector<int> vis;
        if (i % 2) {
            tree.raycast({scalar(p[0]), scalar(p[1]), scalar(p[2])}, {scalar(q[0]), scalar(q[1]), scalar(q[2])},
                         [&](auto id) { vis.push_back(tree.get_node(id).id + 1); });
            o.begin("ray").key("p").raw(v3(p)).key("q").raw(v3(q)).arr("v", vis).end();
        } else {
            for (int k = 0; k < 3; ++k) if (p[k] > q[k]) std::swap(p[k], q[k]);
            tree.query({{scalar(p[0]), scalar(p[1]), scalar(p[2])}, {scalar(q[0]), scalar(q[1]), scalar(q[2])}},
                       [&](auto id) { vis.push_back(tree.get_node(id).id + 1); });
            o.begin("query").key("lo").raw(v3(p)).key("hi").raw(v3(q)).arr("v", vis).end();
        }
    }
}
// Deep trees: degenerate boxes at powers of two along the axes, so that every split separates one of them. Only the order
// of coordinates matters to box queries, thus +-2^e is recorded as +-(e + 200).
static int enc(scalar x) { return x == 0 ? 0 : (x > 0 ? 1 : -1) * (std::ilogb(x) + 200); }
static scalar dec(int x) { return x == 0 ? scalar(0) : (x > 0 ? 1 : -1) * std::ldexp(scalar(1), std::abs(x) - 200); }
static std::string e3(const vector3 &v) { return "[" + std::to_string(enc(v.x)) + "," + std::to_string(enc(v.y)) + "," + std::to_string(enc(v.z)) + "]"; }
static std::string ebox(const AABB &b) { return "[" + e3(b.min) + "," + e3(b.max) + "]"; }
static void deep(out &o, vdrv::rng &r, int axes, int levels, int sign, uint32_t max_obj, int nq) {
    o.reset();
    std::vector<AABB> b;
    for (int e = 0; e < levels; ++e)
        for (int k = 0; k < 3; ++k) {
            if (!(axes >> k & 1)) continue;
            vector3 p = vector3_zero; p[k] = dec(sign * (e + 200 - levels / 2));
            b.push_back({p, p});
        }
    b.push_back({vector3_zero, vector3_zero});
    for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[r.below(i)]);
    static_tree tree;
    std::vector<std::vector<int>> leaves;
    auto report = [&](static_tree::tree_node &node, auto f, auto l) { node.id = leaves.size(); leaves.emplace_back(f, l); };
    tree.build(b.begin(), b.end(), report, max_obj);
    o.begin("build").kv("max", max_obj).kb("empty", tree.empty());
    o.key("boxes"); std::string s = "[";
    for (auto &x : b) s += (s.size() > 1 ? "," : "") + ebox(x);
    o.raw(s + "]").arr2("leaves", leaves);
    o.key("root").raw(ebox(tree.root_aabb()));
    struct rec { AABB b; size_t c1, c2, leaf; };
    std::vector<rec> dump;
    struct walker {
        std::vector<rec> &d; const static_tree &t; size_t limit;
        size_t go(uint32_t id) {
            if (d.size() > limit) return limit + 10;
            auto &n = t.get_node(id);
            size_t at = d.size();
            d.push_back({n.aabb, 0, 0, 0});
            if (n.leaf()) d[at].leaf = size_t(n.id) + 1;
            else { auto a = go(n.child1); d[at].c1 = a; auto c = go(n.child2); d[at].c2 = c; }
            return at + 1;
        }
    } w{dump, tree, b.size() * 2 + 4};
    w.go(0);
    s = "[";
    for (auto &n : dump)
        s += (s.size() > 1 ? ",[" : "[") + e3(n.b.min) + "," + e3(n.b.max) + "," + std::to_string(n.c1) + "," + std::to_string(n.c2) + "," + std::to_string(n.leaf) + "]";
    o.key("nodes").raw(s + "]").end();
    for (int i = 0; i < nq; ++i) {
        AABB q = tree.root_aabb();
        if (i) for (int k = 0; k < 3; ++k) {
            auto a = r.chance(1, 3) ? scalar(0) : dec(sign * r.range(200 - levels / 2, 200 + levels / 2)), c = r.chance(1, 3) ? scalar(0) : dec(sign * r.range(200 - levels / 2, 200 + levels / 2));
            q.min[k] = std::min(a, c); q.max[k] = std::max(a, c);
        }
        std::vector<int> vis;
        tree.query(q, [&](auto id) { vis.push_back(tree.get_node(id).id + 1); });
        o.begin("query").key("lo").raw(e3(q.min)).key("hi").raw(e3(q.max)).arr("v", vis).end();
    }
}
static void fresh(out &o, vdrv::rng &r, const std::vector<ibox> &b, uint32_t m, int span, int nq) {
    o.reset();
    static_tree t;
    one(o, r, t, b, m, span, nq);
    if (r.chance(1, 4)) {                              // clear and build again with fewer boxes
        t.clear();
        o.begin("clear").kb("empty", t.empty()).end();
        auto c = b; c.resize((b.size() + 1) / 2);
        one(o, r, t, c, m, span, nq / 2);
    }
}
int main(int argc, char **argv) {
    if (argc != 4) return 3;
    vdrv::rng r(atoi(argv[1]));
    int n = atoi(argv[2]);
    out o(argv[3]);
    // All multisets of up to 4 intervals on a line of 3 cells (times a fixed cross section).
    std::vector<ibox> iv;
    for (int a = 0; a <= 3; ++a) for (int b = a; b <= 3; ++b) iv.push_back({{a, 0, 0}, {b, 1, 0}});
    for (size_t i = 0; i < iv.size(); ++i)
        for (size_t j = i; j < iv.size(); ++j)
            for (size_t k = j; k < iv.size(); ++k) {
                fresh(o, r, {iv[k], iv[i], iv[j]}, 1, 3, 4);
                if ((i + j + k) % 3 == 0) fresh(o, r, {iv[j], iv[k], iv[i], iv[(i + j) % iv.size()]}, 1 + (i % 3), 3, 4);
            }
    for (int axes : {1, 2, 4, 3, 7}) for (int sign : {-1, 1}) for (int mo : {1, 2}) deep(o, r, axes, axes == 7 ? 60 : axes == 3 ? 40 : 100, sign, mo, 3);
    for (int it = 0; it < n; ++it) {
        int cnt = r.chance(1, 20) ? r.range(10, 40) : r.range(1, 9), span = r.range(1, 8), axes = r.range(1, 7);
        std::vector<ibox> bs;
        for (int i = 0; i < cnt; ++i) {
            if (!bs.empty() && r.chance(1, 6)) { bs.push_back(bs[r.below(bs.size())]); continue; }
            ibox b;
            for (int k = 0; k < 3; ++k) {
                if (!(axes >> k & 1)) { b.lo[k] = b.hi[k] = 0; continue; }
                b.lo[k] = r.range(0, span); b.hi[k] = r.chance(1, 3) ? b.lo[k] : r.range(b.lo[k], span);
            }
            bs.push_back(b);
        }
        fresh(o, r, bs, r.range(1, 4), span, 12);
    }
}

// C08: drives edyn::entity_graph through edit histories and logs everything it reports after each step.
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/core/entity_graph.hpp"
#include <algorithm>
using namespace vdrv;
using edyn::entity_graph;
using idx = entity_graph::index_type;
static entt::entity en(int v) { return entt::entity(v); }
static long long vi(entt::entity e) { return (long long)(uint32_t)e; }
template<typename C> static std::string list(const C &c) {
    std::string s = "[";
    for (auto &x : c) s += (s.size() > 1 ? "," : "") + std::to_string((long long)x);
    return s + "]";
}
struct run {
    out &o; rng &r;
    entity_graph g;
    struct nd { idx i; bool con; };
    std::vector<nd> nodes;
    std::vector<idx> edges;
    int next_ent = 1;
    bool quiet = false;
    run(out &o_, rng &r_) : o(o_), r(r_) { o.reset(); }
    void observe() {
        std::string s = "{\"nn\":" + std::to_string(g.num_nodes()) + ",\"ne\":" + std::to_string(g.num_edges()) + ",\"nodes\":[";
        bool sep = false;
        for (auto &n : nodes) {
            std::vector<long long> nb, tn, tm, te; std::vector<idx> ed;
            int nb1 = 0, ed1 = 0;
            g.visit_neighbors(n.i, [&](entt::entity e) { nb.push_back(vi(e)); });
            g.visit_neighbors(n.i, [&](entt::entity) { ++nb1; return false; });
            g.visit_edges(n.i, [&](idx e) { ed.push_back(e); });
            g.visit_edges(n.i, [&](idx) { ++ed1; return false; });
            g.traverse(n.i, [&](idx k) { tn.push_back(k); });
            g.traverse(n.i, [&](idx k) { tm.push_back(k); }, [&](idx k) { te.push_back(k); });
            s += std::string(sep ? "," : "") + "{\"i\":" + std::to_string(n.i) + ",\"ent\":" + std::to_string(vi(g.node_entity(n.i))) +
                 ",\"con\":" + (g.is_connecting_node(n.i) ? "true" : "false") + ",\"nb\":" + list(nb) + ",\"ed\":" + list(ed) +
                 ",\"nb1\":" + std::to_string(nb1) + ",\"ed1\":" + std::to_string(ed1) +
                 ",\"tn\":" + list(tn) + ",\"tm\":" + list(tm) + ",\"te\":" + list(te) + "}";
            sep = true;
        }
        s += "],\"pairs\":["; sep = false;
        for (auto &a : nodes) for (auto &b : nodes) {
            if (nodes.size() > 5 && !r.chance(1, 4)) continue;
            std::vector<idx> ed; int ed1 = 0;
            g.visit_edges(a.i, b.i, [&](idx e) { ed.push_back(e); });
            g.visit_edges(a.i, b.i, [&](idx) { ++ed1; return false; });
            s += std::string(sep ? "," : "") + "{\"a\":" + std::to_string(a.i) + ",\"b\":" + std::to_string(b.i) +
                 ",\"has\":" + (g.has_adjacency(a.i, b.i) ? "true" : "false") + ",\"ed\":" + list(ed) + ",\"ed1\":" + std::to_string(ed1) + "}";
            sep = true;
        }
        s += "],\"edges\":["; sep = false;
        for (auto e : edges) {
            auto ab = g.edge_node_indices(e);
            auto ents = g.edge_node_entities(e);
            std::vector<long long> ev{vi(ents.first), vi(ents.second)};
            s += std::string(sep ? "," : "") + "{\"i\":" + std::to_string(e) + ",\"ent\":" + std::to_string(vi(g.edge_entity(e))) +
                 ",\"ab\":" + list(ab) + ",\"ents\":" + list(ev) + "}";
            sep = true;
        }
        s += "],\"comps\":["; sep = false;
        auto ents = [](const std::vector<entt::entity> &v) { std::vector<long long> w; for (auto e : v) w.push_back(vi(e)); return list(w); };
        for (auto &c : g.connected_components()) {
            s += std::string(sep ? "," : "") + "{\"n\":" + ents(c.nodes) + ",\"e\":" + ents(c.edges) + "}";
            sep = true;
        }
        s += std::string("],\"single\":") + (nodes.empty() || g.is_single_connected_component() ? "true" : "false") + ",\"reach\":["; sep = false;
        for (int t = 0; t < 2; ++t) {
            std::vector<idx> from, allow;
            for (auto &n : nodes) {
                if (n.con && r.chance(1, 2)) from.insert(from.begin() + (from.empty() ? 0 : r.below((int)from.size() + 1)), n.i);
                if (t == 0 || r.chance(2, 3)) allow.push_back(n.i);
            }
            if (from.empty()) continue;
            std::string cs = "["; std::vector<entt::entity> vn, ve;
            g.reach(from.begin(), from.end(), [&](entt::entity e) { vn.push_back(e); }, [&](entt::entity e) { ve.push_back(e); },
                    [&](idx i) { return std::find(allow.begin(), allow.end(), i) != allow.end(); },
                    [&]() { cs += std::string(cs.size() > 1 ? "," : "") + "{\"n\":" + ents(vn) + ",\"e\":" + ents(ve) + "}"; vn.clear(); ve.clear(); });
            s += std::string(sep ? "," : "") + "{\"from\":" + list(from) + ",\"allow\":" + list(allow) + ",\"comps\":" + cs + "]}";
            sep = true;
        }
        s += "]}";
        o.key("v").raw(s).endq();
    }
    void in(bool con) {
        int e = next_ent++;
        idx i = con && r.chance(1, 2) ? g.insert_node(en(e)) : g.insert_node(en(e), !con);
        nodes.push_back({i, con});
        o.begin("in").kv("i", i).kv("ent", e).kb("con", con); observe();
    }
    void rn(size_t k) { auto i = nodes[k].i; g.remove_node(i); nodes.erase(nodes.begin() + k); o.begin("rn").kv("i", i); observe(); }
    bool bare(size_t k) { bool b = true; g.visit_edges(nodes[k].i, [&](idx) { b = false; }); return b; }
    void ie(size_t a, size_t b) {
        int e = next_ent++;
        auto i = g.insert_edge(en(e), nodes[a].i, nodes[b].i);
        edges.push_back(i);
        o.begin("ie").kv("i", i).kv("ent", e).kv("a", nodes[a].i).kv("b", nodes[b].i); observe();
    }
    void re(size_t k) { auto i = edges[k]; g.remove_edge(i); edges.erase(edges.begin() + k); o.begin("re").kv("i", i); observe(); }
    void drop(idx n) {      // forget the edges of n (as known to the driver)
        std::vector<idx> keep;
        for (auto e : edges) { auto ab = g.edge_node_indices(e); if (ab[0] != n && ab[1] != n) keep.push_back(e); }
        edges = keep;
    }
    void ra(size_t k) { auto i = nodes[k].i; drop(i); g.remove_all_edges(i); o.begin("ra").kv("i", i); observe(); }
    void rv(size_t k) {
        auto i = nodes[k].i; drop(i);
        std::vector<idx> seen;
        g.visit_edges(i, [&](idx e) { seen.push_back(e); g.remove_edge(e); });
        o.begin("rv").kv("i", i).arr("seen", seen); observe();
    }
    void sc(size_t k) { auto &n = nodes[k]; n.con = !n.con; g.set_connecting_node(n.i, n.con); o.begin("sc").kv("i", n.i).kb("con", n.con); observe(); }
    void cl() { g.clear(); g.optimize_if_needed(); nodes.clear(); edges.clear(); o.begin("cl"); observe(); }
};
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    out o(argv[4]);
    for (auto &b : beh) {
        run x(o, r);
        x.in(true); x.in(true); x.in(false);
        for (size_t i = 0; i + 2 < b.size(); i += 3) {
            int a = b[i + 1], c = b[i + 2];
            switch (b[i]) {
            case 1: x.in(a == 0); break;
            case 2: x.rn(a); break;
            case 3: x.ie(a, c); break;
            case 4: x.re(a); break;
            case 5: x.ra(a); break;
            case 6: x.sc(a); break;
            case 7: x.cl(); break;
            case 8: x.rv(a); break;
            }
        }
        fflush(o.f);
    }
    for (int it = 0; it < n; ++it) {
        run x(o, r);
        int maxn = r.range(2, 9), maxe = r.range(1, 14), loops = r.below(3);
        for (int s = 0; s < 60; ++s) {
            int p = r.below(100); int nn = (int)x.nodes.size();
            if (p == 0 && r.chance(1, 2)) x.cl();
            else if (nn < 2 || (p < 12 && nn < maxn)) x.in(r.chance(3, 4));
            else if (p < 20) { int k = r.below(nn); if (x.bare(k)) x.rn(k); else if (r.chance(1, 2)) { if (r.chance(1, 2)) x.ra(k); else x.rv(k); } }
            else if (p < 26) x.sc(r.below(nn));
            else if (!x.edges.empty() && (p < 50 || (int)x.edges.size() > maxe)) x.re(r.below((int)x.edges.size()));
            else { int a = r.below(nn), b = r.below(nn); if (a == b && !loops) b = (a + 1) % nn; x.ie(a, b); }
        }
        fflush(o.f);
    }
}

// Network snapshots: what the client's and the server's exporter select, the wire format, and what each way
// of importing does to the destination.
#include <array>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <entt/entt.hpp>
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/child_list.hpp"
#include "edyn/comp/graph_edge.hpp"
#include "edyn/comp/graph_node.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/orientation.hpp"
#include "edyn/comp/position.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/core/entity_graph.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include "edyn/networking/comp/entity_owner.hpp"
#include "edyn/networking/util/client_snapshot_exporter.hpp"
#include "edyn/networking/util/client_snapshot_importer.hpp"
#include "edyn/networking/util/server_snapshot_exporter.hpp"
#include "edyn/networking/util/server_snapshot_importer.hpp"
#include "edyn/serialization/s11n.hpp"
#include "vdrv.hpp"

using namespace entt::literals;
using ent = entt::entity;
struct ci : edyn::network_input { int x{}; };
struct cl { ent e{entt::null}; };
struct cs { std::vector<ent> m; };
struct ct {};
template<typename A> void serialize(A &a, ci &c) { a(c.x); }
template<typename A> void serialize(A &a, cl &c) { a(c.e); }
template<typename A> void serialize(A &a, cs &c) { a(c.m); }
template<typename A> void serialize(A &, ct &) {}
using tup = std::tuple<edyn::position, edyn::orientation, edyn::linvel, edyn::angvel, edyn::action_history, ci, cl, cs, ct>;
static const char *NAMES = "POLAhilst";
static const int NK = 9;
namespace edyn { std::unique_ptr<pool_snapshot_data>(*g_make_pool_snapshot_data)(component_index_type) = create_make_pool_snapshot_data_function(tup{}); }

template<typename F> void with(int k, F f) {
    switch (k) {
    case 0: f(edyn::position{}); break; case 1: f(edyn::orientation{}); break; case 2: f(edyn::linvel{}); break; case 3: f(edyn::angvel{}); break;
    case 4: f(edyn::action_history{}); break; case 5: f(ci{}); break; case 6: f(cl{}); break; case 7: f(cs{}); break; default: f(ct{}); break;
    }
}

struct world {
    vdrv::out &o; vdrv::rng &r; bool server;
    entt::registry src, dst;
    std::vector<ent> ents{entt::null}; std::vector<std::vector<int>> role{{}};   // role: 0 node, 1 edge a b, 2 child p
    std::map<ent, int> name, dname;
    std::vector<bool> dyn{false};
    edyn::entity_map emap;
    ent sclient[3], dclient[3];
    std::map<int, int> sown;
    std::unique_ptr<edyn::client_snapshot_exporter> cex; std::unique_ptr<edyn::server_snapshot_exporter> sex;
    std::unique_ptr<edyn::client_snapshot_importer> cim; std::unique_ptr<edyn::server_snapshot_importer> sim;
    double time = 0;
    std::vector<uint8_t> bytes;
    std::set<int> named;     // by the snapshot at hand

    world(vdrv::out &o, vdrv::rng &r) : o(o), r(r), server(r.chance(1, 2)) {
        src.ctx().emplace<edyn::entity_graph>(); dst.ctx().emplace<edyn::entity_graph>();
        for (int c = 1; c < 3; ++c) { sclient[c] = src.create(); src.emplace<edyn::remote_client>(sclient[c]); }
        dst.create();   // names differ on both sides
        for (int c = 1; c < 3; ++c) { dclient[c] = dst.create(); dst.emplace<edyn::remote_client>(dclient[c]); }
        if (server) sex.reset(new_server()); else cex.reset(new_client());
        cim = std::make_unique<edyn::client_snapshot_importer_impl<edyn::position, edyn::orientation, edyn::linvel, edyn::angvel, edyn::action_history, ci, cl, cs, ct>>(tup{});
        sim = std::make_unique<edyn::server_snapshot_importer_impl<edyn::position, edyn::orientation, edyn::linvel, edyn::angvel, edyn::action_history, ci, cl, cs, ct>>(tup{}, std::tuple<>{});
    }
    edyn::server_snapshot_exporter *new_server() { return new edyn::server_snapshot_exporter_impl<edyn::position, edyn::orientation, edyn::linvel, edyn::angvel, edyn::action_history, ci, cl, cs, ct>(src, tup{}); }
    edyn::client_snapshot_exporter *new_client() { return new edyn::client_snapshot_exporter_impl<edyn::position, edyn::orientation, edyn::linvel, edyn::angvel, edyn::action_history, ci, cl, cs, ct>(src, tup{}, std::tuple<>{}); }

    int n() const { return (int)ents.size() - 1; }
    int any() { return n() ? r.range(1, n()) : 0; }
    int node() { std::vector<int> v; for (int i = 1; i <= n(); ++i) if (role[i][0] == 0) v.push_back(i); return v.empty() ? 0 : v[r.below((int)v.size())]; }
    int ref() { return r.chance(1, 6) || !n() ? 0 : r.range(1, n()); }
    bool there(int e) { return emap.contains(ents[e]) && dst.valid(emap.at(ents[e])); }
    std::vector<int> make(int k) {
        std::vector<int> v;
        if (k == 4) { int m = r.below(3), t = 0; for (int i = 0; i < m; ++i) v.push_back(t += r.range(1, 3)); return v; }
        if (k == 6) return {ref()};
        if (k == 7) { int m = r.below(4); for (int i = 0; i < m; ++i) v.push_back(ref()); return v; }
        if (k == 8) return {};
        return {r.range(-9, 9)};
    }
    template<typename T, typename M> T build(const std::vector<int> &v, M e) {
        T c{};
        if constexpr (std::is_same_v<T, edyn::orientation>) { c.x = v[0]; c.y = c.z = 0; c.w = 1; }
        else if constexpr (std::is_same_v<T, edyn::action_history>) { for (int t : v) { c.entries.emplace_back(double(t), uint8_t(t), std::vector<uint8_t>{uint8_t(t + 1), 7}); } if (!v.empty()) c.last_timestamp = v.back(); }
        else if constexpr (std::is_same_v<T, ci>) c.x = v[0];
        else if constexpr (std::is_same_v<T, cl>) c.e = e(v[0]);
        else if constexpr (std::is_same_v<T, cs>) for (int x : v) c.m.push_back(e(x));
        else if constexpr (!std::is_empty_v<T>) { c.x = v[0]; c.y = v[0] + 1; c.z = -v[0]; }
        return c;
    }
    static const int BAD = 99999;
    template<typename T, typename M> std::vector<int> read(const T &c, M e) {
        std::vector<int> v;
        if constexpr (std::is_same_v<T, edyn::orientation>) v = {c.y == 0 && c.z == 0 && c.w == 1 ? int(c.x) : BAD};
        else if constexpr (std::is_same_v<T, edyn::action_history>) for (auto &x : c.entries) v.push_back(x.action_index == x.timestamp && x.data == std::vector<uint8_t>{uint8_t(x.timestamp + 1), 7} ? int(x.timestamp) : BAD);
        else if constexpr (std::is_same_v<T, ci>) v = {c.x};
        else if constexpr (std::is_same_v<T, cl>) v = {e(c.e)};
        else if constexpr (std::is_same_v<T, cs>) for (auto x : c.m) v.push_back(e(x));
        else if constexpr (!std::is_empty_v<T>) v = {c.y == c.x + 1 && c.z == -c.x ? int(c.x) : BAD};
        return v;
    }
    int sback(ent e) { if (e == entt::null) return 0; auto it = name.find(e); return it == name.end() ? -1 : it->second; }
    int dback(ent e) { if (e == entt::null) return 0; auto it = dname.find(e); return it == dname.end() ? -1 : it->second; }
    std::string kind(int k) { return std::string(1, NAMES[k]); }
    static std::string ints(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }

    void shape(entt::registry &g, ent e, int i, const std::vector<ent> &m) {
        auto &graph = g.ctx().get<edyn::entity_graph>();
        if (role[i][0] == 0) { g.emplace<edyn::graph_node>(e, graph.insert_node(e)); if (dyn[i]) g.emplace<edyn::dynamic_tag>(e); }
        else if (role[i][0] == 1) g.emplace<edyn::graph_edge>(e, graph.insert_edge(e, g.get<edyn::graph_node>(m[0]).node_index, g.get<edyn::graph_node>(m[1]).node_index));
        else {
            auto &c = g.emplace<edyn::child_list>(e); c.parent = m[0];
            if (!g.all_of<edyn::parent_comp>(m[0])) g.emplace<edyn::parent_comp>(m[0]);
            auto &p = g.get<edyn::parent_comp>(m[0]); c.next = p.child; p.child = e;
        }
    }
    void create(int what) {
        std::vector<int> ro{what};
        if (what == 1) { int a = node(), b = node(); if (!a || a == b) return; ro = {1, a, b}; }
        if (what == 2) { int a = node(); if (!a) return; ro = {2, a}; }
        auto e = src.create(); ents.push_back(e); role.push_back(ro); name[e] = n(); dyn.push_back(what == 0 && r.chance(1, 2));
        std::vector<ent> m; for (size_t i = 1; i < ro.size(); ++i) m.push_back(ents[ro[i]]);
        shape(src, e, n(), m);
        src.emplace<edyn::networked_tag>(e);
        std::string s = what == 0 ? std::string("[\"node\",") + (dyn.back() ? "true]" : "false]") : what == 1 ? "[\"edge\"," + std::to_string(ro[1]) + "," + std::to_string(ro[2]) + "]" : "[\"child\"," + std::to_string(ro[1]) + "]";
        o.begin("create").kv("o", n()).key("r").raw(s).endq();
        if (dyn.back()) for (int k = 0; k < 4; ++k) add(n(), k);
        int extra = r.below(4); for (int i = 0; i < extra; ++i) add(n(), r.below(NK));
    }
    void add(int e, int k) {
        with(k, [&](auto p) {
            using T = decltype(p);
            if (src.all_of<T>(ents[e])) return;
            auto v = make(k);
            if constexpr (std::is_empty_v<T>) src.emplace<T>(ents[e]); else src.emplace<T>(ents[e], build<T>(v, [&](int x) { return ents[x]; }));
            o.begin("add").kv("o", e).ks("k", kind(k)).arr("v", v).endq();
        });
    }
    std::vector<int> has(int e) { std::vector<int> ks; for (int k = 0; k < NK; ++k) with(k, [&](auto p) { if (src.all_of<decltype(p)>(ents[e])) ks.push_back(k); }); return ks; }
    void change(int e) {
        auto ks = has(e); if (ks.empty()) return;
        int k = ks[r.below((int)ks.size())];
        with(k, [&](auto p) {
            using T = decltype(p);
            if constexpr (std::is_empty_v<T>) return;
            else {
                auto v = make(k); auto val = build<T>(v, [&](int x) { return ents[x]; });
                bool loud = r.chance(5, 6) && !(k == 4 && !server);
                if (loud) src.patch<T>(ents[e], [&](T &c) { c = val; }); else src.get<T>(ents[e]) = val;
                o.begin("change").kv("o", e).ks("k", kind(k)).arr("v", v).kb("loud", loud).endq();
            }
        });
    }
    void drop(int e) {
        auto ks = has(e); if (ks.empty()) return;
        int k = ks[r.below((int)ks.size())];
        if (k < 4 && dyn[e]) return;
        with(k, [&](auto p) { src.remove<decltype(p)>(ents[e]); });
        o.begin("drop").kv("o", e).ks("k", kind(k)).endq();
    }
    void own(int e, int c) { src.emplace_or_replace<edyn::entity_owner>(ents[e], sclient[c]); sown[e] = c; o.begin("own").kv("o", e).kv("c", c).endq(); }
    void owndst(int e, int c) { if (!there(e)) return; dst.emplace_or_replace<edyn::entity_owner>(emap.at(ents[e]), dclient[c]); o.begin("owndst").kv("o", e).kv("c", c).endq(); }
    void know(int e) {
        if (emap.contains(ents[e])) return;
        std::vector<ent> m;
        for (size_t i = 1; i < role[e].size(); ++i) { know(role[e][i]); if (!there(role[e][i])) return; m.push_back(emap.at(ents[role[e][i]])); }
        auto d = dst.create(); dname[d] = e; emap.insert(ents[e], d);
        shape(dst, d, e, m);
        o.begin("know").kv("o", e).endq();
        int extra = r.below(6); for (int i = 0; i < extra; ++i) adddst(e, r.below(NK));
        if (sown.count(e) && r.chance(3, 4)) owndst(e, sown[e]);
    }
    void adddst(int e, int k) {
        if (!there(e)) return;
        with(k, [&](auto p) {
            using T = decltype(p);
            auto v = make(k); auto d = emap.at(ents[e]);
            // as if it had come with an earlier snapshot
            if (k == 6) for (auto &x : v) if (x && !there(x)) x = 0;
            if (k == 7) v.erase(std::remove_if(v.begin(), v.end(), [&](int x) { return !x || !there(x); }), v.end());
            if constexpr (std::is_empty_v<T>) { if (!dst.all_of<T>(d)) dst.emplace<T>(d); }
            else dst.emplace_or_replace<T>(d, build<T>(v, [&](int x) { return x ? emap.at(ents[x]) : ent{entt::null}; }));
            o.begin("adddst").kv("o", e).ks("k", kind(k)).arr("v", v).endq();
        });
    }
    void lose(int e) {
        if (!there(e) || role[e][0] == 2) return;
        auto d = emap.at(ents[e]);
        auto &graph = dst.ctx().get<edyn::entity_graph>();
        if (role[e][0] == 1) graph.remove_edge(dst.get<edyn::graph_edge>(d).edge_index);
        else {
            for (int i = 1; i <= n(); ++i) for (size_t j = 1; j < role[i].size(); ++j) if (role[i][j] == e && there(i)) return;
            graph.remove_node(dst.get<edyn::graph_node>(d).node_index);
        }
        dst.destroy(d);
        o.begin("lose").kv("o", e).endq();
    }
    std::vector<ent> list(const std::vector<int> &v) { std::vector<ent> x; for (int e : v) x.push_back(ents[e]); return x; }
    std::vector<int> some(bool children) { std::vector<int> v; for (int i = 1; i <= n(); ++i) if ((children || role[i][0] != 2) && r.chance(3, 4)) v.push_back(i); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below((int)i)]); return v; }
    void send(edyn::packet::registry_snapshot &snap) {
        snap.timestamp = 12.5;
        bytes.clear();
        edyn::memory_output_archive out(bytes);
        edyn::packet::serialize(out, snap);
        auto got = receive();
        std::string s = "["; bool sep = false;
        std::vector<int> es; named.clear();
        for (auto e : got.entities) { es.push_back(sback(e)); named.insert(sback(e)); }
        for (auto &pool : got.pools) with(pool.component_index, [&](auto p) {
            using T = decltype(p);
            auto *d = static_cast<edyn::pool_snapshot_data_impl<T> *>(pool.ptr.get());
            bool ok = pool.component_index < NK && d->get_type_id() == entt::type_id<T>().hash() && got.timestamp == 12.5;
            for (size_t i = 0; i < d->entity_indices.size(); ++i) {
                std::vector<int> v;
                if constexpr (!std::is_empty_v<T>) { if (d->components.size() == d->entity_indices.size()) v = read(d->components[i], [&](ent e) { return sback(e); }); else ok = false; }
                size_t idx = d->entity_indices[i];
                s += std::string(sep ? "," : "") + "[\"" + (ok ? kind(pool.component_index) : "bad") + "\"," + std::to_string(idx < got.entities.size() ? sback(got.entities[idx]) : -2) + "," + ints(v) + "]"; sep = true;
            }
        });
        o.key("snap").raw(s + "]").arr("ents", es).endq();
    }
    edyn::packet::registry_snapshot receive() {
        edyn::packet::registry_snapshot s;
        edyn::memory_input_archive in(bytes.data(), bytes.size());
        edyn::packet::serialize(in, s);
        return s;
    }
    entt::sparse_set set_of(const std::vector<int> &v) { entt::sparse_set s; for (int e : v) s.push(ents[e]); return s; }
    void take(bool modified) {
        edyn::packet::registry_snapshot snap;
        int c = r.range(1, 2);
        if (server) {
            int how = modified ? 2 : r.below(2);
            if (how == 0) { auto v = some(true); if (r.chance(1, 2)) sex->export_all(snap, list(v)); else sex->export_all(snap, set_of(v)); o.begin("shared").arr("es", v); }
            else if (how == 1) {
                int e = any(); if (!e) return;
                std::vector<edyn::component_index_type> ks; std::string s = "["; for (int k = 0; k < NK; ++k) if (r.chance(1, 2)) { ks.push_back(k); s += std::string(s.size() > 1 ? "," : "") + "\"" + kind(k) + "\""; }
                sex->export_comp_index(snap, ents[e], ks); o.begin("picked").kv("o", e).key("ks").raw(s + "]");
            } else {
                auto v = some(false); bool full = r.chance(3, 4);
                src.get<edyn::remote_client>(sclient[c]).allow_full_ownership = full;
                sex->export_modified(snap, set_of(v), sclient[c]);
                o.begin("toclient").arr("es", v).kv("c", c).kb("full", full);
            }
        } else {
            if (!modified) { auto v = some(true); if (r.chance(1, 2)) cex->export_all(snap, list(v)); else cex->export_all(snap, set_of(v)); o.begin("all").arr("es", v); }
            else {
                std::vector<int> v; for (auto &x : sown) if (x.second == c) v.push_back(x.first);
                for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below((int)i)]);
                bool full = r.chance(3, 4);
                cex->export_modified(snap, sclient[c], set_of(v), full);
                o.begin("toserver").arr("es", v).kv("c", c).kb("full", full);
            }
        }
        send(snap);
    }
    void give(int how) {
        if (bytes.empty()) return;
        auto snap = receive();
        bool known = true, alive = true;
        for (int e : named) { if (!emap.contains(ents[e])) known = false; else if (!there(e)) alive = false; }
        if (how >= 3 && (!known || (how != 5 && !alive))) how = r.below(3);
        int c = r.range(1, 2); bool check = r.chance(2, 3);
        auto &client = dst.get<edyn::remote_client>(dclient[c]);
        client.entity_map = emap;
        if (how == 0) { cim->import(dst, emap, snap); o.begin("import"); }
        else if (how == 1) { sim->import(dst, dclient[c], snap, check); emap = client.entity_map; o.begin("importfrom").kv("c", c).kb("check", check); }
        else if (how == 2) { for (auto &p : snap.pools) p.ptr->replace_into_registry(dst, snap.entities, emap); o.begin("snap"); }
        else if (how == 3) { snap.convert_remloc(dst, emap); cim->import_local(dst, snap); o.begin("importlocal"); }
        else if (how == 4) { snap.convert_remloc(dst, emap); for (auto &p : snap.pools) p.ptr->replace_into_registry(dst, snap.entities); o.begin("snaplocal"); }
        else {
            for (auto &e : snap.entities) e = emap.at(e);
            sim->transform_to_local(dst, dclient[c], snap, check);
            for (auto &p : snap.pools) p.ptr->replace_into_registry(dst, snap.entities);
            o.begin("snapfrom").kv("c", c).kb("check", check);
        }
        std::vector<int> map; emap.each([&](ent s, ent) { map.push_back(sback(s)); }); std::sort(map.begin(), map.end());
        std::string s = "["; bool sep = false;
        for (int e : map) if (e > 0 && there(e)) {
            s += std::string(sep ? "," : "") + "[" + std::to_string(e) + ",["; sep = true;
            bool s2 = false; auto d = emap.at(ents[e]);
            for (int k = 0; k < NK; ++k) with(k, [&](auto p) {
                using T = decltype(p);
                if (!dst.all_of<T>(d)) return;
                std::vector<int> v; if constexpr (!std::is_empty_v<T>) v = read(dst.get<T>(d), [&](ent x) { return dback(x); });
                s += std::string(s2 ? "," : "") + "[\"" + kind(k) + "\"," + ints(v) + "]"; s2 = true;
            });
            s += "]]";
        }
        o.arr("map", map).key("comps").raw(s + "]").endq();
    }
    void pass() { int ms = 125 * r.below(5); time += ms / 1000.0; if (server) sex->update(time); else cex->update(time); o.begin("pass").kv("ms", ms).kb("server", server).endq(); }
    void run(int c) {
        switch (c) {
        case 1: create(0); break;
        case 2: create(1); break;
        case 3: create(r.range(0, 2)); break;
        case 4: if (int e = any()) { if (r.chance(4, 5)) { for (int i = r.range(1, 4); i; --i) change(any()); } else if (r.chance(1, 2)) add(e, r.below(NK)); else drop(e); } break;
        case 5: if (int e = any()) { if (r.chance(2, 3) || !there(e)) own(e, r.range(1, 2)); else owndst(e, r.range(1, 2)); } break;
        case 6: if (any()) { if (r.chance(1, 2)) know(any()); else for (int i = 1; i <= n(); ++i) if (r.chance(3, 4)) know(i); } break;
        case 7: if (int e = any()) { if (r.chance(1, 2)) lose(e); else adddst(e, r.below(NK)); } break;
        case 8: pass(); break;
        case 9: take(r.chance(3, 4)); break;
        default: give(r.below(6)); break;
        }
    }
};

int main(int argc, char **argv) {
    auto behaviours = vdrv::read_behaviours(argv[1]);
    vdrv::rng r(atoll(argv[2]));
    int extra = atoi(argv[3]), tail = atoi(argv[4]);
    entt::meta_factory<cl>().data<&cl::e, entt::as_ref_t>("e"_hs);
    entt::meta_factory<cs>().data<&cs::m, entt::as_ref_t>("m"_hs);
    vdrv::out o(argv[5]);
    for (size_t h = 0; h < behaviours.size() + extra; ++h) {
        o.reset();
        world w(o, r);
        int start = r.range(1, 3); for (int i = 0; i < start; ++i) w.run(1);
        if (h < behaviours.size()) for (int c : behaviours[h]) w.run(c);
        int len = h < behaviours.size() ? tail : r.range(10, 40);
        for (int i = 0; i < len; ++i) w.run(r.range(1, 10));
        w.run(9); w.run(6); w.run(10);
    }
    return 0;
}

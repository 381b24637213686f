// Mirrors one registry into another through recorded operations: edits at the source, batches executed at
// the destination under other entity names.
#include <array>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <entt/entt.hpp>
#include "edyn/replication/registry_operation.hpp"
#include "edyn/replication/registry_operation_builder.hpp"
#include "edyn/replication/registry_operation_observer.hpp"
#include "vdrv.hpp"

using namespace entt::literals;
using ent = entt::entity;
struct inner { ent e{entt::null}; };
struct cv { int x{}; };
struct ct {};
struct cl { ent e{entt::null}; };
struct cs { std::vector<ent> m; };
struct ca { std::array<ent, 2> m{ent{entt::null}, ent{entt::null}}; };
struct cn { int x{}; inner m; };
struct cq { std::vector<inner> m; };
struct cd { std::map<int, ent> m; };
struct cp { std::map<int, inner> m; };
using tup = std::tuple<cv, ct, cl, cs, ca, cn, cq, cd, cp>;
static const char *NAMES = "vtlsanqdp";

template<typename F> void with(int k, F f) {
    switch (k) {
    case 0: f(cv{}); break; case 1: f(ct{}); break; case 2: f(cl{}); break; case 3: f(cs{}); break; case 4: f(ca{}); break;
    case 5: f(cn{}); break; case 6: f(cq{}); break; case 7: f(cd{}); break; default: f(cp{}); break;
    }
}

struct world {
    vdrv::out &o; vdrv::rng &r;
    entt::registry src, dst;
    edyn::registry_operation_builder_impl<cv, ct, cl, cs, ca, cn, cq, cd, cp> builder{src};
    std::unique_ptr<edyn::registry_operation_observer> obs{new edyn::registry_operation_observer_impl<cv, ct, cl, cs, ca, cn, cq, cd, cp>(builder, tup{})};
    edyn::entity_map emap;
    std::vector<ent> ents{entt::null};          // by name
    std::map<ent, int> name;                    // source entity -> name
    std::map<ent, int> dname;                   // any destination entity that ever stood for one -> name
    std::map<int, ent> pending;                 // name -> destination entity made known, not sent yet
    std::set<int> observed, due;                // due: created there by the batch at hand
    bool active = true, plain = true;           // plain: the batch holds nothing but component changes

    std::vector<int> alive() { std::vector<int> v; for (size_t i = 1; i < ents.size(); ++i) if (src.valid(ents[i])) v.push_back((int)i); return v; }
    int pick(const std::vector<int> &v) { return v.empty() ? 0 : v[r.below((int)v.size())]; }
    // null, existing or gone
    int ref() { return r.chance(1, 8) ? 0 : r.below((int)ents.size()); }
    std::vector<int> make(int k) {
        std::vector<int> v; int n;
        switch (k) {
        case 0: return {r.range(-5, 5)};
        case 1: return {};
        case 2: return {ref()};
        case 3: case 6: n = r.below(5); for (int i = 0; i < n; ++i) v.push_back(ref()); return v;
        case 4: return {ref(), ref()};
        case 5: return {r.range(-5, 5), ref()};
        default: n = r.below(4); for (int i = 0, key = 0; i < n; ++i) { key += r.range(1, 3); v.push_back(key); v.push_back(ref()); } return v;
        }
    }
    template<typename T> T build(const std::vector<int> &v) {
        T c;
        if constexpr (std::is_same_v<T, cv>) c.x = v[0];
        else if constexpr (std::is_same_v<T, cl>) c.e = ents[v[0]];
        else if constexpr (std::is_same_v<T, cs>) for (int x : v) c.m.push_back(ents[x]);
        else if constexpr (std::is_same_v<T, ca>) { c.m[0] = ents[v[0]]; c.m[1] = ents[v[1]]; }
        else if constexpr (std::is_same_v<T, cn>) { c.x = v[0]; c.m.e = ents[v[1]]; }
        else if constexpr (std::is_same_v<T, cq>) for (int x : v) c.m.push_back({ents[x]});
        else if constexpr (std::is_same_v<T, cd>) for (size_t i = 0; i < v.size(); i += 2) c.m[v[i]] = ents[v[i + 1]];
        else if constexpr (std::is_same_v<T, cp>) for (size_t i = 0; i < v.size(); i += 2) c.m[v[i]] = {ents[v[i + 1]]};
        return c;
    }
    // a destination entity that never stood for anything shows as -1
    int back(ent e) { if (e == entt::null) return 0; auto it = dname.find(e); return it == dname.end() ? -1 : it->second; }
    template<typename T> std::vector<int> read(const T &c) {
        std::vector<int> v;
        if constexpr (std::is_same_v<T, cv>) v = {c.x};
        else if constexpr (std::is_same_v<T, cl>) v = {back(c.e)};
        else if constexpr (std::is_same_v<T, cs>) for (auto x : c.m) v.push_back(back(x));
        else if constexpr (std::is_same_v<T, ca>) v = {back(c.m[0]), back(c.m[1])};
        else if constexpr (std::is_same_v<T, cn>) v = {c.x, back(c.m.e)};
        else if constexpr (std::is_same_v<T, cq>) for (auto &x : c.m) v.push_back(back(x.e));
        else if constexpr (std::is_same_v<T, cd>) for (auto &x : c.m) { v.push_back(x.first); v.push_back(back(x.second)); }
        else if constexpr (std::is_same_v<T, cp>) for (auto &x : c.m) { v.push_back(x.first); v.push_back(back(x.second.e)); }
        return v;
    }
    std::string kind(int k) { return std::string(1, NAMES[k]); }
    int create() { auto e = src.create(); ents.push_back(e); int n = (int)ents.size() - 1; name[e] = n; o.begin("create").kv("o", n).endq(); return n; }
    void observe(int n) { obs->observe(ents[n]); observed.insert(n); if (active) { plain = false; due.insert(n); } o.begin("observe").kv("o", n).kv("n", (long long)builder.size()).endq(); }
    void unobserve(int n) { obs->unobserve(ents[n]); observed.erase(n); if (active) plain = false; o.begin("unobserve").kv("o", n).kv("n", (long long)builder.size()).endq(); }
    void edit(int n, int k, int what) {
        with(k, [&](auto proto) {
            using T = decltype(proto);
            bool has = src.all_of<T>(ents[n]);
            std::vector<int> v;
            if (what == 2) {
                if (!has) return;
                src.remove<T>(ents[n]);
                o.begin("remove").kv("o", n).ks("k", kind(k)).kv("n", (long long)builder.size()).endq();
                return;
            }
            v = make(k);
            if (!has) {
                if (what == 1) return;
                if constexpr (std::is_empty_v<T>) src.emplace<T>(ents[n]); else src.emplace<T>(ents[n], build<T>(v));
            } else {
                if constexpr (std::is_empty_v<T>) return;
                else {
                    if (r.chance(1, 2)) src.replace<T>(ents[n], build<T>(v)); else src.patch<T>(ents[n], [&](T &c) { c = build<T>(v); });
                }
            }
            o.begin(has ? "replace" : "emplace").kv("o", n).ks("k", kind(k)).arr("v", v).kv("n", (long long)builder.size()).endq();
        });
    }
    void flush(bool renamed) {
        long long n = (long long)builder.size();
        {
            auto op = builder.finish();
            // entities named in the batch before any destination entity exists for them get one as it runs
            if (renamed) { op.remap(emap); op.execute(dst); }
            else op.execute(dst, emap, [&](edyn::operation_base *b) { auto it = name.find(b->entity); if (it != name.end() && emap.contains(b->entity)) dname[emap.at(b->entity)] = it->second; });
        }
        pending.clear(); due.clear(); plain = true;
        std::vector<int> map, alive;
        int strays = 0; std::set<ent> seen;
        emap.each([&](ent s, ent d) {
            auto it = name.find(s);
            if (it == name.end() || !emap.contains_local(d) || emap.at_local(d) != s || !seen.insert(d).second) { ++strays; return; }
            map.push_back(it->second); dname[d] = it->second;
            if (dst.valid(d)) alive.push_back(it->second);
        });
        dst.mini_each_entity([&](ent e) { if (!seen.count(e)) ++strays; });
        o.begin(renamed ? "renamed" : "flush").arr("map", map).arr("alive", alive);
        std::string s = "[";
        for (size_t i = 0; i < alive.size(); ++i) {
            auto d = emap.at(ents[alive[i]]);
            s += std::string(i ? "," : "") + "[" + std::to_string(alive[i]) + ",[";
            bool sep = false;
            for (int k = 0; k < 9; ++k) with(k, [&](auto proto) {
                using T = decltype(proto);
                if (!dst.all_of<T>(d)) return;
                std::vector<int> v;
                if constexpr (!std::is_empty_v<T>) v = read(dst.get<T>(d));
                s += std::string(sep ? "," : "") + "[\"" + NAMES[k] + "\",["; sep = true;
                for (size_t j = 0; j < v.size(); ++j) s += (j ? "," : "") + std::to_string(v[j]);
                s += "]]";
            });
            s += "]]";
        }
        o.key("comps").raw(s + "]").kv("strays", strays).kv("n", n).kv("left", (long long)builder.size()).endq();
    }
    bool can_rename() {
        if (!plain) return false;
        for (int n : observed) if (!emap.contains(ents[n])) return false;
        return true;
    }
    void run(int c) {
        auto a = alive();
        switch (c) {
        case 1: observe(create()); break;
        case 2: create(); break;
        case 3: if (int n = pick(a)) edit(n, r.below(9), 0); break;
        case 4: if (int n = pick(a)) { std::vector<int> ks; for (int k = 0; k < 9; ++k) with(k, [&](auto p) { if (src.all_of<decltype(p)>(ents[n])) ks.push_back(k); }); if (!ks.empty()) edit(n, ks[r.below((int)ks.size())], 1); } break;
        case 5: if (int n = pick(a)) { std::vector<int> ks; for (int k = 0; k < 9; ++k) with(k, [&](auto p) { if (src.all_of<decltype(p)>(ents[n])) ks.push_back(k); }); if (!ks.empty()) edit(n, ks[r.below((int)ks.size())], 2); } break;
        case 6: if (int n = pick(a)) { if (observed.count(n)) unobserve(n); else observe(n); } break;
        case 7: { std::vector<int> f; for (int n : a) if (!observed.count(n) && !pending.count(n)) f.push_back(n); if (int n = pick(f)) { src.destroy(ents[n]); o.begin("destroy").kv("o", n).endq(); } break; }
        case 8: active = !active; obs->set_active(active); o.begin("active").kb("b", active).endq(); break;
        case 9: { std::vector<int> f; for (int n : a) if (!emap.contains(ents[n]) && !pending.count(n) && !due.count(n)) f.push_back(n);
                  // what is already on its way is created there
                  if (int n = pick(f); n && !observed.count(n)) { auto d = dst.create(); pending[n] = d; dname[d] = n; builder.add_entity_mapping(ents[n], d); plain = false; o.begin("map").kv("o", n).endq(); } break; }
        case 10: { std::vector<int> f; emap.each([&](ent s, ent d) { if (dst.valid(d)) f.push_back(name[s]); }); std::sort(f.begin(), f.end());
                   if (int n = pick(f)) { dst.destroy(emap.at(ents[n])); o.begin("local").kv("o", n).endq(); } break; }
        default: flush(can_rename() && r.chance(1, 2)); break;
        }
    }
};

int main(int argc, char **argv) {
    auto behaviours = vdrv::read_behaviours(argv[1]);
    vdrv::rng r(atoll(argv[2]));
    int extra = atoi(argv[3]), tail = atoi(argv[4]);
    entt::meta_factory<inner>().data<&inner::e, entt::as_ref_t>("e"_hs);
    entt::meta_factory<cv>().data<&cv::x, entt::as_ref_t>("x"_hs);
    entt::meta_factory<cl>().data<&cl::e, entt::as_ref_t>("e"_hs);
    entt::meta_factory<cs>().data<&cs::m, entt::as_ref_t>("m"_hs);
    entt::meta_factory<ca>().data<&ca::m, entt::as_ref_t>("m"_hs);
    entt::meta_factory<cn>().data<&cn::x, entt::as_ref_t>("x"_hs).data<&cn::m, entt::as_ref_t>("m"_hs);
    entt::meta_factory<cq>().data<&cq::m, entt::as_ref_t>("m"_hs);
    entt::meta_factory<cd>().data<&cd::m, entt::as_ref_t>("m"_hs);
    entt::meta_factory<cp>().data<&cp::m, entt::as_ref_t>("m"_hs);
    vdrv::out o(argv[5]);
    for (auto &b : behaviours) {
        o.reset();
        world w{o, r};
        for (int c : b) w.run(c);
        for (int i = 0; i < tail; ++i) w.run(r.range(1, 11));
        w.flush(false);
    }
    // long histories with many entities, so that batches outgrow their first memory block
    for (int h = 0; h < extra; ++h) {
        o.reset();
        world w{o, r};
        int len = r.range(20, 70), sends = r.range(1, 12);
        for (int i = 0; i < len; ++i) {
            int c = r.range(1, 20);
            if (c > 11) c = c < 17 ? 3 : c < 19 ? 4 : 1;
            if (c == 11 && !r.chance(sends, 12)) c = 3;
            w.run(c);
        }
        w.flush(false);
    }
    return 0;
}

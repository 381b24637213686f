// C28: drives the writer and reader of input_state_history.
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/edyn.hpp"
#include "edyn/networking/util/input_state_history.hpp"
#include "edyn/networking/util/pool_snapshot.hpp"
#include <map>
using namespace vdrv;
constexpr int N = 4;
struct in_a { int value{}; };
struct in_b { int value{}; };
template<typename A> void serialize(A &a, in_a &i) { a(i.value); }
template<typename A> void serialize(A &a, in_b &i) { a(i.value); }
struct act_a { int id{}; };
struct act_b { int id{}; };
template<typename A> void serialize(A &a, act_a &i) { a(i.id); }
template<typename A> void serialize(A &a, act_b &i) { a(i.id); }
// Values assigned to inputs are logged in the order assigned.
static std::map<std::pair<int, int>, std::vector<int>> assigned;
static std::map<entt::entity, int> local_of;
template<typename T, int K> void on_assign(entt::registry &reg, entt::entity e) { assigned[{local_of[e], K}].push_back(reg.get<T>(e).value); }
struct entry { int t, kind; std::vector<int> ids; };

struct run {
    out &o;
    entt::registry reg;
    entt::entity ent[N + 1];
    using hist_t = edyn::input_state_history<in_a, in_b>;
    std::shared_ptr<hist_t> h = std::make_shared<hist_t>();
    edyn::input_state_history_writer_impl<in_a, in_b> w{h};
    edyn::input_state_history_reader_impl<in_a, in_b> rd{h, std::tuple<act_a, act_b>{}};
    entt::registry reg2;
    edyn::entity_map emap;
    std::vector<int> live;
    std::vector<entry> log[N + 1];        // what each entity's owner did
    int t = 0, uid = 0;

    run(out &o_, int mask) : o(o_) {
        o.reset();
        local_of.clear(); assigned.clear();
        for (int i = 0; i < 3; ++i) reg2.create();      // so that local and remote ids differ
        for (int i = 1; i <= N; ++i) {
            ent[i] = reg.create();
            reg.emplace<edyn::networked_tag>(ent[i]);
            int m = (mask >> (2 * (i - 1))) & 3;        // 3: unmapped, 2: mapped to a destroyed entity
            if (m == 3) continue;
            auto e = reg2.create();
            emap.insert(ent[i], e);
            if (m == 2) { reg2.destroy(e); continue; }
            local_of[e] = i;
            live.push_back(i);
            if (m == 1) { reg2.emplace<in_a>(e); }
        }
        reg2.on_construct<in_a>().connect<&on_assign<in_a, 1>>();
        reg2.on_update<in_a>().connect<&on_assign<in_a, 1>>();
        reg2.on_construct<in_b>().connect<&on_assign<in_b, 2>>();
        reg2.on_update<in_b>().connect<&on_assign<in_b, 2>>();
    }
    void act(int e, int kind, int n) {
        entry x{t, kind, {}};
        for (int i = 0; i < n; ++i) x.ids.push_back(++uid);
        log[e].push_back(x);
    }
    static std::vector<uint8_t> bytes(const entry &x) {
        std::vector<uint8_t> data;
        auto ar = edyn::memory_output_archive(data);
        if (x.kind == 1) { edyn::action_list<act_a> l; for (int i : x.ids) l.actions.push_back({i}); ar(l); }
        else { edyn::action_list<act_b> l; for (int i : x.ids) l.actions.push_back({i}); ar(l); }
        return data;
    }
    // from: per entity, first log entry sent; ents: the entities included
    void record(bool snap, const std::vector<int> &ents, const std::vector<int> &ina, const std::vector<int> &inb,
                const std::map<int, size_t> &from, int delta, const std::vector<int> &set) {
        std::string ins = "[", lg = "[";
        entt::sparse_set es;
        for (int e : set) es.push(ent[e]);
        auto chosen = [&](int e) { return std::find(set.begin(), set.end(), e) != set.end(); };
        auto put = [&](int e, int k, int v) {
            if (!chosen(e)) return;
            if (ins.size() > 1) ins += ",";
            ins += "[" + std::to_string(e) + "," + std::to_string(k) + "," + std::to_string(v) + "]";
        };
        reg.clear<in_a, in_b, edyn::action_history>();
        std::vector<entt::entity> ea, eb, eh;
        for (int e : ina) { int v = ++uid; reg.emplace<in_a>(ent[e], v); ea.push_back(ent[e]); put(e, 1, v); }
        for (int e : inb) { int v = ++uid; reg.emplace<in_b>(ent[e], v); eb.push_back(ent[e]); put(e, 2, v); }
        for (auto &[e, k] : from) {
            edyn::action_history ah;
            std::string s;
            for (size_t i = k; i < log[e].size(); ++i) {
                auto &x = log[e][i];
                double ts = x.t;
                ah.entries.emplace_back(ts, (uint8_t)(x.kind - 1), bytes(x));
                if (!s.empty()) s += ",";
                s += "[" + std::to_string(x.t) + "," + std::to_string(x.kind) + ",[";
                for (size_t j = 0; j < x.ids.size(); ++j) s += (j ? "," : "") + std::to_string(x.ids[j]);
                s += "]]";
            }
            reg.emplace<edyn::action_history>(ent[e], ah);
            eh.push_back(ent[e]);
            if (!chosen(e)) continue;
            if (lg.size() > 1) lg += ",";
            lg += "[" + std::to_string(e) + ",[" + s + "]]";
        }
        if (!snap) w.emplace(reg, es, t);
        else {
            edyn::packet::registry_snapshot s{};
            // index 0: in_a, 1: in_b, 2: action_history; order of pools varies
            if (uid & 1) edyn::internal::snapshot_insert_entities<edyn::action_history>(reg, eh.begin(), eh.end(), s, 2);
            edyn::internal::snapshot_insert_entities<in_b>(reg, eb.begin(), eb.end(), s, 1);
            edyn::internal::snapshot_insert_entities<in_a>(reg, ea.begin(), ea.end(), s, 0);
            if (!(uid & 1)) edyn::internal::snapshot_insert_entities<edyn::action_history>(reg, eh.begin(), eh.end(), s, 2);
            w.emplace(s, es, t, delta);
        }
        o.begin("rec").kv("t", t).kv("delta", snap ? delta : 0).key("ins").raw(ins + "]").key("log").raw(lg + "]").endq();
    }
    void erase(int at) { w.erase_until(at); o.begin("erase").kv("t", at).endq(); }
    void remove(int e) { w.remove_entity(ent[e]); o.begin("rem").kv("i", e).endq(); }
    void imported() {
        std::string v = "[", a = "[";
        for (auto &[k, s] : assigned) {
            if (s.empty()) continue;
            if (v.size() > 1) v += ",";
            v += "[" + std::to_string(k.first) + "," + std::to_string(k.second) + ",[";
            for (size_t i = 0; i < s.size(); ++i) v += (i ? "," : "") + std::to_string(s[i]);
            v += "]]";
        }
        auto lists = [&](auto view, int kind) {
            for (auto [e, l] : view.each()) {
                if (l.actions.empty()) continue;
                if (a.size() > 1) a += ",";
                a += "[" + std::to_string(local_of[e]) + "," + std::to_string(kind) + ",[";
                for (size_t i = 0; i < l.actions.size(); ++i) a += (i ? "," : "") + std::to_string(l.actions[i].id);
                a += "]]";
            }
        };
        lists(reg2.view<edyn::action_list<act_a>>(), 1);
        lists(reg2.view<edyn::action_list<act_b>>(), 2);
        o.arr("live", live).key("vals").raw(v + "]").key("acts").raw(a + "]").endq();
        reg2.clear<edyn::action_list<act_a>, edyn::action_list<act_b>>();
        assigned.clear();
    }
    void each(int s, int len) {
        assigned.clear();
        rd.import_each(s, len, reg2, emap);
        o.begin("each").kv("s", s).kv("len", len);
        imported();
    }
    void latest(int at) {
        assigned.clear();
        rd.import_latest(at, reg2, emap);
        o.begin("latest").kv("t", at);
        imported();
    }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    out o(argv[4]);
    int bi = 0;
    for (auto &b : read_behaviours(argv[1])) {
        run r(o, bi++ % 2 ? 0 : 0x7);
        int nsent = 0;
        for (size_t i = 0; i + 2 < b.size(); i += 3) {
            switch (b[i]) {
            case 1: case 2: {
                ++r.t;
                r.act(1, 1 + r.t % 2, 1);
                if (r.t % 2) r.act(2, 1, 2);
                std::map<int, size_t> from{{1, (size_t)(nsent > 1 ? 1 : 0)}, {2, 0}};
                ++nsent;
                r.record(b[i] == 2, {}, {1, 2}, {2}, from, 1, {1, 2});
            } break;
            case 3: r.erase(b[i + 1]); break;
            case 4: r.remove(b[i + 1]); break;
            case 5: r.each(b[i + 1], b[i + 2]); break;
            case 6: r.latest(b[i + 1]); break;
            }
        }
        r.each(0, 20);
    }
    rng g(atoi(argv[2]));
    int runs = atoi(argv[3]);
    for (int n = 0; n < runs; ++n) {
        run r(o, g.chance(1, 2) ? 0 : g.below(256));
        int delta = g.chance(1, 2) ? 0 : g.range(0, 5);
        size_t known[N + 1] = {};       // entries received at least once
        int steps = g.range(5, 40);
        for (int k = 0; k < steps; ++k) {
            int c = g.below(10);
            if (c < 5) {
                r.t += g.range(1, 2);
                std::vector<int> a, b, set;
                std::map<int, size_t> from;
                bool snap = g.chance(1, 2);
                for (int e = 1; e <= N; ++e) {
                    if (g.chance(1, 2)) a.push_back(e);
                    if (g.chance(1, 3)) b.push_back(e);
                    bool in = g.chance(5, 6);
                    if (in) set.push_back(e);
                    if (g.chance(1, 2)) { r.act(e, g.range(1, 2), g.range(0, 3)); if (g.chance(1, 4)) r.act(e, g.range(1, 2), 1); }
                    if (g.chance(2, 3)) {
                        from[e] = g.below((int)known[e] + 1);
                        if (in) known[e] = r.log[e].size();
                    }
                }
                r.record(snap, {}, a, b, from, delta, set);
                if (!snap) {}
            } else if (c == 5) r.erase(g.range(0, r.t + 2));
            else if (c == 6 && g.chance(1, 3)) { int e = g.range(1, N); r.remove(e); known[e] = r.log[e].size(); r.log[e].clear(); known[e] = 0; }
            else if (c < 9) r.each(g.range(0, r.t + 1), g.range(0, 6));
            else r.latest(g.range(0, r.t + 1));
        }
        r.each(0, 200);
    }
}

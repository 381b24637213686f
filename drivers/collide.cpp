// C36: drives collision filters and exclusions, logs should_collide_default for the pairs after every step.
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/collision/should_collide.hpp"
#include "edyn/util/exclude_collision.hpp"
#include "edyn/comp/collision_exclusion.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/tag.hpp"
#include <map>
#include <set>
using namespace vdrv;
static const std::vector<int> BITS{0, 1, 31, 32, 63};
static uint64_t word(const std::vector<int> &b) { uint64_t w = 0; for (int i : b) w |= 1ull << i; return w; }
struct run {
    out &o; rng &r; entt::registry reg;
    std::map<int, entt::entity> ent;
    std::set<std::pair<int, int>> ex;
    std::map<int, int> used;            // occupied exclusion slots
    int next = 1, quiet = 0;
    run(out &o_, rng &r_) : o(o_), r(r_) { o.reset(); }
    void observe() {
        std::vector<std::vector<int>> q;
        for (auto &a : ent) for (auto &b : ent) {
            if (ent.size() > 6 && a.first != 1 && !r.chance(1, 5)) continue;
            q.push_back({a.first, b.first, edyn::should_collide_default(reg, a.second, b.second)});
        }
        o.arr2("q", q).endq();
    }
    int make(const std::vector<int> &g, const std::vector<int> &m, bool none) {
        int id = next++;
        auto e = reg.create(); ent[id] = e;
        reg.emplace<edyn::rigidbody_tag>(e);
        if (!none) { auto &f = reg.emplace<edyn::collision_filter>(e); f.group = word(g); f.mask = word(m); }
        o.begin("new").kv("a", id).arr("g", none ? BITS : g).arr("m", none ? BITS : m); observe();
        return id;
    }
    void fil(int a, std::vector<int> g, std::vector<int> m, bool none) {
        if (none) { reg.remove<edyn::collision_filter>(ent[a]); g = m = BITS; }
        else {
            edyn::collision_filter f;
            f.group = g == BITS ? edyn::collision_filter::all_groups : word(g);
            f.mask = m == BITS ? edyn::collision_filter::all_groups : word(m);
            reg.emplace_or_replace<edyn::collision_filter>(ent[a], f);
        }
        o.begin("fil").kv("a", a).arr("g", g).arr("m", m); observe();
    }
    static std::pair<int, int> pr(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
    bool exc(int a, int b, bool aspair) {
        if (a == b || !ent.count(a) || !ent.count(b)) return false;
        if (!ex.count(pr(a, b))) {
            if (used[a] >= edyn::collision_exclusion::max_exclusions || used[b] >= edyn::collision_exclusion::max_exclusions) return false;
            ++used[a]; ++used[b]; ex.insert(pr(a, b));
        }
        if (aspair) edyn::exclude_collision(reg, edyn::entity_pair{ent[a], ent[b]}); else edyn::exclude_collision(reg, ent[a], ent[b]);
        o.begin("exc").kv("a", a).kv("b", b); observe();
        return true;
    }
    void rem(int a, int b) {
        edyn::remove_collision_exclusion(reg, ent[a], ent[b]); ex.erase(pr(a, b)); --used[a]; --used[b];
        o.begin("rem").kv("a", a).kv("b", b); observe();
    }
    void clr(int a) {
        edyn::clear_collision_exclusion(reg, ent[a]); drop(a, true);
        used[a] = 0;
        o.begin("clr").kv("a", a); observe();
    }
    void drop(int a, bool slots) {
        for (auto it = ex.begin(); it != ex.end();)
            if (it->first == a || it->second == a) { if (slots) --used[it->first == a ? it->second : it->first]; it = ex.erase(it); } else ++it;
    }
    void del(int a) {
        reg.destroy(ent[a]); ent.erase(a); drop(a, false);     // slots of the others stay occupied, as documented
        o.begin("del").kv("a", a); observe();
    }
};
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    out o(argv[4]);
    const std::vector<std::pair<std::vector<int>, std::vector<int>>> presets{{BITS, BITS}, {{63}, {0, 1}}, {{0, 32}, {63}}};
    int flip = 0;
    for (auto &b : beh) {
        run x(o, r);
        for (int i = 0; i < 3; ++i) x.make(BITS, BITS, true);
        for (size_t i = 0; i + 2 < b.size(); i += 3)
            switch (b[i]) {
            case 1: x.fil(b[i + 1], presets[b[i + 2] - 1].first, presets[b[i + 2] - 1].second, b[i + 2] == 1 && ++flip % 2); break;
            case 2: x.exc(b[i + 1], b[i + 2], ++flip % 2); break;
            case 3: x.rem(b[i + 1], b[i + 2]); break;
            case 4: x.clr(b[i + 1]); break;
            case 5: x.del(b[i + 1]); break;
            }
        fflush(o.f);
    }
    for (int k = 0; k < 4; ++k) {                        // as many exclusions of one body as there is room for
        run x(o, r);
        int hub = x.make(BITS, BITS, true), m = edyn::collision_exclusion::max_exclusions;
        std::vector<int> ids;
        for (int i = 0; i < m + 1; ++i) ids.push_back(x.make(BITS, BITS, true));
        for (int i = 0; i < m; ++i) { if (k % 2) x.exc(hub, ids[i], false); else x.exc(ids[i], hub, true); }
        for (int s = 0; s < 40; ++s) {
            int i = r.below(m + 1);
            if (x.ex.count(run::pr(hub, ids[i]))) x.rem(hub, ids[i]); else x.exc(hub, ids[i], false);
            for (int j = 0; j <= m && x.used[hub] < m; ++j) if (r.chance(1, 2)) x.exc(ids[j], hub, false);
        }
        x.clr(hub);
    }
    auto bits = [&]() { std::vector<int> v; for (int b : BITS) if (r.chance(1, 2)) v.push_back(b); return v; };
    for (int it = 0; it < n; ++it) {
        run x(o, r);
        int top = r.range(4, 22), hub = -1;
        for (int s = 0; s < 90; ++s) {
            int p = r.below(100);
            std::vector<int> ids; for (auto &e : x.ent) ids.push_back(e.first);
            if ((int)ids.size() < top && (ids.size() < 3 || p < 20)) { int id = x.make(bits(), bits(), r.chance(1, 2)); if (hub < 0) hub = id; continue; }
            if (!x.ent.count(hub)) hub = ids[0];
            int a = ids[r.below((int)ids.size())], b = r.chance(1, 2) ? hub : ids[r.below((int)ids.size())];
            if (p < 30) x.fil(a, bits(), bits(), r.chance(1, 3));
            else if (p < 75) { if (r.chance(1, 2)) x.exc(a, b, r.chance(1, 2)); else x.exc(b, a, false); }
            else if (p < 90) { if (!x.ex.empty()) { auto e = *std::next(x.ex.begin(), r.below((int)x.ex.size())); if (r.chance(1, 2)) x.rem(e.first, e.second); else x.rem(e.second, e.first); } }
            else if (p < 94) { if (x.reg.all_of<edyn::collision_exclusion>(x.ent[a])) x.clr(a); }
            else if (p < 98) { if (a != hub) { if (x.reg.all_of<edyn::collision_exclusion>(x.ent[a]) && r.chance(1, 2)) x.clr(a); x.del(a); } }
        }
        fflush(o.f);
    }
}

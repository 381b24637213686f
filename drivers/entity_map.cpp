// C09: drives edyn::entity_map and logs both directions of the mapping after every step.
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/replication/entity_map.hpp"
using namespace vdrv;
static entt::entity en(int v) { return entt::entity(v); }
static int vi(entt::entity e) { return (int)(uint32_t)e; }
struct run {
    out &o; edyn::entity_map m; int top;
    run(out &o_, int top_) : o(o_), top(top_) { o.reset(); }
    std::vector<std::vector<int>> pairs() const {
        std::vector<std::vector<int>> v;
        m.each([&](entt::entity a, entt::entity b) { v.push_back({vi(a), vi(b)}); });
        return v;
    }
    void observe() {
        std::vector<std::vector<int>> q;
        for (int i = 0; i <= top; ++i)
            q.push_back({i, m.contains(en(i)) ? vi(m.at(en(i))) : -1, m.contains_local(en(i)) ? vi(m.at_local(en(i))) : -1});
        o.arr2("each", pairs()).arr2("q", q).endq();
    }
    bool ins(int a, int b) {
        if (m.contains(en(a)) || m.contains_local(en(b))) return false;
        m.insert(en(a), en(b)); o.begin("ins").kv("a", a).kv("b", b); observe(); return true;
    }
    void er(int a) { m.erase(en(a)); o.begin("er").kv("a", a); observe(); }
    void el(int a) { m.erase_local(en(a)); o.begin("el").kv("a", a); observe(); }
    void eif(int k) {
        std::vector<std::vector<int>> asked;
        m.erase_if([&](entt::entity a, entt::entity b) { asked.push_back({vi(a), vi(b)}); return (vi(a) + 3 * vi(b)) % k == 0; });
        o.begin("if").kv("m", k).arr2("asked", asked); observe();
    }
    void sw() { m.swap(); o.begin("sw"); observe(); }
    void cl() { m.clear(); o.begin("cl"); observe(); }
};
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    out o(argv[4]);
    for (auto &b : beh) {
        run x(o, 4);
        for (size_t i = 0; i + 2 < b.size(); i += 3)
            switch (b[i]) {
            case 1: x.ins(b[i + 1], b[i + 2]); break;
            case 2: x.er(b[i + 1]); break;
            case 3: x.el(b[i + 1]); break;
            case 4: x.eif(b[i + 1]); break;
            case 5: x.sw(); break;
            case 6: x.cl(); break;
            }
        fflush(o.f);
    }
    for (int it = 0; it < n; ++it) {
        int top = r.range(5, 30);
        run x(o, top);
        for (int s = 0; s < 60; ++s) {
            int p = r.below(100);
            auto ps = x.pairs();
            if (p == 0) x.cl();
            else if (p < 6) x.sw();
            else if (p < 10) x.eif(r.range(2, 7));
            else if (!ps.empty() && p < 25) x.er(ps[r.below((int)ps.size())][0]);
            else if (!ps.empty() && p < 40) x.el(ps[r.below((int)ps.size())][1]);
            else x.ins(r.range(0, top), r.range(0, top));
        }
        fflush(o.f);
    }
}

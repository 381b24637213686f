// C10: drives edyn::material_mix_table / unordered_pair / mixing functions and logs every lookup.
#include <cmath>
#include <algorithm>
#include <cstdint>
#include "edyn/dynamics/material_mixing.hpp"
#include "vdrv.hpp"
using namespace vdrv;
using namespace edyn;

struct run {
    out &o;
    material_mix_table t;
    std::vector<int> ids;
    int next = 1;
    run(out &o_, std::vector<int> i) : o(o_), ids(i) { o.reset(); }
    static material_base make(int v) {
        material_base m;
        m.restitution = v; m.friction = 2 * v; m.spin_friction = 3 * v; m.roll_friction = 4 * v; m.stiffness = 5 * v; m.damping = 6 * v;
        return m;
    }
    static int tag(const material_base &m) {
        int v = (int)m.restitution;
        return m.restitution == v && m.friction == 2 * v && m.spin_friction == 3 * v && m.roll_friction == 4 * v && m.stiffness == 5 * v && m.damping == 6 * v ? v : -999;
    }
    void observe() {
        o.arr("ids", ids);
        std::vector<std::vector<int>> rows;
        for (int a : ids) {
            rows.emplace_back();
            for (int b : ids) {
                material_mix_table::pair_type p(a, b);
                const auto &ct = t;
                auto *c = ct.try_get(p);
                auto *m = t.try_get(p);
                bool has = ct.contains(p);
                int v;
                if (!has && !c && !m) v = 0;
                else if (has && c && m && tag(*c) == tag(*m)) {
                    try { v = tag(ct.get(p)) == tag(*c) && tag(t.get(p)) == tag(*c) ? tag(*c) : -998; } catch (...) { v = -997; }
                } else v = -996;
                rows.back().push_back(v);
            }
        }
        o.arr2("m", rows).endq();
    }
    void insert(int a, int b) { int v = next++; t.insert({(material::id_type)a, (material::id_type)b}, make(v)); o.begin("ins").kv("a", a).kv("b", b).kv("v", v); observe(); }
    void remove(int a, int b) { t.remove({(material::id_type)a, (material::id_type)b}); o.begin("rem").kv("a", a).kv("b", b); observe(); }
    bool has(int a, int b) { return t.contains({(material::id_type)a, (material::id_type)b}); }
    void modify(int a, int b) { if (!has(a, b)) return; int v = next++; t.get({(material::id_type)a, (material::id_type)b}) = make(v); o.begin("ins").kv("a", a).kv("b", b).kv("v", v); observe(); }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int nrandom = atoi(argv[3]);
    out o(argv[4]);
    // pairs: equality and order of every two pairs over 0..K-1
    {
        const int K = 4;
        std::vector<std::vector<int>> lt, eq;
        std::vector<unordered_pair<uint16_t>> ps;
        for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) ps.emplace_back(a, b);
        for (auto &p : ps) {
            lt.emplace_back(); eq.emplace_back();
            for (auto &q : ps) { lt.back().push_back(p < q); eq.back().push_back(p == q); }
        }
        o.reset();
        o.begin("pairs").kv("k", K).arr2("lt", lt).arr2("eq", eq).end();
    }
    // default mixing
    int grid[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 25, 100, 640};
    o.reset();
    for (int a : grid) for (int b : grid) {
        double x = a / 8.0, y = b / 8.0;   // ratio of ints; friction <= 80
        auto two = [&](const char *k, auto f) { std::vector<long long> v{sc(f(x, y), 8000), sc(f(y, x), 8000)}; o.arr(k, v); };
        o.begin("mix").kv("a", a).kv("b", b);
        two("res", [](double p, double q) { return material_mix_restitution(p, q); });
        two("fri", [](double p, double q) { return material_mix_friction(p, q); });
        two("spi", [](double p, double q) { return material_mix_spin_friction(p, q); });
        two("rol", [](double p, double q) { return material_mix_roll_friction(p, q); });
        if (a && b) {
            two("sti", [](double p, double q) { return material_mix_stiffness(p, q); });
            two("dam", [](double p, double q) { return material_mix_damping(p, q); });
        }
        o.endq();
    }
    for (int a : grid) if (a) {
        double x = a / 8.0;
        auto two = [&](const char *k, auto f) { std::vector<long long> v{sc(f(x, large_scalar), 8000), sc(f(large_scalar, x), 8000)}; o.arr(k, v); };
        o.begin("rigid").kv("a", a);
        two("sti", [](double p, double q) { return material_mix_stiffness(p, q); });
        two("dam", [](double p, double q) { return material_mix_damping(p, q); });
        o.endq();
    }
    for (auto &b : beh) {
        run x(o, {0, 1, 2});
        for (size_t i = 0; i + 2 < b.size(); i += 3) {
            if (b[i] == 1) x.insert(b[i + 1], b[i + 2]);
            else x.remove(b[i + 1], b[i + 2]);
        }
        fflush(o.f);
    }
    for (int n = 0; n < nrandom; ++n) {
        std::vector<int> ids = n % 2 ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{7, 65534, 300, 255, 256, 0};
        run x(o, ids);
        int dens = r.range(30, 80);
        for (int s = 0; s < 40; ++s) {
            int a = ids[r.below(6)], b = ids[r.below(6)];
            int p = r.below(100);
            if (p < 15) x.modify(a, b);
            else if (p < 15 + dens) x.insert(a, b);
            else x.remove(a, b);
        }
    }
}

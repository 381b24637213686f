// C07: drives edyn::flat_nested_array and logs every nested array after every step.
#include <string>
#include "edyn/core/flat_nested_array.hpp"
#include "vdrv.hpp"
using namespace vdrv;

struct run {
    out &o;
    edyn::flat_nested_array<int> a;
    int v = 1;
    run(out &o_, int res) : o(o_) { o.reset(); if (res) { a.reserve_data(3); a.reserve_nested(2); } }
    void observe() {
        const auto &ca = a;
        std::vector<std::vector<int>> all;
        for (size_t i = 0; i < ca.size(); ++i) {
            all.emplace_back();
            auto in = ca[i];
            for (size_t k = 0; k < in.size(); ++k) all.back().push_back(in[k]);
        }
        o.arr2("m", all).endq();
    }
    void step(int c) {
        if (c == 1) { a.push_array(); o.begin("array"); }
        else if (c == 2) { a.push_back(v); o.begin("value").kv("v", v); ++v; }
        else if (c == 3) { a.reserve_data(a.size() * 5 + 7); a.reserve_nested(a.size() + 3); o.begin("reserve"); }
        else { auto b = a; edyn::flat_nested_array<int> d; d.push_array(); d.push_back(-5); a = std::move(b); b = d; o.begin("copy"); }
        observe();
    }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int nrandom = atoi(argv[3]);
    out o(argv[4]);
    int k = 0;
    for (auto &b : beh) {
        run x(o, k++ % 2);
        for (int c : b) x.step(c);
        fflush(o.f);
    }
    for (int n = 0; n < nrandom; ++n) {
        run x(o, r.below(2));
        x.step(1);
        int pa = r.range(1, 9);
        for (int s = 0; s < 40; ++s) x.step(r.chance(1, 12) ? 3 + r.below(2) : r.chance(pa, 10) ? 1 : 2);
    }
}

// C26: drives edyn::exporter_modified_components and logs which components count as modified.
#include "edyn/networking/comp/exporter_modified_components.hpp"
#include "vdrv.hpp"
using namespace vdrv;

template<uint16_t N> struct run {
    out &o;
    edyn::exporter_modified_components<N> m;
    run(out &o_) : o(o_) { o.reset(); }
    void observe() {
        std::vector<int> p;
        for (unsigned i = 0; i < m.count; ++i) p.push_back(m.entry[i].index);
        o.arr("p", p).kb("emp", m.empty()).kv("dur", edyn::exporter_modified_components<N>::duration).endq();
    }
    void bump(int i) { m.bump_index(i); o.begin("bump").kv("i", i); observe(); }
    void decay(int t) { m.decay(t); o.begin("decay").kv("t", t); observe(); }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int nrandom = atoi(argv[3]);
    out o(argv[4]);
    for (auto &b : beh) {
        run<3> x(o);
        for (size_t i = 0; i + 1 < b.size(); i += 2) if (b[i] == 1) x.bump(b[i + 1]); else x.decay(b[i + 1]);
        fflush(o.f);
    }
    for (int n = 0; n < nrandom; ++n) {
        run<9> x(o);
        int pb = r.range(20, 80), step = r.range(1, 300);
        for (int s = 0; s < 60; ++s) if (r.below(100) < pb) x.bump(r.below(9)); else x.decay(r.chance(1, 8) ? r.range(0, 1000) : r.range(0, step));
    }
}

// C06: drives edyn::free_list through command sequences and logs everything it reports.
#include <array>
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include "edyn/core/free_list.hpp"
#include "vdrv.hpp"
using namespace vdrv;

// What a default constructed element has for its link is up to its type; the storage must not depend on it.
static uint32_t default_next = UINT32_MAX;

struct item {
    int value {0};
    std::vector<int> payload;      // a slot that is reused must not keep old content
    uint32_t next {default_next};
};
using list_t = edyn::free_list<item, uint32_t, UINT32_MAX>;

struct run {
    out &o;
    list_t fl;
    std::vector<uint32_t> live;
    int next_value = 1;
    explicit run(out &o_) : o(o_) {
        static unsigned turn = 0;
        static const uint32_t choice[] = {UINT32_MAX, 0, 7, 4000000000u};
        default_next = choice[turn++ % 4];
        o.reset();
    }

    void observe() {
        std::vector<int> m;
        for (uint32_t i = 0; i < fl.range(); ++i) {
            const auto &e = static_cast<const list_t &>(fl)[i];
            int v = e.value;
            // the payload mirrors the value; a mismatch is reported as a value nobody stored
            if (v == 0 ? !e.payload.empty() : !(e.payload.size() == 2 && e.payload[0] == v && e.payload[1] == -v)) v = -999;
            m.push_back(v);
        }
        o.arr("m", m).kv("cnt", (long long)fl.count()).kb("emp", fl.empty()).endq();
    }
    static item make(int v) { item it; it.value = v; it.payload = {v, -v}; return it; }
    void insert() {
        int v = next_value++;
        auto i = fl.insert(make(v));
        live.push_back(i);
        o.begin("ins").kv("i", i).kv("v", v);
        observe();
    }
    void remove(size_t k) {
        if (k >= live.size()) k = live.size() - 1;
        auto i = live[k];
        fl.remove(i);
        live.erase(live.begin() + k);
        o.begin("rem").kv("i", i);
        observe();
    }
    void modify(size_t k) {
        if (k >= live.size()) k = live.size() - 1;
        auto i = live[k];
        int v = next_value++;
        fl[i].value = v; fl[i].payload = {v, -v};
        o.begin("mod").kv("i", i).kv("v", v);
        observe();
    }
    void clear() {
        fl.clear();
        live.clear();
        o.begin("clr");
        observe();
    }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int nrandom = atoi(argv[3]);
    out o(argv[4]);
    for (auto &b : beh) {
        run x(o);
        for (size_t i = 0; i + 1 < b.size(); i += 2) {
            switch (b[i]) {
            case 1: for (int k = 0; k < b[i + 1]; ++k) x.insert(); break;
            case 2: x.remove(b[i + 1]); break;
            case 3: x.modify(b[i + 1]); break;
            case 4: x.clear(); break;
            }
        }
        fflush(o.f);
    }
    for (int n = 0; n < nrandom; ++n) {
        run x(o);
        int target = r.range(0, 40);
        for (int s = 0; s < 80; ++s) {
            int p = r.below(100);
            if (p == 0) x.clear();
            else if (p == 1) target = r.range(0, 40);
            else if (!x.live.empty() && p < 20) x.modify(r.below((int)x.live.size()));
            else if (!x.live.empty() && ((int)x.live.size() > target ? p < 75 : p < 40)) x.remove(r.below((int)x.live.size()));
            else x.insert();
        }
        fflush(o.f);
    }
}

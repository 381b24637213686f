// C25: drives edyn::action_history::merge/erase_until/sort and logs all entries.
#include "edyn/networking/comp/action_history.hpp"
#include "vdrv.hpp"
using namespace vdrv;
using namespace edyn;

// The sender's log: item k has timestamp ts[k] (twentieths of a second), a kind and data derived from k.
struct run {
    out &o;
    action_history h;
    std::vector<int> ts;
    run(out &o_, std::vector<int> t) : o(o_), ts(t) { o.reset(); }
    action_history::entry item(int k) {
        action_history::entry e(ts[k] * 0.05, (uint8_t)(k % 251), std::vector<uint8_t>{(uint8_t)k, (uint8_t)(k >> 8), (uint8_t)(255 - (k & 255))});
        return e;
    }
    void observe() {
        std::vector<std::vector<long long>> m;
        for (auto &e : h.entries) {
            int k = e.data.size() == 3 && e.data[2] == 255 - e.data[0] ? e.data[0] + 256 * e.data[1] : -999;
            if (e.action_index != (uint8_t)(k % 251)) k = -998;
            m.push_back({k, sc(e.timestamp, 20)});
        }
        o.arr2("m", m).kb("emp", h.empty()).endq();
    }
    void merge(int a, int b) {           // items a..b inclusive
        action_history other;
        for (int k = a; k <= b; ++k) { other.entries.push_back(item(k)); }
        other.last_timestamp = other.entries.back().timestamp;
        h.merge(other);
        std::vector<std::vector<int>> its;
        for (int k = a; k <= b; ++k) its.push_back({k, ts[k]});
        o.begin("merge").arr2("b", its);
        observe();
    }
    void erase(int t) { h.erase_until(t * 0.05); o.begin("erase").kv("t", t); observe(); }
    void sort() { h.sort(); o.begin("sort"); observe(); }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int nrandom = atoi(argv[3]);
    out o(argv[4]);
    for (auto &b : beh) {
        run x(o, {1, 2, 2, 3, 4});
        for (size_t i = 0; i + 2 < b.size(); i += 3) {
            if (b[i] == 1) x.merge(b[i + 1] - 1, b[i + 2] - 1);
            else x.erase(b[i + 1]);
        }
        fflush(o.f);
    }
    for (int n = 0; n < nrandom; ++n) {
        std::vector<int> ts;
        int t = 1, len = r.range(5, 60);
        for (int k = 0; k < len; ++k) { ts.push_back(t); t += r.chance(1, 4) ? 0 : r.range(1, 5); }
        run x(o, ts);
        int a = 0, b = 0;
        std::vector<std::pair<int, int>> past;
        for (int s = 0; s < 25; ++s) {
            if (r.chance(1, 3)) { x.erase(r.chance(1, 10) ? t + 5 : ts[r.range(0, b)] + r.range(-1, 1)); continue; }
            if (r.chance(1, 12)) { x.sort(); continue; }
            b = std::min(len - 1, b + r.below(6)); a = std::min(b, a + r.below(6));
            int aa = a, bb = b;
            if (!past.empty() && r.chance(1, 6)) { auto w = past[r.below((int)past.size())]; x.merge(w.first, w.second); continue; }   // an old packet arrives again
            while (aa > 0 && ts[aa - 1] == ts[aa]) --aa;
            while (bb + 1 < len && ts[bb + 1] == ts[bb]) ++bb;
            b = std::max(b, bb);
            past.emplace_back(aa, bb);
            x.merge(aa, bb);
        }
    }
    // sorting entries that were collected from several senders
    for (int n = 0; n < nrandom; ++n) {
        std::vector<int> ts;
        int len = r.range(0, 30);
        for (int k = 0; k < len; ++k) ts.push_back(r.range(1, 20));
        run x(o, ts);
        std::vector<std::vector<int>> its;
        for (int k = 0; k < len; ++k) { x.h.entries.push_back(x.item(k)); its.push_back({k, ts[k]}); }
        o.begin("collect").arr2("b", its);
        x.observe();
        x.sort();
        x.erase(r.range(0, 21));
    }
}

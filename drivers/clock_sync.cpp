// Drives clock_sync against simulated networks; times are ticks of 1/1024 s (exact in double).
#include "vdrv.hpp"
#include "edyn/networking/util/clock_sync.hpp"
#include <variant>
#include <map>
using namespace vdrv;

struct net {
    out &o;
    edyn::clock_sync_data cs;
    std::vector<uint32_t> sent;            // real ids in order of sending
    std::map<uint32_t, int> ord;
    std::vector<int> step;                 // ordinals sent in this step
    std::vector<long> sent_at;
    long t = 0;
    net(out &o) : o(o) {}
    void on_packet(const edyn::packet::edyn_packet &p) {
        if (auto *r = std::get_if<edyn::packet::time_request>(&p.var)) {
            auto it = ord.find(r->id);
            int k = it == ord.end() ? (int)ord.size() + 1 : it->second;
            ord[r->id] = k;
            sent.push_back(r->id); sent_at.push_back(t); step.push_back(k);
        } else { fprintf(stderr, "unexpected packet\n"); step.push_back(-1); step.push_back(-1); }
    }
    static double sec(double ticks) { return ticks / 1024; }
    void begin() { cs.send_packet.connect<&net::on_packet>(*this); o.reset(); }
    void obs() {
        o.arr("sent", step).kv("count", cs.count).kv("d", sc(cs.time_delta * 1024, 1000)).end();
        step.clear();
    }
    void upd(long rtt) {
        edyn::update_clock_sync(cs, sec(t), sec(rtt));
        o.begin("upd").kv("t", t).kv("rtt", rtt).kv("delay", std::llround(cs.delay * 1024)).kv("period", std::llround(cs.period * 1024));
        obs();
    }
    void resp(uint32_t id, long ts) {
        edyn::clock_sync_process_time_response(cs, {id, sec(ts)}, sec(t));
        o.begin("resp").kv("t", t).kv("id", ord.count(id) ? ord[id] : 0).kv("ts", ts);
        obs();
    }
};

int main(int argc, char **argv) {
    out o(argv[4]);
    for (auto &b : read_behaviours(argv[1])) {
        net n(o); n.begin();
        long off = 5000;
        for (size_t i = 0; i + 3 < b.size(); i += 4) {
            n.t += b[i + 2];
            if (b[i] == 1) n.upd(100);
            else if ((int)n.sent.size() > b[i + 1]) {
                size_t j = n.sent.size() - 1 - b[i + 1];
                n.resp(n.sent[j], n.sent_at[j] + (n.t - n.sent_at[j]) / 2 + off + b[i + 3]);
            }
        }
    }
    rng r(atoi(argv[2]));
    int runs = atoi(argv[3]);
    for (int run = 0; run < runs; ++run) {
        net n(o);
        n.begin();
        n.t = r.chance(1, 3) ? 0 : r.range(0, 200000);
        if (r.chance(2, 3)) n.cs.period = net::sec(r.range(100, 3000));
        if (r.chance(1, 3)) n.cs.delay = net::sec(r.range(1, 400));
        long off = r.range(-20000, 20000);
        long base = r.range(2, 300);                 // one way latency
        int jitter = r.chance(1, 2) ? 0 : r.range(0, 40);   // percent
        int loss = r.chance(1, 2) ? 0 : r.range(0, 40);
        int dup = r.chance(1, 2) ? 0 : r.range(0, 40);
        int rate = r.range(1, 60);                   // ticks between updates
        long avg = r.chance(3, 4) ? 2 * base * (100 + jitter) / 100 : r.range(0, 2 * base);
        struct msg { long at; uint32_t id; long ts; };
        std::vector<msg> q;
        size_t seen = 0;
        auto lat = [&] { return std::max(1L, base + (jitter ? base * r.range(-jitter, jitter) / 100 : 0)); };
        for (int k = 0; k < 160; ++k) {
            long next = n.t + rate;
            for (;;) {
                for (; seen < n.sent.size(); ++seen) {
                    if (r.below(100) < loss) continue;
                    long a = n.sent_at[seen] + lat();
                    msg m{a + lat(), n.sent[seen], a + off};
                    q.push_back(m);
                    if (r.below(100) < dup) { m.at += r.range(0, 3 * base); q.push_back(m); }
                }
                size_t best = q.size();
                for (size_t i = 0; i < q.size(); ++i) if (q[i].at <= next && (best == q.size() || q[i].at < q[best].at)) best = i;
                if (best == q.size()) break;
                msg m = q[best];
                q.erase(q.begin() + best);
                n.t = std::max(n.t, m.at);
                n.resp(m.id, m.ts);
            }
            if (r.chance(1, 40)) n.resp((uint32_t)r.next(), n.t + off);      // unknown id
            n.t = std::max(n.t, next);
            n.upd(avg);
            if (r.chance(1, 30)) n.t += r.range(0, 3000);                    // stall
        }
    }
}

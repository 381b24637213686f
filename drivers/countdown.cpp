// C03: exercises atomic_counter_sync under the controlled scheduler.
#include <thread>
#include <vector>
#include <memory>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include "edyn/parallel/atomic_counter_sync.hpp"
#include "sched.hpp"
using namespace edyn;

struct scenario { int count, threads, early, late; };   // early: decrements by main before waiting
static void body(void *p) {
    auto &s = *(scenario *)p;
    sched::log("{\"e\":\"reset\"}");
    auto *c = new atomic_counter_sync(s.count);
    sched::log("{\"e\":\"new\",\"n\":%d}", s.count);
    auto dec = [c] {
        sched::log("{\"e\":\"dec\",\"t\":%d}", sched::self());
        c->decrement();
        sched::log("{\"e\":\"decr\",\"t\":%d}", sched::self());
    };
    std::vector<std::unique_ptr<std::thread>> ts;
    int rest = s.count - s.early;
    for (int k = 0; k < s.threads; ++k) {
        int mine = rest / s.threads + (k < rest % s.threads);
        if (mine) ts.push_back(std::make_unique<std::thread>([dec, mine] { for (int i = 0; i < mine; ++i) dec(); }));
    }
    for (int i = 0; i < s.early; ++i) dec();
    if (s.late) { sched::wait_idle(); sched::log("{\"e\":\"idle\"}"); }
    sched::log("{\"e\":\"wait\",\"t\":0}");
    c->wait();
    sched::log("{\"e\":\"waited\",\"t\":0}");
    if (s.late) { sched::log("{\"e\":\"wait\",\"t\":0}"); c->wait(); sched::log("{\"e\":\"waited\",\"t\":0}"); }
    delete c;
    sched::log("{\"e\":\"gone\"}");
    for (auto &t : ts) t->join();
    sched::log("{\"e\":\"idle\"}");
}
// The reverse direction: with one decrement missing the waiter stays blocked until it comes.
static void partial(void *p) {
    auto &s = *(scenario *)p;
    sched::log("{\"e\":\"reset\"}");
    auto *c = new atomic_counter_sync(s.count);
    sched::log("{\"e\":\"new\",\"n\":%d}", s.count);
    std::vector<std::unique_ptr<std::thread>> ts;
    ts.push_back(std::make_unique<std::thread>([c] {
        sched::log("{\"e\":\"wait\",\"t\":%d}", sched::self());
        c->wait();
        sched::log("{\"e\":\"waited\",\"t\":%d}", sched::self());
    }));
    auto dec = [c] {
        sched::log("{\"e\":\"dec\",\"t\":%d}", sched::self());
        c->decrement();
        sched::log("{\"e\":\"decr\",\"t\":%d}", sched::self());
    };
    for (int k = 0; k + 1 < s.count; ++k) ts.push_back(std::make_unique<std::thread>(dec));
    sched::wait_idle();
    sched::log("{\"e\":\"idle\"}");
    dec();
    for (auto &t : ts) t->join();
    sched::log("{\"e\":\"idle\"}");
    delete c;
    sched::log("{\"e\":\"gone\"}");
}

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    const char *what = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    long n = atol(argv[3]);
    sched::open_log(argv[4]);
    int v[5];
    if (sscanf(what, "dfs-%d-%d-%d-%d-%d", v, v + 1, v + 2, v + 3, v + 4) == 5) {
        scenario s{v[0], v[1], v[2], v[3]};
        bool complete;
        long runs = sched::enumerate(v[4], n, v[1] == 0 ? partial : body, &s, &complete);
        fprintf(stderr, "schedules %ld complete %d\n", runs, complete);
        sched::close_log();
        return 0;
    }
    uint64_t rs = seed * 7919;
    auto rnd = [&](int m) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (int)((rs >> 33) % m); };
    for (long i = 0; i < n; ++i) {
        sched::plan p;
        p.seed = seed * 1000000 + i;
        int m = rnd(3);
        if (m == 0) { p.mode = sched::PCT; p.param = 1 + rnd(5); }
        else { static const int sw[] = {5, 20, 50, 80}; p.mode = sched::RANDOM; p.param = sw[rnd(4)]; }
        p.spurious = rnd(2);
        scenario s;
        s.count = 1 + rnd(6); s.threads = 1 + rnd(4); s.early = rnd(3) ? 0 : rnd(s.count + 1); s.late = rnd(4) == 0;
        sched::execute(p, rnd(4) ? body : partial, &s);
    }
    sched::close_log();
    return 0;
}

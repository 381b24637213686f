// C04: runs tasks over index ranges in the worker pool under the controlled scheduler.
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <memory>
#include <cstdlib>
#include <cstdio>
#include <entt/entity/registry.hpp>
#include <entt/signal/delegate.hpp>
#include "edyn/context/task.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "sched.hpp"
using namespace edyn;

struct scenario { int workers, size, kind; };        // kind 0 wait, 1 async, 2 async without completion
struct work {
    std::vector<int> cells;
    int size;
    void task(unsigned a, unsigned b) {
        sched::log("{\"e\":\"call\",\"t\":%d,\"a\":%u,\"b\":%u}", sched::self(), a, b);
        sched::point();
        for (unsigned i = a; i < b && i < cells.size(); ++i) cells[i] += int(i) + 1;
        sched::log("{\"e\":\"end\",\"t\":%d,\"a\":%u,\"b\":%u}", sched::self(), a, b);
    }
    bool check() { bool ok = true; for (int i = 0; i < size; ++i) ok &= cells[i] == i + 1; return ok; }
    // reads what the tasks wrote: must be ordered after all of them
    void done() { bool ok = check(); sched::log(ok ? "{\"e\":\"comp\"}" : "{\"e\":\"comp-stale\"}"); }
};
static void body(void *p) {
    auto &s = *(scenario *)p;
    auto &d = job_dispatcher::global();
    sched::log("{\"e\":\"reset\"}");
    d.start(s.workers);
    auto w = std::make_unique<work>();
    w->size = s.size;
    w->cells.assign(s.size + 2, 0);
    static const char *kinds[] = {"wait", "async", "fire"};
    sched::log("{\"e\":\"enq\",\"k\":\"%s\",\"n\":%d}", kinds[s.kind], s.size);
    auto task = task_delegate_t(entt::connect_arg_t<&work::task>{}, *w);
    if (s.kind == 0) {
        enqueue_task_wait_default(task, s.size);
        sched::log(w->check() ? "{\"e\":\"ret\"}" : "{\"e\":\"ret-stale\"}");
    } else if (s.kind == 1) {
        enqueue_task_default(task, s.size, task_completion_delegate_t(entt::connect_arg_t<&work::done>{}, *w));
    } else {
        enqueue_task_default(task, s.size, {});
    }
    sched::wait_idle();
    sched::log("{\"e\":\"idle\"}");
    d.stop();
}
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    const char *what = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    long n = atol(argv[3]);
    job_dispatcher::global();
    sched::open_log(argv[4]);
    int v[4];
    if (sscanf(what, "dfs-%d-%d-%d-%d", v, v + 1, v + 2, v + 3) == 4) {
        scenario s{v[0], v[1], v[2]};
        bool complete;
        long runs = sched::enumerate(v[3], n, body, &s, &complete);
        fprintf(stderr, "schedules %ld complete %d\n", runs, complete);
        sched::close_log();
        return 0;
    }
    uint64_t rs = seed * 7919;
    auto rnd = [&](int m) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (int)((rs >> 33) % m); };
    for (long i = 0; i < n; ++i) {
        sched::plan p;
        p.seed = seed * 1000000 + i;
        int m = rnd(3);
        if (m == 0) { p.mode = sched::PCT; p.param = 1 + rnd(5); }
        else { static const int sw[] = {5, 20, 50, 80}; p.mode = sched::RANDOM; p.param = sw[rnd(4)]; }
        p.spurious = rnd(2);
        static const int sizes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 31};
        scenario s{1 + rnd(5), sizes[rnd(13)], rnd(3)};
        sched::execute(p, body, &s);
    }
    sched::close_log();
    return 0;
}

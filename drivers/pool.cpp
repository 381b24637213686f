// C01/C02: exercises job_dispatcher and job_queue under the controlled scheduler.
#include <thread>
#include <vector>
#include <memory>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/parallel/job_queue.hpp"
#include "edyn/parallel/worker.hpp"
#include "sched.hpp"
using namespace edyn;

static job_dispatcher *pool;
static int njobs;        // ids are unique within an execution

static int checksum(const job::data_type &d, size_t from) { int s = 0; for (size_t i = from; i < d.size(); ++i) s = s * 31 + d[i]; return s & 0xffff; }

static void job_func(job::data_type &);
static job make_job(int id, int child) {
    job j;
    for (size_t i = 0; i < j.data.size(); ++i) j.data[i] = (uint8_t)(id * 7 + i);
    memcpy(j.data.data(), &id, sizeof id);
    memcpy(j.data.data() + 4, &child, sizeof child);
    j.func = &job_func;
    return j;
}
static int expected_sum(int id) { job j = make_job(id, 0); return checksum(j.data, 8); }

static void submit(int id, int child) {
    auto j = make_job(id, child);
    sched::log("{\"e\":\"sub\",\"t\":%d,\"j\":%d,\"s\":%d}", sched::self(), id, checksum(j.data, 8));
    pool->async(j);
    sched::log("{\"e\":\"subr\",\"t\":%d,\"j\":%d}", sched::self(), id);
}
static void job_func(job::data_type &d) {
    int id, child;
    memcpy(&id, d.data(), 4); memcpy(&child, d.data() + 4, 4);
    sched::log("{\"e\":\"run\",\"t\":%d,\"j\":%d,\"s\":%d}", sched::self(), id, checksum(d, 8));
    sched::point();
    if (child) submit(child, 0);
    sched::log("{\"e\":\"end\",\"t\":%d,\"j\":%d}", sched::self(), id);
}

struct scenario { int workers, submitters, jobs, kind, restart; };
// kind 0: submit, wait until idle, stop. 1: stop while jobs may be pending. 2: start and stop at once.
// 3: jobs submit jobs. 4: destructor instead of stop.
static void observe() { sched::log("{\"e\":\"obs\",\"run\":%s,\"n\":%d}", pool->running() ? "true" : "false", (int)pool->num_workers()); }

static void pool_body(void *p) {
    auto &s = *(scenario *)p;
    sched::log("{\"e\":\"reset\"}");
    pool = new job_dispatcher;
    int id = 0;
    observe();
    for (int round = 0; round <= s.restart; ++round) {
        int w = round % 2 ? (s.workers % 3) + 1 : s.workers;
        sched::log("{\"e\":\"start\",\"n\":%d}", w);
        pool->start(w);
        sched::log("{\"e\":\"started\"}");
        observe();
        if (s.kind != 2) {
            std::vector<std::unique_ptr<std::thread>> subs;
            for (int k = 0; k < s.submitters; ++k) {
                int base = id; id += s.jobs * 2;
                int jobs = s.jobs, kind = s.kind;
                subs.push_back(std::make_unique<std::thread>([base, jobs, kind] {
                    for (int i = 0; i < jobs; ++i) submit(base + 2 * i + 1, kind == 3 ? base + 2 * i + 2 : 0);
                }));
            }
            int base = id; id += s.jobs * 2;
            for (int i = 0; i < s.jobs; ++i) submit(base + 2 * i + 1, s.kind == 3 ? base + 2 * i + 2 : 0);
            for (auto &t : subs) t->join();
            if (s.kind == 0 || s.kind == 3) { sched::wait_idle(); sched::log("{\"e\":\"idle\"}"); observe(); }
        }
        if (s.kind == 4 && round == s.restart) break;
        sched::log("{\"e\":\"stop\"}");
        pool->stop();
        sched::log("{\"e\":\"stopped\"}");
        observe();
        if (s.kind == 2 && round % 2) { sched::log("{\"e\":\"stop\"}"); pool->stop(); sched::log("{\"e\":\"stopped\"}"); }
    }
    if (s.kind == 4) sched::log("{\"e\":\"stop\"}");
    delete pool;
    if (s.kind == 4) sched::log("{\"e\":\"stopped\"}");
    sched::log("{\"e\":\"fin\"}");
}

// ---- queue
struct qscenario { int producers, per, consumers, tries, sizes; };
static job_queue *queue;
static void qpush(int id) {
    auto j = make_job(id, 0);
    sched::log("{\"e\":\"call\",\"t\":%d,\"op\":\"push\",\"a\":%d}", sched::self(), id);
    queue->push(j);
    sched::log("{\"e\":\"ret\",\"t\":%d,\"r\":0}", sched::self());
}
static int payload_id(const job &j) {
    int id, child; memcpy(&id, j.data.data(), 4); memcpy(&child, j.data.data() + 4, 4);
    return j.func == &job_func && child == 0 && checksum(j.data, 8) == expected_sum(id) ? id : -999;
}
static int qpop() {
    sched::log("{\"e\":\"call\",\"t\":%d,\"op\":\"pop\",\"a\":0}", sched::self());
    auto j = queue->pop();
    int id = payload_id(j);
    sched::log("{\"e\":\"ret\",\"t\":%d,\"r\":%d}", sched::self(), id);
    return id;
}
static void qtry() {
    sched::log("{\"e\":\"call\",\"t\":%d,\"op\":\"try\",\"a\":0}", sched::self());
    job j = make_job(777, 0);
    bool ok = queue->try_pop(j);
    sched::log("{\"e\":\"ret\",\"t\":%d,\"r\":%d}", sched::self(), ok ? payload_id(j) : 0);
}
static void qsize() {
    sched::log("{\"e\":\"call\",\"t\":%d,\"op\":\"size\",\"a\":0}", sched::self());
    auto n = queue->size();
    sched::log("{\"e\":\"ret\",\"t\":%d,\"r\":%d}", sched::self(), (int)n);
}
static void queue_body(void *p) {
    auto &s = *(qscenario *)p;
    sched::log("{\"e\":\"reset\"}");
    queue = new job_queue;
    std::vector<std::unique_ptr<std::thread>> ts;
    const int POISON = 900;
    for (int k = 0; k < s.consumers; ++k)
        ts.push_back(std::make_unique<std::thread>([] { while (qpop() < POISON) {} }));
    for (int k = 0; k < s.producers; ++k) {
        int per = s.per;
        ts.push_back(std::make_unique<std::thread>([k, per] { for (int i = 0; i < per; ++i) qpush(100 * (k + 1) + i); }));
    }
    for (int i = 0; i < s.tries; ++i) qtry();
    for (int i = 0; i < s.sizes; ++i) qsize();
    sched::wait_idle();
    sched::log("{\"e\":\"idle\"}");
    qsize();
    for (int k = 0; k < s.consumers; ++k) qpush(POISON + k);
    for (auto &t : ts) t->join();
    while (queue->size() > 0) qtry();      // left over when there are no consumers
    qsize();
    qtry();
    sched::log("{\"e\":\"idle\"}");
    delete queue;
}

// A worker used directly, without a thread: `once` runs everything pending, in order, once.
static void worker_body(void *p) {
    auto &s = *(scenario *)p;
    sched::log("{\"e\":\"reset\"}");
    auto *w = new worker;
    sched::log("{\"e\":\"start\",\"n\":1}");
    sched::log("{\"e\":\"started\"}");
    int id = 0;
    auto push = [&] (int base) {
        for (int i = 0; i < s.jobs; ++i) {
            int k = base + i;
            auto j = make_job(k, 0);
            sched::log("{\"e\":\"sub\",\"t\":%d,\"j\":%d,\"s\":%d}", sched::self(), k, checksum(j.data, 8));
            w->push_job(j);
            sched::log("{\"e\":\"subr\",\"t\":%d,\"j\":%d}", sched::self(), k);
        }
    };
    std::vector<std::unique_ptr<std::thread>> ts;
    for (int k = 0; k < s.submitters; ++k) ts.push_back(std::make_unique<std::thread>([&push, k] { push(100 * (k + 1)); }));
    push(1);
    w->once();
    for (auto &t : ts) t->join();
    w->once();
    sched::log("{\"e\":\"idle\"}");
    if (w->size() != 0) sched::log("{\"e\":\"bad-size\",\"n\":%ld}", (long)w->size());
    delete w;
    sched::log("{\"e\":\"stop\"}");
    sched::log("{\"e\":\"stopped\"}");
    sched::log("{\"e\":\"fin\"}");
}

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    const char *what = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    long n = atol(argv[3]);
    sched::open_log(argv[4]);
    bool q = !strcmp(what, "queue"), stop = !strcmp(what, "stop"), wk = !strcmp(what, "worker"), dfs = strchr(what, '-') != nullptr;
    if (dfs) {          // "pool-W-S-J-K-R-B" or "queue-P-N-C-T-S-B"
        int v[6]; char name[16];
        if (sscanf(what, "%15[a-z]-%d-%d-%d-%d-%d-%d", name, v, v + 1, v + 2, v + 3, v + 4, v + 5) != 7) return 3;
        bool complete;
        long runs;
        if (!strcmp(name, "queue")) { qscenario s{v[0], v[1], v[2], v[3], v[4]}; runs = sched::enumerate(v[5], n, queue_body, &s, &complete); }
        else { scenario s{v[0], v[1], v[2], v[3], v[4]}; runs = sched::enumerate(v[5], n, pool_body, &s, &complete); }
        fprintf(stderr, "schedules %ld complete %d\n", runs, complete);
        sched::close_log();
        return 0;
    }
    uint64_t rs = seed * 7919;
    auto rnd = [&](int m) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (int)((rs >> 33) % m); };
    for (long i = 0; i < n; ++i) {
        sched::plan p;
        p.seed = seed * 1000000 + i;
        int m = rnd(3);
        if (m == 0) { p.mode = sched::PCT; p.param = 1 + rnd(6); }
        else { static const int sw[] = {5, 20, 50, 80}; p.mode = sched::RANDOM; p.param = sw[rnd(4)]; }
        p.spurious = rnd(2);
        if (q) { qscenario s{1 + rnd(3), 1 + rnd(3), rnd(3), rnd(3), rnd(2)}; sched::execute(p, queue_body, &s); }
        else if (wk) { scenario s{1, rnd(3), 1 + rnd(3), 0, 0}; sched::execute(p, worker_body, &s); }
        else {
            scenario s;
            s.workers = 1 + rnd(3); s.submitters = rnd(4); s.jobs = 1 + rnd(3);
            s.kind = stop ? (rnd(2) ? 2 : rnd(2) ? 1 : 4) : (rnd(3) ? 0 : 3);
            s.restart = stop ? rnd(3) : rnd(4) == 0;
            sched::execute(p, pool_body, &s);
        }
    }
    sched::close_log();
    return 0;
}

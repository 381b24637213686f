// C05: senders, owners and queue creation under the controlled scheduler.
#include <atomic>
#include <memory>
#include <thread>
#include <string>
#include <vector>
#include <cstdlib>
#include <cstdio>
#include <entt/entity/registry.hpp>
#include <entt/signal/sigh.hpp>
#include "edyn/parallel/message_dispatcher.hpp"
#include "sched.hpp"
using namespace edyn;
struct msg_a { int id; std::string text; };
struct msg_b { int id; std::vector<int> list; };
struct msg_c { int id; };
static std::string text_of(int id) { return "message number " + std::to_string(id) + " with some text"; }
static std::vector<int> list_of(int id) { std::vector<int> v; for (int i = 0; i < id % 5; ++i) v.push_back(id * 10 + i); return v; }

struct world {
    message_dispatcher d;
    std::atomic<int> next{1};
    void send(const char *q, const char *from, int kind) {
        int id = next.fetch_add(1);
        static const char *kinds[] = {"a", "b", "c"};
        sched::log("{\"e\":\"sb\",\"id\":%d,\"q\":\"%s\",\"from\":\"%s\",\"k\":\"%s\"}", id, q, from, kinds[kind]);
        if (kind == 0) d.send<msg_a>({q}, {from}, msg_a{id, text_of(id)});
        else if (kind == 1) { msg_b m{id, list_of(id)}; d.send<msg_b>({q}, {from}, m); }
        else d.send<msg_c>({q}, {from}, msg_c{id});
        sched::log("{\"e\":\"se\",\"id\":%d}", id);
    }
};
struct owner {
    world &w; std::string name; message_queue_handle<msg_a, msg_b> h;
    int echo; const char *echo_to;
    owner(world &w_, const char *n, int echo_, const char *to) : w(w_), name(n), h(w_.d.make_queue<msg_a, msg_b>(n)), echo(echo_), echo_to(to) {
        sched::log("{\"e\":\"mk\",\"q\":\"%s\"}", n);
        h.sink<msg_a>().connect<&owner::on_a>(*this);
        h.sink<msg_b>().connect<&owner::on_b>(*this);
        h.push_sink().connect<&owner::on_push>(*this);
    }
    void on_push() { sched::log("{\"e\":\"p\",\"q\":\"%s\"}", name.c_str()); }
    void got(int id, const std::string &from, const char *k, bool ok) {
        sched::log("{\"e\":\"d\",\"q\":\"%s\",\"id\":%d,\"from\":\"%s\",\"k\":\"%s\",\"ok\":%s}", name.c_str(), id, from.c_str(), k, ok ? "true" : "false");
        if (echo > 0) { --echo; w.send(echo_to, name.c_str(), id % 2); }
    }
    void on_a(message<msg_a> &m) { got(m.content.id, m.sender.value, "a", m.content.text == text_of(m.content.id)); }
    void on_b(message<msg_b> &m) { got(m.content.id, m.sender.value, "b", m.content.list == list_of(m.content.id)); }
    void update() {
        sched::log("{\"e\":\"ub\",\"q\":\"%s\"}", name.c_str());
        h.update();
        sched::log("{\"e\":\"ue\",\"q\":\"%s\"}", name.c_str());
    }
};
struct scenario { int senders, per, updates, owners, echo, extra, clear; };
static const char *names[] = {"main", "worker", "other"};
static void body(void *p) {
    auto &s = *(scenario *)p;
    sched::log("{\"e\":\"reset\"}");
    auto w = std::make_unique<world>();
    std::vector<std::unique_ptr<owner>> os;
    for (int i = 0; i < s.owners; ++i) os.push_back(std::make_unique<owner>(*w, names[i], s.echo, names[(i + (s.echo & 1)) % s.owners]));
    std::vector<std::unique_ptr<std::thread>> ts;
    static const char *from[] = {"s0", "s1", "s2", "s3"};
    for (int k = 0; k < s.senders; ++k)
        ts.push_back(std::make_unique<std::thread>([&, k] {
            for (int i = 0; i < s.per; ++i) {
                int q = (k + i) % (s.owners + (s.extra ? 1 : 0));
                w->send(q < s.owners ? names[q] : "nowhere", from[k], s.extra ? (i + 2 * k) % 3 : (i + k) % 2);
            }
        }));
    for (int i = 1; i < s.owners; ++i) {
        auto *o = os[i].get();
        ts.push_back(std::make_unique<std::thread>([o, &s] { for (int u = 0; u < s.updates; ++u) o->update(); }));
    }
    for (int u = 0; u < s.updates; ++u) os[0]->update();
    if (s.extra) { auto h = w->d.make_queue<msg_a>("late"); sched::log("{\"e\":\"mk\",\"q\":\"late\"}");
                   auto h2 = w->d.make_queue<msg_a, msg_b>(names[0]); sched::log("{\"e\":\"mk\",\"q\":\"%s\"}", names[0]); }
    for (auto &t : ts) t->join();
    for (int k = 0; k < 2 + s.echo; ++k) for (auto &o : os) o->update();
    sched::log("{\"e\":\"rest\"}");
}
// Queues are cleared while others send; queues made afterwards are new.
static void clearing(void *p) {
    auto &s = *(scenario *)p;
    sched::log("{\"e\":\"reset\"}");
    auto w = std::make_unique<world>();
    auto a = std::make_unique<owner>(*w, names[0], 0, names[0]);
    std::vector<std::unique_ptr<std::thread>> ts;
    for (int k = 0; k < s.senders; ++k)
        ts.push_back(std::make_unique<std::thread>([&, k] { for (int i = 0; i < s.per; ++i) w->send("elsewhere", "s0", k % 2); }));
    w->send(names[0], "me", 0);
    w->d.clear_queues();
    sched::log("{\"e\":\"clr\"}");
    a = std::make_unique<owner>(*w, names[0], 0, names[0]);
    w->send(names[0], "me", 1);
    a->update();
    for (auto &t : ts) t->join();
    sched::log("{\"e\":\"rest\"}");
}
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    const char *what = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    long n = atol(argv[3]);
    sched::open_log(argv[4]);
    int v[8];
    if (sscanf(what, "dfs-%d-%d-%d-%d-%d-%d-%d-%d", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7) == 8) {
        scenario s{v[0], v[1], v[2], v[3], v[4], v[5], v[6]};
        bool complete;
        long runs = sched::enumerate(v[7], n, s.clear ? clearing : body, &s, &complete);
        fprintf(stderr, "schedules %ld complete %d\n", runs, complete);
        sched::close_log();
        return 0;
    }
    uint64_t rs = seed * 7919;
    auto rnd = [&](int m) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (int)((rs >> 33) % m); };
    for (long i = 0; i < n; ++i) {
        sched::plan p;
        p.seed = seed * 1000000 + i;
        int m = rnd(3);
        if (m == 0) { p.mode = sched::PCT; p.param = 1 + rnd(5); }
        else { static const int sw[] = {5, 20, 50, 80}; p.mode = sched::RANDOM; p.param = sw[rnd(4)]; }
        scenario s{1 + rnd(3), 1 + rnd(4), 1 + rnd(3), 1 + rnd(3), rnd(3), rnd(2), 0};
        sched::execute(p, rnd(6) ? body : clearing, &s);
    }
    sched::close_log();
    return 0;
}

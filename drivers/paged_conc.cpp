// C15: concurrent visits of a paged mesh while pages are loaded by other threads.
#include <atomic>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <string>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <sys/syscall.h>
#include <entt/entity/registry.hpp>
#include "edyn/parallel/message_dispatcher.hpp"
#include "edyn/parallel/message.hpp"
#include "edyn/shapes/create_paged_triangle_mesh.hpp"
#include "edyn/serialization/paged_triangle_mesh_s11n.hpp"
#include "sched.hpp"
using namespace edyn;
static bool file_points = false;
// File operations are scheduling points.
extern "C" ssize_t read(int fd, void *p, size_t n) { if (file_points) sched::point(); return syscall(SYS_read, fd, p, n); }
extern "C" off64_t lseek64(int fd, off64_t o, int w) { if (file_points) sched::point(); return syscall(SYS_lseek, fd, o, w); }
struct scenario { int visitors, visits, pages, tight, file; };
static std::string dir;
static std::vector<vector3> vertices(int pages) {
    std::vector<vector3> v;
    for (int i = 0; i < pages; ++i) for (int k = 0; k < 4; ++k) v.push_back({scalar(10 * i + (k & 1)), scalar(i), scalar(k >> 1)});
    return v;
}
struct loader : triangle_mesh_page_loader_base {
    std::vector<std::shared_ptr<triangle_mesh>> store;
    std::vector<std::unique_ptr<std::thread>> threads;
    std::mutex m;
    bool later = true;
    triangle_mesh_page_loader_base *file = nullptr;
    void load(paged_triangle_mesh *pm, size_t i) override {
        sched::log("{\"e\":\"req\",\"p\":%d}", (int)i + 1);
        auto work = [this, pm, i] {
            if (file) { file->load(pm, i); return; }
            auto mesh = std::make_shared<triangle_mesh>(*store[i]);
            sched::log("{\"e\":\"arr\",\"p\":%d}", (int)i + 1);
            pm->assign_mesh(i, mesh);
        };
        if (!later) { work(); return; }
        auto lock = std::lock_guard(m);
        threads.push_back(std::make_unique<std::thread>(work));
    }
    void join() {
        for (;;) {
            std::unique_ptr<std::thread> t;
            { auto lock = std::lock_guard(m); if (threads.empty()) return; t = std::move(threads.back()); threads.pop_back(); }
            t->join();
        }
    }
};
static void body(void *p) {
    auto &s = *(scenario *)p;
    sched::log("{\"e\":\"reset\"}");
    auto v = vertices(s.pages);
    std::vector<uint32_t> ix;
    for (uint32_t i = 0; i < (uint32_t)s.pages; ++i) { uint32_t b = 4 * i; for (uint32_t x : {b, b + 1, b + 2, b + 1, b + 3, b + 2}) ix.push_back(x); }
    auto ld = std::make_shared<loader>();
    auto pm = std::make_shared<paged_triangle_mesh>(ld);
    create_paged_triangle_mesh(*pm, v.begin(), v.end(), ix.begin(), ix.end(), 2, {}, {}, nullptr);
    for (size_t i = 0; i < pm->num_submeshes(); ++i) ld->store.push_back(std::make_shared<triangle_mesh>(*pm->get_submesh(i)));
    std::string path = dir + "/c" + std::to_string((int)getpid()) + ".bin";
    std::shared_ptr<paged_triangle_mesh_file_input_archive> in;
    if (s.file) {
        { paged_triangle_mesh_file_output_archive oa(path, paged_triangle_mesh_serialization_mode::embedded); serialize(oa, *pm); }
        in = std::make_shared<paged_triangle_mesh_file_input_archive>(path, nullptr);
        pm = std::make_shared<paged_triangle_mesh>(ld);
        serialize(*in, *pm);
        ld->file = in.get();
    }
    pm->clear_cache();
    pm->m_max_cache_num_vertices = s.tight ? 5 : 4 * s.pages + 1;
    sched::log("{\"e\":\"mesh\",\"n\":%d,\"file\":%s}", (int)pm->num_submeshes(), s.file ? "true" : "false");
    file_points = s.file;
    auto good = [&](size_t mi, size_t k) {
        auto m = pm->get_submesh(mi);
        if (!m) return true;              // discarded meanwhile
        if (k >= m->num_triangles()) return false;
        auto a = m->get_triangle_vertices(k), b = ld->store[mi]->get_triangle_vertices(k);
        return a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    };
    auto visit = [&](int from, int to) {
        pm->visit_triangles({{scalar(10 * from) - 1, -1, -1}, {scalar(10 * to) + 2, 50, 2}}, [&](size_t mi, size_t k) {
            sched::log("{\"e\":\"v\",\"p\":%d,\"k\":%d,\"ok\":%s}", (int)mi + 1, (int)k + 1, good(mi, k) ? "true" : "false");
        });
    };
    std::vector<std::unique_ptr<std::thread>> ts;
    for (int k = 0; k < s.visitors; ++k)
        ts.push_back(std::make_unique<std::thread>([&, k] { for (int i = 0; i < s.visits; ++i) visit((k + i) % s.pages, s.pages - 1); }));
    for (int i = 0; i < s.visits; ++i) visit(0, s.pages - 1);
    for (auto &t : ts) t->join();
    ld->join();
    // afterwards everything is available again
    ld->later = false;
    file_points = false;
    pm->m_max_cache_num_vertices = 4 * s.pages + 1;
    visit(0, s.pages - 1);
    sched::log("{\"e\":\"fin\"}");
    visit(0, s.pages - 1);
    sched::log("{\"e\":\"end\",\"nv\":%d}", (int)pm->cache_num_vertices());
    if (s.file) unlink(path.c_str());
}
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    const char *what = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    long n = atol(argv[3]);
    sched::open_log(argv[4]);
    dir = argv[4]; dir = dir.substr(0, dir.rfind('/'));
    int v[6];
    if (sscanf(what, "dfs-%d-%d-%d-%d-%d-%d", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6) {
        scenario s{v[0], v[1], v[2], v[3], v[4]};
        bool complete;
        long runs = sched::enumerate(v[5], n, body, &s, &complete);
        fprintf(stderr, "schedules %ld complete %d\n", runs, complete);
        sched::close_log();
        return 0;
    }
    uint64_t rs = seed * 7919;
    auto rnd = [&](int m) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (int)((rs >> 33) % m); };
    for (long i = 0; i < n; ++i) {
        sched::plan p;
        p.seed = seed * 1000000 + i;
        int m = rnd(3);
        if (m == 0) { p.mode = sched::PCT; p.param = 1 + rnd(5); }
        else { static const int sw[] = {5, 20, 50, 80}; p.mode = sched::RANDOM; p.param = sw[rnd(4)]; }
        scenario s{rnd(3), 1 + rnd(2), 2 + rnd(2), rnd(2), rnd(2)};
        sched::execute(p, body, &s);
    }
    sched::close_log();
    return 0;
}

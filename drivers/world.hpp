// A world run by the library in one of its execution modes, with time under the driver's control.
#pragma once
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/edyn.hpp"
#include "edyn/time/simulation_time.hpp"
#include "edyn/context/settings.hpp"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

namespace edyn { void delay(unsigned) {} }

namespace vworld {

// The simulation thread asks for the time once per iteration: it is held there until the driver grants one.
struct gate {
    std::mutex m;
    std::condition_variable cv;
    std::thread::id worker;
    bool waiting = false, granted = false, open = false;
    double t = 0;
    void (*func)(void *) = nullptr;
    void *data = nullptr;
};
inline gate *&current() { static gate *g = nullptr; return g; }
inline std::atomic<double> &main_time() { static std::atomic<double> t{0}; return t; }

inline double time_func() {
    auto *g = current();
    if (!g) return main_time();
    std::unique_lock<std::mutex> lock(g->m);
    if (std::this_thread::get_id() != g->worker) return main_time();
    if (g->open) return g->t;
    g->waiting = true;
    g->cv.notify_all();
    g->cv.wait(lock, [&] { return g->granted || g->open; });
    g->granted = false;
    g->waiting = false;
    return g->t;
}

inline void start_thread(void (*func)(void *), void *data) {
    current()->func = func;
    current()->data = data;
}

struct world {
    entt::registry reg;
    edyn::execution_mode mode;
    std::unique_ptr<gate> g;
    std::thread th;

    world(edyn::execution_mode mode_, double t0, edyn::scalar dt) : mode(mode_) {
        main_time() = t0;
        edyn::init_config cfg;
        cfg.execution_mode = mode;
        cfg.timestamp = t0;
        cfg.fixed_dt = dt;
        cfg.num_worker_threads = 2;
        if (async()) {
            g = std::make_unique<gate>();
            current() = g.get();
            cfg.start_thread_func = &start_thread;
        }
        edyn::attach(reg, cfg);
        edyn::set_time_source(reg, &time_func);
    }
    bool async() const { return mode == edyn::execution_mode::asynchronous; }
    // in asynchronous mode the simulation thread starts at `t0`
    void start(double t0) {
        if (!async()) return;
        edyn::update(reg, t0);
        th = std::thread([this] {
            { std::lock_guard<std::mutex> lock(g->m); g->worker = std::this_thread::get_id(); }
            g->func(g->data);
        });
        wait();
        grant(t0);
    }
    void wait() {
        std::unique_lock<std::mutex> lock(g->m);
        g->cv.wait(lock, [&] { return g->waiting && !g->granted; });
    }
    // one iteration of the simulation thread, at the given time
    void grant(double t) {
        { std::lock_guard<std::mutex> lock(g->m); g->t = t; g->granted = true; g->cv.notify_all(); }
        wait();
    }
    void update(double t) {
        main_time() = t;
        if (async()) { edyn::update(reg, t); grant(t); }
        edyn::update(reg, t);
    }
    void step(double t) {
        main_time() = t;
        if (async()) {
            edyn::update(reg, t);
            edyn::step_simulation(reg, t);
            grant(t);
            edyn::update(reg, t);
        } else {
            edyn::step_simulation(reg, t);
        }
    }
    ~world() {
        if (g) { std::lock_guard<std::mutex> lock(g->m); g->open = true; g->cv.notify_all(); }
        edyn::detach(reg);
        if (th.joinable()) th.join();
        current() = nullptr;
    }
};

}

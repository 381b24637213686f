// Drives the library through update times, pauses and manual steps (C38). Times are in 1/256 s.
#include "world.hpp"
using namespace edyn;

static std::atomic<int> pre_count{0}, post_count{0};
static void on_pre(entt::registry &) { ++pre_count; }
static void on_post(entt::registry &) { ++post_count; }

static long long ticks(double x, double unit, bool &exact) {
    double v = x * unit, r = std::nearbyint(v);
    if (v != r) exact = false;
    return (long long)r;
}

struct run {
    vdrv::out &o;
    std::unique_ptr<vworld::world> w;
    entt::entity a, b;
    long long t, mode;
    double sec(long long x) { return 0x1p20 + x / 256.0; }

    void observe(const char *ev, long long arg, bool presented) {
        auto &reg = w->reg;
        bool exact = true;
        o.begin(ev).kv("t", arg).kv("steps", pre_count).kv("post", post_count);
        pre_count = post_count = 0;
        auto pa = reg.get<position>(a), pb = reg.get<position>(b);
        o.kv("pa", ticks(pa.x, 256, exact)).kv("pb", ticks(-pb.y, 65536, exact));
        o.kv("vb", ticks(-reg.get<linvel>(b).y, 256, exact));
        if (mode < 2) o.kv("sim", ticks(get_simulation_timestamp(reg) - 0x1p20, 256, exact));
        if (presented) {
            auto qa = reg.get<present_position>(a), qb = reg.get<present_position>(b);
            o.kv("qa", ticks(qa.x, 256, exact)).kv("qb", ticks(-qb.y, 65536, exact));
        }
        o.kb("exact", exact);
        o.end();
    }

    run(vdrv::out &o_, int m, int dt, int maxs) : o(o_), t(0), mode(m) {
        static const execution_mode modes[] = {execution_mode::sequential, execution_mode::sequential_multithreaded, execution_mode::asynchronous};
        w = std::make_unique<vworld::world>(modes[m], sec(0), scalar(dt / 256.0));
        auto &reg = w->reg;
        set_pre_step_callback(reg, on_pre);
        set_post_step_callback(reg, on_post);
        set_max_steps_per_update(reg, maxs);
        rigidbody_def d;
        d.mass = 1;
        d.inertia = matrix3x3_identity;
        d.sleeping_disabled = true;
        d.gravity = vector3_zero;
        d.linvel = {1, 0, 0};
        a = make_rigidbody(reg, d);
        d.linvel = {0, 0, 0};
        d.gravity = vector3{0, -1, 0};
        b = make_rigidbody(reg, d);
        pre_count = post_count = 0;
        w->start(sec(0));
        o.begin("reset").kv("mode", m).kv("dt", dt).kv("max", maxs);
        o.end();
    }
    void update(int el) {
        t += el;
        w->update(sec(t));
        observe("update", t, mode < 2 || is_paused(w->reg));
    }
    void pause(bool p) {
        set_paused(w->reg, p);
        o.begin("pause").kb("p", p).kb("is", is_paused(w->reg));
        o.end();
    }
    void manual(int el) {
        t += el;
        w->step(sec(t));
        observe("manual", t, false);
    }
    void dt(int x) {
        set_fixed_dt(w->reg, scalar(x / 256.0));
        o.begin("dt").kv("dt", x).kv("is", std::llround(get_fixed_dt(w->reg) * 256));
        o.end();
    }
    void maxs(int x) {
        set_max_steps_per_update(w->reg, x);
        o.begin("max").kv("max", x).kv("is", get_max_steps_per_update(w->reg));
        o.end();
    }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto behs = vdrv::read_behaviours(argv[1]);
    vdrv::rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    vdrv::out o(argv[4]);
    int k = 0;
    for (auto &b : behs) {
        run w(o, k % 16 == 15 ? 2 : k % 16 == 7 ? 1 : 0, 4, 2);
        ++k;
        for (size_t i = 0; i + 1 < b.size(); i += 2) {
            const int *c = &b[i];
            if (c[0] == 1) w.update(c[1]);
            else if (c[0] == 2) w.pause(c[1]);
            else if (c[0] == 3) w.manual(c[1]);
            else if (c[0] == 4) w.dt(c[1]);
            else w.maxs(c[1]);
        }
    }
    for (int i = 0; i < n; ++i) {
        run w(o, i % 3, 1 << r.range(0, 4), 1 << r.range(0, 4));
        int len = r.range(20, 80);
        bool paused = false;
        for (int j = 0; j < len; ++j) {
            int x = r.below(20);
            if (x < 13) w.update(r.chance(1, 8) ? r.range(0, 600) : r.range(0, 24));
            else if (x < 16) w.pause(paused = r.chance(1, 2));
            else if (x < 18) { if (paused) w.manual(r.range(0, 20)); }
            else if (x < 19) w.dt(1 << r.range(0, 4));
            else w.maxs(1 << r.range(0, 4));
        }
    }
}

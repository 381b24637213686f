// Drives rigid bodies through every function that changes them (C41).
#include "world.hpp"
#include "edyn/comp/center_of_mass.hpp"
#include "edyn/comp/graph_node.hpp"
#include "edyn/comp/island.hpp"
#include "edyn/comp/origin.hpp"
#include "edyn/comp/roll_direction.hpp"
#include "edyn/comp/shape_index.hpp"
#include "edyn/comp/delta_linvel.hpp"
#include "edyn/comp/delta_angvel.hpp"
#include "edyn/comp/tree_resident.hpp"
#include "edyn/comp/transient.hpp"
#include "edyn/core/entity_graph.hpp"
using namespace edyn;
using iv = std::array<int, 3>;
using tensor = std::array<int, 4>;    // xx, yy, zz, xz

struct model_body {       // what the driver needs to know to stay within the functions' preconditions
    bool alive = false; int k = 0; int m = 0; bool i = false; bool spin = false, turned = false; int shape = 0; int orn = 0; bool slept = false;
};

struct run {
    vdrv::out &o;
    std::unique_ptr<vworld::world> w;
    std::vector<entt::entity> ent;
    std::vector<model_body> mb;
    long long t = 0;
    double sec() { return t * 0.25; }
    entt::registry &reg() { return w->reg; }

    run(vdrv::out &o_, int n, execution_mode mode) : o(o_) {
        w = std::make_unique<vworld::world>(mode, 0.0, scalar(0.25));
        set_max_steps_per_update(reg(), 100);
        for (int i = 0; i < n; ++i) ent.push_back(reg().create());
        mb.resize(n);
        o.begin("reset").kv("n", n);
        o.end();
    }
    static vector3 vec(iv v, scalar f = 1) { return {v[0] * f, v[1] * f, v[2] * f}; }
    static matrix3x3 mat(tensor i) {
        return {vector3{scalar(i[0]), 0, scalar(i[3])}, vector3{0, scalar(i[1]), 0}, vector3{scalar(i[3]), 0, scalar(i[2])}};
    }
    // quarter turns about z, with the quaternion's sign free
    static quaternion quat(int q, bool flip, bool up = false) {
        // the square root of one half rounded down or up: products of such quaternions have a norm below or above one
        const double s = up ? std::nextafter(float(std::sqrt(0.5)), 1.f) : std::nextafter(float(std::sqrt(0.5)), 0.f);
        const double c[4][2] = {{1, 0}, {s, s}, {0, 1}, {-s, s}};
        double f = flip ? -1 : 1;
        return {0, 0, scalar(f * c[q & 3][1]), scalar(f * c[q & 3][0])};
    }
    static std::optional<shapes_variant_t> shape(int s) {
        switch (s) {
        case 1: return box_shape{1, 2, 3};
        case 2: return sphere_shape{2};
        case 3: return capsule_shape{1, 2, coordinate_axis::x};
        case 4: return cylinder_shape{1, 2, coordinate_axis::x};
        default: return {};
        }
    }
    std::string state(int a) {
        auto e = ent[a];
        auto &r = reg();
        std::string c;
        auto has = [&](const char *n, bool b) { if (b) { if (!c.empty()) c += ","; c += "\""; c += n; c += "\""; } };
        has("rigidbody", r.any_of<rigidbody_tag>(e)); has("position", r.any_of<position>(e)); has("orientation", r.any_of<orientation>(e));
        has("node", r.any_of<graph_node>(e)); has("dynamic", r.any_of<dynamic_tag>(e)); has("procedural", r.any_of<procedural_tag>(e));
        has("kinematic", r.any_of<kinematic_tag>(e)); has("static", r.any_of<static_tag>(e)); has("island", r.any_of<island_resident>(e));
        has("multi", r.any_of<multi_island_resident>(e)); has("mass", r.any_of<mass>(e)); has("mass_inv", r.any_of<mass_inv>(e));
        has("inertia", r.any_of<inertia>(e)); has("inertia_inv", r.any_of<inertia_inv>(e)); has("inertia_world", r.any_of<inertia_world_inv>(e));
        has("linvel", r.any_of<linvel>(e)); has("angvel", r.any_of<angvel>(e)); has("com", r.any_of<center_of_mass>(e)); has("origin", r.any_of<origin>(e));
        has("shape", r.any_of<box_shape, sphere_shape, capsule_shape, cylinder_shape>(e)); has("shape_index", r.any_of<shape_index>(e)); has("aabb", r.any_of<AABB>(e));
        has("nosleep", r.any_of<sleeping_disabled_tag>(e)); has("sleeping", r.any_of<sleeping_tag>(e)); has("rolling", r.any_of<rolling_tag>(e));
        has("roll_dir", r.any_of<roll_direction>(e)); has("gravity", r.any_of<gravity>(e)); has("present", r.any_of<present_position, present_orientation>(e));
        has("material", r.any_of<material>(e)); has("filter", r.any_of<collision_filter>(e)); has("tree", r.any_of<tree_resident>(e));
        has("networked", r.any_of<networked_tag>(e)); has("delta", r.any_of<delta_linvel, delta_angvel>(e)); has("transient", r.any_of<transient>(e));
        std::string s = "{\"comps\":[" + c + "]";
        if (r.all_of<rigidbody_tag, position, orientation>(e)) {
            bool fin = true;
            auto num = [&](double x, double f) { double v = x * f; if (!(std::abs(v) < 1e9)) { fin = false; v = 0; } return std::to_string(std::llround(v)); };
            auto v3 = [&](const char *n, const vector3 &v, double f) {
                s += std::string(",\"") + n + "\":[" + num(v.x, f) + "," + num(v.y, f) + "," + num(v.z, f) + "]";
            };
            v3("pos", r.get<position>(e), 4000);
            auto q = r.get<orientation>(e);
            int qi = -1;
            for (int k = 0; k < 4; ++k) for (int f = 0; f < 2; ++f) { auto p = quat(k, f); if (length_sqr(vector3{q.x - p.x, q.y - p.y, q.z - p.z}) + (q.w - p.w) * (q.w - p.w) < 1e-6) qi = k; }
            s += ",\"orn\":" + std::to_string(qi);
            auto *lv = r.try_get<linvel>(e); auto *av = r.try_get<angvel>(e);
            v3("lin", lv ? vector3(*lv) : vector3_zero, 1000); v3("ang", av ? vector3(*av) : vector3_zero, 1000);
            auto *m = r.try_get<mass>(e); auto *mi = r.try_get<mass_inv>(e);
            s += ",\"m\":" + num(m ? m->s : 0, 1000) + ",\"minv\":" + num(mi ? mi->s : 0, 1000);
            v3("org", get_rigidbody_origin(r, e), 4000);
            auto *og = r.try_get<origin>(e);
            v3("orgc", og ? vector3(*og) : vector3_zero, 4000);
            auto *bb = r.try_get<AABB>(e);
            v3("lo", bb ? bb->min : vector3_zero, 4000); v3("hi", bb ? bb->max : vector3_zero, 4000);
            auto &g = r.ctx().get<entity_graph>();
            auto *node = r.try_get<graph_node>(e);
            s += std::string(",\"conn\":") + (node && g.is_connecting_node(node->node_index) ? "true" : "false");
            // belongs to an island that knows it
            bool isl = false;
            if (auto *ir = r.try_get<island_resident>(e)) isl = ir->island_entity != entt::null && r.valid(ir->island_entity) && r.get<island>(ir->island_entity).nodes.contains(e);
            s += std::string(",\"isl\":") + (isl ? "true" : "false");
            s += std::string(",\"fin\":") + (fin ? "true" : "false");
        } else {
            s += ",\"pos\":[0,0,0],\"orn\":0,\"lin\":[0,0,0],\"ang\":[0,0,0],\"m\":0,\"minv\":0,\"org\":[0,0,0],\"orgc\":[0,0,0],\"lo\":[0,0,0],\"hi\":[0,0,0],\"conn\":false,\"isl\":false,\"fin\":true";
        }
        return s + "}";
    }
    void done(int a) { o.key("x").raw(state(a)); o.end(); }

    void make(int a, int k, iv pos, int orn, iv com, iv lin, iv ang, int m, tensor i, int s, bool ns, bool extras) {
        static const char *kn[] = {"d", "k", "s"};
        rigidbody_def d;
        d.kind = (rigidbody_kind)k;
        d.position = vec(pos, 0.25);
        d.orientation = quat(orn, false);
        if (com != iv{0, 0, 0}) d.center_of_mass = vec(com);
        d.linvel = vec(lin); d.angvel = vec(ang);
        d.mass = m;
        d.inertia = mat(i);
        d.gravity = vector3_zero;
        d.shape = shape(s);
        d.sleeping_disabled = ns;
        if (extras) { d.collision_group = 2; d.networked = true; }
        make_rigidbody(ent[a], reg(), d);
        o.begin("make").kv("a", a + 1).ks("k", kn[k]).arr("pos", pos).kv("orn", orn).arr("com", com).arr("lin", lin).arr("ang", ang).kv("m", m).arr("i", i).kv("shape", s).kb("ns", ns);
        done(a);
        mb[a] = {};
        mb[a].alive = true; mb[a].k = k; mb[a].m = k == 0 ? m : 0; mb[a].i = k == 0; mb[a].shape = s; mb[a].orn = orn;
        mb[a].spin = k != 2 && ang != iv{0, 0, 0};
    }
    void clear(int a) { clear_rigidbody(reg(), ent[a]); o.begin("clear").kv("a", a + 1); done(a); mb[a] = {}; }
    void kind(int a, int k) {
        static const char *kn[] = {"d", "k", "s"};
        rigidbody_set_kind(reg(), ent[a], (rigidbody_kind)k);
        o.begin("kind").kv("a", a + 1).ks("k", kn[k]); done(a);
        mb[a].k = k; mb[a].slept = false;
        if (k == 2) mb[a].spin = mb[a].turned = false;
    }
    void setmass(int a, int m) { set_rigidbody_mass(reg(), ent[a], m); o.begin("mass").kv("a", a + 1).kv("m", m); done(a); mb[a].m = m; }
    void setinertia(int a, tensor i) { set_rigidbody_inertia(reg(), ent[a], mat(i)); o.begin("inertia").kv("a", a + 1).arr("i", i); done(a); mb[a].i = true; }
    void com(int a, iv c) { set_center_of_mass(reg(), ent[a], vec(c)); o.begin("com").kv("a", a + 1).arr("c", c); done(a); }
    void org(int a, iv p) { set_rigidbody_origin(reg(), ent[a], vec(p, 0.25)); o.begin("origin").kv("a", a + 1).arr("o", p); done(a); }
    void impulse(int a, iv j, iv r) {
        rigidbody_apply_impulse(reg(), ent[a], vec(j), vec(r)); wake_up_entity(reg(), ent[a]);
        o.begin("impulse").kv("a", a + 1).arr("j", j).arr("r", r); done(a);
        mb[a].spin = true;
    }
    void torque(int a, iv q) {
        rigidbody_apply_torque_impulse(reg(), ent[a], vec(q)); wake_up_entity(reg(), ent[a]);
        o.begin("torque").kv("a", a + 1).arr("t", q); done(a);
        mb[a].spin = true;
    }
    void kinpos(int a, iv p) { set_kinematic_position(reg(), ent[a], vec(p, 0.25), scalar(0.25)); o.begin("kinpos").kv("a", a + 1).arr("p", p); done(a); }
    void kinorn(int a, int q, bool flip, bool up) {
        set_kinematic_orientation(reg(), ent[a], quat(q, flip, up), scalar(0.25));
        o.begin("kinorn").kv("a", a + 1).kv("q", q); done(a);
        mb[a].turned = q != mb[a].orn; mb[a].spin = false; mb[a].orn = q;
    }
    void setshape(int a, int s) { rigidbody_set_shape(reg(), ent[a], shape(s)); o.begin("shape").kv("a", a + 1).kv("s", s); done(a); mb[a].shape = s; }
    bool can_step() { for (auto &m : mb) if (m.alive && m.k == 0 && (m.spin || m.turned)) return false; return true; }
    void step(int n) {
        t += n;
        w->update(sec());
        o.begin("step").kv("n", n).key("x").raw("[");
        for (size_t a = 0; a < ent.size(); ++a) { if (a) o.raw(","); o.raw(state(a)); }
        o.raw("]"); o.end();
        for (auto &m : mb) if (m.alive && m.k == 0) m.slept = true;   // possibly
    }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto behs = vdrv::read_behaviours(argv[1]);
    vdrv::rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    vdrv::out o(argv[4]);
    for (auto &b : behs) {
        run w(o, 1, execution_mode::sequential);
        int px = 4;
        for (size_t i = 0; i + 1 < b.size(); i += 2) {
            int c = b[i], x = b[i + 1];
            switch (c) {
            case 1: w.make(0, x / 100 - 1, {4, 400, 8}, 0, x / 10 % 10 ? iv{1, 2, 0} : iv{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, 1, {1, 2, 2, 0}, x % 10, false, false); break;
            case 2: w.clear(0); break;
            case 3: w.kind(0, x - 1); break;
            case 4: w.setmass(0, 1); w.setinertia(0, {1, 2, 2, 0}); break;
            case 5: w.com(0, x ? iv{0, 1, 1} : iv{0, 0, 0}); break;
            case 6: w.impulse(0, {2, 0, 0}, {0, 1, 0}); break;
            case 7: w.kinpos(0, {px += 3, 400, 8}); break;
            case 8: w.kinorn(0, (w.mb[0].orn + x) & 3, false, i & 2); break;
            case 9: w.setshape(0, x); break;
            default: w.step(x);
            }
        }
    }
    for (int k = 0; k < n; ++k) {
        int nb = r.range(1, 4);
        run w(o, nb, k % 4 == 3 ? execution_mode::sequential_multithreaded : execution_mode::sequential);
        auto iner = [&] { return r.chance(1, 3) ? tensor{1, 1, 1, 0} : r.chance(1, 2) ? tensor{1, 2, 2, 0} : tensor{2, 1, 1, 1}; };
        auto small = [&] { return iv{r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)}; };
        auto even = [&] { return iv{2 * r.range(-2, 2), 2 * r.range(-2, 2), 2 * r.range(-2, 2)}; };
        auto place = [&](int a) { return iv{r.range(-40, 40), 1000 * a + r.range(-40, 40), r.range(-40, 40)}; };
        int len = r.range(15, 50);
        for (int j = 0; j < len; ++j) {
            int a = r.below(nb);
            auto &m = w.mb[a];
            if (!m.alive) {
                bool kin = r.chance(1, 2);
                iv lin = r.chance(1, 2) ? small() : iv{0, 0, 0};
                w.make(a, r.below(3), place(a), r.below(4), r.chance(1, 2) ? small() : iv{0, 0, 0}, lin, kin && r.chance(1, 4) ? small() : iv{0, 0, 0}, r.range(1, 2), iner(), r.below(5), r.chance(1, 4), r.chance(1, 4));
                continue;
            }
            switch (r.below(15)) {
            case 0: w.clear(a); break;
            case 1: case 2: { int q = r.below(3); if (q == 0 && m.k == 0 && m.slept) break; if (q != 0 || (m.m && m.i)) w.kind(a, q); break; }
            case 3: w.setmass(a, r.range(1, 2)); break;
            case 4: w.setinertia(a, iner()); break;
            case 5: case 6: if (!m.turned && !(m.k == 0 && m.slept)) w.com(a, r.chance(1, 3) ? iv{0, 0, 0} : small()); break;
            case 7: if (m.k == 0 && !m.slept && !m.turned) w.org(a, place(a)); break;
            case 8: if (m.k == 0) w.impulse(a, even(), small()); break;
            case 9: if (m.k == 0) w.torque(a, even()); break;
            case 10: if (m.k == 1) w.kinpos(a, place(a)); break;
            case 11: if (m.k == 1) w.kinorn(a, r.chance(1, 3) ? m.orn : r.below(4), r.chance(1, 3), r.chance(1, 2)); break;
            case 12: w.setshape(a, r.below(5)); break;
            default: if (w.can_step()) w.step(r.chance(1, 4) ? 12 : r.range(1, 3));
            }
        }
    }
}

// Casts rays against worlds of bodies of every shape, directly and through the simulation thread (C39).
#include "world.hpp"
#include "mesh_gen.hpp"
#include "edyn/collision/raycast.hpp"
#include "edyn/comp/center_of_mass.hpp"
#include "edyn/comp/origin.hpp"
#include <map>
using namespace geo;
using edyn::raycast_result;

struct answer { int calls = 0; bool same = true; raycast_result res; };

struct run {
    out &o; rng &r;
    std::unique_ptr<vworld::world> w;
    std::vector<entt::entity> ent;
    std::vector<std::string> js_;          // shape part of the record
    std::vector<iv> pos; std::vector<rot> rt; std::vector<bool> movable; std::vector<std::vector<iv>> axes;
    std::map<edyn::raycast_id_type, answer> answers;
    struct req { vector3 p0, p1; };
    std::map<edyn::raycast_id_type, req> reqs;
    const std::vector<rot> &RR;
    double t = 0;

    run(out &o_, rng &r_, const std::vector<rot> &RR_) : o(o_), r(r_), RR(RR_) {}
    static std::string poly_js(const ihull &h) {
        std::string fn = "[", f0 = "[";
        for (auto &f : h.faces) {
            iv n = crossi(sub(h.v[f[1]], h.v[f[0]]), sub(h.v[f[2]], h.v[f[0]]));
            fn += (fn.size() > 1 ? "," : "") + js(n); f0 += (f0.size() > 1 ? "," : "") + std::to_string(f[0] + 1);
        }
        return "\"t\":4,\"v\":" + jl(h.v) + ",\"fn\":" + fn + "],\"f0\":" + f0 + "]";
    }
    static polyhedron_shape poly(const ihull &h) {
        auto m = std::make_shared<convex_mesh>();
        for (auto &v : h.v) m->vertices.push_back(f(v));
        for (auto &fc : h.faces) { m->faces.push_back((uint32_t)m->indices.size()); m->faces.push_back((uint32_t)fc.size()); for (int i : fc) m->indices.push_back(i); }
        m->update_calculated_properties();     // (initialize would move it to its centroid)
        return polyhedron_shape(m);
    }
    const rot &any_rot() { return RR[r.below((int)RR.size())]; }
    // a primitive: hands the shape to `use` and returns its record without braces
    template<typename U> std::string prim(U use, int small) {
        int t = r.below(5), rad = r.range(1, small), len = r.range(1, small), ax = r.below(3); iv h = {r.range(1, small), r.range(1, small), r.range(1, small)};
        auto axis = coordinate_axis(ax);
        std::string rl = ",\"r\":" + std::to_string(rad) + ",\"l\":" + std::to_string(len) + ",\"ax\":" + std::to_string(ax);
        switch (t) {
        case 0: use(sphere_shape{scalar(rad)}); return "\"t\":0,\"r\":" + std::to_string(rad);
        case 1: use(cylinder_shape{scalar(rad), scalar(len), axis}); return "\"t\":1" + rl;
        case 2: use(capsule_shape{scalar(rad), scalar(len), axis}); return "\"t\":2" + rl;
        case 3: use(box_shape{f(h)}); return "\"t\":3,\"h\":" + js(h);
        default: { auto hh = rand_hull(r, small, 7); use(poly(hh)); return poly_js(hh); }
        }
    }
    void body(int extent) {
        rigidbody_def def;
        iv p = ri(r, extent); rot R = any_rot(); std::string s;
        int what = r.below(12);
        bool fixed = false;
        if (what < 7) s = prim([&](auto sh) { def.shape = sh; }, 3);
        else if (what < 10) {
            compound_shape co; s = "\"t\":5,\"ps\":[";
            for (int i = 0, n = r.range(1, 4); i < n; ++i) {
                iv q = ri(r, 3); rot Q = any_rot();
                if (i) s += ",";
                s += "{" + prim([&](auto sh) { co.add_shape(sh, f(q), Q.q); }, 2) + ",\"pos\":" + js(q) + ",\"m\":" + jm(Q) + "}";
            }
            co.finish(); def.shape = co; s += "]";
        } else if (what == 10) {
            const int ns[][3] = {{25, 0, 0}, {0, 25, 0}, {0, 0, -25}, {15, 20, 0}, {0, -15, 20}, {20, 0, 15}, {12, 15, 16}};
            auto *n = ns[r.below(7)]; int c = r.range(-8, 8);
            def.shape = plane_shape{vector3{scalar(n[0] / 25.0), scalar(n[1] / 25.0), scalar(n[2] / 25.0)}, scalar(c)};
            s = "\"t\":6,\"n\":" + js(iv{n[0], n[1], n[2]}) + ",\"c\":" + std::to_string(c); fixed = true;
        } else {
            auto im = rand_mesh(r, 4); auto tm = std::make_shared<triangle_mesh>(); build_mesh(im, *tm);
            def.shape = mesh_shape{tm}; s = "\"t\":7,\"ts\":[";
            for (size_t k = 0; k < im.t.size(); ++k) s += (k ? ",[" : "[") + js(im.v[im.t[k][0]]) + "," + js(im.v[im.t[k][1]]) + "," + js(im.v[im.t[k][2]]) + "]";
            s += "]"; fixed = true;
        }
        if (fixed) { p = {0, 0, 0}; R = RR[0]; for (auto &x : RR) if (x.m[0][0] == 25 && x.m[1][1] == 25) R = x; }
        int k = fixed ? 2 : r.below(4);
        def.kind = k == 2 ? rigidbody_kind::rb_static : k == 3 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_dynamic;
        def.position = f(p); def.orientation = R.q;
        def.mass = 1; def.inertia = matrix3x3_identity; def.gravity = vector3_zero;
        def.collision_group = 0; def.collision_mask = 0; def.sleeping_disabled = true;
        if (!fixed && r.chance(1, 4)) def.center_of_mass = f(ri(r, 2));
        auto e = make_rigidbody(w->reg, def);
        ent.push_back(e); js_.push_back(s); pos.push_back(p); rt.push_back(R); movable.push_back(k < 2);
    }
    void settle() { for (int i = 0; i < 3; ++i) { t += 0.25; w->update(t); } }
    void on_ray(edyn::raycast_id_type id, const raycast_result &res, vector3 p0, vector3 p1) {
        auto &a = answers[id]; a.calls++; a.res = res;
        auto &q = reqs[id]; a.same = q.p0 == p0 && q.p1 == p1;
    }
    std::string js_answer(const answer &a) {
        int b = 0; for (size_t i = 0; i < ent.size(); ++i) if (a.res.entity == ent[i]) b = (int)i + 1;
        bool h = a.res.entity != entt::entity{entt::null};
        std::string inf = info(a.res.info_var);
        return std::string("{\"c\":") + std::to_string(a.same ? a.calls : -1) + ",\"b\":" + std::to_string(b) + ",\"h\":" + (h ? "true" : "false") +
            ",\"f\":" + std::to_string(h ? sc(a.res.fraction, 100000) : 0) + ",\"n\":" + (h ? js(a.res.normal) : "[0,0,0]") + ",\"i\":[" + (h ? inf : "") + "]}";
    }
    template<typename V> static std::string info(const V &v) {
        return std::visit([](auto &&x) -> std::string {
            using T = std::decay_t<decltype(x)>;
            auto S = [](size_t i) { return i > 100000 ? std::string("-1") : std::to_string(i); };
            if constexpr(std::is_same_v<T, box_raycast_info>) return "1," + S(x.face_index);
            else if constexpr(std::is_same_v<T, cylinder_raycast_info>) return "2," + std::to_string((int)x.feature) + (x.feature == cylinder_feature::face ? "," + S(x.face_index) : "");
            else if constexpr(std::is_same_v<T, capsule_raycast_info>) return "3," + std::to_string((int)x.feature) + (x.feature == capsule_feature::hemisphere ? "," + S(x.hemisphere_index) : "");
            else if constexpr(std::is_same_v<T, polyhedron_raycast_info>) return "4," + S(x.face_index);
            else if constexpr(std::is_same_v<T, compound_raycast_info>) return "5," + S(x.child_index) + "," + info(x.child_info_var);
            else if constexpr(std::is_same_v<T, mesh_raycast_info>) return "6," + S(x.triangle_index);
            else if constexpr(std::is_same_v<T, std::monostate>) return "0";
            else return "9";
        }, v);
    }
    void rays(int n) {
        struct cast { iv p0, p1; std::vector<int> ig; std::vector<edyn::raycast_id_type> ids; std::vector<answer> a; };
        std::vector<cast> cs;
        for (int i = 0; i < n; ++i) {
            cast c;
            for (;;) {
                int how = r.below(6), b = r.below((int)ent.size());
                iv near = pos[b], d = ri(r, 3); near = {near.x + d.x, near.y + d.y, near.z + d.z};
                c.p0 = ri(r, 12);
                if (how == 0) c.p1 = ri(r, 12);
                else if (how == 1) c.p1 = near;                                  // ends at or in it
                else if (how == 2) { iv u = sub(near, c.p0); c.p1 = {c.p0.x - u.x, c.p0.y - u.y, c.p0.z - u.z}; }     // away from it
                else if (how == 3) { iv u = sub(near, c.p0); c.p1 = {near.x + u.x, near.y + u.y, near.z + u.z}; }     // through it
                else if (how == 4) { int ax = r.below(3), l = r.range(1, 14) * (r.below(2) ? 1 : -1); c.p0 = near; (&c.p0.x)[ax] = r.range(-12, 12); c.p1 = c.p0; (&c.p1.x)[ax] += l; }   // along a world axis
                else {        // along an axis of the body
                    int ax = r.below(3); auto &m = rt[b].m; iv u = {m[0][ax], m[1][ax], m[2][ax]};
                    int g = std::__gcd(std::__gcd(std::abs(u.x), std::abs(u.y)), std::abs(u.z));
                    u = {u.x / g, u.y / g, u.z / g};
                    int k = std::max(1, 12 / (std::abs(u.x) + std::abs(u.y) + std::abs(u.z))) , sg = r.below(2) ? 1 : -1;
                    k = r.range(1, k);
                    c.p0 = {near.x - sg * k * u.x, near.y - sg * k * u.y, near.z - sg * k * u.z};
                    int kk = r.range(1, 2);
                    c.p1 = {c.p0.x + sg * kk * k * u.x, c.p0.y + sg * kk * k * u.y, c.p0.z + sg * kk * k * u.z};
                }
                iv u = sub(c.p1, c.p0);
                auto big = [](iv a, int m) { return std::abs(a.x) > m || std::abs(a.y) > m || std::abs(a.z) > m; };
                if (big(c.p0, 20) || big(c.p1, 30) || big(u, 40) || (!u.x && !u.y && !u.z)) continue;
                break;
            }
            if (r.chance(1, 2)) for (size_t k = 0; k < ent.size(); ++k) if (r.chance(1, 3)) c.ig.push_back((int)k + 1);
            cs.push_back(c);
        }
        answers.clear(); reqs.clear();
        for (auto &c : cs) for (size_t k = 0; k <= ent.size(); ++k) {
            std::vector<entt::entity> ig;
            if (k < ent.size()) { for (size_t j = 0; j < ent.size(); ++j) if (j != k) ig.push_back(ent[j]); }
            else for (int j : c.ig) ig.push_back(ent[j - 1]);
            if (w->async()) {
                auto id = edyn::raycast_async(w->reg, f(c.p0), f(c.p1), edyn::raycast_delegate_type(entt::connect_arg_t<&run::on_ray>{}, *this), ig);
                reqs[id] = {f(c.p0), f(c.p1)}; c.ids.push_back(id);
            } else { answer a; a.calls = 1; a.res = edyn::raycast(w->reg, f(c.p0), f(c.p1), ig); c.a.push_back(a); }
        }
        if (w->async()) { for (int i = 0; i < 3; ++i) w->update(t); for (auto &c : cs) for (auto id : c.ids) c.a.push_back(answers[id]); }
        for (auto &c : cs) {
            std::string s = "["; for (size_t k = 0; k < ent.size(); ++k) s += (k ? "," : "") + js_answer(c.a[k]);
            rec(o, "ray").i("p0", c.p0).i("p1", c.p1).raw("ig", jlist(c.ig)).raw("one", s + "]").raw("all", js_answer(c.a.back()));
        }
        fflush(o.f);
    }
    void go(int n, execution_mode mode, int rounds, int nr) {
        w = std::make_unique<vworld::world>(mode, 0.0, scalar(0.25));
        set_gravity(w->reg, vector3_zero);
        int extent = r.range(3, 8);
        for (int i = 0; i < n; ++i) body(extent);
        w->start(0);
        settle();
        std::string s = "[";
        for (int i = 0; i < n; ++i) s += (i ? ",{" : "{") + js_[i] + ",\"pos\":" + js(pos[i]) + ",\"m\":" + jm(rt[i]) + "}";
        o.begin("reset").kv("mode", (int)mode).key("bs").raw(s + "]"); o.end();
        for (int q = 0; q < rounds; ++q) {
            if (q > 0) {
                int b = r.below((int)ent.size());
                if (movable[b]) {
                    pos[b] = ri(r, extent); rt[b] = any_rot();
                    w->reg.replace<orientation>(ent[b], rt[b].q);
                    edyn::set_rigidbody_origin(w->reg, ent[b], f(pos[b]));
                    rec(o, "move").n("k", b + 1).i("pos", pos[b]).raw("m", jm(rt[b]));
                } else if (ent.size() > 1 && r.chance(1, 2)) {
                    w->reg.destroy(ent[b]);
                    ent.erase(ent.begin() + b); pos.erase(pos.begin() + b); rt.erase(rt.begin() + b); movable.erase(movable.begin() + b);
                    rec(o, "drop").n("k", b + 1);
                }
                settle();
            }
            rays(nr);
        }
    }
};

int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    auto RR = all_rots();
    for (int i = 0; i < N; ++i) {
        run x(o, r, RR);
        auto mode = i % 3 == 0 ? execution_mode::asynchronous : i % 3 == 1 ? execution_mode::sequential : execution_mode::sequential_multithreaded;
        x.go(r.range(1, 6), mode, 4, 8);
    }
}

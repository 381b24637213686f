// Contacts: the rows a contact prepares, what solving them does, pushing apart, stored impulses.
#include "joint_scene.hpp"
#include <edyn/constraints/contact_constraint.hpp>
#include <edyn/constraints/contact_extras_constraint.hpp>
#include <edyn/constraints/constraint_row_friction.hpp>
#include <edyn/constraints/constraint_row_spin_friction.hpp>
#include <edyn/comp/delta_linvel.hpp>
#include <edyn/comp/delta_angvel.hpp>
static iv unit5(rng &r) {                                       // a unit vector in fifths
    static const iv P[] = {{5, 0, 0}, {3, 4, 0}, {4, 3, 0}};
    auto p = P[r.below(3)]; int a[3] = {p.x, p.y, p.z};
    for (int i = 2; i > 0; --i) std::swap(a[i], a[r.below(i + 1)]);
    for (auto &x : a) if (r.below(2)) x = -x;
    return {a[0], a[1], a[2]};
}
static im turn5(rng &r) {
    static const int C[] = {5, 4, 3, 4, 3}, S[] = {0, 3, 4, -3, -4};
    int k = r.below(5); return mul(cube(r), axrot5(r.below(3), C[k], S[k]));
}
static im whole5(rng &r) { auto c = cube(r); for (auto &x : c.m) for (auto &e : x) e *= 5; return c; }
struct con_scene { scene s; iv n, d0{}, d1{}; bool ext; int dist = 0, mu = 0, re = 0, np = 1, st = 0, da = 0, sp = 0, ro = 0; int ia, ib; iv ja, jb; };
static con_scene rand_con(rng &r) {
    con_scene c; auto &s = c.s;
    s = rand_scene(r, false); s.A.R = turn5(r); s.B.R = turn5(r); s.B.p = add(s.A.p, ri(r, 9));
    c.n = unit5(r); c.ext = false; c.mu = r.range(0, 4); c.re = maybe(r, 3); c.dist = r.range(-6, 4);
    c.ia = r.range(1, 3); c.ib = r.range(1, 3);
    c.ja = {r.range(1, 3), r.range(1, 3), r.range(1, 3)}; c.jb = {r.range(1, 3), r.range(1, 3), r.range(1, 3)};
    int st = r.below(4); if (st == 0) { c.ia = 0; c.ja = {0, 0, 0}; } if (st == 1) { c.ib = 0; c.jb = {0, 0, 0}; }
    return c;
}
static void extras(con_scene &c, rng &r) {
    c.ext = true; c.np = r.range(1, 4); c.st = maybe(r, 20); c.da = maybe(r, 6); c.sp = maybe(r, 3); c.ro = maybe(r, 3);
    if (r.below(3) == 0) c.d0 = unit5(r);
    if (r.below(3) == 0) c.d1 = unit5(r);
}
static constraint_body body_of(const body &b, int im, iv j) { auto c = cb(b, im); c.inv_I = diagonal_matrix(f(j)); return c; }
static void set(contact_constraint &k, const con_scene &c) {
    k.pivotA = f(c.s.pa); k.pivotB = f(c.s.pb); k.normal = f(c.n) * scalar(0.2); k.local_normal = k.normal; k.normal_attachment = contact_normal_attachment::none;
    k.distance = scalar(c.dist) * scalar(0.2); k.friction = scalar(c.mu) * scalar(0.25); k.restitution = scalar(c.re) * scalar(0.25);
}
static void set(contact_extras_constraint &k, const con_scene &c) {
    set(static_cast<contact_constraint &>(k), c);
    k.num_points = c.np; k.stiffness = c.st ? scalar(c.st) : large_scalar; k.damping = c.da; k.spin_friction = scalar(c.sp) * scalar(0.25); k.roll_friction = scalar(c.ro) * scalar(0.25);
    static_cast<vector3 &>(k.roll_dir[0]) = f(c.d0) * scalar(0.2); static_cast<vector3 &>(k.roll_dir[1]) = f(c.d1) * scalar(0.2);
}
static std::string jJ(const std::array<vector3, 4> &J) { return "\"J\":{\"j0\":" + js(J[0]) + ",\"j1\":" + js(J[1]) + ",\"j2\":" + js(J[2]) + ",\"j3\":" + js(J[3]) + "}"; }
static std::string jpair(const constraint_row_friction &x) {
    std::string s = "[";
    for (int i = 0; i < 2; ++i) s += (i ? ",{" : "{") + jJ(x.row[i].J) + ",\"eff\":" + std::to_string(sc(x.row[i].eff_mass, 1e5)) + ",\"rhs\":" + std::to_string(sc(x.row[i].rhs, 1000)) + ",\"imp\":" + std::to_string(sc(x.row[i].impulse, 1000)) + ",\"mu\":" + std::to_string(sc(x.friction_coefficient, 1000)) + "}";
    return s + "]";
}
static constraint_row_prep_cache cache;                          // one for all, cleared before each use as the solver does
template<typename Con> static void prep(Con &k, const constraint_body &a, const constraint_body &b) { cache.clear(); cache.add_constraint(); k.prepare(cache, scalar(DT), a, b); }
static void con_rec(rec &x, const con_scene &c) {
    scene_rec(x, c.ext ? "extras" : "contact", c.s);
    x.i("n", c.n).i("d0", c.d0).i("d1", c.d1).n("ia", c.ia).n("ib", c.ib).i("ja", c.ja).i("jb", c.jb);
    x.raw("q", fin(N("dist", c.dist) + N("mu", c.mu) + N("re", c.re) + N("np", c.np) + N("st", c.st) + N("da", c.da) + N("sp", c.sp) + N("ro", c.ro)));
}
static void rows_rec(rec &x) {
    auto &e = cache.rows[0]; auto &w = e.row;
    x.n("rows", cache.num_rows);
    x.raw("nr", "{" + jJ(w.J) + ",\"lo\":" + std::to_string(big(w.lower_limit)) + ",\"hi\":" + std::to_string(big(w.upper_limit)) + ",\"err\":" + std::to_string(big(e.options.error)) + ",\"rest\":" + std::to_string(sc(e.options.restitution, 1000)) + ",\"imp\":" + std::to_string(sc(w.impulse, 1000)) + "}");
    x.raw("fr", e.flags & constraint_row_flag_friction ? jpair(e.friction) : "[]");
    x.raw("rl", e.flags & constraint_row_flag_rolling_friction ? jpair(e.rolling) : "[]");
    if (e.flags & constraint_row_flag_spinning_friction) {
        auto &p = e.spinning;
        x.raw("sn", "[{\"ja\":" + js(p.J[0]) + ",\"jb\":" + js(p.J[1]) + ",\"eff\":" + std::to_string(sc(p.eff_mass, 1e5)) + ",\"rhs\":" + std::to_string(sc(p.rhs, 1000)) + ",\"imp\":" + std::to_string(sc(p.impulse, 1000)) + ",\"mu\":" + std::to_string(sc(p.friction_coefficient, 1000)) + "}]");
    } else x.raw("sn", "[]");
}
template<typename Con> static void prepare_event(out &o, Con &k, const con_scene &c) {
    set(k, c);
    prep(k, body_of(c.s.A, c.ia, c.ja), body_of(c.s.B, c.ib, c.jb));
    rec x(o, "prepare"); con_rec(x, c); rows_rec(x);
}
template<typename Con> static void store_event(out &o, Con &k, const con_scene &c, int base) {
    std::vector<scalar> v; int n = 3 + (c.ext && c.ro ? 2 : 0) + (c.ext && c.sp ? 1 : 0);
    for (int i = 0; i < n; ++i) v.push_back(scalar(base + i));
    v.shrink_to_fit(); k.store_applied_impulses(v);
    rec x(o, "store"); x.b("ro", c.ext && c.ro).b("sp", c.ext && c.sp).n("base", base);
}
// Behaviours of the specification: each number is a step of a life of one contact: its material (soft, rolling,
// spinning) and whether the solver stored its impulses.
static void lives(const char *path, rng &r, out &o) {
    for (auto &b : vdrv::read_behaviours(path)) {
        o.reset(); contact_constraint k{}; contact_extras_constraint kx{}; bool ext = b[0]; int base = 1;
        kx.spin_friction_impulse = 0; kx.rolling_friction_impulse = {0, 0};
        for (size_t i = 1; i < b.size(); ++i) {
            auto c = rand_con(r); int t = b[i];
            if (ext) { extras(c, r); c.st = t & 1 ? r.range(1, 20) : 0; c.ro = t & 2 ? r.range(1, 3) : 0; c.sp = t & 4 ? r.range(1, 3) : 0; c.dist = r.range(-6, 2); prepare_event(o, kx, c); if (t & 8) store_event(o, kx, c, base += 10); }
            else { prepare_event(o, k, c); if (t & 8) store_event(o, k, c, base += 10); }
        }
    }
}
static void resolve(rng &r, out &o) {                            // a contact alone, solved to the end
    auto c = rand_con(r); if (c.dist < 0) c.dist = 0; if (r.below(2)) c.dist = 0;
    contact_constraint k{}; set(k, c);
    auto a = body_of(c.s.A, c.ia, c.ja), b = body_of(c.s.B, c.ib, c.jb); prep(k, a, b);
    std::vector<constraint_row> rs{cache.rows[0].row}; auto fr = cache.rows[0].friction; fr.normal_row_index = 0;
    delta_linvel dva{vector3_zero}, dvb{vector3_zero}; delta_angvel dwa{vector3_zero}, dwb{vector3_zero};
    auto &w = rs[0]; w.inv_mA = a.inv_m; w.inv_mB = b.inv_m; w.inv_IA = a.inv_I; w.inv_IB = b.inv_I; w.dvA = &dva; w.dvB = &dvb; w.dwA = &dwa; w.dwB = &dwb;
    prepare_row(w, cache.rows[0].options, a.linvel, a.angvel, b.linvel, b.angvel);
    scalar before = 0; vector3 f0{}, f1{};
    for (int it = 0; it < 2000; ++it) {
        before = w.impulse; f0 = fr.row[0].J[0] * fr.row[0].impulse + fr.row[1].J[0] * fr.row[1].impulse;
        solve_friction(fr, rs); auto i = solve(w); apply_row_impulse(i, w);
    }
    f1 = fr.row[0].J[0] * fr.row[0].impulse + fr.row[1].J[0] * fr.row[1].impulse;
    bool conv = std::abs(before - w.impulse) < 1e-3 && length(f1 - f0) < 1e-3;
    rec x(o, "resolve"); con_rec(x, c); x.b("conv", conv).v("dva", dva).v("dvb", dvb).v("dwa", dwa).v("dwb", dwb).s("ni", w.impulse).v("f", f1);
}
template<typename Con> static void push_one(rng &r, out &o, con_scene c, Con &k) {
    int at = r.below(3);
    // the pivots of an attached normal are close
    for (;;) { auto sep = ri(r, at == 0 ? 8 : 1); auto d = d3(sep, c.n); if (d > (at == 0 ? 30 : 5) || d == 0) continue; auto PB = add(add(c.s.A.p, levA(c.s)), sep); c.s.B.p = sub(PB, levB(c.s)); break; }
    set(k, c);
    auto a = body_of(c.s.A, c.ia, c.ja), b = body_of(c.s.B, c.ib, c.jb);
    k.normal_attachment = at == 0 ? contact_normal_attachment::none : at == 1 ? contact_normal_attachment::normal_on_A : contact_normal_attachment::normal_on_B;
    k.local_normal = at == 0 ? k.normal : rotate(conjugate(at == 1 ? a.orn : b.orn), k.normal);
    origin oa, ob; oa = a.origin; ob = b.origin; position pa, pb; pa = a.pos; pb = b.pos; orientation na, nb; na = a.orn; nb = b.orn;
    inertia_inv la, lb; la = a.inv_I; lb = b.inv_I; inertia_world_inv wa, wb; auto A = to_matrix3x3(a.orn), B = to_matrix3x3(b.orn); wa = A * la * transpose(A); wb = B * lb * transpose(B);
    position_solver ps; auto zero = [](iv v) { return v.x == 0 && v.y == 0 && v.z == 0; };
    ps.originA = zero(c.s.A.c) ? nullptr : &oa; ps.originB = zero(c.s.B.c) ? nullptr : &ob; ps.comA = f(c.s.A.c); ps.comB = f(c.s.B.c);
    ps.posA = &pa; ps.posB = &pb; ps.ornA = &na; ps.ornB = &nb; ps.inv_mA = a.inv_m; ps.inv_mB = b.inv_m; ps.inv_IA = &wa; ps.inv_IB = &wb; ps.inv_IA_local = &la; ps.inv_IB_local = &lb;
    k.solve_position(ps); scalar first = k.distance;
    for (int it = 0; it < 300; ++it) k.solve_position(ps);
    auto PA = to_world_space(k.pivotA, ps.get_originA(), na), PB = to_world_space(k.pivotB, ps.get_originB(), nb);
    rec x(o, "push"); con_rec(x, c);
    x.n("at", at).s("first", first).s("last", k.distance).v("n1", k.normal).v("nw", at == 0 ? k.local_normal : rotate(at == 1 ? na : nb, k.local_normal));
    x.v("apos1", pa).v("bpos1", pb).v("ax0", rotate(a.orn, vector3_x)).v("ax1", rotate(na, vector3_x)).v("ay0", rotate(a.orn, vector3_y)).v("ay1", rotate(na, vector3_y)).v("bx0", rotate(b.orn, vector3_x)).v("bx1", rotate(nb, vector3_x)).v("by0", rotate(b.orn, vector3_y)).v("by1", rotate(nb, vector3_y)).v("pa1", PA).v("pb1", PB).s("most", ps.max_error);
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    rng r(atoi(argv[2])); int n = atoi(argv[3]); out o(argv[argc - 1]); std::string b = argv[1];
    if (b != "-") { lives(argv[1], r, o); return 0; }
    for (int i = 0; i < n; ++i) {
        resolve(r, o);
        { contact_constraint k{}; push_one(r, o, rand_con(r), k); }
        { contact_extras_constraint k{}; auto c = rand_con(r); extras(c, r); if (r.below(2)) c.st = 0; push_one(r, o, c, k); }
    }
}

// Joints: the rows they prepare, what solving them does, position correction, counted turns.
#include "joint_scene.hpp"
#include <edyn/constraints/point_constraint.hpp>
#include <edyn/constraints/distance_constraint.hpp>
#include <edyn/constraints/soft_distance_constraint.hpp>
#include <edyn/constraints/gravity_constraint.hpp>
#include <edyn/constraints/cone_constraint.hpp>
#include <edyn/constraints/hinge_constraint.hpp>
#include <edyn/constraints/cvjoint_constraint.hpp>
#include <edyn/constraints/generic_constraint.hpp>
struct lim { int on = 1, mn = 0, mx = 0, re = 0, bl = 0, bs = 0, fr = 0, ra = 0, st = 0, da = 0; };
// limits around a coordinate x; `u` per unit. Never within a hair of a decision.
static lim rand_lim(rng &r, int x, int u, bool lin) {
    lim d; for (;;) {
        d.mn = d.mx = 0;
        if (!r.chance(1, 4)) { d.mn = r.range(-3, 2) * u / (lin ? 1 : 2); d.mx = d.mn + r.range(1, 5) * u / (lin ? 1 : 2); }
        d.bl = maybe(r, 2) * u / (lin ? 1 : 4); d.bs = maybe(r, 5);
        if (std::abs(2 * x - d.mn - d.mx) < 40 && !lin) continue;
        if (lin && 2 * x == d.mn + d.mx && d.mn < d.mx) continue;      // a tie: either side
        if (!lin) { bool near = false; for (int t : {d.mn, d.mx, d.mn + d.bl, d.mx - d.bl}) if (std::abs(x - t) < 40) near = true; if (near && d.mn < d.mx) continue; }
        if (d.mn < d.mx && d.mn + d.bl > d.mx - d.bl) continue;
        break;
    }
    d.on = r.chance(3, 4); d.re = maybe(r, 3); d.fr = maybe(r, 5); d.da = maybe(r, 4); d.st = maybe(r, 5); d.ra = r.range(-2, 2) * u / (lin ? 1 : 2);
    return d;
}
static std::string jlim(const lim &d) { return fin("\"on\":" + std::string(d.on ? "true," : "false,") + N("mn", d.mn) + N("mx", d.mx) + N("re", d.re) + N("bl", d.bl) + N("bs", d.bs) + N("fr", d.fr) + N("ra", d.ra) + N("st", d.st) + N("da", d.da)); }
template<typename Con> static void pivots(Con &c, const scene &s) { c.pivot[0] = f(s.pa); c.pivot[1] = f(s.pb); }
template<typename Con> static void frames(Con &c, const scene &s) { pivots(c, s); c.frame[0] = fm(s.fa); c.frame[1] = fm(s.fb); }
static scalar rad(int a) { return scalar(a * RADU); }
static void hinge_params(hinge_constraint &h, const lim &d, int speed) {
    h.angle_min = rad(d.mn); h.angle_max = rad(d.mx); h.limit_restitution = scalar(d.re * 0.25); h.bump_stop_angle = rad(d.bl); h.bump_stop_stiffness = d.bs;
    h.torque = d.fr; h.speed = speed; h.rest_angle = rad(d.ra); h.stiffness = d.st; h.damping = d.da;
}
struct bend { iv rd{1, 0, 0}; int bk = 0, bf = 0, bd = 0; };
static void cv_params(cvjoint_constraint &h, const lim &d, const bend &b) {
    h.twist_min = rad(d.mn); h.twist_max = rad(d.mx); h.twist_restitution = scalar(d.re * 0.25); h.twist_bump_stop_angle = rad(d.bl); h.twist_bump_stop_stiffness = d.bs;
    h.twist_friction_torque = d.fr; h.twist_rest_angle = rad(d.ra); h.twist_stiffness = d.st; h.twist_damping = d.da;
    h.rest_direction = f(b.rd); h.bend_stiffness = b.bk; h.bend_friction_torque = b.bf; h.bend_damping = b.bd;
}
static std::string jcv(const lim &d, const bend &b) { auto s = jlim(d); s.back() = ','; return s + "\"rd\":" + js(b.rd) + "," + N("bk", b.bk) + N("bf", b.bf) + N("bd", b.bd).substr(0, N("bd", b.bd).size() - 1) + "}"; }
static std::string jhinge(const lim &d, int sp) { auto s = jlim(d); s.back() = ','; return s + "\"sp\":" + std::to_string(sp) + "}"; }
// bend of B's twist axis against the rest direction: at most a right angle
static bool bend_ok(const scene &s, iv rd) { auto t = mv(s.B.R, iv{s.fb.m[0][0], s.fb.m[1][0], s.fb.m[2][0]}); return d3(mv(s.A.R, rd), t) >= 0; }
static bool bend_rate_ok(const scene &s) {
    iv ta = mv(s.A.R, iv{s.fa.m[0][0], s.fa.m[1][0], s.fa.m[2][0]}), tb = mv(s.B.R, iv{s.fb.m[0][0], s.fb.m[1][0], s.fb.m[2][0]});
    auto whole = [](iv a) { return a.x % 5 == 0 && a.y % 5 == 0 && a.z % 5 == 0; };
    if (!whole(ta) || !whole(tb)) return false;
    ta = {ta.x / 5, ta.y / 5, ta.z / 5}; tb = {tb.x / 5, tb.y / 5, tb.z / 5};
    auto x = sub(sub(s.A.w, mulk(d3(s.A.w, ta), ta)), sub(s.B.w, mulk(d3(s.B.w, tb), tb)));
    return square(d3(x, x));
}
static void rows(rng &r, out &o) {
    {   // point
        auto s = rand_scene(r, true); place(s, rand_turn(r, s, r.below(3), true), ri(r, 6)); int fr = maybe(r, 4);
        auto d = r.chance(1, 3) ? iv{0, 0, 0} : pyth(r); s.B.w = sub(s.A.w, d);
        point_constraint c{}; pivots(c, s); c.friction_torque = fr;
        rec x(o, "rows"); scene_rec(x, "point", s); x.n("a", 0).raw("q", fin(N("fr", fr))).raw("rows", jrows(c, cb(s.A, 1), cb(s.B, 1)));
    }
    {   // distance
        auto s = rand_scene(r, true); place(s, rand_turn(r, s, r.below(3), true), r.chance(1, 8) ? iv{0, 0, 0} : ri(r, 9)); int d = r.range(0, 4);
        distance_constraint c{}; pivots(c, s); c.distance = d;
        rec x(o, "rows"); scene_rec(x, "distance", s); x.n("a", 0).raw("q", fin(N("d", d))).raw("rows", jrows(c, cb(s.A, 1), cb(s.B, 1)));
    }
    {   // soft distance
        auto s = rand_scene(r, true); place(s, rand_turn(r, s, r.below(3), true), r.chance(1, 10) ? iv{0, 0, 0} : mulk(r.below(3) ? 5 : 1, pyth(r))); int d = r.range(0, 6), st = r.range(1, 5), da = r.range(0, 4);
        soft_distance_constraint c{}; pivots(c, s); c.distance = d; c.stiffness = st; c.damping = da;
        rec x(o, "rows"); scene_rec(x, "soft", s); x.n("a", 0).raw("q", fin(N("d", d) + N("st", st) + N("da", da))).raw("rows", jrows(c, cb(s.A, 1), cb(s.B, 1)));
    }
    {   // gravity
        auto s = rand_scene(r, true); place(s, rand_turn(r, s, r.below(3), true), {0, 0, 0}); s.B.p = sub(s.A.p, mulk(5, pyth(r)));
        gravity_constraint c{}; int ma = r.range(1, 4), mb = r.range(1, 4);
        rec x(o, "rows"); scene_rec(x, "gravity", s); x.n("a", 0).raw("q", fin(N("ma", ma) + N("mb", mb))).raw("rows", jrows(c, cb(s.A, 1e-6 / ma), cb(s.B, 1e-6 / mb)));
    }
    {   // hinge: any relative rotation about the axis
        auto s = rand_scene(r, true); place(s, rand_turn(r, s, 0, true), r.below(2) ? iv{0, 0, 0} : ri(r, 3));
        auto d = rand_lim(r, s.ang[0], 10000, false); int sp = r.range(-2, 2);
        if (!s.half) {
            hinge_constraint c{}; frames(c, s); hinge_params(c, d, sp);
            auto a = cb(s.A, 1), b = cb(s.B, 1); c.reset_angle(a.orn, b.orn);
            rec x(o, "rows"); scene_rec(x, "hinge", s); x.n("a", s.ang[0]).raw("q", jhinge(d, sp)).raw("rows", jrows(c, a, b));
        }
    }
    for (int t = 0; t < 2; ++t) {   // cv joint: twist only with bending off, or bending of whole axes
        auto s = rand_scene(r, true); int m = r.below(3); auto T = rand_turn(r, s, m, m == 0); place(s, T, r.below(2) ? iv{0, 0, 0} : ri(r, 3));
        if (s.half) continue;
        int a0 = m == 0 ? s.ang[0] : 0;
        auto d = rand_lim(r, a0, 10000, false); bend b; b.bk = maybe(r, 5); b.bf = maybe(r, 3); b.bd = maybe(r, 3);
        b.rd = r.below(2) ? iv{s.fa.m[0][0], s.fa.m[1][0], s.fa.m[2][0]} : pyth(r); if (d3(b.rd, b.rd) != 1) b.rd = {0, 1, 0};
        if (!bend_ok(s, b.rd)) b.bk = 0;
        if (r.below(4) == 0) s.B.w = s.A.w;
        if ((b.bf || b.bd) && !bend_rate_ok(s)) b.bf = b.bd = 0;
        cvjoint_constraint c{}; frames(c, s); cv_params(c, d, b);
        auto a = cb(s.A, 1), bb = cb(s.B, 1); c.reset_angle(a.orn, bb.orn);
        rec x(o, "rows"); scene_rec(x, "cv", s); x.n("a", a0).raw("q", jcv(d, b)).raw("rows", jrows(c, a, bb));
    }
    {   // generic
        auto s = rand_scene(r, true); int m = r.below(3); auto T = rand_turn(r, s, m, m == 0); place(s, T, mulk(r.below(2) ? 5 : 1, ri(r, 3)));
        if (!s.half) {
            generic_constraint c{}; frames(c, s); std::string L = "[", R = "["; bool full = r.chance(1, 6);
            auto sep = sub(add(s.B.p, levB(s)), add(s.A.p, levA(s)));
            for (int i = 0; i < 3; ++i) {
                int x = d3(sep, mv(s.A.R, iv{s.fa.m[0][i], s.fa.m[1][i], s.fa.m[2][i]})) / 5;
                auto d = rand_lim(r, x, 5, true); if (full) { d.on = 1; d.st = 3; d.fr = 2; d.bs = 2; d.bl = 5; d.mn = -10; d.mx = x == 5 ? 15 : 20; }
                auto &g = c.linear_dofs[i]; g.limit_enabled = d.on; g.offset_min = scalar(d.mn) / 5; g.offset_max = scalar(d.mx) / 5; g.limit_restitution = scalar(d.re * 0.25); g.bump_stop_length = scalar(d.bl) / 5;
                g.bump_stop_stiffness = d.bs; g.friction_force = d.fr; g.rest_offset = scalar(d.ra) / 5; g.spring_stiffness = d.st; g.damping = d.da; g.applied_impulse = {};
                L += (i ? "," : "") + jlim(d);
                auto e = rand_lim(r, s.ang[i], 10000, false); if (full) { e.on = 1; e.st = 3; e.fr = 2; e.bs = 2; e.bl = 5000; e.mn = -20011; e.mx = 30023; }
                auto &h = c.angular_dofs[i]; h.limit_enabled = e.on; h.angle_min = rad(e.mn); h.angle_max = rad(e.mx); h.limit_restitution = scalar(e.re * 0.25); h.bump_stop_angle = rad(e.bl);
                h.bump_stop_stiffness = e.bs; h.friction_torque = e.fr; h.rest_angle = rad(e.ra); h.spring_stiffness = e.st; h.damping = e.da; h.applied_impulse = {};
                R += (i ? "," : "") + jlim(e);
            }
            rec x(o, "rows"); scene_rec(x, "generic", s); x.n("a", 0).raw("q", "{\"an\":[" + std::to_string(s.ang[0]) + "," + std::to_string(s.ang[1]) + "," + std::to_string(s.ang[2]) + "],\"l\":" + L + "],\"r\":" + R + "]}").raw("rows", jrows(c, cb(s.A, 1), cb(s.B, 1)));
        }
    }
    {   // cone
        auto s = rand_scene(r, true); int ty = r.range(1, 3), tz = r.range(1, 3);
        static const iv YZ[] = {{0, 5, 0}, {0, 0, 5}, {0, 3, 4}, {0, 4, 3}, {0, 10, 0}, {0, 6, 8}, {0, 0, 10}};
        auto yz = YZ[r.below(7)]; if (r.below(2)) yz.y = -yz.y; if (r.below(2)) yz.z = -yz.z;
        int rr = (int)std::lround(std::sqrt(yz.y * yz.y + yz.z * yz.z)), xx = r.range(-rr + 1, 15);
        im I{}; for (int i = 0; i < 3; ++i) I.m[i][i] = 5;
        s.fb = s.fa; place(s, I, {0, 0, 0});
        auto loc = iv{xx, yz.y * ty, yz.z * tz};                 // fifths, in the frame
        auto sepw = mv(mul(s.A.R, s.fa), loc); sepw = {sepw.x / 5, sepw.y / 5, sepw.z / 5};
        s.B.R = cube(r); for (auto &x : s.B.R.m) for (auto &e : x) e *= 5;
        s.B.p = sub(add(add(s.A.p, levA(s)), sepw), levB(s));
        cone_constraint c{}; pivots(c, s); c.frame = fm(s.fa); c.span_tan = {scalar(ty), scalar(tz)}; int re = maybe(r, 3), bs = maybe(r, 4), bl = maybe(r, 2);
        c.restitution = scalar(re * 0.25); c.bump_stop_stiffness = bs; c.bump_stop_length = bl;
        rec x(o, "cone"); scene_rec(x, "cone", s); x.raw("q", fin(N("ty", ty) + N("tz", tz) + N("re", re) + N("bs", bs) + N("bl", bl))).raw("rows", jrows(c, cb(s.A, 1), cb(s.B, 1)));
    }
}
static std::string more;
template<typename Con> static void settle_one(rng &r, out &o, const char *k, scene &s, Con &con, int spin) {
    int ma = r.range(1, 4), mb = r.range(1, 4), ia = r.range(1, 4), ib = r.range(1, 4);
    auto a = cb(s.A, 1.0 / ma), b = cb(s.B, 1.0 / mb);
    a.inv_I = diagonal_matrix(vector3_one * scalar(1.0 / ia)); b.inv_I = diagonal_matrix(vector3_one * scalar(1.0 / ib));
    auto rs = rows_of(con, a, b);
    delta_linvel dva{vector3_zero}, dvb{vector3_zero}; delta_angvel dwa{vector3_zero}, dwb{vector3_zero};
    for (auto &e : rs) {
        auto &w = e.row; w.inv_mA = a.inv_m; w.inv_mB = b.inv_m; w.inv_IA = a.inv_I; w.inv_IB = b.inv_I; w.dvA = &dva; w.dvB = &dvb; w.dwA = &dwa; w.dwB = &dwb;
        prepare_row(w, e.options, a.linvel, a.angvel, b.linvel, b.angvel);
        warm_start(w);
    }
    for (int it = 0; it < 600; ++it) for (auto &e : rs) { auto i = solve(e.row); apply_row_impulse(i, e.row); }
    rec x(o, "settle"); scene_rec(x, k, s); x.n("ma", ma).n("mb", mb).n("ia", ia).n("ib", ib).v("dva", dva).v("dvb", dvb).v("dwa", dwa).v("dwb", dwb).n("free", spin); o.raw(more); more.clear();
}
static void settle(rng &r, out &o) {
    auto s = rand_scene(r, false); im T = rand_turn(r, s, r.below(3), false); place(s, T, {0, 0, 0});
    { point_constraint c{}; pivots(c, s); settle_one(r, o, "point", s, c, 0); }
    { auto t = s; cvjoint_constraint c{}; frames(c, t); settle_one(r, o, "cv", t, c, 0); }
    { auto t = s; im X = rand_turn(r, t, 0, true); place(t, X, {0, 0, 0}); hinge_constraint c{}; frames(c, t); settle_one(r, o, "hinge", t, c, 1000); }
    { auto t = s; im I{}; for (int i = 0; i < 3; ++i) I.m[i][i] = 5; generic_constraint c{}; bool on[3]; iv off{}; int *po[3] = {&off.x, &off.y, &off.z};
      for (int i = 0; i < 3; ++i) { on[i] = r.chance(2, 3); if (!on[i]) *po[i] = r.range(-3, 3); c.linear_dofs[i].limit_enabled = on[i]; }
      place(t, I, mv(mul(t.A.R, t.fa), off)); frames(c, t); more = std::string(",\"on\":[") + (on[0] ? "true," : "false,") + (on[1] ? "true," : "false,") + (on[2] ? "true]" : "false]"); for (auto &d : c.linear_dofs) d.applied_impulse = {}; for (auto &d : c.angular_dofs) d.applied_impulse = {}; settle_one(r, o, "generic", t, c, 0); }
    { auto t = s; auto p = pyth(r); place(t, T, mulk(5, p)); distance_constraint c{}; pivots(c, t); int n; square(d3(p, p), &n); c.distance = n; settle_one(r, o, "distance", t, c, 0); }
}
template<typename Con> static void pos_one(rng &r, out &o, const char *k, scene &s, Con &con, bool sat, const std::string &more, int mn, int mx) {
    int ma = r.range(1, 4), mb = r.range(1, 4);
    auto a = cb(s.A, 1.0 / ma), b = cb(s.B, 1.0 / mb);
    origin oa, ob; oa = a.origin; ob = b.origin; position pa, pb; pa = a.pos; pb = b.pos; orientation na, nb; na = a.orn; nb = b.orn;
    inertia_inv la, lb; la = diagonal_matrix(vector3{scalar(1.0 / r.range(1, 4)), scalar(1.0 / r.range(1, 4)), scalar(1.0 / r.range(1, 4))}); lb = matrix3x3_identity;
    inertia_world_inv wa, wb; auto A = to_matrix3x3(a.orn), B = to_matrix3x3(b.orn); wa = A * la * transpose(A); wb = B * lb * transpose(B);
    position_solver ps; bool za = s.A.c.x == 0 && s.A.c.y == 0 && s.A.c.z == 0, zb = s.B.c.x == 0 && s.B.c.y == 0 && s.B.c.z == 0;
    ps.originA = za ? nullptr : &oa; ps.originB = zb ? nullptr : &ob; ps.comA = f(s.A.c); ps.comB = f(s.B.c);
    ps.posA = &pa; ps.posB = &pb; ps.ornA = &na; ps.ornB = &nb; ps.inv_mA = a.inv_m; ps.inv_mB = b.inv_m; ps.inv_IA = &wa; ps.inv_IB = &wb; ps.inv_IA_local = &la; ps.inv_IB_local = &lb;
    auto p0 = pa, q0 = pb;
    vector3 xa0 = rotate(na, con.frame[0].column(0)), xb0 = rotate(nb, con.frame[1].column(0));
    for (int it = 0; it < 1000; ++it) con.solve_position(ps);
    auto PA = to_world_space(con.pivot[0], ps.get_originA(), na), PB = to_world_space(con.pivot[1], ps.get_originB(), nb);
    vector3 xa1 = rotate(na, con.frame[0].column(0)), xb1 = rotate(nb, con.frame[1].column(0));
    rec x(o, "pos"); scene_rec(x, k, s);
    x.n("ma", ma).n("mb", mb).b("ok", sat).v("apos0", p0).v("apos1", pa).v("bpos0", q0).v("bpos1", pb).v("xa0", xa0).v("xa1", xa1).v("xb0", xb0).v("xb1", xb1).v("pa1", PA).v("pb1", PB).n("mn", mn).n("mx", mx);
    iv off{}; { auto d = PB - PA; off = {(int)sc(dot(d, rotate(na, con.frame[0].column(0))), 1000), (int)sc(dot(d, rotate(na, con.frame[0].column(1))), 1000), (int)sc(dot(d, rotate(na, con.frame[0].column(2))), 1000)}; }
    x.i("off", off);
    // twist of B relative to A, computed here: the angle about A's x axis after aligning the x axes
    { auto ya = rotate(na, con.frame[0].column(1)), za2 = rotate(na, con.frame[0].column(2)); auto yb = rotate(shortest_arc(xb1, xa1), rotate(nb, con.frame[1].column(1))); x.s("ang", std::atan2(dot(yb, za2), dot(yb, ya)), 10000); }
    o.raw(more);
}
static void pos(rng &r, out &o) {
    bool sat = r.chance(1, 3);
    { auto s = rand_scene(r, false); im T = rand_turn(r, s, sat ? 0 : r.below(3), sat); place(s, T, sat ? iv{0, 0, 0} : ri(r, 5)); hinge_constraint c{}; frames(c, s); pos_one(r, o, "hinge", s, c, sat, "", 0, 0); }
    { auto s = rand_scene(r, false); im T = rand_turn(r, s, r.below(3), false); place(s, T, sat ? iv{0, 0, 0} : ri(r, 5)); cvjoint_constraint c{}; frames(c, s); int mn = 0, mx = 0; if (r.below(2)) { mn = -r.range(1, 8) * 1000; mx = r.range(1, 8) * 1000; }
      c.twist_min = rad(mn); c.twist_max = rad(mx); int a = s.m == 0 ? s.ang[0] : 0; bool in = mn < mx ? a >= mn && a <= mx : a == 0; c.reset_angle(q5(s.A.R), q5(s.B.R)); pos_one(r, o, "cv", s, c, sat && in, "", mn, mx); }
    { auto s = rand_scene(r, false); im T = rand_turn(r, s, r.below(3), false); place(s, T, sat ? iv{0, 0, 0} : ri(r, 12)); generic_constraint c{}; frames(c, s); iv mn{}, mx{}; bool on[3]; int *pm[3] = {&mn.x, &mn.y, &mn.z}, *px[3] = {&mx.x, &mx.y, &mx.z};
      for (int i = 0; i < 3; ++i) { on[i] = r.chance(3, 4); if (r.below(2)) { *pm[i] = -r.range(0, 2); *px[i] = r.range(0, 2); } c.linear_dofs[i].limit_enabled = on[i]; c.linear_dofs[i].offset_min = *pm[i]; c.linear_dofs[i].offset_max = *px[i]; }
      pos_one(r, o, "generic", s, c, sat, ",\"lmn\":" + js(mn) + ",\"lmx\":" + js(mx) + ",\"on\":[" + (on[0] ? "true," : "false,") + (on[1] ? "true," : "false,") + (on[2] ? "true]" : "false]"), 0, 0); }
}
// Behaviours of the specification: a hinge or cv joint (first number) whose bodies are turned step by step.
static void turns(const char *path, rng &r, out &o) {
    for (auto &b : vdrv::read_behaviours(path)) {
        if (b.size() < 2) continue;
        bool hinge = b[0] == 0;
        auto s = rand_scene(r, false); im I{}; for (int i = 0; i < 3; ++i) I.m[i][i] = 5; place(s, I, {0, 0, 0});
        lim d; d.st = r.range(0, 3); d.ra = r.range(-3, 3) * 5000; d.mn = -r.range(1, 12) * 6000 - 13; d.mx = r.range(1, 12) * 6000 + 29; d.re = 1; d.bs = 2; d.bl = 4000; d.da = maybe(r, 2);
        hinge_constraint h{}; cvjoint_constraint c{}; bend nb; frames(h, s); frames(c, s); hinge_params(h, d, 0); cv_params(c, d, nb);
        o.reset();
        h.reset_angle(q5(s.A.R), q5(s.B.R)); c.reset_angle(q5(s.A.R), q5(s.B.R));
        im T = I;
        for (size_t i = 1; i < b.size(); ++i) {
            // 0: stay; +-1 quarter of B; +-2 quarter of A; +-3: 3-4-5 angle of B
            int t = b[i], by = 0;
            if (t == 1 || t == -1) { T = div(mul(T, axrot5(0, 0, 5 * t)), 5); by = Q * t; }
            if (t == 2 || t == -2) { auto G = mul(mul(s.fa, axrot5(0, 0, 5 * (t / 2))), tr(s.fa)); s.A.R = div(mul(s.A.R, G), 5); T = div(mul(axrot5(0, 0, -5 * (t / 2)), T), 5); by = -Q * (t / 2); }
            place(s, T, {0, 0, 0});
            auto A = cb(s.A, 1), B = cb(s.B, 1);
            rec x(o, "turn"); scene_rec(x, hinge ? "hinge" : "cv", s); x.n("by", by).raw("q", hinge ? jhinge(d, 0) : jcv(d, nb)).raw("rows", hinge ? jrows(h, A, B) : jrows(c, A, B)).s("now", hinge ? h.angle : c.twist_angle, 10000);
        }
    }
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    rng r(atoi(argv[2])); int n = atoi(argv[3]); out o(argv[argc - 1]);
    std::string b = argv[1];
    if (b != "-") { turns(argv[1], r, o); return 0; }
    for (int i = 0; i < n; ++i) { rows(r, o); if (i % 3 == 0) settle(r, o); if (i % 3 == 1) pos(r, o); }
}

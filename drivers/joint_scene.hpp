// Scenes of two bodies shared by the joint and contact drivers.
#pragma once
#include "geo_drv.hpp"
#include <entt/entity/registry.hpp>
#include <edyn/comp/origin.hpp>
#include <edyn/comp/position.hpp>
#include <edyn/comp/orientation.hpp>
#include <edyn/comp/inertia.hpp>
#include <edyn/constraints/constraint_body.hpp>
#include <edyn/dynamics/row_cache.hpp>
#include <edyn/dynamics/position_solver.hpp>
#include <edyn/math/transform.hpp>
using namespace geo;
static const double DT = 0.5, RADU = 1e-4;
struct im { int m[3][3]; };
static im mul(const im &a, const im &b) { im r{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j]; return r; }
static im tr(const im &a) { im r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i]; return r; }
static iv mv(const im &a, iv v) { return {a.m[0][0] * v.x + a.m[0][1] * v.y + a.m[0][2] * v.z, a.m[1][0] * v.x + a.m[1][1] * v.y + a.m[1][2] * v.z, a.m[2][0] * v.x + a.m[2][1] * v.y + a.m[2][2] * v.z}; }
static iv add(iv a, iv b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static iv sub(iv a, iv b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static iv mulk(int k, iv a) { return {k * a.x, k * a.y, k * a.z}; }
static int d3(iv a, iv b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static im div(const im &a, int k) { im r = a; for (auto &x : r.m) for (auto &e : x) e /= k; return r; }
static im cube(rng &r) { static auto C = cube_rots(); im a; memcpy(a.m, C[r.below((int)C.size())].m, sizeof a.m); return div(a, 25); }
static im axrot5(int ax, int c, int s) { im a{}; int x = (ax + 1) % 3, y = (ax + 2) % 3; a.m[ax][ax] = 5; a.m[x][x] = c; a.m[y][y] = c; a.m[x][y] = -s; a.m[y][x] = s; return a; }
static quaternion q5(const im &a) { int m[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = a.m[i][j] * 5; return quat_of(m); }
static std::string jmi(const im &a) { std::string s = "["; for (int i = 0; i < 3; ++i) s += (i ? "," : "") + js(iv{a.m[i][0], a.m[i][1], a.m[i][2]}); return s + "]"; }
static matrix3x3 fm(const im &a) { matrix3x3 r; for (int i = 0; i < 3; ++i) r.row[i] = f(iv{a.m[i][0], a.m[i][1], a.m[i][2]}); return r; }
static bool square(int n, int *root = nullptr) { int k = (int)std::lround(std::sqrt((double)n)); if (root) *root = k; return k * k == n; }
struct body { iv p, c; im R; iv v, w; };                      // p, R in fifths
static std::string jb(const body &b) { return "{\"p\":" + js(b.p) + ",\"c\":" + js(b.c) + ",\"R\":" + jmi(b.R) + ",\"v\":" + js(b.v) + ",\"w\":" + js(b.w) + "}"; }
struct scene { body A, B; iv pa, pb; im fa, fb; int m = 0, ang[3] = {0, 0, 0}, half = 0; double imass = 1; };
static constraint_body cb(const body &b, double im) {
    constraint_body c; c.pos = f(b.p) * scalar(0.2); c.orn = q5(b.R);
    c.origin = f(sub(b.p, mv(b.R, b.c))) * scalar(0.2);
    c.linvel = f(b.v); c.angvel = f(b.w); c.inv_m = scalar(im); c.inv_I = matrix3x3_identity; return c;
}
static iv levA(const scene &s) { return mv(s.A.R, sub(s.pa, s.A.c)); }
static iv levB(const scene &s) { return mv(s.B.R, sub(s.pb, s.B.c)); }
// The frames of A and B differ by T (fifths), the pivots by sep (fifths: pivotB - pivotA).
static void place(scene &s, const im &T, iv sep) {
    auto F = mul(mul(s.A.R, s.fa), T);                        // 25ths
    s.B.R = div(mul(F, tr(s.fb)), 5);
    auto PB = add(add(s.A.p, levA(s)), sep);
    s.B.p = sub(PB, levB(s));
}
static scene rand_scene(rng &r, bool off) {
    scene s; s.A.p = mulk(5, ri(r, 3)); s.A.c = r.below(2) ? iv{0, 0, 0} : ri(r, 1); s.B.c = r.below(2) ? iv{0, 0, 0} : ri(r, 1);
    s.A.R = cube(r); for (auto &x : s.A.R.m) for (auto &e : x) e *= 5;
    s.fa = cube(r); s.fb = cube(r); s.pa = ri(r, 2); s.pb = ri(r, 2);
    s.A.v = ri(r, 3); s.A.w = ri(r, 3); s.B.v = ri(r, 3); s.B.w = ri(r, 3);
    (void)off; return s;
}
static const int Q = 15708;
// A relative rotation about axis m of the frame: quarter turns and 3-4-5 angles.
static im rand_turn(rng &r, scene &s, int m, bool quarters) {
    static const int C[] = {5, 4, 3, 4, 3, 0, -5, 0}, S[] = {0, 3, 4, -3, -4, 5, 0, -5}, Aq[] = {0, 6435, 9273, -6435, -9273, Q, 2 * Q, -Q};
    int k = r.below(quarters ? 8 : 5);
    s.m = m; s.ang[0] = s.ang[1] = s.ang[2] = 0;
    s.ang[m] = m == 1 ? -Aq[k] : Aq[k]; s.half = k == 6;
    return axrot5(m, C[k], S[k]);
}
template<typename Con> static std::vector<constraint_row_prep_cache::element> rows_of(Con &con, const constraint_body &a, const constraint_body &b) {
    auto cache = std::make_unique<constraint_row_prep_cache>();
    cache->add_constraint();
    con.prepare(*cache, scalar(DT), a, b);
    return {cache->rows.begin(), cache->rows.begin() + cache->num_rows};
}
static long long big(double x) { if (x > 1e12) return 999999999; if (x < -1e12) return -999999999; auto v = sc(x, 1000); return v; }
template<typename Con> static std::string jrows(Con &con, const constraint_body &a, const constraint_body &b) {
    auto n = rows_of(con, a, b).size();
    std::vector<scalar> imp; for (size_t i = 0; i < n; ++i) imp.push_back(scalar(i + 1));
    imp.shrink_to_fit();
    con.store_applied_impulses(imp);
    auto rows = rows_of(con, a, b); std::string s = "[";
    for (size_t i = 0; i < rows.size(); ++i) {
        auto &e = rows[i]; auto &J = e.row.J;
        s += (i ? ",{" : "{") + ("\"J\":{\"j0\":" + js(J[0]) + ",\"j1\":" + js(J[1]) + ",\"j2\":" + js(J[2]) + ",\"j3\":" + js(J[3]) + "}") +
             ",\"lo\":" + std::to_string(big(e.row.lower_limit)) + ",\"hi\":" + std::to_string(big(e.row.upper_limit)) + ",\"err\":" + std::to_string(big(e.options.error)) +
             ",\"rest\":" + std::to_string(sc(e.options.restitution, 1000)) + ",\"erp\":" + std::to_string(sc(e.options.erp, 1000)) + ",\"imp\":" + std::to_string(sc(e.row.impulse, 1000)) + "}";
    }
    return s + "]";
}
static void scene_rec(rec &o, const char *k, const scene &s) {
    o.raw("k", "\"" + std::string(k) + "\"").raw("A", jb(s.A)).raw("B", jb(s.B)).i("pa", s.pa).i("pb", s.pb).raw("fa", jmi(s.fa)).raw("fb", jmi(s.fb));
}
static std::string N(const char *k, long long v) { return "\"" + std::string(k) + "\":" + std::to_string(v) + ","; }
static std::string fin(std::string s) { s.back() = '}'; return "{" + s; }
static int maybe(rng &r, int hi) { return r.below(2) ? 0 : r.range(1, hi); }
// Pythagorean vectors (in units) of integer length
static iv pyth(rng &r) {
    static const iv P[] = {{1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {3, 4, 0}, {1, 2, 2}, {2, 3, 6}, {4, 3, 0}, {2, 1, 2}, {1, 4, 8}};
    auto p = P[r.below(9)]; int a[3] = {p.x, p.y, p.z};
    for (int i = 2; i > 0; --i) std::swap(a[i], a[r.below(i + 1)]);
    for (auto &x : a) if (r.below(2)) x = -x;
    return {a[0], a[1], a[2]};
}

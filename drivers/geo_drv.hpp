// Helpers of the geometry drivers: integer inputs, scaled outputs, exact rotations.
#pragma once
#include "vdrv.hpp"
#include <edyn/math/vector2.hpp>
#include <edyn/math/vector3.hpp>
#include <edyn/math/quaternion.hpp>
#include <edyn/math/matrix3x3.hpp>
#include <edyn/math/coordinate_axis.hpp>
#include <algorithm>
#include <array>
namespace geo {
using namespace edyn;
using vdrv::out; using vdrv::rng; using vdrv::sc;
struct iv { int x, y, z; };
inline vector3 f(iv a) { return {scalar(a.x), scalar(a.y), scalar(a.z)}; }
inline vector2 f2(iv a) { return {scalar(a.x), scalar(a.y)}; }
inline iv ri(rng &r, int m) { return {r.range(-m, m), r.range(-m, m), r.range(-m, m)}; }
inline std::string js(iv a) { return "[" + std::to_string(a.x) + "," + std::to_string(a.y) + "," + std::to_string(a.z) + "]"; }
inline std::string js2(iv a) { return "[" + std::to_string(a.x) + "," + std::to_string(a.y) + "]"; }
inline std::string js(const vector3 &a, double s = 1000) { return "[" + std::to_string(sc(a.x, s)) + "," + std::to_string(sc(a.y, s)) + "," + std::to_string(sc(a.z, s)) + "]"; }
inline std::string js(const vector2 &a, double s = 1000) { return "[" + std::to_string(sc(a.x, s)) + "," + std::to_string(sc(a.y, s)) + "]"; }
template<typename C> std::string jl(const C &c) { std::string s = "["; bool sep = false; for (auto &x : c) { if (sep) s += ","; sep = true; s += js(x); } return s + "]"; }
template<typename C> std::string jl2(const C &c) { std::string s = "["; bool sep = false; for (auto &x : c) { if (sep) s += ","; sep = true; s += js2(x); } return s + "]"; }
struct rec {
    out &o;
    rec(out &o, const char *e) : o(o) { o.begin(e); }
    rec &i(const char *k, iv a) { o.key(k).raw(js(a)); return *this; }
    rec &i2(const char *k, iv a) { o.key(k).raw(js2(a)); return *this; }
    rec &v(const char *k, const vector3 &a, double s = 1000) { o.key(k).raw(js(a, s)); return *this; }
    rec &v(const char *k, const vector2 &a, double s = 1000) { o.key(k).raw(js(a, s)); return *this; }
    rec &s(const char *k, double a, double s = 1000) { o.kv(k, sc(a, s)); return *this; }
    rec &n(const char *k, long long a) { o.kv(k, a); return *this; }
    rec &b(const char *k, bool a) { o.kb(k, a); return *this; }
    rec &raw(const char *k, const std::string &t) { o.key(k).raw(t); return *this; }
    ~rec() { o.endq(); }
};
// A rotation with its exact matrix (times 25) and its quaternion computed here in double.
struct rot { int m[3][3]; quaternion q; };
inline quaternion quat_of(const int m[3][3]) {
    double a[3][3];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = m[i][j] / 25.0;
    double w, x, y, z, tr = a[0][0] + a[1][1] + a[2][2];
    if (tr > 0) { double s = sqrt(tr + 1) * 2; w = s / 4; x = (a[2][1] - a[1][2]) / s; y = (a[0][2] - a[2][0]) / s; z = (a[1][0] - a[0][1]) / s; }
    else if (a[0][0] > a[1][1] && a[0][0] > a[2][2]) { double s = sqrt(1 + a[0][0] - a[1][1] - a[2][2]) * 2; w = (a[2][1] - a[1][2]) / s; x = s / 4; y = (a[0][1] + a[1][0]) / s; z = (a[0][2] + a[2][0]) / s; }
    else if (a[1][1] > a[2][2]) { double s = sqrt(1 + a[1][1] - a[0][0] - a[2][2]) * 2; w = (a[0][2] - a[2][0]) / s; x = (a[0][1] + a[1][0]) / s; y = s / 4; z = (a[1][2] + a[2][1]) / s; }
    else { double s = sqrt(1 + a[2][2] - a[0][0] - a[1][1]) * 2; w = (a[1][0] - a[0][1]) / s; x = (a[0][2] + a[2][0]) / s; y = (a[1][2] + a[2][1]) / s; z = s / 4; }
    return {scalar(x), scalar(y), scalar(z), scalar(w)};
}
inline rot make_rot(const int m[3][3]) { rot r; memcpy(r.m, m, sizeof r.m); r.q = quat_of(m); return r; }
// The 24 rotations of the cube.
inline std::vector<rot> cube_rots() {
    std::vector<rot> v;
    int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto &p : perm) for (int s = 0; s < 8; ++s) {
        int m[3][3] = {};
        for (int i = 0; i < 3; ++i) m[i][p[i]] = (s >> i & 1) ? -25 : 25;
        long det = (long)m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - (long)m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + (long)m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        if (det > 0) v.push_back(make_rot(m));
    }
    return v;
}
// ... and those followed by rotations by the angle of the 3-4-5 triangle (rational matrices).
inline std::vector<rot> all_rots() {
    auto c = cube_rots();
    std::vector<rot> v = c;
    for (int ax = 0; ax < 3; ++ax) for (int k = 0; k < 2; ++k) for (size_t j = ax; j < c.size(); j += 3) {
        int s = k ? -4 : 4, a[3][3] = {}, m[3][3] = {};
        int x = (ax + 1) % 3, y = (ax + 2) % 3;
        a[ax][ax] = 5; a[x][x] = 3; a[y][y] = 3; a[x][y] = -s; a[y][x] = s;
        for (int i = 0; i < 3; ++i) for (int q = 0; q < 3; ++q) for (int t = 0; t < 3; ++t) m[i][q] += a[i][t] * c[j].m[t][q];
        for (auto &row : m) for (auto &e : row) e /= 5;
        v.push_back(make_rot(m));
    }
    // two axes: exact with denominator 25
    int a[3][3] = {{25, 0, 0}, {0, 15, -20}, {0, 20, 15}}, b[3][3] = {{15, 0, 20}, {0, 25, 0}, {-20, 0, 15}};
    for (auto &r : c) {
        int t[3][3] = {}, m[3][3] = {};
        for (int i = 0; i < 3; ++i) for (int q = 0; q < 3; ++q) for (int k = 0; k < 3; ++k) t[i][q] += a[i][k] * b[k][q];
        for (int i = 0; i < 3; ++i) for (int q = 0; q < 3; ++q) for (int k = 0; k < 3; ++k) m[i][q] += t[i][k] * r.m[k][q];
        for (auto &row : m) for (auto &e : row) e /= 625;
        v.push_back(make_rot(m));
    }
    return v;
}
inline std::string jm(const rot &r) {
    std::string s = "[";
    for (int i = 0; i < 3; ++i) s += (i ? ",[" : "[") + std::to_string(r.m[i][0]) + "," + std::to_string(r.m[i][1]) + "," + std::to_string(r.m[i][2]) + "]";
    return s + "]";
}
inline bool eq(iv a, iv b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
// strictly convex counter-clockwise polygon of random points
inline std::vector<iv> polygon(rng &r, int m) {
    for (;;) {
        std::vector<iv> p;
        int n = r.range(3, 7);
        for (int i = 0; i < n; ++i) p.push_back({r.range(-m, m), r.range(-m, m), 0});
        std::sort(p.begin(), p.end(), [](iv a, iv b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
        p.erase(std::unique(p.begin(), p.end(), eq), p.end());
        if (p.size() < 3) continue;
        auto cr = [](iv o, iv a, iv b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); };
        std::vector<iv> h(2 * p.size());
        size_t k = 0;
        for (auto &q : p) { while (k >= 2 && cr(h[k - 2], h[k - 1], q) <= 0) --k; h[k++] = q; }
        for (size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && cr(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
        h.resize(k - 1);
        if (h.size() < 3) continue;
        std::rotate(h.begin(), h.begin() + r.below(h.size()), h.end());
        return h;
    }
}
}

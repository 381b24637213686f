// Brute-force convex hull of small integer point sets: extreme points, faces (counter-clockwise seen
// from outside), edges. Independent of the code under test.
#pragma once
#include "geo_drv.hpp"
#include <map>
#include <set>
namespace geo {
struct ihull {
    std::vector<iv> v;
    std::vector<std::vector<int>> faces;
    std::vector<std::array<int, 2>> edges;
    std::vector<std::vector<int>> nb;
};
inline iv sub(iv a, iv b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline iv crossi(iv a, iv b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline long doti(iv a, iv b) { return (long)a.x * b.x + (long)a.y * b.y + (long)a.z * b.z; }
// false if the points are coplanar
inline bool make_hull(std::vector<iv> p, ihull &h) {
    std::sort(p.begin(), p.end(), [](iv a, iv b) { return std::array<int, 3>{a.x, a.y, a.z} < std::array<int, 3>{b.x, b.y, b.z}; });
    p.erase(std::unique(p.begin(), p.end(), eq), p.end());
    int n = (int)p.size();
    std::set<std::vector<int>> planes;
    std::map<std::vector<int>, iv> normal;
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int c = b + 1; c < n; ++c) {
        iv m = crossi(sub(p[b], p[a]), sub(p[c], p[a]));
        if (!m.x && !m.y && !m.z) continue;
        int pos = 0, neg = 0;
        std::vector<int> on;
        for (int i = 0; i < n; ++i) { long d = doti(m, sub(p[i], p[a])); if (d > 0) ++pos; else if (d < 0) ++neg; else on.push_back(i); }
        if (pos && neg) continue;
        if (!pos && !neg) return false;
        if (pos) m = {-m.x, -m.y, -m.z};
        planes.insert(on); normal[on] = m;
    }
    // order each face counter-clockwise by a planar hull (strict: drops points that are not extreme)
    std::vector<std::vector<int>> fs;
    std::set<int> used;
    for (auto &on : planes) {
        iv m = normal[on];
        std::vector<int> f;
        int start = on[0], cur = start;     // gift wrapping
        // start must be extreme: take the lexicographically smallest, which is on[0] (points are sorted)
        do {
            f.push_back(cur);
            int best = -1;
            for (int q : on) {
                if (q == cur) continue;
                if (best < 0) { best = q; continue; }
                long s = doti(m, crossi(sub(p[best], p[cur]), sub(p[q], p[cur])));
                if (s < 0) best = q;
                else if (s == 0) {
                    iv u = sub(p[best], p[cur]), w = sub(p[q], p[cur]);
                    if (doti(w, w) > doti(u, u)) best = q;
                }
            }
            cur = best;
        } while (cur != start);
        for (int i : f) used.insert(i);
        fs.push_back(f);
    }
    std::map<int, int> re;
    h = {};
    for (int i : used) { re[i] = (int)h.v.size(); h.v.push_back(p[i]); }
    std::set<std::array<int, 2>> es;
    for (auto &f : fs) {
        for (auto &i : f) i = re[i];
        for (size_t i = 0; i < f.size(); ++i) { int a = f[i], b = f[(i + 1) % f.size()]; es.insert({std::min(a, b), std::max(a, b)}); }
        h.faces.push_back(f);
    }
    h.edges.assign(es.begin(), es.end());
    h.nb.assign(h.v.size(), {});
    for (auto &e : es) { h.nb[e[0]].push_back(e[1]); h.nb[e[1]].push_back(e[0]); }
    return true;
}
inline ihull rand_hull(rng &r, int m, int nmax = 9) {
    for (;;) {
        std::vector<iv> p;
        int n = r.range(4, nmax), kind = r.below(4);
        if (kind == 0) {               // box
            iv a = {r.range(1, m), r.range(1, m), r.range(1, m)}, o = ri(r, 2);
            for (int s = 0; s < 8; ++s) p.push_back({o.x + (s & 1 ? a.x : -a.x), o.y + (s & 2 ? a.y : -a.y), o.z + (s & 4 ? a.z : -a.z)});
        } else if (kind == 1) {        // prism over a random polygon
            int h0 = r.range(-m, 0), h1 = r.range(1, m);
            int ax = r.below(3);
            for (int i = 0; i < n; ++i) {
                int a = r.range(-m, m), b = r.range(-m, m);
                for (int h : {h0, h1}) p.push_back(ax == 0 ? iv{h, a, b} : ax == 1 ? iv{a, h, b} : iv{a, b, h});
            }
        } else for (int i = 0; i < n; ++i) p.push_back(ri(r, m));
        ihull h;
        if (make_hull(p, h)) return h;
    }
}
inline std::string jlist(const std::vector<int> &v, int base = 0) {
    std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i] + base); return s + "]";
}
inline std::string jlists(const std::vector<std::vector<int>> &v, int base = 0) {
    std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + jlist(v[i], base); return s + "]";
}
// Unit directions d / n with integer d, n.
struct udir { iv d; int n; };
inline vector3 f(udir u) { return {scalar(u.d.x) / u.n, scalar(u.d.y) / u.n, scalar(u.d.z) / u.n}; }
inline std::vector<udir> unit_dirs(int nmax = 9) {
    std::vector<udir> v;
    for (int n = 1; n <= nmax; ++n) for (int a = -n; a <= n; ++a) for (int b = -n; b <= n; ++b) for (int c = -n; c <= n; ++c)
        if (a * a + b * b + c * c == n * n && std::__gcd(std::__gcd(std::abs(a), std::abs(b)), std::abs(c)) == 1) v.push_back({{a, b, c}, n});
    return v;
}
// Directions close to the axes and diagonals: unit vectors of larger denominators.
inline std::vector<udir> unit_dirs_fine() {
    std::vector<udir> v;
    int q[][4] = {{1, 12, 12, 17}, {2, 14, 23, 27}, {1, 18, 6, 19}, {2, 26, 29, 39}, {9, 40, 0, 41}, {11, 60, 0, 61}, {13, 84, 0, 85}, {3, 4, 84, 85}, {99, 20, 0, 101}, {1, 70, 70, 99}};
    int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (auto &x : q) {
        if (x[0] * x[0] + x[1] * x[1] + x[2] * x[2] != x[3] * x[3]) continue;
        for (auto &p : perm) for (int s = 0; s < 8; ++s)
            v.push_back({{(s & 1 ? -1 : 1) * x[p[0]], (s & 2 ? -1 : 1) * x[p[1]], (s & 4 ? -1 : 1) * x[p[2]]}, x[3]});
    }
    return v;
}
}

// Random triangle meshes with integer vertices: height fields, hulls, soups, with faces removed.
#pragma once
#include "hull.hpp"
#include <edyn/shapes/triangle_mesh.hpp>
namespace geo {
struct imesh { std::vector<iv> v; std::vector<std::vector<int>> t; };
inline bool degenerate(const imesh &m, const std::vector<int> &t) {
    iv n = crossi(sub(m.v[t[1]], m.v[t[0]]), sub(m.v[t[2]], m.v[t[0]]));
    return !n.x && !n.y && !n.z;
}
inline imesh rand_mesh(rng &r, int maxn = 4) {
    for (;;) {
        imesh m;
        int kind = r.below(4);
        if (kind <= 1) {
            int nx = r.range(2, maxn), nz = r.range(2, maxn), hh = r.below(3);
            int ax = r.below(3);
            for (int j = 0; j < nz; ++j) for (int i = 0; i < nx; ++i) {
                int x = 2 * i - nx, z = 2 * j - nz, y = r.range(-hh, hh);
                m.v.push_back(ax == 0 ? iv{x, y, z} : ax == 1 ? iv{y, z, x} : iv{z, x, y});
            }
            for (int j = 0; j + 1 < nz; ++j) for (int i = 0; i + 1 < nx; ++i) {
                int a = j * nx + i, b = a + 1, c = a + nx, d = c + 1;
                if (r.chance(1, 2)) { m.t.push_back({b, a, c}); m.t.push_back({c, d, b}); }
                else { m.t.push_back({b, a, d}); m.t.push_back({a, c, d}); }
            }
        } else if (kind == 2) {
            auto h = rand_hull(r, 3, 8);
            m.v = h.v;
            bool inward = r.chance(1, 4);
            for (auto f : h.faces) { if (inward) std::reverse(f.begin(), f.end()); for (size_t i = 1; i + 1 < f.size(); ++i) m.t.push_back({f[0], f[i], f[i + 1]}); }
        } else {
            int n = r.range(3, 8), k = r.range(1, 6);
            for (int i = 0; i < n; ++i) m.v.push_back(ri(r, 3));
            std::set<std::array<int, 2>> used;
            for (int i = 0; i < k; ++i) {
                int a = r.below(n), b = r.below(n), c = r.below(n);
                if (a == b || b == c || a == c) continue;
                std::array<int, 2> e[3] = {{a, b}, {b, c}, {c, a}};
                bool ok = true; for (auto &x : e) if (used.count(x)) ok = false;
                if (!ok) continue;
                for (auto &x : e) used.insert(x);
                m.t.push_back({a, b, c});
            }
        }
        if (r.chance(1, 3)) for (int k = r.range(1, 3); k > 0 && m.t.size() > 1; --k) m.t.erase(m.t.begin() + r.below((int)m.t.size()));
        m.t.erase(std::remove_if(m.t.begin(), m.t.end(), [&](auto &t) { return degenerate(m, t); }), m.t.end());
        if (m.t.empty()) continue;
        for (size_t i = m.t.size(); i-- > 1;) std::swap(m.t[i], m.t[r.below((int)i + 1)]);
        for (auto &t : m.t) std::rotate(t.begin(), t.begin() + r.below(3), t.end());
        // renumber the vertices
        std::vector<int> p(m.v.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
        for (size_t i = p.size(); i-- > 1;) std::swap(p[i], p[r.below((int)i + 1)]);
        auto v = m.v; for (size_t i = 0; i < p.size(); ++i) v[p[i]] = m.v[i];
        m.v = v; for (auto &t : m.t) for (auto &i : t) i = p[i];
        return m;
    }
}
inline void build_mesh(const imesh &m, edyn::triangle_mesh &tm, const std::vector<float> &fr = {}, const std::vector<float> &re = {}) {
    std::vector<vector3> v; for (auto &x : m.v) v.push_back(f(x));
    std::vector<uint32_t> ix; for (auto &t : m.t) for (int i : t) ix.push_back(i);
    tm.insert_vertices(v.begin(), v.end());
    tm.insert_indices(ix.begin(), ix.end());
    if (!fr.empty()) tm.insert_friction_coefficients(fr.begin(), fr.end());
    if (!re.empty()) tm.insert_restitution_coefficients(re.begin(), re.end());
    tm.initialize();
}
}

// Planar convex hulls and the polygon queries on them.
#include "geo_drv.hpp"
#include <edyn/util/shape_util.hpp>
using namespace geo;
static vector2 tf(iv p, int k) { // exact point times 5: rotated by the 3-4-5 angle if k
    if (!k) return {scalar(p.x), scalar(p.y)};
    return {scalar((3 * p.x - 4 * p.y) / 5.0), scalar((4 * p.x + 3 * p.y) / 5.0)};
}
static void one(out &o, rng &r, const std::vector<iv> &p, int k, int tol) {
    std::vector<vector2> v, q;
    for (auto &x : p) v.push_back(tf(x, k));
    auto h = calculate_convex_hull(v, scalar(tol) / 1000);
    std::string hs = "["; for (size_t i = 0; i < h.size(); ++i) hs += (i ? "," : "") + std::to_string(h[i] + 1); hs += "]";
    rec(o, "hull").raw("p", jl2(p)).n("k", k).n("tol", tol).raw("pv", jl(v)).raw("h", hs);
    if (k || h.size() < 3) return;
    for (auto i : h) { if (i >= p.size()) return; q.push_back(v[i]); }
    long area = 0;
    for (size_t i = 1; i + 1 < h.size(); ++i) area += (p[h[i]].x - p[h[0]].x) * (p[h[i + 1]].y - p[h[0]].y) - (p[h[i]].y - p[h[0]].y) * (p[h[i + 1]].x - p[h[0]].x);
    if (area <= 0) return;
    for (int t = 0; t < 3; ++t) {
        iv x = {r.range(-7, 7), r.range(-7, 7), 0};
        if (r.chance(1, 3)) { x = p[r.below((int)p.size())]; }
        vector2 cl = vector2_zero;
        bool in = point_inside_convex_polygon(q, f2(x));
        bool ou = closest_point_convex_polygon(v, h, f2(x), cl);
        std::vector<iv> hv; for (auto i : h) hv.push_back(p[i]);
        rec(o, "pq").raw("h", jl2(hv)).i2("x", x).b("in", in).b("out", ou).v("c", ou ? cl : f2(x));
    }
}
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    // every triangle of a 3x3 grid: winding
    for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (int c = 0; c < 9; ++c) {
        iv p[3] = {{a % 3, a / 3, 0}, {b % 3, b / 3, 0}, {c % 3, c / 3, 0}};
        vector2 v[3] = {f2(p[0]), f2(p[1]), f2(p[2])};
        bool ccw = is_triangle_ccw(v[0], v[1], v[2]);
        bool sorted = sort_triangle_ccw(v[0], v[1], v[2]);
        rec(o, "ccw").raw("p", jl2(std::vector<iv>{p[0], p[1], p[2]})).b("ccw", ccw).b("sorted", sorted).raw("v", jl(std::vector<vector2>{v[0], v[1], v[2]}));
    }
    // every set of 4 points of a 3x3 grid, in every order of a sample
    for (int m = 0; m < 6561; ++m) {
        int x = m; std::vector<iv> p;
        for (int i = 0; i < 4; ++i) { p.push_back({x % 3 - 1, x % 9 / 3 - 1, 0}); x /= 9; }
        if (N < 10000 && (m + atoi(argv[1])) % 3) continue;
        one(o, r, p, 0, 1);
    }
    for (int k = 0; k < N; ++k) {
        int n = r.range(1, 12), m = r.range(1, 6);
        std::vector<iv> p;
        int kind = r.below(5);
        iv dir = {r.range(-2, 2), r.range(-2, 2), 0}, base = {r.range(-2, 2), r.range(-2, 2), 0};
        for (int i = 0; i < n; ++i) {
            if (kind == 0) { int t = r.range(-2, 2); p.push_back({base.x + t * dir.x, base.y + t * dir.y, 0}); }      // collinear
            else if (kind == 1 && i) { auto q = p[r.below((int)p.size())]; if (r.chance(1, 2)) q = {r.range(-m, m), r.range(-m, m), 0}; p.push_back(q); } // coincident
            else p.push_back({r.range(-m, m), r.range(-m, m), 0});
        }
        one(o, r, p, r.below(3) == 0, 1);
    }
}

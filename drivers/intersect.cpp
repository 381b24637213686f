// C17: intersection tests on integer inputs.
#include "geo_drv.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/math/triangle.hpp>
#include <edyn/util/shape_util.hpp>
using namespace geo;
static iv crs(iv a, iv b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static iv sub(iv a, iv b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static bool zero(iv a) { return !a.x && !a.y && !a.z; }
static iv ri2(rng &r, int m) { auto a = ri(r, m); a.z = 0; return a; }
static iv rotc(const rot &R, iv p) {
    return {(R.m[0][0] * p.x + R.m[0][1] * p.y + R.m[0][2] * p.z) / 25, (R.m[1][0] * p.x + R.m[1][1] * p.y + R.m[1][2] * p.z) / 25,
            (R.m[2][0] * p.x + R.m[2][1] * p.y + R.m[2][2] * p.z) / 25};
}
int main(int argc, char **argv) {
    if (argc != 4) return 3;
    rng r(atoi(argv[1]));
    int N = atoi(argv[2]);
    out o(argv[3]);
    auto rots = all_rots(), cube = cube_rots();
    // All lines through pairs of points of a 5x5 grid against circles and boxes: exhaustive.
    for (int a = 0; a < 25; ++a) for (int b = 0; b < 25; ++b) {
        if (a == b) continue;
        iv p0{a % 5 - 2, a / 5 - 2, 0}, p1{b % 5 - 2, b / 5 - 2, 0};
        for (int rad = 1; rad <= 2; ++rad) {
            scalar s0 = -77, s1 = -77;
            auto n = intersect_line_circle(f2(p0), f2(p1), scalar(rad), s0, s1);
            rec(o, "lc").i2("p0", p0).i2("p1", p1).n("r", rad).n("n", n).s("s0", s0).s("s1", s1);
        }
        iv boxes[][2] = {{{-1, -1}, {1, 1}}, {{-2, 0}, {1, 1}}, {{0, -2}, {2, -1}}};
        for (auto &bx : boxes) {
            scalar s0 = -77, s1 = -77;
            auto n = intersect_line_aabb(f2(p0), f2(p1), f2(bx[0]), f2(bx[1]), s0, s1);
            rec(o, "lb").i2("p0", p0).i2("p1", p1).i2("lo", bx[0]).i2("hi", bx[1]).n("n", n).s("s0", s0).s("s1", s1);
        }
    }
    // All pairs of segments of the 3x3 grid.
    for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b) for (int c = 0; c < 9; ++c) for (int d = 0; d < 9; ++d) {
        if (a == b || c == d) continue;
        iv p0{a % 3 - 1, a / 3 - 1, 0}, p1{b % 3 - 1, b / 3 - 1, 0}, q0{c % 3 - 1, c / 3 - 1, 0}, q1{d % 3 - 1, d / 3 - 1, 0};
        scalar s0 = -77, t0 = -77, s1 = -77, t1 = -77;
        auto n = intersect_segments(f2(p0), f2(p1), f2(q0), f2(q1), s0, t0, s1, t1);
        rec(o, "se").i2("p0", p0).i2("p1", p1).i2("q0", q0).i2("q1", q1).n("n", n).s("s0", s0).s("t0", t0).s("s1", s1).s("t1", t1);
    }
    for (int it = 0; it < N; ++it) {
        int m = r.range(1, 3);
        { auto p0 = ri2(r, m), p1 = ri2(r, m); if (eq(p0, p1)) p1.x++;
          int rad = r.range(1, 3); scalar s0 = -77, s1 = -77;
          auto n = intersect_line_circle(f2(p0), f2(p1), scalar(rad), s0, s1);
          rec(o, "lc").i2("p0", p0).i2("p1", p1).n("r", rad).n("n", n).s("s0", s0).s("s1", s1); }
        { auto a = ri2(r, m + 1), b = r.chance(1, 8) ? a : ri2(r, m + 1); int ra = r.range(1, 4), rb = r.range(1, 4);
          if (r.chance(1, 4)) { b = a; (r.chance(1, 2) ? b.x : b.y) += r.chance(1, 2) ? ra + rb : ra - rb; }
          vector2 x{}, y{};
          auto n = intersect_circle_circle(f2(a), scalar(ra), f2(b), scalar(rb), x, y);
          rec(o, "cc").i2("a", a).n("ra", ra).i2("b", b).n("rb", rb).n("n", n).v("x", n ? x : vector2_zero).v("y", n > 1 ? y : vector2_zero); }
        { auto p0 = ri2(r, m + 1), p1 = ri2(r, m + 1); if (eq(p0, p1)) p1.x++;
          iv lo = ri2(r, m), hi{lo.x + r.range(1, 3), lo.y + r.range(1, 3), 0};
          scalar s0 = -77, s1 = -77;
          auto n = intersect_line_aabb(f2(p0), f2(p1), f2(lo), f2(hi), s0, s1);
          rec(o, "lb").i2("p0", p0).i2("p1", p1).i2("lo", lo).i2("hi", hi).n("n", n).s("s0", s0).s("s1", s1); }
        { auto p0 = ri2(r, m + 1), p1 = ri2(r, m + 1), q0 = ri2(r, m + 1), q1 = ri2(r, m + 1);
          if (eq(p0, p1)) p1.x++; if (eq(q0, q1)) q1.y++;
          if (r.chance(1, 4)) { int k = r.range(-2, 2); auto d = sub(p1, p0); q0 = {p0.x + k * d.x, p0.y + k * d.y, 0}; k += r.chance(1, 2) ? 1 : -1; q1 = {p0.x + k * d.x, p0.y + k * d.y, 0}; }
          scalar s0 = -77, t0 = -77, s1 = -77, t1 = -77;
          auto n = intersect_segments(f2(p0), f2(p1), f2(q0), f2(q1), s0, t0, s1, t1);
          rec(o, "se").i2("p0", p0).i2("p1", p1).i2("q0", q0).i2("q1", q1).n("n", n).s("s0", s0).s("t0", t0).s("s1", s1).s("t1", t1); }
        for (int k = 0; k < 2; ++k) {
          auto p = ri(r, m + 1), q = r.chance(1, 10) ? p : ri(r, m + 1), lo = ri(r, m); iv hi{lo.x + r.range(0, 3), lo.y + r.range(0, 3), lo.z + r.range(0, 3)};
          rec(o, "sb").i("p", p).i("q", q).i("lo", lo).i("hi", hi).b("hit", intersect_segment_aabb(f(p), f(q), f(lo), f(hi)));
          auto lo2 = ri(r, m); iv hi2{lo2.x + r.range(0, 3), lo2.y + r.range(0, 3), lo2.z + r.range(0, 3)};
          if (k) rec(o, "bb").i("lo", lo).i("hi", hi).i("lo2", lo2).i("hi2", hi2).b("hit", intersect_aabb(f(lo), f(hi), f(lo2), f(hi2))); }
        { auto p0 = ri(r, m), p1 = ri(r, m), c = ri(r, 2); if (eq(p0, p1)) p1.z++;
          int rad = r.range(1, 3); scalar t = -77;
          bool hit = intersect_ray_sphere(f(p0), f(p1), f(c), scalar(rad), t);
          rec(o, "rs").i("p0", p0).i("p1", p1).i("c", c).n("r", rad).b("hit", hit).s("t", hit ? t : 0); }
        { auto p0 = ri(r, m), p1 = ri(r, m), c = ri(r, 2); if (eq(p0, p1)) p1.z++;
          auto &R = r.chance(1, 2) ? cube[r.below(24)] : rots[r.below(rots.size())];
          int rad = r.range(1, 3), ax = r.below(3), hl = r.range(1, 2); scalar fi = 0, fo = 0;
          auto res = intersect_ray_cylinder(f(p0), f(p1), f(c), R.q, scalar(rad), scalar(hl), coordinate_axis(ax), fi, fo);
          bool hit = res.kind == intersect_ray_cylinder_result::kind::intersects;
          int kind = hit ? 2 : res.kind == intersect_ray_cylinder_result::kind::distance_greater_than_radius;
          rec(o, "rc").i("p0", p0).i("p1", p1).i("c", c).i("n", {R.m[0][ax], R.m[1][ax], R.m[2][ax]}).n("r", rad).n("kind", kind)
              .s("dist", hit ? res.dist_sqr : 0).v("nrm", hit ? res.normal : vector3_zero).s("fi", hit ? fi : 0).s("fo", hit ? fo : 0); }
        for (int k = 0; k < 2; ++k) {
          iv v[3]; iv nn{};
          auto &R = cube[r.below(24)];
          while (zero(nn)) { for (auto &x : v) { x = ri(r, 2); if (k) { x.z = 1; x = rotc(R, x); } } nn = crs(sub(v[1], v[0]), sub(v[2], v[0])); }
          auto p0 = ri(r, 3), p1 = ri(r, 3);
          triangle_vertices tv{f(v[0]), f(v[1]), f(v[2])};
          scalar t = -77;
          bool hit = intersect_segment_triangle(f(p0), f(p1), tv, normalize(f(nn)), t);
          rec(o, "st").i("p0", p0).i("p1", p1).raw("v", "[" + js(v[0]) + "," + js(v[1]) + "," + js(v[2]) + "]").b("hit", hit).s("t", hit ? t : 0);
          bool in = point_in_triangle(tv, f(nn), f(p0));
          bool in2 = point_in_triangle(tv, f({-nn.x, -nn.y, -nn.z}), f(p0));     // the side of the normal does not matter
          rec(o, "pt").raw("v", "[" + js(v[0]) + "," + js(v[1]) + "," + js(v[2]) + "]").i("p", p0).b("in", in).b("in2", in2); }
        { auto v = polygon(r, m + 1);
          std::vector<vector2> v2; std::vector<vector3> v3; std::vector<size_t> idx; std::vector<iv> w;
          auto &R = cube[r.below(24)];
          int z = r.range(-1, 1), junk = r.below(3);
          for (int i = 0; i < junk; ++i) v3.push_back({scalar(30), scalar(-20), scalar(7)});
          for (auto q : v) { v2.push_back(f2(q)); q.z = z; w.push_back(rotc(R, q)); idx.push_back(v3.size()); v3.push_back(f(w.back())); }
          iv nn = rotc(R, {0, 0, 1});
          for (int k = 0; k < 2; ++k) {
              iv p = k ? v[r.below(v.size())] : ri2(r, m + 2);
              rec(o, "pg").raw("v", jl2(v)).i2("p", p).b("in", point_inside_convex_polygon(v2, f2(p)));
              p.z = r.range(-2, 2);
              auto q = rotc(R, p);
              bool in = point_in_polygonal_prism(v3, idx, f(nn), f(q)), in2 = in;
              if (w.size() == 4) in2 = point_in_polygonal_prism(std::array<vector3, 4>{f(w[0]), f(w[1]), f(w[2]), f(w[3])}, f(nn), f(q));
              if (w.size() == 3) in2 = point_in_polygonal_prism(std::array<vector3, 3>{f(w[0]), f(w[1]), f(w[2])}, f(nn), f(q));
              rec(o, "pp").raw("v", jl(w)).i("n", nn).i("p", q).b("in", in).b("in2", in2);
          } }
        for (int k = 0; k < 2; ++k) {
          iv a = ri(r, 2), b = ri(r, 2), c = ri(r, 2), d = ri(r, 2);
          if (zero(crs(a, b)) || zero(crs(c, d))) continue;
          auto C = f(c), D = f(d);
          rec(o, "mf").i("a", a).i("b", b).i("c", c).i("d", d).b("res", edges_generate_minkowski_face(f(a), f(b), -C, -D, cross(f(b), f(a)), cross(D, C))); }
    }
}

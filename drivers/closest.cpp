// C16: closest-point queries on integer inputs.
#include "geo_drv.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/util/shape_util.hpp>
using namespace geo;
int main(int argc, char **argv) {
    if (argc != 4) return 3;
    rng r(atoi(argv[1]));
    int N = atoi(argv[2]);
    out o(argv[3]);
    auto rots = all_rots();
    for (int it = 0; it < N; ++it) {
        int m = r.range(1, 4);
        { auto a = ri(r, m), b = ri(r, m), p = ri(r, m);
          if (eq(a, b)) b.x += 1;
          scalar t = -7; vector3 q{9, 9, 9};
          auto d2 = closest_point_segment(f(a), f(b), f(p), t, q);
          rec(o, "ps").i("q0", a).i("q1", b).i("p", p).s("t", t).v("q", q).s("d2", d2);
          iv dir{b.x - a.x, b.y - a.y, b.z - a.z};
          t = -7;
          d2 = closest_point_line(f(a), f(dir), f(p), t, q);
          auto dl2 = distance_sqr_line(f(a), f(dir), f(p));
          rec(o, "pl").i("q0", a).i("dir", dir).i("p", p).s("t", t).v("q", q).s("d2", d2).s("dl2", dl2); }
        { auto p1 = ri(r, m), q1 = ri(r, m), p2 = ri(r, m), q2 = ri(r, m);
          int kind = r.below(6);                                   // force parallel / anti-parallel / degenerate
          if (kind < 3) { int k = kind == 0 ? 1 : kind == 1 ? -1 : r.range(-2, 2); q2 = {p2.x + k * (q1.x - p1.x), p2.y + k * (q1.y - p1.y), p2.z + k * (q1.z - p1.z)}; }
          if (kind == 3 && r.chance(1, 2)) { if (r.chance(1, 2)) q1 = p1; else q2 = p2; }
          if (kind == 4 && r.chance(1, 2)) { p2 = {p1.x + r.range(-2, 2) * (q1.x - p1.x), 0, 0}; int k = r.range(-2, 2); p2 = {p1.x + k * (q1.x - p1.x), p1.y + k * (q1.y - p1.y), p1.z + k * (q1.z - p1.z)};
              k = r.range(-2, 2); q2 = {p1.x + k * (q1.x - p1.x), p1.y + k * (q1.y - p1.y), p1.z + k * (q1.z - p1.z)}; }
          auto big = [](iv a) { return abs(a.x) > 8 || abs(a.y) > 8 || abs(a.z) > 8; };
          if (!big(p2) && !big(q2)) {
              scalar s = -7, t = -7, sp = -7, tp = -7; vector3 c1{9, 9, 9}, c2 = c1, c1p = c1, c2p = c1; size_t n = 77;
              auto d2 = closest_point_segment_segment(f(p1), f(q1), f(p2), f(q2), s, t, c1, c2);
              rec(o, "ss").i("p1", p1).i("q1", q1).i("p2", p2).i("q2", q2).s("s", s).s("t", t).v("c1", c1).v("c2", c2).s("d2", d2);
              s = t = -7; c1 = c2 = c1p;
              d2 = closest_point_segment_segment(f(p1), f(q1), f(p2), f(q2), s, t, c1, c2, &n, &sp, &tp, &c1p, &c2p);
              rec(o, "sn").i("p1", p1).i("q1", q1).i("p2", p2).i("q2", q2).s("s", s).s("t", t).v("c1", c1).v("c2", c2).s("d2", d2)
                  .n("n", n).s("sp", sp).s("tp", tp).v("c1p", c1p).v("c2p", c2p);
              if (!eq(p1, q1) && !eq(p2, q2) && m <= 3) {
                  s = t = 0;
                  bool ok = closest_point_line_line(f(p1), f(q1), f(p2), f(q2), s, t);
                  rec(o, "ll").i("p1", p1).i("q1", q1).i("p2", p2).i("q2", q2).b("ok", ok).s("s", ok ? s : 0).s("t", ok ? t : 0);
              }
          } }
        auto &R = rots[r.below(rots.size())];
        int ax = r.below(3), rad = r.range(1, 3);
        { auto pos = ri(r, 2), p = ri(r, m);
          vector3 q{9, 9, 9};
          auto d2 = closest_point_disc(f(pos), R.q, scalar(rad), coordinate_axis(ax), f(p), q);
          rec(o, "di").i("pos", pos).raw("m", jm(R)).n("ax", ax + 1).n("r", rad).i("p", p).v("q", q).s("d2", d2); }
        { iv h{r.range(1, 4), r.range(1, 4), r.range(1, 4)}, p = ri(r, 6);
          rec(o, "bo").i("h", h).i("p", p).v("q", closest_point_box_outside(f(h), f(p)));
          iv p2{r.range(-h.x, h.x), r.range(-h.y, h.y), r.range(-h.z, h.z)};
          vector3 q{9, 9, 9}, nr{9, 9, 9};
          auto d = closest_point_box_inside(f(h), f(p2), q, nr);
          rec(o, "bi").i("h", h).i("p", p2).v("q", q).v("nrm", nr).s("d", d); }
        { auto v = polygon(r, m + 2);
          std::vector<vector2> pts; std::vector<size_t> idx;
          int junk = r.below(3);
          for (int i = 0; i < junk; ++i) pts.push_back({scalar(50 + i), scalar(-50)});     // vertices not part of it
          for (size_t i = 0; i < v.size(); ++i) { idx.push_back(pts.size()); pts.push_back(f2(v[i])); }
          for (int k = 0; k < 3; ++k) {
              iv p = k == 2 ? v[r.below(v.size())] : iv{r.range(-m - 4, m + 4), r.range(-m - 4, m + 4), 0};
              vector2 q{-99, -99};
              bool out = closest_point_convex_polygon(pts, idx, f2(p), q);
              support_polygon sp; sp.plane_vertices = pts; sp.hull = idx;
              vector2 q2{-99, -99};
              bool out2 = closest_point_polygon(sp, f2(p), q2);
              if (out != out2) out = !out2;
              if (!out) q = {0, 0};
              rec(o, "pg").raw("v", jl2(v)).i2("p", p).b("out", out).v("q", q);
          } }
        { auto pos = ri(r, 2), p0 = ri(r, m), p1 = ri(r, m);
          if (eq(p0, p1)) p1.y += 1;
          size_t n = 77; scalar s0 = 0, s1 = 0; vector3 c0{}, l0{}, c1{}, l1{}, nr{};
          auto d2 = closest_point_circle_line(f(pos), R.q, scalar(rad), coordinate_axis(ax), f(p0), f(p1), n, s0, c0, l0, s1, c1, l1, nr);
          rec(o, "cl").i("pos", pos).raw("m", jm(R)).n("ax", ax + 1).n("r", rad).i("p0", p0).i("p1", p1).n("n", n)
              .raw("s", "[" + std::to_string(sc(s0)) + "," + std::to_string(sc(s1)) + "]").raw("rc", "[" + js(c0) + "," + js(c1) + "]")
              .raw("rl", "[" + js(l0) + "," + js(l1) + "]").s("d2", d2).s("nl", length(nr)); }
        { auto pa = ri(r, 3), pb = ri(r, 3);
          auto &Q = r.chance(1, 2) ? R : rots[r.below(rots.size())];
          int ax2 = r.below(3), rad2 = r.range(1, 3);
          if (r.chance(1, 10)) pb = pa;
          size_t n = 77; vector3 a0{}, b0{}, a1{}, b1{}, nr{};
          auto d2 = closest_point_circle_circle(f(pa), R.q, scalar(rad), coordinate_axis(ax), f(pb), Q.q, scalar(rad2), coordinate_axis(ax2), n, a0, b0, a1, b1, nr);
          auto ci = [&](iv p, const rot &x, int a, int rr) { return "{\"pos\":" + js(p) + ",\"m\":" + jm(x) + ",\"ax\":" + std::to_string(a + 1) + ",\"r\":" + std::to_string(rr) + "}"; };
          rec(o, "cc").raw("a", ci(pa, R, ax, rad)).raw("b", ci(pb, Q, ax2, rad2)).n("n", n).raw("rA", "[" + js(a0) + "," + js(a1) + "]")
              .raw("rB", "[" + js(b0) + "," + js(b1) + "]").s("d2", d2).s("nl", length(nr)); }
    }
}

// Support points, projections and features of all shapes.
#include "hull.hpp"
#include <edyn/math/geom.hpp>
#include <edyn/math/triangle.hpp>
#include <edyn/shapes/box_shape.hpp>
#include <edyn/shapes/cylinder_shape.hpp>
#include <edyn/shapes/capsule_shape.hpp>
#include <edyn/util/shape_util.hpp>
using namespace geo;
static const scalar T0 = 0.005f;
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    auto R = all_rots();
    auto U = unit_dirs(); auto F = unit_dirs_fine();
    auto udx = [&]() -> udir {
        if (r.chance(1, 4)) return F[r.below((int)F.size())];
        return U[r.below((int)U.size())];
    };
    // A direction aligned, in the frame of rotation q, with an exact simple local one: rows of the matrix
    auto dir_for = [&](const rot &q) -> udir {
        if (r.chance(1, 3)) {
            int k = r.below(3), s = r.chance(1, 2) ? 1 : -1;
            return {{s * q.m[0][k], s * q.m[1][k], s * q.m[2][k]}, 25};
        }
        if (r.chance(1, 3)) { // edge-aligned: 3-4-5 combination of two columns
            int k = r.below(3), l = (k + 1) % 3, s = r.chance(1, 2) ? 3 : -3, t = r.chance(1, 2) ? 4 : -4;
            bool ok = true; iv d;
            int *c[3] = {&d.x, &d.y, &d.z};
            for (int i = 0; i < 3; ++i) { int x = s * q.m[i][k] + t * q.m[i][l]; if (x % 5) ok = false; *c[i] = x / 5; }
            if (ok) return {d, 25};
        }
        return udx();
    };
    auto thr = [&]() -> int { int t[] = {5, 5, 5, 50, 200, 500}; return t[r.below(6)]; };
    for (int k = 0; k < N; ++k) {
        auto &q = R[r.below((int)R.size())];
        iv pos = ri(r, 4);
        iv h = {r.range(1, 4), r.range(1, 4), r.range(1, 4)};
        auto u = dir_for(q); auto d = f(u);
        int T = thr(); scalar t = T / 1000.0f;
        iv ap = ri(r, 3);
        {
            box_shape b{f(h)};
            box_feature ft = box_feature::vertex, f2 = box_feature::vertex; size_t fi = 0, fi2 = 0; scalar fp = 0;
            b.support_feature(f(pos), q.q, f(ap), d, ft, fi, fp, t);
            b.support_feature(f(pos), q.q, d, f2, fi2, t);
            std::vector<vector3> fv, fv2;
            auto get = [&](box_feature ft, size_t fi, std::vector<vector3> &fv) {
                if (ft == box_feature::vertex) fv.push_back(b.get_vertex(fi, f(pos), q.q));
                else if (ft == box_feature::edge) { for (auto &x : b.get_edge(fi, f(pos), q.q)) fv.push_back(x); }
                else for (auto &x : b.get_face(fi, f(pos), q.q)) fv.push_back(x);
            };
            get(ft, fi, fv); get(f2, fi2, fv2);
            rec(o, "bx").i("h", h).i("pos", pos).raw("m", jm(q)).i("d", u.d).n("n", u.n).n("T", T).i("ap", ap)
                .v("sp", b.support_point(f(pos), q.q, d)).v("spo", b.support_point(q.q, d)).s("pj", b.support_projection(f(pos), q.q, d))
                .raw("fv", jl(fv)).raw("fv2", jl(fv2)).s("fp", fp);
            // object space
            auto ul = udx(); auto dl = f(ul); size_t fil = 0; box_feature fl = box_feature::vertex;
            b.support_feature(dl, fl, fil, fp, t);
            std::vector<vector3> fvl;
            if (fl == box_feature::vertex) fvl.push_back(b.get_vertex(fil));
            else if (fl == box_feature::edge) { for (auto &x : b.get_edge(fil)) fvl.push_back(x); }
            else for (auto &x : b.get_face(fil)) fvl.push_back(x);
            rec(o, "bl").i("h", h).i("d", ul.d).n("n", ul.n).n("T", T).v("sp", b.support_point(dl)).s("fp", fp).raw("fv", jl(fvl));
        }
        {
            int ax = r.below(3), rad = r.range(1, 4), len = r.range(1, 4);
            auto axis = static_cast<coordinate_axis>(ax);
            cylinder_shape c{scalar(rad), scalar(len), axis};
            cylinder_feature ft = cylinder_feature::face; size_t fi = 7;
            c.support_feature(f(pos), q.q, d, ft, fi, t);
            cylinder_feature fl = cylinder_feature::face; size_t fil = 7;
            auto ul = udx();
            c.support_feature(f(ul), fl, fil, t);
            auto vs = c.get_vertices(f(pos), q.q);
            rec(o, "cy").n("ax", ax).n("r", rad).n("l", len).i("pos", pos).raw("m", jm(q)).i("d", u.d).n("n", u.n).n("T", T)
                .v("sp", c.support_point(f(pos), q.q, d)).s("pj", c.support_projection(f(pos), q.q, d))
                .n("f", (int)ft).n("fi", ft == cylinder_feature::side_edge ? 0 : (int)fi).raw("vs", jl(vs))
                .i("dl", ul.d).n("nl", ul.n).n("fl", (int)fl).n("fil", fl == cylinder_feature::side_edge ? 0 : (int)fil)
                .v("spl", cylinder_support_point(scalar(rad), scalar(len), axis, f(ul)))
                .v("spo", cylinder_support_point(scalar(rad), scalar(len), axis, q.q, d));
            rec(o, "ci").n("ax", ax).n("r", rad).i("pos", pos).raw("m", jm(q)).i("d", u.d).n("n", u.n)
                .v("sp", support_point_circle(f(pos), q.q, scalar(rad), axis, d));
            capsule_shape cp{scalar(rad), scalar(len), axis};
            auto cv = cp.get_vertices(f(pos), q.q);
            rec(o, "cp").n("ax", ax).n("r", rad).n("l", len).i("pos", pos).raw("m", jm(q)).i("d", u.d).n("n", u.n)
                .raw("vs", jl(cv)).s("pj", capsule_support_projection(cv, scalar(rad), d)).s("pj2", capsule_support_projection(cv[0], cv[1], scalar(rad), d));
        }
        {
            iv v[3] = {ri(r, 4), ri(r, 4), ri(r, 4)};
            auto ut = udx();
            if (r.chance(1, 2)) { // direction orthogonal to an edge or to the triangle
                int k2 = r.below(3); (void)k2;
                int c = r.below(3);
                if (c == 0) { v[1].z = v[0].z; ut = {{0, 0, r.chance(1, 2) ? 1 : -1}, 1}; if (r.chance(1, 2)) v[2].z = v[0].z; }
                if (c == 1) { v[2].y = v[1].y; ut = {{0, r.chance(1, 2) ? 1 : -1, 0}, 1}; }
                if (c == 2) { v[0].x = v[2].x; ut = {{r.chance(1, 2) ? 1 : -1, 0, 0}, 1}; }
            }
            int TT[] = {5, 50, 500, 1500, 2500}; int T3 = TT[r.below(5)];
            triangle_vertices tv{f(v[0]), f(v[1]), f(v[2])};
            triangle_feature ft = triangle_feature::vertex; size_t fi = 0; scalar fp = 0;
            get_triangle_support_feature(tv, f(ap), f(ut), ft, fi, fp, T3 / 1000.0f);
            std::vector<int> fs;
            if (ft == triangle_feature::vertex) fs = {(int)fi};
            else if (ft == triangle_feature::edge) fs = {(int)fi, (int)(fi + 1) % 3};
            else fs = {0, 1, 2};
            rec(o, "tr").raw("v", jl(std::vector<iv>{v[0], v[1], v[2]})).i("ap", ap).i("d", ut.d).n("n", ut.n).n("T", T3)
                .raw("fs", jlist(fs, 1)).s("fp", fp).v("sp", get_triangle_support_point(tv, f(ut))).s("pj", get_triangle_support_projection(tv, f(ut)))
                .n("nv", get_triangle_feature_num_vertices(ft)).n("ne", get_triangle_feature_num_edges(ft));
        }
        {
            auto hu = rand_hull(r, 4);
            auto up = udx();
            if (r.chance(1, 2)) { int c = r.below(3), s = r.chance(1, 2) ? 1 : -1; up = {{c == 0 ? s : 0, c == 1 ? s : 0, c == 2 ? s : 0}, 1}; }
            auto dp = f(up);
            std::vector<vector3> v; for (auto &p : hu.v) v.push_back(f(p));
            std::vector<uint32_t> ns, ni;
            for (auto &l : hu.nb) { ns.push_back((uint32_t)ni.size()); for (int i : l) ni.push_back(i); }
            ns.push_back((uint32_t)ni.size());
            std::array<vector3, 4> a4{v[0], v[1], v[2], v[3]}; size_t i4 = 9; scalar p4 = 0;
            support_point_vertices(a4, dp, i4, p4);
            rec(o, "py").raw("v", jl(hu.v)).i("d", up.d).n("n", up.n).s("pj", polyhedron_support_projection(v, ns, ni, dp))
                .s("pc", point_cloud_support_projection(v, dp)).v("sp", point_cloud_support_point(v, dp)).n("i4", i4 + 1).s("p4", p4);
            bool side = r.chance(1, 2);
            int tol = r.chance(1, 3) ? 600 : 5;
            iv off = r.chance(1, 3) ? iv{0, 0, 0} : ri(r, 3);
            // the support projection along the direction that points away from the points
            scalar pr = -point_cloud_support_projection(v, -dp);
            if (!side) pr = point_cloud_support_projection(v, dp);
            pr += dot(f(off), dp);
            auto pg = point_cloud_support_polygon(v.begin(), v.end(), f(off), dp, pr, side, scalar(tol) / 1000);
            std::vector<int> hl; for (auto i : pg.hull) hl.push_back((int)i);
            rec(o, "pg").raw("v", jl(hu.v)).i("off", off).i("d", up.d).n("n", up.n).b("side", side).n("tol", tol)
                .raw("w", jl(pg.vertices)).raw("pv", jl(pg.plane_vertices)).raw("hull", jlist(hl, 1)).v("o", pg.origin)
                .raw("bs", jl(std::array<vector3, 3>{pg.basis.column(0), pg.basis.column(1), pg.basis.column(2)}));
        }
    }
}

// Runs the vector, matrix, quaternion and transform operations on exact operands.
#include "geo_drv.hpp"
#include <edyn/math/math.hpp>
#include <edyn/math/geom.hpp>
#include <edyn/math/transform.hpp>
#include <edyn/math/vector2_3_util.hpp>
using namespace geo;
static const double K = 10000;
struct iq { int a[4]; int n; };
struct uv { iv v; int n; };
struct ang { int c, s, h; };
using imat = int[3][3];
static std::string jq(const quaternion &q) { return "[" + std::to_string(sc(q.x, K)) + "," + std::to_string(sc(q.y, K)) + "," + std::to_string(sc(q.z, K)) + "," + std::to_string(sc(q.w, K)) + "]"; }
static std::string jq(const iq &q) { return "[" + std::to_string(q.a[0]) + "," + std::to_string(q.a[1]) + "," + std::to_string(q.a[2]) + "," + std::to_string(q.a[3]) + "]"; }
static std::string jm(const matrix3x3 &m) { return "[" + js(m.row[0], K) + "," + js(m.row[1], K) + "," + js(m.row[2], K) + "]"; }
static std::string ji(const imat &m) { std::string s = "["; for (int i = 0; i < 3; ++i) s += (i ? ",[" : "[") + std::to_string(m[i][0]) + "," + std::to_string(m[i][1]) + "," + std::to_string(m[i][2]) + "]"; return s + "]"; }
static matrix3x3 fm(const imat &m) { return {{vector3{scalar(m[0][0]), scalar(m[0][1]), scalar(m[0][2])}, vector3{scalar(m[1][0]), scalar(m[1][1]), scalar(m[1][2])}, vector3{scalar(m[2][0]), scalar(m[2][1]), scalar(m[2][2])}}}; }
static quaternion fq(const iq &q) { return {scalar(q.a[0] / double(q.n)), scalar(q.a[1] / double(q.n)), scalar(q.a[2] / double(q.n)), scalar(q.a[3] / double(q.n))}; }
static vector3 fu(const uv &u) { return {scalar(u.v.x / double(u.n)), scalar(u.v.y / double(u.n)), scalar(u.v.z / double(u.n))}; }
static std::string jb(std::initializer_list<bool> l) { std::string s = "["; bool sep = false; for (auto b : l) { if (sep) s += ","; sep = true; s += b ? "true" : "false"; } return s + "]"; }
static iv nz(rng &r, int m) { auto g = [&] { int x; do x = r.range(-m, m); while (!x); return x; }; return {g(), g(), g()}; }
static int nzs(rng &r, int m) { int x; do x = r.range(-m, m); while (!x); return x; }
static std::string ja(const ang &a) { return "[" + std::to_string(a.c) + "," + std::to_string(a.s) + "," + std::to_string(a.h) + "]"; }

int main(int argc, char **argv) {
    rng r(atoi(argv[1]));
    int N = atoi(argv[2]);
    out o(argv[3]);
    std::vector<iq> uq, uqs;
    for (int n = 1; n <= 5; ++n) for (int a = -n; a <= n; ++a) for (int b = -n; b <= n; ++b) for (int c = -n; c <= n; ++c) for (int d = -n; d <= n; ++d)
        if (a * a + b * b + c * c + d * d == n * n) { uq.push_back({{a, b, c, d}, n}); if (n <= 2) uqs.push_back(uq.back()); }
    std::vector<uv> uvs;
    for (int n : {1, 3, 5, 7, 9}) for (int a = -n; a <= n; ++a) for (int b = -n; b <= n; ++b) for (int c = -n; c <= n; ++c) if (a * a + b * b + c * c == n * n) uvs.push_back({{a, b, c}, n});
    std::vector<uv> small_uv;
    for (auto &u : uvs) if (u.n <= 3) small_uv.push_back(u);
    std::vector<ang> angs = {{1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}};
    for (auto t : std::initializer_list<ang>{{3, 4, 5}, {4, 3, 5}, {5, 12, 13}, {12, 5, 13}, {24, 7, 25}, {7, 24, 25}})
        for (int k = 0; k < 4; ++k) angs.push_back({k & 1 ? -t.c : t.c, k & 2 ? -t.s : t.s, t.h});
    auto A = [](const ang &a) { return std::atan2(double(a.s), double(a.c)); };

    for (int it = 0; it < N; ++it) {
        {
            iv a = ri(r, it % 5 ? 9 : 1), b = nz(r, 9), c = ri(r, 9);
            if (it % 3 == 0) b = {a.x + r.range(-1, 1), a.y + r.range(-1, 1), a.z + r.range(-1, 1)};
            if (it % 9 == 0) b = a;
            if (it % 9 == 3) b = {a.x - 1, a.y - 1, a.z - 1};
            if (it % 9 == 6) b = {a.x + 1, a.y + 1, a.z + 1};
            for (int *p : {&b.x, &b.y, &b.z}) if (*p == 0) *p = it % 2 ? 1 : -1;
            int k = nzs(r, 9), s = r.range(0, 4);
            auto &n = uvs[r.below(uvs.size())];
            vector3 va = f(a), vb = f(b), vc = f(c);
            scalar ks = k;
            rec e(o, "v3");
            e.i("a", a).i("b", b).i("c", c).n("k", k).n("s", s).i("n", n.v).n("m", n.n);
            e.v("add", va + vb, K).v("sub", va - vb, K).v("neg", -va, K).v("mul", va * vb, K).v("div", va / vb, K).v("sdiv", ks / vb, K);
            e.v("muls", va * ks, K).v("smul", ks * va, K).v("divs", va / ks, K);
            bool refs = true;
            vector3 t;
            t = va; refs &= &(t += vb) == &t; e.v("cadd", t, K);
            t = va; refs &= &(t -= vb) == &t; e.v("csub", t, K);
            t = va; refs &= &(t *= ks) == &t; e.v("cmuls", t, K);
            t = va; refs &= &(t *= vb) == &t; e.v("cmul", t, K);
            t = va; refs &= &(t /= ks) == &t; e.v("cdivs", t, K);
            t = va; refs &= &(t /= vb) == &t; e.v("cdiv", t, K);
            e.b("refs", refs);
            e.raw("cmp", jb({va == vb, va != vb, va > vb, va < vb, va >= vb, va <= vb}));
            e.s("dot", dot(va, vb), K).v("cross", cross(va, vb), K).s("triple", triple_product(va, vb, vc), K);
            e.s("lsq", length_sqr(va), K).s("len", length(va), K).s("dist", distance(va, vb), K).s("dsq", distance_sqr(va, vb), K);
            e.v("min", edyn::min(va, vb), K).v("max", edyn::max(va, vb), K).v("abs", edyn::abs(va), K);
            e.raw("idx", "[" + std::to_string(min_index(va)) + "," + std::to_string(max_index(va)) + "," + std::to_string(min_index_abs(va)) + "," + std::to_string(max_index_abs(va)) + "]");
            e.v("floor", edyn::floor(va / scalar(4)), K).v("ceil", edyn::ceil(va / scalar(4)), K);
            e.v("lerp", edyn::lerp(va, vb, scalar(s) / 4), K).v("avg", average(std::array<vector3, 3>{va, vb, vc}), K);
            t = va; bool ok = try_normalize(t);
            e.b("tryok", ok).v("tryv", t, K).v("nrm", (a.x || a.y || a.z) ? normalize(va) : va, K);
            e.v("pdir", project_direction(va, fu(n)), K).v("ppl", project_plane(va, vb, fu(n)), K);
            std::vector<int> idx; t = va;
            t.each([&](scalar &x, int i) { idx.push_back(i); x *= 2; });
            vector3 t2 = vector3_zero; int at = 0;
            const vector3 ct = t;
            ct.each([&](scalar x) { t2[at++] = x; });
            e.raw("each", "[" + std::to_string(idx[0]) + "," + std::to_string(idx[1]) + "," + std::to_string(idx[2]) + "]").v("eachv", t2, K);
        }
        {
            iv a = ri(r, 9), b = nz(r, 9), v = ri(r, 9);
            int k = nzs(r, 9);
            vector2 va = f2(a), vb = f2(b), t; scalar ks = k; vector3 w = f(v);
            rec e(o, "v2");
            e.i2("a", a).i2("b", b).n("k", k).i("v", v);
            e.v("add", va + vb, K).v("sub", va - vb, K).v("neg", -va, K).v("mul", va * vb, K).v("muls", va * ks, K).v("smul", ks * va, K).v("divs", va / ks, K).v("sdiv", ks / vb, K);
            t = va; t += vb; e.v("cadd", t, K);
            t = va; t -= vb; e.v("csub", t, K);
            t = va; t *= ks; e.v("cmuls", t, K);
            t = va; t /= ks; e.v("cdivs", t, K);
            e.s("dot", dot(va, vb), K).s("perp", perp_product(va, vb), K).v("orth", orthogonal(va), K);
            e.s("lsq", length_sqr(va), K).s("len", length(va), K).s("dist", distance(va, vb), K).s("dsq", distance_sqr(va, vb), K);
            e.v("nrm", a.x || a.y ? normalize(va) : va, K);
            e.raw("t2", "[" + js(to_vector2_xy(w), K) + "," + js(to_vector2_xz(w), K) + "," + js(to_vector2_yz(w), K) + "," + js(to_vector2_zy(w), K) + "," + js(to_vector2_yx(w), K) + "," + js(to_vector2_zx(w), K) + "]");
            e.raw("t3", "[" + js(to_vector3_xy(va), K) + "," + js(to_vector3_xz(va), K) + "," + js(to_vector3_yz(va), K) + "," + js(to_vector3_zy(va), K) + "," + js(to_vector3_yx(va), K) + "," + js(to_vector3_zx(va), K) + "]");
        }
        {
            imat a, b;
            int q = it % 4 ? 4 : 1;
            for (auto &x : a) for (auto &y : x) y = r.range(-q, q);
            for (auto &x : b) for (auto &y : x) y = r.range(-q, q);
            if (it % 3 == 0) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) b[i][j] = a[i][j] + (it % 6 ? r.range(-1, 1) : (it % 4 == 0 ? 0 : it % 4 == 1 ? 1 : -1));
            if (it % 3 == 1) { memcpy(b, a, sizeof a); int i = r.below(3), j = r.below(3); b[i][j] += nzs(r, 1); }
            iv v = ri(r, 9); int k = nzs(r, 5);
            auto m = fm(a), n = fm(b); auto w = f(v);
            rec e(o, "m3");
            e.raw("ma", ji(a)).raw("mb", ji(b)).i("v", v).n("k", k);
            e.raw("add", jm(m + n)).raw("sub", jm(m - n)).raw("mul", jm(m * n)).v("mv", m * w, K).v("vm", w * m, K).raw("ms", jm(m * scalar(k))).raw("sm", jm(scalar(k) * m));
            auto t = m; t += n; e.raw("cadd", jm(t));
            t = m; t -= n; e.raw("csub", jm(t));
            t = m; t *= n; e.raw("cmul", jm(t));
            e.raw("cmp", jb({m == n, m != n, m > n, m < n, m >= n, m <= n}));
            e.raw("cols", jm(matrix3x3_columns(m[0], m[1], m[2]))).raw("tr", jm(transpose(m))).raw("adj", jm(adjugate_matrix(m))).s("det", m.determinant(), K);
            e.raw("col", "[" + js(m.column(0), K) + "," + js(m.column(1), K) + "," + js(m.column(2), K) + "]");
            e.raw("cdot", "[" + std::to_string(sc(m.column_dot(0, w), K)) + "," + std::to_string(sc(m.column_dot(1, w), K)) + "," + std::to_string(sc(m.column_dot(2, w), K)) + "]");
            e.raw("inv", jm(inverse_matrix(m)));
            matrix3x3 s;
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s[i][j] = a[i][j] + a[j][i];
            e.raw("isym", jm(s.determinant() != 0 ? inverse_matrix_symmetric(s) : s));
            e.raw("diag", jm(diagonal_matrix(w))).v("gdiag", get_diagonal(m), K).raw("scale", jm(scale_matrix(m, w))).raw("skew", jm(skew_matrix(w))).v("skewv", skew_matrix(w) * m[0], K);
            e.raw("consts", "[" + jm(matrix3x3_identity) + "," + jm(matrix3x3_zero) + "," + jm(matrix3x3_one) + "]");
        }
        {
            iq p{{r.range(-6, 6), r.range(-6, 6), r.range(-6, 6), r.range(-6, 6)}, 1}, q{{r.range(-6, 6), r.range(-6, 6), r.range(-6, 6), r.range(-6, 6)}, 1};
            if (it % 3 == 0) { q = p; if (it % 6) q.a[r.below(4)] += 1; }
            iv v = ri(r, 9); int k = nzs(r, 5);
            auto a = fq(p), b = fq(q); auto w = f(v); scalar ks = k; quaternion t;
            rec e(o, "qt");
            e.raw("p", jq(p)).raw("q", jq(q)).i("v", v).n("k", k);
            e.raw("add", jq(a + b)).raw("sub", jq(a - b));
            t = a; t += b; e.raw("cadd", jq(t));
            t = a; t -= b; e.raw("csub", jq(t));
            e.raw("muls", jq(a * ks)).raw("smul", jq(ks * a)).raw("divs", jq(a / ks));
            quaternion bb = b; for (int i = 0; i < 4; ++i) if (bb[i] == 0) bb[i] = 1;
            e.raw("sdiv", jq(ks / bb)).raw("mul", jq(a * b));
            t = a; t *= b; e.raw("cmul", jq(t));
            e.raw("qv", jq(a * w)).raw("vq", jq(w * a)).raw("eq", jb({a == b, a != b})).s("lsq", length_sqr(a), K).s("len", length(a), K).s("dot", dot(a, b), K);
            e.raw("nrm", jq(length_sqr(a) > 0 ? normalize(a) : a)).raw("conj", jq(conjugate(a))).raw("der", jq(quaternion_derivative(a, w)));
            const quaternion ca = a;
            e.raw("at", jq(quaternion{ca[0], ca[1], ca[2], ca[3]}));
        }
        {
            auto &p = uq[it % uq.size()]; auto &q = uq[r.below(uq.size())];
            iv v = ri(r, 9), pos = ri(r, 9);
            auto a = fq(p), b = fq(q); auto w = f(v), x = f(pos);
            auto m = to_matrix3x3(a);
            rec e(o, "rot");
            e.raw("p", jq(p)).n("n", p.n).raw("q", jq(q)).n("m", q.n).i("v", v).i("o", pos);
            e.v("rot", rotate(a, w), K).raw("mat", jm(m)).raw("mats", jm(to_matrix3x3(a * scalar(r.range(1, 3))))).v("comp", rotate(a * b, w), K).v("seq", rotate(a, rotate(b, w)), K);
            e.raw("mm", jm(to_matrix3x3(a * b))).raw("toq", jq(to_quaternion(m)));
            e.raw("ax", "[" + js(quaternion_x(a), K) + "," + js(quaternion_y(a), K) + "," + js(quaternion_z(a), K) + "]");
            e.raw("cax", "[" + js(coordinate_axis_vector(coordinate_axis::x, a), K) + "," + js(coordinate_axis_vector(coordinate_axis::y, a), K) + "," + js(coordinate_axis_vector(coordinate_axis::z, a), K) + "]");
            e.raw("cv", "[" + js(coordinate_axis_vector(coordinate_axis::x), K) + "," + js(coordinate_axis_vector(coordinate_axis::y), K) + "," + js(coordinate_axis_vector(coordinate_axis::z), K) + "]");
            e.v("tw", to_world_space(w, x, a), K).v("twm", to_world_space(w, x, m), K).v("to", to_object_space(w, x, a), K).v("tom", to_object_space(w, x, m), K);
            auto an = get_euler_angles_xyz(m);
            e.v("ang", an, K).raw("eul", jm(rotation_matrix_xyz(an.x, an.y, an.z)));
        }
        {
            auto &a = angs[it % angs.size()]; auto &b = angs[r.below(20)]; auto &c = angs[r.below(20)];
            rec e(o, "angles");
            e.raw("a", ja(a)).raw("b", ja(b)).raw("c", ja(c));
            e.raw("rx", jm(rotation_matrix_x(A(a)))).raw("ry", jm(rotation_matrix_y(A(a)))).raw("rz", jm(rotation_matrix_z(A(a)))).raw("xyz", jm(rotation_matrix_xyz(A(a), A(b), A(c))));
        }
        {
            auto &a = angs[r.below(angs.size())]; auto &u = uvs[it % uvs.size()];
            double h = A(a);
            rec e(o, "axis");
            e.i("u", u.v).n("m", u.n).n("c", a.c).n("s", a.s).n("h", a.h).s("a", std::abs(2 * h), K);
            auto q = quaternion_axis_angle(f(u.v), 2 * h);
            auto un = fu(u);
            auto qu = std::abs(length_sqr(un) - 1) < EDYN_EPSILON ? quaternion_axis_angle_unit(un, 2 * h) : q;
            e.raw("q", jq(q)).raw("qu", jq(qu)).s("ang", quaternion_angle(q), K).v("axis", quaternion_axis(q), K);
        }
        {
            auto &p = uq[r.below(uq.size())]; auto &u = small_uv[r.below(small_uv.size())];
            bool small = it % 3 == 0;
            ang a = angs[r.below(angs.size())];
            if (small) { static const ang sm[3] = {{24, 7, 25}, {40, 9, 41}, {1, 0, 1}}; a = sm[r.below(3)]; }
            double h = A(a);
            double dt = small ? 2 * h / 0.0008 : it % 3 == 1 ? 1.0 / 60 : 0.5;
            double ws = small ? 0.0008 : 2 * h / dt;
            vector3 w{scalar(u.v.x * ws / u.n), scalar(u.v.y * ws / u.n), scalar(u.v.z * ws / u.n)};
            rec e(o, "integrate");
            e.raw("p", jq(p)).n("n", p.n).i("u", u.v).n("m", u.n).n("c", a.c).n("s", a.s).n("h", a.h).raw("r", jq(integrate(fq(p), w, dt)));
        }
        {
            auto &p = uq[r.below(uq.size())]; auto &u = uvs[r.below(uvs.size())];
            double h = it % 4 == 0 ? 0 : it % 4 == 1 ? pi / 2 : r.range(200, 1500) / 1000.0;
            double s = sin(h);
            quaternion q{scalar(u.v.x * s / u.n), scalar(u.v.y * s / u.n), scalar(u.v.z * s / u.n), scalar(cos(h))};
            auto a = fq(p), b = (q * a) * scalar(r.range(1, 3));
            rec e(o, "between");
            e.s("a", 2 * h, K).s("ab", angle_between(a, b), K).s("abn", angle_between(a, b * scalar(-1)), K).s("ba", angle_between(b, a), K).s("self", angle_between(a, a), K);
        }
        {
            auto &p = uq[r.below(uq.size())]; auto &u = small_uv[r.below(small_uv.size())];
            ang a = angs[r.below(20)];
            int k = a.h == 13 ? r.range(1, 2) : r.range(1, 3);
            double h = A(a), s = sin(h);
            quaternion q{scalar(u.v.x * s / u.n), scalar(u.v.y * s / u.n), scalar(u.v.z * s / u.n), scalar(cos(h))};
            auto q0 = fq(p), q1 = q0;
            for (int i = 0; i < k; ++i) q1 = q * q1;
            q1 = normalize(q1);
            std::string s0 = "[", s1 = "[";
            for (int i = 0; i <= k; ++i) { s0 += (i ? "," : "") + jq(slerp(q0, q1, scalar(i) / k)); s1 += (i ? "," : "") + jq(slerp(q0, q1 * scalar(-1), scalar(i) / k)); }
            rec e(o, "slerp");
            e.raw("p", jq(p)).n("n", p.n).i("u", u.v).n("m", u.n).n("c", a.c).n("s", a.s).n("h", a.h).n("k", k).raw("at", s0 + "]").raw("atn", s1 + "]");
        }
        {
            auto &a = uvs[it % uvs.size()];
            const uv *b;
            do b = &uvs[r.below(uvs.size())]; while (b->n != a.n);
            uv c = *b;
            if (it % 5 == 0) c = {{-a.v.x, -a.v.y, -a.v.z}, a.n};
            if (it % 5 == 1) c = a;
            auto q = shortest_arc(fu(a), fu(c));
            { rec e(o, "arc"); e.i("v0", a.v).i("v1", c.v).n("m", a.n).raw("q", jq(q)).v("r", rotate(q, fu(a)), K); }
            vector3 p, t;
            plane_space(fu(a), p, t);
            rec e(o, "frame");
            e.i("n", a.v).n("m", a.n).v("p", p, K).v("q", t, K).raw("b", jm(make_tangent_basis(fu(a))));
        }
        {
            int deg = r.range(-720, 720), t = r.range(-4, 8);
            double x = it % 4 ? r.range(-400000, 400000) / 10000.0 : r.range(-12, 12) * 1.5;
            rec e(o, "scalars");
            e.s("x", scalar(x), K).s("norm", normalize_angle(x), K).n("deg", deg).s("rad", to_radians(deg), K).s("back", to_degrees(to_radians(deg)), 1000);
            e.n("t", t).s("clamp", clamp_unit(scalar(t) / 4), K).s("sq", square(scalar(t)), K).raw("sign", "[" + std::to_string(sc(to_sign(true), K)) + "," + std::to_string(sc(to_sign(false), K)) + "]");
            e.s("nmr", to_Nm_per_radian(deg), 10).s("nmd", to_Nm_per_degree(to_Nm_per_radian(deg)), 1000);
        }
    }
}

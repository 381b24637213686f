// Constraint rows: sequences of solves over rows, friction pairs and spin friction sharing three bodies.
#include "geo_drv.hpp"
#include <edyn/constraints/constraint_row.hpp>
#include <edyn/constraints/constraint_row_options.hpp>
#include <edyn/constraints/constraint_row_friction.hpp>
#include <edyn/constraints/constraint_row_spin_friction.hpp>
using namespace geo;
static const double U = 4096;
struct world {
    int m4[3]; int i4[3][3][3];
    delta_linvel dv[3]; delta_angvel dw[3];
    std::vector<constraint_row> rows;
    constraint_row_friction fr; constraint_row_spin_friction sp;
};
static std::string jJ(const std::array<iv, 4> &J) { return "[" + js(J[0]) + "," + js(J[1]) + "," + js(J[2]) + "," + js(J[3]) + "]"; }
static void state(out &o, world &w) {
    auto n = [](double x) { return std::to_string(sc(x, U)); };
    o.key("imp").raw("[" + n(w.rows[0].impulse) + "," + n(w.rows[1].impulse) + ",[" + n(w.fr.row[0].impulse) + "," + n(w.fr.row[1].impulse) + "]," + n(w.sp.impulse) + "]");
    std::string a = "[", b = "[";
    for (int k = 0; k < 3; ++k) { a += (k ? "," : "") + js(vector3(w.dv[k]), U); b += (k ? "," : "") + js(vector3(w.dw[k]), U); }
    o.key("dv").raw(a + "]").key("dw").raw(b + "]");
}
static int doti_(iv a) { return a.x * a.x + a.y * a.y + a.z * a.z; }
static double invEff(world &w, const std::array<iv, 4> &J, int a, int b) {
    auto q = [&](int k, iv j) { int v[3] = {j.x, j.y, j.z}; double s = 0; for (int i = 0; i < 3; ++i) for (int c = 0; c < 3; ++c) s += v[i] * w.i4[k][i][c] * v[c]; return s; };
    return (doti_(J[0]) * w.m4[a] + q(a, J[1]) + doti_(J[2]) * w.m4[b] + q(b, J[3])) / 4.0;
}
static void run(out &o, rng &r, const std::vector<int> &ops) {
    world w;
    o.reset();
    int shape = r.below(4);
    for (int k = 0; k < 3; ++k) {
        bool st = (k == 2 && r.chance(1, 2)) || (k == 0 && r.chance(1, 5));
        w.m4[k] = st ? 0 : r.range(1, 8);
        memset(w.i4[k], 0, sizeof w.i4[k]);
        if (!st) { int d = r.range(2, 6); for (int i = 0; i < 3; ++i) w.i4[k][i][i] = shape == 0 ? d : r.range(2, 8); if (shape == 3) { int e = r.range(-1, 1), h = r.range(-1, 1); w.i4[k][0][1] = w.i4[k][1][0] = e; w.i4[k][1][2] = w.i4[k][2][1] = h; } }
        static_cast<vector3 &>(w.dv[k]) = vector3_zero; static_cast<vector3 &>(w.dw[k]) = vector3_zero;
    }
    iv vel[3], ang[3];
    for (int k = 0; k < 3; ++k) { vel[k] = ri(r, 3); ang[k] = ri(r, 3); }
    bool warm = r.chance(2, 3);
    auto rndJ = [&](int a, int b) {
        std::array<iv, 4> J;
        do { bool anti = r.below(2); J[0] = ri(r, 2); J[2] = anti ? iv{-J[0].x, -J[0].y, -J[0].z} : ri(r, 2); J[1] = ri(r, 2); J[3] = ri(r, 2); if (r.chance(1, 6)) J[0] = J[2] = {0, 0, 0}; if (r.chance(1, 6)) J[1] = J[3] = {0, 0, 0}; } while (invEff(w, J, a, b) < 0.5);
        return J;
    };
    std::array<iv, 4> J[2], fJ[2]; iv sJ[2];
    w.rows.resize(2);
    int err[2], erp[2], rest[2]; double lo[2], hi[2];
    for (int k = 0; k < 2; ++k) {
        auto &row = w.rows[k]; int a = k, b = k + 1;
        J[k] = rndJ(a, b);
        for (int i = 0; i < 4; ++i) row.J[i] = f(J[k][i]);
        row.inv_mA = w.m4[a] / 4.0f; row.inv_mB = w.m4[b] / 4.0f;
        for (int i = 0; i < 3; ++i) { row.inv_IA.row[i] = vector3{scalar(w.i4[a][i][0]), scalar(w.i4[a][i][1]), scalar(w.i4[a][i][2])} / 4; row.inv_IB.row[i] = vector3{scalar(w.i4[b][i][0]), scalar(w.i4[b][i][1]), scalar(w.i4[b][i][2])} / 4; }
        row.dvA = &w.dv[a]; row.dwA = &w.dw[a]; row.dvB = &w.dv[b]; row.dwB = &w.dw[b];
        int L = r.range(1, 16);
        switch (r.below(5)) { case 0: case 1: lo[k] = 0; hi[k] = 5000; break; case 2: lo[k] = -L / 4.0; hi[k] = L / 4.0; break; case 3: lo[k] = -5000; hi[k] = 5000; break; default: lo[k] = -L / 2.0; hi[k] = r.below(2) ? 0 : L / 8.0; }
        if (r.chance(1, 2)) { lo[k] = 0; hi[k] = 5000; }
        row.lower_limit = lo[k]; row.upper_limit = hi[k];
        err[k] = r.range(-8, 8); erp[k] = r.range(0, 8); rest[k] = r.below(2) ? 0 : r.range(0, 4);
        constraint_row_options opt; opt.error = err[k] / 8.0f; opt.erp = erp[k] / 8.0f; opt.restitution = rest[k] / 4.0f;
        row.impulse = warm ? std::max(lo[k], std::min(hi[k], r.range(-8, 16) / 4.0)) : 0;
        prepare_row(row, opt, f(vel[a]), f(ang[a]), f(vel[b]), f(ang[b]));
    }
    int mu = r.range(0, 16), smu = r.range(0, 16); double frhs[2];
    for (int i = 0; i < 2; ++i) {
        fJ[i] = rndJ(0, 1);
        for (int k = 0; k < 4; ++k) w.fr.row[i].J[k] = f(fJ[i][k]);
        w.fr.row[i].eff_mass = 1 / invEff(w, fJ[i], 0, 1);
        frhs[i] = r.range(-32, 32) / 4.0; w.fr.row[i].rhs = frhs[i];
        w.fr.row[i].impulse = warm ? r.range(-4, 4) / 8.0 : 0;
    }
    w.fr.friction_coefficient = mu / 8.0f; w.fr.normal_row_index = 0;
    std::array<iv, 4> S;
    do { sJ[0] = ri(r, 2); sJ[1] = r.below(2) ? iv{-sJ[0].x, -sJ[0].y, -sJ[0].z} : ri(r, 2); S = {iv{0, 0, 0}, sJ[0], iv{0, 0, 0}, sJ[1]}; } while (invEff(w, S, 1, 2) < 0.5);
    w.sp.J[0] = f(sJ[0]); w.sp.J[1] = f(sJ[1]); w.sp.eff_mass = 1 / invEff(w, S, 1, 2); double srhs = r.range(-32, 32) / 4.0; w.sp.rhs = srhs;
    w.sp.impulse = warm ? r.range(-4, 4) / 8.0 : 0; w.sp.friction_coefficient = smu / 8.0f; w.sp.normal_row_index = 1;
    auto n = [](double x) { return std::to_string(sc(x, U)); };
    auto p2 = [&](double a, double b) { return "[" + n(a) + "," + n(b) + "]"; };
    std::string I = "[", M = "[", V = "[", W = "[";
    for (int k = 0; k < 3; ++k) {
        I += k ? ",[" : "["; for (int i = 0; i < 3; ++i) I += (i ? "," : "") + js(iv{w.i4[k][i][0], w.i4[k][i][1], w.i4[k][i][2]}); I += "]";
        M += (k ? "," : "") + std::to_string(w.m4[k]); V += (k ? "," : "") + js(vel[k]); W += (k ? "," : "") + js(ang[k]);
    }
    o.begin("begin").key("m4").raw(M + "]").key("i4").raw(I + "]").key("v").raw(V + "]").key("w").raw(W + "]").kb("warm", true)
        .key("J").raw("[" + jJ(J[0]) + "," + jJ(J[1]) + "]").key("fJ").raw("[" + jJ(fJ[0]) + "," + jJ(fJ[1]) + "]").key("sJ").raw("[" + js(sJ[0]) + "," + js(sJ[1]) + "]")
        .arr("err", std::vector<int>{err[0], err[1]}).arr("erp", std::vector<int>{erp[0], erp[1]}).arr("rest", std::vector<int>{rest[0], rest[1]})
        .key("eff").raw(p2(w.rows[0].eff_mass, w.rows[1].eff_mass)).key("rhs").raw(p2(w.rows[0].rhs, w.rows[1].rhs)).key("lo").raw(p2(lo[0], lo[1])).key("hi").raw(p2(hi[0], hi[1]))
        .key("frhs").raw(p2(frhs[0], frhs[1])).kv("mu", mu).kv("smu", smu).key("srhs").raw(n(srhs));
    state(o, w); o.endq();
    if (warm || r.below(2)) { warm_start(w.rows[0]); warm_start(w.rows[1]); warm_start(w.fr, w.rows); warm_start(w.sp, w.rows); o.begin("warm"); state(o, w); o.endq(); }
    for (int op : ops) {
        if (op <= 2) { auto &row = w.rows[op - 1]; auto d = solve(row); apply_row_impulse(d, row); o.begin("solve").kv("r", op).key("delta").raw(n(d)); }
        else if (op == 5) {
            int k = r.below(2); auto &row = w.rows[k];
            // Often such that the impulse is now outside the limits.
            int c = int(std::floor(row.impulse * 4));
            switch (r.below(4)) {
            case 0: hi[k] = std::max(0, c - r.range(0, 4)) / 4.0; lo[k] = -hi[k]; break;
            case 1: lo[k] = std::min(0, c - 2) / 4.0; hi[k] = lo[k] + std::max(0.0, (c - lo[k] * 4) / 8); break;
            case 2: lo[k] = (c + 1) / 4.0; hi[k] = lo[k] + r.range(0, 8) / 4.0; break;
            default: lo[k] = -5000; hi[k] = 5000;
            }
            row.lower_limit = lo[k]; row.upper_limit = hi[k];
            o.begin("limits").key("lo").raw(p2(lo[0], lo[1])).key("hi").raw(p2(hi[0], hi[1]));
        } else if (op == 3) { if (w.rows[0].impulse < 0) continue; solve_friction(w.fr, w.rows); o.begin("friction"); }
        else { if (w.rows[1].impulse < 0) continue; solve_spin_friction(w.sp, w.rows); o.begin("spin"); }
        state(o, w); o.endq();
    }
}
int main(int argc, char **argv) {
    auto bs = vdrv::read_behaviours(argv[1]);
    rng r(atoi(argv[2])); int reps = atoi(argv[3]);
    out o(argv[4]);
    for (int k = 0; k < reps; ++k) for (auto &b : bs) run(o, r, b);
    for (int k = 0; k < reps * 20; ++k) { std::vector<int> ops; for (int i = r.range(8, 30); i > 0; --i) ops.push_back(r.range(1, 5)); run(o, r, ops); }
}

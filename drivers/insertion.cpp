// insertion_point_index: candidate points offered to a contact set of at most four points.
#include "geo_drv.hpp"
#include <edyn/math/geom.hpp>
using namespace geo;
struct pt { iv p; iv e; };              // p + e * 4 mm
static vector3 fp(pt a) { return f(a.p) + f(a.e) * 0.004f; }
static std::string jp(const std::vector<pt> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ",[" : "[") + js(v[i].p) + "," + js(v[i].e) + "]"; return s + "]"; }
static insertion_point_result step(out &o, std::vector<pt> &set, pt c, size_t cap = 4) {
    std::array<vector3, 4> a{}; for (size_t i = 0; i < set.size(); ++i) a[i] = fp(set[i]);
    size_t n = set.size();
    auto r = cap == 4 ? insertion_point_index(a, n, fp(c)) : insertion_point_index(a.data(), cap, n, fp(c));
    rec(o, "ins").raw("s", jp(set)).raw("c", jp({c})).n("t", (int)r.type).n("i", r.index > 1000 ? 1000 : (int)r.index + 1).n("n", (int)n).n("cap", (int)cap);
    return r;
}
static void apply(std::vector<pt> &set, pt c, insertion_point_result r) {
    if (r.type == point_insertion_type::append) set.push_back(c);
    else if (r.type != point_insertion_type::none && r.index < set.size()) set[r.index] = c;
}
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    // every set of up to three points and candidate of a small grid, on a line and in a plane
    auto grid = [&](int k, int dim) -> iv { return dim == 1 ? iv{k - 2, 0, 0} : iv{k % 3 - 1, 0, k / 3 - 1}; };
    for (int dim = 1; dim <= 2; ++dim) {
        int g = dim == 1 ? 5 : 9;
        for (int a = 0; a < g; ++a) for (int b = 0; b < g; ++b) {
            std::vector<pt> s{{grid(a, dim), {0, 0, 0}}};
            step(o, s, {grid(b, dim), {0, 0, 0}});
            for (int c = 0; c < g; ++c) {
                s = {{grid(a, dim), {0, 0, 0}}, {grid(b, dim), {0, 0, 0}}};
                step(o, s, {grid(c, dim), {0, 0, 0}});
                for (int d = 0; d < g; ++d) {
                    s = {{grid(a, dim), {0, 0, 0}}, {grid(b, dim), {0, 0, 0}}, {grid(c, dim), {0, 0, 0}}};
                    step(o, s, {grid(d, dim), {0, 0, 0}});
                }
            }
        }
    }
    // histories: candidates offered one after another
    for (int k = 0; k < N; ++k) {
        std::vector<pt> s;
        int dim = r.below(4), len = r.range(3, 12), m = r.range(1, 3);
        bool near = r.chance(1, 3);
        for (int i = 0; i < len; ++i) {
            pt c{{r.range(-m, m), dim > 0 ? r.range(-m, m) : 0, dim > 1 ? r.range(-m, m) : 0}, {0, 0, 0}};
            if (near && !s.empty() && r.chance(1, 2)) {
                c = s[r.below((int)s.size())];
                iv d = r.chance(1, 2) ? ri(r, 3) : iv{r.range(-3, 3), 0, 0};
                c.e = {c.e.x + d.x, c.e.y + d.y, c.e.z + d.z};
            }
            auto res = step(o, s, c);
            apply(s, c, res);
            if (s.size() > 4) return 0;
            if (s.size() > 1 && r.chance(1, 6)) { s.erase(s.begin() + r.below((int)s.size())); }
            if (!s.empty() && r.chance(1, 5)) { auto &x = s[r.below((int)s.size())]; x.p = {r.range(-m, m), dim > 0 ? r.range(-m, m) : 0, dim > 1 ? r.range(-m, m) : 0}; x.e = {0, 0, 0}; } // contact points move
        }
    }
}

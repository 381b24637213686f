// Volumes and centroids.
#include "hull.hpp"
#include <edyn/math/shape_volume.hpp>
#include <edyn/shapes/compound_shape.hpp>
#include <edyn/shapes/convex_mesh.hpp>
#include <edyn/util/shape_util.hpp>
using namespace geo;
int main(int argc, char **argv) {
    rng r(atoi(argv[1])); int N = atoi(argv[2]);
    out o(argv[3]);
    for (int k = 0; k < N; ++k) {
        auto h = rand_hull(r, 3, 10);
        iv off = r.chance(1, 2) ? iv{0, 0, 0} : ri(r, 4);
        for (auto &v : h.v) v = {v.x + off.x, v.y + off.y, v.z + off.z};
        // shuffle faces, rotate their starting vertices; sometimes triangulate
        auto fs = h.faces;
        if (r.chance(1, 3)) { std::vector<std::vector<int>> t; for (auto &f : fs) for (size_t i = 1; i + 1 < f.size(); ++i) t.push_back({f[0], f[i], f[i + 1]}); fs = t; }
        for (size_t i = fs.size(); i-- > 1;) std::swap(fs[i], fs[r.below((int)i + 1)]);
        for (auto &f : fs) std::rotate(f.begin(), f.begin() + r.below((int)f.size()), f.end());
        convex_mesh m;
        for (auto &v : h.v) m.vertices.push_back(f(v));
        if (r.chance(1, 4)) m.indices.push_back(0);  // faces need not start at the first index
        for (auto &x : fs) { m.faces.push_back((uint32_t)m.indices.size()); m.faces.push_back((uint32_t)x.size()); for (int i : x) m.indices.push_back(i); }
        auto c = mesh_centroid(m.vertices, m.indices, m.faces);
        polyhedron_shape ps; ps.mesh = std::make_shared<convex_mesh>(m);
        rec(o, "mesh").raw("v", jl(h.v)).raw("f", jlists(fs, 1)).s("vol", mesh_volume(m)).s("pvol", shape_volume(ps)).v("c", c);
        // primitive shapes and compounds
        int rad = r.range(1, 4), len = r.range(1, 4); iv e = {r.range(1, 5), r.range(1, 5), r.range(1, 5)};
        sphere_shape sp{scalar(rad)}; cylinder_shape cy{scalar(rad), scalar(len)}; capsule_shape ca{scalar(rad), scalar(len)}; box_shape bo{f(e)};
        compound_shape co; std::vector<int> parts;
        int n = r.range(0, 4);
        for (int i = 0; i < n; ++i) {
            int t = r.below(5); parts.push_back(t);
            compound_shape::shape_node nd; nd.position = f(ri(r, 3)); nd.orientation = quaternion_identity;
            if (t == 0) nd.shape_var = sp; else if (t == 1) nd.shape_var = cy; else if (t == 2) nd.shape_var = ca; else if (t == 3) nd.shape_var = bo; else nd.shape_var = ps;
            co.nodes.push_back(nd);
        }
        rec(o, "shape").n("r", rad).n("l", len).i("x", e).s("sp", shape_volume(sp)).s("cy", shape_volume(cy)).s("ca", shape_volume(ca)).s("bo", shape_volume(bo))
            .s("ps", shape_volume(ps)).s("co", shape_volume(co)).raw("parts", jlist(parts))
            .s("cv", cylinder_volume(rad, len)).s("sv", sphere_volume(rad)).s("bv", box_volume(f(e)));
    }
}

// Serialization: values of every supported type are written, read back into other values, truncated at every byte
// and written into fixed buffers of every size (mode types); and primitive reads/writes follow a script (mode prim).
#include "mesh_gen.hpp"
#include <edyn/math/vector3.hpp>
#include <edyn/math/quaternion.hpp>
#include <edyn/math/matrix3x3.hpp>
#include <edyn/serialization/math_s11n.hpp>
#include <edyn/serialization/std_s11n.hpp>
#include <edyn/serialization/static_tree_s11n.hpp>
#include <edyn/serialization/triangle_mesh_s11n.hpp>
#include <edyn/serialization/memory_archive.hpp>
#include <edyn/serialization/file_archive.hpp>
#include <edyn/core/flat_nested_array.hpp>
#include <unistd.h>
using namespace edyn;
using vdrv::rng; using vdrv::out;
namespace edyn {
enum class small_e : uint8_t { a, b, c = 200 };
enum class big_e : int64_t { a = -5, b = 1ll << 40 };
struct nothing {};
struct ptr_holder { int *p; };
template<typename A> void serialize(A &a, small_e &e) { serialize_enum(a, e); }
template<typename A> void serialize(A &a, big_e &e) { serialize_enum(a, e); }
template<typename A> void serialize(A &a, ptr_holder &e) { serialize_pointer(a, &e.p); }
struct custom { int32_t i; std::string s; std::optional<float> o; nothing n; };
template<typename A> void serialize(A &a, custom &c) { a(c.i, c.s); a(c.n); a(c.o); }
}
static int pool_ints[8];
// ---------------------------------------------------------------- flattening: a value as a list of integers
using L = std::vector<int>;
template<typename T> std::enable_if_t<std::is_fundamental_v<T>> fl(L &o, const T &v) {
    unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof v);
    for (size_t i = 0; i < sizeof(T); i += 2) { int x = b[i]; if (i + 1 < sizeof(T)) x |= b[i + 1] << 8; o.push_back(x); }
}
static void fl(L &o, bool v) { o.push_back(v); }
static void fl(L &o, small_e v) { o.push_back((int)v); }
static void fl(L &o, big_e v) { fl(o, (int64_t)v); }
static void fl(L &o, const ptr_holder &v) { o.push_back(v.p ? (int)(v.p - pool_ints) : -1); }
static void fl(L &, const nothing &) {}
static void fl(L &o, const vector3 &v) { fl(o, v.x); fl(o, v.y); fl(o, v.z); }
static void fl(L &o, const quaternion &v) { fl(o, v.x); fl(o, v.y); fl(o, v.z); fl(o, v.w); }
static void fl(L &o, const matrix3x3 &v) { for (int i = 0; i < 3; ++i) fl(o, v.row[i]); }
static void fl(L &o, const std::string &v) { o.push_back((int)v.size()); for (char c : v) o.push_back((unsigned char)c); }
template<typename T> void fl(L &o, const std::vector<T> &v);
template<typename T, size_t N> void fl(L &o, const std::array<T, N> &v);
template<typename T, typename U> void fl(L &o, const std::pair<T, U> &v);
template<typename T> void fl(L &o, const std::optional<T> &v);
template<typename... T> void fl(L &o, const std::variant<T...> &v);
template<typename K, typename V> void fl(L &o, const std::map<K, V> &v);
template<typename T> void fl(L &o, const unordered_pair<T> &v);
template<typename T> void fl(L &o, const flat_nested_array<T> &v);
static void fl(L &o, const custom &c);
static void fl(L &o, const static_tree::tree_node &n) { fl(o, n.aabb.min); fl(o, n.aabb.max); fl(o, n.child1); fl(o, n.child2); }
static void fl(L &o, const static_tree &t) {
    std::vector<std::pair<int, int>> hits;
    for (int k = -1; k < 7; ++k) {
        scalar a = k < 0 ? -100 : -6 + 2 * k, b = k < 0 ? 100 : a + 3;
        t.query({{a, -100, a}, {b, 100, b + 2}}, [&](auto i) { o.push_back((int)i); fl(o, t.get_node(i).id); fl(o, t.get_node(i).aabb.min); fl(o, t.get_node(i).aabb.max); });
        o.push_back(-7);
    }
    fl(o, t.root_aabb().min); fl(o, t.root_aabb().max);
}
static void fl(L &o, const triangle_mesh &m) {
    o.push_back((int)m.num_vertices()); o.push_back((int)m.num_edges()); o.push_back((int)m.num_triangles());
    for (size_t i = 0; i < m.num_vertices(); ++i) fl(o, m.get_vertex_position(i));
    for (size_t i = 0; i < m.num_triangles(); ++i) {
        fl(o, m.get_triangle_normal(i));
        for (int k = 0; k < 3; ++k) { fl(o, m.get_face_vertex_index(i, k)); fl(o, m.get_face_edge_index(i, k)); fl(o, m.get_adjacent_face_normal(i, k)); }
    }
    for (size_t i = 0; i < m.num_edges(); ++i) {
        fl(o, m.get_edge_vertex_indices(i)); fl(o, m.get_edge_face_indices(i)); o.push_back(m.is_convex_edge(i)); o.push_back(m.is_boundary_edge(i));
    }
    o.push_back(m.has_per_vertex_friction()); o.push_back(m.has_per_vertex_restitution()); o.push_back(m.has_per_vertex_material_id());
    for (size_t i = 0; i < m.num_vertices(); ++i) {
        if (m.has_per_vertex_friction()) fl(o, m.get_vertex_friction(i));
        if (m.has_per_vertex_restitution()) fl(o, m.get_vertex_restitution(i));
        if (m.has_per_vertex_material_id()) fl(o, m.get_vertex_material_id(i));
    }
    fl(o, m.get_thickness());
    for (int k = -1; k < 7; ++k) {
        scalar a = k < 0 ? -100 : -6 + 2 * k, b = k < 0 ? 100 : a + 3;
        m.visit_triangles({{a, -100, a}, {b, 100, b + 2}}, [&](auto i) { o.push_back((int)i); });
        o.push_back(-7);
    }
}
template<typename T> void fl(L &o, const std::vector<T> &v) { o.push_back((int)v.size()); for (const auto &x : v) { T t = x; fl(o, t); } }
template<typename T, size_t N> void fl(L &o, const std::array<T, N> &v) { for (auto &x : v) fl(o, x); }
template<typename T, typename U> void fl(L &o, const std::pair<T, U> &v) { fl(o, v.first); fl(o, v.second); }
template<typename T> void fl(L &o, const std::optional<T> &v) { o.push_back(v.has_value()); if (v) fl(o, *v); }
template<typename... T> void fl(L &o, const std::variant<T...> &v) { o.push_back((int)v.index()); std::visit([&](auto &x) { fl(o, x); }, v); }
template<typename K, typename V> void fl(L &o, const std::map<K, V> &v) { o.push_back((int)v.size()); for (auto &p : v) { fl(o, p.first); fl(o, p.second); } }
template<typename T> void fl(L &o, const unordered_pair<T> &v) { fl(o, v.first); fl(o, v.second); }
template<typename T> void fl(L &o, const flat_nested_array<T> &v) { o.push_back((int)v.size()); for (size_t i = 0; i < v.size(); ++i) { auto a = v[i]; o.push_back((int)a.size()); for (size_t k = 0; k < a.size(); ++k) fl(o, a[k]); } }
static void fl(L &o, const custom &c) { fl(o, c.i); fl(o, c.s); fl(o, c.o); }
// ---------------------------------------------------------------- random values
struct gen { rng &r; int m; };
static int len(gen &g) { int k = g.r.below(8); return k == 0 ? 0 : k < 6 ? g.r.range(1, g.m) : g.r.range(1, 3 * g.m); }
template<typename T> std::enable_if_t<std::is_integral_v<T>> mk(gen &g, T &v) {
    int k = g.r.below(6);
    v = k == 0 ? T(0) : k == 1 ? std::numeric_limits<T>::max() : k == 2 ? std::numeric_limits<T>::min() : T(g.r.next());
}
static void mk(gen &g, bool &v) { v = g.r.below(2); }
template<typename T> std::enable_if_t<std::is_floating_point_v<T>> mk(gen &g, T &v) {
    static const double s[] = {0, -0.0, 1, -1.5, 3.4e38, 1e-38, -1e-45, 0.1, INFINITY};
    v = g.r.below(2) ? T(s[g.r.below(9)]) : T(g.r.range(-100000, 100000) / 64.0);
}
static void mk(gen &g, small_e &v) { small_e s[] = {small_e::a, small_e::b, small_e::c}; v = s[g.r.below(3)]; }
static void mk(gen &g, big_e &v) { v = g.r.below(2) ? big_e::a : big_e::b; }
static void mk(gen &g, ptr_holder &v) { int k = g.r.below(9); v.p = k == 8 ? nullptr : pool_ints + k; }
static void mk(gen &, nothing &) {}
static void mk(gen &g, vector3 &v) { mk(g, v.x); mk(g, v.y); mk(g, v.z); }
static void mk(gen &g, quaternion &v) { mk(g, v.x); mk(g, v.y); mk(g, v.z); mk(g, v.w); }
static void mk(gen &g, matrix3x3 &v) { for (int i = 0; i < 3; ++i) mk(g, v.row[i]); }
static void mk(gen &g, std::string &v) { int n = len(g); v.clear(); for (int i = 0; i < n; ++i) v.push_back((char)g.r.below(256)); }
template<typename T> void mk(gen &g, std::vector<T> &v);
template<typename T, size_t N> void mk(gen &g, std::array<T, N> &v);
template<typename T, typename U> void mk(gen &g, std::pair<T, U> &v);
template<typename T> void mk(gen &g, std::optional<T> &v);
template<typename... T> void mk(gen &g, std::variant<T...> &v);
template<typename K, typename V> void mk(gen &g, std::map<K, V> &v);
template<typename T> void mk(gen &g, unordered_pair<T> &v);
template<typename T> void mk(gen &g, flat_nested_array<T> &v);
static void mk(gen &g, custom &c);
static void mk(gen &g, static_tree::tree_node &n) { mk(g, n.aabb.min); mk(g, n.aabb.max); mk(g, n.child1); mk(g, n.child2); }
static void mk(gen &g, static_tree &t) {
    std::vector<AABB> b;
    for (int n = g.r.range(1, g.m); n > 0; --n) { vector3 a = geo::f(geo::ri(g.r, 6)); vector3 e{scalar(g.r.below(3)), scalar(g.r.below(3)), scalar(g.r.below(3))}; b.push_back({a, a + e}); }
    t = static_tree{};
    auto leaf = [](auto &node, auto b, auto) { node.id = uint32_t(*b); };
    t.build(b.begin(), b.end(), leaf);
}
static void mk(gen &g, triangle_mesh &m) {
    auto im = geo::rand_mesh(g.r);
    std::vector<float> fr, re;
    if (g.r.below(2)) for (size_t i = 0; i < im.v.size(); ++i) fr.push_back(g.r.below(9) / 8.0f);
    if (g.r.below(2)) for (size_t i = 0; i < im.v.size(); ++i) re.push_back(g.r.below(9) / 8.0f);
    m = triangle_mesh{};
    geo::build_mesh(im, m, fr, re);
    m.set_thickness(g.r.range(1, 9) / 4.0f);
}
template<typename T> void mk(gen &g, std::vector<T> &v) { int n = len(g); v.clear(); for (int i = 0; i < n; ++i) { T t{}; mk(g, t); v.push_back(t); } }
template<> void mk(gen &g, std::vector<bool> &v) { static const int ns[] = {0, 1, 31, 32, 33, 63, 64, 65, 96, 100}; int n = g.r.below(2) ? ns[g.r.below(10)] : g.r.range(0, 80); v.clear(); for (int i = 0; i < n; ++i) v.push_back(g.r.below(2)); }
template<typename T, size_t N> void mk(gen &g, std::array<T, N> &v) { for (auto &x : v) mk(g, x); }
template<typename T, typename U> void mk(gen &g, std::pair<T, U> &v) { mk(g, v.first); mk(g, v.second); }
template<typename T> void mk(gen &g, std::optional<T> &v) { if (g.r.below(3)) mk(g, v.emplace()); else v.reset(); }
template<size_t I, typename V> void mkv(gen &g, V &v, size_t k) { if constexpr (I < std::variant_size_v<V>) { if (k == I) { std::variant_alternative_t<I, V> t{}; mk(g, t); v.template emplace<I>(t); } else mkv<I + 1>(g, v, k); } }
template<typename... T> void mk(gen &g, std::variant<T...> &v) { mkv<0>(g, v, g.r.below(sizeof...(T))); }
template<typename K, typename V> void mk(gen &g, std::map<K, V> &v) { int n = len(g); v.clear(); for (int i = 0; i < n; ++i) { K k{}; V x{}; mk(g, k); mk(g, x); v[k] = x; } }
template<typename T> void mk(gen &g, unordered_pair<T> &v) { mk(g, v.first); mk(g, v.second); }
template<typename T> void mk(gen &g, flat_nested_array<T> &v) { v = {}; int n = len(g); for (int i = 0; i < n; ++i) { v.push_array(); for (int k = g.r.below(4); k > 0; --k) { T t{}; mk(g, t); v.push_back(t); } } }
static void mk(gen &g, custom &c) { mk(g, c.i); mk(g, c.s); mk(g, c.o); }
// ---------------------------------------------------------------- one round trip
template<typename T> L flat(const T &v) { L o; fl(o, v); return o; }
static std::string tmpfile_;
template<typename T> long announced(const T &) { return -1; }
static long announced(const std::vector<float> &v) { return serialization_sizeof(v); }
static long announced(const std::vector<vector3> &v) { return serialization_sizeof(v); }
static long announced(const std::vector<bool> &v) { return serialization_sizeof(v); }
static long announced(const std::vector<std::array<uint32_t, 3>> &v) { return serialization_sizeof(v); }
static long announced(const std::array<uint16_t, 5> &v) { return serialization_sizeof(v); }
static long announced(const std::pair<uint8_t, uint32_t> &v) { return serialization_sizeof(v); }
static long announced(const std::map<uint16_t, uint8_t> &v) { return serialization_sizeof(v); }
static long announced(const unordered_pair<uint32_t> &v) { return serialization_sizeof(v); }
static long announced(const flat_nested_array<uint16_t> &v) { return serialization_sizeof(v); }
static long announced(const std::variant<uint8_t, float> &v) { return serialization_sizeof(v); }
static long announced(const std::optional<std::vector<bool>> &v) { return serialization_sizeof(v); }
static long announced(const static_tree &v) { return serialization_sizeof(v); }
static long announced(const triangle_mesh &v) { return serialization_sizeof(v); }
static __attribute__((noinline)) void dirty(int c) { volatile unsigned char a[16384]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (unsigned char)c; }
template<typename T> L partial(const uint8_t *p, size_t n, T x, int c) { dirty(c); memory_input_archive in(p, n); in(x); return flat(x); }
template<typename T> struct is_fna : std::false_type {}; template<typename T> struct is_fna<flat_nested_array<T>> : std::true_type {};
template<typename T> bool determined(const uint8_t *p, size_t n, const T &x) {
    if constexpr (std::is_same_v<T, triangle_mesh> || std::is_same_v<T, static_tree> || is_fna<T>::value) return true;
    else return partial(p, n, x, 0) == partial(p, n, x, 255);
}
template<typename T> void trip(out &o, rng &r, const char *name, int n, int m = 5, int maxcuts = 60) {
    for (int k = 0; k < n; ++k) {
        gen g{r, m};
        T v{}, w{};
        mk(g, v);
        if (r.below(4)) mk(g, w);         // the destination usually holds something else
        L before = flat(v);
        std::vector<uint8_t> buf;
        { memory_output_archive ar(buf); if (r.below(2)) { const T &cv = v; ar(cv); } else ar(v); }
        size_t size = buf.size();
        L after = flat(v);
        std::vector<uint8_t> exact(buf);   // exactly sized heap block, bounds watched by the sanitizer
        uint8_t *blk = (uint8_t *)malloc(size ? size : 1);
        memcpy(blk, exact.data(), size);
        memory_input_archive in(blk, size);
        in(w);
        bool failed = in.failed(), eof = in.eof();
        free(blk);
        L back = flat(w);
        // file
        std::vector<int> fback; long fpos = -1, fsize = -1;
        bool usefile = k % 4 == 0;
        if (usefile) {
            T x{}; mk(g, x);
            { file_output_archive fo(tmpfile_); fo(v); fo.close(); }
            file_input_archive fi(tmpfile_); fi(x); fpos = (long)fi.tell_position();
            FILE *f = fopen(tmpfile_.c_str(), "rb"); fseek(f, 0, SEEK_END); fsize = ftell(f); fclose(f);
            fback = flat(x);
        } else { fback = before; fpos = fsize = (long)size; }
        o.begin("trip").ks("t", name).arr("v", before).arr("after", after).arr("back", back).kv("n", size).kb("failed", failed).kb("eof", eof)
            .arr("fback", fback).kv("fpos", fpos).kv("fsize", fsize).kv("ann", announced(v)); o.endq();
        // two in a row: boundaries are kept
        if (k % 3 == 0) {
            T a{}, b{}; mk(g, a);
            uint32_t mark = 0xC0FFEE11, got = 0;
            std::vector<uint8_t> b2;
            { memory_output_archive ar(b2); ar(v, mark); ar(a); }
            memory_input_archive i2(b2.data(), b2.size());
            T x{}; i2(x, got); i2(b);
            o.begin("pair").ks("t", name).arr("v", flat(v)).arr("w", flat(a)).arr("x", flat(x)).arr("y", flat(b)).kb("mark", got == mark).kb("failed", i2.failed()).kb("eof", i2.eof()).kv("n", b2.size()); o.endq();
        }
        // every truncation point
        if (size <= (size_t)maxcuts || k % 8 == 0) {
            size_t step = size <= (size_t)maxcuts ? 1 : size / maxcuts + 1;
            L cut_failed, cut_keep, cut_still, caps, cap_ok, cap_clean, cap_same, cuts, det;
            for (size_t c = 0; c <= size; c += step) {
                if (c + step > size) c = size;
                cuts.push_back((int)c);
                uint8_t *p = (uint8_t *)malloc(c ? c : 1);
                memcpy(p, exact.data(), c);
                memory_input_archive tin(p, c);
                T x{}; if (r.below(2)) mk(g, x);
                det.push_back(determined<T>(p, c, x));
                tin(x);
                cut_failed.push_back(tin.failed());
                // nothing can be read any more, whatever is left in the buffer
                uint8_t s8 = 0x5A; uint32_t s32 = 0xDEADBEEF; vector3 s3{1, 2, 3};
                tin(s8); tin(s32); tin(s3);
                cut_keep.push_back(s8 == 0x5A && s32 == 0xDEADBEEF && s3 == vector3{1, 2, 3});
                cut_still.push_back(tin.failed());
                free(p);
                // fixed-size output of that capacity
                uint8_t *q = (uint8_t *)malloc(c + 16);
                memset(q, 0xA5, c + 16);
                fixed_memory_output_archive fo(q, c);
                fo(v);
                cap_ok.push_back(fo.failed());
                uint8_t one = 1; bool f1 = fo.failed(); fo(one); (void)f1;
                bool clean = true; for (int i = 0; i < 16; ++i) clean = clean && q[c + i] == 0xA5;
                cap_clean.push_back(clean);
                bool same = true;
                if (c == size) { memory_input_archive ci(q, c); T y{}; ci(y); same = flat(y) == before && !ci.failed() && ci.eof(); }
                cap_same.push_back(same);
                free(q);
            }
            o.begin("cuts").ks("t", name).kv("n", size).arr("at", cuts).arr("failed", cut_failed).arr("keep", cut_keep).arr("still", cut_still).arr("fixed", cap_ok).arr("clean", cap_clean).arr("same", cap_same).arr("det", det); o.endq();
        }
    }
}
template<typename T> void long_one(out &o, const char *name, size_t n, T fill) {
    std::vector<T> v(n, fill), w(3, T{});
    for (size_t i = 0; i < n; i += 97) v[i] = T(i % 2);
    std::vector<uint8_t> buf; { memory_output_archive ar(buf); ar(v); }
    memory_input_archive in(buf.data(), buf.size()); in(w);
    o.begin("long").ks("t", name).kv("want", n).kv("got", w.size()).kb("same", v == w).kb("failed", in.failed()).kb("eof", in.eof()); o.endq();
}
// ---------------------------------------------------------------- scripts of primitive operations generated by TLC
static void script(out &o, const std::vector<int> &s) {
    // [nw, w1.., cut, r1..] sizes 1, 2, 4, 8
    o.reset();
    size_t i = 0; int nw = s[i++]; int ctr = 0;
    std::vector<uint8_t> buf;
    auto val = [&](int sz) { uint64_t v = 0; for (int k = 0; k < sz; ++k) v |= uint64_t(++ctr & 0xff) << (8 * k); return v; };
    { memory_output_archive ar(buf);
      for (int k = 0; k < nw; ++k) { int sz = s[i++]; uint64_t v = val(sz);
        std::vector<int> b; for (int q = 0; q < sz; ++q) b.push_back(v >> (8 * q) & 0xff);
        if (sz == 1) { uint8_t x = v; ar(x); } else if (sz == 2) { uint16_t x = v; ar(x); } else if (sz == 4) { uint32_t x = v; ar(x); } else { uint64_t x = v; ar(x); }
        o.begin("write").arr("b", b).kv("len", buf.size()); o.endq(); } }
    size_t cut = s[i++]; if (cut > buf.size()) cut = buf.size();
    uint8_t *p = (uint8_t *)malloc(cut ? cut : 1); memcpy(p, buf.data(), cut);
    memory_input_archive in(p, cut);
    o.begin("open").kv("cut", cut).kb("failed", in.failed()).kb("eof", in.eof()); o.endq();
    for (; i < s.size(); ++i) {
        int sz = s[i]; uint64_t v = 0x7777777777777777ull;
        if (sz == 1) { uint8_t x = v; in(x); v = x; } else if (sz == 2) { uint16_t x = v; in(x); v = x; } else if (sz == 4) { uint32_t x = v; in(x); v = x; } else { uint64_t x = v; in(x); v = x; }
        std::vector<int> b; for (int q = 0; q < sz; ++q) b.push_back(v >> (8 * q) & 0xff);
        o.begin("read").arr("b", b).kb("failed", in.failed()).kb("eof", in.eof()); o.endq();
    }
    free(p);
}
int main(int argc, char **argv) {
    std::string mode = argv[1];
    if (mode == "prim") { out o(argv[3]); for (auto &b : vdrv::read_behaviours(argv[2])) script(o, b); return 0; }
    rng r(atoi(argv[2])); int n = atoi(argv[3]);
    out o(argv[4]);
    tmpfile_ = std::string(argv[4]) + ".bin";
#define T1(...) trip<__VA_ARGS__>(o, r, #__VA_ARGS__, n)
    T1(bool); T1(char); T1(int8_t); T1(uint8_t); T1(int16_t); T1(uint16_t); T1(int32_t); T1(uint32_t); T1(int64_t); T1(uint64_t); T1(float); T1(double);
    T1(small_e); T1(big_e); T1(ptr_holder); T1(vector3); T1(quaternion); T1(matrix3x3); T1(std::string); T1(nothing);
    T1(std::vector<uint8_t>); T1(std::vector<float>); T1(std::vector<vector3>); T1(std::vector<bool>); T1(std::vector<std::string>); T1(std::vector<std::vector<int16_t>>);
    T1(std::array<uint16_t, 5>); T1(std::array<std::string, 2>); T1(std::vector<std::array<uint32_t, 3>>); T1(std::array<std::vector<bool>, 2>);
    T1(std::pair<uint8_t, uint32_t>); T1(std::pair<std::string, std::optional<int>>); T1(std::vector<std::pair<bool, double>>);
    T1(std::optional<int>); T1(std::optional<std::string>); T1(std::optional<std::vector<bool>>); T1(std::vector<std::optional<uint16_t>>);
    T1(std::variant<int, std::string, vector3>); T1(std::variant<bool, std::vector<uint8_t>, std::optional<float>, quaternion>); T1(std::vector<std::variant<uint8_t, std::string>>);
    T1(std::variant<uint8_t, float>); T1(std::map<uint16_t, uint8_t>); T1(std::map<int, std::string>); T1(std::map<std::string, std::vector<bool>>); T1(std::map<uint8_t, std::variant<int, std::string>>);
    T1(unordered_pair<uint32_t>); T1(std::vector<unordered_pair<uint16_t>>); T1(flat_nested_array<uint16_t>); T1(flat_nested_array<std::string>);
    T1(custom); T1(std::vector<custom>); T1(std::map<uint8_t, custom>); T1(static_tree::tree_node); T1(static_tree);
    trip<triangle_mesh>(o, r, "triangle_mesh", n / 4 + 1, 5, 40);
    for (size_t k : {1000, 32767, 32768, 65534, 65535}) { long_one<uint8_t>(o, "u8", k, 7); long_one<bool>(o, "bool", k, true); long_one<uint32_t>(o, "u32", k, 9); }
    unlink(tmpfile_.c_str());
}

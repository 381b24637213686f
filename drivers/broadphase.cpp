// C37: creates, moves, reshapes, re-kinds, filters and destroys bodies around broad-phase updates; logs the contact
// manifolds after every step that may change them, and box queries.
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/collision/broadphase.hpp"
#include "edyn/collision/collision_result.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/contact_manifold_map.hpp"
#include "edyn/collision/contact_point.hpp"
#include "edyn/comp/aabb.hpp"
#include "edyn/comp/collision_filter.hpp"
#include "edyn/comp/collision_exclusion.hpp"
#include "edyn/comp/graph_edge.hpp"
#include "edyn/comp/island.hpp"
#include "edyn/comp/position.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/config/constants.hpp"
#include "edyn/context/settings.hpp"
#include "edyn/core/entity_graph.hpp"
#include "edyn/dynamics/material_mixing.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/simulation/island_manager.hpp"
#include "edyn/util/collision_util.hpp"
#include "edyn/util/constraint_util.hpp"
#include "edyn/util/contact_manifold_util.hpp"
#include "edyn/util/exclude_collision.hpp"
#include "edyn/util/rigidbody.hpp"
#include <map>
#include <memory>
#include <set>
using namespace vdrv;
using edyn::rigidbody_kind;
static const char *KN[] = {"d", "k", "s"};
namespace edyn::internal { void rigidbody_apply_kind(entt::registry &, entt::entity, rigidbody_kind, island_manager &); }
using box6 = std::vector<int>;
static edyn::scalar m(int v) { return edyn::scalar(v) / 1000; }
struct run {
    out &o; rng &r; entt::registry reg;
    std::unique_ptr<edyn::island_manager> im;
    struct body { entt::entity e; int k; box6 box; bool sl, dis, moved; };
    std::map<int, body> B;
    std::set<std::pair<int, int>> X;
    int nb = 1;
    run(out &o_, rng &r_) : o(o_), r(r_) {
        reg.ctx().emplace<edyn::settings>();
        reg.ctx().get<edyn::settings>().execution_mode = edyn::execution_mode::sequential;
        reg.ctx().emplace<edyn::entity_graph>();
        reg.ctx().emplace<edyn::material_mix_table>();
        reg.ctx().emplace<edyn::contact_manifold_map>(reg);
        reg.ctx().emplace<edyn::broadphase>(reg);
        im = std::make_unique<edyn::island_manager>(reg);
        im->set_last_time(0);
        o.reset();
    }
    ~run() { im.reset(); reg.ctx().erase<edyn::broadphase>(); reg.ctx().erase<edyn::contact_manifold_map>(); }
    edyn::broadphase &bp() { return reg.ctx().get<edyn::broadphase>(); }
    edyn::box_shape shape_of(const box6 &b) { return {edyn::vector3{m(b[3] - b[0]), m(b[4] - b[1]), m(b[5] - b[2])} * edyn::scalar(0.5)}; }
    edyn::AABB aabb(const box6 &b) { return {{m(b[0]), m(b[1]), m(b[2])}, {m(b[3]), m(b[4]), m(b[5])}}; }
    edyn::vector3 centre(const box6 &b) { return (aabb(b).min + aabb(b).max) * edyn::scalar(0.5); }
    int mk(int kind, box6 box, uint64_t g, uint64_t mk_, bool mat) {
        edyn::rigidbody_def d;
        d.kind = kind == 0 ? rigidbody_kind::rb_dynamic : kind == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static;
        d.mass = 1; d.inertia = edyn::matrix3x3_identity; d.gravity = edyn::vector3_zero; d.presentation = false;
        d.collision_group = g; d.collision_mask = mk_;
        if (mat) { d.material.emplace(); if (r.chance(1, 2)) d.material->roll_friction = edyn::scalar(0.1); } else d.material.reset();
        if (!box.empty()) { d.shape = shape_of(box); d.position = centre(box); }
        int id = nb++;
        auto e = edyn::make_rigidbody(reg, d);
        if (!box.empty()) reg.get<edyn::AABB>(e) = aabb(box);
        B[id] = {e, kind, box, false, false, true};
        o.begin("new").kv("a", id).ks("k", KN[kind]).arr("box", box).arr("g", bits(g)).arr("m", bits(mk_)).endq();
        return id;
    }
    std::vector<int> bits(uint64_t v) { std::vector<int> s; for (int b : {0, 1, 2, 63}) if (v >> b & 1) s.push_back(b); return s; }
    int bid(entt::entity e) { for (auto &b : B) if (b.second.e == e) return b.first; return -1; }
    void seen() {
        std::string s = "[", q = "[";
        for (auto e : reg.view<edyn::contact_manifold>()) {
            auto &cm = reg.get<edyn::contact_manifold>(e);
            auto *st = reg.try_get<edyn::contact_manifold_state>(e);
            int len = 0; bool ok = st && reg.all_of<edyn::graph_edge>(e);
            for (auto c = st ? st->contact_entity : entt::entity(entt::null); c != entt::null && len < 50; ++len) {
                if (!reg.valid(c) || !reg.all_of<edyn::contact_point_list, edyn::contact_point>(c) || reg.get<edyn::contact_point_list>(c).parent != e) { ok = false; break; }
                c = reg.get<edyn::contact_point_list>(c).next;
            }
            s += std::string(s.size() > 1 ? "," : "") + "{\"a\":" + std::to_string(bid(cm.body[0])) + ",\"b\":" + std::to_string(bid(cm.body[1])) +
                 ",\"n\":" + std::to_string(st ? st->num_points : -1) + ",\"len\":" + std::to_string(len) + ",\"ok\":" + (ok ? "true" : "false") + "}";
        }
        for (auto &a : B) for (auto &b : B) if (a.first != b.first && edyn::manifold_exists(reg, a.second.e, b.second.e)) {
            auto e = edyn::get_manifold_entity(reg, {a.second.e, b.second.e});
            bool ok = reg.valid(e) && reg.all_of<edyn::contact_manifold>(e);
            if (ok) { auto &cm = reg.get<edyn::contact_manifold>(e); ok = (cm.body[0] == a.second.e && cm.body[1] == b.second.e) || (cm.body[1] == a.second.e && cm.body[0] == b.second.e); }
            q += std::string(q.size() > 1 ? "," : "") + "[" + std::to_string(ok ? a.first : -1) + "," + std::to_string(b.first) + "]";
        }
        int pts = 0; for (auto e : reg.view<edyn::contact_point>()) { (void)e; ++pts; }
        o.key("man").raw(s + "]").key("map").raw(q + "]").kv("pts", pts).endq();
    }
    // bodies joined to a by manifolds, through dynamic bodies
    std::set<int> group(int a) {
        std::set<int> g; std::vector<int> st;
        if (B[a].k == 0) { g.insert(a); st.push_back(a); }
        while (!st.empty()) {
            int x = st.back(); st.pop_back();
            for (auto e : reg.view<edyn::contact_manifold>()) {
                auto &cm = reg.get<edyn::contact_manifold>(e);
                int p = bid(cm.body[0]), q = bid(cm.body[1]), y = p == x ? q : q == x ? p : 0;
                if (y > 0 && B[y].k == 0 && g.insert(y).second) st.push_back(y);
            }
        }
        return g;
    }
    void tag(entt::entity e, bool on) { if (on) { if (!reg.all_of<edyn::sleeping_tag>(e)) reg.emplace<edyn::sleeping_tag>(e); } else reg.remove<edyn::sleeping_tag>(e); }
    void sleep(int a, bool on) {
        auto g = group(a);
        bool any = false; for (int x : g) any |= B[x].sl != on;
        for (int x : g) if (on && B[x].moved) return;    // bodies fall asleep at rest
        if (!any) return;
        for (int x : g) { if (B[x].sl != on) o.begin("flag").kv("a", x).ks("f", "sl").kb("on", on).endq(); B[x].sl = on; tag(B[x].e, on); }
        for (auto e : reg.view<edyn::contact_manifold>()) { auto &cm = reg.get<edyn::contact_manifold>(e); if (g.count(bid(cm.body[0])) || g.count(bid(cm.body[1]))) tag(e, on); }
    }
    void disable(int a, bool on) {
        if (B[a].dis == on || B[a].moved) return;
        B[a].dis = on;
        if (on) reg.emplace<edyn::disabled_tag>(B[a].e); else reg.remove<edyn::disabled_tag>(B[a].e);
        o.begin("flag").kv("a", a).ks("f", "dis").kb("on", on).endq();
    }
    void del(int a, bool clear) {
        sleep(a, false);
        // exclusions are dropped by hand: clear_rigidbody keeps them
        if (clear) { if (reg.all_of<edyn::collision_exclusion>(B[a].e)) edyn::clear_collision_exclusion(reg, B[a].e); reg.remove<edyn::disabled_tag>(B[a].e); edyn::clear_rigidbody(reg, B[a].e); } else reg.destroy(B[a].e);
        B.erase(a);
        for (auto it = X.begin(); it != X.end();) if (it->first == a || it->second == a) it = X.erase(it); else ++it;
        o.begin("del").kv("a", a); seen();
    }
    void move(int a, const box6 &box) {
        if (B[a].box.empty() || B[a].k == 2 || B[a].dis) return;
        sleep(a, false);
        B[a].moved = true; B[a].box = box; reg.get<edyn::AABB>(B[a].e) = aabb(box); reg.get<edyn::position>(B[a].e) = centre(box); reg.get<edyn::box_shape>(B[a].e) = shape_of(box);
        o.begin("move").kv("a", a).arr("box", box).endq();
    }
    void shape(int a, const box6 &box) {
        if (box.empty() == B[a].box.empty()) return;
        sleep(a, false);
        if (box.empty()) edyn::rigidbody_set_shape(reg, B[a].e, {});
        else { reg.get<edyn::position>(B[a].e) = centre(box); edyn::rigidbody_set_shape(reg, B[a].e, shape_of(box)); reg.get<edyn::AABB>(B[a].e) = aabb(box); }
        B[a].box = box; B[a].moved = true;
        o.begin("shape").kv("a", a).arr("box", box).endq();
    }
    void layer(int a, uint64_t g, uint64_t k) {
        auto &f = reg.get_or_emplace<edyn::collision_filter>(B[a].e);
        f.group = g; f.mask = k;
        o.begin("layer").kv("a", a).arr("g", bits(g)).arr("m", bits(k)).endq();
    }
    void exclude(int a, int b, bool on) {
        if (a == b) return;
        auto p = std::minmax(a, b);
        if (on) { if (X.size() > 12) return; edyn::exclude_collision(reg, B[a].e, B[b].e); X.insert(p); }
        else { if (!X.count(p)) return; edyn::remove_collision_exclusion(reg, B[a].e, B[b].e); X.erase(p); }
        o.begin(on ? "exc" : "allow").kv("a", a).kv("b", b).endq();
    }
    void kind(int a, int k) {
        if (k == B[a].k) return;
        sleep(a, false);
        if (!k) { edyn::set_rigidbody_mass(reg, B[a].e, 2); edyn::set_rigidbody_inertia(reg, B[a].e, edyn::matrix3x3_identity); }
        edyn::internal::rigidbody_apply_kind(reg, B[a].e, k == 0 ? rigidbody_kind::rb_dynamic : k == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static, *im);
        B[a].k = k;
        o.begin("kind").kv("a", a).ks("k", KN[k]); seen();
    }
    void point(int a, int b, bool add) {
        if (!edyn::manifold_exists(reg, B[a].e, B[b].e)) return;
        auto e = edyn::get_manifold_entity(reg, {B[a].e, B[b].e});
        auto [cm, st] = reg.get<edyn::contact_manifold, edyn::contact_manifold_state>(e);
        if (add) {
            if (st.num_points >= edyn::max_contacts) return;
            edyn::collision_result::collision_point rp{};
            rp.normal = {0, 1, 0}; rp.distance = 0; rp.normal_attachment = edyn::contact_normal_attachment::none;
            edyn::create_contact_point(reg, e, cm, st, rp, {});
        } else {
            if (!st.num_points) return;
            auto c = st.contact_entity;
            for (int i = r.below(st.num_points); i > 0; --i) c = reg.get<edyn::contact_point_list>(c).next;
            edyn::destroy_contact_point(reg, c);
        }
        o.begin("pt").kv("a", a).kv("b", b).kv("n", add ? 1 : -1); seen();
    }
    void query() {
        box6 q(6);
        for (int i = 0; i < 3; ++i) { q[i] = 3 * r.range(-500, 500) + 1; q[i + 3] = q[i] + 3 * r.range(0, 500); }
        std::vector<int> p, n;
        bp().query_procedural(aabb(q), [&](entt::entity e) { p.push_back(bid(e)); });
        bp().query_non_procedural(aabb(q), [&](entt::entity e) { n.push_back(bid(e)); });
        o.begin("query").arr("q", q).arr("p", p).arr("n", n).endq();
    }
    void update(bool mt) {
        bp().update(mt);
        for (auto &b : B) if (!b.second.sl && !b.second.dis) b.second.moved = false;
        o.begin("upd"); seen();
        for (;;) {                                       // a new contact wakes what it touches
            int w = 0;
            for (auto e : reg.view<edyn::contact_manifold>()) {
                auto &cm = reg.get<edyn::contact_manifold>(e); int a = bid(cm.body[0]), b = bid(cm.body[1]);
                if (B[a].k == 0 && B[b].k == 0 && B[a].sl != B[b].sl) w = a;
                else if (!reg.all_of<edyn::sleeping_tag>(e) && (B[a].sl || B[b].sl)) w = B[a].sl ? a : b;
            }
            if (!w) break;
            for (int x : group(w)) { if (B[x].sl) o.begin("flag").kv("a", x).ks("f", "sl").kb("on", false).endq(); B[x].sl = false; tag(B[x].e, false); }
            auto g = group(w);
            for (auto e : reg.view<edyn::contact_manifold>()) { auto &cm = reg.get<edyn::contact_manifold>(e); if (g.count(bid(cm.body[0])) || g.count(bid(cm.body[1]))) tag(e, false); }
        }
    }
};
static box6 place(int i) { static const int lo[] = {0, 1018, 1024, 1060}; return {lo[i], 0, 0, lo[i] + 1000, 1000, 1000}; }
int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    out o(argv[4]);
    auto &pool = edyn::job_dispatcher::global();
    pool.start(2);
    int flip = 0;
    const uint64_t ALL = ~0ull;
    for (auto &b : beh) {
        run x(o, r);
        x.mk(0, place(0), ALL, ALL, ++flip % 2); x.mk(0, place(1), ALL, ALL, true); x.mk(1, place(3), ALL, ALL, flip % 3);
        if (flip % 2) { x.update(false); }
        for (size_t i = 0; i + 2 < b.size(); i += 3) {
            int a = b[i + 1], c = b[i + 2];
            switch (b[i]) {
            case 1: x.update(++flip % 2); break;
            case 2: x.move(a, place(c - 1)); break;
            case 3: x.del(a, ++flip % 2); break;
            case 4: x.kind(a, c); break;
            case 5: x.shape(a, c ? place(c - 1) : box6{}); break;
            case 6: x.exclude(a, c, true); break;
            case 7: x.point(a, c, true); break;
            }
        }
        x.update(false); x.query(); x.update(false);
        fflush(o.f);
    }
    auto rbox = [&](int span) { box6 q(6); for (int i = 0; i < 3; ++i) { q[i] = 3 * r.range(0, span); if (r.chance(1, 2)) q[i] = q[i] / 1020 * 1020 + 3 * r.range(0, 10); q[i + 3] = q[i] + (r.chance(1, 2) ? 999 : 3 * r.range(0, 600)); } return q; };
    auto rmask = [&]() { uint64_t v = 0; if (r.chance(2, 3)) return ALL; for (int b : {0, 1, 2, 63}) if (r.chance(1, 2)) v |= 1ull << b; return v; };
    for (int it = 0; it < n; ++it) {
        run x(o, r);
        int top = r.range(2, it % 3 ? 7 : 16), span = r.range(100, 1200);
        for (int s = 0; s < 70; ++s) {
            std::vector<int> ids; for (auto &e : x.B) ids.push_back(e.first);
            if ((int)ids.size() < 2 || ((int)ids.size() < top && r.chance(1, 3))) { x.mk(r.chance(2, 3) ? 0 : r.range(1, 2), r.chance(1, 12) ? box6{} : rbox(span), rmask(), rmask(), r.chance(2, 3)); continue; }
            int a = ids[r.below((int)ids.size())], b = ids[r.below((int)ids.size())], p = r.below(100);
            if (p < 24) x.update(r.chance(1, 2));
            else if (p < 50) {
                auto q = x.B[a].box;
                if (q.empty()) continue;
                if (r.chance(1, 3)) q = rbox(span); else { int ax = r.below(3), d = 3 * r.range(-9, 9); q[ax] += d; q[ax + 3] += d; }
                x.move(a, q);
            }
            else if (p < 55) x.del(a, r.chance(1, 2));
            else if (p < 62) x.kind(a, r.range(0, 2));
            else if (p < 68) x.shape(a, x.B[a].box.empty() ? rbox(span) : box6{});
            else if (p < 72) x.exclude(a, b, r.chance(2, 3));
            else if (p < 75) x.layer(a, rmask(), rmask());
            else if (p < 78) x.disable(a, r.chance(1, 3));
            else if (p < 82) x.sleep(a, r.chance(2, 3));
            else if (p < 92) { if (a != b) x.point(a, b, r.chance(2, 3)); }
            else x.query();
        }
        fflush(o.f);
    }
    pool.stop();
}

// C32, C33: drives the island manager through edits of bodies and constraints, velocities and times; logs the islands
// and the sleeping state after every update.
#include "vdrv.hpp"
#include <entt/entity/registry.hpp>
#include "edyn/collision/broadphase.hpp"
#include "edyn/collision/contact_manifold.hpp"
#include "edyn/collision/contact_manifold_map.hpp"
#include "edyn/comp/angvel.hpp"
#include "edyn/comp/graph_edge.hpp"
#include "edyn/comp/island.hpp"
#include "edyn/comp/linvel.hpp"
#include "edyn/comp/tag.hpp"
#include "edyn/config/constants.hpp"
#include "edyn/constraints/null_constraint.hpp"
#include "edyn/constraints/distance_constraint.hpp"
#include "edyn/context/settings.hpp"
#include "edyn/core/entity_graph.hpp"
#include "edyn/dynamics/material_mixing.hpp"
#include "edyn/math/matrix3x3.hpp"
#include "edyn/simulation/island_manager.hpp"
#include "edyn/util/constraint_util.hpp"
#include "edyn/util/island_util.hpp"
#include "edyn/util/rigidbody.hpp"
#include <map>
#include <memory>
#include <set>
using namespace vdrv;
using edyn::rigidbody_kind;
static const char *KN[] = {"d", "k", "s"};
namespace edyn::internal {
    void rigidbody_apply_kind(entt::registry &, entt::entity, rigidbody_kind, island_manager &);
}
struct run {
    out &o; rng &r; entt::registry reg;
    std::unique_ptr<edyn::island_manager> im;
    struct body { entt::entity e; int k; };
    struct edge { entt::entity e; int a, b; bool contact; };
    std::map<int, body> B; std::map<int, edge> Ed;
    std::map<entt::entity, int> isl;      // island entity -> number
    int nb = 1, ne = 1, ni = 1; bool dirty = true; long long t = 0;
    run(out &o_, rng &r_) : o(o_), r(r_) {
        reg.ctx().emplace<edyn::settings>();
        reg.ctx().get<edyn::settings>().execution_mode = edyn::execution_mode::sequential;
        reg.ctx().emplace<edyn::entity_graph>();
        reg.ctx().emplace<edyn::material_mix_table>();
        reg.ctx().emplace<edyn::contact_manifold_map>(reg);
        reg.ctx().emplace<edyn::broadphase>(reg);
        im = std::make_unique<edyn::island_manager>(reg);
        im->set_last_time(0);
        o.reset();
    }
    ~run() { im.reset(); reg.ctx().erase<edyn::broadphase>(); reg.ctx().erase<edyn::contact_manifold_map>(); }
    int mk(int kind, bool nosleep = false) {
        edyn::rigidbody_def d;
        d.kind = rigidbody_kind::rb_dynamic;
        d.mass = 1; d.inertia = edyn::matrix3x3_identity; d.gravity = edyn::vector3_zero;
        d.sleeping_disabled = nosleep; d.presentation = false;
        d.kind = kind == 0 ? rigidbody_kind::rb_dynamic : kind == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static;
        int id = nb++;
        B[id] = {edyn::make_rigidbody(reg, d), kind};
        dirty = true; o.begin("new").kv("a", id).ks("k", KN[kind]).kb("ns", nosleep).endq();
        return id;
    }
    void forget_edges(int a) { for (auto it = Ed.begin(); it != Ed.end();) if (it->second.a == a || it->second.b == a) it = Ed.erase(it); else ++it; }
    void del(int a, bool clear) {
        if (clear) edyn::clear_rigidbody(reg, B[a].e); else reg.destroy(B[a].e);
        B.erase(a); forget_edges(a);
        dirty = true; o.begin("del").kv("a", a).endq();
    }
    int link(int a, int b, bool contact, int how) {
        if (a == b || !B.count(a) || !B.count(b) || (B[a].k && B[b].k)) return 0;
        if (contact) for (auto &e : Ed) if (e.second.contact && ((e.second.a == a && e.second.b == b) || (e.second.a == b && e.second.b == a))) contact = false;
        entt::entity e;
        if (contact) e = edyn::make_contact_manifold(reg, B[a].e, B[b].e);
        else if (how) e = edyn::make_constraint<edyn::distance_constraint>(reg, B[a].e, B[b].e);
        else e = edyn::make_constraint<edyn::null_constraint>(reg, B[a].e, B[b].e);
        int id = ne++;
        Ed[id] = {e, a, b, contact};
        dirty = true; o.begin("link").kv("c", id).kv("a", a).kv("b", b).kb("ct", contact).endq();
        return id;
    }
    void unlink(int c, bool clear) {
        auto &e = Ed[c];
        if (clear && !e.contact) edyn::clear_constraint(reg, e.e); else reg.destroy(e.e);
        Ed.erase(c);
        dirty = true; o.begin("unl").kv("c", c).endq();
    }
    bool can_fix(int a) {
        for (auto &e : Ed) if (!e.second.contact && (e.second.a == a || e.second.b == a)) {
            int x = e.second.a == a ? e.second.b : e.second.a;
            if (B[x].k) return false;
        }
        return true;
    }
    void kind(int a, int k) {
        if (k == B[a].k) return;
        if (k && !can_fix(a)) return;
        if (!k) { edyn::set_rigidbody_mass(reg, B[a].e, 2); edyn::set_rigidbody_inertia(reg, B[a].e, edyn::matrix3x3_identity); }
        edyn::internal::rigidbody_apply_kind(reg, B[a].e, k == 0 ? rigidbody_kind::rb_dynamic : k == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static, *im);
        B[a].k = k;
        if (k) for (auto it = Ed.begin(); it != Ed.end();) {
            int x = it->second.a == a ? it->second.b : it->second.b == a ? it->second.a : 0;
            if (x && it->second.contact && B[x].k) it = Ed.erase(it); else ++it;
        }
        dirty = true; o.begin("kind").kv("a", a).ks("k", KN[k]).endq();
    }
    void vel(int a, bool moving, int axis) {
        auto e = B[a].e;
        if (!reg.all_of<edyn::linvel, edyn::angvel>(e) || B[a].k == 2) return;
        reg.get<edyn::linvel>(e) = edyn::vector3_zero; reg.get<edyn::angvel>(e) = edyn::vector3_zero;
        auto x = axis < 3 ? edyn::island_linear_sleep_threshold : edyn::island_angular_sleep_threshold;
        auto &v = axis < 3 ? static_cast<edyn::vector3 &>(reg.get<edyn::linvel>(e)) : static_cast<edyn::vector3 &>(reg.get<edyn::angvel>(e));
        auto s = x * (moving ? edyn::scalar(1.0625) : edyn::scalar(0.9375)) * (axis % 2 ? 1 : -1);
        if (axis % 3 == 0) v.x = s; else if (axis % 3 == 1) v.y = s; else v.z = s;
        o.begin("vel").kv("a", a).kb("mv", moving).endq();
    }
    void nosleep(int a, bool on) {
        if (on) reg.emplace_or_replace<edyn::sleeping_disabled_tag>(B[a].e); else reg.remove<edyn::sleeping_disabled_tag>(B[a].e);
        o.begin("ns").kv("a", a).kb("on", on).endq();
    }
    void wake(int a) {
        edyn::wake_up_island_resident(reg, B[a].e);
        o.begin("wake").kv("a", a).endq();
    }
    void put(int a) {                                     // explicit request to sleep
        auto *res = reg.try_get<edyn::island_resident>(B[a].e);
        if (dirty || !res || res->island_entity == entt::null || reg.all_of<edyn::sleeping_tag>(res->island_entity)) return;
        im->put_to_sleep(res->island_entity);
        o.begin("put").kv("a", a).endq();
    }
    int num(entt::entity e) { auto it = isl.find(e); if (it == isl.end()) it = isl.emplace(e, ni++).first; return it->second; }
    int bid(entt::entity e) { for (auto &b : B) if (b.second.e == e) return b.first; return -1; }
    int eid(entt::entity e) { for (auto &b : Ed) if (b.second.e == e) return b.first; return -1; }
    template<typename S> std::string ids(const S &s, bool body) {
        std::string x = "["; for (auto e : s) x += (x.size() > 1 ? "," : "") + std::to_string(body ? bid(e) : eid(e)); return x + "]";
    }
    void update(int dt) {
        t += dt; dirty = false;
        im->update(t / 1000.0);
        std::string s = "[";
        for (auto e : reg.view<edyn::island>()) {
            auto &i = reg.get<edyn::island>(e);
            s += std::string(s.size() > 1 ? "," : "") + "{\"i\":" + std::to_string(num(e)) + ",\"n\":" + ids(i.nodes, true) + ",\"e\":" + ids(i.edges, false) +
                 ",\"sl\":" + (reg.all_of<edyn::sleeping_tag>(e) ? "true" : "false") + "}";
        }
        std::string b = "[";
        for (auto &x : B) {
            auto e = x.second.e; std::string res = "[";
            if (auto *ir = reg.try_get<edyn::island_resident>(e)) { if (ir->island_entity != entt::null) res += reg.valid(ir->island_entity) ? std::to_string(num(ir->island_entity)) : "-1"; }
            if (auto *mr = reg.try_get<edyn::multi_island_resident>(e)) for (auto ie : mr->island_entities) res += (res.size() > 1 ? "," : "") + (reg.valid(ie) ? std::to_string(num(ie)) : "-1");
            bool z = !reg.all_of<edyn::linvel>(e) || (reg.get<edyn::linvel>(e) == edyn::vector3_zero && reg.get<edyn::angvel>(e) == edyn::vector3_zero);
            b += std::string(b.size() > 1 ? "," : "") + "{\"b\":" + std::to_string(x.first) + ",\"r\":" + res + "],\"sl\":" + (reg.all_of<edyn::sleeping_tag>(e) ? "true" : "false") +
                 ",\"z\":" + (z ? "true" : "false") + "}";
        }
        std::string c = "[";
        for (auto &x : Ed) {
            auto e = x.second.e;
            auto *ir = reg.valid(e) ? reg.try_get<edyn::island_resident>(e) : nullptr;
            long long i = !ir || ir->island_entity == entt::null || !reg.valid(ir->island_entity) ? -1 : num(ir->island_entity);
            c += std::string(c.size() > 1 ? "," : "") + "{\"c\":" + std::to_string(x.first) + ",\"r\":" + std::to_string(i) + ",\"sl\":" + (reg.valid(e) && reg.all_of<edyn::sleeping_tag>(e) ? "true" : "false") + "}";
        }
        o.begin("upd").kv("t", t).key("isl").raw(s + "]").key("bod").raw(b + "]").key("edg").raw(c + "]").endq();
        // sleeping stops the bodies: the log says so for the later calm test
    }
};
int main(int argc, char **argv) {
    if (argc < 6) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int n = atoi(argv[3]);
    bool sleepy = atoi(argv[4]);
    out o(argv[5]);
    int flip = 0;
    for (auto &b : beh) {
        run x(o, r);
        x.mk(0); x.mk(0); x.mk(1);
        if (++flip % 3) x.update(100);
        for (size_t i = 0; i + 2 < b.size(); i += 3)
            switch (b[i]) {
            case 1: x.link(b[i + 1], b[i + 2], ++flip % 2, flip % 4 > 1); break;
            case 2: x.unlink(b[i + 1], ++flip % 2); break;
            case 3: x.del(b[i + 1], ++flip % 2); break;
            case 4: x.kind(b[i + 1], b[i + 2]); break;
            case 5: x.update(100); break;
            }
        x.update(100); x.update(100);
        fflush(o.f);
    }
    for (int it = 0; it < n; ++it) {
        run x(o, r);
        int top = r.range(2, 9), span = sleepy ? r.range(100, 700) : 50;
        bool busy = r.chance(1, 2);
        for (int s = 0; s < (sleepy ? 120 : 70); ++s) {
            std::vector<int> ids; for (auto &e : x.B) ids.push_back(e.first);
            std::vector<int> cs; for (auto &e : x.Ed) cs.push_back(e.first);
            if ((int)ids.size() < 2 || ((int)ids.size() < top && r.chance(1, 12))) { x.mk(r.chance(2, 3) ? 0 : r.range(1, 2), sleepy && r.chance(1, 12)); continue; }
            int a = ids[r.below((int)ids.size())], b = ids[r.below((int)ids.size())], p = r.below(100);
            if (sleepy && !r.chance(busy ? 1 : 1, busy ? 3 : 8)) { x.update(r.chance(1, 3) ? r.range(50, 700) : span); continue; }
            if (sleepy && p < 45) {
                if (p < 22) x.vel(a, r.chance(1, 2), r.below(6)); else if (p < 28) x.nosleep(a, r.chance(1, 4)); else if (p < 38) x.wake(a); else x.put(a);
                continue;
            }
            p = r.below(100);
            if (p < 40) x.link(a, b, r.chance(1, 2), r.below(2));
            else if (p < 58) { if (!cs.empty()) x.unlink(cs[r.below((int)cs.size())], r.chance(1, 2)); }
            else if (p < 63) x.del(a, r.chance(1, 2));
            else if (p < 72) x.kind(a, r.range(0, 2));
            else x.update(span);
        }
        fflush(o.f);
    }
}

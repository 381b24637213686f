// C24: drives edyn::constraint_row_prep_cache and logs what is handed back per constraint.
#include <array>
#include <cstdint>
#include "edyn/dynamics/row_cache.hpp"
#include "vdrv.hpp"
using namespace vdrv;
using namespace edyn;

struct run {
    out &o;
    constraint_row_prep_cache c;
    row_cache packed;                      // filled from what is handed back, as the solver does
    int tag = 1;
    int ncon = 0, nrow = 0, rows_in_last = 0, consumed = 0, flags = 0;
    run(out &o_) : o(o_) { o.reset(); }
    // commands: 1 constraint 2 row 3 friction 4 rolling 5 spinning 6 options 7 consume 8 clear
    void step(int k) {
        switch (k) {
        case 1: if (ncon >= 8) return; c.add_constraint(); ++ncon; rows_in_last = 0; o.begin("con").endq(); break;
        case 2: { if (!ncon || nrow >= 16) return; auto &r = c.add_row(); r.lower_limit = tag; r.upper_limit = tag + 1;
            // options of a fresh row, read through the interface used during preparation
            auto &op = c.get_options();
            o.begin("row").kv("t", tag).kv("er", sc(op.error)).kv("erp", sc(op.erp)).kv("re", sc(op.restitution)).endq();
            ++tag; ++nrow; ++rows_in_last; flags = 0; break; }
        case 3: if (!rows_in_last || flags & 1) return; flags |= 1; c.add_friction_row().friction_coefficient = tag; o.begin("fri").kv("t", tag).endq(); ++tag; break;
        case 4: if (!rows_in_last || flags & 2) return; flags |= 2; c.add_rolling_row().friction_coefficient = tag; o.begin("rol").kv("t", tag).endq(); ++tag; break;
        case 5: if (!rows_in_last || flags & 4) return; flags |= 4; c.add_spinning_row().friction_coefficient = tag; o.begin("spi").kv("t", tag).endq(); ++tag; break;
        case 6: if (!rows_in_last) return; { auto &op = c.get_options(); op.error = tag; op.erp = 2 * tag; op.restitution = 3 * tag;
            auto &r = c.get_current_row();
            o.begin("opt").kv("t", tag).kv("cur", sc(r.lower_limit, 1)).endq(); ++tag; break; }
        case 7: { if (consumed >= ncon) return;
            auto n = c.current_num_rows();
            std::vector<std::vector<long long>> got;
            packed.con_num_rows.push_back(n);
            c.consume_rows([&](auto &e) {
                packed.rows.push_back(e.row); packed.flags.push_back(e.flags);
                if (e.flags & constraint_row_flag_friction) packed.friction.push_back(e.friction);
                if (e.flags & constraint_row_flag_rolling_friction) packed.rolling.push_back(e.rolling);
                if (e.flags & constraint_row_flag_spinning_friction) packed.spinning.push_back(e.spinning);
                got.push_back({sc(e.row.lower_limit, 1), sc(e.row.upper_limit, 1),
                    e.flags & constraint_row_flag_friction ? sc(e.friction.friction_coefficient, 1) : 0,
                    e.flags & constraint_row_flag_rolling_friction ? sc(e.rolling.friction_coefficient, 1) : 0,
                    e.flags & constraint_row_flag_spinning_friction ? sc(e.spinning.friction_coefficient, 1) : 0,
                    sc(e.options.error), sc(e.options.erp), sc(e.options.restitution)});
            });
            ++consumed; o.begin("consume").kv("n", n).arr2("got", got).endq(); break; }
        case 8: c.clear(); packed.clear(); ncon = nrow = rows_in_last = consumed = flags = 0;
            o.begin("clear").kv("left", (long long)(packed.rows.size() + packed.con_num_rows.size() + packed.flags.size() + packed.friction.size() + packed.rolling.size() + packed.spinning.size())).endq(); break;
        }
    }
};

int main(int argc, char **argv) {
    if (argc < 5) return 3;
    auto beh = read_behaviours(argv[1]);
    rng r(atoi(argv[2]));
    int nrandom = atoi(argv[3]);
    out o(argv[4]);
    for (auto &b : beh) {
        run x(o);
        for (int c : b) x.step(c);
        for (int i = 0; i < 8; ++i) x.step(7);
        // reuse after clear
        x.step(8);
        for (int c : b) x.step(c == 6 || c == 3 ? 5 : c);
        for (int i = 0; i < 8; ++i) x.step(7);
        fflush(o.f);
    }
    for (int n = 0; n < nrandom; ++n) {
        run x(o);
        for (int round = 0; round < 4; ++round) {
            int len = r.range(1, 60);
            for (int s = 0; s < len; ++s) {
                static const int w[] = {1, 1, 2, 2, 2, 2, 3, 4, 5, 6, 6};
                x.step(w[r.below(11)]);
            }
            int nc = r.chance(1, 4) ? r.below(8) : 8;
            for (int i = 0; i < nc; ++i) x.step(7);
            x.step(8);
        }
    }
}

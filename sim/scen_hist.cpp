// Generators for histories on pools of objects.
#include "hist.hpp"

struct Weight { const char *op; int c05, c06, c03, c04; };
static const Weight weights[] = {
    { "m_fill", 3, 2, 3, 3 }, { "m_data", 3, 2, 3, 4 }, { "m_list", 3, 2, 4, 4 }, { "m_copy_ctor", 3, 1, 3, 2 }, { "m_move_ctor", 3, 2, 2, 3 },
    { "m_from_view", 2, 4, 3, 3 }, { "m_conv_ctor", 2, 1, 2, 2 }, { "o_make", 3, 2, 3, 2 }, { "m_assign", 6, 3, 6, 4 }, { "m_assign_view", 3, 8, 5, 5 },
    { "m_assign_conv", 3, 2, 4, 3 }, { "m_move_assign", 4, 3, 2, 4 }, { "m_swap", 3, 2, 2, 2 }, { "m_write", 4, 6, 1, 1 }, { "m_randomise", 6, 10, 6, 5 },
    { "m_resize", 8, 8, 9, 6 }, { "m_reshape", 5, 5, 3, 4 }, { "m_stack", 5, 4, 5, 5 }, { "m_transpose", 2, 2, 2, 2 }, { "m_extract", 3, 4, 4, 5 },
    { "m_from_vector", 2, 1, 2, 2 }, { "m_create", 2, 1, 2, 2 }, { "swap_lines", 3, 4, 1, 3 }, { "m_remove", 4, 4, 5, 4 }, { "inplace", 3, 5, 4, 5 },
    { "inplace_scalar", 3, 4, 1, 2 }, { "v_ctor", 5, 1, 5, 5 }, { "v_assign", 6, 1, 6, 5 }, { "v_resize", 5, 1, 6, 5 }, { "v_write", 3, 0, 1, 1 },
    { "v_randomise", 4, 1, 4, 3 }, { "v_from", 6, 4, 6, 6 }, { "v_inplace", 3, 0, 2, 3 }, { "w_make", 2, 14, 4, 8 }, { "w_write", 1, 8, 1, 3 },
    { "w_assign", 1, 8, 2, 4 }, { "w_assign_view", 0, 4, 1, 2 }, { "w_apply", 1, 12, 4, 6 },
};
static void generate(Plan &p, Rng &r, int Weight::*w, unsigned fault_num, unsigned fault_den)
{
    p.cfg["type"] = r.chance(1, 2) ? 0 : static_cast<int64_t>(1 + r.below(2));
    if (r.chance(1, 8)) p.cfg["big"] = 1;
    if (r.chance(1, 5)) p.cfg["special"] = 1; // signed zeros, infinities, NaN, extreme integers
    int total = 0;
    for (auto &x : weights) total += x.*w;
    int n = 6 + static_cast<int>(r.below(p.get("tier") ? 50 : 26));
    // some histories concentrate on few kinds of operation
    std::vector<const Weight *> pool;
    auto pick = [&]() -> const Weight & {
        int64_t q = static_cast<int64_t>(r.below(static_cast<uint64_t>(total)));
        for (auto &x : weights)
            if ((q -= x.*w) < 0) return x;
        return weights[0];
    };
    if (r.chance(1, 3))
        for (int i = 0; i < 6; ++i) pool.push_back(&pick());
    unsigned span = r.chance(1, 2) ? 4 : 2;
    bool faults = r.chance(2, 3);
    for (int i = 0; i < n; ++i) {
        const Weight &x = i < 3 ? (r.chance(3, 4) ? weights[14] : weights[7]) : !pool.empty() && r.chance(2, 3) ? *pool[r.below(pool.size())] : pick();
        Step &s = p.add(x.op, r.next());
        s.a[0] = i < 2 ? i : static_cast<int64_t>(r.below(span));
        s.a[1] = static_cast<int64_t>(r.below(r.chance(1, 2) ? span : 8));
        s.a[2] = static_cast<int64_t>(r.below(8));
        if (faults && r.chance(fault_num, fault_den)) {
            Fault f;
            f.step = s.id;
            f.kind = "alloc";
            f.at = r.chance(2, 3) ? 1 : static_cast<int64_t>(1 + r.below(5));
            f.arg = r.chance(1, 3);
            p.faults.push_back(f);
        }
    }
}
static void gen05(Plan &p, Rng &r) { generate(p, r, &Weight::c05, 1, 5); }
static void gen06(Plan &p, Rng &r) { generate(p, r, &Weight::c06, 1, 8); }
static void gen03(Plan &p, Rng &r) { generate(p, r, &Weight::c03, 2, 3); }
static void gen04(Plan &p, Rng &r) { generate(p, r, &Weight::c04, 1, 4); }
static void exec(const Plan &p)
{
    switch (p.get("type")) {
    case 1: hist_int(p); break;
    case 2: hist_complex(p); break;
    default: hist_double(p);
    }
}
static const Scenario s5 = { "C05", gen05, exec }, s6 = { "C06", gen06, exec }, s3 = { "H03", gen03, exec }, s4 = { "H04", gen04, exec };
const Scenario *const scenarios[] = { &s5, &s6, &s3, &s4, nullptr };

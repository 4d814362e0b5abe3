// Shared by the scenarios on randomness, simulation and shared matrices.
#pragma once
#include "lib.hpp"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <memory>
void gen12(Plan &p, Rng &r), exec12(const Plan &p);
void gen13(Plan &p, Rng &r), exec13(const Plan &p);
void gen15(Plan &p, Rng &r), exec15(const Plan &p);

inline void gen_switches(Plan &p, Rng &r, int threads)
{
    size_t n = r.chance(1, 12) ? 0 : r.chance(1, 2) ? 1 + r.below(6) : 5 + r.below(60);
    uint64_t lo = 0, len = 0xffffffffull;
    if (r.chance(1, 3)) {
        len = 0xffffffffull >> (1 + r.below(8));
        lo = r.below(0xffffffffull - len);
    }
    std::vector<uint64_t> at;
    for (size_t i = 0; i < n; ++i) at.push_back(1 + lo + r.below(len));
    std::sort(at.begin(), at.end());
    p.switches.push_back({ 0, static_cast<int>(r.below(static_cast<uint64_t>(threads))) });
    for (auto a : at) p.switches.push_back({ a, static_cast<int>(r.below(static_cast<uint64_t>(threads))) });
}
inline std::vector<rt::Switch> scale(const Plan &p, uint64_t total)
{
    std::vector<rt::Switch> v;
    for (auto &s : p.switches) {
        uint64_t at = s.step ? std::max<uint64_t>(1, static_cast<uint64_t>((static_cast<unsigned __int128>(s.step) * total) >> 32)) : 0;
        if (!v.empty() && v.back().step > at) at = v.back().step;
        v.push_back({ at, s.tid });
    }
    return v;
}
inline const Fault *fault_of(const Plan &p, int step, const char *kind)
{
    for (auto &f : p.faults)
        if (f.step == step && f.kind == kind) return &f;
    return nullptr;
}

// A plan is one simulated execution written down: every operation, fault and
// context switch.  Executing a plan is a pure function of the plan and the code.
#pragma once
#include "rng.hpp"
#include "rt.hpp"
#include <map>
#include <string>
#include <vector>

struct Step {
    int id = 0;
    std::string op;
    int64_t a[6] = { 0, 0, 0, 0, 0, 0 };
    uint64_t seed = 0;
};
struct Fault {
    int step = 0; // id of the step it hits
    std::string kind;
    int64_t at = 0, arg = 0;
};
struct Plan {
    std::string scenario;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Step> steps;
    std::vector<Fault> faults;
    std::vector<rt::Switch> switches;

    int64_t get(const std::string &k, int64_t d = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
    Step &add(const std::string &op, uint64_t seed_)
    {
        Step s;
        s.id = static_cast<int>(steps.size());
        s.op = op;
        s.seed = seed_;
        steps.push_back(s);
        return steps.back();
    }
    std::string str() const;
    static Plan parse(const std::string &text);
};

// Scenario interface: one translation unit per property group implements it.
struct Scenario {
    const char *name;
    void (*generate)(Plan &plan, Rng &rng);
    void (*execute)(const Plan &plan);
};
extern const Scenario *const scenarios[]; // null terminated, provided by the scenario TU

#ifndef VERIF_SCENARIO_HH
#define VERIF_SCENARIO_HH
#include "mon.hh"
#include <gcs/presolvers/auto_table.hh>
#include <gcs/presolvers/cumulative_strengthening.hh>
#include <gcs/presolvers/difference_logic.hh>
#include <gcs/presolvers/inferred_cumulative.hh>
#include <gcs/presolvers/inferred_disjunctive.hh>

namespace eng
{
    struct Scenario
    {
        Inst in;
        RunCfg cfg;
        string text;
        int which = 0; // the presolver: auto table, difference logic, strengthening, inferred cumulative, inferred disjunctive, all but the first
        struct
        {
            ll dp = -1, raise = -1, subset = -1, covers = -1, cuts = -1, capacity = -1, calls = -1, states = -1, candidates = -1, cliques = -1; // negative: unset
            auto str() const -> string
            {
                vector<ll> all{dp, raise, subset, covers, cuts, capacity, calls, states, candidates, cliques};
                return std::all_of(all.begin(), all.end(), [](ll x) { return x < 0; }) ? "" : " limits " + vh::join(all);
            }
        } limits;
        bool sched = false;
        int makespan = 0; // variable, when sched
        struct
        {
            std::shared_ptr<gcs::AutoTableStats> at = std::make_shared<gcs::AutoTableStats>();
            std::shared_ptr<gcs::CumulativeStrengtheningStats> cs = std::make_shared<gcs::CumulativeStrengtheningStats>();
            std::shared_ptr<gcs::InferredCumulativeStats> ic = std::make_shared<gcs::InferredCumulativeStats>();
            std::shared_ptr<gcs::InferredDisjunctiveStats> id = std::make_shared<gcs::InferredDisjunctiveStats>();
            std::shared_ptr<gcs::DifferenceLogicStats> dl = std::make_shared<gcs::DifferenceLogicStats>();
        } stats;
    };
    // known to break the proof writer (see the known findings of P12)
    auto fragile(const Con &) -> bool;
    auto rcpsp(Rng &) -> Inst;
    auto difference_system(Rng &, bool provable) -> Inst;
    // a model (scheduling, or of the given family) with some presolvers, in cfg.extra
    // (provable: without the constraint forms that have no proof support)
    auto presolve_scenario(Rng &, const Family &, bool provable = false) -> Scenario;
}
#endif

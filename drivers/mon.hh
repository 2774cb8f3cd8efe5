// Runs an Inst on the real solver under a search monitor: a wrapper around the
// branching heuristic that sees every search node, knows the exact stack of
// guesses, and therefore knows when a child failed.
#ifndef VERIF_MON_HH
#define VERIF_MON_HH
#include "eng.hh"
#include <atomic>

namespace eng
{
    struct Guess
    {
        int v;                                // index of the base variable
        gcs::VariableConditionOperator op;
        ll val, upper;
        auto at(ll x) const -> bool;
        auto str() const -> string;
    };

    struct NodeMonitor
    {
        virtual ~NodeMonitor() = default;
        // true: domains and children of closed() are of what is branched over, rather than of the base variables
        virtual auto wants_views() const -> bool { return false; }
        // after propagation at a node, before its children; doms[i] = current values of base variable i
        virtual auto node(const vector<Guess> &, const vector<vector<ll>> &) -> void {}
        // a child was tried and failed during propagation
        virtual auto failed(const vector<Guess> &) -> void {}
        // a node is fully explored: its children conditions in order
        virtual auto closed(const vector<Guess> &, const vector<vector<ll>> &, const vector<Guess> & children) -> void {}
        virtual auto solution(const A &) -> void {}
    };

    struct RunCfg
    {
        std::optional<Heur> heur;                 // none: the solver's default
        std::optional<unsigned long long> luby;
        bool named = false;
        std::optional<vector<int>> order;         // posting order of the constraints
        std::function<void(gcs::Problem &, const Ids &)> extra; // e.g. presolvers
        std::optional<Op> objective;
        bool maximise = false;
        std::optional<gcs::ProofOptions> proof;
        NodeMonitor * monitor = nullptr;
        int stop_after = -1;                      // return false from the solution callback after that many
        ll max_nodes = 400000;                    // safety: abort
        std::atomic<bool> * abort = nullptr;
        std::function<gcs::BranchHeuristic(const Ids &)> branch; // overrides heur
        auto str() const -> string;
    };

    struct RunRes
    {
        vector<A> sols; // in the order found
        gcs::Stats stats;
        bool completed = false, node_limit = false;
        ll nodes = 0, traces = 0, yields = 0, max_path = 0, fails = 0;
        vector<string> notes;
    };

    auto run_inst(const Inst &, const RunCfg &) -> RunRes;
    auto random_cfg(Rng &, bool restarts) -> RunCfg;
}
#endif

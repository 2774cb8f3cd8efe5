// Random constraint models with an executable, independently written meaning
// for every constraint, plus the plumbing that posts the same model to the real
// solver. Everything a monitor needs to know the right answer is in Inst.
#ifndef VERIF_ENG_HH
#define VERIF_ENG_HH
#include "vh.hh"
#include <gcs/gcs.hh>
#include <optional>

namespace eng
{
    using vh::ll;
    using vh::Rng;
    using vh::string;
    using vh::vector;
    using A = vector<ll>; // an assignment to the base variables
    using Ids = vector<gcs::IntegerVariableID>;

    inline auto I(ll v) -> gcs::Integer { return gcs::Integer{v}; }
    inline auto IV(const vector<ll> & v) -> vector<gcs::Integer>
    {
        vector<gcs::Integer> r;
        for (auto x : v)
            r.push_back(I(x));
        return r;
    }

    // An operand: a base variable, a view of one, or a constant.
    struct Op
    {
        int v = -1;
        bool neg = false;
        ll add = 0;
        auto at(const A & a) const -> ll { return v < 0 ? add : (neg ? -a[v] : a[v]) + add; }
        auto id(const Ids & ids) const -> gcs::IntegerVariableID;
        auto str() const -> string;
        auto is_const() const -> bool { return v < 0; }
        auto is_plain() const -> bool { return v >= 0 && ! neg && add == 0; }
    };
    using Ops = vector<Op>;
    auto ids_of(const Ops &, const Ids &) -> vector<gcs::IntegerVariableID>;
    auto at_of(const Ops &, const A &) -> vector<ll>;
    auto str(const Ops &) -> string;

    // A condition on an operand, with all six operators.
    struct Cond
    {
        Op var;
        int kind = 0; // 0 ==, 1 !=, 2 <, 3 >=, 4 in range, 5 not in range, 6 <=, 7 >
        ll val = 0, hi = 0;
        auto at(const A & a) const -> bool;
        auto cond(const Ids & ids) const -> gcs::IntegerVariableCondition;
        auto str() const -> string;
    };

    enum class Level
    {
        None,
        BC, // every bound of every variable is supported by a solution within the bounds
        GAC // every value is supported by a solution within the domains
    };

    struct Con
    {
        string fam, desc;
        std::function<bool(const A &)> holds;
        std::function<std::unique_ptr<gcs::Constraint>(const Ids &)> make;
        std::function<void(gcs::Problem &, const Ids &)> post; // used when make is empty
        Level level = Level::None;
        vector<int> level_vars; // base variables the level is claimed for; empty = all mentioned
        vector<int> used;
        bool aliased = false; // some base variable occurs more than once
        // in how many ways an assignment satisfies it, where that may be more than one (empty: at most one)
        std::function<int(const A &)> witnesses;
    };

    struct Inst
    {
        vector<vector<ll>> doms; // sorted, nonempty
        vector<Con> cons;
        double size = 1;
        auto describe() const -> string;
        auto all_solutions() const -> vector<A>; // in lexicographic order
        auto each(const std::function<void(const A &)> &) const -> void;
        auto ok(const A & a) const -> bool
        {
            for (const auto & c : cons)
                if (! c.holds(a))
                    return false;
            return true;
        }
    };

    struct Style
    {
        int alias = 0, view = 0, con = 0, hole = 40; // percentages
        int big = 0;                                 // percentage of huge-offset variables
        double budget = 3000;
    };

    struct Gen
    {
        Rng & r;
        Inst & in;
        Style st;
        Op last_ops_dummy;
        vector<int> mentioned;
        bool aliased = false;

        Gen(Rng & r_, Inst & i_, Style s_) : r(r_), in(i_), st(s_) {}

        auto pc(int p) -> bool { return p > 0 && r.range(1, 100) <= p; }
        // A new base variable whose domain is within [lo, hi].
        auto fresh(ll lo, ll hi, int max_size = 6, bool full = false) -> int;
        // An operand whose value will be within [lo, hi] (aliases may stray a little unless strict).
        auto op(ll lo, ll hi, int max_size = 6, bool strict = false) -> Op;
        auto ops(int n, ll lo, ll hi, int max_size = 6, bool strict = false) -> Ops;
        auto cond() -> Cond;
        auto lo(const Op &) const -> ll;
        auto hi(const Op &) const -> ll;
        auto vals(const Op &) const -> vector<ll>;
        auto left() const -> double { return st.budget / in.size; }
        auto add(Con c) -> void;
        // helper for constraints that have a constraint object
        template <typename F_, typename H_>
        auto add(const string & fam, const string & desc, H_ holds, F_ make, Level level = Level::None) -> void
        {
            Con c;
            c.fam = fam;
            c.desc = desc;
            c.holds = holds;
            c.make = [make](const Ids & ids) -> std::unique_ptr<gcs::Constraint> { return make(ids); };
            c.level = level;
            add(std::move(c));
        }
    };

    template <typename C_>
    auto mk(C_ && c) -> std::unique_ptr<gcs::Constraint>
    {
        return c.clone();
    }

    struct Family
    {
        string name, group;
        std::function<void(Gen &)> fn;
    };
    auto families() -> vector<Family> &;
    auto families_of(const string & groups) -> vector<const Family *>; // comma separated; empty = all
    struct Register
    {
        Register(const string & group, const string & name, std::function<void(Gen &)> fn) { families().push_back({name, group, std::move(fn)}); }
    };

    auto random_style(Rng &, bool mixed) -> Style;
    // Generates an instance with the given family first, and optionally further random constraints on the same variables.
    auto random_instance(Rng &, const Family &, const Style &, int extra) -> Inst;

    struct Heur
    {
        int var = 0, val = 0;
        unsigned seed = 1;
        unsigned views = 0; // nonzero: branch over views of the variables
        auto str() const -> string;
        auto view(int v) const -> Op; // what stands for variable v
    };
    auto random_heur(Rng &) -> Heur;
    auto largest_value_heuristics_exist() -> bool;
    auto make_branch(const Heur &, const Ids &) -> gcs::BranchHeuristic;

    // Creates variables and posts every constraint. Names only if named.
    auto build(const Inst &, gcs::Problem &, bool named = false) -> Ids;

    // ids and order helpers
    auto values_at(const gcs::CurrentState &, const Ids &) -> A;
    auto show(const A &) -> string;
    auto show(const vector<A> &, size_t limit = 8) -> string;
    // difference of sorted vectors, for messages
    auto compare_solutions(const vector<A> & expected_sorted, vector<A> got) -> string; // "" if equal as multisets
}
#endif

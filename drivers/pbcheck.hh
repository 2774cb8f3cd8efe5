// A checker for the pseudo-Boolean proofs the solver writes: it reads the OPB
// model and the proof log, replays every step, and accepts a step only if the
// step's own rule justifies it. Written against the proof format alone; shares
// no code with the solver.
#ifndef VERIF_PBCHECK_HH
#define VERIF_PBCHECK_HH
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace pbc
{
    using i128 = __int128;
    using std::string;
    using std::string_view;
    using std::vector;

    auto str(i128) -> string;

    // a literal is 2 * variable + (1 if negated)
    struct Term
    {
        i128 c;
        int lit;
        auto operator==(const Term &) const -> bool = default;
    };

    // sum of terms >= deg; normalised: positive coefficients, one term per variable, sorted by variable
    struct Con
    {
        vector<Term> t;
        i128 deg = 0;
        auto operator==(const Con &) const -> bool = default;
        auto sum() const -> i128;
    };

    struct Names
    {
        vector<string> names;
        std::unordered_map<string, int> index;
        auto var(string_view) -> int;
        auto lit(string_view) -> int; // understands ~
        auto find(const string &) const -> int; // variable or -1
        auto show(const Con &) const -> string;
        auto show_lit(int) const -> string;
    };

    struct Error
    {
        string what;
    };

    auto normalise(vector<Term> raw, i128 deg) -> Con;
    auto negated(const Con &) -> Con;
    auto implies(const Con & d, const Con & c) -> bool; // by adding literal axioms (and saturating) only

    // slack-counting unit propagation to fixpoint over a changing set of constraints
    class Engine
    {
    public:
        struct Row
        {
            Con con;
            i128 slack = 0, maxc = 0;
            vector<Term> by_size;
            bool live = true, formula = false, queued = false;
        };
        struct Occ
        {
            int row;
            i128 c;
        };
        vector<Row> rows;
        vector<vector<Occ>> occ; // by literal
        vector<signed char> val; // by variable: -1 unset, else 0 or 1
        vector<int> reason, pos;
        vector<int> trail;
        size_t qhead = 0;
        bool root_conflict = false;
        uint64_t propagations = 0;

        auto need_vars(int n) -> void;
        auto is_false(int lit) const -> bool { return val[lit >> 1] == (lit & 1); }
        auto is_true(int lit) const -> bool { return val[lit >> 1] == 1 - (lit & 1); }
        auto add(Con, bool formula) -> int; // persistent, propagates at the root
        auto remove(const vector<int> & ids) -> void;
        // temporaries, last in first out; push returns false on conflict
        auto push(const Con &) -> bool;
        auto assume(int lit) -> bool;
        auto settle() -> bool;
        struct Mark
        {
            size_t trail, rows;
        };
        auto mark() const -> Mark { return {trail.size(), rows.size()}; }
        auto undo(const Mark &) -> void;
        auto rup(const Con &) -> bool;
        auto contradiction() -> bool { return root_conflict; }
        auto live_rows() const -> size_t;

    private:
        size_t dead_terms = 0, live_terms = 0;
        auto attach(Con, bool formula) -> int;
        auto scan(int row) -> bool;
        auto propagate() -> bool;
        auto backtrack(size_t) -> void;
        auto rebuild() -> void;
        auto compact() -> void;
        vector<int> pending;
    };

    struct Formula
    {
        Names names;
        vector<Con> rows;
        vector<string> labels;
        bool has_objective = false, has_preserved = false;
        vector<Term> objective; // as written
        vector<int> preserved;  // variables
    };
    auto read_opb(const string & text) -> Formula; // throws Error

    struct Options
    {
        bool allow_assertions = false;
        bool trust_rup = false; // a rup step that does not check is taken on trust
        bool strict_solutions = true; // a logged solution must settle the whole model by propagation alone
        size_t max_lines = 20000;
        uint64_t max_propagations = 60000000;
        // called before each solution line is applied, with how many there were before it
        std::function<void(Engine &, size_t)> before_solution;
    };

    struct Solution
    {
        bool soli;
        std::map<int, int> values; // everything assigned after propagation
        i128 objective = 0;
    };

    struct Result
    {
        bool too_big = false;
        string error; // empty: accepted
        size_t line = 0, steps = 0;
        std::map<string, size_t> rules;
        vector<Solution> solutions;
        string conclusion; // UNSAT, SAT, BOUNDS, ENUMERATION_COMPLETE, NONE
        bool bounds_inf = false;
        i128 lower = 0, upper = 0;
        uint64_t propagations = 0;
        size_t asserted = 0, trusted = 0;
        string open_solution; // a model row a logged solution leaves open, though it can be completed
    };
    auto check(Formula & f, const string & proof, const Options &) -> Result;

    // Is the formula satisfiable with these literals set? nullopt: gave up
    auto satisfiable(const Formula &, Engine &, const vector<int> & lits, long & budget) -> std::optional<bool>;
}
#endif

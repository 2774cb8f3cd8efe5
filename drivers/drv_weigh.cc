// P34: weighted orderings, judged by weights kept by an observer of our own from the documented formulae.
// P33: runs of propagators, counted by the propagators themselves.
#include "scenario.hh"
#include <gcs/current_state.hh>
#include <gcs/innards/conflict_observer.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/state.hh>
#include <gcs/variable_weighting.hh>
#include <cmath>
#include <memory>

using namespace gcs;
using namespace eng;
using vh::Ctx;
using vh::join;
using std::shared_ptr;
using Simple = SimpleIntegerVariableID;

namespace
{
    vector<const Family *> the_families;
    auto pick_family(Rng & r) -> const Family & { return *the_families[static_cast<size_t>(r.range(0, static_cast<ll>(the_families.size()) - 1))]; }

    const vector<WeightingScheme> schemes{WeightingScheme::Classic, WeightingScheme::InitialArity, WeightingScheme::CurrentArity, WeightingScheme::InitialDomain, WeightingScheme::CurrentDomain, WeightingScheme::CurrentArityCurrentDomain, WeightingScheme::ConflictHistorySearch};
    const vector<string> scheme_names{"classic", "ia", "ca", "id", "cd", "ca.cd", "chs"};

    auto same(double a, double b) -> bool { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

    // the weights, by the formulae
    struct Weights : innards::ConflictObserver
    {
        int kind;
        long conflicts = 0, restarts = 0;
        std::map<int, double> whole;                                       // by constraint
        std::map<std::pair<int, unsigned long long>, double> local;       // by constraint and variable
        std::map<unsigned long long, double> initial_size;
        std::map<int, std::set<unsigned long long>> scopes;
        std::map<unsigned long long, std::set<int>> appears;
        std::map<int, double> last;
        double alpha = 0.4, seen = 0;
        string wrong;

        Weights(int k, const Problem &, innards::State & s, innards::Propagators & pp, int n_propagators) : kind(k)
        {
            for (int i = 0; i < n_propagators; ++i)
                for (auto & v : pp.scope_of_propagator(i)) {
                    auto k = pp.constraint_index_of_propagator(i);
                    scopes[k].insert(v.index);
                    appears[v.index].insert(k);
                    initial_size[v.index] = static_cast<double>(s.domain_size(v).raw_value);
                }
            for (auto & [k, sc] : scopes) {
                std::set<unsigned long long> given;
                for (auto & v : pp.scope_of_constraint(k))
                    if (! given.insert(v.index).second)
                        wrong = "a variable is twice in the scope of a constraint";
                if (given != sc)
                    wrong = "the scope of a constraint is not that of its propagators";
            }
            for (auto & [v, ks] : appears) {
                auto & given = pp.constraint_indices_of_variable(Simple{v});
                if (given.size() != ks.size() || std::set<int>(given.begin(), given.end()) != ks)
                    wrong = "the constraints of a variable are not those whose scope it is in";
            }
        }
        auto note_conflict(int k, const vector<Simple> & scope, const std::optional<innards::Reason> &, const innards::State & s) -> void override
        {
            ++conflicts;
            if (kind == 0)
                whole[k] += 1;
            else if (kind == 6) {
                auto r = 1.0 / (seen - last[k] + 1);
                whole[k] = (1 - alpha) * whole[k] + alpha * r;
                last[k] = ++seen;
                alpha = std::max(0.06, alpha - 1e-6);
            }
            else {
                double open = 0;
                for (auto & v : scope)
                    open += s.domain_size(v) != 1_i;
                for (auto & v : scope) {
                    auto d = static_cast<double>(s.domain_size(v).raw_value);
                    if (d == 1)
                        continue;
                    auto inc = kind == 1 ? 1.0 / static_cast<double>(scope.size()) : kind == 2 ? 1.0 / open : kind == 3 ? 1.0 / initial_size.at(v.index) : kind == 4 ? 1.0 / (1 + d) : 1.0 / (open * (1 + d));
                    local[{k, v.index}] += inc;
                }
            }
        }
        auto on_restart() -> void override
        {
            ++restarts;
            if (kind == 6) {
                for (auto & [k, w] : whole)
                    w *= std::pow(0.995, seen - last[k]);
                alpha = 0.4;
            }
        }
        auto start() const -> double { return kind == 6 ? 0 : 1; }
        auto weight(int k, unsigned long long v) const -> double
        {
            if (kind == 0 || kind == 6) {
                auto it = whole.find(k);
                return start() + (it == whole.end() ? 0 : it->second);
            }
            auto it = local.find({k, v});
            return start() + (it == local.end() ? 0 : it->second);
        }
        auto degree(const CurrentState & s, unsigned long long v) const -> double
        {
            double t = 0;
            if (auto it = appears.find(v); it != appears.end())
                for (auto k : it->second) {
                    int open = 0;
                    for (auto u : scopes.at(k))
                        open += s.domain_size(Simple{u}) != 1_i;
                    if (open >= 2)
                        t += weight(k, v) + (kind == 6 ? 1e-4 : 0);
                }
            return t;
        }
    };

    auto simple_of(IntegerVariableID v) -> std::optional<unsigned long long>
    {
        if (auto p = std::get_if<Simple>(&v))
            return p->index;
        if (auto p = std::get_if<ViewOfIntegerVariableID>(&v))
            return p->actual_variable.index;
        return std::nullopt;
    }

    auto weights_case(Ctx & c, Rng & r) -> void
    {
        Inst in;
        auto st = random_style(r, r.chance(1, 4));
        in = random_instance(r, pick_family(r), st, static_cast<int>(r.range(1, 3)));
        if (in.cons.empty() || in.doms.empty())
            return;
        int kind = static_cast<int>(r.range(0, 6));
        bool defaulted = kind == 6 && r.chance(1, 2), seeded = r.chance(1, 3), restarts = r.chance(1, 3), views = r.chance(1, 4);
        auto scale = static_cast<unsigned long long>(r.range(1, 4));
        int limit = 300;
        Problem p;
        auto ids = build(in, p);
        Ids vars;
        for (auto & v : ids)
            vars.push_back(views && r.chance(1, 2) ? (r.chance(1, 2) ? -v + Integer{r.range(-3, 3)} : v + Integer{r.range(-3, 3)}) : v);
        // weights to begin with, for some of the constraints
        std::optional<WeightingState> initial;
        std::map<string, double> seed_whole;
        std::map<std::pair<string, unsigned long long>, double> seed_local;
        if (seeded) {
            initial.emplace();
            for (auto & k : p.each_constraint()) {
                auto name = as_string(k.constraint_id());
                if (r.chance(1, 2)) {
                    seed_whole[name] = static_cast<double>(r.range(0, 12)) / 4;
                    initial->set_weight(k.constraint_id(), seed_whole[name]);
                }
                for (auto & v : ids)
                    if (auto i = simple_of(v); i && r.chance(1, 4)) {
                        seed_local[{name, *i}] = static_cast<double>(r.range(1, 12)) / 4;
                        initial->set_local_weight(k.constraint_id(), Simple{*i}, seed_local[{name, *i}]);
                    }
            }
        }
        c.describe(in.describe() + " || " + scheme_names[static_cast<size_t>(kind)] + (seeded ? " seeded" : "") + (restarts ? " restarts " + std::to_string(scale) : "") + (views ? " views" : ""));

        auto scheme = schemes[static_cast<size_t>(kind)];
        auto inner = defaulted && ! initial ? variable_order::dom_wdeg(vars) : variable_order::dom_wdeg(vars, scheme, initial);
        shared_ptr<Weights> mine;
        string wrong;
        ll judged = 0, told_apart = 0, conflicts_heard = 0;
        auto complain = [&](const string & s) {
            if (wrong.empty())
                wrong = s;
        };
        shared_ptr<VariableWeighting> real;
        BranchVariableHeuristic order = [&](const Problem & pr, innards::State & s, innards::Propagators & pp) -> BranchVariableSelector {
            int n = 0;
            {
                Stats st;
                pp.fill_in_constraint_stats(st);
                n = static_cast<int>(st.n_propagators);
            }
            mine = std::make_shared<Weights>(kind, pr, s, pp, n);
            if (! mine->wrong.empty())
                complain(mine->wrong);
            for (auto & [k, sc] : mine->scopes) {
                auto name = as_string(pp.constraint_id_for_index(k));
                if (kind == 0 || kind == 6) {
                    if (auto it = seed_whole.find(name); it != seed_whole.end())
                        mine->whole[k] = it->second - mine->start();
                }
                else
                    for (auto v : sc)
                        if (auto it = seed_local.find({name, v}); it != seed_local.end())
                            mine->local[{k, v}] = it->second - mine->start();
            }
            // a weighting of the library's, listened to directly
            using V = RefinedWeighting::Variant;
            static const vector<V> variants{V::InitialArity, V::InitialArity, V::CurrentArity, V::InitialDomain, V::CurrentDomain, V::CurrentArityCurrentDomain};
            auto make = [&]() -> shared_ptr<VariableWeighting> {
                if (kind == 0)
                    return std::make_shared<ClassicDomWDeg>(pp);
                if (kind == 6)
                    return std::make_shared<ConflictHistorySearch>(pp);
                return std::make_shared<RefinedWeighting>(pp, s, variants[static_cast<size_t>(kind)]);
            };
            real = make();
            auto other = make();
            if (initial)
                real->load(*initial, pp);
            pp.add_conflict_observer(mine.get());
            pp.add_conflict_observer(real.get());
            auto select = inner(pr, s, pp);
            return [&, select, other](const CurrentState & cs, const innards::Propagators & pp) -> std::optional<IntegerVariableID> {
                auto v = select(cs, pp);
                ++judged;
                auto size = [&](IntegerVariableID x) { return static_cast<double>(cs.domain_size(x).raw_value); };
                auto degree = [&](IntegerVariableID x) {
                    auto i = simple_of(x);
                    return i ? mine->degree(cs, *i) : 0;
                };
                auto say = [&](IntegerVariableID x) { return "size " + std::to_string(static_cast<ll>(size(x))) + " weight " + std::to_string(degree(x)) + " degree " + std::to_string(pp.degree_of(x)); };
                for (auto & x : ids)
                    if (! same(real->weighted_degree_of(cs, pp, x), degree(x)))
                        complain("weighted degree " + std::to_string(real->weighted_degree_of(cs, pp, x)) + " for " + say(x));
                if (judged % 4 == 1) {
                    auto snap = real->snapshot(pp);
                    other->load(snap, pp);
                    for (auto & x : ids)
                        if (! same(other->weighted_degree_of(cs, pp, x), degree(x)))
                            complain("weighted degree " + std::to_string(other->weighted_degree_of(cs, pp, x)) + " after loading a snapshot, for " + say(x));
                    auto again = other->snapshot(pp);
                    if (again.constraint_weights() != snap.constraint_weights() || again.local_weights() != snap.local_weights())
                        complain("a snapshot loaded, and taken again, is another");
                }
                bool open = false;
                for (auto & x : vars)
                    open = open || size(x) > 1;
                if (! v) {
                    if (open)
                        complain("nothing chosen");
                    return v;
                }
                if (size(*v) <= 1)
                    complain("a fixed variable chosen");
                for (auto & x : vars) {
                    if (size(x) <= 1)
                        continue;
                    auto mine_ = size(*v) * degree(x), theirs = size(x) * degree(*v);
                    if (degree(*v) == 0 && degree(x) > 0)
                        complain("chosen: " + say(*v) + ", over " + say(x));
                    if (! same(mine_, theirs)) {
                        ++told_apart;
                        if (mine_ > theirs)
                            complain("chosen: " + say(*v) + ", over " + say(x));
                    }
                    else if (kind == 0 && mine_ == theirs && degree(x) > 0 && pp.degree_of(x) > pp.degree_of(*v))
                        complain("of the same score, chosen: " + say(*v) + ", over " + say(x));
                }
                return v;
            };
        };
        SolveCallbacks cb;
        cb.stats_report = silent_stats_report();
        int events = 0;
        cb.solution = [&](const CurrentState &) { return ++events < limit; };
        cb.trace = [&](const CurrentState &) { return ++events < limit; };
        cb.branch = branch_with(order, r.chance(1, 2) ? value_order::smallest_first() : value_order::split_smallest_first());
        if (restarts)
            cb.restarts = RestartSchedule::luby(scale);
        auto stats = solve_with(p, cb);
        VH_CHECK(wrong.empty(), "weighted-ordering", wrong);
        if (mine) {
            conflicts_heard = mine->conflicts;
            VH_CHECK(static_cast<ll>(stats.contradicting_propagations) == conflicts_heard, "conflicts-not-heard", stats.contradicting_propagations << " contradictions, " << conflicts_heard << " heard");
            VH_CHECK(static_cast<ll>(stats.restarts) == mine->restarts, "restarts-not-heard", stats.restarts << " restarts, " << mine->restarts << " heard");
            c.count("conflicts", conflicts_heard);
            c.count("restarts", mine->restarts);
        }
        c.count("choices", judged);
        c.count("told_apart", told_apart);
        c.evaluations += judged;
        c.count("scheme_" + scheme_names[static_cast<size_t>(kind)]);
        // two sets of weights put together
        if (initial) {
            WeightingState b;
            std::map<string, double> want = seed_whole;
            auto want_local = seed_local;
            int policy = static_cast<int>(r.range(0, 2));
            auto put = [&](double & a, double x) { a = policy == 0 ? a + x : policy == 1 ? std::max(a, x) : (a + x) / 2; };
            for (auto & k : p.each_constraint()) {
                auto name = as_string(k.constraint_id());
                if (r.chance(1, 2)) {
                    auto x = static_cast<double>(r.range(-4, 12)) / 4;
                    b.set_weight(k.constraint_id(), x);
                    put(want[name], x);
                }
                for (auto & v : ids)
                    if (auto i = simple_of(v); i && r.chance(1, 4)) {
                        auto x = static_cast<double>(r.range(-4, 12)) / 4;
                        b.set_local_weight(k.constraint_id(), Simple{*i}, x);
                        put(want_local[{name, *i}], x);
                    }
            }
            auto a = *initial;
            using M = WeightingState::MergePolicy;
            a.merge(b, policy == 0 ? M::Sum : policy == 1 ? M::Max : M::Average);
            std::map<string, double> got;
            std::map<std::pair<string, unsigned long long>, double> got_local;
            for (auto & [k, w] : a.constraint_weights()) {
                got[as_string(k)] = w;
                VH_CHECK(a.weight_of(k) == w && a.optional_weight_of(k) == w, "weights-disagree", as_string(k));
            }
            for (auto & [k, w] : a.local_weights()) {
                got_local[{as_string(k.first), k.second.index}] = w;
                VH_CHECK(a.local_weight_of(k.first, k.second) == w, "weights-disagree", as_string(k.first));
            }
            VH_CHECK(got == want && got_local == want_local, "weights-merged-wrongly", "policy " << policy);
        }
        if (told_apart && conflicts_heard)
            c.nontrivial(in.describe() + scheme_names[static_cast<size_t>(kind)]);
        c.sample(in.describe() + " " + scheme_names[static_cast<size_t>(kind)] + ": " + std::to_string(judged) + " choices, " + std::to_string(conflicts_heard) + " conflicts");
    }

    // propagators that count their runs
    struct Tally
    {
        ll runs = 0, did = 0, failed = 0;
    };
    class Teller : public Constraint
    {
    private:
        Ids _ids;
        ll _total;
        int _way;
        Tally * _tally;

    public:
        Teller(Ids ids, ll total, int way, Tally & t) : _ids(std::move(ids)), _total(total), _way(way), _tally(&t) {}

        // the sum of the variables is at most the total
        auto install_propagators(innards::Propagators & propagators) -> void override
        {
            innards::Triggers triggers;
            if (_way & 1)
                triggers.on_change = {_ids.begin(), _ids.end()};
            else
                triggers.on_bounds = {_ids.begin(), _ids.end()};
            propagators.install(
                constraint_id(),
                [ids = _ids, total = _total, way = _way, tally = _tally](const innards::State & state, auto & inference, innards::ProofLogger * const logger) -> innards::PropagatorState {
                    ++tally->runs;
                    Integer least = 0_i;
                    for (auto & v : ids)
                        least += state.lower_bound(v);
                    if (least > Integer{total}) {
                        ++tally->failed;
                        if (way & 2)
                            inference.infer(logger, ids[0] < state.lower_bound(ids[0]), innards::JustifyUsingRUP{}, innards::NoReason{});
                        else
                            inference.contradiction(logger, innards::JustifyUsingRUP{}, innards::NoReason{});
                    }
                    bool did = false;
                    for (auto & v : ids) {
                        auto most = Integer{total} - least + state.lower_bound(v);
                        if (state.upper_bound(v) > most) {
                            did = true;
                            inference.infer(logger, v < most + 1_i, innards::JustifyUsingRUP{}, innards::NoReason{});
                        }
                    }
                    if (did)
                        ++tally->did;
                    return innards::PropagatorState::Enable;
                },
                triggers);
        }
        auto constraint_type() const -> string override { return "teller"; }
        auto clone() const -> std::unique_ptr<Constraint> override { return std::make_unique<Teller>(*this); }
        auto s_expr(const innards::ProofModel * const) const -> innards::SExpr override { throw UnimplementedException{}; }
    };

    auto counted_case(Ctx & c, Rng & r) -> void
    {
        Problem p;
        Ids ids;
        string d;
        for (auto n = r.range(2, 4); n > 0; --n) {
            auto lo = r.range(-3, 3), hi = lo + r.range(1, 4);
            ids.push_back(p.create_integer_variable(Integer{lo}, Integer{hi}));
            d += " " + std::to_string(lo) + ".." + std::to_string(hi);
        }
        auto tallies = std::make_unique<Tally[]>(4);
        int n = static_cast<int>(r.range(1, 4));
        for (int i = 0; i < n; ++i) {
            Ids on;
            d += " sum";
            for (auto k = r.range(1, 3); k > 0; --k) {
                auto j = static_cast<size_t>(r.range(0, static_cast<ll>(ids.size()) - 1));
                bool neg = r.chance(1, 3);
                auto off = r.range(-2, 2);
                // each variable once: then what is inferred is inferred once
                if (std::any_of(on.begin(), on.end(), [&](auto & v) { return simple_of(v) == simple_of(ids[j]); }))
                    continue;
                on.push_back(neg ? -ids[j] + Integer{off} : ids[j] + Integer{off});
                d += string{neg ? " -" : " +"} + "x" + std::to_string(j) + (off < 0 ? "" : "+") + std::to_string(off);
            }
            auto total = r.range(-3, 6);
            d += "<=" + std::to_string(total);
            p.post(Teller{on, total, static_cast<int>(r.range(0, 3)), tallies[static_cast<size_t>(i)]});
        }
        bool stop = r.chance(1, 5), restarts = r.chance(1, 5);
        int events = 0, limit = stop ? static_cast<int>(r.range(1, 6)) : 2000;
        c.describe(d + (stop ? " stopped" : "") + (restarts ? " restarts" : ""));
        SolveCallbacks cb;
        cb.stats_report = silent_stats_report();
        cb.solution = [&](const CurrentState &) { return ++events < limit; };
        cb.trace = [&](const CurrentState &) { return ++events < limit; };
        if (restarts)
            cb.restarts = RestartSchedule::luby(static_cast<unsigned long long>(r.range(1, 3)));
        auto s = solve_with(p, cb);
        Tally t;
        for (int i = 0; i < n; ++i)
            t.runs += tallies[static_cast<size_t>(i)].runs, t.did += tallies[static_cast<size_t>(i)].did, t.failed += tallies[static_cast<size_t>(i)].failed;
        auto say = [&] { return std::to_string(t.runs) + " runs, " + std::to_string(t.did) + " with an effect, " + std::to_string(t.failed) + " contradictions; the statistics say " + std::to_string(s.propagations) + " " + std::to_string(s.effectful_propagations) + " " + std::to_string(s.contradicting_propagations) + " of " + std::to_string(s.n_propagators); };
        // with restarts, a constraint of the solver's own joins in
        if (! restarts)
            VH_CHECK(static_cast<ll>(s.propagations) == t.runs && static_cast<ll>(s.effectful_propagations) == t.did && static_cast<ll>(s.contradicting_propagations) == t.failed && static_cast<int>(s.n_propagators) == n, "propagations-statistic", say());
        else
            VH_CHECK(static_cast<ll>(s.propagations) >= t.runs && static_cast<ll>(s.effectful_propagations) >= t.did && static_cast<ll>(s.contradicting_propagations) >= t.failed, "propagations-statistic", say());
        c.evaluations += t.runs;
        c.count("runs", t.runs);
        c.count("effectful", t.did);
        c.count("contradictions", t.failed);
        if (t.did && t.failed)
            c.nontrivial(d);
        c.sample(d + ": " + say());
    }
}

auto main(int argc, char ** argv) -> int
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (the_families.empty())
            the_families = families_of(c.family);
        try {
            if (c.mode == "weights")
                weights_case(c, r);
            else if (c.mode == "counted")
                counted_case(c, r);
            else {
                std::cerr << "unknown mode " << c.mode << "\n";
                std::exit(2);
            }
        }
        catch (const InvalidProblemDefinitionException & e) {
            if (string{e.what()}.find("variable handle") == string::npos)
                throw;
            c.count("rejected_as_documented");
        }
    });
}

// Monitors over whole solves of random models with an independently evaluated
// meaning: solution sets, optima, per-node soundness and consistency,
// statistics, determinism, callbacks, branching.
#include "scenario.hh"
#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <cmath>

using namespace gcs;
using namespace eng;
using vh::Ctx;
using vh::join;

namespace
{
    vector<const Family *> the_families;

    auto dom_hash(const vector<vector<ll>> & d) -> vh::ull
    {
        string s;
        for (auto & x : d)
            s += join(x) + ";";
        return vh::fnv(s);
    }

    // every unreported solution that agrees with the guesses must survive; a failed child must contain none
    struct Sound : NodeMonitor
    {
        const vector<A> & sols;
        vector<char> reported;
        std::map<A, size_t> where;
        vector<vector<vector<ll>>> stack; // domains of the ancestors, by depth
        const Inst & in;
        bool optimising = false;
        std::function<ll(const A &)> cost;
        std::optional<ll> best;
        Ctx & c;

        Sound(Ctx & c_, const Inst & in_, const vector<A> & s) : sols(s), reported(s.size(), 0), in(in_), c(c_)
        {
            for (size_t i = 0; i < s.size(); ++i)
                where.emplace(s[i], i);
        }
        auto wanted(size_t i) const -> bool
        {
            if (optimising)
                return ! best || cost(sols[i]) < *best;
            return ! reported[i];
        }
        auto agrees(const A & a, const vector<Guess> & g) const -> bool
        {
            for (auto & x : g)
                if (x.v >= 0 && ! x.at(a[x.v]))
                    return false;
            return true;
        }
        auto path_str(const vector<Guess> & g) const -> string
        {
            string s = "guesses:";
            for (auto & x : g)
                s += " " + x.str();
            return s;
        }
        auto node(const vector<Guess> & g, const vector<vector<ll>> & d) -> void override
        {
            c.nontrivial(dom_hash(d));
            c.count("nodes");
            for (size_t i = 0; i < d.size(); ++i) {
                VH_CHECK(! d[i].empty(), "empty-domain-at-node", path_str(g) << " x" << i << " has no values but search went on");
                VH_CHECK(std::includes(in.doms[i].begin(), in.doms[i].end(), d[i].begin(), d[i].end()), "value-outside-declared-domain",
                    path_str(g) << " x" << i << " has {" << join(d[i]) << "}");
                for (auto & x : g)
                    if (x.v == static_cast<int>(i))
                        for (auto v : d[i])
                            VH_CHECK(x.at(v), "guess-not-in-force", path_str(g) << " x" << i << " still has " << v);
            }
            stack.resize(g.size() + 1);
            stack[g.size()] = d;
            if (! g.empty() && stack[g.size() - 1].size() == d.size())
                for (size_t i = 0; i < d.size(); ++i)
                    VH_CHECK(std::includes(stack[g.size() - 1][i].begin(), stack[g.size() - 1][i].end(), d[i].begin(), d[i].end()),
                        "value-reappeared-below-a-guess", path_str(g) << " x" << i << " {" << join(d[i]) << "} parent {" << join(stack[g.size() - 1][i]) << "}");
            for (size_t s = 0; s < sols.size(); ++s)
                if (wanted(s) && agrees(sols[s], g)) {
                    c.count("solutions_tracked_at_nodes");
                    for (size_t i = 0; i < d.size(); ++i)
                        VH_CHECK(std::binary_search(d[i].begin(), d[i].end(), sols[s][i]), "propagation-lost-a-solution",
                            path_str(g) << ": solution " << show(sols[s]) << " is gone, x" << i << " is {" << join(d[i]) << "}");
                }
        }
        auto failed(const vector<Guess> & g) -> void override
        {
            c.count("failed_children");
            for (size_t s = 0; s < sols.size(); ++s)
                VH_CHECK(! (wanted(s) && agrees(sols[s], g)), "failure-lost-a-solution", path_str(g) << " failed but " << show(sols[s]) << " is a solution there");
        }
        auto closed(const vector<Guess> & g, const vector<vector<ll>> &, const vector<Guess> & ch) -> void override
        {
            if (ch.empty())
                return; // a leaf: its solution is reported after this
            for (size_t s = 0; s < sols.size(); ++s)
                VH_CHECK(! (wanted(s) && agrees(sols[s], g)), "explored-subtree-lost-a-solution", path_str(g) << " fully explored but " << show(sols[s]) << " was never reported");
        }
        auto solution(const A & a) -> void override
        {
            auto it = where.find(a);
            VH_CHECK(it != where.end(), "non-solution-reported", show(a) << " does not satisfy the model");
            VH_CHECK(optimising || ! reported[it->second], "solution-repeated", show(a) << " was reported twice");
            reported[it->second] = 1;
            if (optimising) {
                VH_CHECK(! best || cost(a) < *best, "objective-not-improving", show(a) << " costs " << cost(a) << " after " << *best);
                best = cost(a);
            }
        }
    };

    // every remaining value has a support among the solutions within the current domains
    struct Consistent : NodeMonitor
    {
        const Inst & in;
        Ctx & c;
        const Con & con;
        Consistent(Ctx & c_, const Inst & i) : in(i), c(c_), con(i.cons[0]) {}
        auto node(const vector<Guess> & g, const vector<vector<ll>> & d) -> void override
        {
            Inst now;
            now.doms = d;
            for (auto & x : d)
                if (x.empty())
                    return;
            vector<std::set<ll>> sup(d.size());
            ll n = 0;
            now.each([&](const A & a) {
                if (con.holds(a)) {
                    ++n;
                    for (size_t i = 0; i < a.size(); ++i)
                        sup[i].insert(a[i]);
                }
            });
            string where = g.empty() ? "at the root" : "after";
            for (auto & x : g)
                where += " " + x.str();
            bool pruned = false;
            for (int i : con.used) {
                c.count("domains_checked");
                if (con.level == Level::GAC)
                    for (auto v : d[i])
                        VH_CHECK(sup[i].count(v), "value-without-support:" + con.fam, where << ": x" << i << "=" << v << " has no support; domains " << [&] {
                            string s;
                            for (size_t k = 0; k < d.size(); ++k)
                                s += "x" + std::to_string(k) + "{" + join(d[k]) + "} ";
                            return s;
                        }());
                pruned = pruned || d[i].size() != in.doms[i].size();
            }
            if (pruned)
                c.nontrivial(dom_hash(d));
            c.count("nodes");
        }
    };

    auto pick_family(Ctx & c) -> const Family &
    {
        if (the_families.empty())
            the_families = families_of(c.family);
        return *the_families[c.current_case % the_families.size()];
    }

    bool the_instance_is_aliased = false;

    auto note(Ctx & c, const Inst & in, const string & how) -> void
    {
        the_instance_is_aliased = std::any_of(in.cons.begin(), in.cons.end(), [](const Con & k) { return k.aliased; });
        c.describe(in.describe() + " || " + how);
    }
    auto note(Ctx & c, const Inst & in, const RunCfg & cfg) -> void { note(c, in, cfg.str()); }

    auto check_exact(Ctx & c, const Inst & in, const vector<A> & want, const RunCfg & cfg, const RunRes & r) -> void
    {
        if (r.node_limit) {
            c.count("node_limit");
            return;
        }
        auto d = compare_solutions(want, r.sols);
        VH_CHECK(d.empty(), "wrong-solution-set:" + in.cons[0].fam, d);
        VH_CHECK(r.completed, "completion-not-announced", "the whole space was searched but the completion callback was not called");
        VH_CHECK(r.stats.solutions == r.sols.size(), "solution-count-wrong", r.stats.solutions << " in the statistics, " << r.sols.size() << " reported");
    }

    auto tally(Ctx & c, const Inst & in, const vector<A> & want) -> void
    {
        for (auto & k : in.cons)
            c.count("family_" + k.fam);
        c.count(want.empty() ? "unsatisfiable" : want.size() == in.size ? "tautological" : "mixed");
        if (! want.empty() && want.size() < in.size)
            c.nontrivial(in.describe());
        c.sample(in.describe() + " -> " + std::to_string(want.size()) + " solutions");
    }

    auto exact_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(2, 5)), 0);
        if (in.cons.empty())
            return;
        auto cfg = random_cfg(r, false);
        note(c, in, cfg);
        auto want = in.all_solutions();
        tally(c, in, want);
        check_exact(c, in, want, cfg, run_inst(in, cfg));
    }

    auto shuffled(Rng & r, size_t n) -> vector<int>
    {
        vector<int> o;
        for (size_t i = 0; i < n; ++i)
            o.push_back(static_cast<int>(i));
        r.shuffle(o);
        return o;
    }

    auto conj_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, true), static_cast<int>(r.range(1, 4)));
        if (in.cons.empty())
            return;
        auto cfg = random_cfg(r, false);
        if (r.chance(1, 2))
            cfg.order = shuffled(r, in.cons.size());
        note(c, in, cfg);
        auto want = in.all_solutions();
        tally(c, in, want);
        check_exact(c, in, want, cfg, run_inst(in, cfg));
    }

    auto random_objective(Rng & r, const Inst & in) -> Op
    {
        Op o{static_cast<int>(r.range(0, static_cast<ll>(in.doms.size()) - 1)), r.chance(1, 3), r.chance(1, 3) ? r.range(-9, 9) : 0};
        return o;
    }

    auto opt_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 3)));
        if (in.cons.empty() || in.doms.empty())
            return;
        // tie the objective to the rest through a sum, half of the time
        int obj = -1;
        if (r.chance(1, 2) && in.size < 1500) {
            int n = static_cast<int>(in.doms.size());
            vector<ll> w;
            ll lo = 0, hi = 0;
            for (int i = 0; i < n; ++i) {
                w.push_back(r.range(-2, 3));
                auto a = w[i] * in.doms[i].front(), b = w[i] * in.doms[i].back();
                lo += std::min(a, b);
                hi += std::max(a, b);
            }
            if (hi - lo < 60) {
                obj = n;
                vector<ll> d;
                for (ll v = lo; v <= hi; ++v)
                    d.push_back(v);
                in.doms.push_back(d);
                Con k;
                k.fam = "objective_sum";
                k.desc = join(w);
                k.holds = [=](const A & a) {
                    ll s = 0;
                    for (int i = 0; i < n; ++i)
                        s += w[i] * a[i];
                    return s == a[n];
                };
                k.post = [=](Problem & p, const Ids & ids) {
                    WeightedSum s;
                    for (int i = 0; i < n; ++i)
                        s += I(w[i]) * ids[i];
                    s += -1_i * ids[n];
                    p.post(LinearEquality{s, 0_i});
                };
                for (int i = 0; i <= n; ++i)
                    k.used.push_back(i);
                in.cons.push_back(k);
            }
        }
        auto cfg = random_cfg(r, r.chance(1, 3));
        cfg.objective = obj >= 0 ? Op{obj, r.chance(1, 4), 0} : random_objective(r, in);
        cfg.maximise = r.chance(1, 2);
        note(c, in, cfg);
        // reference: enumerate without the sum variable
        vector<A> want;
        if (obj >= 0) {
            Inst base = in;
            auto k = base.cons.back();
            base.cons.pop_back();
            base.doms.pop_back();
            auto w = [&](A a) -> std::optional<A> {
                a.push_back(0);
                for (auto v : in.doms.back()) {
                    a.back() = v;
                    if (k.holds(a))
                        return a;
                }
                return std::nullopt;
            };
            for (auto & a : base.all_solutions())
                if (auto x = w(a))
                    want.push_back(*x);
        }
        else
            want = in.all_solutions();
        tally(c, in, want);
        Sound m{c, in, want};
        m.optimising = true;
        m.cost = [&](const A & a) { return (cfg.maximise ? -1 : 1) * cfg.objective->at(a); };
        if (! cfg.luby)
            cfg.monitor = &m;
        auto res = run_inst(in, cfg);
        if (res.node_limit) {
            c.count("node_limit");
            return;
        }
        std::optional<ll> best, last;
        for (auto & a : want)
            best = best ? std::min(*best, m.cost(a)) : m.cost(a);
        for (auto & a : res.sols) {
            VH_CHECK(std::binary_search(want.begin(), want.end(), a), "non-solution-reported", show(a));
            VH_CHECK(! last || m.cost(a) < *last, "objective-not-improving", show(res.sols, 30));
            last = m.cost(a);
        }
        VH_CHECK(best == last, "wrong-optimum", "best possible (as a minimum) " << (best ? std::to_string(*best) : "none") << ", final answer " << (last ? std::to_string(*last) : "none"));
        VH_CHECK(res.completed, "completion-not-announced", "search finished without the completion callback");
        VH_CHECK(res.stats.solutions == res.sols.size(), "solution-count-wrong", res.stats.solutions << " vs " << res.sols.size());
        c.count("restarts", res.stats.restarts);
        c.count("incumbents", res.sols.size());
    }

    auto config_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 3)));
        if (in.cons.empty())
            return;
        auto want = in.all_solutions();
        tally(c, in, want);
        for (int k = 0; k < 3; ++k) {
            auto cfg = random_cfg(r, k > 0);
            cfg.order = shuffled(r, in.cons.size());
            note(c, in, cfg);
            bool scan = cfg.luby && r.chance(1, 3);
            if (scan)
                setenv("GCS_LEARNED_NOGOODS_SCAN", "1", 1);
            Sound m{c, in, want};
            if (r.chance(1, 2))
                cfg.monitor = &m;
            auto res = run_inst(in, cfg);
            if (scan)
                unsetenv("GCS_LEARNED_NOGOODS_SCAN");
            check_exact(c, in, want, cfg, res);
            c.count("restarts", res.stats.restarts);
            c.count("learned_nogoods", res.stats.learned_nogoods);
        }
    }

    auto sound_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 2)), r.chance(1, 2) ? 0 : static_cast<int>(r.range(1, 3)));
        if (in.cons.empty())
            return;
        auto cfg = random_cfg(r, false);
        if (! cfg.heur)
            cfg.heur = random_heur(r);
        note(c, in, cfg);
        auto want = in.all_solutions();
        tally(c, in, want);
        Sound m{c, in, want};
        cfg.monitor = &m;
        check_exact(c, in, want, cfg, run_inst(in, cfg));
    }

    auto consistency_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        for (int tries = 0; tries < 6; ++tries) {
            auto st = random_style(r, r.chance(1, 4));
            st.alias = 0;
            st.budget = 800;
            auto in = random_instance(r, f, st, 0);
            if (in.cons.size() != 1 || in.cons[0].level == Level::None)
                continue;
            auto cfg = random_cfg(r, false);
            if (! cfg.heur)
                cfg.heur = random_heur(r);
            note(c, in, cfg);
            c.count("family_" + in.cons[0].fam);
            c.sample(in.describe());
            Consistent m{c, in};
            cfg.monitor = &m;
            run_inst(in, cfg);
            return;
        }
        c.count("no_claim");
    }

    auto stats_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 2)));
        if (in.cons.empty())
            return;
        auto cfg = random_cfg(r, false);
        if (! cfg.heur)
            cfg.heur = random_heur(r);
        note(c, in, cfg);
        struct M : NodeMonitor
        {
            vector<ll> sol_below{0};
            ll barren = 0;
            ll leaves = 0, inner = 0;
            ll sols = 0;
            vector<ll> at_entry; // solutions seen when the child at this depth began
            auto node(const vector<Guess> & g, const vector<vector<ll>> &) -> void override
            {
                at_entry.resize(g.size() + 1);
                at_entry[g.size()] = sols;
            }
            auto solution(const A &) -> void override { ++sols; }
            auto failed(const vector<Guess> &) -> void override { ++barren; }
            // solution() comes after closed() for a leaf, so only nodes with children are judged here
            auto closed(const vector<Guess> & g, const vector<vector<ll>> &, const vector<Guess> & ch) -> void override
            {
                if (ch.empty()) {
                    ++leaves;
                    return;
                }
                ++inner;
                if (! g.empty() && sols == at_entry[g.size()])
                    ++barren;
            }
        } m;
        cfg.monitor = &m;
        auto res = run_inst(in, cfg);
        if (res.node_limit)
            return;
        auto & s = res.stats;
        bool root = res.nodes > 0;
        c.nontrivial(std::to_string(s.recursions) + "/" + std::to_string(s.failures) + "/" + std::to_string(s.propagations) + "/" + std::to_string(s.max_depth));
        c.sample(in.describe() + " recursions " + std::to_string(s.recursions) + " failures " + std::to_string(s.failures));
        VH_CHECK(s.solutions == res.sols.size(), "solutions-statistic", s.solutions << " vs " << res.sols.size());
        if (root) {
            VH_CHECK(s.recursions == static_cast<unsigned long long>(res.yields + 1), "recursions-statistic", s.recursions << " but " << res.yields + 1 << " nodes were entered");
            VH_CHECK(s.failures == static_cast<unsigned long long>(m.barren), "failures-statistic", s.failures << " but " << m.barren << " guesses led to no solution");
            ll deepest = 0;
            deepest = res.max_path;
            VH_CHECK(static_cast<ll>(s.max_depth) >= deepest && static_cast<ll>(s.max_depth) <= deepest + (res.fails ? 1 : 0), "max-depth-statistic", s.max_depth << " but the deepest visited node is at " << deepest);
            VH_CHECK(res.traces == m.inner, "trace-callbacks", res.traces << " trace callbacks for " << m.inner << " inner nodes");
        }
        else
            VH_CHECK(s.recursions <= 1 && s.solutions == 0, "root-failure-statistics", s.recursions << " recursions, " << s.solutions << " solutions");
        VH_CHECK(s.restarts == 0 && s.learned_nogoods == 0, "restarts-without-a-schedule", s.restarts << " " << s.learned_nogoods);
        VH_CHECK(s.effectful_propagations + s.contradicting_propagations <= s.propagations, "propagation-statistics",
            s.effectful_propagations << " effectful, " << s.contradicting_propagations << " contradicting of " << s.propagations);
        VH_CHECK(s.contradicting_propagations <= static_cast<unsigned long long>(res.fails) + 1, "contradictions-statistic", s.contradicting_propagations << " contradictions but " << res.fails << " failed children");
        std::ostringstream o;
        o << s;
        auto text = o.str();
        for (auto & [name, v] : vector<std::pair<string, unsigned long long>>{{"recursions:", s.recursions}, {"failures:", s.failures}, {"propagations:", s.propagations}, {"solutions:", s.solutions}, {"max depth:", s.max_depth}})
{
            // whatever the spacing
            auto at = text.find(name);
            bool ok = at != string::npos;
            if (ok) {
                at += name.size();
                while (at < text.size() && text[at] == ' ')
                    ++at;
                auto digits = std::to_string(v);
                ok = text.compare(at, digits.size(), digits) == 0 && (at + digits.size() >= text.size() || ! isdigit(text[at + digits.size()]));
            }
            VH_CHECK(ok, "statistics-text", "no '" << name << v << "' in: " << text);
        }
    }

    // the statistics of a restarting search, against what the branching callback saw of every run
    struct RunLog
    {
        ll level = 0, nodes = 0, yields = 0, barren = 0, runs = 0, roots_left = 0, sols = 0, learned = 0, deepest = 0, inner = 0;
        vector<ll> dead; // children of each run at which nothing was branched on: conflicts, and the one the run was cut at
        bool entered = false, stopping = false;
        BranchCallback with;

        auto at_node(const CurrentState & s, const innards::Propagators & p) -> std::generator<IntegerVariableCondition>
        {
            entered = true;
            ++nodes;
            if (level == 0) {
                ++runs;
                dead.push_back(0);
            }
            struct Here
            {
                RunLog & l;
                ll refuted = 0;
                bool finished = false;
                ~Here()
                {
                    --l.level;
                    if (! finished) {
                        if (l.level == 0)
                            ++l.roots_left;
                        if (! l.stopping)
                            l.learned += refuted;
                    }
                    l.entered = true;
                }
            } here{*this};
            ++level;
            bool any = false;
            for (const auto & c : with(s, p)) {
                if (! any)
                    ++inner;
                any = true;
                struct Child
                {
                    RunLog & l;
                    ll before;
                    ~Child()
                    {
                        if (l.sols == before)
                            ++l.barren;
                        if (! l.entered)
                            ++l.dead.back();
                    }
                };
                {
                    Child child{*this, sols};
                    ++yields;
                    deepest = std::max(deepest, level);
                    entered = false;
                    co_yield c;
                }
                ++here.refuted;
            }
            here.finished = true;
        }
    };

    auto luby_term(unsigned long long i) -> unsigned long long
    {
        unsigned long long size = 1;
        while (size < i)
            size = 2 * size + 1;
        return size == i ? (size + 1) / 2 : luby_term(i - (size - 1) / 2);
    }

    auto restarts_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 3)));
        if (in.cons.empty())
            return;
        auto scale = static_cast<unsigned long long>(r.pick(vector<ll>{1, 1, 1, 2, 2, 3, 4, 7}));
        auto heur = random_heur(r);
        bool optimise = ! in.doms.empty() && r.chance(1, 4), maximise = r.chance(1, 2);
        int target = in.doms.empty() ? 0 : static_cast<int>(r.range(0, static_cast<ll>(in.doms.size()) - 1));
        ll stop = r.chance(1, 6) ? r.range(1, 4) : -1;
        note(c, in, heur.str() + " luby " + std::to_string(scale) + (optimise ? (maximise ? " max x" : " min x") + std::to_string(target) : "") + (stop > 0 ? " stop after " + std::to_string(stop) : ""));
        Problem p;
        auto ids = build(in, p, r.chance(1, 4));
        if (optimise) {
            if (maximise)
                p.maximise(ids[target]);
            else
                p.minimise(ids[target]);
        }
        RunLog log;
        ll traces = 0;
        bool completed = false;
        SolveCallbacks cb;
        cb.solution = [&](const CurrentState &) {
            ++log.sols;
            log.stopping = log.sols == stop;
            return ! log.stopping;
        };
        cb.trace = [&](const CurrentState &) {
            ++traces;
            return true;
        };
        cb.completed = [&] { completed = true; };
        cb.stats_report = silent_stats_report();
        cb.restarts = RestartSchedule::luby(scale);
        auto h = make_branch(heur, ids);
        cb.branch = [&, h](const Problem & pr, innards::State & st, innards::Propagators & pp) -> BranchCallback {
            log.with = h(pr, st, pp);
            return [&](const CurrentState & s, const innards::Propagators & q) { return log.at_node(s, q); };
        };
        auto s = solve_with(p, cb);
        using U = unsigned long long;
        VH_CHECK(completed == ! log.stopping, "completed-though-stopped", "completion " << (completed ? "" : "not ") << "announced");
        VH_CHECK(s.solutions == static_cast<U>(log.sols), "solutions-statistic", s.solutions << " vs " << log.sols);
        if (log.runs == 0) {
            VH_CHECK(s.recursions <= 1 && s.restarts == 0 && s.failures == 0 && s.learned_nogoods == 0, "root-failure-statistics", s.recursions << " recursions, " << s.restarts << " restarts");
            return;
        }
        // a run that was left early was cut off, unless it was the one the search was stopped in; and a run that was cut
        // off is followed by another, whose root may turn out to be refuted by what was learned
        auto cut = log.roots_left - (log.stopping && log.roots_left == log.runs ? 1 : 0);
        auto roots = static_cast<U>(log.runs) + (! log.stopping && log.roots_left == log.runs ? 1 : 0);
        VH_CHECK(s.restarts == static_cast<U>(cut), "restarts-statistic", s.restarts << " but " << cut << " runs were cut off");
        VH_CHECK(s.recursions == log.yields + roots, "recursions-statistic", s.recursions << " but " << log.yields << " guesses were made in " << roots << " runs");
        VH_CHECK(s.failures == static_cast<U>(log.barren), "failures-statistic", s.failures << " but " << log.barren << " guesses led to no solution");
        VH_CHECK(s.max_depth == static_cast<U>(log.deepest), "max-depth-statistic", s.max_depth << " but the deepest node was at " << log.deepest);
        VH_CHECK(traces == log.inner, "trace-callbacks", traces << " trace callbacks for " << log.inner << " inner nodes");
        VH_CHECK(s.learned_nogoods == static_cast<U>(log.learned), "nogoods-statistic", s.learned_nogoods << " but " << log.learned << " guesses had been refuted where a run was cut off");
        for (size_t i = 0; i < log.dead.size(); ++i) {
            auto cutoff = luby_term(i + 1) * scale;
            auto conflicts = static_cast<U>(log.dead[i]);
            if (static_cast<ll>(i) < cut)
                VH_CHECK(conflicts == cutoff + 1, "restart-cutoff", "run " << i + 1 << " was cut off after " << conflicts - 1 << " conflicts, not " << cutoff);
            else
                VH_CHECK(conflicts <= cutoff, "restart-cutoff", "run " << i + 1 << " went on after " << conflicts << " conflicts, past its cutoff of " << cutoff);
        }
        c.count("runs", log.runs);
        c.count("runs_cut_off", cut);
        c.count("learned_nogoods", log.learned);
        if (cut > 0)
            c.nontrivial("restarts/" + std::to_string(s.recursions) + "/" + std::to_string(s.failures) + "/" + std::to_string(s.learned_nogoods) + "/" + vh::join(log.dead));
        c.sample(in.describe() + " luby " + std::to_string(scale) + ": conflicts per run " + vh::join(log.dead) + ", " + std::to_string(s.learned_nogoods) + " nogoods");
    }

    struct Recorder : NodeMonitor
    {
        vh::ull h = 1469598103934665603ULL;
        vector<string> log;
        auto add(const string & s) -> void
        {
            h = (h ^ vh::fnv(s)) * 1099511628211ULL;
            if (log.size() < 3000)
                log.push_back(s);
        }
        auto p(const vector<Guess> & g) -> string
        {
            string s;
            for (auto & x : g)
                s += x.str() + " ";
            return s;
        }
        auto node(const vector<Guess> & g, const vector<vector<ll>> & d) -> void override
        {
            string s = "node " + p(g) + "|";
            for (auto & x : d)
                s += "{" + join(x) + "}";
            add(s);
        }
        auto failed(const vector<Guess> & g) -> void override { add("fail " + p(g)); }
        auto solution(const A & a) -> void override { add("sol " + show(a)); }
        auto stats(const RunRes & r) -> void
        {
            auto & s = r.stats;
            add("stats " + join(vector<unsigned long long>{s.recursions, s.failures, s.propagations, s.effectful_propagations, s.contradicting_propagations, s.solutions, s.max_depth, s.restarts, s.learned_nogoods, s.n_propagators, s.idempotence_downgrades}));
        }
    };

    auto first_difference(const Recorder & a, const Recorder & b) -> string
    {
        for (size_t i = 0; i < std::max(a.log.size(), b.log.size()); ++i) {
            string x = i < a.log.size() ? a.log[i] : "(end)", y = i < b.log.size() ? b.log[i] : "(end)";
            if (x != y)
                return "step " + std::to_string(i) + ": '" + x + "' versus '" + y + "'";
        }
        return "no difference in the first steps";
    }

    auto det_instance(Ctx & c, Rng & r, RunCfg & cfg) -> Inst
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 4)));
        cfg = random_cfg(r, r.chance(1, 2));
        if (! cfg.heur)
            cfg.heur = random_heur(r);
        if (! in.doms.empty() && r.chance(1, 4)) {
            cfg.objective = random_objective(r, in);
            cfg.maximise = r.chance(1, 2);
        }
        if (r.chance(1, 4)) {
            cfg.extra = [](Problem & p, const Ids & ids) { p.add_presolver(DifferenceLogic{}); };
        }
        note(c, in, cfg);
        return in;
    }

    auto determinism_case(Ctx & c, Rng & r) -> void
    {
        RunCfg cfg;
        auto in = det_instance(c, r, cfg);
        if (in.cons.empty())
            return;
        Recorder a, b;
        cfg.monitor = &a;
        auto ra = run_inst(in, cfg);
        a.stats(ra);
        // disturb the heap between the runs
        vector<std::unique_ptr<char[]>> junk;
        for (int i = 0; i < 50; ++i)
            junk.push_back(std::make_unique<char[]>(r.range(1, 4000)));
        for (int i = 0; i < 25; ++i)
            junk[r.range(0, 49)].reset();
        cfg.monitor = &b;
        auto rb = run_inst(in, cfg);
        b.stats(rb);
        VH_CHECK(a.h == b.h, "runs-differ", first_difference(a, b));
        if (ra.nodes > 1)
            c.nontrivial(a.h);
        c.count("nodes", ra.nodes);
        c.sample(in.describe() + " nodes " + std::to_string(ra.nodes));
        if (c.only_case < 0 && c.current_case % 40 == c.shard % 40) {
            // and in another process
            string cmd = "/proc/" + std::to_string(getpid()) + "/exe --mode determinism-child --family '" + c.family + "' --seed " + std::to_string(c.seed) + " --case " + std::to_string(c.current_case) + " --out /dev/null 2>/dev/null";
            FILE * f = popen(cmd.c_str(), "r");
            string out;
            char buf[4096];
            while (f && fgets(buf, sizeof buf, f))
                out += buf;
            if (f)
                pclose(f);
            if (out.rfind("hash ", 0) != 0) {
                std::cerr << "no answer from child process: " << out << "\n";
                _exit(3);
            }
            VH_CHECK(out == "hash " + std::to_string(a.h) + "\n", "processes-differ", "another process running the same model searched differently: " << out << " vs " << a.h);
            c.count("other_process");
        }
    }

    auto determinism_child(Ctx & c, Rng &) -> void
    {
        Rng r(c.seed * 1000003ULL + c.current_case * 7919ULL + vh::fnv("determinism" + c.family));
        RunCfg cfg;
        auto in = det_instance(c, r, cfg);
        Recorder a;
        cfg.monitor = &a;
        auto ra = run_inst(in, cfg);
        a.stats(ra);
        std::cout << "hash " << a.h << std::endl;
    }

    // A constraint that allows everything, and sets a flag the nth time it is woken.
    class Bell : public Constraint
    {
    private:
        Ids _ids;
        int _at;
        std::shared_ptr<int> _woken = std::make_shared<int>(0);
        std::atomic<bool> * _flag;
        bool * _rung;

    public:
        Bell(Ids ids, int at, std::atomic<bool> & flag, bool & rung) : _ids(std::move(ids)), _at(at), _flag(&flag), _rung(&rung) {}

        auto install_propagators(innards::Propagators & propagators) -> void override
        {
            innards::Triggers triggers;
            triggers.on_change = {_ids.begin(), _ids.end()};
            propagators.install(
                constraint_id(),
                [woken = _woken, at = _at, flag = _flag, rung = _rung](const innards::State &, auto &, innards::ProofLogger * const) -> innards::PropagatorState {
                    if (++*woken == at) {
                        *flag = true;
                        *rung = true;
                    }
                    return innards::PropagatorState::Enable;
                },
                triggers);
        }

        auto constraint_type() const -> string override { return "bell"; }
        auto clone() const -> std::unique_ptr<Constraint> override
        {
            auto copy = std::make_unique<Bell>(*this);
            return copy;
        }
        auto s_expr(const innards::ProofModel * const) const -> innards::SExpr override { throw UnimplementedException{}; }
    };

    // callback protocol and stopping
    auto callbacks_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 2)));
        if (in.cons.empty())
            return;
        auto want = in.all_solutions();
        auto cfg = random_cfg(r, r.chance(1, 4));
        if (! cfg.heur)
            cfg.heur = random_heur(r);
        int kind = static_cast<int>(r.range(0, 8));
        int k = static_cast<int>(r.range(1, kind >= 7 ? 25 : 6));
        note(c, in, cfg.str() + " stop kind " + std::to_string(kind) + " at " + std::to_string(k));
        Problem p;
        auto ids = build(in, p, cfg.named);
        std::atomic<bool> flag{kind == 0};
        int sols = 0, traces = 0, started = 0, completed = 0, branches = 0;
        bool stopped = kind == 0;
        if (kind >= 7)
            p.post(Bell{ids, k, flag, stopped});
        vector<A> got;
        string bad;
        SolveCallbacks cb;
        auto order = [&](const char * what) {
            if (! started)
                bad = string(what) + " before the proof-started callback";
            if (completed)
                bad = string(what) + " after completion was announced";
            if (stopped && string(what) != "completion")
                bad = string(what) + " after the search was told to stop";
        };
        cb.after_proof_started = [&](const CurrentState & s) {
            if (started || sols || traces || branches)
                bad = "proof-started callback late or repeated";
            ++started;
            for (size_t i = 0; i < ids.size(); ++i)
                for (auto & a : want)
                    if (! s.in_domain(ids[i], I(a[i])))
                        bad = "a solution is already gone when the proof-started callback runs";
        };
        cb.solution = [&](const CurrentState & s) {
            order("solution");
            for (auto & i : ids)
                if (! s.has_single_value(i))
                    bad = "solution callback with an unfixed variable";
            got.push_back(values_at(s, ids));
            ++sols;
            if (kind == 1 && sols >= k) {
                stopped = true;
                return false;
            }
            if (kind == 2 && sols >= k) {
                flag = true;
                stopped = true;
            }
            return true;
        };
        cb.trace = [&](const CurrentState & s) {
            order("trace");
            ++traces;
            bool all = true;
            for (auto & i : ids)
                all = all && s.has_single_value(i);
            if (all)
                bad = "trace callback at a node with every variable fixed";
            if (kind == 3 && traces >= k) {
                stopped = true;
                return false;
            }
            if (kind == 4 && traces >= k) {
                flag = true;
                stopped = true;
            }
            return true;
        };
        cb.completed = [&] {
            order("completion");
            ++completed;
        };
        cb.stats_report = silent_stats_report();
        if (cfg.luby)
            cb.restarts = RestartSchedule::luby(*cfg.luby);
        auto h = make_branch(*cfg.heur, ids);
        bool flagged_in_branch = false;
        cb.branch = [&, h](const Problem & pr, innards::State & st, innards::Propagators & pp) -> BranchCallback {
            if (branches)
                bad = "branching heuristic set up twice";
            ++branches;
            auto inner = h(pr, st, pp);
            return [&, inner](const CurrentState & s, const innards::Propagators & q) {
                ++branches;
                if (kind >= 7 && stopped)
                    bad = "a node was entered after the abort flag was set during propagation";
                if (flagged_in_branch && branches > k + 1)
                    bad = "another node was entered after the abort flag was set in the branching callback";
                if (kind == 5 && branches >= k && ! flagged_in_branch) {
                    flag = true;
                    flagged_in_branch = true;
                    k = branches;
                }
                return inner(s, q);
            };
        };
        int use_flag = kind == 0 || kind == 2 || kind == 4 || kind == 5 || kind >= 7;
        auto stats = solve_with(p, cb, std::nullopt, use_flag ? &flag : nullptr);
        VH_CHECK(bad.empty(), "callback-order", bad);
        VH_CHECK(started == 1, "proof-started-callback", "called " << started << " times");
        VH_CHECK(completed <= 1, "completion-repeated", completed);
        VH_CHECK(stats.solutions == static_cast<unsigned long long>(sols), "solutions-statistic", stats.solutions << " vs " << sols);
        std::set<A> uniq(got.begin(), got.end());
        VH_CHECK(uniq.size() == got.size(), "solution-repeated", show(got, 20));
        for (auto & a : got)
            VH_CHECK(std::binary_search(want.begin(), want.end(), a), "non-solution-reported", show(a));
        if (! stopped && ! flagged_in_branch) {
            VH_CHECK(completed == 1, "completion-not-announced", "not stopped, but completion was not announced");
            VH_CHECK(got.size() == want.size(), "wrong-solution-set", got.size() << " vs " << want.size());
        }
        else if (kind == 1 || kind == 3) {
            VH_CHECK(completed == 0, "completed-though-stopped", "the search was told to stop but completion was announced");
        }
        else if (kind == 2 || kind == 4 || kind >= 7) {
            // the flag is only polled: completion may be announced if there was nothing left to do
            VH_CHECK(completed == 0 || got.size() == want.size(), "completed-though-stopped", "completion announced with " << got.size() << " of " << want.size() << " solutions found");
        }
        if (kind == 1 && static_cast<int>(want.size()) >= k)
            VH_CHECK(sols == k, "stop-after-k-solutions", sols << " solutions reported, asked to stop at " << k << " of " << want.size());
        if (kind == 0) {
            VH_CHECK(sols == 0 && traces == 0, "ran-though-aborted", sols << " solutions and " << traces << " traces with the abort flag set throughout");
            // completion may only be announced if root propagation alone settled it
            VH_CHECK(! completed || want.empty(), "completed-though-stopped", "completion announced for a satisfiable problem with the abort flag set throughout");
        }
        c.count("kind_" + std::to_string(kind) + (stopped ? "_stopped" : "_ran"));
        if (stopped && kind != 0)
            c.nontrivial(in.describe() + std::to_string(kind) + "/" + std::to_string(k));
        c.sample(in.describe() + " kind " + std::to_string(kind) + " k " + std::to_string(k) + " solutions " + std::to_string(sols) + " of " + std::to_string(want.size()));
    }

    // branching heuristics: each choice is a partition of the variable's domain, and matches its description
    auto branch_case(Ctx & c, Rng & r) -> void
    {
        auto & f = pick_family(c);
        auto in = random_instance(r, f, random_style(r, r.chance(1, 3)), static_cast<int>(r.range(0, 2)));
        if (in.cons.empty())
            return;
        auto h = random_heur(r);
        VH_CHECK(largest_value_heuristics_exist(), "heuristic-missing", "the documented largest-value variable ordering is not defined");
        RunCfg cfg;
        cfg.heur = h;
        note(c, in, cfg);
        struct M : NodeMonitor
        {
            Ctx & c;
            Heur h;
            M(Ctx & c_, Heur h_) : c(c_), h(h_) {}
            auto wants_views() const -> bool override { return true; }
            auto closed(const vector<Guess> & g, const vector<vector<ll>> & d, const vector<Guess> & ch) -> void override
            {
                using O = VariableConditionOperator;
                bool all_fixed = true;
                for (auto & x : d)
                    all_fixed = all_fixed && x.size() == 1;
                string at = "at";
                for (auto & x : g)
                    at += " " + x.str();
                at += " ->";
                for (auto & x : ch)
                    at += " " + x.str();
                at += " domains";
                for (auto & x : d)
                    at += " {" + join(x) + "}";
                VH_CHECK(ch.empty() == all_fixed, "branch-when-done", at << (all_fixed ? " everything is fixed but it branched" : " something is unfixed but it did not branch"));
                if (ch.empty())
                    return;
                int v = ch[0].v;
                VH_CHECK(v >= 0, "branch-on-foreign-variable", at);
                for (auto & x : ch)
                    VH_CHECK(x.v == v, "branch-on-several-variables", at);
                VH_CHECK(d[v].size() > 1, "branch-on-fixed-variable", at);
                for (auto x : d[v]) {
                    int n = 0;
                    for (auto & y : ch)
                        n += y.at(x);
                    VH_CHECK(n == 1, "branch-not-a-partition", at << ": value " << x << " of x" << v << " is in " << n << " branches");
                }
                for (auto & y : ch) {
                    int n = 0;
                    for (auto x : d[v])
                        n += y.at(x);
                    VH_CHECK(n > 0 && n < static_cast<int>(d[v].size()), "useless-branch", at << ": " << y.str() << " keeps " << n << " of " << d[v].size());
                }
                c.nontrivial(vh::fnv(std::to_string(h.val) + "/" + std::to_string(h.var) + "/" + std::to_string(v) + dom_str(d)));
                c.count(h.views ? "branch_over_views" : "branch_over_variables");
                c.count("branch_var_" + std::to_string(h.var));
                c.count("branch_val_" + std::to_string(h.val));
                // which variable
                auto unfixed_best = [&](auto key) {
                    for (size_t i = 0; i < d.size(); ++i)
                        if (d[i].size() > 1)
                            VH_CHECK(key(v) <= key(i), "wrong-variable", at << " heuristic " << h.var << ": x" << v << " chosen but x" << i << " comes first");
                };
                using L = ll;
                switch (h.var) {
                case 0:
                case 1: unfixed_best([&](size_t i) { return static_cast<L>(d[i].size()); }); break;
                case 2: unfixed_best([&](size_t i) { return static_cast<L>(i); }); break;
                case 3: unfixed_best([&](size_t i) { return d[i].front(); }); break;
                case 4: unfixed_best([&](size_t i) { return -d[i].back(); }); break;
                case 10: unfixed_best([&](size_t i) { return -static_cast<L>(d[i].size()); }); break;
                default: break;
                }
                // which values
                auto & dv = d[v];
                auto only = [&](const Guess & y) {
                    vector<ll> k;
                    for (auto x : dv)
                        if (y.at(x))
                            k.push_back(x);
                    return k;
                };
                auto first = only(ch[0]);
                auto rest = vector<ll>{};
                auto two = [&](const vector<ll> & want) { VH_CHECK(ch.size() == 2 && first == want, "wrong-value-choice", at << " heuristic " << h.val); };
                auto without = [&](ll x) {
                    vector<ll> k;
                    for (auto y : dv)
                        if (y != x)
                            k.push_back(y);
                    return k;
                };
                auto each = [&](bool up) {
                    bool ok = ch.size() == dv.size();
                    for (size_t i = 0; ok && i < dv.size(); ++i)
                        ok = only(ch[i]) == vector<ll>{up ? dv[i] : dv[dv.size() - 1 - i]};
                    VH_CHECK(ok, "wrong-value-order", at << " heuristic " << h.val);
                };
                switch (h.val) {
                case 0: each(true); break;
                case 1: each(false); break;
                case 2: two({dv.front()}); break;
                case 3: two(without(dv.front())); break;
                case 4: two({dv.back()}); break;
                case 5: two(without(dv.back())); break;
                case 6: VH_CHECK(ch.size() == 2 && first.front() == dv.front(), "wrong-value-choice", at << " lower half first"); break;
                case 7: VH_CHECK(ch.size() == 2 && first.back() == dv.back(), "wrong-value-choice", at << " upper half first"); break;
                case 8: VH_CHECK(ch.size() == 2 && (first.front() == dv.front() || first.back() == dv.back()), "wrong-value-choice", at << " a half"); break;
                case 9:
                    VH_CHECK(ch.size() == dv.size() && first.size() == 1, "wrong-value-choice", at << " all values");
                    break;
                case 10: VH_CHECK(ch.size() == 2 && first.size() + 1 == dv.size(), "wrong-value-choice", at << " reject one"); break;
                case 11: VH_CHECK(ch.size() == 2, "wrong-value-choice", at << " reject an interval"); break;
                case 12: {
                    // the (or, with an even number, either) middle value
                    VH_CHECK(ch.size() == 2 && first.size() == 1 && (first[0] == dv[dv.size() / 2] || first[0] == dv[(dv.size() - 1) / 2]), "wrong-value-choice", at << " median");
                    break;
                }
                }
                if (h.val >= 6 && h.val <= 8) {
                    // the two parts are a lower and an upper part
                    auto second = only(ch[1]);
                    VH_CHECK(first.back() < second.front() || second.back() < first.front(), "split-not-a-split", at);
                }
            }
            static auto dom_str(const vector<vector<ll>> & d) -> string
            {
                string s;
                for (auto & x : d)
                    s += join(x) + ";";
                return s;
            }
        } m{c, h};
        cfg.monitor = &m;
        auto res = run_inst(in, cfg);
        c.sample(in.describe() + " " + cfg.str());
        (void) res;
    }

    // presolvers never change the solutions
    auto presolve_case(Ctx & c, Rng & r) -> void
    {
        auto sc = presolve_scenario(r, pick_family(c));
        auto & in = sc.in;
        auto & cfg = sc.cfg;
        if (in.cons.empty())
            return;
        auto & [at_stats, cs_stats, ic_stats, id_stats, dl_stats] = sc.stats;
        note(c, in, cfg.str() + sc.text);
        vector<A> want = in.all_solutions();
        tally(c, in, want);
        Sound m{c, in, want};
        if (r.chance(1, 3))
            cfg.monitor = &m;
        auto res = run_inst(in, cfg);
        check_exact(c, in, want, cfg, res);
        c.count("autotable_tuples", at_stats->tuples);
        c.count("strengthened_posted", cs_stats->donors_seen);
        c.count("cuts_posted", ic_stats->cuts_posted);
        c.count("cliques_posted", id_stats->cliques_posted);
        c.count("difference_edges_lifted", dl_stats->edges_lifted);
        if (sc.sched) { // 0: nothing certified
            // a certified makespan bound must be a true lower bound
            std::optional<ll> best;
            for (auto & a : want)
                best = best ? std::min(*best, a[sc.makespan]) : a[sc.makespan];
            if (best) {
                VH_CHECK(id_stats->certified_makespan_bound.raw_value <= std::max(*best, 0LL), "wrong-makespan-bound", id_stats->certified_makespan_bound.raw_value << " vs " << *best);
                VH_CHECK(ic_stats->certified_makespan_bound.raw_value <= std::max(*best, 0LL), "wrong-makespan-bound", ic_stats->certified_makespan_bound.raw_value << " vs " << *best);
            }
        }
    }
    // fixed models: regressions, and the known findings, each under its own name
    struct Directed
    {
        string props, name;
        vector<vector<ll>> doms;
        std::function<bool(const A &)> holds;
        std::function<void(Problem &, const Ids &)> post;
        bool auto_table = false;
    };

    auto directed_models() -> vector<Directed>
    {
        auto range = [](ll a, ll b) {
            vector<ll> v;
            for (; a <= b; ++a)
                v.push_back(a);
            return v;
        };
        vector<Directed> d;
        // known: several views of one variable make a smart table tuple cyclic
        d.push_back({"P02", "lex-smart-table-over-views-of-one-variable", {range(-1, 2), range(0, 3)},
            [](const A & a) { return vector<ll>{a[0], a[0]} > vector<ll>{a[1], -a[1] + 2}; },
            [](Problem & p, const Ids & x) { p.post(LexSmartTable{{x[0], x[0]}, {x[1], -x[1] + 2_i}}); }});
        d.push_back({"P02", "at-most-one-smart-table-over-views-of-one-variable", {range(-1, 2), range(-1, 2), range(0, 1)},
            [](const A & a) { return (a[0] == a[2]) + (-a[0] == a[2]) + (a[1] == a[2]) + (a[1] == a[2]) <= 1; },
            [](Problem & p, const Ids & x) { p.post(AtMostOneSmartTable{{x[0], -x[0] + 0_i, x[1], x[1]}, x[2]}); }});
        // regressions
        d.push_back({"P01", "linear-equality-whose-terms-cancel", {range(0, 2)}, [](const A &) { return false; },
            [](Problem & p, const Ids & x) { p.post(LinearEquality{WeightedSum{} + 1_i * x[0] + -1_i * x[0], 1_i}); }});
        d.push_back({"P01", "minimum-into-a-view-of-an-input", {range(-2, 2), range(-2, 2)},
            [](const A & a) { return std::min(a[0], a[1]) == -a[0]; },
            [](Problem & p, const Ids & x) { p.post(ArrayMin{{x[0], x[1]}, -x[0] + 0_i}); }});
        d.push_back({"P02", "all-different-vc-with-fixed", {{1}, range(1, 2), range(1, 3)},
            [](const A & a) { return a[0] != a[1] && a[0] != a[2] && a[1] != a[2]; },
            [](Problem & p, const Ids & x) { p.post(AllDifferent{{x[0], x[1], x[2]}}.with_consistency(consistency::VC{})); }});
        d.push_back({"P02", "cardinality-domain-consistent-unsorted-values", {range(0, 3), range(0, 3), range(0, 2), range(0, 2)},
            [](const A & a) { return (a[0] == 3) + (a[1] == 3) == a[2] && (a[0] == 1) + (a[1] == 1) == a[3]; },
            [](Problem & p, const Ids & x) { p.post(GlobalCardinality{{x[0], x[1]}, {3_i, 1_i}, {x[2], x[3]}}.with_consistency(consistency::GAC{})); }});
        d.push_back({"P03", "smart-table-over-views", {range(0, 3), range(0, 3)}, [](const A & a) { return a[0] + 1 <= a[1] + 2; },
            [](Problem & p, const Ids & x) {
                SmartTuples t;
                t.push_back({SmartTable::less_than_equal(x[0] + 1_i, x[1] + 2_i)});
                p.post(SmartTable{{x[0] + 1_i, x[1] + 2_i}, t});
            }});
        d.push_back({"P05", "watches-and-idempotence-claims", {{0}, {1, 2}, range(-1, 3)},
            [](const A & a) { return a[1] - a[2] == 1 && ! (a[1] == 1 && a[2] == 0); },
            [](Problem & p, const Ids & x) {
                p.post(NegativeTable{{x[1], x[2]}, SimpleTuples{{1_i, 0_i}}});
                p.post(LinearEquality{WeightedSum{} + 1_i * x[1] + -1_i * x[2], 1_i});
            }});
        d.push_back({"P08", "auto-table-and-negative-table", {range(0, 2), range(0, 2), range(0, 2)},
            [](const A & a) { return ! (a[0] == 0 && a[1] == 1) && ! (a[1] == 2 && a[2] == 2); },
            [](Problem & p, const Ids & x) {
                p.post(NegativeTable{{x[0], x[1]}, SimpleTuples{{0_i, 1_i}}});
                p.post(NegativeTable{{x[1], x[2]}, SimpleTuples{{2_i, 2_i}}});
            }, true});
        return d;
    }

    auto directed_case(Ctx & c, Rng & r) -> void
    {
        static const auto models = directed_models();
        vector<const Directed *> mine;
        for (auto & m : models)
            if (m.props == c.family)
                mine.push_back(&m);
        auto & d = *mine[c.current_case % mine.size()];
        Inst in;
        in.doms = d.doms;
        for (auto & x : d.doms)
            in.size *= static_cast<double>(x.size());
        Con k;
        k.fam = d.name;
        k.desc = "fixed model";
        k.holds = d.holds;
        k.post = d.post;
        in.cons.push_back(k);
        auto cfg = random_cfg(r, false);
        if (d.auto_table)
            cfg.extra = [](Problem & p, const Ids & x) { p.add_presolver(AutoTable{{x[0], x[1]}, nullptr}); };
        note(c, in, cfg);
        auto want = in.all_solutions();
        c.nontrivial(d.name);
        auto res = run_inst(in, cfg);
        auto diff = compare_solutions(want, res.sols);
        VH_CHECK(diff.empty(), "directed:" + d.name, diff);
    }
}

int main(int argc, char * argv[])
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        try {
        if (c.mode == "exact")
            exact_case(c, r);
        else if (c.mode == "conj")
            conj_case(c, r);
        else if (c.mode == "opt")
            opt_case(c, r);
        else if (c.mode == "config")
            config_case(c, r);
        else if (c.mode == "sound")
            sound_case(c, r);
        else if (c.mode == "consistency")
            consistency_case(c, r);
        else if (c.mode == "stats")
            stats_case(c, r);
        else if (c.mode == "restarts")
            restarts_case(c, r);
        else if (c.mode == "determinism")
            determinism_case(c, r);
        else if (c.mode == "determinism-child")
            determinism_child(c, r);
        else if (c.mode == "callbacks")
            callbacks_case(c, r);
        else if (c.mode == "branch")
            branch_case(c, r);
        else if (c.mode == "directed")
            directed_case(c, r);
        else if (c.mode == "presolve")
            presolve_case(c, r);
        else {
            std::cerr << "unknown mode " << c.mode << "\n";
            std::exit(2);
        }
        }
        catch (const InvalidProblemDefinitionException & e) {
            // some constraints document that the same variable may not be given twice
            if (string{e.what()}.find("same variable handle") == string::npos && string{e.what()}.find("same underlying variable handle") == string::npos)
                throw;
            if (! the_instance_is_aliased)
                throw;
            c.count("rejected_as_documented");
        }
    });
}

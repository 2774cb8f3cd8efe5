// P36: a solve leaves its problem, the constraints it was made from, and every other solve alone. The same problem is
// solved again and again with constraints added in between, inside callbacks of its own solve, and problems made from
// the same constraint objects are solved on several threads at once.
#include "scenario.hh"
#include <mutex>
#include <thread>

using namespace gcs;
using namespace eng;
using vh::Ctx;
using vh::join;

namespace
{
    vector<const Family *> the_families;

    struct Stop
    {
    };

    // how one solve is run, and stopped
    struct How
    {
        Heur heur;
        bool own_default = false;
        int cut = 0; // 0 full, 1 solution returns false, 2 trace returns false, 3 throw from solution, 4 throw from trace, 5 throw from branch, 6 flag set before, 7 flag set in solution, 8 throw from after_proof_started
        int at = 1;
        bool proof = false;
        auto str() const -> string { return heur.str() + (own_default ? " own" : "") + (cut ? " cut " + std::to_string(cut) + "@" + std::to_string(at) : "") + (proof ? " proof" : ""); }
    };
    auto random_how(Rng & r, bool may_cut) -> How
    {
        How h;
        h.heur = random_heur(r);
        h.own_default = r.chance(1, 5);
        if (may_cut && r.chance(1, 2)) {
            h.cut = static_cast<int>(r.range(1, 8));
            h.at = static_cast<int>(r.range(1, 4));
        }
        h.proof = r.chance(1, 6);
        return h;
    }

    struct Out
    {
        vector<A> sols;
        bool completed = false, thrown = false, too_long = false;
        Stats stats;
    };

    auto run(Problem & p, const Ids & ids, const How & h, const string & proof_name, const std::function<void(int)> & inside = {}) -> Out
    {
        Out o;
        std::atomic<bool> abort{h.cut == 6};
        int sols = 0, traces = 0, nodes = 0, events = 0;
        SolveCallbacks cb;
        cb.stats_report = silent_stats_report();
        cb.solution = [&](const CurrentState & s) -> bool {
            o.sols.push_back(values_at(s, ids));
            if (inside)
                inside(events++);
            ++sols;
            if (h.cut == 3 && sols == h.at)
                throw Stop{};
            if (h.cut == 7 && sols == h.at)
                abort = true;
            return ! (h.cut == 1 && sols == h.at);
        };
        cb.trace = [&](const CurrentState &) -> bool {
            ++traces;
            if (inside)
                inside(events++);
            if (h.cut == 4 && traces == h.at)
                throw Stop{};
            return ! (h.cut == 2 && traces == h.at);
        };
        cb.completed = [&] { o.completed = true; };
        if (h.cut == 8)
            cb.after_proof_started = [](const CurrentState &) { throw Stop{}; };
        if (! h.own_default || h.cut == 5) {
            auto inner = make_branch(h.heur, ids);
            cb.branch = [&, inner](const Problem & pr, innards::State & st, innards::Propagators & pp) -> BranchCallback {
                auto f = inner(pr, st, pp);
                return [&, f](const CurrentState & s, const innards::Propagators & q) {
                    if (++nodes > 100000)
                        abort = true, o.too_long = true;
                    if (h.cut == 5 && nodes == h.at)
                        throw Stop{};
                    return f(s, q);
                };
            };
        }
        try {
            o.stats = solve_with(p, cb, h.proof ? std::optional<ProofOptions>{ProofOptions{proof_name}} : std::nullopt, &abort);
        }
        catch (const Stop &) {
            o.thrown = true;
        }
        catch (const UnimplementedException &) {
            // no proof of this; solve it without
            auto h2 = h;
            h2.proof = false;
            return run(p, ids, h2, proof_name, inside);
        }
        return o;
    }

    auto provable(const Inst & in) -> bool { return std::none_of(in.cons.begin(), in.cons.end(), fragile); }

    auto judge(const string & key, const Inst & in, const vector<A> & want, const How & h, const Out & o) -> void
    {
        if (o.too_long)
            return;
        if (0 == h.cut) {
            VH_CHECK(o.completed, key + "-not-complete", h.str());
            auto d = compare_solutions(want, o.sols);
            VH_CHECK(d.empty(), key + "-wrong-solutions", h.str() << ": " << d << " in " << in.describe());
        }
        else
            for (auto & s : o.sols)
                VH_CHECK(std::binary_search(want.begin(), want.end(), s), key + "-not-a-solution", h.str() << ": " << show(s) << " in " << in.describe());
    }

    // the expected solutions, each as often as it has witnesses
    auto wanted(const Inst & in) -> vector<A>
    {
        return in.all_solutions();
    }

    auto make_instance(Ctx &, Rng & r, int extra) -> Inst
    {
        if (r.chance(1, 8))
            return rcpsp(r);
        auto & f = *the_families[static_cast<size_t>(r.range(0, static_cast<ll>(the_families.size()) - 1))];
        auto st = random_style(r, r.chance(1, 2));
        st.budget = std::min(st.budget, 500.0);
        return random_instance(r, f, st, extra);
    }

    auto make_variables(const Inst & in, Problem & p) -> Ids
    {
        Inst v;
        v.doms = in.doms;
        return build(v, p);
    }

    // solves of one problem, one after another, with constraints arriving in between
    auto repeat_case(Ctx & c, Rng & r) -> void
    {
        auto in = make_instance(c, r, static_cast<int>(r.range(0, 3)));
        if (in.cons.empty())
            return;
        bool presolve = r.chance(1, 4);
        std::function<void(Problem &, const Ids &)> extra;
        if (presolve) {
            auto sc = presolve_scenario(r, *the_families[static_cast<size_t>(r.range(0, static_cast<ll>(the_families.size()) - 1))]);
            if (! sc.in.cons.empty()) {
                in = sc.in;
                extra = sc.cfg.extra;
            }
        }
        // a second problem of the same constraint objects, to be solved in turns with the first
        int problems = r.chance(1, 3) ? 2 : 1;
        c.describe(in.describe() + (presolve ? " presolved" : ""));
        bool proofs = provable(in) && ! presolve;
        vector<std::unique_ptr<Problem>> ps;
        vector<Ids> ids;
        for (int i = 0; i < problems; ++i) {
            ps.push_back(std::make_unique<Problem>());
            ids.push_back(make_variables(in, *ps.back()));
        }
        vector<std::unique_ptr<Constraint>> objects;
        size_t posted = 0;
        Inst sofar;
        sofar.doms = in.doms;
        sofar.size = in.size;
        int episodes = static_cast<int>(r.range(2, 4));
        string log;
        bool extra_given = false;
        for (int e = 0; e < episodes; ++e) {
            // some more constraints; all of them by the last episode
            size_t upto = e == episodes - 1 ? in.cons.size() : static_cast<size_t>(r.range(static_cast<ll>(posted), static_cast<ll>(in.cons.size())));
            for (; posted < upto; ++posted) {
                auto & k = in.cons[posted];
                if (k.make) {
                    objects.push_back(k.make(ids[0]));
                    for (auto & p : ps)
                        p->post(*objects.back());
                    if (r.chance(1, 2))
                        objects.back().reset(); // the problem has its own
                }
                else
                    for (size_t i = 0; i < ps.size(); ++i)
                        k.post(*ps[i], ids[i]);
                sofar.cons.push_back(k);
                log += " post";
            }
            if (extra && ! extra_given && e > 0) {
                for (size_t i = 0; i < ps.size(); ++i)
                    extra(*ps[i], ids[i]);
                extra_given = true;
                log += " presolvers";
            }
            auto want = wanted(sofar);
            int solves = static_cast<int>(r.range(1, 3));
            for (int s = 0; s < solves; ++s) {
                auto i = static_cast<size_t>(r.range(0, problems - 1));
                auto h = random_how(r, true);
                h.proof = h.proof && proofs;
                log += " [" + h.str() + "]";
                c.describe(in.describe() + log);
                auto o = run(*ps[i], ids[i], h, c.tmp + "/m");
                judge("again", sofar, want, h, o);
                c.count(h.cut ? "cut_solves" : "full_solves");
                c.count("thrown", o.thrown);
                c.evaluations++;
                if (! want.empty() && static_cast<double>(want.size()) < in.size)
                    c.nontrivial(in.describe() + log);
            }
            // sometimes one problem goes away
            if (problems == 2 && r.chance(1, 6)) {
                ps.erase(ps.begin());
                ids.erase(ids.begin());
                problems = 1;
                log += " destroy";
            }
        }
        // objectives, each replacing the one before
        auto want = wanted(sofar);
        for (ll k = ! in.doms.empty() && r.chance(1, 2) ? r.range(1, 3) : 0; k > 0; --k) {
            Op o;
            o.v = static_cast<int>(r.range(0, static_cast<ll>(in.doms.size()) - 1));
            if (r.chance(1, 3))
                o.neg = r.chance(1, 2), o.add = r.range(-3, 3);
            bool maximise = r.chance(1, 2);
            for (size_t i = 0; i < ps.size(); ++i)
                if (maximise)
                    ps[i]->maximise(o.id(ids[i]));
                else
                    ps[i]->minimise(o.id(ids[i]));
            auto i = static_cast<size_t>(r.range(0, problems - 1));
            for (ll again = r.range(1, 2); again > 0; --again) {
                auto h = random_how(r, true);
                h.proof = h.proof && proofs;
                log += (maximise ? " max " : " min ") + o.str() + " [" + h.str() + "]";
                c.describe(in.describe() + log);
                auto out = run(*ps[i], ids[i], h, c.tmp + "/m");
                if (out.too_long)
                    continue;
                auto cost = [&](const A & a) { return maximise ? -o.at(a) : o.at(a); };
                for (size_t s = 0; s < out.sols.size(); ++s) {
                    VH_CHECK(std::binary_search(want.begin(), want.end(), out.sols[s]), "again-not-a-solution", h.str() << ": " << show(out.sols[s]) << " in " << in.describe());
                    if (s)
                        VH_CHECK(cost(out.sols[s]) < cost(out.sols[s - 1]), "again-not-improving", show(out.sols[s]) << " after " << show(out.sols[s - 1]) << " in " << in.describe() << log);
                }
                if (0 == h.cut) {
                    VH_CHECK(out.completed, "again-not-complete", h.str());
                    VH_CHECK(out.sols.empty() == want.empty(), "again-optimum-missed", out.sols.size() << " incumbents, " << want.size() << " solutions in " << in.describe() << log);
                    for (auto & a : want)
                        VH_CHECK(cost(out.sols.back()) <= cost(a), "again-optimum-missed", show(out.sols.back()) << " is worse than " << show(a) << " in " << in.describe() << log);
                }
                c.count("optimisations");
            }
        }
        c.sample(in.describe() + log);
    }

    // a solve inside the callbacks of another
    auto nested_case(Ctx & c, Rng & r) -> void
    {
        auto in = make_instance(c, r, static_cast<int>(r.range(0, 2)));
        if (in.cons.empty())
            return;
        auto want = wanted(in);
        Problem p, q;
        auto ids = make_variables(in, p);
        auto jds = make_variables(in, q);
        vector<std::unique_ptr<Constraint>> objects;
        for (auto & k : in.cons)
            if (k.make) {
                objects.push_back(k.make(ids));
                p.post(*objects.back());
                q.post(*objects.back());
            }
            else {
                k.post(p, ids);
                k.post(q, jds);
            }
        auto ho = random_how(r, false), hi = random_how(r, true);
        bool proofs = provable(in);
        ho.proof = ho.proof && proofs;
        hi.proof = hi.proof && proofs;
        int at = static_cast<int>(r.range(0, 3)), every = static_cast<int>(r.range(1, 9));
        bool same = r.chance(1, 2);
        c.describe(in.describe() + " outer " + ho.str() + " inner " + hi.str() + " at " + std::to_string(at) + (same ? " same problem" : " twin"));
        auto alone = run(p, ids, ho, c.tmp + "/o");
        judge("alone", in, want, ho, alone);
        int inner = 0;
        auto nested = run(p, ids, ho, c.tmp + "/o", [&](int ev) {
            if (inner >= 4 || ev < at || (ev - at) % every)
                return;
            ++inner;
            auto o = run(same ? p : q, same ? ids : jds, hi, c.tmp + "/i");
            judge("inner", in, want, hi, o);
        });
        judge("outer", in, want, ho, nested);
        VH_CHECK(alone.sols == nested.sols, "outer-order-changed", "solutions came in another order with a solve inside its callbacks");
        VH_CHECK(alone.stats.recursions == nested.stats.recursions && alone.stats.propagations == nested.stats.propagations && alone.stats.failures == nested.stats.failures,
            "outer-search-changed", "nodes " << alone.stats.recursions << " vs " << nested.stats.recursions << ", propagations " << alone.stats.propagations << " vs " << nested.stats.propagations);
        c.evaluations += 3;
        c.count("inner_solves", inner);
        if (inner && ! want.empty() && static_cast<double>(want.size()) < in.size)
            c.nontrivial(in.describe() + ho.str() + hi.str() + std::to_string(at) + (same ? "s" : "t"));
        c.sample(in.describe() + " inner solves " + std::to_string(inner));
    }

    // several threads, a problem each, made of the same constraint objects
    auto threads_case(Ctx & c, Rng & r) -> void
    {
        auto n = static_cast<size_t>(r.range(2, 4));
        bool shared = r.chance(2, 3), early = r.chance(1, 2), flags = r.chance(1, 4);
        struct Job
        {
            Inst in;
            vector<A> want;
            std::function<void(Problem &, const Ids &)> extra;
            Problem p;
            Ids ids;
            How h;
            vector<Out> out;
            string error;
            std::atomic<bool> abort{false};
        };
        vector<std::unique_ptr<Job>> js;
        vector<std::unique_ptr<Constraint>> objects;
        auto base = make_instance(c, r, static_cast<int>(r.range(0, 2)));
        if (base.cons.empty())
            return;
        string text;
        bool presolved = ! shared && r.chance(1, 3);
        for (size_t i = 0; i < n; ++i) {
            js.push_back(std::make_unique<Job>());
            auto & j = *js.back();
            if (shared)
                j.in = base;
            else if (presolved) {
                auto sc = presolve_scenario(r, *the_families[static_cast<size_t>(r.range(0, static_cast<ll>(the_families.size()) - 1))]);
                j.in = sc.in;
                j.extra = sc.cfg.extra;
            }
            else
                j.in = make_instance(c, r, static_cast<int>(r.range(0, 2)));
            j.want = j.in.all_solutions();
            j.h = random_how(r, false);
            j.h.proof = j.h.proof && ! presolved && provable(j.in);
            text += j.in.describe() + " " + j.h.str() + "; ";
        }
        if (shared) {
            for (auto & j : js)
                j->ids = make_variables(j->in, j->p);
            for (auto & k : base.cons)
                if (k.make) {
                    objects.push_back(k.make(js[0]->ids));
                    if (early)
                        for (auto & j : js)
                            j->p.post(*objects.back());
                }
                else
                    for (auto & j : js)
                        k.post(j->p, j->ids);
        }
        c.describe(text + (shared ? " shared" : "") + (early ? " early" : "") + (flags ? " flags" : ""));
        std::atomic<size_t> ready{0};
        int rounds = static_cast<int>(r.range(1, 3));
        vector<std::thread> ts;
        for (size_t i = 0; i < n; ++i)
            ts.emplace_back([&, i] {
                auto & j = *js[i];
                ++ready;
                while (ready < n)
                    std::this_thread::yield();
                try {
                    if (! shared) {
                        j.ids = build(j.in, j.p);
                        if (j.extra)
                            j.extra(j.p, j.ids);
                    }
                    else if (! early)
                        for (auto & o : objects)
                            j.p.post(*o);
                    for (int k = 0; k < rounds; ++k) {
                        if (! flags)
                            j.out.push_back(run(j.p, j.ids, j.h, c.tmp + "/t" + std::to_string(i)));
                        else {
                            Out o;
                            SolveCallbacks cb;
                            cb.stats_report = silent_stats_report();
                            cb.branch = make_branch(j.h.heur, j.ids);
                            cb.solution = [&](const CurrentState & s) -> bool {
                                o.sols.push_back(values_at(s, j.ids));
                                return true;
                            };
                            cb.completed = [&] { o.completed = true; };
                            o.stats = solve_with(j.p, cb, std::nullopt, &j.abort);
                            j.out.push_back(std::move(o));
                        }
                    }
                }
                catch (const InvalidProblemDefinitionException & e) {
                    if (string{e.what()}.find("variable handle") == string::npos)
                        j.error = e.what();
                }
                catch (const std::exception & e) {
                    j.error = e.what();
                }
            });
        if (flags) {
            // stops arriving from outside at no particular moment
            auto spins = r.range(0, 3000);
            for (ll s = 0; s < spins; ++s)
                std::this_thread::yield();
            for (auto & j : js)
                j->abort = true;
        }
        for (auto & t : ts)
            t.join();
        for (auto & j : js) {
            VH_CHECK(j->error.empty(), "thread-threw", j->error << " in " << j->in.describe());
            for (auto & o : j->out) {
                if (! flags)
                    judge("threaded", j->in, j->want, j->h, o);
                else {
                    c.count(o.completed ? "completed_before_flag" : "stopped_by_flag");
                    for (auto & s : o.sols)
                        VH_CHECK(std::binary_search(j->want.begin(), j->want.end(), s), "threaded-not-a-solution", show(s) << " in " << j->in.describe());
                    if (o.completed)
                        VH_CHECK(compare_solutions(j->want, o.sols).empty(), "complete-with-solutions-missing", o.sols.size() << " of " << j->want.size() << " in " << j->in.describe());
                }
                c.evaluations++;
                c.count("threaded_solves");
            }
        }
        c.nontrivial(text + std::to_string(early) + std::to_string(flags));
        c.sample(text);
    }
}

auto main(int argc, char ** argv) -> int
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (the_families.empty())
            the_families = families_of(c.family);
        try {
            if (c.mode == "repeat")
                repeat_case(c, r);
            else if (c.mode == "nested")
                nested_case(c, r);
            else if (c.mode == "threads")
                threads_case(c, r);
            else {
                std::cerr << "unknown mode " << c.mode << "\n";
                std::exit(2);
            }
        }
        catch (const InvalidProblemDefinitionException & e) {
            if (string{e.what()}.find("variable handle") == string::npos)
                throw;
            c.count("rejected_as_documented");
        }
    });
}

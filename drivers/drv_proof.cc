// Monitors over the proof logs and the pseudo-Boolean models: every proof the
// solver writes is replayed by an independent checker (pbcheck), the model it
// is about is compared, assignment by assignment, with the constraints'
// meanings, and the proof's own account of the search with what was reported.
#include "pbcheck.hh"
#include "scenario.hh"
#include <fstream>
#include <gcs/innards/proofs/proof_error.hh>
#include <nlohmann/json.hpp>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace gcs;
using namespace eng;
using vh::Ctx;
using vh::join;
using std::pair;

namespace
{
    vector<const Family *> the_families;
    bool the_instance_is_aliased = false;

    auto pick_family(Ctx & c) -> const Family &
    {
        if (the_families.empty())
            the_families = families_of(c.family);
        return *the_families[c.current_case % the_families.size()];
    }

    auto slurp(const string & f) -> string
    {
        std::ifstream i{f, std::ios::binary};
        std::ostringstream o;
        o << i.rdbuf();
        return o.str();
    }

    struct Opts
    {
        bool compact = false, full = false, verbose = true;
        auto make(const string & base) const -> ProofOptions
        {
            ProofOptions o{base};
            o.set_compact_boolean_encoding(compact);
            o.enable_full_encoding(full);
            o.set_verbose_names(verbose);
            return o;
        }
        auto str() const -> string { return string(" proof") + (compact ? " compact" : "") + (full ? " full" : "") + (verbose ? "" : " terse"); }
    };
    auto random_opts(Rng & r) -> Opts
    {
        Opts o;
        o.compact = r.chance(1, 4);
        o.full = r.chance(1, 5);
        o.verbose = ! r.chance(1, 5);
        return o;
    }

    auto remove_proof(const string & base) -> void
    {
        for (auto s : {".opb", ".pbp", ".varmap", ".scp"})
            std::remove((base + s).c_str());
    }

    // where each base variable's bits are, from the variables map file
    struct Bits
    {
        struct Bit
        {
            int var;
            ll weight;
        };
        vector<vector<Bit>> of; // by base variable
        auto value(size_t i, const std::function<int(int)> & val) const -> std::optional<ll>
        {
            ll v = 0;
            for (auto & b : of[i]) {
                int x = val(b.var);
                if (x < 0)
                    return std::nullopt;
                if (x)
                    v += b.weight;
            }
            return v;
        }
    };
    auto read_bits(const string & file, pbc::Formula & f, size_t n) -> Bits
    {
        Bits b;
        b.of.resize(n);
        auto j = nlohmann::json::parse(slurp(file));
        for (auto & [name, d] : j.items()) {
            if (d.value("cpvartype", "") != "intvar" || ! d.contains("cpvarid"))
                continue;
            auto type = d.value("type", "");
            if (type != "intvarbit" && type != "intvarnegbit")
                continue;
            auto id = d["cpvarid"].get<size_t>();
            if (id >= n)
                continue;
            ll p = d["power"].is_string() ? std::stoll(d["power"].get<string>()) : d["power"].get<ll>();
            b.of[id].push_back({f.names.var(name), type == "intvarbit" ? 1ll << p : p});
        }
        return b;
    }

    // the literals that give base variable i the value x; nothing if no bit pattern does
    auto pattern(const Bits & b, size_t i, ll x, vector<int> & lits) -> bool
    {
        auto bits = b.of[i];
        std::sort(bits.begin(), bits.end(), [](auto & p, auto & q) { return p.weight > q.weight; });
        bool neg = ! bits.empty() && bits.back().weight < 0;
        __int128 rest = x;
        if (neg && x < 0)
            rest -= bits.back().weight;
        if (neg)
            lits.push_back(2 * bits.back().var + (x < 0 ? 0 : 1));
        for (auto & k : bits)
            if (k.weight > 0) {
                bool on = rest >= k.weight;
                if (on)
                    rest -= k.weight;
                lits.push_back(2 * k.var + (on ? 0 : 1));
            }
        return rest == 0;
    }

    auto note(Ctx & c, const Inst & in, const string & how) -> void
    {
        the_instance_is_aliased = std::any_of(in.cons.begin(), in.cons.end(), [](const Con & k) { return k.aliased; });
        c.describe(in.describe() + " || " + how);
    }

    auto base_of(Ctx & c) -> string { return c.tmp + "/p"; }

    auto no_proof_support(const std::exception & e) -> bool { return dynamic_cast<const UnimplementedException *>(&e) != nullptr; }

    // one random situation, any family, with search configuration, objective and presolvers
    struct Situation
    {
        Inst in;
        RunCfg cfg;
        string text;
        bool proof_budget = false;
    };
    auto situation(Ctx & c, Rng & r, double budget) -> Situation
    {
        Situation s;
        if (r.chance(1, 6)) {
            auto sc = presolve_scenario(r, pick_family(c), true);
            s.in = std::move(sc.in);
            s.cfg = sc.cfg;
            s.text = sc.text;
            s.proof_budget = (sc.which == 2 || sc.which == 5) && (sc.limits.dp >= 0 || sc.limits.raise >= 0);
        }
        else {
            auto st = random_style(r, r.chance(1, 2));
            st.budget = budget;
            s.in = random_instance(r, pick_family(c), st, r.chance(1, 2) ? 0 : static_cast<int>(r.range(1, 3)));
            s.cfg = random_cfg(r, r.chance(1, 4));
        }
        std::erase_if(s.in.cons, fragile);
        s.cfg.order.reset();
        if (s.in.cons.empty() || s.in.doms.empty())
            return s;
        if (r.chance(1, 4)) {
            Op o;
            o.v = static_cast<int>(r.range(0, static_cast<ll>(s.in.doms.size()) - 1));
            if (r.chance(1, 4))
                o.neg = r.chance(1, 2), o.add = r.range(-3, 3);
            s.cfg.objective = o;
            s.cfg.maximise = r.chance(1, 2);
        }
        if (r.chance(1, 8))
            s.cfg.stop_after = static_cast<int>(r.range(1, 3));
        return s;
    }

    // one run with a proof, judged: what is wrong with it, if anything
    struct Verdict
    {
        bool unsupported = false, too_big = false, several_witnesses = false;
        string key, what;
        string proof;
        size_t rows = 0;
        pbc::Result pr;
    };
    auto judge_proof(Ctx & c, const Inst & in, RunCfg cfg, const Opts & o) -> Verdict
    {
        Verdict v;
        auto base = base_of(c);
        remove_proof(base);
        cfg.proof = o.make(base);
        cfg.max_nodes = 400;
        try {
            auto res = run_inst(in, cfg);
            for (auto & k : in.cons)
                if (k.witnesses)
                    for (auto & a : res.sols)
                        v.several_witnesses = v.several_witnesses || k.witnesses(a) > 1;
        }
        catch (const UnimplementedException &) {
            v.unsupported = true;
            return v;
        }
        pbc::Formula f;
        try {
            f = pbc::read_opb(slurp(base + ".opb"));
        }
        catch (const pbc::Error & e) {
            v.key = "malformed-model";
            v.what = e.what;
            return v;
        }
        v.rows = f.rows.size();
        pbc::Options po;
        po.strict_solutions = false;
        v.proof = slurp(base + ".pbp");
        v.pr = pbc::check(f, v.proof, po);
        v.too_big = v.pr.too_big;
        if (v.too_big)
            return v;
        if (! v.pr.error.empty()) {
            v.key = "proof-rejected";
            v.what = v.pr.error;
        }
        else if (! v.pr.open_solution.empty()) {
            v.key = "solution-not-settled";
            v.what = v.pr.open_solution;
        }
        return v;
    }

    // every step of the proof is justified
    auto proof_case(Ctx & c, Rng & r) -> void
    {
        auto s = situation(c, r, 150);
        auto & in = s.in;
        if (in.cons.empty() || in.doms.empty())
            return;
        auto & cfg = s.cfg;
        auto o = random_opts(r);
        note(c, in, cfg.str() + s.text + o.str());
        auto v = judge_proof(c, in, cfg, o);
        if (v.unsupported) {
            c.count("no_proof_support");
            return;
        }
        for (auto & k : in.cons)
            c.count("family_" + k.fam);
        for (auto & [k, n] : v.pr.rules)
            c.count("step_" + k, n);
        c.count("steps", v.pr.steps);
        c.count("conclusion_" + v.pr.conclusion);
        if (v.too_big) {
            c.count("too_big");
            return;
        }
        c.evaluations += v.pr.steps;
        // which of several equally good table rows or paths a solution uses is
        // left open by design (one fixed model reports it)
        if (v.key == "solution-not-settled" && v.several_witnesses) {
            c.count("solutions_with_several_witnesses");
            v.key.clear();
        }
        if (! v.key.empty()) {
            // which constraint is it about? does one do it alone?
            string fam, also;
            for (auto & k : in.cons) {
                Inst one = in;
                one.cons = {k};
                RunCfg oc = cfg;
                oc.order.reset();
                try {
                    auto w = judge_proof(c, one, oc, o);
                    if (w.key == v.key) {
                        fam = k.fam;
                        also = "\nalone: " + k.desc + ": " + w.what;
                        break;
                    }
                }
                catch (const std::exception & e) {
                    also += string{"\nalone, "} + k.desc + " throws " + e.what();
                }
            }
            if (fam.empty()) {
                fam = "";
                for (auto & k : in.cons)
                    fam += (fam.empty() ? "" : "+") + k.fam;
            }
            judge_proof(c, in, cfg, o); // for the files
            throw vh::Violation(v.key + ":" + fam, v.what + also);
        }
        c.count("proofs_accepted");
        if (v.pr.steps > 6)
            c.nontrivial(vh::fnv(v.proof));
        c.sample(in.describe() + ": " + std::to_string(v.rows) + " model rows, " + std::to_string(v.pr.steps) + " steps, " + v.pr.conclusion);
        remove_proof(base_of(c));
    }

    // The model file says what the constraints say: fixing the bits of the
    // base variables to any pattern leaves it satisfiable exactly when the
    // pattern is an assignment within the domains that satisfies every constraint.
    auto model_case(Ctx & c, Rng & r) -> void
    {
        auto s = situation(c, r, 90);
        auto & in = s.in;
        if (in.cons.empty() || in.doms.empty())
            return;
        auto & cfg = s.cfg;
        cfg.max_nodes = 1;
        cfg.stop_after = 0;
        auto o = random_opts(r);
        note(c, in, cfg.str() + s.text + o.str());
        auto base = base_of(c);
        remove_proof(base);
        cfg.proof = o.make(base);
        try {
            run_inst(in, cfg);
        }
        catch (const UnimplementedException &) {
            c.count("no_proof_support");
            return;
        }
        pbc::Formula f;
        try {
            f = pbc::read_opb(slurp(base + ".opb"));
        }
        catch (const pbc::Error & e) {
            throw vh::Violation("malformed-model", e.what);
        }
        auto bits = read_bits(base + ".varmap", f, in.doms.size());
        for (auto & k : in.cons)
            c.count("family_" + k.fam);
        VH_CHECK(f.has_objective == cfg.objective.has_value(), "objective-row", f.has_objective ? "an objective in the model file of a satisfaction problem" : "no objective in the model file");
        VH_CHECK(f.has_preserved, "preserved-row", "the model file does not say which variables count");
        std::set<int> kept{f.preserved.begin(), f.preserved.end()};
        for (size_t i = 0; i < in.doms.size(); ++i)
            for (auto & b : bits.of[i])
                VH_CHECK(kept.contains(b.var), "preserved-row", "bit " + f.names.names[b.var] + " of x" + std::to_string(i) + " is not preserved");
        pbc::Engine e;
        e.need_vars(static_cast<int>(f.names.names.size()));
        for (auto & row : f.rows)
            e.add(row, true);
        e.settle();
        auto show_pattern = [&](const A & a) { return "(" + join(a) + ")"; };
        string fams;
        for (auto & k : in.cons)
            fams += (fams.empty() ? "" : "+") + k.fam;
        ll yes = 0, no = 0, outside = 0;
        std::optional<__int128> shift;
        auto judge = [&](const A & a, bool want, bool inside) {
            vector<int> lits;
            for (size_t i = 0; i < a.size(); ++i)
                if (! pattern(bits, i, a[i], lits)) {
                    VH_CHECK(! inside, "value-without-a-pattern:" + fams, "x" + std::to_string(i) + " = " + std::to_string(a[i]) + " cannot be written in the model file's bits");
                    return;
                }
            long budget = 20000;
            auto got = pbc::satisfiable(f, e, lits, budget);
            if (! got) {
                c.count("gave_up");
                return;
            }
            ++c.evaluations;
            if (! inside)
                ++outside;
            else
                ++(want ? yes : no);
            if (*got != want) {
                string who = fams;
                if (! want)
                    for (auto & k : in.cons)
                        if (inside && ! k.holds(a))
                            who = k.fam;
                throw vh::Violation(string{want ? "model-loses-a-solution:" : inside ? "model-admits-a-non-solution:" : "model-admits-a-value-outside-its-domain:"} + who,
                    show_pattern(a) + (want ? " satisfies every constraint, but the model file says otherwise" : " is no solution, but the model file says it is one"));
            }
            if (f.has_objective && want) {
                auto m = e.mark();
                bool ok = true;
                for (auto l : lits)
                    ok = ok && e.assume(l);
                ok = ok && e.settle();
                __int128 v = 0;
                for (auto & t : f.objective) {
                    VH_CHECK(ok && e.val[t.lit >> 1] >= 0, "objective-row", "the objective mentions " + f.names.names[t.lit >> 1] + ", left open by " + show_pattern(a));
                    if (e.is_true(t.lit))
                        v += t.c;
                }
                e.undo(m);
                __int128 w = cfg.objective->at(a);
                if (cfg.maximise)
                    w = -w;
                if (! shift)
                    shift = v - w;
                VH_CHECK(*shift == v - w, "objective-row", "the objective row does not follow the objective at " + show_pattern(a));
            }
        };
        in.each([&](const A & a) { judge(a, in.ok(a), true); });
        // patterns outside the domains: start from a member, move one variable
        for (int tries = 0; tries < 40; ++tries) {
            A a;
            for (auto & d : in.doms)
                a.push_back(r.pick(d));
            auto i = static_cast<size_t>(r.range(0, static_cast<ll>(a.size()) - 1));
            auto & d = in.doms[i];
            a[i] = r.range(d.front() - 4, d.back() + 4);
            if (std::binary_search(d.begin(), d.end(), a[i]))
                continue;
            judge(a, false, false);
        }
        c.count("assignments_yes", yes);
        c.count("assignments_no", no);
        c.count("patterns_outside_domains", outside);
        if (yes && no)
            c.nontrivial(vh::fnv(in.describe()));
        c.sample(in.describe() + ": " + std::to_string(f.rows.size()) + " rows, " + std::to_string(yes) + " satisfiable and " + std::to_string(no) + " unsatisfiable assignments, " + std::to_string(outside) + " outside the domains");
        remove_proof(base);
    }

    // The proof tells the story of the search that was run, and writing it changes nothing.
    auto account_case(Ctx & c, Rng & r) -> void
    {
        auto s = situation(c, r, 90);
        auto & in = s.in;
        if (in.cons.empty() || in.doms.empty())
            return;
        auto & cfg = s.cfg;
        cfg.max_nodes = 400;
        auto o = random_opts(r);
        static const vector<pair<AssertionLevel, string>> levels{{AssertionLevel::Off, "off"}, {AssertionLevel::Definitions, "definitions"}, {AssertionLevel::Links, "links"}, {AssertionLevel::Inferences, "inferences"}, {AssertionLevel::Backtracking, "backtracking"}};
        auto & [level, level_name] = levels[static_cast<size_t>(r.chance(1, 3) ? 0 : r.range(1, 4))];
        note(c, in, cfg.str() + s.text + o.str() + " level " + level_name);
        auto base = base_of(c);
        auto plain = run_inst(in, cfg);
        RunRes logged;
        string first_proof, first_model;
        for (int round = 0; round < 2; ++round) {
            remove_proof(base);
            auto po = o.make(base);
            po.set_assertion_level(level);
            cfg.proof = po;
            try {
                logged = run_inst(in, cfg);
            }
            catch (const UnimplementedException &) {
                c.count("no_proof_support");
                return;
            }
            if (round == 0) {
                first_proof = slurp(base + ".pbp");
                first_model = slurp(base + ".opb");
            }
        }
        auto proof = slurp(base + ".pbp"), model = slurp(base + ".opb");
        VH_CHECK(model == first_model, "model-file-differs", "solving the same problem twice wrote two different model files");
        VH_CHECK(proof == first_proof, "proof-file-differs", "solving the same problem twice wrote two different proofs");
        // a presolver told to keep its part of the proof short may search differently with one
        if (s.proof_budget) {
            auto x = plain.sols, y = logged.sols;
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            if (plain.completed && logged.completed && ! cfg.objective)
                VH_CHECK(x == y, "proof-changes-the-answer", "without a proof " + show(plain.sols) + ", with one " + show(logged.sols));
            c.count("proof_length_limited");
        }
        else {
            VH_CHECK(plain.sols == logged.sols, "proof-changes-the-answer", "without a proof " + show(plain.sols) + ", with one " + show(logged.sols));
            VH_CHECK(plain.completed == logged.completed, "proof-changes-completion", "with and without a proof the search ends differently");
            VH_CHECK(plain.stats.recursions == logged.stats.recursions && plain.stats.failures == logged.stats.failures && plain.stats.max_depth == logged.stats.max_depth && plain.stats.restarts == logged.stats.restarts,
                "proof-changes-the-search",
                "recursions " + std::to_string(plain.stats.recursions) + " failures " + std::to_string(plain.stats.failures) + " without a proof, " + std::to_string(logged.stats.recursions) + " and " + std::to_string(logged.stats.failures) + " with one");
        }
        c.count("level_" + level_name);
        pbc::Formula f;
        try {
            f = pbc::read_opb(model);
        }
        catch (const pbc::Error & e) {
            throw vh::Violation("malformed-model", e.what);
        }
        auto bits = read_bits(base + ".varmap", f, in.doms.size());
        auto all = in.all_solutions();
        pbc::Options po;
        po.strict_solutions = false;
        po.allow_assertions = level != AssertionLevel::Off;
        // steps may lean on definitions and justifications that the level leaves out
        po.trust_rup = level != AssertionLevel::Off;
        ll alive = 0;
        vector<int> left;
        string lost;
        size_t k = 0;
        po.before_solution = [&](pbc::Engine & e, size_t nth) {
            // whatever has not been reported, and is still wanted, must still be possible
            k = nth;
            vector<const A *> live;
            for (auto & a : all) {
                bool wanted = true;
                for (size_t i = 0; i < nth && i < logged.sols.size() && wanted; ++i)
                    if (cfg.objective) {
                        auto x = cfg.objective->at(a), y = cfg.objective->at(logged.sols[i]);
                        wanted = cfg.maximise ? x > y : x < y;
                    }
                    else
                        wanted = a != logged.sols[i];
                if (wanted)
                    live.push_back(&a);
            }
            for (size_t i = 0; i < live.size() && i < 6 && lost.empty(); ++i) {
                auto & a = *live[i * live.size() / std::min<size_t>(live.size(), 6)];
                vector<int> lits;
                bool ok = true;
                for (size_t j = 0; j < a.size(); ++j)
                    ok = ok && pattern(bits, j, a[j], lits);
                long budget = 3000;
                auto got = ok ? pbc::satisfiable(f, e, lits, budget) : std::nullopt;
                if (! got)
                    continue;
                ++alive;
                if (! *got)
                    lost = "before solution " + std::to_string(nth) + " the proof has already ruled out " + show(a);
            }
        };
        auto res = pbc::check(f, proof, po);
        if (res.too_big) {
            c.count("too_big");
            return;
        }
        VH_CHECK(lost.empty(), "proof-rules-out-a-solution:" + level_name, lost);
        VH_CHECK(res.error.empty(), "proof-rejected:" + level_name, res.error);
        VH_CHECK(level != AssertionLevel::Off || res.asserted == 0, "assertion-in-a-full-proof", std::to_string(res.asserted) + " steps are merely asserted");
        c.evaluations += 1 + alive;
        c.count("asserted_steps", static_cast<ll>(res.asserted));
        c.count("trusted_steps", static_cast<ll>(res.trusted));
        c.count("solutions_still_possible", alive);
        c.count("logged_solutions", static_cast<ll>(res.solutions.size()));
        c.count("conclusion_" + res.conclusion);
        VH_CHECK(res.solutions.size() == logged.sols.size(), "logged-solutions", std::to_string(res.solutions.size()) + " solutions in the proof, " + std::to_string(logged.sols.size()) + " reported");
        for (size_t i = 0; i < res.solutions.size(); ++i)
            for (size_t v = 0; v < in.doms.size(); ++v) {
                auto x = bits.value(v, [&](int b) {
                    auto it = res.solutions[i].values.find(b);
                    return it == res.solutions[i].values.end() ? -1 : it->second;
                });
                VH_CHECK(x && *x == logged.sols[i][v], "logged-solutions", "solution " + std::to_string(i) + " is " + show(logged.sols[i]) + ", but in the proof x" + std::to_string(v) + " is " + (x ? std::to_string(*x) : string{"not settled"}));
            }
        // a complete search reaches the conclusion it is entitled to, and no conclusion is false
        auto & said = res.conclusion;
        c.count(string{logged.completed ? "complete_" : "stopped_"} + said);
        if (logged.completed) {
            string want = cfg.objective ? "BOUNDS" : all.empty() ? "UNSAT" : "ENUMERATION_COMPLETE";
            VH_CHECK(said == want, "conclusion", "there are " + std::to_string(all.size()) + " solutions and the search was complete, but the proof concludes " + said);
            if (cfg.objective) {
                VH_CHECK(res.bounds_inf == all.empty(), "conclusion", all.empty() ? "bounds for an unsatisfiable problem" : "no bounds for a satisfiable problem");
                VH_CHECK(res.bounds_inf || res.lower == res.upper, "conclusion", "the bounds differ after a complete search");
            }
        }
        VH_CHECK(said != "UNSAT" || all.empty(), "conclusion", "there are " + std::to_string(all.size()) + " solutions, but the proof concludes UNSAT");
        VH_CHECK(said != "ENUMERATION_COMPLETE" || res.solutions.size() == all.size(), "conclusion", "there are " + std::to_string(all.size()) + " solutions, but the proof claims to list them all with " + std::to_string(res.solutions.size()));
        VH_CHECK(said != "SAT" || ! all.empty(), "conclusion", "there are no solutions, but the proof concludes SAT");
        if (said == "BOUNDS" && ! res.bounds_inf && ! all.empty()) {
            // in the model file's own terms, which leave a view's constant out or not
            ll best = 0;
            bool first = true;
            for (auto & a : all) {
                auto x = cfg.objective->at(a) * (cfg.maximise ? -1 : 1);
                best = first ? x : std::min(best, x);
                first = false;
            }
            ll shift = static_cast<ll>(res.solutions.back().objective) - cfg.objective->at(logged.sols.back()) * (cfg.maximise ? -1 : 1);
            VH_CHECK(res.lower <= best + shift && best + shift <= res.upper, "conclusion", "the optimum is " + std::to_string(best + shift) + ", but the proof bounds it by " + std::to_string(static_cast<ll>(res.lower)) + " and " + std::to_string(static_cast<ll>(res.upper)));
        }
        if (res.steps > 6)
            c.nontrivial(vh::fnv(proof));
        c.sample(in.describe() + ": level " + level_name + ", " + std::to_string(res.solutions.size()) + " logged solutions, " + res.conclusion);
        remove_proof(base);
    }

    // the constraint keywords a justification family may be named for, leaving out conditional suffixes
    auto hint_fits(const string & hint, string op) -> bool
    {
        for (string suffix : {"_iff", "_if"})
            if (op.size() > suffix.size() && op.ends_with(suffix)) {
                op.resize(op.size() - suffix.size());
                break;
            }
        static const std::map<string, std::set<string>> fits{
            {"abs", {"abs"}},
            {"all_different", {"all_different", "all_different_except", "arg_sort", "circuit", "inverse", "symmetric_all_different"}},
            {"all_different_except", {"all_different_except"}},
            {"all_equal", {"all_equal"}},
            {"among", {"among"}},
            {"and", {"and"}},
            {"arg_sort", {"arg_sort"}},
            {"at_most_one", {"at_most_one"}},
            {"binpacking", {"binpacking"}},
            {"circuit", {"circuit"}},
            {"comparison", {"greater_equal", "greater_than", "less_equal", "less_than"}},
            {"count", {"count"}},
            {"cumulative", {"cumulative", "cumulative_optional"}},
            {"disjunctive", {"disjunctive", "disjunctive_optional", "disjunctive_strict", "disjunctive_strict_optional"}},
            {"disjunctive_2d", {"disjunctive2d", "disjunctive2d_strict"}},
            {"divide", {"divide"}},
            {"element", {"element", "element_2d"}},
            {"equals", {"element", "element_2d", "equals", "not_equals"}},
            {"global_cardinality", {"boundsglobalcardinality", "boundsglobalcardinalityclosed", "gacglobalcardinality", "gacglobalcardinalityclosed"}},
            {"in", {"in"}},
            {"increasing", {"decreasing", "increasing", "strictly_decreasing", "strictly_increasing"}},
            {"inverse", {"inverse"}},
            {"knapsack", {"knapsack"}},
            {"knapsack_upfront", {"knapsack"}},
            {"lex", {"lex_greater_equal", "lex_greater_than", "lex_less_equal", "lex_less_than", "lex_equals", "lex_not_equals"}},
            {"linear_equality", {"divide", "lin_equals", "lin_not_equals", "modulus", "multiply", "power"}},
            {"linear_inequality", {"lin_less_equal", "lin_greater_equal"}},
            {"linear_not_equals", {"lin_equals", "lin_not_equals"}},
            {"mdd", {"mdd"}},
            {"min_max", {"array_max", "array_min"}},
            {"minus", {"minus"}},
            {"modulus", {"modulus"}},
            {"multiply", {"multiply", "power"}},
            {"negative_table", {"negative_table"}},
            {"nvalue", {"nvalue"}},
            {"or", {"or"}},
            {"parity", {"parity"}},
            {"plus", {"plus"}},
            {"power", {"power"}},
            {"regular", {"regular"}},
            {"regular_legacy", {"regular"}},
            {"smart_table", {"smart_table", "lex_smart_table", "at_most_one_smart_table"}},
            {"sort", {"arg_sort", "sort"}},
            {"table", {"power", "table", "divide", "modulus", "multiply"}},
            {"value_precede", {"seq_precede_chain", "value_precede"}}};
        auto it = fits.find(hint);
        return it != fits.end() && it->second.contains(op);
    }

    // What an assertion-mode proof asserts, taken one step at a time: each step names a constraint of the problem, and
    // follows from that constraint's meaning (or, for the search's own steps, from everything together).
    auto asserted_case(Ctx & c, Rng & r) -> void
    {
        auto s = situation(c, r, 240);
        auto & in = s.in;
        if (in.cons.empty() || in.doms.empty() || in.size > 1200)
            return;
        auto & cfg = s.cfg;
        cfg.max_nodes = 400;
        bool presolved = static_cast<bool>(cfg.extra);
        auto o = random_opts(r);
        static const vector<pair<AssertionLevel, string>> levels{{AssertionLevel::Definitions, "definitions"}, {AssertionLevel::Links, "links"}, {AssertionLevel::Inferences, "inferences"}, {AssertionLevel::Backtracking, "backtracking"}};
        auto & [level, level_name] = levels[static_cast<size_t>(r.range(0, 3))];
        note(c, in, cfg.str() + s.text + o.str() + " level " + level_name);
        auto base = base_of(c);
        remove_proof(base);
        auto po = o.make(base);
        po.set_assertion_level(level);
        cfg.proof = po;
        RunRes res;
        try {
            res = run_inst(in, cfg);
        }
        catch (const UnimplementedException &) {
            c.count("no_proof_support");
            return;
        }
        // which constraint has which name
        std::map<string, pair<size_t, string>> named; // index, keyword
        {
            std::istringstream scp{slurp(base + ".scp")};
            bool on = false;
            size_t n = 0;
            for (string line; std::getline(scp, line);) {
                auto at = line.find_first_not_of(' ');
                if (at == string::npos)
                    continue;
                if (at == 4)
                    on = line.rfind("    (constraints", 0) == 0;
                else if (on && at == 8 && line[8] == '(') {
                    std::istringstream w{line.substr(9)};
                    string id, op;
                    w >> id >> op;
                    while (! op.empty() && op.back() == ')')
                        op.pop_back();
                    named[id] = {n++, op};
                }
            }
            // domains with holes are written first, as constraints of their own
            size_t holes = 0;
            for (auto & d : in.doms)
                holes += d.back() - d.front() + 1 != static_cast<ll>(d.size());
            for (auto & [id, k] : named)
                if (k.first < holes) {
                    VH_CHECK(k.second == "in", "description-order", "constraint " << id << " is a " << k.second << ", before the domains are complete");
                    k.first = in.cons.size();
                }
                else
                    k.first -= holes;
            bool match = named.size() == n && n == in.cons.size() + holes;
            if (! match) {
                c.count("constraints_not_matched");
                return;
            }
        }
        // what each literal of the proof means
        struct Meaning
        {
            size_t var;
            ll mul, add; // of the variable, before comparing
            char kind;   // = > i b s
            ll k, k2;
        };
        std::unordered_map<string, Meaning> meaning;
        std::set<string> opaque;
        {
            auto j = nlohmann::json::parse(slurp(base + ".varmap"));
            auto number = [](const nlohmann::json & x) { return x.is_string() ? std::stoll(x.get<string>()) : x.get<ll>(); };
            std::map<string, size_t> base_names;
            for (auto & [lit, d] : j.items())
                if (d.value("cpvartype", "") == "intvar" && d.contains("name"))
                    base_names[d["name"].get<string>()] = d["cpvarid"].get<size_t>();
            for (auto & [lit, d] : j.items()) {
                auto type = d.value("type", ""), of = d.value("cpvartype", "");
                Meaning m{0, 1, 0, 0, 0, 0};
                bool known = true;
                if (of == "intvar")
                    m.var = d["cpvarid"].get<size_t>();
                else if (of == "proofintvar") {
                    auto name = d["name"].get<string>();
                    if (name.rfind("neg_", 0) == 0)
                        m.mul = -1, name = name.substr(4);
                    known = name.rfind("view_of_", 0) == 0;
                    if (known) {
                        name = name.substr(8);
                        if (auto p = name.rfind("_plus_"); p != string::npos)
                            m.add = std::stoll(name.substr(p + 6)), name = name.substr(0, p);
                        known = base_names.contains(name);
                        if (known)
                            m.var = base_names[name];
                    }
                }
                else
                    known = false;
                known = known && m.var < in.doms.size();
                if (known && type == "condition") {
                    auto op = d["operator"].get<string>();
                    m.kind = op == "=" ? '=' : op == ">=" ? '>' : 'i';
                    m.k = number(d["value"]);
                    if (m.kind == 'i')
                        m.k2 = number(d["upper_value"]);
                }
                else if (known && type == "intvarbit")
                    m.kind = 'b', m.k = number(d["power"]);
                else if (known && type == "intvarnegbit")
                    m.kind = 's';
                else
                    known = false;
                if (known)
                    meaning[lit] = m;
                else
                    opaque.insert(lit);
            }
        }
        auto truth = [&](const Meaning & m, const A & a) {
            auto v = a[m.var] * m.mul + m.add;
            switch (m.kind) {
            case '=': return v == m.k;
            case '>': return v >= m.k;
            case 'i': return v >= m.k && v <= m.k2;
            case 's': return v < 0;
            default: return ((v >> m.k) & 1) == 1;
            }
        };
        vector<A> everything;
        in.each([&](const A & a) { everything.push_back(a); });
        vector<vector<char>> by(in.cons.size() + 1, vector<char>(everything.size(), 1)); // the last: domains only
        for (size_t i = 0; i < in.cons.size(); ++i)
            for (size_t j = 0; j < everything.size(); ++j)
                by[i][j] = in.cons[i].holds(everything[j]);
        auto all_hold = [&](size_t at) {
            for (auto & b : by)
                if (! b[at])
                    return false;
            return true;
        };
        vector<char> root(everything.size(), 1);     // what the facts asserted outright so far leave
        vector<char> earlier(everything.size(), 1);  // what everything asserted so far leaves
        size_t solutions = 0;
        auto still_wanted = [&](const A & a) {
            for (size_t i = 0; i < solutions && i < res.sols.size(); ++i)
                if (cfg.objective) {
                    auto x = cfg.objective->at(a), y = cfg.objective->at(res.sols[i]);
                    if (! (cfg.maximise ? x > y : x < y))
                        return false;
                }
                else if (a == res.sols[i])
                    return false;
            return true;
        };
        std::set<string> labels;
        auto label_of = [&](const string & line) {
            if (! line.empty() && line[0] == '@')
                labels.insert(line.substr(0, line.find_first_of(" ;")));
        };
        {
            std::istringstream model{slurp(base + ".opb")};
            for (string line; std::getline(model, line);)
                label_of(line);
        }
        std::istringstream proof{slurp(base + ".pbp")};
        ll judged = 0, attributed = 0, opaque_steps = 0, leaning = 0, label_uses = 0;
        string fingerprint;
        for (string line; std::getline(proof, line);) {
            if (line.rfind("solx ", 0) == 0 || line.rfind("soli ", 0) == 0)
                ++solutions;
            label_of(line);
            if (line[0] == '@')
                line = line.substr(std::min(line.size(), line.find(' ') + 1));
            if (line.rfind("a ", 0) != 0)
                continue;
            // a c lit c lit >= k:labels:hint:fields;
            auto end = line.find_first_of(":;");
            auto ann = line.substr(end);
            std::istringstream w{line.substr(2, end - 2)};
            vector<pair<ll, string>> terms;
            ll rhs = 0;
            for (string a, b; w >> a;) {
                if (a == ">=") {
                    w >> rhs;
                    break;
                }
                w >> b;
                terms.emplace_back(std::stoll(a), b);
            }
            string hint, fields;
            if (ann[0] == ':') {
                VH_CHECK(ann.back() == ';' && std::count(ann.begin(), ann.end(), ':') >= 3, "assertion-annotation", "annotation of unexpected shape: " << line);
                auto p = ann.find(':', 1), q = ann.find(':', p + 1);
                hint = ann.substr(p + 1, q - p - 1);
                fields = ann.substr(q + 1, ann.size() - q - 2);
                std::istringstream from{ann.substr(1, p - 1)};
                for (string l; from >> l;) {
                    ++label_uses;
                    VH_CHECK(labels.contains(l), "assertion-label", "nothing before this step is called " << l << ": " << line);
                }
            }
            std::optional<size_t> owner;
            if (auto p = fields.find("(constraint_id "); p != string::npos) {
                auto id = fields.substr(p + 15, fields.find(')', p) - p - 15);
                if (named.contains(id)) {
                    owner = named[id].first;
                    auto & op = named[id].second;
                    c.count("hint " + hint + " for " + op);
                    VH_CHECK(hint_fits(hint, op), "assertion-hint:" + hint, "the step " << line << " is said to come from " << hint << ", but constraint " << id << " is a " << op);
                }
                else
                    VH_CHECK(presolved, "assertion-names-no-constraint", "no constraint of this problem is called " << id << ": " << line);
            }
            if (presolved && ! hint.empty() && hint != "backtrack" && hint != "solx_block" && hint != "soli_improve" && hint != "initial_bound" && hint != "bound_link")
                c.count("unowned " + hint);
            vector<pair<ll, pair<bool, Meaning>>> sum;
            bool readable = true;
            for (auto & [k, l] : terms) {
                bool neg = l[0] == '~';
                auto it = meaning.find(neg ? l.substr(1) : l);
                if (it == meaning.end()) {
                    VH_CHECK(opaque.contains(neg ? l.substr(1) : l), "assertion-literal-unmapped", "literal " << l << " is not in the variables map: " << line);
                    readable = false;
                    break;
                }
                sum.push_back({k, {neg, it->second}});
            }
            if (! readable) {
                ++opaque_steps;
                continue;
            }
            // a contradiction at the root rests on what has been asserted before, and a makespan on several constraints
            if (sum.empty() || fields.contains("(subhint makespan)"))
                owner.reset();
            ++judged;
            attributed += owner ? 1 : 0;
            bool leaned = false;
            vector<char> agrees(everything.size(), 1);
            for (size_t i = 0; i < everything.size(); ++i) {
                auto & a = everything[i];
                ll total = 0;
                for (auto & [k, m] : sum)
                    if (truth(m.second, a) != m.first)
                        total += k;
                agrees[i] = total >= rhs;
                if (agrees[i] || ! root[i] || (owner ? ! by[*owner][i] : ! all_hold(i)))
                    continue;
                if (owner && ! earlier[i]) {
                    leaned = true;
                    continue;
                }
                if (owner)
                    throw vh::Violation("assertion-not-implied:" + (*owner < in.cons.size() ? in.cons[*owner].fam : "domain"), "the step " + line + " does not follow from " + (*owner < in.cons.size() ? in.cons[*owner].desc : "the domains") + ", which allow" + (*owner < in.cons.size() ? "s " : " ") + show(a));
                VH_CHECK(! still_wanted(a), "assertion-not-implied-by-the-problem:" + hint, "the step " << line << " rules out " << show(a) << ", after " << solutions << " solutions");
            }
            // these conclude some things without saying whose step it is; nothing else does
            if (hint.empty() && ! presolved && ! cfg.luby && ! terms.empty() && std::count(agrees.begin(), agrees.end(), 0) && std::all_of(named.begin(), named.end(), [](auto & n) {
                    auto & op = n.second.second;
                    return op != "min_distance" && op != "nogoods" && op.substr(0, 10) != "difference" && op.substr(0, 4) != "lin_";
                }))
                throw vh::Violation("assertion-without-annotation", "nothing says which constraint the step " + line + " comes from: " + in.describe());
            leaning += leaned;
            for (size_t i = 0; i < everything.size(); ++i)
                if (! agrees[i]) {
                    earlier[i] = 0;
                    if (sum.size() == 1)
                        root[i] = 0;
                }
            fingerprint += line + "\n";
        }
        c.evaluations += judged;
        c.count("judged_steps", judged);
        c.count("attributed_steps", attributed);
        c.count("steps_over_auxiliary_flags", opaque_steps);
        c.count("steps_leaning_on_earlier_ones", leaning);
        c.count("label_references", label_uses);
        c.count("level_" + level_name);
        if (judged > 3)
            c.nontrivial(vh::fnv(fingerprint));
        c.sample(in.describe() + ": level " + level_name + ", " + std::to_string(judged) + " asserted steps judged, " + std::to_string(attributed) + " against a single named constraint");
        remove_proof(base);
    }

    // Fixed models, each a known finding or a regression under its own name.
    struct Directed
    {
        string name;
        vector<vector<ll>> doms;
        std::function<void(Problem &, const Ids &)> post;
    };
    auto directed_models() -> vector<Directed>
    {
        auto range = [](ll a, ll b) {
            vector<ll> v;
            for (; a <= b; ++a)
                v.push_back(a);
            return v;
        };
        auto all_rules = [] {
            DisjunctiveRules ru;
            ru.detectable_precedences_set = ru.overload = ru.edge_finding = ru.not_first_not_last = ru.not_first_not_last_published = true;
            return ru;
        };
        vector<Directed> d;
        d.push_back({"table-with-a-repeated-row", {range(0, 2)}, [](Problem & p, const Ids & x) {
                         p.post(Table{{x[0]}, SimpleTuples{{0_i}, {2_i}, {0_i}, {2_i}, {1_i}, {0_i}}});
                     }});
        d.push_back({"disjunctive-energy-rules-over-a-view", {range(1, 4), range(0, 5), range(-1, 3)}, [=](Problem & p, const Ids & x) {
                         p.post(Disjunctive{{x[0], -x[1] + 5_i, x[2], 6_c}, vector<Integer>{3_i, 1_i, 2_i, 3_i}}.with_rules(all_rules()).with_strict(false));
                     }});
        d.push_back({"optional-disjunctive-overload", {range(-1, 3), range(2, 4), range(0, 1), range(0, 1), range(0, 1)}, [=](Problem & p, const Ids & x) {
                         auto ru = all_rules();
                         ru.time_table = ru.detectable_precedences = ru.overload = ru.edge_finding = ru.not_first_not_last_published = false;
                         p.post(Disjunctive{{x[0], x[1], x[2]}, {3_c, 2_c, 0_c}, {x[3], x[4], 1_c}}.with_rules(ru).with_strict(false));
                     }});
        d.push_back({"cumulative-over-a-repeated-start", {range(-1, 1), range(1, 2)}, [](Problem & p, const Ids & x) {
                         CumulativeRules ru;
                         ru.overload = ru.profile_overload = false;
                         ru.elastic_overload = ru.time_table_edge_finding = ru.not_first_not_last = true;
                         p.post(Cumulative{{-x[0] + 0_i, x[0], x[0]}, {3_c, x[1], 2_c}, {1_c, 3_c, 0_c}, 2_c}.with_rules(ru));
                     }});
        d.push_back({"cardinality-over-a-repeated-count", {{3, 4}, range(-2, 1), range(-1, 1)}, [](Problem & p, const Ids & x) {
                         p.post(GlobalCardinality{{x[2]}, {3_i, 0_i, 1_i}, {x[1] + 1_i, x[2], x[1] + 1_i}});
                     }});
        d.push_back({"cardinality-counting-itself", {range(1, 3), range(0, 2), range(0, 3), range(0, 3)}, [](Problem & p, const Ids & x) {
                         p.post(GlobalCardinality{{x[0], x[1], x[2], x[3]}, {1_i, 0_i}, {2_c, x[2]}});
                     }});
        d.push_back({"element-indexed-by-its-result", {range(-3, 0), range(0, 2), range(0, 2)}, [](Problem & p, const Ids & x) {
                         p.post(Element{x[2], std::pair<IntegerVariableID, Integer>{x[2], -1_i}, Element::Array{vector<IntegerVariableID>{x[1], x[1], x[0], x[0]}}}.with_consistency(consistency::BC{}));
                     }});
        d.push_back({"constant-element-indexed-by-its-result", {range(-2, 2)}, [](Problem & p, const Ids & x) {
                         p.post(Element2DConstantArray{x[0], std::pair<IntegerVariableID, Integer>{0_c, 0_i}, std::pair<IntegerVariableID, Integer>{x[0] + 1_i, 0_i}, Element2DConstantArray::Array{vector<vector<Integer>>{{1_i, 1_i, 1_i}}}});
                     }});
        d.push_back({"boxes-over-a-repeated-corner", {range(-3, -1), range(5, 8), range(1, 3)}, [](Problem & p, const Ids & x) {
                         p.post(Disjunctive2D{{x[0] + 4_i, x[1] + -4_i}, {x[0] + 3_i, x[2]}, vector<Integer>{1_i, 3_i}, vector<Integer>{3_i, 3_i}}.with_strict(false));
                     }});
        d.push_back({"minimum-distance-to-a-chosen-point", {range(0, 4), range(1, 3), range(0, 4), range(0, 1)}, [](Problem & p, const Ids & x) {
                         p.post(MinDistance{{x[0], x[1], x[2], x[3]}, x[2],
                             MinDistance::Matrix{{0_i, 1_i, 3_i, 3_i, 4_i}, {1_i, 0_i, 2_i, 5_i, 2_i}, {3_i, 2_i, 0_i, 1_i, 0_i}, {3_i, 5_i, 1_i, 0_i, 0_i}, {4_i, 2_i, 0_i, 0_i, 0_i}},
                             MinDistance::Matrix{{-1_i, 0_i, 3_i, 1_i}, {2_i, 2_i, 3_i, 0_i}, {1_i, 3_i, -1_i, 2_i}, {1_i, 2_i, 1_i, 1_i}}, MinDistancePropagation::ForwardBoundMatch});
                     }});
        d.push_back({"optional-disjunctive-over-a-repeated-start", {range(-1, 1), {0, 1, 3, 4}, range(0, 1), {-4, -3}, range(-1, 0)}, [](Problem & p, const Ids & x) {
                         DisjunctiveRules ru;
                         ru.time_table = ru.detectable_precedences = true;
                         ru.overload = ru.edge_finding = ru.not_first_not_last = ru.detectable_precedences_set = ru.not_first_not_last_published = false;
                         ru.edge_finding_lb = ru.edge_finding_ub = ru.not_first = ru.not_last = ru.overload_cache_bridge = true;
                         p.post(Disjunctive{{x[0], x[1], x[1], x[0]}, {0_c, 3_c, 2_c, 3_c}, {x[2], x[2], x[3] + 4_i, -x[4]}}.with_rules(ru).with_strict(false));
                     }});
        return d;
    }

    // each attempt in a process of its own, since some of them die
    auto directed_case(Ctx & c, Rng & r) -> void
    {
        static const auto models = directed_models();
        auto & d = models[static_cast<size_t>(c.current_case) % models.size()];
        Inst in;
        in.doms = d.doms;
        for (auto & x : d.doms)
            in.size *= static_cast<double>(x.size());
        Con k;
        k.fam = d.name;
        k.desc = d.name;
        k.holds = [](const A &) { return true; };
        k.post = d.post;
        in.cons.push_back(k);
        c.nontrivial(vh::fnv(d.name));
        for (int attempt = 0; attempt < 16; ++attempt) {
            RunCfg cfg;
            cfg.heur = random_heur(r);
            auto o = random_opts(r);
            note(c, in, cfg.str() + o.str());
            int fd[2];
            if (pipe(fd))
                std::exit(2);
            auto pid = fork();
            if (pid == 0) {
                struct rlimit none{0, 0};
                setrlimit(RLIMIT_CORE, &none);
                auto null = open("/dev/null", O_WRONLY);
                dup2(null, 2);
                string out = "quiet";
                try {
                    auto v = judge_proof(c, in, cfg, o);
                    if (! v.key.empty())
                        out = v.key + ": " + v.what;
                    else
                        out = "steps " + std::to_string(v.pr.steps);
                }
                catch (const std::exception & e) {
                    out = string{"exception: "} + e.what();
                }
                (void)! write(fd[1], out.data(), out.size());
                _exit(0);
            }
            close(fd[1]);
            string said;
            char buf[512];
            for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
                said.append(buf, static_cast<size_t>(n));
            close(fd[0]);
            int status = 0;
            waitpid(pid, &status, 0);
            c.evaluations += 1;
            if (WIFSIGNALED(status))
                throw vh::Violation("directed:" + d.name, "the process died with signal " + std::to_string(WTERMSIG(status)));
            VH_CHECK(said.starts_with("steps "), "directed:" + d.name, said);
        }
        c.count("directed_accepted");
        remove_proof(base_of(c));
    }
}

int main(int argc, char * argv[])
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        try {
            if (c.mode == "proof")
                proof_case(c, r);
            else if (c.mode == "directed")
                directed_case(c, r);
            else if (c.mode == "model")
                model_case(c, r);
            else if (c.mode == "account")
                account_case(c, r);
            else if (c.mode == "asserted")
                asserted_case(c, r);
            else {
                std::cerr << "unknown mode " << c.mode << "\n";
                std::exit(2);
            }
        }
        catch (const InvalidProblemDefinitionException & e) {
            // some constraints document that the same variable may not be given twice
            if (string{e.what()}.find("same variable handle") == string::npos && string{e.what()}.find("same underlying variable handle") == string::npos)
                throw;
            if (! the_instance_is_aliased)
                throw;
            c.count("rejected_as_documented");
        }
    });
}

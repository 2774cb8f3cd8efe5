// P38: what a component reports reaches the handler when it is said, is kept, and is printed.
// P39: a problem and its search states can be asked what they contain, at any time, and answer truthfully.
#include "scenario.hh"
#include <gcs/stats.hh>
#include <memory>

using namespace gcs;
using namespace eng;
using vh::Ctx;
using vh::join;
using std::shared_ptr;
using std::unique_ptr;

namespace
{
    vector<const Family *> the_families;
    auto pick_family(Rng & r) -> const Family & { return *the_families[static_cast<size_t>(r.range(0, static_cast<ll>(the_families.size()) - 1))]; }

    // a note, as it was when it was said
    struct Said
    {
        int level;
        string component, constraint, text;
        bool about = false;
        auto operator==(const Said &) const -> bool = default;
        auto rendered() const -> string
        {
            return (level != static_cast<int>(StatsLevel::Important) && ! component.empty() ? component + ": " : "") + text + (about ? " (" + constraint + ")" : "");
        }
    };
    auto said(const StatsNote & n) -> Said
    {
        Said s{static_cast<int>(n.level), n.component, "", n.text, n.constraint.has_value()};
        if (n.constraint)
            s.constraint = as_string(*n.constraint);
        return s;
    }
    auto show(const vector<Said> & v) -> string
    {
        string s;
        for (auto & x : v)
            s += "[" + std::to_string(x.level) + " " + x.rendered() + "]";
        return s;
    }

    struct CerrCapture
    {
        std::ostringstream o;
        std::streambuf * was;
        CerrCapture() : was(std::cerr.rdbuf(o.rdbuf())) {}
        ~CerrCapture() { std::cerr.rdbuf(was); }
    };

    auto lines_of(const string & s) -> vector<string>
    {
        vector<string> v;
        std::istringstream i(s);
        for (string l; std::getline(i, l);)
            v.push_back(l);
        return v;
    }

    auto check_kept(const Stats & st, const vector<Said> & want, const string & when) -> void
    {
        vector<Said> got;
        for (auto & n : st.notes())
            got.push_back(said(n));
        VH_CHECK(got == want, "notes-not-kept", when << ": kept " << show(got) << " but said " << show(want));
        for (size_t i = 0; i < want.size(); ++i)
            VH_CHECK(render(st.notes()[i]) == want[i].rendered(), "note-rendered-wrongly", when << ": " << render(st.notes()[i]) << " for " << want[i].rendered());
    }

    auto check_printed(const Stats & st, const vector<Said> & want) -> void
    {
        std::ostringstream o;
        o << st;
        auto got = lines_of(o.str());
        vector<string> tail;
        for (auto & k : st.components())
            tail.push_back(k->component_name() + ": " + k->summary());
        for (auto & n : want)
            if (n.level >= static_cast<int>(StatsLevel::General))
                for (auto & l : lines_of(n.rendered()))
                    tail.push_back(l);
        auto num = [](auto x) { return std::to_string(x); };
        vector<string> head{"propagators: " + num(st.n_propagators), "recursions: " + num(st.recursions), "failures: " + num(st.failures),
            "propagations: " + num(st.propagations) + " " + num(st.effectful_propagations) + " " + num(st.contradicting_propagations),
            "max depth:  " + num(st.max_depth), "restarts: " + num(st.restarts), "learned nogoods: " + num(st.learned_nogoods), "solutions: " + num(st.solutions)};
        if (st.idempotence_downgrades)
            head.push_back("idempotence downgrades: " + num(st.idempotence_downgrades));
        auto squeezed = [](const string & l) {
            string t;
            for (char ch : l)
                if (ch != ' ')
                    t += ch;
            return t;
        };
        std::set<string> lines;
        for (auto & l : got)
            lines.insert(squeezed(l));
        for (auto & h : head)
            VH_CHECK(lines.contains(squeezed(h)), "printed-report-wrong", "printed " << o.str() << " without " << h);
        VH_CHECK(got.size() >= head.size() + tail.size(), "printed-report-wrong", "printed " << o.str() << " for " << join(tail, "|"));
        for (auto & n : want)
            if (n.level < static_cast<int>(StatsLevel::General))
                VH_CHECK(std::count(got.begin(), got.end(), n.rendered()) == std::count(tail.begin(), tail.end(), n.rendered()), "printed-report-wrong", "printed " << o.str() << " with " << n.rendered());
        VH_CHECK(std::equal(tail.begin(), tail.end(), got.end() - static_cast<long>(tail.size())), "printed-report-wrong", "printed " << o.str() << " for " << join(tail, "|"));
    }

    auto check_components(const Stats & st) -> std::map<string, int>
    {
        std::map<string, int> seen;
        std::set<const ComponentStats *> which;
        for (auto & k : st.components()) {
            VH_CHECK(k && which.insert(k.get()).second, "component-registered-twice", k->component_name());
            VH_CHECK(! k->component_name().empty() && ! k->summary().empty() && k->summary().find('\n') == string::npos, "component-says-nothing", k->component_name() << " says " << k->summary());
            ++seen[k->component_name()];
            auto e = k->entries(), f = k->entries();
            std::set<string> names;
            VH_CHECK(! e.empty() && e.size() == f.size(), "component-without-entries", k->component_name());
            for (size_t i = 0; i < e.size(); ++i) {
                VH_CHECK(names.insert(e[i].name).second, "entry-named-twice", k->component_name() << " " << e[i].name);
                VH_CHECK(e[i].name == f[i].name && e[i].value == f[i].value, "entries-change", k->component_name() << " " << e[i].name);
            }
        }
        return seen;
    }

    auto entry(const ComponentStats & k, const string & name) -> std::optional<ll>
    {
        for (auto & e : k.entries())
            if (e.name == name)
                return e.value;
        return std::nullopt;
    }

    // what solving says
    auto report_case(Ctx & c, Rng & r) -> void
    {
        auto sc = presolve_scenario(r, pick_family(r));
        auto & in = sc.in;
        if (in.cons.empty())
            return;
        bool twice = r.chance(1, 4), own = r.chance(1, 4), named = sc.cfg.named;
        int style = static_cast<int>(r.range(0, 5)); // recording; unset; silent; printing from a level (the rest)
        auto level = static_cast<StatsLevel>(r.range(0, 3));
        bool gone = r.chance(1, 2);
        c.describe(in.describe() + " || " + sc.cfg.str() + sc.text + " style " + std::to_string(style) + "/" + std::to_string(static_cast<int>(level)) + (twice ? " solved twice" : "") + (own ? " own" : ""));

        auto p = std::make_unique<Problem>();
        auto ids = build(in, *p, named);
        sc.cfg.extra(*p, ids);
        size_t own_blocks = 0;
        if (own) {
            p->add_presolver(CumulativeStrengthening{});
            p->add_presolver(InferredDisjunctive{});
            own_blocks = 2;
        }
        std::set<string> constraints;
        int cumulatives = 0;
        for (auto & k : p->each_constraint()) {
            constraints.insert(as_string(k.constraint_id()));
            if (k.constraint_type().find("cumulative") != string::npos)
                ++cumulatives;
        }

        vector<Said> live;
        int events = 0, limit = 300, late = 0;
        std::atomic<bool> abort{false};
        auto once = [&](StatsReportCallback cb) -> Stats {
            live.clear();
            events = 0;
            abort = false;
            SolveCallbacks s;
            s.stats_report = cb;
            s.solution = [&](const CurrentState &) -> bool { return ++events < limit; };
            s.trace = [&](const CurrentState &) -> bool { return ++events < limit; };
            if (sc.cfg.heur)
                s.branch = make_branch(*sc.cfg.heur, ids);
            return solve_with(*p, s, std::nullopt, &abort);
        };
        StatsReportCallback record = [&](const StatsNote & n) {
            live.push_back(said(n));
            if (events > 0)
                ++late;
        };
        auto st = once(record);
        auto want = live;
        c.evaluations++;
        c.count("notes", want.size());
        c.count("components", st.components().size());

        auto examine = [&](const Stats & st, const string & when) {
            check_kept(st, want, when);
            check_printed(st, want);
            auto seen = check_components(st);
            for (auto & n : want) {
                // constraints speak too, and have no block
                static const std::set<string> presolvers{"auto_table", "difference_logic", "cumulative_strengthening", "inferred_cumulative", "inferred_disjunctive"};
                VH_CHECK(! presolvers.contains(n.component) || seen.contains(n.component), "note-from-an-unknown-component", when << ": " << n.component << " says " << n.text);
                VH_CHECK(! n.text.empty() && n.text.find('\n') == string::npos, "note-is-not-a-line", n.text);
            }
        };
        // presolvers speak while they decide, which is before the search
        VH_CHECK(late == 0, "note-said-late", late << " notes after the search began: " << show(want));
        for (auto & n : want) {
            VH_CHECK(! n.about || constraints.contains(n.constraint), "note-about-no-constraint", n.rendered());
            c.count(n.level == static_cast<int>(StatsLevel::Important) ? "important_notes" : n.about ? "notes_about_a_constraint" : "other_notes");
        }
        examine(st, "first");
        // each block that was handed over is there once, whether or not it did anything
        vector<const ComponentStats *> blocks;
        auto has = [&](int w) { return sc.which == w || (sc.which == 5 && w >= 1); };
        if (has(0))
            blocks.push_back(sc.stats.at.get());
        if (has(1))
            blocks.push_back(sc.stats.dl.get());
        if (has(2))
            blocks.push_back(sc.stats.cs.get());
        if (has(3))
            blocks.push_back(sc.stats.ic.get());
        if (has(4))
            blocks.push_back(sc.stats.id.get());
        size_t mine = 0, theirs = 0;
        for (auto & k : st.components()) {
            if (std::find(blocks.begin(), blocks.end(), k.get()) != blocks.end())
                ++mine;
            else if (k->component_name() == "cumulative_strengthening" || k->component_name() == "inferred_disjunctive")
                ++theirs;
        }
        bool ran = st.recursions > 0; // otherwise a presolver, or setting up, already found there is nothing to search
        VH_CHECK(mine <= blocks.size() && (! ran || mine == blocks.size()), "block-not-registered", mine << " of " << blocks.size());
        VH_CHECK(theirs <= own_blocks && (! ran || theirs == own_blocks), "block-not-registered", theirs << " of " << own_blocks << " of their own");
        if (ran && ! twice) {
            auto runs = sc.text.find(" twice") == string::npos ? 1 : 2;
            if (has(2) && runs == 1) {
                VH_CHECK(entry(*sc.stats.cs, "donors_seen") == cumulatives, "wrong-count", "strengthening saw " << sc.stats.cs->donors_seen << " of " << cumulatives);
                VH_CHECK(sc.stats.cs->donors_strengthened <= sc.stats.cs->donors_seen, "wrong-count", "strengthened " << sc.stats.cs->donors_strengthened);
                if (sc.limits.dp == 0)
                    VH_CHECK(sc.stats.cs->rows_by_dynamic_programming == 0, "budget-not-kept", sc.stats.cs->rows_by_dynamic_programming << " rows by dynamic programming");
            }
            if (has(3) && runs == 1 && sc.limits.cuts >= 0)
                VH_CHECK(sc.stats.ic->cuts_posted <= static_cast<size_t>(sc.limits.cuts), "budget-not-kept", sc.stats.ic->cuts_posted << " cuts posted");
            if (has(3) && runs == 1 && sc.limits.covers >= 0)
                VH_CHECK(sc.stats.ic->covers_considered <= static_cast<size_t>(sc.limits.covers), "budget-not-kept", sc.stats.ic->covers_considered << " covers");
            if (has(4) && runs == 1 && sc.limits.cliques >= 0)
                VH_CHECK(sc.stats.id->cliques_posted <= static_cast<size_t>(sc.limits.cliques), "budget-not-kept", sc.stats.id->cliques_posted << " cliques posted");
        }
        // the handler is let go of once the solve is over, and what is reported later is only kept
        {
            auto copy = st;
            auto before = live.size();
            copy.report(StatsNote{.level = StatsLevel::Important, .component = "me", .constraint = std::nullopt, .text = "too late"});
            VH_CHECK(live.size() == before, "handler-called-after-the-solve", show(live));
            VH_CHECK(copy.notes().size() == want.size() + 1 && st.notes().size() == want.size(), "notes-not-kept", copy.notes().size() << " and " << st.notes().size());
        }
        if (twice) {
            // the same again says the same, however it is listened to
            CerrCapture cap;
            auto again = once(style == 0 ? record : style == 1 ? StatsReportCallback{} : style == 2 ? silent_stats_report() : style == 3 ? default_stats_report() : default_stats_report(level));
            string expect;
            auto from = style == 1 || style == 3 ? StatsLevel::Important : level;
            if (style == 1 || style >= 3)
                for (auto & n : want)
                    if (n.level >= static_cast<int>(from))
                        expect += n.rendered() + "\n";
            VH_CHECK(cap.o.str() == expect, "wrong-notes-printed", "printed " << cap.o.str() << " rather than " << expect << " at style " << style);
            if (style == 0)
                VH_CHECK(live == want, "second-solve-says-otherwise", show(live) << " rather than " << show(want));
            check_kept(again, want, "second");
            c.count("solved_twice");
            if (r.chance(1, 2))
                st = std::move(again);
        }
        if (gone) {
            p.reset();
            sc.cfg.extra = nullptr;
            // use the memory again
            vector<string> churn;
            std::set<string> churn_names;
            for (int i = 0; i < 400; ++i) {
                churn.push_back(string(static_cast<size_t>(8 + i % 120), '?'));
                churn_names.insert("?" + std::to_string(i));
            }
            examine(st, "problem gone");
            c.count("read_after_the_problem_was_gone");
        }
        if (! want.empty())
            c.nontrivial(show(want));
        c.sample(in.describe() + sc.text + " says " + show(want));
    }

    // the report object itself
    struct Block final : ComponentStats
    {
        string name;
        ll n = 0;
        explicit Block(string s) : name(std::move(s)) {}
        auto component_name() const -> string override { return name; }
        auto summary() const -> string override { return n ? "did " + std::to_string(n) : "did nothing"; }
        auto entries() const -> vector<StatsEntry> override { return {StatsEntry{"n", n}}; }
    };

    auto stats_case(Ctx & c, Rng & r) -> void
    {
        Stats st;
        vector<shared_ptr<Block>> blocks, want_blocks;
        vector<Said> want, heard;
        int handler = 0; // 0 none, 1 recording
        vector<Said> want_heard;
        string text;
        auto n = r.range(1, 30);
        for (ll i = 0; i < n; ++i) {
            switch (r.range(0, 6)) {
            case 0: {
                blocks.push_back(std::make_shared<Block>("part" + std::to_string(r.range(0, 3))));
                [[fallthrough]];
            }
            case 1: {
                text += "a";
                if (blocks.empty()) {
                    st.add_component(nullptr);
                    break;
                }
                auto b = r.pick(blocks);
                st.add_component(b);
                if (std::find(want_blocks.begin(), want_blocks.end(), b) == want_blocks.end())
                    want_blocks.push_back(b);
                break;
            }
            case 2: {
                handler = 1 - handler;
                text += "h";
                st.set_report_handler(handler ? StatsReportCallback{[&](const StatsNote & x) { heard.push_back(said(x)); }} : StatsReportCallback{});
                break;
            }
            case 3: {
                if (! blocks.empty())
                    r.pick(blocks)->n += r.range(0, 5);
                break;
            }
            default: {
                Said s{static_cast<int>(r.range(0, 3)), r.chance(1, 4) ? "" : "part" + std::to_string(r.range(0, 3)), "", "note " + std::to_string(i), r.chance(1, 2)};
                text += "r" + std::to_string(s.level) + (s.about ? "c" : "") + (s.component.empty() ? "-" : "");
                StatsNote note{.level = static_cast<StatsLevel>(s.level), .component = s.component, .constraint = std::nullopt, .text = s.text};
                auto name = std::make_unique<string>("a_constraint_with_a_long_enough_name_" + std::to_string(r.range(0, 5)));
                if (s.about) {
                    if (r.chance(1, 2)) {
                        note.constraint = NamedConstraint{*name};
                        s.constraint = *name;
                    }
                    else {
                        auto k = static_cast<unsigned long long>(r.range(1, 9));
                        note.constraint = NumberedConstraint{k};
                        s.constraint = as_string(*note.constraint);
                        VH_CHECK(s.constraint == "_" + std::to_string(k), "constraint-number-printed-wrongly", s.constraint);
                    }
                }
                st.report(note);
                std::fill(name->begin(), name->end(), '?');
                want.push_back(s);
                if (handler)
                    want_heard.push_back(s);
            }
            }
            if (r.chance(1, 10)) {
                // a copy says the same, also once the original is gone
                auto copy = st;
                st = Stats{};
                st = copy;
                handler = -1;
            }
            if (handler == -1) {
                handler = 0;
                st.set_report_handler(StatsReportCallback{});
            }
            VH_CHECK(heard == want_heard, "handler-not-told", show(heard) << " rather than " << show(want_heard));
        }
        check_kept(st, want, "unit");
        vector<shared_ptr<const ComponentStats>> wb(want_blocks.begin(), want_blocks.end());
        VH_CHECK(st.components() == wb, "component-registered-twice", st.components().size() << " rather than " << wb.size());
        check_printed(st, want);
        check_components(st);
        for (int l = 0; l < 4; ++l) {
            CerrCapture cap;
            auto cb = default_stats_report(static_cast<StatsLevel>(l));
            string expect;
            for (size_t i = 0; i < want.size(); ++i) {
                cb(st.notes()[i]);
                if (want[i].level >= l)
                    expect += want[i].rendered() + "\n";
            }
            VH_CHECK(cap.o.str() == expect, "wrong-notes-printed", "printed " << cap.o.str() << " rather than " << expect);
        }
        c.evaluations++;
        c.nontrivial(text);
        c.sample(text);
    }

    // ---- P39 ----

    struct Snapshot
    {
        CurrentState state;
        vector<vector<ll>> doms;
    };

    auto check_state(const CurrentState & s, const vector<Op> & ops, const Ids & ids, Rng & r, const string & at) -> void
    {
        vector<IntegerVariableID> fixed_vars, all_vars;
        vector<ll> fixed_vals;
        bool any_open = false;
        for (auto & o : ops) {
            auto v = o.id(ids);
            vector<ll> vals, rev, copy;
            for (auto x : s.each_value(v))
                vals.push_back(x.raw_value);
            for (auto x : s.each_value_reversed(v))
                rev.push_back(x.raw_value);
            auto set = s.copy_of_values(v);
            for (auto x : set.each())
                copy.push_back(x.raw_value);
            std::reverse(rev.begin(), rev.end());
            auto w = at + " " + o.str() + "{" + join(vals) + "}";
            VH_CHECK(! vals.empty() && std::is_sorted(vals.begin(), vals.end()) && std::adjacent_find(vals.begin(), vals.end()) == vals.end(), "state-values-not-a-set", w);
            VH_CHECK(vals == rev && vals == copy, "state-values-disagree", w << " reversed " << join(rev) << " copied " << join(copy));
            VH_CHECK(s.lower_bound(v).raw_value == vals.front() && s.upper_bound(v).raw_value == vals.back(), "state-bounds-disagree", w << " bounds " << s.lower_bound(v).raw_value << " " << s.upper_bound(v).raw_value);
            VH_CHECK(s.domain_size(v).raw_value == static_cast<ll>(vals.size()), "state-size-disagrees", w << " size " << s.domain_size(v).raw_value);
            VH_CHECK(s.has_single_value(v) == (vals.size() == 1), "state-single-value-disagrees", w);
            for (auto x = vals.front() - 2; x <= vals.back() + 2 && x < vals.front() + 60; ++x)
                VH_CHECK(s.in_domain(v, I(x)) == std::binary_search(vals.begin(), vals.end(), x), "state-membership-disagrees", w << " at " << x);
            bool threw = false;
            try {
                auto x = s(v).raw_value;
                VH_CHECK(vals.size() == 1 && x == vals.front(), "state-value-wrong", w << " has value " << x);
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
                threw = true;
            }
            VH_CHECK(threw == (vals.size() != 1), "state-value-wrong", w << " throws");
            // a view says what its variable says
            if (o.v >= 0) {
                vector<ll> base;
                for (auto x : s.each_value(ids[static_cast<size_t>(o.v)]))
                    base.push_back((o.neg ? -x.raw_value : x.raw_value) + o.add);
                std::sort(base.begin(), base.end());
                VH_CHECK(base == vals, "state-view-disagrees", w << " but the variable gives " << join(base));
            }
            else
                VH_CHECK(vals == vector<ll>{o.add}, "state-view-disagrees", w);
            all_vars.push_back(v);
            if (vals.size() == 1) {
                fixed_vars.push_back(v);
                fixed_vals.push_back(vals.front());
            }
            else
                any_open = true;
        }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
        vector<ll> got;
        for (auto x : s(fixed_vars))
            got.push_back(x.raw_value);
        VH_CHECK(got == fixed_vals, "state-value-wrong", at << " " << join(got) << " rather than " << join(fixed_vals));
        if (any_open) {
            bool threw = false;
            try {
                (void) s(all_vars);
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
                threw = true;
            }
            VH_CHECK(threw, "state-value-wrong", at << " values of unfixed variables");
        }
#pragma GCC diagnostic pop
        (void) r;
    }

    auto doms_at(const CurrentState & s, const Ids & ids) -> vector<vector<ll>>
    {
        vector<vector<ll>> d;
        for (auto & v : ids) {
            d.emplace_back();
            for (auto x : s.each_value(v))
                d.back().push_back(x.raw_value);
        }
        return d;
    }

    auto readback_case(Ctx & c, Rng & r) -> void
    {
        auto in = random_instance(r, pick_family(r), random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 3)));
        if (in.doms.empty())
            return;
        Problem p;
        Ids ids;
        struct Var
        {
            ll lo, hi;
            std::optional<string> name;
        };
        vector<Var> vars;
        string how;
        // the variables of the model, with others made in between, in every way there is
        auto name_of = [&](const string & kind) -> std::optional<string> {
            if (r.chance(1, 2))
                return std::nullopt;
            return kind + std::to_string(vars.size());
        };
        vector<IntegerVariableID> everything;
        auto extra_vars = [&]() {
            auto lo = r.range(-3, 3), hi = lo + r.range(0, 2);
            auto name = name_of("e");
            switch (r.range(0, 3)) {
            case 0: {
                auto k = static_cast<size_t>(r.range(0, 3));
                auto v = p.create_integer_variable_vector(k, I(lo), I(hi), name);
                VH_CHECK(v.size() == k, "variable-vector-has-wrong-length", v.size() << " rather than " << k);
                for (size_t i = 0; i < k; ++i) {
                    everything.push_back(v[i]);
                    vars.push_back({lo, hi, name ? std::optional{*name + "[" + std::to_string(i) + "]"} : std::nullopt});
                }
                how += "v" + std::to_string(k);
                break;
            }
            case 1: {
                auto a = p.create_n_integer_variables<2>(I(lo), I(hi));
                for (auto & v : a) {
                    everything.push_back(v);
                    vars.push_back({lo, hi, std::nullopt});
                }
                how += "n";
                break;
            }
            default: break;
            }
        };
        auto doms = in.doms;
        for (auto & d : in.doms) {
            extra_vars();
            auto name = name_of("x");
            auto whole = d.back() - d.front() + 1 == static_cast<ll>(d.size());
            if (whole && r.chance(3, 4))
                ids.push_back(p.create_integer_variable(I(d.front()), I(d.back()), name));
            else {
                auto shuffled = d;
                r.shuffle(shuffled);
                if (r.chance(1, 4))
                    shuffled.push_back(r.pick(d));
                ids.push_back(p.create_integer_variable(IV(shuffled), name));
                how += "d";
            }
            everything.push_back(ids.back());
            vars.push_back({d.front(), d.back(), name});
        }
        extra_vars();
        // the constraints, by number or by name
        struct Posted
        {
            string type, id;
            bool named;
        };
        vector<Posted> posted;
        size_t before = 0;
        for (auto & k : p.each_constraint()) {
            (void) k;
            ++before;
        }
        std::set<string> ids_seen;
        for (auto & k : in.cons)
            if (k.make) {
                auto obj = k.make(ids);
                auto type = obj->clone()->constraint_type();
                if (r.chance(1, 2)) {
                    auto nm = "c" + std::to_string(posted.size());
                    p.post_named(*obj, nm);
                    posted.push_back({type, nm, true});
                }
                else {
                    p.post(*obj);
                    posted.push_back({type, "", false});
                }
            }
            else {
                k.post(p, ids);
                posted.push_back({"?", "", false});
            }
        bool wants_min = r.chance(1, 3), wants_max = ! wants_min && r.chance(1, 3);
        Op obj{static_cast<int>(r.range(0, static_cast<ll>(ids.size()) - 1)), r.chance(1, 3), r.range(-2, 2)};
        if (wants_min || wants_max) {
            if (r.chance(1, 3)) // the last one said is the one
                p.minimise(everything.front());
            if (wants_min)
                p.minimise(obj.id(ids));
            else
                p.maximise(obj.id(ids));
        }
        how += wants_min ? " min " + obj.str() : wants_max ? " max " + obj.str() : "";
        c.describe(in.describe() + " || " + how);

        auto examine = [&](const string & when) {
            auto & all = p.all_normal_variables();
            VH_CHECK(all == everything, "variables-not-listed", when << ": " << all.size() << " rather than " << everything.size());
            size_t i = 0;
            std::set<string> names;
            for (auto [id, lo, hi, name] : p.each_variable_with_bounds_and_name()) {
                VH_CHECK(i < vars.size(), "variables-not-listed", when << ": more than " << vars.size());
                VH_CHECK(id == everything[i] && lo.raw_value == vars[i].lo && hi.raw_value == vars[i].hi, "variable-listed-wrongly", when << ": number " << i << " as " << name << " " << lo.raw_value << ".." << hi.raw_value << " rather than " << vars[i].lo << ".." << vars[i].hi);
                VH_CHECK(! vars[i].name || *vars[i].name == name, "variable-listed-wrongly", when << ": number " << i << " as " << name << " rather than " << *vars[i].name);
                VH_CHECK(! name.empty() && names.insert(name).second, "variable-listed-wrongly", when << ": two are called " << name);
                ++i;
            }
            VH_CHECK(i == vars.size(), "variables-not-listed", when << ": " << i << " rather than " << vars.size());
            size_t n = 0, k = 0;
            std::set<string> cids;
            size_t ins = 0, gcc_ = 0, tables = 0, lins = 0;
            for (auto & con : p.each_constraint()) {
                VH_CHECK(cids.insert(as_string(con.constraint_id())).second, "constraint-listed-wrongly", when << ": two are called " << as_string(con.constraint_id()));
                ins += dynamic_cast<const In *>(&con) != nullptr;
                gcc_ += dynamic_cast<const GlobalCardinality *>(&con) != nullptr;
                tables += dynamic_cast<const Table *>(&con) != nullptr;
                lins += dynamic_cast<const ReifiedLinearEquality *>(&con) != nullptr;
                if (n++ < before)
                    continue;
                VH_CHECK(k < posted.size(), "constraints-not-listed", when << ": more than " << posted.size());
                if (posted[k].type != "?")
                    VH_CHECK(con.constraint_type() == posted[k].type, "constraint-listed-wrongly", when << ": number " << k << " as " << con.constraint_type() << " rather than " << posted[k].type);
                if (posted[k].named)
                    VH_CHECK(as_string(con.constraint_id()) == posted[k].id, "constraint-listed-wrongly", when << ": number " << k << " as " << as_string(con.constraint_id()) << " rather than " << posted[k].id);
                else if (posted[k].type != "?")
                    VH_CHECK(as_string(con.constraint_id()).front() == '_', "constraint-listed-wrongly", when << ": number " << k << " as " << as_string(con.constraint_id()));
                ++k;
            }
            VH_CHECK(k == posted.size(), "constraints-not-listed", when << ": " << k << " rather than " << posted.size());
            auto typed = [&](auto gen) {
                size_t t = 0;
                for (auto & con : gen) {
                    VH_CHECK(cids.contains(as_string(con.constraint_id())), "constraint-listed-wrongly", when << ": " << as_string(con.constraint_id()));
                    ++t;
                }
                return t;
            };
            VH_CHECK(typed(p.each_constraint_of_type<In>()) == ins && typed(p.each_constraint_of_type<GlobalCardinality>()) == gcc_ && typed(p.each_constraint_of_type<Table>()) == tables &&
                    typed(p.each_constraint_of_type<ReifiedLinearEquality>()) == lins && typed(p.each_constraint_of_type<Constraint>()) == n,
                "constraints-of-a-type-not-listed", when);
            VH_CHECK(p.optional_minimise_variable().has_value() == (wants_min || wants_max), "objective-listed-wrongly", when);
        };
        examine("built");

        // what the states of a search say of it, then and afterwards
        vector<Snapshot> kept;
        ll n = 0;
        vector<Op> ops;
        for (size_t i = 0; i < ids.size(); ++i) {
            ops.push_back({static_cast<int>(i), false, 0});
            if (r.chance(1, 2))
                ops.push_back({static_cast<int>(i), r.chance(1, 2), r.range(-4, 4)});
        }
        ops.push_back({-1, false, r.range(-3, 3)});
        auto look = [&](const CurrentState & s, const string & at) {
            if (r.chance(1, n < 20 ? 1 : 8))
                check_state(s, ops, ids, r, at);
            if (wants_min || wants_max) {
                auto m = *p.optional_minimise_variable();
                auto lo = s.lower_bound(m).raw_value, hi = s.upper_bound(m).raw_value;
                auto ov = obj.id(ids);
                auto a = s.lower_bound(ov).raw_value, b = s.upper_bound(ov).raw_value;
                VH_CHECK(wants_min ? (lo == a && hi == b) : (lo == -b && hi == -a), "objective-listed-wrongly", at << " " << lo << ".." << hi << " for " << a << ".." << b);
            }
            if (kept.size() < 24 && r.chance(1, 3))
                kept.push_back(Snapshot{s.clone(), doms_at(s, ids)});
            c.count("states_read");
        };
        SolveCallbacks cb;
        cb.stats_report = silent_stats_report();
        cb.trace = [&](const CurrentState & s) -> bool { look(s, "trace"); return ++n < 60; };
        cb.solution = [&](const CurrentState & s) -> bool {
            for (auto & v : ids)
                VH_CHECK(s.has_single_value(v), "solution-not-fixed", "");
            look(s, "solution");
            return ++n < 60;
        };
        auto inner = make_branch(random_heur(r), ids);
        cb.branch = inner;
        auto solves = r.range(1, 2);
        for (ll i = 0; i < solves; ++i) {
            n = 0;
            auto st = solve_with(p, cb);
            (void) st;
            examine("solved");
        }
        // clones keep what they saw
        vector<Snapshot> moved;
        for (auto & k : kept)
            moved.push_back(Snapshot{r.chance(1, 2) ? k.state.clone() : std::move(k.state), k.doms});
        kept.clear();
        std::set<string> distinct;
        for (auto & k : moved) {
            VH_CHECK(doms_at(k.state, ids) == k.doms, "kept-state-changed", "");
            check_state(k.state, ops, ids, r, "kept");
            string d;
            for (auto & x : k.doms)
                d += join(x) + ";";
            distinct.insert(d);
            c.count("states_kept");
        }
        c.evaluations++;
        for (auto & d : distinct)
            c.nontrivial(how + d);
        c.sample(in.describe() + " || " + how);
    }
}

auto main(int argc, char ** argv) -> int
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (the_families.empty())
            the_families = families_of(c.family);
        try {
            if (c.mode == "report") {
                if (r.chance(1, 4))
                    stats_case(c, r);
                else
                    report_case(c, r);
            }
            else if (c.mode == "readback")
                readback_case(c, r);
            else {
                std::cerr << "unknown mode " << c.mode << "\n";
                std::exit(2);
            }
        }
        catch (const InvalidProblemDefinitionException & e) {
            if (string{e.what()}.find("variable handle") == string::npos)
                throw;
            c.count("rejected_as_documented");
        }
    });
}

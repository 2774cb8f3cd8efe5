// Monitors over the written problem descriptions (.scp): what a description
// says when it is read back, with the library and with the solver program, is
// compared with the problem it was written for.
#include "pbcheck.hh"
#include "scenario.hh"
#include <fcntl.h>
#include <fstream>
#include <gcs/innards/s_expr.hh>
#include <gcs/scp_reader.hh>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace gcs;
using namespace eng;
using vh::Ctx;
using vh::join;
using std::pair;

namespace
{
    vector<const Family *> the_families;
    bool the_instance_is_aliased = false;

    auto pick_family(Ctx & c) -> const Family &
    {
        if (the_families.empty())
            the_families = families_of(c.family);
        return *the_families[c.current_case % the_families.size()];
    }

    auto slurp(const string & f) -> string
    {
        std::ifstream i{f, std::ios::binary};
        std::ostringstream o;
        o << i.rdbuf();
        return o.str();
    }
    auto put(const string & f, const string & s) -> void
    {
        std::ofstream o{f, std::ios::binary};
        o << s;
    }

    struct Stop
    {
    };

    struct Model
    {
        Inst in;
        bool views = false, named = false;
        std::optional<Op> objective;
        bool maximise = false;
        auto str() const -> string
        {
            return in.describe() + (named ? " || named" : " ||") + (objective ? string{maximise ? " maximise " : " minimise "} + objective->str() : "");
        }
    };

    auto random_model(Ctx & c, Rng & r, double budget, bool views) -> Model
    {
        Model m;
        m.views = views;
        auto st = random_style(r, true);
        if (! views)
            st.view = 0;
        st.budget = budget;
        m.in = random_instance(r, pick_family(c), st, r.chance(1, 2) ? 0 : static_cast<int>(r.range(1, 3)));
        m.named = r.chance(1, 2);
        if (r.chance(1, 3)) {
            Op o;
            o.v = static_cast<int>(r.range(0, static_cast<ll>(m.in.doms.size()) - 1));
            if (r.chance(1, 8))
                o.v = -1, o.add = r.range(-3, 3);
            else if (views && r.chance(1, 3))
                o.neg = r.chance(1, 2), o.add = r.range(-3, 3);
            m.objective = o;
            m.maximise = r.chance(1, 2);
        }
        the_instance_is_aliased = std::any_of(m.in.cons.begin(), m.in.cons.end(), [](const Con & k) { return k.aliased; });
        return m;
    }

    auto post_objective(Problem & p, const Model & m, const Ids & ids) -> void
    {
        if (! m.objective)
            return;
        auto id = m.objective->id(ids);
        if (m.maximise)
            p.maximise(id);
        else
            p.minimise(id);
    }

    // the description of p, written by the real writer; the search itself is not wanted
    auto write(Ctx & c, Problem & p) -> string
    {
        auto base = c.tmp + "/w";
        for (auto s : {".opb", ".pbp", ".varmap", ".scp"})
            std::remove((base + s).c_str());
        try {
            solve_with(p, SolveCallbacks{.after_proof_started = [&](const CurrentState &) -> void { throw Stop{}; }}, ProofOptions{base});
        }
        catch (const Stop &) {
        }
        auto text = slurp(base + ".scp");
        for (auto s : {".opb", ".pbp", ".varmap", ".scp"})
            std::remove((base + s).c_str());
        return text;
    }

    // the names of the variables section, in order: what a reader of the text
    // would call the base variables
    auto names_in(const string & text) -> vector<string>
    {
        vector<string> r;
        auto at = text.find("(variables");
        auto end = text.find("(constraints");
        while ((at = text.find('(', at + 1)) != string::npos && at < end) {
            auto e = text.find(' ', at);
            r.push_back(text.substr(at + 1, e - at - 1));
        }
        return r;
    }

    auto name_of(const Model & m, size_t i) -> string { return m.named ? "v" + std::to_string(i) : "_" + std::to_string(i + 1); }

    auto roundtrip_case(Ctx & c, Rng & r) -> void
    {
        auto m = random_model(c, r, 1500, r.chance(1, 5));
        c.describe(m.str());
        if (m.in.cons.empty() || m.in.doms.empty())
            return;
        string text;
        {
            Problem p;
            auto ids = build(m.in, p, m.named);
            post_objective(p, m, ids);
            try {
                text = write(c, p);
            }
            catch (const UnimplementedException &) {
                c.count("no_proof_support");
                return;
            }
        }
        c.describe(m.str() + "\n" + text);
        VH_CHECK(text.size() > 20, "nothing-written", "no description was written");
        Problem q;
        std::optional<ScpModel> got;
        try {
            got = read_scp(q, text);
        }
        catch (const ScpUnsupportedConstraintError & e) {
            throw vh::Violation("keyword-not-read:" + e.operator_name(), string{e.what()});
        }
        catch (const ScpReadError & e) {
            c.count("refused");
            // documented: automata are rebuilt only if they are deterministic
            if (string{e.what()}.find("deterministic automata only") != string::npos && text.find(" regular ") != string::npos) {
                c.count("refused_nondeterministic");
                return;
            }
            if (m.views) {
                c.count("refused_views");
                return;
            }
            throw vh::Violation("refused:" + m.in.cons[0].fam, string{"a description without views is refused: "} + e.what());
        }
        catch (const MessageException & e) {
            if (m.views) {
                c.count("refused_views");
                return;
            }
            throw;
        }
        // the same variables
        VH_CHECK(got->variables.size() >= m.in.doms.size(), "variables-lost", std::to_string(got->variables.size()) + " variables were read back");
        Ids ids;
        for (size_t i = 0; i < m.in.doms.size(); ++i) {
            auto it = got->variables.find(name_of(m, i));
            VH_CHECK(it != got->variables.end(), "variables-lost", "no variable " + name_of(m, i) + " was read back");
            ids.push_back(it->second);
        }
        // the same objective
        VH_CHECK(got->minimise_variable.has_value() == m.objective.has_value(), "objective-lost", (m.objective ? "the objective was not read back" : "an objective appeared"));
        // written again, the same text
        {
            Problem z;
            auto again = read_scp(z, text);
            if (again.minimise_variable)
                z.minimise(*again.minimise_variable);
            string text2;
            try {
                text2 = write(c, z);
                VH_CHECK(text2 == text, "written-differently", "read back and written again it says\n" + text2);
                c.count("same_text");
            }
            catch (const UnimplementedException &) {
            }
        }
        // the same solutions
        vector<A> sols;
        string objective_trouble;
        std::optional<ll> offset;
        if (m.objective && m.objective->add == 0)
            offset = 0;
        ll n = 0;
        solve_with(q, SolveCallbacks{.solution = [&](const CurrentState & s) -> bool {
            sols.push_back(values_at(s, ids));
            if (m.objective) {
                auto want = m.objective->at(sols.back());
                if (m.maximise)
                    want = -want;
                auto is = s(*got->minimise_variable).raw_value;
                // a view's offset is left out of what is written
                if (! offset)
                    offset = is - want;
                if (is - want != *offset && objective_trouble.empty())
                    objective_trouble = show(sols.back()) + " costs " + std::to_string(want) + " but the objective read back says " + std::to_string(is);
            }
            return ++n < 20000;
        }});
        VH_CHECK(objective_trouble.empty(), "objective-changed", objective_trouble);
        // auxiliary variables of the description may multiply a solution, never the projection
        auto want = m.in.all_solutions();
        if (got->variables.size() > m.in.doms.size()) {
            std::sort(sols.begin(), sols.end());
            sols.erase(std::unique(sols.begin(), sols.end()), sols.end());
        }
        auto diff = compare_solutions(want, sols);
        VH_CHECK(diff.empty(), "meaning-changed:" + m.in.cons[0].fam, "the problem read back differs: " + diff);
        c.count("read_back");
        if (! want.empty() && static_cast<double>(want.size()) < m.in.size)
            c.nontrivial(text);
        c.sample(text);
    }

    // ---- damaged descriptions

    // the spans of the list terms directly inside the list that starts at `open`
    auto children(const string & t, size_t open) -> vector<pair<size_t, size_t>>
    {
        vector<pair<size_t, size_t>> r;
        int depth = 0;
        size_t start = 0;
        for (size_t i = open; i < t.size(); ++i) {
            if (t[i] == '(') {
                if (depth == 1)
                    start = i;
                ++depth;
            }
            else if (t[i] == ')') {
                --depth;
                if (depth == 1)
                    r.emplace_back(start, i + 1);
                if (depth == 0)
                    break;
            }
        }
        return r;
    }

    auto damaged_case(Ctx & c, Rng & r) -> void
    {
        auto m = random_model(c, r, 200, false);
        if (m.in.cons.empty() || m.in.doms.empty())
            return;
        string text;
        {
            Problem p;
            auto ids = build(m.in, p, m.named);
            post_objective(p, m, ids);
            try {
                text = write(c, p);
            }
            catch (const UnimplementedException &) {
                return;
            }
        }
        auto sections = children(text, text.find('('));
        VH_CHECK(sections.size() == 4, "sections", "a written description has " + std::to_string(sections.size()) + " sections\n" + text);
        auto part = [&](size_t i) { return text.substr(sections[i].first, sections[i].second - sections[i].first); };
        auto assemble = [](const vector<string> & v) {
            string s = "(";
            for (auto & x : v)
                s += x + "\n";
            return s + ")";
        };
        vector<string> parts{part(0), part(1), part(2), part(3)};
        auto decls = children(text, sections[1].first), cons = children(text, sections[2].first);
        bool definite = true; // must be rejected
        string op;            // and as an unsupported operator of this name
        string bad = text;
        int kind = static_cast<int>(r.range(0, 13));
        if (kind == 4) {
            try {
                Problem q;
                (void) read_scp(q, text);
            }
            catch (const MessageException &) {
                return;
            }
        }
        switch (kind) {
        case 0: parts[0] = "(version " + r.pick(vector<string>{"0", "2", "-1", "one", "1 1", "", "4294967297", "1.0"}) + ")"; bad = assemble(parts); break;
        case 1: {
            auto i = static_cast<size_t>(r.range(0, 3));
            parts.erase(parts.begin() + static_cast<ll>(i));
            bad = assemble(parts);
            break;
        }
        case 2: {
            auto i = static_cast<size_t>(r.range(0, 2)), j = static_cast<size_t>(r.range(static_cast<ll>(i) + 1, 3));
            std::swap(parts[i], parts[j]);
            bad = assemble(parts);
            break;
        }
        case 3: parts.push_back(r.pick(parts)); bad = assemble(parts); break;
        case 4: {
            // an operator nobody has heard of
            if (cons.empty())
                return;
            auto [b, e] = r.pick(cons);
            auto label_end = text.find(' ', b);
            auto op_end = text.find_first_of(" )", label_end + 1);
            op = r.pick(vector<string>{"frobnicate", "tables", "Abs", "abs2", "all_differentt", "xor_"});
            bad = text.substr(0, label_end + 1) + op + text.substr(op_end);
            break;
        }
        case 5: {
            // a declaration taken away: every mention is of something undeclared
            if (decls.empty())
                return;
            auto i = static_cast<size_t>(r.range(0, static_cast<ll>(decls.size()) - 1));
            auto name = names_in(text)[i];
            bad = text.substr(0, decls[i].first) + text.substr(decls[i].second);
            // mentioned at all?
            auto rest = text.substr(sections[2].first);
            bool mentioned = false;
            for (size_t at = rest.find(name); at != string::npos; at = rest.find(name, at + 1))
                if (at && (rest[at - 1] == ' ' || rest[at - 1] == '(') && (rest[at + name.size()] == ' ' || rest[at + name.size()] == ')'))
                    mentioned = true;
            // anonymous variables are numbered, so a gap shows
            definite = mentioned || (! m.named && i + 1 < decls.size());
            // a constraint's label may be spelled like an anonymous variable
            if (! m.named)
                definite = i + 1 < decls.size();
            break;
        }
        case 6: {
            if (decls.empty())
                return;
            auto d = r.pick(decls);
            bad = text.substr(0, d.second) + " " + text.substr(d.first, d.second - d.first) + text.substr(d.second);
            break;
        }
        case 7: {
            auto d = r.pick(decls);
            auto name_end = text.find(' ', d.first);
            bad = text.substr(0, name_end) + r.pick(vector<string>{" 3 2)", " 1)", " 0 1 2)", " a b)", " 0 9223372036854775808)", " 0 1.5)", ")", " (0 1) 2)", " 0x1 2)"}) + text.substr(d.second);
            break;
        }
        case 8: bad = text.substr(0, static_cast<size_t>(r.range(0, static_cast<ll>(text.find_last_of(')')) - 1))); break;
        case 9: bad = text + r.pick(vector<string>{")", "(", "x", "()", " (version 1)"}); break;
        case 10: {
            // the same label twice
            if (cons.empty())
                return;
            auto d = r.pick(cons);
            bad = text.substr(0, d.second) + " " + text.substr(d.first, d.second - d.first) + text.substr(d.second);
            break;
        }
        case 11:
            parts[3] = "(prob_type " + r.pick(vector<string>{"(minimize nobody)", "(minimise v0)", "maximize", "(maximize)", "", "enumerate enumerate", "satisfy", "(maximize 1 2)", "(minimize 1.5)", "((minimize 1))"}) + ")";
            bad = assemble(parts);
            break;
        case 12: {
            // a constraint with nothing but a label, or a bare atom
            bad = text.substr(0, sections[2].second - 1) + r.pick(vector<string>{" (lonely)", " lonely", " ()", " ((a) abs 1 1)"}) + ")" + text.substr(sections[2].second);
            break;
        }
        default: {
            // anything at all: no crash, whatever is made of it
            definite = false;
            int n = static_cast<int>(r.range(1, 4));
            for (int k = 0; k < n && ! bad.empty(); ++k) {
                auto i = static_cast<size_t>(r.range(0, static_cast<ll>(bad.size()) - 1));
                switch (r.range(0, 2)) {
                case 0: bad.erase(i, static_cast<size_t>(r.range(1, 4))); break;
                case 1: bad.insert(i, r.pick(vector<string>{" ", "(", ")", "-", "1", "9", "v0", " () ", " 0 ", "_1", "+", "=", ">=", "99999999999999999999"})); break;
                default: bad[i] = r.pick(vector<char>{' ', '(', ')', '-', '0', '7', 'v', '_', '*', '='}); break;
                }
            }
        }
        }
        c.describe("damage " + std::to_string(kind) + ":\n" + bad);
        string what;
        bool rejected = false;
        try {
            Problem q;
            auto got = read_scp(q, bad);
            (void) got;
        }
        catch (const ScpUnsupportedConstraintError & e) {
            rejected = true;
            ++c.evaluations;
            if (! op.empty())
                VH_CHECK(e.operator_name() == op, "wrong-operator", "the unsupported operator is reported as " + e.operator_name());
            op.clear();
        }
        catch (const std::exception & e) {
            rejected = true;
            what = e.what();
        }
        VH_CHECK(rejected || ! definite, "damage-accepted", "a damaged description was accepted");
        VH_CHECK(op.empty(), "operator-not-reported", "the unknown operator was rejected differently: " + what);
        c.count(rejected ? "rejected" : "accepted");
        if (rejected)
            c.nontrivial(bad);
    }

    // ---- the solver program

    struct Ran
    {
        int status = -1;
        string out;
    };
    auto run_program(Ctx & c, vector<string> args) -> Ran
    {
        auto exe = string{getenv("VERIF_BIN") ? getenv("VERIF_BIN") : "."} + "/scp_solver";
        auto out = c.tmp + "/stdout";
        Ran ran;
        auto pid = fork();
        if (pid == 0) {
            int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 1);
            dup2(open("/dev/null", O_WRONLY), 2);
            rlimit lim{60, 60};
            setrlimit(RLIMIT_CPU, &lim);
            vector<char *> argv{exe.data()};
            for (auto & a : args)
                argv.push_back(a.data());
            argv.push_back(nullptr);
            execv(exe.c_str(), argv.data());
            _exit(125);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        ran.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        if (ran.status == 125) {
            std::cerr << "cannot run " << exe << "\n";
            std::exit(2);
        }
        ran.out = slurp(out);
        return ran;
    }

    auto program_case(Ctx & c, Rng & r) -> void
    {
        auto m = random_model(c, r, 300, false);
        if (m.in.cons.empty() || m.in.doms.empty())
            return;
        c.describe(m.str());
        string text;
        {
            Problem p;
            auto ids = build(m.in, p, m.named);
            post_objective(p, m, ids);
            try {
                text = write(c, p);
            }
            catch (const UnimplementedException &) {
                return;
            }
        }
        // one the library refuses is the program's to refuse as well
        bool readable = true;
        try {
            Problem q;
            auto got = read_scp(q, text);
            if (got.variables.size() != m.in.doms.size())
                return;
        }
        catch (const MessageException &) {
            readable = false;
        }
        auto file = c.tmp + "/in.scp";
        bool unknown = readable && r.chance(1, 10);
        if (unknown) {
            auto at = text.find("(constraints") + 12;
            text.insert(at, " (zz frobnicate 1 2) ");
        }
        put(file, text);
        bool all = r.chance(1, 2), parse_only = r.chance(1, 8), stats = r.chance(1, 4), prove = r.chance(1, 6);
        vector<string> args;
        if (all)
            args.push_back("--all");
        if (stats)
            args.push_back("--stats");
        if (parse_only)
            args.push_back("--parse-only");
        auto base = c.tmp + "/sp";
        if (prove) {
            args.push_back("--prove");
            args.push_back("--proof-files-basename");
            args.push_back(base);
        }
        args.insert(r.chance(1, 2) ? args.begin() : args.end(), file);
        c.describe(m.str() + " || glasgow_scp_solver " + join(args, " ") + "\n" + text);
        auto ran = run_program(c, args);
        std::remove(file.c_str());
        auto say = [&] { return " status " + std::to_string(ran.status) + ", output:\n" + ran.out.substr(0, 1500); };
        VH_CHECK(ran.status != 99, "crash: sanitizer report from the program", "the program ended with" << say()); // only sanitizers end it so
        if (! readable) {
            VH_CHECK(ran.status != 0 && ran.status < 1000, "program-refusal", "the library refuses this description, the program gives" + say());
            c.count("program_refused");
            return;
        }
        if (unknown) {
            VH_CHECK(ran.status == 2, "program-unknown-keyword", "an unknown keyword is to end with status 2, not" + say());
            c.count("program_unknown_keyword");
            return;
        }
        if (prove && ! parse_only && ran.status >= 1000) {
            c.count("proof_writer_died"); // judged by the proof monitors
            return;
        }
        VH_CHECK(ran.status == 0, "program-status", "the program ended with" + say());
        if (parse_only) {
            VH_CHECK(ran.out.empty(), "program-parse-only", "asked only to parse, it gave" + say());
            c.count("program_parse_only");
            return;
        }
        // name=value lines
        vector<A> sols;
        std::istringstream in{ran.out};
        string line;
        bool in_stats = false, saw_stats = false;
        while (std::getline(in, line)) {
            if (line.find('=') == string::npos || in_stats) {
                in_stats = true;
                saw_stats = saw_stats || ! line.empty();
                VH_CHECK(stats, "program-output", "an unexpected line '" + line + "' in" + say());
                continue;
            }
            A a(m.in.doms.size());
            vector<bool> seen(m.in.doms.size());
            std::istringstream ls{line};
            string tok;
            while (ls >> tok) {
                auto eq = tok.find('=');
                bool found = false;
                for (size_t i = 0; i < a.size() && eq != string::npos; ++i)
                    if (tok.substr(0, eq) == name_of(m, i)) {
                        a[i] = std::stoll(tok.substr(eq + 1));
                        found = ! seen[i];
                        seen[i] = true;
                    }
                VH_CHECK(found, "program-output", "unexpected '" + tok + "' in" + say());
            }
            VH_CHECK(std::find(seen.begin(), seen.end(), false) == seen.end(), "program-output", "a variable is missing in" + say());
            sols.push_back(a);
        }
        VH_CHECK(! stats || saw_stats, "program-stats", "statistics were asked for, and not given:" + say());
        auto want = m.in.all_solutions();
        if (m.objective) {
            std::optional<ll> last, best;
            auto cost = [&](const A & a) { return m.maximise ? -m.objective->at(a) : m.objective->at(a); };
            for (auto & a : want)
                best = best ? std::min(*best, cost(a)) : cost(a);
            for (auto & a : sols) {
                VH_CHECK(m.in.ok(a), "program-answer", "not a solution: " + show(a) + " in" + say());
                VH_CHECK(! last || cost(a) < *last, "program-answer", "no improvement: " + show(a) + " in" + say());
                last = cost(a);
            }
            VH_CHECK(last == best, "program-answer", "the optimum is " + (best ? std::to_string(*best) : string{"none"}) + ", not as in" + say());
            c.count("program_optimised");
        }
        else if (all) {
            auto diff = compare_solutions(want, sols);
            VH_CHECK(diff.empty(), "program-answer", diff + ", with" + say());
            c.count("program_enumerated");
        }
        else {
            VH_CHECK(sols.size() == (want.empty() ? 0u : 1u), "program-answer", "one solution was asked for:" + say());
            for (auto & a : sols)
                VH_CHECK(m.in.ok(a), "program-answer", "not a solution: " + show(a) + " in" + say());
            c.count("program_one");
        }
        if (prove) {
            for (auto s : {".opb", ".pbp"})
                VH_CHECK(! slurp(base + s).empty(), "program-proof", string{"no "} + s + " file was written");
            for (auto s : {".opb", ".pbp", ".varmap", ".scp"})
                std::remove((base + s).c_str());
            c.count("program_proved");
        }
        c.nontrivial(ran.out + text);
    }
}

int main(int argc, char * argv[])
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        try {
            if (c.mode == "roundtrip")
                roundtrip_case(c, r);
            else if (c.mode == "damaged")
                damaged_case(c, r);
            else if (c.mode == "program")
                program_case(c, r);
            else {
                std::cerr << "unknown mode " << c.mode << "\n";
                std::exit(2);
            }
        }
        catch (const InvalidProblemDefinitionException & e) {
            if (string{e.what()}.find("same variable handle") == string::npos && string{e.what()}.find("same underlying variable handle") == string::npos)
                throw;
            if (! the_instance_is_aliased)
                throw;
            c.count("rejected_as_documented");
        }
    });
}

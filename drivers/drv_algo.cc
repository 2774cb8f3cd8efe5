// Monitors for the self-contained algorithms: s-expressions, string regexes,
// difference-graph passes, restart schedules.
#include "regex_ref.hh"
#include "vh.hh"
#include <gcs/constraints/difference/difference_incremental.hh>
#include <gcs/constraints/difference/difference_simplify.hh>
#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>
#include <gcs/innards/s_expr.hh>
#include <gcs/restarts.hh>
#include <format>
#include <memory>
#include <optional>

using namespace gcs;
using namespace gcs::innards;
using namespace vh;
using namespace rx;
using std::optional;

// ---------------------------------------------------------------- s-expressions
struct Tree
{
    bool atom;
    string text;
    vector<Tree> kids;
};

static auto random_tree(Rng & r, int depth) -> Tree
{
    static const string chars = "abz_09-+=<>!~,.;:[]{}@#$%^&*/\\|\"'`?AZ";
    if (depth == 0 || r.chance(1, 2)) {
        string s;
        int n = r.range(1, 6);
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 20))
                s += static_cast<char>(r.range(128, 255)); // utf-8 and other high bytes are atom characters
            else if (r.chance(1, 60))
                s += static_cast<char>(r.range(1, 8)); // control characters that are not whitespace
            else
                s += chars[r.range(0, (ll)chars.size() - 1)];
        }
        return Tree{true, s, {}};
    }
    Tree t{false, "", {}};
    int n = r.range(0, 5);
    for (int i = 0; i < n; ++i)
        t.kids.push_back(random_tree(r, depth - 1));
    return t;
}

static auto canonical(const Tree & t) -> string
{
    if (t.atom)
        return t.text;
    string s = "(";
    for (size_t i = 0; i < t.kids.size(); ++i)
        s += (i ? " " : "") + canonical(t.kids[i]);
    return s + ")";
}

static auto ws(Rng & r, bool need) -> string
{
    static const string w = " \t\n\r\f\v";
    int n = r.range(need ? 1 : 0, 3);
    string s;
    for (int i = 0; i < n; ++i)
        s += w[r.range(0, 5)];
    return s;
}

// render with arbitrary whitespace; atoms need a separator only from other atoms
static auto messy(Rng & r, const Tree & t) -> string
{
    if (t.atom)
        return t.text;
    string s = "(" + ws(r, false);
    for (size_t i = 0; i < t.kids.size(); ++i) {
        bool need = i > 0 && t.kids[i].atom && t.kids[i - 1].atom;
        s += (i ? ws(r, need) : "") + messy(r, t.kids[i]);
    }
    return s + ws(r, false) + ")";
}

static auto same(const SExpr & e, const Tree & t) -> bool
{
    if (t.atom)
        return e.is_atom() && ! e.is_list() && e.as_atom() == t.text;
    if (! e.is_list() || e.is_atom() || e.as_list().size() != t.kids.size())
        return false;
    for (size_t i = 0; i < t.kids.size(); ++i)
        if (! same(e.as_list()[i], t.kids[i]))
            return false;
    return true;
}

// independent judgement of a text: number of top-level terms, or -1 if malformed
static auto count_terms(const string & s) -> int
{
    int depth = 0, terms = 0;
    bool in_atom = false;
    for (char ch : s) {
        bool sp = ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\f' || ch == '\v';
        if (sp)
            in_atom = false;
        else if (ch == '(') {
            in_atom = false;
            if (depth++ == 0)
                ++terms;
        }
        else if (ch == ')') {
            in_atom = false;
            if (--depth < 0)
                return -1;
        }
        else {
            if (! in_atom && depth == 0)
                ++terms;
            in_atom = true;
        }
    }
    return depth == 0 ? terms : -1;
}

static auto build_expr(const Tree & t) -> SExpr
{
    if (t.atom)
        return SExpr::atom(t.text);
    vector<SExpr> k;
    for (auto & x : t.kids)
        k.push_back(build_expr(x));
    return SExpr::list(std::move(k));
}

static auto sexpr_case(Ctx & c, Rng & r) -> void
{
    for (int rep = 0; rep < 20; ++rep) {
        Tree t = random_tree(r, r.range(0, 5));
        if (r.chance(1, 40)) { // deep nesting
            int d = r.range(50, 400);
            for (int i = 0; i < d; ++i) {
                Tree o{false, "", {}};
                o.kids.push_back(std::move(t));
                t = std::move(o);
            }
        }
        string can = canonical(t), in = ws(r, false) + messy(r, t) + ws(r, false);
        c.describe("s-expr " + in);
        c.nontrivial(can);
        auto e = parse_s_expr(in);
        VH_CHECK(same(e, t), "sexpr-structure", "parsing <" << in << "> gave <" << std::format("{}", e) << ">");
        VH_CHECK(std::format("{}", e) == can, "sexpr-canonical", "canonical form of <" << in << "> is <" << std::format("{}", e) << "> expected <" << can << ">");
        auto again = parse_s_expr(can);
        VH_CHECK(again == e && std::format("{}", again) == can, "sexpr-roundtrip", "re-reading <" << can << ">");
        VH_CHECK(build_expr(t) == e, "sexpr-equality", "built and parsed terms differ for <" << can << ">");
        string bare = t.atom ? can : can.substr(1, can.size() - 2);
        VH_CHECK(std::format("{:#}", e) == bare, "sexpr-bare", "bare form of <" << can << "> is <" << std::format("{:#}", e) << ">");
        bool threw = false;
        try {
            if (t.atom)
                (void)e.as_list();
            else
                (void)e.as_atom();
        }
        catch (const SExprParseError &) {
            threw = true;
        }
        VH_CHECK(threw, "sexpr-kind", "wrong-kind access accepted on <" << can << ">");
        // sequences
        {
            int n = r.range(0, 4);
            string text = ws(r, false);
            vector<Tree> ts;
            for (int i = 0; i < n; ++i) {
                ts.push_back(random_tree(r, 2));
                text += messy(r, ts.back()) + ws(r, true);
            }
            auto seq = parse_s_expr_seq(text);
            bool ok = seq.size() == ts.size();
            for (size_t i = 0; ok && i < ts.size(); ++i)
                ok = same(seq[i], ts[i]);
            VH_CHECK(ok, "sexpr-sequence", "sequence <" << text << "> gave " << seq.size() << " terms");
        }
        // hostile edits
        string bad = in;
        int edits = r.range(1, 4);
        for (int i = 0; i < edits; ++i) {
            ll at = r.range(0, (ll)bad.size());
            switch (r.range(0, 3)) {
            case 0:
                if (at < (ll)bad.size())
                    bad.erase(at, 1);
                break;
            case 1: bad.insert(bad.begin() + at, r.chance(1, 2) ? ')' : '('); break;
            case 2: bad.resize(at); break;
            default: bad.insert(bad.begin() + at, r.chance(1, 2) ? ' ' : 'x'); break;
            }
        }
        c.describe("s-expr edited " + bad);
        int terms = count_terms(bad);
        bool ok1 = true, okn = true;
        size_t nseq = 0;
        try {
            auto x = parse_s_expr(bad);
            VH_CHECK(parse_s_expr(std::format("{}", x)) == x, "sexpr-roundtrip", "re-reading <" << bad << ">");
        }
        catch (const SExprParseError &) {
            ok1 = false;
        }
        try {
            nseq = parse_s_expr_seq(bad).size();
        }
        catch (const SExprParseError &) {
            okn = false;
        }
        c.count(terms < 0 ? "malformed" : terms == 1 ? "single"
                                                       : "other");
        VH_CHECK(ok1 == (terms == 1), "sexpr-accept", "<" << bad << "> " << (ok1 ? "accepted" : "rejected") << " as a single term; it has " << terms);
        VH_CHECK(okn == (terms >= 0) && (! okn || (int)nseq == terms), "sexpr-accept", "<" << bad << "> read as a sequence of " << nseq << (okn ? "" : " (rejected)") << "; it has " << terms);
    }
    if (c.current_case % 53 == 0)
        c.sample("s-expressions with arbitrary whitespace, then random edits");
}

// ---------------------------------------------------------------- regular expressions

static auto regex_case(Ctx & c, Rng & r) -> void
{
    ll lo = r.range(0, 2), hi = lo + r.range(0, 3);
    string re = random_regex(r, r.range(0, 2), hi + 2);
    if (r.chance(1, 6)) { // hostile edits
        static const string ch = "|+*()?{},.[]-^ 0127x~";
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            ll at = r.range(0, (ll)re.size());
            if (r.chance(1, 2) && at < (ll)re.size())
                re.erase(at, 1);
            else
                re.insert(at, 1, ch[r.range(0, (ll)ch.size() - 1)]);
        }
    }
    if (r.chance(1, 30))
        re = r.chance(1, 2) ? "" : "99999999999999999999" + re;
    c.describe("regex <" + re + "> over " + std::to_string(lo) + ".." + std::to_string(hi));
    vector<Integer> alphabet;
    std::set<ll> al;
    for (ll v = lo; v <= hi; ++v) {
        alphabet.push_back(Integer{v});
        al.insert(v);
    }
    ReP ref;
    bool refok = true;
    // repetition counts and ranges beyond reason would only exhaust memory
    {
        ll run = 0;
        bool big = false;
        for (size_t i = 0; i < re.size(); ++i) {
            run = isdigit((unsigned char)re[i]) ? run + 1 : 0;
            if (run > 3 && run < 19)
                big = true;
        }
        if (big)
            return;
        size_t reps = std::count(re.begin(), re.end(), '{');
        for (size_t i = 0; i + 3 < re.size(); ++i)
            if ((re[i] == '{' || re[i] == ',') && isdigit((unsigned char)re[i + 1]) && isdigit((unsigned char)re[i + 2]))
                return;
        if (reps > 8)
            return;
    }
    try {
        ReParser p{re, al};
        ref = p.alt();
        p.skip();
        if (p.p != re.size())
            refok = false;
        for (char ch : re)
            if (! strchr("|+*()?{},.[]-^ \t\n0123456789", ch))
                refok = false;
    }
    catch (int) {
        refok = false;
    }
    optional<RegexNfa> nfa;
    try {
        nfa = regex_to_nfa(re, alphabet);
    }
    catch (const InvalidProblemDefinitionException &) {
    }
    VH_CHECK(nfa.has_value() == refok, "regex-syntax", "<" << re << "> " << (nfa ? "accepted" : "rejected") << " but the grammar says " << refok);
    if (! nfa) {
        c.count("rejected");
        return;
    }
    VH_CHECK(nfa->num_states >= 1 && (long)nfa->transitions.size() == nfa->num_states, "regex-automaton", "states " << nfa->num_states << " transitions " << nfa->transitions.size());
    std::set<long> finals;
    for (auto f : nfa->final_states)
        VH_CHECK(f >= 0 && f < nfa->num_states && finals.insert(f).second, "regex-automaton", "bad final state " << f);
    for (auto & t : nfa->transitions)
        for (auto & [v, to] : t) {
            VH_CHECK(! to.empty(), "regex-automaton", "empty target set");
            for (auto q : to)
                VH_CHECK(q >= 0 && q < nfa->num_states, "regex-automaton", "target " << q << " out of range");
        }
    ll symmax = hi + 3;
    int maxlen = symmax <= 4 ? 5 : 4;
    vector<ll> w;
    ull accepted = 0, total = 0, sig = 0;
    auto rec = [&](auto & self, std::set<long> states) -> void {
        bool acc = false;
        for (auto q : states)
            if (finals.contains(q))
                acc = true;
        auto ends = match(*ref, w, {0});
        bool want = ends.contains(w.size());
        VH_CHECK(acc == want, "regex-language", "<" << re << "> over " << lo << ".." << hi << ": word (" << join(w) << ") automaton says " << acc << " expression says " << want);
        ++total;
        accepted += acc;
        sig = sig * 31 + acc;
        if (total % 7 == 0) {
            vector<Integer> iw;
            for (auto v : w)
                iw.push_back(Integer{v});
            VH_CHECK(regex_reference_accepts(re, alphabet, iw) == want, "regex-reference", "<" << re << ">: reference matcher disagrees on (" << join(w) << ")");
        }
        if ((int)w.size() == maxlen)
            return;
        for (ll v = 0; v <= symmax; ++v) {
            std::set<long> nx;
            for (auto q : states) {
                auto it = nfa->transitions[q].find(Integer{v});
                if (it != nfa->transitions[q].end())
                    nx.insert(it->second.begin(), it->second.end());
            }
            w.push_back(v);
            if (nx.empty()) {
                // the reference must reject every extension too; sample them
                bool any = match(*ref, w, {0}).contains(w.size());
                VH_CHECK(! any, "regex-language", "<" << re << ">: word (" << join(w) << ") rejected by the automaton but matched");
                ++total;
                // one random continuation
                if ((int)w.size() < maxlen) {
                    w.push_back(v);
                    VH_CHECK(! match(*ref, w, {0}).contains(w.size()), "regex-language", "<" << re << ">: word (" << join(w) << ") rejected by the automaton but matched");
                    w.pop_back();
                }
            }
            else
                self(self, nx);
            w.pop_back();
        }
    };
    rec(rec, {0});
    c.count("words", total);
    c.count("accepted_words", accepted);
    c.count("compiled");
    if (accepted && accepted < total)
        c.nontrivial(sig);
    if (c.current_case % 211 == 0)
        c.sample("<" + re + "> accepts " + std::to_string(accepted) + " of " + std::to_string(total) + " words");
}

// ---------------------------------------------------------------- difference graphs
static const ll INF = 1LL << 50;

static auto apsp(size_t n, const vector<std::tuple<size_t, size_t, ll>> & es, bool & neg) -> vector<vector<ll>>
{
    vector<vector<ll>> d(n, vector<ll>(n, INF));
    for (size_t i = 0; i < n; ++i)
        d[i][i] = 0;
    for (auto & [u, v, w] : es)
        d[u][v] = std::min(d[u][v], w);
    for (size_t k = 0; k < n; ++k)
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (d[i][k] < INF && d[k][j] < INF)
                    d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    neg = false;
    for (size_t i = 0; i < n; ++i)
        if (d[i][i] < 0)
            neg = true;
    return d;
}

static auto simplify_case(Ctx & c, Rng & r) -> void
{
    size_t n = r.range(1, 7);
    int m = r.range(0, 14);
    ll wide = r.chance(1, 2) ? 3 : 10;
    ll bias = r.range(-1, 3);
    vector<DifferenceSimplifyEdge> es;
    vector<DifferenceSimplifyRole> roles;
    vector<ll> pot(n);
    for (auto & p : pot)
        p = r.range(-8, 8);
    bool consistent = r.chance(2, 3);
    string d = std::to_string(n) + ":";
    for (int i = 0; i < m; ++i) {
        size_t u = r.range(0, (ll)n - 1), v = r.range(0, (ll)n - 1);
        auto role = r.chance(1, 2) ? DifferenceSimplifyRole::Base : r.chance(2, 3) ? DifferenceSimplifyRole::Candidate
                                                                                    : DifferenceSimplifyRole::Ignored;
        ll w = r.range(-wide, wide) + bias;
        if (consistent && role == DifferenceSimplifyRole::Base)
            w = pot[v] - pot[u] + (r.chance(1, 2) ? 0 : r.range(0, 3)); // so that no base cycle is negative, and zero cycles abound
        if (! es.empty() && r.chance(1, 6)) { // duplicates
            auto & o = r.pick(es);
            u = o.from;
            v = o.to;
            if (r.chance(1, 2) && ! (consistent && role == DifferenceSimplifyRole::Base))
                w = o.d.raw_value;
        }
        es.push_back({u, v, Integer{w}});
        roles.push_back(role);
        if (consistent && role == DifferenceSimplifyRole::Base && pot[v] - pot[u] > w)
            es.back().d = Integer{pot[v] - pot[u]};
        d += " " + std::to_string(u) + "->" + std::to_string(v) + "/" + es.back().d.to_string() + (role == DifferenceSimplifyRole::Base ? "B" : role == DifferenceSimplifyRole::Candidate ? "C"
                                                                                                                                                                                            : "I");
    }
    c.describe("simplify " + d);
    auto out = simplify_difference_graph(n, es, roles);
    vector<std::tuple<size_t, size_t, ll>> base;
    for (size_t e = 0; e < es.size(); ++e)
        if (roles[e] == DifferenceSimplifyRole::Base)
            base.emplace_back(es[e].from, es[e].to, es[e].d.raw_value);
    bool neg;
    auto D = apsp(n, base, neg);
    VH_CHECK(out.base_negative_cycle == neg, "simplify-cycle", d << ": negative cycle reported " << out.base_negative_cycle);
    if (neg) {
        c.count("negative_cycle");
        return;
    }
    VH_CHECK(out.remove.size() == es.size(), "simplify-shape", d);
    // removing the redundant edges must not change any distance, whichever conditions become active
    for (int t = 0; t < 6; ++t) {
        vector<std::tuple<size_t, size_t, ll>> full = base, red;
        for (size_t e = 0; e < es.size(); ++e) {
            auto tup = std::make_tuple(es[e].from, es[e].to, es[e].d.raw_value);
            bool act = roles[e] == DifferenceSimplifyRole::Base || (roles[e] == DifferenceSimplifyRole::Candidate && t > 0 && r.chance(t, 6));
            if (! act)
                continue;
            if (roles[e] != DifferenceSimplifyRole::Base)
                full.push_back(tup);
            if (! out.remove[e])
                red.push_back(tup);
        }
        bool nf, nr;
        auto df = apsp(n, full, nf), dr = apsp(n, red, nr);
        VH_CHECK(nf == nr, "simplify-redundant", d << ": dropping redundant edges changed feasibility");
        if (! nf)
            VH_CHECK(df == dr, "simplify-redundant", d << ": dropping redundant edges changed a distance");
    }
    size_t removed = 0, strictly = 0;
    for (size_t e = 0; e < es.size(); ++e) {
        removed += out.remove[e];
        auto dist = D[es[e].from][es[e].to];
        if (roles[e] == DifferenceSimplifyRole::Base && es[e].d.raw_value > dist) {
            ++strictly;
            VH_CHECK(out.remove[e], "simplify-weak", d << ": edge " << e << " is strictly longer than a path but was kept");
        }
        if (roles[e] == DifferenceSimplifyRole::Candidate && es[e].d.raw_value >= dist)
            VH_CHECK(out.remove[e], "simplify-weak", d << ": conditional edge " << e << " adds nothing but was kept");
    }
    std::set<size_t> fixed;
    for (auto & [e, path] : out.fix) {
        VH_CHECK(e < es.size() && roles[e] == DifferenceSimplifyRole::Candidate && fixed.insert(e).second, "simplify-fix", d << ": fix of edge " << e);
        ll w = es[e].d.raw_value;
        size_t at = es[e].to;
        for (auto p : path) {
            VH_CHECK(p < es.size() && roles[p] == DifferenceSimplifyRole::Base && es[p].from == at, "simplify-witness", d << ": witness for " << e << " is not a path of unconditional edges");
            w += es[p].d.raw_value;
            at = es[p].to;
        }
        VH_CHECK(at == es[e].from && w < 0, "simplify-witness", d << ": witness for " << e << " is not a negative cycle (weight " << w << ")");
    }
    for (size_t e = 0; e < es.size(); ++e)
        if (roles[e] == DifferenceSimplifyRole::Candidate) {
            auto back = D[es[e].to][es[e].from];
            bool want = back < INF && back + es[e].d.raw_value < 0;
            VH_CHECK(fixed.contains(e) == want, "simplify-fix", d << ": condition of edge " << e << (want ? " must be fixed" : " must not be fixed"));
        }
    size_t on = 0, classes = 0;
    vector<bool> seen(n, false);
    for (size_t u = 0; u < n; ++u) {
        size_t k = 0;
        for (size_t v = 0; v < n; ++v)
            if (v != u && D[u][v] < INF && D[v][u] < INF && D[u][v] + D[v][u] == 0) {
                ++k;
                seen[v] = seen[v] || ! seen[u];
            }
        if (k) {
            ++on;
            bool first = true;
            for (size_t v = 0; v < u; ++v)
                if (D[u][v] < INF && D[v][u] < INF && D[u][v] + D[v][u] == 0)
                    first = false;
            classes += first;
        }
    }
    if (! es.empty())
        VH_CHECK(out.zero_weight_cycles == classes && out.nodes_on_zero_weight_cycles == on, "simplify-zero", d << ": zero cycles " << out.zero_weight_cycles << "/" << out.nodes_on_zero_weight_cycles << " expected " << classes << "/" << on);
    c.count("edges_removed", removed);
    c.count("conditions_fixed", fixed.size());
    if (removed || ! fixed.empty() || on)
        c.nontrivial(d);
    if (c.current_case % 997 == 0)
        c.sample(d);
}

static auto incremental_case(Ctx & c, Rng & r) -> void
{
    size_t n = r.range(1, 9);
    int m = r.range(1, 22);
    vector<DifferenceArc> arcs;
    vector<ll> pot(n);
    for (auto & p : pot)
        p = r.range(-8, 8);
    bool uncond = r.chance(1, 6);
    string d = std::to_string(n) + ":";
    for (int i = 0; i < m; ++i) {
        size_t u = r.range(0, (ll)n - 1), v = r.range(0, (ll)n - 1);
        ll w = r.chance(4, 5) ? pot[v] - pot[u] + (r.chance(1, 2) ? 0 : r.range(0, 4)) : r.range(-4, 8);
        arcs.push_back({u, v, Integer{w}, (size_t)i});
        d += " " + std::to_string(u) + "->" + std::to_string(v) + "/" + std::to_string(w);
    }
    c.describe("incremental " + d);
    auto by_tail = build_difference_adjacency(n, arcs, true), by_head = build_difference_adjacency(n, arcs, false);
    for (int side = 0; side < 2; ++side) {
        auto & adj = side ? by_head : by_tail;
        VH_CHECK(adj.start.size() == n + 1 && adj.arcs.size() == arcs.size(), "adjacency", d);
        vector<int> seen(arcs.size(), 0);
        for (size_t v = 0; v < n; ++v)
            for (auto i = adj.start[v]; i != adj.start[v + 1]; ++i) {
                ++seen[adj.arcs[i]];
                VH_CHECK((side ? arcs[adj.arcs[i]].to : arcs[adj.arcs[i]].from) == v, "adjacency", d << ": arc in the wrong bucket");
            }
        for (auto s : seen)
            VH_CHECK(s == 1, "adjacency", d << ": arc listed " << s << " times");
    }
    vector<char> active(arcs.size(), 0);
    if (uncond)
        active.assign(arcs.size(), 1);
    else
        for (auto & a : active)
            a = r.chance(1, 4);
    auto edges_of = [&] {
        vector<std::tuple<size_t, size_t, ll>> es;
        for (size_t e = 0; e < arcs.size(); ++e)
            if (active[e])
                es.emplace_back(arcs[e].from, arcs[e].to, arcs[e].d.raw_value);
        return es;
    };
    vector<char> none;
    bool neg;
    apsp(n, edges_of(), neg);
    auto p = difference_initial_potential(n, arcs, uncond && r.chance(1, 2) ? none : active);
    VH_CHECK(p.has_value() == ! neg, "potential-initial", d << ": potential " << (p ? "found" : "not found") << " but negative cycle is " << neg);
    if (! p) {
        c.count("initially_infeasible");
        return;
    }
    auto potential = *p;
    auto valid = [&](const string & when) {
        optional<size_t> bad;
        for (size_t e = 0; e < arcs.size(); ++e)
            if (active[e] && (potential[arcs[e].from] + arcs[e].d - potential[arcs[e].to]).raw_value < 0) {
                bad = e;
                break;
            }
        VH_CHECK(! bad, "potential-invalid", d << ": potential violates arc " << *bad << " " << when);
        auto told = difference_invalid_potential_arc(arcs, active, potential);
        VH_CHECK(told == bad, "potential-audit", d << ": audit says otherwise " << when);
    };
    valid("initially");
    {
        auto pp = potential;
        pp[r.range(0, (ll)n - 1)] -= Integer{r.range(1, 9)};
        optional<size_t> bad;
        for (size_t e = 0; e < arcs.size() && ! bad; ++e)
            if (active[e] && (pp[arcs[e].from] + arcs[e].d - pp[arcs[e].to]).raw_value < 0)
                bad = e;
        VH_CHECK(difference_invalid_potential_arc(arcs, active, pp) == bad, "potential-audit", d << ": audit of a perturbed potential");
    }
    // reference fixpoints
    auto lb_fix = [&](vector<ll> b) {
        for (size_t i = 0; i <= n; ++i)
            for (size_t e = 0; e < arcs.size(); ++e)
                if (active[e])
                    b[arcs[e].to] = std::max(b[arcs[e].to], b[arcs[e].from] - arcs[e].d.raw_value);
        return b;
    };
    auto ub_fix = [&](vector<ll> b) {
        for (size_t i = 0; i <= n; ++i)
            for (size_t e = 0; e < arcs.size(); ++e)
                if (active[e])
                    b[arcs[e].from] = std::min(b[arcs[e].from], b[arcs[e].to] + arcs[e].d.raw_value);
        return b;
    };
    struct Frame
    {
        vector<ll> lb, ub;
        vector<Integer> glb, gub;
        vector<char> active;
    };
    Frame f;
    f.lb.resize(n);
    f.ub.resize(n);
    for (size_t i = 0; i < n; ++i) {
        f.lb[i] = r.range(-30, 0);
        f.ub[i] = r.range(0, 30);
    }
    f.lb = lb_fix(f.lb);
    f.ub = ub_fix(f.ub);
    for (size_t i = 0; i < n; ++i) {
        f.glb.push_back(Integer{f.lb[i]});
        f.gub.push_back(Integer{-f.ub[i]});
    }
    vector<Frame> stack;
    DifferencePotentialWorkspace pw;
    DifferenceBoundsWorkspace bw, uw;
    int steps = r.range(3, 20);
    ull sig = 7;
    for (int st = 0; st < steps; ++st) {
        if (r.chance(1, 5) && ! stack.empty()) { // backtrack: everything is restored except the potential
            f = stack.back();
            active = f.active;
            stack.pop_back();
            c.count("backtracks");
            valid("after backtracking");
            continue;
        }
        f.active = active;
        if (r.chance(1, 3))
            stack.push_back(f);
        vector<char> flb(n, 0), fub(n, 0);
        bool dead = false;
        int adds = uncond ? 0 : r.range(0, 3);
        for (int a = 0; a < adds && ! dead; ++a) {
            size_t e = r.range(0, (ll)arcs.size() - 1);
            if (active[e])
                continue;
            active[e] = 1;
            bool ng;
            apsp(n, edges_of(), ng);
            auto saved = potential;
            bool ok = difference_repair_potential(n, arcs, by_tail, active, potential, e, pw);
            VH_CHECK(ok == ! ng, "potential-repair", d << ": adding arc " << e << " reported " << (ok ? "feasible" : "infeasible") << ", negative cycle is " << ng);
            c.count(ok ? "repairs_ok" : "repairs_infeasible");
            if (! ok) {
                VH_CHECK(potential == saved, "potential-repair", d << ": a failed repair changed the potential");
                active[e] = 0;
                dead = true;
                break;
            }
            valid("after adding arc " + std::to_string(e));
            flb[arcs[e].from] = 1;
            fub[arcs[e].to] = 1;
        }
        // tighten some bounds
        int moves = r.range(0, 3);
        for (int q = 0; q < moves; ++q) {
            size_t v = r.range(0, (ll)n - 1);
            if (r.chance(1, 2))
                f.lb[v] += r.range(1, 6);
            else
                f.ub[v] -= r.range(1, 6);
        }
        // lower bounds
        vector<Integer> start;
        for (auto v : f.lb)
            start.push_back(Integer{v});
        difference_incremental_bounds(n, arcs, by_tail, true, active, potential, start, f.glb, flb, bw);
        auto check = [&](const vector<Integer> & start, vector<Integer> & gate, DifferenceBoundsWorkspace & w, bool tail, const vector<ll> & want, const char * what) {
            vector<Integer> after = start;
            std::set<size_t> settled;
            for (auto v : w.settle_order) {
                VH_CHECK(v < n && settled.insert(v).second, "incremental-order", d << ": " << what << " node settled twice");
                // a value weaker than what the node already has is not a claim about it
                if (w.settled_bound[v] > start[v]) {
                    VH_CHECK(w.has_predecessor[v], "incremental-justified", d << ": " << what << " bound of node " << v << " moved without a predecessor");
                    auto e = w.predecessor[v];
                    VH_CHECK(active[e], "incremental-predecessor", d << ": " << what << " predecessor arc is inactive");
                    auto u = tail ? arcs[e].from : arcs[e].to;
                    VH_CHECK((tail ? arcs[e].to : arcs[e].from) == v && settled.contains(u) && u != v && w.settled_bound[u] - arcs[e].d == w.settled_bound[v] && w.settled_bound[u] <= after[u], "incremental-predecessor", d << ": " << what << " bound of node " << v << " is not justified by its predecessor arc");
                    after[v] = w.settled_bound[v];
                }
            }
            for (size_t v = 0; v < n; ++v) {
                VH_CHECK(after[v].raw_value == want[v], "incremental-fixpoint", d << ": " << what << " of node " << v << " is " << after[v] << " but the from-scratch pass gives " << want[v]);
                sig = sig * 31 + after[v].raw_value;
            }
            for (auto v : w.settle_order)
                if (w.settled_bound[v] > gate[v])
                    gate[v] = w.settled_bound[v];
            c.count("settled", w.settle_order.size());
        };
        check(start, f.glb, bw, true, lb_fix(f.lb), "lower bound");
        f.lb = lb_fix(f.lb);
        vector<Integer> nstart, npot;
        vector<ll> wantneg;
        for (auto v : f.ub)
            nstart.push_back(Integer{-v});
        for (auto v : potential)
            npot.push_back(-v);
        difference_incremental_bounds(n, arcs, by_head, false, active, npot, nstart, f.gub, fub, uw);
        auto ufx = ub_fix(f.ub);
        for (auto v : ufx)
            wantneg.push_back(-v);
        check(nstart, f.gub, uw, false, wantneg, "negated upper bound");
        f.ub = ufx;
        c.count("wakes");
    }
    c.nontrivial(sig);
    if (c.current_case % 499 == 0)
        c.sample(d);
}

static auto luby_ref(ull i) -> ull
{
    for (ull k = 1; k < 63; ++k)
        if (i == (1ULL << k) - 1)
            return 1ULL << (k - 1);
    ull k = 1;
    while ((1ULL << k) - 1 <= i)
        ++k;
    return luby_ref(i - (1ULL << (k - 1)) + 1);
}

static auto luby_case(Ctx & c, Rng & r) -> void
{
    ull scale = r.chance(1, 4) ? 100 : r.range(1, r.chance(1, 2) ? 10 : 100000);
    auto s = r.chance(1, 6) ? RestartSchedule::luby() : RestartSchedule::luby(scale);
    if (s.current_cutoff() == 100)
        scale = 100;
    c.describe("luby scale " + std::to_string(scale));
    int n = r.range(1, r.chance(1, 10) ? 70000 : 600);
    ull total = 0;
    for (int i = 1; i <= n; ++i) {
        auto copy = s;
        VH_CHECK(s.current_cutoff() == luby_ref(i) * scale, "luby-term", "term " << i << " with scale " << scale << " is " << s.current_cutoff());
        VH_CHECK(s.current_cutoff() == copy.current_cutoff(), "luby-copy", "a copy differs");
        total += s.current_cutoff();
        s.advance();
        VH_CHECK(copy.current_cutoff() == luby_ref(i) * scale, "luby-copy", "advancing one schedule moved its copy");
    }
    c.nontrivial(std::to_string(n) + "/" + std::to_string(scale));
    c.count("terms", n);
    c.sample("first " + std::to_string(n) + " cutoffs at scale " + std::to_string(scale) + ", total " + std::to_string(total));
}

int main(int argc, char * argv[])
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (c.mode == "sexpr")
            sexpr_case(c, r);
        else if (c.mode == "regex")
            regex_case(c, r);
        else if (c.mode == "simplify")
            simplify_case(c, r);
        else if (c.mode == "incremental")
            incremental_case(c, r);
        else if (c.mode == "luby")
            luby_case(c, r);
        else
            throw std::runtime_error("bad mode");
    });
}

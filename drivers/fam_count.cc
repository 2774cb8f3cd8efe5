// Counting, matching and ordering globals (group B).
#include "eng.hh"
#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <gcs/constraints/regular/regular_bacchus.hh>
#include <gcs/constraints/regular/regular_legacy.hh>
#include <gcs/constraints/power/power_table.hh>
#include <numeric>
using namespace gcs;
using namespace eng;
#define REG(group, name) static void f_##name(Gen & g); static Register r_##name(group, #name, f_##name); static void f_##name(Gen & g)

// The smart table decompositions need each tuple's entries to form a forest over
// distinct variables; repeats through views are covered by a separate check.
static auto repeats_a_variable(const Ops & a, const Ops & b) -> bool
{
    std::set<int> seen;
    for (auto * v : {&a, &b})
        for (auto & o : *v)
            if (o.v >= 0 && ! seen.insert(o.v).second)
                return true;
    return false;
}


static auto alldiff(const vector<ll> & v) -> bool
{
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = i + 1; j < v.size(); ++j)
            if (v[i] == v[j])
                return false;
    return true;
}

REG("B", all_different)
{
    int n = static_cast<int>(g.r.range(1, 5));
    auto o = g.ops(n, -1, n + 1, n + 2);
    bool vc = g.r.chance(1, 3);
    g.add("all_different", str(o) + (vc ? " VC" : ""), [=](const A & a) { return alldiff(at_of(o, a)); }, [=](const Ids & i) {
        AllDifferent c{ids_of(o, i)};
        if (vc)
            c.with_consistency(consistency::VC{});
        return mk(c);
    }, vc ? Level::None : Level::GAC);
}

REG("B", all_different_except)
{
    int n = static_cast<int>(g.r.range(1, 5));
    auto o = g.ops(n, -1, n, n + 2);
    bool zero = g.r.chance(1, 2);
    vector<ll> ex;
    if (zero)
        ex = {0};
    else
        for (int i = 0, k = static_cast<int>(g.r.range(0, 3)); i < k; ++i)
            ex.push_back(g.r.range(-1, n));
    g.add("all_different_except", str(o) + " except " + vh::join(ex), [=](const A & a) {
        vector<ll> v;
        for (auto x : at_of(o, a))
            if (std::find(ex.begin(), ex.end(), x) == ex.end())
                v.push_back(x);
        return alldiff(v);
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        if (zero)
            return mk(AllDifferentExceptZero{ids_of(o, i)});
        return mk(AllDifferentExcept{ids_of(o, i), IV(ex)});
    }, Level::GAC);
}

REG("B", symmetric_all_different)
{
    int n = static_cast<int>(g.r.range(1, 5));
    ll st = g.r.range(-1, 2);
    auto o = g.ops(n, st - (g.r.chance(1, 4) ? 1 : 0), st + n - 1 + (g.r.chance(1, 4) ? 1 : 0), n + 1);
    g.add("symmetric_all_different", str(o) + " start " + std::to_string(st), [=](const A & a) {
        auto v = at_of(o, a);
        for (int i = 0; i < n; ++i) {
            if (v[i] < st || v[i] >= st + n)
                return false;
            if (v[v[i] - st] != i + st)
                return false;
        }
        return true;
    }, [=](const Ids & i) { return mk(SymmetricAllDifferent{ids_of(o, i), I(st)}); });
}

REG("B", all_equal)
{
    int n = static_cast<int>(g.r.range(0, 4));
    auto o = g.ops(n, -2, 4, 7);
    g.add("all_equal", str(o), [=](const A & a) { auto v = at_of(o, a); for (auto x : v) if (x != v[0]) return false; return true; },
        [=](const Ids & i) { return mk(AllEqual{ids_of(o, i)}); }, Level::GAC);
}

REG("B", among)
{
    int n = static_cast<int>(g.r.range(1, 5));
    auto o = g.ops(n, -1, 3, 4);
    vector<ll> vals;
    for (int i = 0, k = static_cast<int>(g.r.range(1, 3)); i < k; ++i)
        vals.push_back(g.r.range(-2, 4));
    auto m = g.op(-1, n + 1, n + 2);
    g.add("among", str(o) + " among " + vh::join(vals) + " =" + m.str(), [=](const A & a) {
        ll k = 0;
        for (auto x : at_of(o, a))
            k += std::find(vals.begin(), vals.end(), x) != vals.end();
        return k == m.at(a);
    }, [=](const Ids & i) { return mk(Among{ids_of(o, i), IV(vals), m.id(i)}); }, Level::GAC);
}

REG("B", at_most_one)
{
    int n = static_cast<int>(g.r.range(0, 4));
    auto o = g.ops(n, -1, 3, 4);
    auto v = g.op(-1, 3, 5);
    bool smart = g.r.chance(1, 3) && ! v.is_const() && std::none_of(o.begin(), o.end(), [](const Op & x) { return x.is_const(); });
    smart = smart && ! repeats_a_variable(o, {v});
    g.add(smart ? "at_most_one_smart" : "at_most_one", str(o) + " value " + v.str(), [=](const A & a) {
        int k = 0;
        for (auto x : at_of(o, a))
            k += x == v.at(a);
        return k <= 1;
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        if (smart)
            return mk(AtMostOneSmartTable{ids_of(o, i), v.id(i)});
        return mk(AtMostOne{ids_of(o, i), v.id(i)});
    }, smart ? Level::None : Level::GAC);
}

REG("B", count)
{
    int n = static_cast<int>(g.r.range(1, 4));
    auto o = g.ops(n, -1, 3, 4);
    auto v = g.op(-2, 4, 4), m = g.op(-1, n + 1, n + 2);
    g.add("count", str(o) + " of " + v.str() + " =" + m.str(), [=](const A & a) {
        ll k = 0;
        for (auto x : at_of(o, a))
            k += x == v.at(a);
        return k == m.at(a);
    }, [=](const Ids & i) { return mk(Count{ids_of(o, i), v.id(i), m.id(i)}); });
}

REG("B", global_cardinality)
{
    int n = static_cast<int>(g.r.range(1, 4));
    auto o = g.ops(n, -1, 3, 4);
    vector<ll> vals;
    for (ll v = -2; v <= 4; ++v)
        if (g.r.chance(2, 5))
            vals.push_back(v);
    if (vals.empty())
        vals.push_back(1);
    g.r.shuffle(vals);
    if (vals.size() > 3)
        vals.resize(3);
    auto m = g.ops(static_cast<int>(vals.size()), -1, n, n + 1);
    bool gac = g.r.chance(1, 2), closed = g.r.chance(1, 2);
    g.add("global_cardinality", str(o) + " values " + vh::join(vals) + " counts " + str(m) + (gac ? " GAC" : "") + (closed ? " closed" : ""), [=](const A & a) {
        auto x = at_of(o, a);
        for (size_t i = 0; i < vals.size(); ++i)
            if (std::count(x.begin(), x.end(), vals[i]) != m[i].at(a))
                return false;
        if (closed)
            for (auto v : x)
                if (std::find(vals.begin(), vals.end(), v) == vals.end())
                    return false;
        return true;
    }, [=](const Ids & i) {
        GlobalCardinality c{ids_of(o, i), IV(vals), ids_of(m, i)};
        if (gac)
            c.with_consistency(consistency::GAC{});
        c.with_closed(closed);
        return mk(c);
    });
}

REG("B", increasing)
{
    int n = static_cast<int>(g.r.range(0, 5));
    auto o = g.ops(n, -2, 5, 6);
    int k = static_cast<int>(g.r.range(0, 3));
    static const char * nm[] = {"increasing", "strictly_increasing", "decreasing", "strictly_decreasing"};
    g.add(nm[k], str(o), [=](const A & a) {
        auto v = at_of(o, a);
        for (size_t i = 1; i < v.size(); ++i)
            if (! (k == 0 ? v[i - 1] <= v[i] : k == 1 ? v[i - 1] < v[i] : k == 2 ? v[i - 1] >= v[i] : v[i - 1] > v[i]))
                return false;
        return true;
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto v = ids_of(o, i);
        return k == 0 ? mk(Increasing{v}) : k == 1 ? mk(StrictlyIncreasing{v}) : k == 2 ? mk(Decreasing{v}) : mk(StrictlyDecreasing{v});
    }, Level::GAC);
}

REG("B", inverse)
{
    int n = static_cast<int>(g.r.range(1, 3));
    ll xs = g.r.chance(1, 2) ? 0 : g.r.range(-1, 2), ys = g.r.chance(1, 2) ? 0 : g.r.range(-1, 2);
    int slack = g.r.chance(1, 3) ? 1 : 0;
    auto x = g.ops(n, ys - slack, ys + n - 1 + slack, n + 2), y = g.ops(n, xs - slack, xs + n - 1 + slack, n + 2);
    g.add("inverse", str(x) + str(y) + " starts " + std::to_string(xs) + "," + std::to_string(ys), [=](const A & a) {
        auto p = at_of(x, a), q = at_of(y, a);
        for (int i = 0; i < n; ++i)
            if (p[i] < ys || p[i] >= ys + n || q[i] < xs || q[i] >= xs + n)
                return false;
        for (int i = 0; i < n; ++i)
            if (q[p[i] - ys] != i + xs)
                return false;
        return true;
    }, [=](const Ids & i) { return mk(Inverse{ids_of(x, i), ids_of(y, i), I(xs), I(ys)}); });
}

REG("B", lex)
{
    bool smart = g.r.chance(1, 8);
    int n = static_cast<int>(g.r.range(smart ? 1 : 0, 3)), m = smart || g.r.chance(2, 3) ? n : static_cast<int>(g.r.range(0, 3));
    auto x = g.ops(n, -1, 3, 4), y = g.ops(m, -1, 3, 4);
    int o = static_cast<int>(g.r.range(0, 3)), k = smart ? 0 : static_cast<int>(g.r.range(0, 2));
    if (smart)
        o = 2;
    for (auto * v : {&x, &y})
        for (auto & e : *v)
            smart = smart && ! e.is_const(); // smart tables say that they do not support constants
    smart = smart && ! repeats_a_variable(x, y);
    Cond c;
    if (k)
        c = g.cond();
    static const char * nm[] = {"<", "<=", ">", ">="};
    auto sem = [=](const A & a) {
        auto p = at_of(x, a), q = at_of(y, a);
        bool b = o == 0 ? p < q : o == 1 ? p <= q : o == 2 ? p > q : p >= q;
        return k == 0 ? b : k == 1 ? (! c.at(a) || b) : c.at(a) == b;
    };
    g.add(smart ? "lex_smart" : "lex", str(x) + nm[o] + str(y) + (k == 1 ? " if " : k == 2 ? " iff " : "") + (k ? c.str() : ""), sem, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto p = ids_of(x, i), q = ids_of(y, i);
        if (smart)
            return mk(LexSmartTable{p, q});
        if (k == 0)
            return o == 0 ? mk(LexLessThan{p, q}) : o == 1 ? mk(LexLessThanEqual{p, q}) : o == 2 ? mk(LexGreaterThan{p, q}) : mk(LexGreaterEqual{p, q});
        auto cc = c.cond(i);
        if (k == 1)
            return o == 0 ? mk(LexLessThanIf{p, q, cc}) : o == 1 ? mk(LexLessThanEqualIf{p, q, cc}) : o == 2 ? mk(LexGreaterThanIf{p, q, cc}) : mk(LexGreaterEqualIf{p, q, cc});
        return o == 0 ? mk(LexLessThanIff{p, q, cc}) : o == 1 ? mk(LexLessThanEqualIff{p, q, cc}) : o == 2 ? mk(LexGreaterThanIff{p, q, cc}) : mk(LexGreaterEqualIff{p, q, cc});
    }, smart || k ? Level::None : Level::GAC);
}

REG("B", n_value)
{
    int n = static_cast<int>(g.r.range(1, 5));
    auto o = g.ops(n, -1, 3, 4);
    auto m = g.op(-1, n + 1, n + 2);
    g.add("n_value", str(o) + "=" + m.str(), [=](const A & a) {
        auto v = at_of(o, a);
        std::set<ll> s(v.begin(), v.end());
        return static_cast<ll>(s.size()) == m.at(a);
    }, [=](const Ids & i) { return mk(NValue{m.id(i), ids_of(o, i)}); });
}

REG("B", sort)
{
    int n = static_cast<int>(g.r.range(1, 3));
    auto x = g.ops(n, -2, 4, 5), y = g.ops(n, -2, 4, 5);
    g.add("sort", str(x) + "->" + str(y), [=](const A & a) {
        auto p = at_of(x, a), q = at_of(y, a);
        std::sort(p.begin(), p.end());
        return p == q;
    }, [=](const Ids & i) { return mk(Sort{ids_of(x, i), ids_of(y, i)}); });
}

REG("B", arg_sort)
{
    int n = static_cast<int>(g.r.range(1, 3));
    ll off = g.r.chance(1, 2) ? 0 : g.r.range(-1, 2);
    int slack = g.r.chance(1, 4) ? 1 : 0;
    auto x = g.ops(n, -2, 4, 4), p = g.ops(n, off - slack, off + n - 1 + slack, n + 2);
    g.add("arg_sort", str(x) + "->" + str(p) + " offset " + std::to_string(off), [=](const A & a) {
        auto v = at_of(x, a), q = at_of(p, a);
        vector<std::pair<ll, ll>> s;
        for (int i = 0; i < n; ++i)
            s.emplace_back(v[i], i);
        std::sort(s.begin(), s.end());
        for (int i = 0; i < n; ++i)
            if (q[i] != s[i].second + off)
                return false;
        return true;
    }, [=](const Ids & i) { return mk(ArgSort{ids_of(x, i), ids_of(p, i), I(off)}); });
}

REG("B", seq_precede_chain)
{
    int n = static_cast<int>(g.r.range(0, 5));
    auto o = g.ops(n, -1, n + 1, 5);
    g.add("seq_precede_chain", str(o), [=](const A & a) {
        ll m = 0;
        for (auto v : at_of(o, a)) {
            if (v > m + 1)
                return false;
            m = std::max(m, v);
        }
        return true;
    }, [=](const Ids & i) { return mk(SeqPrecedeChain{ids_of(o, i)}); });
}

REG("B", value_precede)
{
    int n = static_cast<int>(g.r.range(0, 5));
    auto o = g.ops(n, -1, 3, 4);
    vector<ll> chain;
    bool two = g.r.chance(1, 2);
    for (int i = 0, k = two ? 2 : static_cast<int>(g.r.range(0, 4)); i < k; ++i)
        chain.push_back(g.r.range(-1, 4));
    g.add("value_precede", vh::join(chain) + " in " + str(o), [=](const A & a) {
        auto v = at_of(o, a);
        for (size_t j = 1; j < chain.size(); ++j) {
            bool seen = false;
            for (auto x : v) {
                if (x == chain[j] && ! seen)
                    return false;
                if (x == chain[j - 1])
                    seen = true;
            }
        }
        return true;
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        if (two)
            return mk(ValuePrecede{I(chain[0]), I(chain[1]), ids_of(o, i)});
        return mk(ValuePrecede{IV(chain), ids_of(o, i)});
    });
}

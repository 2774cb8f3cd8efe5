// Arithmetic, comparison, linear and logical constraint families (group A).
#include "eng.hh"
#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <gcs/constraints/regular/regular_bacchus.hh>
#include <gcs/constraints/regular/regular_legacy.hh>
#include <gcs/constraints/power/power_table.hh>
#include <numeric>
using namespace gcs;
using namespace eng;
using gcs::innards::Literal;
using gcs::innards::Literals;
#define REG(group, name) static void f_##name(Gen & g); static Register r_##name(group, #name, f_##name); static void f_##name(Gen & g)

namespace
{
    template <typename C_>
    auto choose3(Gen & g, C_ & c, string & d, bool & gac) -> int
    {
        int k = static_cast<int>(g.r.range(0, 3));
        gac = false;
        (void) c;
        if (k == 0)
            d += " Auto";
        if (k == 1)
            d += " BC";
        if (k == 2) {
            d += " Tabulated";
            gac = true;
        }
        return k;
    }

    template <typename C_>
    auto with3(C_ c, int k) -> std::unique_ptr<Constraint>
    {
        if (k == 0)
            c.with_consistency(consistency::Auto{});
        else if (k == 1)
            c.with_consistency(consistency::BC{});
        else if (k == 2)
            c.with_consistency(consistency::Tabulated{});
        return c.clone();
    }

    auto powi(ll b, ll e) -> std::optional<ll>
    {
        if (e < 0) {
            if (b == 0)
                return std::nullopt;
            if (b == 1)
                return 1;
            if (b == -1)
                return (e % 2 == 0) ? 1 : -1;
            return 0;
        }
        __int128 r = 1;
        for (ll i = 0; i < e; ++i) {
            r *= b;
            if (r > INT64_MAX || r < INT64_MIN)
                return std::nullopt;
        }
        return static_cast<ll>(r);
    }

    struct Lit
    {
        int k; // 0 condition, 1 true, 2 false
        Cond c;
        auto at(const A & a) const -> bool { return k == 0 ? c.at(a) : k == 1; }
        auto lit(const Ids & ids) const -> Literal
        {
            if (k == 1)
                return innards::TrueLiteral{};
            if (k == 2)
                return innards::FalseLiteral{};
            return c.cond(ids);
        }
        auto str() const -> string { return k == 0 ? c.str() : k == 1 ? "T" : "F"; }
    };
    auto lit(Gen & g) -> Lit
    {
        Lit l;
        l.k = g.r.chance(1, 12) ? static_cast<int>(g.r.range(1, 2)) : 0;
        if (l.k == 0)
            l.c = g.cond();
        return l;
    }

    auto sum_of(const Ops & o, const vector<ll> & c, const Ids & ids) -> WeightedSum
    {
        WeightedSum s;
        for (size_t i = 0; i < o.size(); ++i)
            s += I(c[i]) * o[i].id(ids);
        return s;
    }
    auto sum_at(const Ops & o, const vector<ll> & c, const A & a) -> ll
    {
        ll s = 0;
        for (size_t i = 0; i < o.size(); ++i)
            s += c[i] * o[i].at(a);
        return s;
    }
}

REG("A", abs)
{
    auto x = g.op(-5, 5, 8), y = g.op(-2, 6, 7);
    g.add("abs", x.str() + "->" + y.str(), [=](const A & a) { return std::abs(x.at(a)) == y.at(a); },
        [=](const Ids & i) { return mk(Abs{x.id(i), y.id(i)}); }, Level::GAC);
}

static void three(Gen & g, const char * name, std::function<bool(ll, ll, ll)> sem, std::function<std::unique_ptr<Constraint>(IntegerVariableID, IntegerVariableID, IntegerVariableID, int)> make,
    ll l1, ll h1, ll l2, ll h2, ll l3, ll h3)
{
    auto x = g.op(l1, h1, 7), y = g.op(l2, h2, 7), z = g.op(l3, h3, 8);
    string d = x.str() + "," + y.str() + "," + z.str();
    bool gac = false;
    int dummy = 0;
    int k = choose3(g, dummy, d, gac);
    g.add(name, d, [=](const A & a) { return sem(x.at(a), y.at(a), z.at(a)); }, [=](const Ids & i) { return make(x.id(i), y.id(i), z.id(i), k); },
        gac ? Level::GAC : Level::None);
}

REG("A", plus)
{
    three(g, "plus", [](ll x, ll y, ll z) { return x + y == z; },
        [](auto x, auto y, auto z, int k) { return with3(Plus{x, y, z}, k); }, -4, 5, -4, 5, -7, 8);
}
REG("A", minus)
{
    three(g, "minus", [](ll x, ll y, ll z) { return x - y == z; },
        [](auto x, auto y, auto z, int k) { return with3(Minus{x, y, z}, k); }, -4, 5, -4, 5, -7, 8);
}
REG("A", multiply)
{
    bool wide = g.r.chance(1, 2);
    three(g, "multiply", [](ll x, ll y, ll z) { return x * y == z; },
        [](auto x, auto y, auto z, int k) { return with3(Multiply{x, y, z}, k); }, -4, 5, -4, 5, wide ? -20 : -4, wide ? 25 : 6);
}
REG("A", divide)
{
    three(g, "divide", [](ll x, ll y, ll z) { return y != 0 && x / y == z; },
        [](auto x, auto y, auto z, int k) { return with3(Divide{x, y, z}, k); }, -9, 12, -3, 4, -5, 6);
}
REG("A", modulus)
{
    three(g, "modulus", [](ll x, ll y, ll z) { return y != 0 && x % y == z; },
        [](auto x, auto y, auto z, int k) { return with3(Modulus{x, y, z}, k); }, -9, 12, -4, 5, -4, 4);
}
REG("A", power)
{
    bool wide = g.r.chance(1, 2);
    bool table = g.r.chance(1, 5);
    three(g, table ? "power_table" : "power", [](ll x, ll y, ll z) { auto p = powi(x, y); return p && *p == z; },
        [table](auto x, auto y, auto z, int k) -> std::unique_ptr<Constraint> {
            if (table)
                return gcs::innards::PowerTable{x, y, z}.clone();
            return with3(Power{x, y, z}, k);
        },
        -3, 4, -2, 4, wide ? -30 : -3, wide ? 80 : 9);
}

REG("A", equals)
{
    auto x = g.op(-3, 5, 8), y = g.op(-3, 5, 8);
    bool neq = g.r.chance(1, 2);
    int k = static_cast<int>(g.r.range(0, 2));
    Cond c;
    if (k)
        c = g.cond();
    auto d = x.str() + (neq ? "!=" : "==") + y.str() + (k == 1 ? " if " : k == 2 ? " iff " : "") + (k ? c.str() : "");
    auto sem = [=](const A & a) {
        bool b = (x.at(a) == y.at(a)) != neq;
        return k == 0 ? b : k == 1 ? (! c.at(a) || b) : c.at(a) == b;
    };
    g.add("equals", d, sem, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto p = x.id(i), q = y.id(i);
        if (k == 0)
            return neq ? mk(NotEquals{p, q}) : mk(Equals{p, q});
        auto cc = c.cond(i);
        if (k == 1)
            return neq ? mk(NotEqualsIf{p, q, cc}) : mk(EqualsIf{p, q, cc});
        return neq ? mk(NotEqualsIff{p, q, cc}) : mk(EqualsIff{p, q, cc});
    }, Level::GAC);
}

REG("A", compare)
{
    auto x = g.op(-3, 6, 9), y = g.op(-3, 6, 9);
    int o = static_cast<int>(g.r.range(0, 3));
    int k = static_cast<int>(g.r.range(0, 2));
    Cond c;
    if (k)
        c = g.cond();
    static const char * n[] = {"<", "<=", ">", ">="};
    auto d = x.str() + n[o] + y.str() + (k == 1 ? " if " : k == 2 ? " iff " : "") + (k ? c.str() : "");
    auto sem = [=](const A & a) {
        auto p = x.at(a), q = y.at(a);
        bool b = o == 0 ? p < q : o == 1 ? p <= q : o == 2 ? p > q : p >= q;
        return k == 0 ? b : k == 1 ? (! c.at(a) || b) : c.at(a) == b;
    };
    g.add("compare", d, sem, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto p = x.id(i), q = y.id(i);
        if (k == 0)
            return o == 0 ? mk(LessThan{p, q}) : o == 1 ? mk(LessThanEqual{p, q}) : o == 2 ? mk(GreaterThan{p, q}) : mk(GreaterThanEqual{p, q});
        auto cc = c.cond(i);
        if (k == 1)
            return o == 0 ? mk(LessThanIf{p, q, cc}) : o == 1 ? mk(LessThanEqualIf{p, q, cc}) : o == 2 ? mk(GreaterThanIf{p, q, cc}) : mk(GreaterThanEqualIf{p, q, cc});
        return o == 0 ? mk(LessThanIff{p, q, cc}) : o == 1 ? mk(LessThanEqualIff{p, q, cc}) : o == 2 ? mk(GreaterThanIff{p, q, cc}) : mk(GreaterThanEqualIff{p, q, cc});
    }, Level::GAC);
}

static void linear_any(Gen & g, int shape)
{
    int n = static_cast<int>(shape == 9 ? g.r.range(8, 11) : g.r.range(1, 4));
    auto o = shape == 9 ? g.ops(n, 0, 2, 3) : g.ops(n, -3, 5, 6);
    vector<ll> c;
    int style = static_cast<int>(g.r.range(0, 3));
    for (int i = 0; i < n; ++i)
        c.push_back(style == 0 ? 1 : style == 1 ? (g.r.chance(1, 2) ? 1 : -1) : style == 2 ? g.r.range(1, 4) : g.r.range(-4, 4));
    if (g.r.chance(1, 30))
        for (auto & x : c)
            x *= 1000;
    // aim the constant at something reachable
    ll lo = 0, hi = 0;
    for (int i = 0; i < n; ++i) {
        auto a = c[i] * g.lo(o[i]), b = c[i] * g.hi(o[i]);
        lo += std::min(a, b);
        hi += std::max(a, b);
    }
    ll v = g.r.chance(1, 8) ? g.r.range(lo - 2, hi + 2) : g.r.range(lo + (hi - lo) / 5, hi - (hi - lo) / 5);
    int rel = static_cast<int>(g.r.range(0, 3)); // ==, !=, <=, >=
    int k = static_cast<int>(g.r.range(0, 3));
    if (k == 3)
        k = 0;
    bool literal_cond = k && g.r.chance(1, 6) && rel < 2;
    Lit lc{0, {}};
    if (k) {
        if (literal_cond)
            lc = lit(g);
        else
            lc.c = g.cond();
    }
    bool tab = rel == 0 && k == 0 && g.r.chance(1, 3);
    bool expr = k == 0 && rel != 1 && ! tab && g.r.chance(1, 3);
    std::optional<std::size_t> thr;
    if (g.r.chance(1, 2))
        thr = static_cast<std::size_t>(g.r.range(0, 6));
    static const char * rn[] = {"==", "!=", "<=", ">="};
    std::ostringstream d;
    for (int i = 0; i < n; ++i)
        d << (i ? " + " : "") << c[i] << "*" << o[i].str();
    d << rn[rel] << v << (k == 1 ? " if " : k == 2 ? " iff " : "") << (k ? lc.str() : "") << (tab ? " Tabulated" : "") << (expr ? " (expression)" : "");
    if (thr)
        d << " thr=" << *thr;
    auto sem = [=](const A & a) {
        auto s = sum_at(o, c, a);
        bool b = rel == 0 ? s == v : rel == 1 ? s != v : rel == 2 ? s <= v : s >= v;
        return k == 0 ? b : k == 1 ? (! lc.at(a) || b) : lc.at(a) == b;
    };
    auto made = [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto s = sum_of(o, c, i);
        auto V = I(v);
        if (rel == 2) {
            if (k == 0)
                return mk(LinearLessThanEqual{s, V, thr});
            return k == 1 ? mk(LinearLessThanEqualIf{s, V, lc.c.cond(i)}) : mk(LinearLessThanEqualIff{s, V, lc.c.cond(i)});
        }
        if (rel == 3) {
            if (k == 0)
                return mk(LinearGreaterThanEqual{s, V, thr});
            return k == 1 ? mk(LinearGreaterThanEqualIf{s, V, lc.c.cond(i)}) : mk(LinearGreaterThanEqualIff{s, V, lc.c.cond(i)});
        }
        auto opts = [&](auto c) -> std::unique_ptr<Constraint> {
            if (tab)
                c.with_consistency(consistency::Tabulated{});
            if (thr)
                c.with_incremental_threshold(*thr);
            return c.clone();
        };
        if (rel == 0)
            return k == 0 ? opts(LinearEquality{s, V}) : k == 1 ? opts(LinearEqualityIf{s, V, lc.lit(i)}) : opts(LinearEqualityIff{s, V, lc.lit(i)});
        return k == 0 ? opts(LinearNotEquals{s, V}) : k == 1 ? opts(LinearNotEqualsIf{s, V, lc.lit(i)}) : opts(LinearNotEqualsIff{s, V, lc.lit(i)});
    };
    Level lev = tab ? Level::GAC : (rel >= 2 && k == 0) ? Level::GAC : Level::None;
    if (expr) {
        Con con;
        con.fam = "linear";
        con.desc = d.str();
        con.holds = sem;
        con.level = lev;
        con.post = [=](Problem & p, const Ids & i) {
            auto s = sum_of(o, c, i);
            if (rel == 0)
                p.post(s == I(v));
            else if (rel == 2)
                p.post(s <= I(v));
            else
                p.post(s >= I(v));
        };
        g.add(std::move(con));
    }
    else
        g.add("linear", d.str(), sem, made, lev);
}

REG("A", linear) { linear_any(g, 0); }
REG("A", linear_wide) { linear_any(g, 9); }

REG("A", logical_vars)
{
    int n = static_cast<int>(g.r.range(0, 4));
    auto o = g.ops(n, -1, 2, 3);
    bool conj = g.r.chance(1, 2);
    bool full = g.r.chance(2, 3);
    Op r{-1, false, 1};
    if (full)
        r = g.op(-1, 2, 3);
    auto d = string(conj ? "and" : "or") + str(o) + (full ? "<->" + r.str() : "");
    auto sem = [=](const A & a) {
        bool b = conj;
        for (auto & x : o)
            b = conj ? (b && x.at(a) != 0) : (b || x.at(a) != 0);
        return full ? b == (r.at(a) != 0) : b;
    };
    g.add("logical", d, sem, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto v = ids_of(o, i);
        if (conj)
            return full ? mk(And{v, r.id(i)}) : mk(And{v});
        return full ? mk(Or{v, r.id(i)}) : mk(Or{v});
    }, Level::GAC);
}

REG("A", logical_lits)
{
    int n = static_cast<int>(g.r.range(0, 4));
    vector<Lit> o;
    for (int i = 0; i < n; ++i)
        o.push_back(lit(g));
    auto r = lit(g);
    bool conj = g.r.chance(1, 2);
    string d = conj ? "and[" : "or[";
    for (auto & x : o)
        d += x.str();
    d += "]<->" + r.str();
    auto sem = [=](const A & a) {
        bool b = conj;
        for (auto & x : o)
            b = conj ? (b && x.at(a)) : (b || x.at(a));
        return b == r.at(a);
    };
    g.add("logical", d, sem, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        Literals v;
        for (auto & x : o)
            v.push_back(x.lit(i));
        return conj ? mk(And{v, r.lit(i)}) : mk(Or{v, r.lit(i)});
    }, Level::GAC);
}

REG("A", parity)
{
    int n = static_cast<int>(g.r.range(1, 5));
    if (g.r.chance(1, 2)) {
        auto o = g.ops(n, -1, 2, 3);
        g.add("parity", str(o), [=](const A & a) { int k = 0; for (auto & x : o) k += x.at(a) != 0; return k % 2 == 1; },
            [=](const Ids & i) { return mk(ParityOdd{ids_of(o, i)}); }, Level::GAC);
    }
    else {
        vector<Lit> o;
        string d;
        for (int i = 0; i < n; ++i) {
            o.push_back(lit(g));
            d += o.back().str();
        }
        g.add("parity", d, [=](const A & a) { int k = 0; for (auto & x : o) k += x.at(a); return k % 2 == 1; },
            [=](const Ids & i) { Literals v; for (auto & x : o) v.push_back(x.lit(i)); return mk(ParityOdd{v}); }, Level::GAC);
    }
}

REG("A", min_max)
{
    bool mn = g.r.chance(1, 2);
    int n = static_cast<int>(g.r.range(1, 4));
    bool two = n == 2 && g.r.chance(1, 2);
    auto o = g.ops(n, -3, 5, 6);
    auto r = g.op(-3, 5, 8);
    g.add("min_max", string(mn ? "min" : "max") + str(o) + "->" + r.str(), [=](const A & a) {
        auto v = at_of(o, a);
        return (mn ? *std::min_element(v.begin(), v.end()) : *std::max_element(v.begin(), v.end())) == r.at(a);
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto v = ids_of(o, i);
        if (two)
            return mn ? mk(Min{v[0], v[1], r.id(i)}) : mk(Max{v[0], v[1], r.id(i)});
        return mn ? mk(ArrayMin{v, r.id(i)}) : mk(ArrayMax{v, r.id(i)});
    }, Level::GAC);
}

REG("A", in)
{
    auto x = g.op(-4, 6, 9);
    int k = static_cast<int>(g.r.range(0, 2));
    Ops o;
    vector<ll> vals;
    if (k != 1)
        o = g.ops(static_cast<int>(g.r.range(1, 3)), -4, 6, 5);
    if (k != 0) {
        int n = static_cast<int>(g.r.range(1, 4));
        for (int i = 0; i < n; ++i)
            vals.push_back(g.r.range(-5, 7));
    }
    g.add("in", x.str() + " in " + str(o) + "{" + vh::join(vals) + "}", [=](const A & a) {
        auto v = x.at(a);
        for (auto y : vals)
            if (y == v)
                return true;
        for (auto & y : o)
            if (y.at(a) == v)
                return true;
        return false;
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        if (k == 0)
            return mk(In{x.id(i), ids_of(o, i)});
        if (k == 1)
            return mk(In{x.id(i), IV(vals)});
        return mk(In{x.id(i), ids_of(o, i), IV(vals)});
    }, Level::GAC);
}

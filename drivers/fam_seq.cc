// Extensional, smart, automaton, decision-diagram, element and nogood families (group C).
#include "eng.hh"
#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <gcs/constraints/regular/regular_bacchus.hh>
#include <gcs/constraints/regular/regular_legacy.hh>
#include <gcs/constraints/power/power_table.hh>
#include <numeric>
#include "regex_ref.hh"
using namespace gcs;
using namespace eng;
#define REG(group, name) static void f_##name(Gen & g); static Register r_##name(group, #name, f_##name); static void f_##name(Gen & g)

struct Wild
{
    bool any;
    ll v;
};

static auto gen_tuples(Gen & g, const Ops & o, bool wild, int max_tuples) -> vector<vector<Wild>>
{
    vector<vector<Wild>> t;
    int k = static_cast<int>(g.r.range(0, max_tuples));
    for (int i = 0; i < k; ++i) {
        vector<Wild> row;
        for (auto & x : o) {
            if (wild && g.r.chance(1, 3))
                row.push_back({true, 0});
            else if (g.r.chance(1, 12))
                row.push_back({false, g.lo(x) + g.r.range(-2, 7)});
            else
                row.push_back({false, g.r.pick(g.vals(x))});
        }
        t.push_back(row);
        if (g.r.chance(1, 15))
            t.push_back(row); // duplicates are allowed
    }
    return t;
}

static auto show(const vector<vector<Wild>> & t) -> string
{
    string s = "{";
    for (auto & r : t) {
        s += "(";
        for (size_t i = 0; i < r.size(); ++i)
            s += (i ? "," : "") + (r[i].any ? string("*") : std::to_string(r[i].v));
        s += ")";
    }
    return s + "}";
}

static auto matches(const vector<vector<Wild>> & t, const vector<ll> & v) -> bool
{
    for (auto & r : t) {
        bool ok = true;
        for (size_t i = 0; ok && i < v.size(); ++i)
            ok = r[i].any || r[i].v == v[i];
        if (ok)
            return true;
    }
    return false;
}

static auto how_many_match(const vector<vector<Wild>> & t, const vector<ll> & v) -> int
{
    int n = 0;
    for (auto & r : t)
        n += matches({r}, v);
    return n;
}

static auto tuples_of(const vector<vector<Wild>> & t, bool wild, int how) -> ExtensionalTuples
{
    if (wild) {
        WildcardTuples w;
        for (auto & r : t) {
            vector<IntegerOrWildcard> x;
            for (auto & e : r)
                if (e.any)
                    x.push_back(Wildcard{});
                else
                    x.push_back(I(e.v));
            w.push_back(x);
        }
        if (how == 1)
            return ArrayParam<WildcardTuples>{std::make_shared<const WildcardTuples>(std::move(w))};
        return ArrayParam<WildcardTuples>{std::move(w)};
    }
    SimpleTuples w;
    for (auto & r : t) {
        vector<Integer> x;
        for (auto & e : r)
            x.push_back(I(e.v));
        w.push_back(x);
    }
    if (how == 1)
        return ArrayParam<SimpleTuples>{std::make_shared<const SimpleTuples>(std::move(w))};
    return ArrayParam<SimpleTuples>{std::move(w)};
}

REG("C", table)
{
    auto o = g.ops(static_cast<int>(g.r.range(1, 4)), -2, 4, 6);
    bool wild = g.r.chance(1, 3);
    int how = static_cast<int>(g.r.range(0, 1));
    auto t = gen_tuples(g, o, wild, 12);
    g.add(wild ? "table_wild" : "table", str(o) + show(t), [=](const A & a) { return matches(t, at_of(o, a)); },
        [=](const Ids & i) { return mk(Table{ids_of(o, i), tuples_of(t, wild, how)}); }, Level::GAC);
    g.in.cons.back().witnesses = [=](const A & a) { return how_many_match(t, at_of(o, a)); };
}

REG("C", negative_table)
{
    auto o = g.ops(static_cast<int>(g.r.range(1, 3)), -2, 4, 5);
    bool wild = g.r.chance(1, 3);
    int how = static_cast<int>(g.r.range(0, 1));
    auto t = gen_tuples(g, o, wild, 10);
    g.add(wild ? "negative_table_wild" : "negative_table", str(o) + show(t), [=](const A & a) { return ! matches(t, at_of(o, a)); },
        [=](const Ids & i) { return mk(NegativeTable{ids_of(o, i), tuples_of(t, wild, how)}); });
}

struct SE
{
    int kind; // 0 unary value, 1 binary, 2 set
    int op;   // 0 <,1 <=,2 ==,3 !=,4 >,5 >=, (set) 0 in, 1 not in
    int a, b;
    ll v;
    vector<ll> vals;
};

REG("C", smart_table)
{
    int n = static_cast<int>(g.r.range(1, 4));
    g.st.con = 0; // constant entries are not supported (and say so)
    auto o = g.ops(n, -2, 4, 5);
    for (auto & x : o)
        if (x.is_const())
            return;
    vector<vector<SE>> t;
    string d = "{";
    static const char * on[] = {"<", "<=", "==", "!=", ">", ">="};
    int k = static_cast<int>(g.r.range(0, 4));
    for (int i = 0; i < k; ++i) {
        vector<SE> row;
        d += "(";
        // the binary entries of one tuple must not form a cycle between variables
        vector<int> comp(n);
        for (int j = 0; j < n; ++j)
            comp[j] = j;
        int m = static_cast<int>(g.r.range(0, 4));
        for (int j = 0; j < m; ++j) {
            SE e{static_cast<int>(g.r.range(0, 2)), static_cast<int>(g.r.range(0, 5)), static_cast<int>(g.r.range(0, n - 1)), 0, 0, {}};
            if (e.kind == 1) {
                e.b = static_cast<int>(g.r.range(0, n - 1));
                if (comp[e.a] == comp[e.b])
                    continue;
                if (o[e.a].v >= 0 && o[e.a].v == o[e.b].v)
                    continue;
                bool alias = false; // an aliased base variable would close a cycle too
                for (int p = 0; p < n; ++p)
                    for (int q = 0; q < p; ++q)
                        alias = alias || (o[p].v >= 0 && o[p].v == o[q].v);
                if (alias)
                    continue;
                int from = comp[e.b], to = comp[e.a];
                for (auto & x : comp)
                    if (x == from)
                        x = to;
                d += o[e.a].str() + on[e.op] + o[e.b].str() + " ";
            }
            else if (e.kind == 0) {
                e.v = g.r.range(-3, 5);
                d += o[e.a].str() + on[e.op] + std::to_string(e.v) + " ";
            }
            else {
                e.op = static_cast<int>(g.r.range(0, 1));
                for (int q = 0, w = static_cast<int>(g.r.range(1, 3)); q < w; ++q)
                    e.vals.push_back(g.r.range(-3, 5));
                d += o[e.a].str() + (e.op ? " notin " : " in ") + vh::join(e.vals) + " ";
            }
            row.push_back(e);
        }
        d += ")";
        t.push_back(row);
    }
    bool shortr = g.r.chance(1, 2);
    auto sem = [=](const A & a) {
        for (auto & row : t) {
            bool ok = true;
            for (auto & e : row) {
                auto x = o[e.a].at(a);
                if (e.kind == 2) {
                    bool in = std::find(e.vals.begin(), e.vals.end(), x) != e.vals.end();
                    ok = ok && (e.op ? ! in : in);
                }
                else {
                    auto y = e.kind == 1 ? o[e.b].at(a) : e.v;
                    ok = ok && (e.op == 0 ? x < y : e.op == 1 ? x <= y : e.op == 2 ? x == y : e.op == 3 ? x != y : e.op == 4 ? x > y : x >= y);
                }
            }
            if (ok)
                return true;
        }
        return false;
    };
    g.add("smart_table", str(o) + d + "}", sem, [=](const Ids & i) {
        SmartTuples st;
        for (auto & row : t) {
            vector<SmartEntry> r;
            for (auto & e : row) {
                auto x = o[e.a].id(i);
                if (e.kind == 2)
                    r.push_back(e.op ? SmartTable::not_in_set(x, IV(e.vals)) : SmartTable::in_set(x, IV(e.vals)));
                else if (e.kind == 1) {
                    auto y = o[e.b].id(i);
                    r.push_back(e.op == 0 ? SmartTable::less_than(x, y) : e.op == 1 ? SmartTable::less_than_equal(x, y) : e.op == 2 ? SmartTable::equals(x, y) : e.op == 3 ? SmartTable::not_equals(x, y) : e.op == 4 ? SmartTable::greater_than(x, y) : SmartTable::greater_than_equal(x, y));
                }
                else {
                    auto y = I(e.v);
                    r.push_back(e.op == 0 ? SmartTable::less_than(x, y) : e.op == 1 ? SmartTable::less_than_equal(x, y) : e.op == 2 ? SmartTable::equals(x, y) : e.op == 3 ? SmartTable::not_equals(x, y) : e.op == 4 ? SmartTable::greater_than(x, y) : SmartTable::greater_than_equal(x, y));
                }
            }
            st.push_back(r);
        }
        return mk(SmartTable{ids_of(o, i), st}.with_short_reasons(shortr));
    });
}

REG("C", regular)
{
    int n = static_cast<int>(g.r.range(1, 5));
    bool vec = g.r.chance(1, 3);
    auto o = g.ops(n, vec ? 0 : -1, 2, 3, vec);
    int q = static_cast<int>(g.r.range(1, 4));
    vector<std::map<ll, long>> tr(q);
    for (int s = 0; s < q; ++s)
        for (ll v = vec ? 0 : -2; v <= 3; ++v)
            if (g.r.chance(3, 5))
                tr[s][v] = g.r.range(0, q - 1);
    vector<long> fin;
    for (int s = 0; s < q; ++s)
        if (g.r.chance(1, 2))
            fin.push_back(s);
    int kind = static_cast<int>(g.r.range(0, 4));
    bool sr = g.r.chance(1, 2);
    string d = str(o) + " states " + std::to_string(q) + (vec ? " vec" : "") + " kind " + std::to_string(kind) + " final " + vh::join(fin);
    for (int s = 0; s < q; ++s)
        for (auto & [v, to] : tr[s])
            d += " " + std::to_string(s) + "-" + std::to_string(v) + ">" + std::to_string(to);
    auto sem = [=](const A & a) {
        long s = 0;
        for (auto & x : o) {
            auto it = tr[s].find(x.at(a));
            if (it == tr[s].end())
                return false;
            s = it->second;
        }
        return std::find(fin.begin(), fin.end(), s) != fin.end();
    };
    auto make = [=](const Ids & i) -> std::unique_ptr<Constraint> {
        vector<std::unordered_map<Integer, long>> m(q);
        vector<vector<long>> w(q, vector<long>(4, -1));
        for (int s = 0; s < q; ++s)
            for (auto & [v, to] : tr[s]) {
                m[s][I(v)] = to;
                if (vec)
                    w[s][v] = to;
            }
        auto x = ids_of(o, i);
        if (kind == 3)
            return vec ? mk(RegularBacchus{x, q, w, fin, sr}) : mk(RegularBacchus{x, q, m, fin, sr});
        if (kind == 4)
            return vec ? mk(RegularLegacy{x, q, w, fin}.with_short_reasons(sr)) : mk(RegularLegacy{x, q, m, fin}.with_short_reasons(sr));
        auto opt = [&](Regular c) {
            c.with_short_reasons(sr);
            if (kind == 1)
                c.with_proof_strategy(proof_strategy::PerCall{});
            if (kind == 2)
                c.with_proof_strategy(proof_strategy::Bacchus{});
            return mk(c);
        };
        return vec ? opt(Regular{x, q, w, fin}) : opt(Regular{x, q, m, fin});
    };
    g.add(kind == 3 ? "regular_bacchus" : kind == 4 ? "regular_legacy" : "regular", d, sem, make, Level::GAC);
}

REG("C", regular_regex)
{
    int n = static_cast<int>(g.r.range(1, 4));
    auto o = g.ops(n, 0, 3, 4);
    string re = rx::random_regex(g.r, static_cast<int>(g.r.range(0, 2)), 3);
    ll lo = 0, hi = 0;
    for (int i = 0; i < n; ++i) {
        lo = i ? std::min(lo, g.lo(o[i])) : g.lo(o[i]);
        hi = i ? std::max(hi, g.hi(o[i])) : g.hi(o[i]);
    }
    std::set<ll> al;
    for (ll v = lo; v <= hi; ++v)
        al.insert(v);
    rx::ReP ref;
    try {
        rx::ReParser p{re, al};
        ref = p.alt();
    }
    catch (int) {
        return;
    }
    bool legacy = g.r.chance(1, 4);
    g.add(legacy ? "regular_legacy" : "regular", str(o) + " matches <" + re + ">", [=](const A & a) { return rx::match(*ref, at_of(o, a), {0}).contains(o.size()); },
        [=](const Ids & i) -> std::unique_ptr<Constraint> {
            if (legacy)
                return mk(RegularLegacy{ids_of(o, i), re});
            return mk(Regular{ids_of(o, i), re});
        }, Level::GAC);
    // nobody promises that the automaton built from an expression is unambiguous
    g.in.cons.back().witnesses = [](const A &) { return 2; };
}

REG("C", mdd)
{
    int n = static_cast<int>(g.r.range(1, 5));
    auto o = g.ops(n, -1, 2, 3);
    vector<long> w{1};
    for (int i = 0; i < n; ++i)
        w.push_back(g.r.range(1, 3));
    vector<vector<std::map<ll, long>>> tr(n);
    string d = str(o);
    for (int i = 0; i < n; ++i) {
        tr[i].resize(w[i]);
        for (long s = 0; s < w[i]; ++s)
            for (ll v = -2; v <= 3; ++v)
                if (g.r.chance(3, 5)) {
                    tr[i][s][v] = g.r.range(0, w[i + 1] - 1);
                    d += " " + std::to_string(i) + ":" + std::to_string(s) + "-" + std::to_string(v) + ">" + std::to_string(tr[i][s][v]);
                }
    }
    vector<long> acc;
    for (long s = 0; s < w[n]; ++s)
        if (g.r.chance(2, 3))
            acc.push_back(s);
    d += " accept " + vh::join(acc);
    g.add("mdd", d, [=](const A & a) {
        long s = 0;
        for (int i = 0; i < n; ++i) {
            auto it = tr[i][s].find(o[i].at(a));
            if (it == tr[i][s].end())
                return false;
            s = it->second;
        }
        return std::find(acc.begin(), acc.end(), s) != acc.end();
    }, [=](const Ids & i) {
        vector<vector<std::unordered_map<Integer, long>>> m(n);
        for (int k = 0; k < n; ++k)
            for (auto & x : tr[k]) {
                std::unordered_map<Integer, long> y;
                for (auto & [v, to] : x)
                    y[I(v)] = to;
                m[k].push_back(y);
            }
        return mk(MDD{ids_of(o, i), m, w, acc});
    }, Level::GAC);
}

REG("C", element)
{
    int n = static_cast<int>(g.r.range(1, 4));
    bool constant = g.r.chance(1, 2);
    ll start = g.r.chance(1, 2) ? 0 : g.r.range(-1, 2);
    auto res = g.op(-3, 4, 7);
    auto idx = g.op(start - 1, start + n, n + 2);
    Ops arr;
    vector<ll> vals;
    if (constant)
        for (int i = 0, m = g.r.chance(1, 4) ? n + 3 : n; i < m; ++i)
            vals.push_back(g.r.range(-3, 4));
    else
        arr = g.ops(n, -3, 4, 5);
    ll len = constant ? static_cast<ll>(vals.size()) : n;
    bool gac = g.r.chance(1, 2), bc = ! gac && g.r.chance(1, 2);
    g.add(constant ? "element_const" : "element", res.str() + "=" + str(arr) + vh::join(vals) + "[" + idx.str() + "-" + std::to_string(start) + "]" + (gac ? " GAC" : bc ? " BC" : ""), [=](const A & a) {
        auto k = idx.at(a) - start;
        if (k < 0 || k >= len)
            return false;
        return res.at(a) == (constant ? vals[k] : arr[k].at(a));
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto opt = [&](auto c) -> std::unique_ptr<Constraint> {
            if (gac)
                c.with_consistency(consistency::GAC{});
            if (bc)
                c.with_consistency(consistency::BC{});
            return c.clone();
        };
        auto pr = std::pair<IntegerVariableID, Integer>{idx.id(i), I(start)};
        if (constant) {
            if (start == 0)
                return opt(ElementConstantArray{res.id(i), idx.id(i), IV(vals)});
            return opt(ElementConstantArray{res.id(i), pr, IV(vals)});
        }
        if (start == 0)
            return opt(Element{res.id(i), idx.id(i), ids_of(arr, i)});
        return opt(Element{res.id(i), pr, ids_of(arr, i)});
    }, gac || (! constant && ! bc) ? Level::GAC : Level::None);
}

REG("C", element2d)
{
    int n = static_cast<int>(g.r.range(1, 2)), m = static_cast<int>(g.r.range(1, 3));
    bool constant = g.r.chance(2, 3);
    ll s1 = g.r.chance(1, 2) ? 0 : g.r.range(-1, 2), s2 = g.r.chance(1, 2) ? 0 : g.r.range(-1, 2);
    auto res = g.op(-3, 4, 6);
    auto i1 = g.op(s1 - 1, s1 + n, n + 2), i2 = g.op(s2 - 1, s2 + m, m + 2);
    vector<vector<ll>> vals;
    vector<Ops> arr;
    string d;
    for (int i = 0; i < n; ++i) {
        if (constant) {
            vector<ll> r;
            for (int j = 0; j < m; ++j)
                r.push_back(g.r.range(-3, 4));
            vals.push_back(r);
            d += "(" + vh::join(r) + ")";
        }
        else {
            arr.push_back(g.ops(m, -3, 4, 3));
            d += str(arr.back());
        }
    }
    bool gac = g.r.chance(1, 2), bc = ! gac && g.r.chance(1, 2);
    g.add(constant ? "element2d_const" : "element2d", res.str() + "=" + d + "[" + i1.str() + "-" + std::to_string(s1) + "," + i2.str() + "-" + std::to_string(s2) + "]" + (gac ? " GAC" : bc ? " BC" : ""), [=](const A & a) {
        auto p = i1.at(a) - s1, q = i2.at(a) - s2;
        if (p < 0 || p >= n || q < 0 || q >= m)
            return false;
        return res.at(a) == (constant ? vals[p][q] : arr[p][q].at(a));
    }, [=](const Ids & i) -> std::unique_ptr<Constraint> {
        auto opt = [&](auto c) -> std::unique_ptr<Constraint> {
            if (gac)
                c.with_consistency(consistency::GAC{});
            if (bc)
                c.with_consistency(consistency::BC{});
            return c.clone();
        };
        auto p1 = std::pair<IntegerVariableID, Integer>{i1.id(i), I(s1)};
        auto p2 = std::pair<IntegerVariableID, Integer>{i2.id(i), I(s2)};
        bool zero = s1 == 0 && s2 == 0;
        if (constant) {
            vector<vector<Integer>> v;
            for (auto & r : vals)
                v.push_back(IV(r));
            return zero ? opt(Element2DConstantArray{res.id(i), i1.id(i), i2.id(i), v}) : opt(Element2DConstantArray{res.id(i), p1, p2, v});
        }
        vector<vector<IntegerVariableID>> v;
        for (auto & r : arr)
            v.push_back(ids_of(r, i));
        return zero ? opt(Element2D{res.id(i), i1.id(i), i2.id(i), v}) : opt(Element2D{res.id(i), p1, p2, v});
    }, gac || (! constant && ! bc) ? Level::GAC : Level::None);
}

REG("C", nogoods)
{
    int n = static_cast<int>(g.r.range(1, 4));
    auto o = g.ops(n, -2, 4, 5);
    vector<vector<Cond>> ng;
    string d;
    bool refined = g.r.chance(1, 2);
    int k = static_cast<int>(g.r.range(0, 6));
    for (int i = 0; i < k; ++i) {
        vector<Cond> row;
        int m = static_cast<int>(g.r.range(g.r.chance(1, 20) ? 0 : 1, 3));
        d += "{";
        for (int j = 0; j < m; ++j) {
            Cond c;
            c.var = g.r.pick(o);
            static const int kinds[] = {0, 1, 2, 3, 6, 7};
            c.kind = kinds[g.r.range(0, 5)];
            c.val = g.r.range(g.lo(c.var) - 1, g.hi(c.var) + 1);
            row.push_back(c);
            d += c.str();
        }
        d += "}";
        ng.push_back(row);
    }
    g.add("nogoods", d + (refined ? " refined" : " scan"), [=](const A & a) {
        for (auto & row : ng) {
            bool all = true;
            for (auto & c : row)
                all = all && c.at(a);
            if (all)
                return false;
        }
        return true;
    }, [=](const Ids & i) {
        vector<Nogood> v;
        for (auto & row : ng) {
            Nogood x;
            for (auto & c : row)
                x.push_back(c.cond(i));
            v.push_back(x);
        }
        return mk(Nogoods{v, refined});
    });
}

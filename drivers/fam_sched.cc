// Scheduling, packing, routing, difference and distance families (group D).
#include "eng.hh"
#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <gcs/constraints/regular/regular_bacchus.hh>
#include <gcs/constraints/regular/regular_legacy.hh>
#include <gcs/constraints/power/power_table.hh>
#include <numeric>
using namespace gcs;
using namespace eng;
#define REG(group, name) static void f_##name(Gen & g); static Register r_##name(group, #name, f_##name); static void f_##name(Gen & g)

REG("D", bin_packing)
{
    int n = static_cast<int>(g.r.range(1, 5)), b = static_cast<int>(g.r.range(1, 3));
    auto o = g.ops(n, 0, b - 1, b, true);
    vector<ll> sz, cap;
    for (int i = 0; i < n; ++i)
        sz.push_back(g.r.range(0, 4));
    bool caps = g.r.chance(1, 2);
    Ops loads;
    ll total = std::accumulate(sz.begin(), sz.end(), 0ll);
    if (caps)
        for (int i = 0; i < b; ++i)
            cap.push_back(g.r.range(0, total));
    else
        loads = g.ops(b, 0, total + 1, 7, true); // loads must be non-negative
    bool bc = g.r.chance(1, 3);
    int ps = static_cast<int>(g.r.range(0, 2));
    g.add("bin_packing", str(o) + " sizes " + vh::join(sz) + (caps ? " caps " + vh::join(cap) : " loads " + str(loads)) + (bc ? " BC" : "") + " ps" + std::to_string(ps), [=](const A & a) {
        vector<ll> l(b, 0);
        for (int i = 0; i < n; ++i) {
            auto x = o[i].at(a);
            if (x < 0 || x >= b)
                return false;
            l[x] += sz[i];
        }
        for (int i = 0; i < b; ++i)
            if (caps ? l[i] > cap[i] : l[i] != loads[i].at(a))
                return false;
        return true;
    }, [=](const Ids & i) {
        auto opt = [&](BinPacking c) {
            if (bc)
                c.with_consistency(consistency::BC{});
            if (ps == 1)
                c.with_proof_strategy(proof_strategy::Upfront{});
            if (ps == 2)
                c.with_proof_strategy(proof_strategy::PerCall{});
            return mk(c);
        };
        return caps ? opt(BinPacking{ids_of(o, i), IV(sz), IV(cap)}) : opt(BinPacking{ids_of(o, i), IV(sz), ids_of(loads, i)});
    });
}

REG("D", knapsack)
{
    int n = static_cast<int>(g.r.range(1, 4)), k = static_cast<int>(g.r.range(1, 3));
    bool two = k == 2 && g.r.chance(1, 2);
    auto o = g.ops(n, 0, 3, 3, true);
    for (auto & x : o)
        if (g.lo(x) < 0)
            return; // item domains must be non-negative
    vector<vector<ll>> c(k);
    string d;
    for (auto & r : c) {
        for (int i = 0; i < n; ++i)
            r.push_back(g.r.range(0, 4));
        d += "(" + vh::join(r) + ")";
    }
    ll total = 8;
    auto t = g.ops(k, 0, total, 6, true); // negative totals are rejected
    int ps = static_cast<int>(g.r.range(0, 2));
    g.add("knapsack", d + str(o) + "->" + str(t) + " ps" + std::to_string(ps), [=](const A & a) {
        for (int j = 0; j < k; ++j) {
            ll s = 0;
            for (int i = 0; i < n; ++i)
                s += c[j][i] * o[i].at(a);
            if (s != t[j].at(a))
                return false;
        }
        return true;
    }, [=](const Ids & i) {
        auto opt = [&](Knapsack c) {
            if (ps == 1)
                c.with_proof_strategy(proof_strategy::Upfront{});
            if (ps == 2)
                c.with_proof_strategy(proof_strategy::PerCall{});
            return mk(c);
        };
        if (two)
            return opt(Knapsack{IV(c[0]), IV(c[1]), ids_of(o, i), t[0].id(i), t[1].id(i)});
        vector<vector<Integer>> cc;
        for (auto & r : c)
            cc.push_back(IV(r));
        return opt(Knapsack{cc, ids_of(o, i), ids_of(t, i)});
    }, Level::GAC);
}

static auto presence_ops(Gen & g, int n) -> Ops
{
    Ops p;
    for (int i = 0; i < n; ++i) {
        auto o = g.op(0, 1, 2, true);
        if (g.lo(o) < 0 || g.hi(o) > 1)
            o = Op{-1, false, 1};
        p.push_back(o);
    }
    return p;
}

REG("D", cumulative)
{
    int n = static_cast<int>(g.r.range(1, 4));
    bool consts = g.r.chance(1, 2), opt = g.r.chance(1, 3);
    auto s = g.ops(n, -1, 5, opt ? 4 : 5);
    Ops l, h, p;
    for (int i = 0; i < n; ++i) {
        bool varl = ! consts && g.r.chance(1, 3), varh = ! consts && g.r.chance(1, 3);
        l.push_back(varl ? g.op(0, 3, 2, true) : Op{-1, false, g.r.range(0, 3)});
        h.push_back(varh ? g.op(0, 3, 2, true) : Op{-1, false, g.r.range(0, 3)});
        if (g.lo(l.back()) < 0)
            l.back() = Op{-1, false, 1};
        if (g.lo(h.back()) < 0)
            h.back() = Op{-1, false, 1};
    }
    Op cap = ! consts && g.r.chance(1, 2) ? g.op(0, 5, 3, true) : Op{-1, false, g.r.range(0, 5)};
    if (g.lo(cap) < 0)
        cap = Op{-1, false, 3};
    if (opt)
        p = presence_ops(g, n);
    consts = consts && ! opt;
    CumulativeRules ru;
    int mode = static_cast<int>(g.r.range(0, 3));
    if (mode == 1) {
        ru.elastic_overload = ru.knapsack_overload = ru.edge_finding = ru.time_table_edge_finding = ru.energetic_edge_finding = true;
        ru.not_first_not_last = ru.not_first_not_last_published = true;
    }
    else if (mode >= 2) {
        auto b = [&](bool & x) { x = g.r.chance(1, 2); };
        b(ru.time_table);
        b(ru.overload);
        b(ru.profile_overload);
        b(ru.elastic_overload);
        b(ru.knapsack_overload);
        b(ru.edge_finding);
        b(ru.time_table_edge_finding);
        b(ru.energetic_edge_finding);
        b(ru.not_first_not_last);
        b(ru.not_first_not_last_published);
        // With every rule off the constraint is documented (derived_cumulative_test) to be
        // inert: something else is expected to enforce it.
        if (! ru.time_table && ! ru.overload)
            ru.time_table = true;
    }
    std::ostringstream rd;
    rd << ru.time_table << ru.overload << ru.profile_overload << ru.elastic_overload << ru.knapsack_overload << ru.edge_finding << ru.time_table_edge_finding << ru.energetic_edge_finding << ru.not_first_not_last << ru.not_first_not_last_published;
    g.add(opt ? "cumulative_opt" : "cumulative", str(s) + str(l) + str(h) + " cap " + cap.str() + (opt ? str(p) : "") + (consts ? " consts" : "") + " rules " + rd.str(), [=](const A & a) {
        ll lo = 1000, hi = -1000;
        for (int i = 0; i < n; ++i) {
            lo = std::min(lo, s[i].at(a));
            hi = std::max(hi, s[i].at(a) + l[i].at(a));
        }
        for (ll t = lo; t < hi; ++t) {
            ll u = 0;
            for (int i = 0; i < n; ++i)
                if ((! opt || p[i].at(a) == 1) && s[i].at(a) <= t && t < s[i].at(a) + l[i].at(a))
                    u += h[i].at(a);
            if (u > cap.at(a))
                return false;
        }
        return true;
    }, [=](const Ids & i) {
        if (consts) {
            vector<ll> ll_, hh;
            for (int k = 0; k < n; ++k) {
                ll_.push_back(l[k].add);
                hh.push_back(h[k].add);
            }
            return mk(Cumulative{ids_of(s, i), IV(ll_), IV(hh), I(cap.add)}.with_rules(ru));
        }
        if (opt)
            return mk(Cumulative{ids_of(s, i), ids_of(l, i), ids_of(h, i), ids_of(p, i), cap.id(i)}.with_rules(ru));
        return mk(Cumulative{ids_of(s, i), ids_of(l, i), ids_of(h, i), cap.id(i)}.with_rules(ru));
    });
}

REG("D", disjunctive)
{
    int n = static_cast<int>(g.r.range(1, 4));
    bool consts = g.r.chance(1, 2), opt = g.r.chance(1, 3);
    auto s = g.ops(n, -1, 6, opt ? 5 : 6);
    Ops l, p;
    for (int i = 0; i < n; ++i) {
        bool varl = ! consts && g.r.chance(1, 2);
        l.push_back(varl ? g.op(0, 3, 2, true) : Op{-1, false, g.r.range(0, 3)});
        if (g.lo(l.back()) < 0)
            l.back() = Op{-1, false, 1};
    }
    if (opt)
        p = presence_ops(g, n);
    bool strict = g.r.chance(1, 2);
    consts = consts && ! opt;
    DisjunctiveRules ru;
    int mode = static_cast<int>(g.r.range(0, 3));
    if (mode == 1)
        ru.detectable_precedences_set = ru.overload = ru.edge_finding = ru.not_first_not_last = ru.not_first_not_last_published = true;
    else if (mode >= 2) {
        auto b = [&](bool & x) { x = g.r.chance(1, 2); };
        b(ru.time_table);
        b(ru.detectable_precedences);
        b(ru.detectable_precedences_set);
        b(ru.overload);
        b(ru.edge_finding);
        b(ru.edge_finding_lb);
        b(ru.edge_finding_ub);
        b(ru.not_first_not_last);
        b(ru.not_first);
        b(ru.not_last);
        b(ru.not_first_not_last_published);
        b(ru.overload_cache_bridge);
        if (g.r.chance(1, 2)) {
            ru.overload_certificate = g.r.chance(2, 3) ? DisjunctiveOverloadCertificate::SortingNetwork : DisjunctiveOverloadCertificate::TimeIndexed;
            if (g.r.chance(1, 3))
                ru.overload_vocabulary_at = gcs::innards::ProofLevel::Temporary;
            if (g.r.chance(1, 4))
                ru.overload_max_window = static_cast<size_t>(g.r.range(2, 3));
        }
    }
    std::ostringstream rd;
    rd << ru.time_table << ru.detectable_precedences << ru.detectable_precedences_set << ru.overload << ru.edge_finding << ru.edge_finding_lb << ru.edge_finding_ub << ru.not_first_not_last << ru.not_first << ru.not_last << ru.not_first_not_last_published << ru.overload_cache_bridge << " cert " << static_cast<int>(ru.overload_certificate) << static_cast<int>(ru.overload_vocabulary_at) << ru.overload_max_window;
    g.add(opt ? "disjunctive_opt" : "disjunctive", str(s) + str(l) + (opt ? str(p) : "") + (strict ? " strict" : " nonstrict") + (consts ? " consts" : "") + " rules " + rd.str(), [=](const A & a) {
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j) {
                if (opt && (p[i].at(a) == 0 || p[j].at(a) == 0))
                    continue;
                auto li = l[i].at(a), lj = l[j].at(a);
                if (! strict && (li == 0 || lj == 0))
                    continue;
                if (s[i].at(a) + li > s[j].at(a) && s[j].at(a) + lj > s[i].at(a))
                    return false;
            }
        return true;
    }, [=](const Ids & i) {
        auto o = [&](Disjunctive c) {
            c.with_strict(strict);
            c.with_rules(ru);
            return mk(c);
        };
        if (consts) {
            vector<ll> x;
            for (auto & y : l)
                x.push_back(y.add);
            return o(Disjunctive{ids_of(s, i), IV(x)});
        }
        if (opt)
            return o(Disjunctive{ids_of(s, i), ids_of(l, i), ids_of(p, i)});
        return o(Disjunctive{ids_of(s, i), ids_of(l, i)});
    });
}

REG("D", disjunctive2d)
{
    int n = static_cast<int>(g.r.range(1, 3));
    auto x = g.ops(n, 0, 4, 4), y = g.ops(n, 0, 4, 4);
    bool consts = g.r.chance(1, 2);
    Ops w, h;
    for (int i = 0; i < n; ++i) {
        w.push_back(! consts && g.r.chance(1, 2) ? g.op(0, 3, 2, true) : Op{-1, false, g.r.range(0, 3)});
        h.push_back(! consts && g.r.chance(1, 2) ? g.op(0, 3, 2, true) : Op{-1, false, g.r.range(0, 3)});
        if (g.lo(w.back()) < 0)
            w.back() = Op{-1, false, 2};
        if (g.lo(h.back()) < 0)
            h.back() = Op{-1, false, 2};
    }
    bool strict = g.r.chance(1, 2);
    g.add("disjunctive2d", str(x) + str(y) + str(w) + str(h) + (strict ? " strict" : " nonstrict") + (consts ? " consts" : ""), [=](const A & a) {
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j) {
                auto wi = w[i].at(a), wj = w[j].at(a), hi = h[i].at(a), hj = h[j].at(a);
                if (! strict && (wi == 0 || wj == 0 || hi == 0 || hj == 0))
                    continue;
                auto xi = x[i].at(a), xj = x[j].at(a), yi = y[i].at(a), yj = y[j].at(a);
                if (xi + wi > xj && xj + wj > xi && yi + hi > yj && yj + hj > yi)
                    return false;
            }
        return true;
    }, [=](const Ids & i) {
        if (consts) {
            vector<ll> p, q;
            for (int k = 0; k < n; ++k) {
                p.push_back(w[k].add);
                q.push_back(h[k].add);
            }
            return mk(Disjunctive2D{ids_of(x, i), ids_of(y, i), IV(p), IV(q)}.with_strict(strict));
        }
        return mk(Disjunctive2D{ids_of(x, i), ids_of(y, i), ids_of(w, i), ids_of(h, i)}.with_strict(strict));
    });
}

REG("D", circuit)
{
    int n = static_cast<int>(g.r.range(1, 6));
    int slack = g.r.chance(1, 4) ? 1 : 0;
    auto o = g.ops(n, 0 - slack, n - 1 + slack, n + slack);
    int alg = static_cast<int>(g.r.range(0, 2));
    bool f[9];
    for (auto & x : f)
        x = g.r.chance(1, 2);
    bool defaults = g.r.chance(1, 3);
    std::ostringstream d;
    d << str(o) << " alg " << alg;
    if (! defaults)
        for (auto x : f)
            d << x;
    vector<bool> fl(f, f + 9);
    g.add("circuit", d.str(), [=](const A & a) {
        auto v = at_of(o, a);
        vector<bool> seen(n, false);
        ll at = 0;
        for (int i = 0; i < n; ++i) {
            if (at < 0 || at >= n || seen[at])
                return false;
            seen[at] = true;
            at = v[at];
        }
        return at == 0;
    }, [=](const Ids & i) {
        Circuit c{ids_of(o, i)};
        if (alg == 1)
            c.with_algorithm(circuit::Prevent{});
        if (alg == 2)
            c.with_algorithm(circuit::SCC{});
        if (! defaults) {
            c.with_gac_all_different(fl[0]).with_prune_root(fl[1]).with_prune_skip(fl[2]).with_fix_req(fl[3]).with_prune_within(fl[4]);
            c.with_prove_using_dominance(fl[5]).with_enable_comments(fl[6]).with_prove_am1_by_contradiction(fl[7]).with_short_reasons(fl[8]);
        }
        return mk(c);
    });
}

REG("D", difference)
{
    int n = static_cast<int>(g.r.range(2, 5));
    auto o = g.ops(n, -2, 5, 5);
    struct E
    {
        int x, y;
        ll d;
        bool has;
        Cond c;
    };
    vector<E> es;
    string d;
    int m = static_cast<int>(g.r.range(1, 7));
    for (auto & x : o)
        if (x.neg)
            return; // negated operands are documented as rejected
    for (int i = 0; i < m; ++i) {
        E e{static_cast<int>(g.r.range(0, n - 1)), static_cast<int>(g.r.range(0, n - 1)), g.r.range(-3, 4), g.r.chance(1, 3), {}};
        if (e.x == e.y && g.r.chance(3, 4))
            continue;
        if (e.has)
            e.c = g.cond();
        d += " " + o[e.x].str() + "-" + o[e.y].str() + "<=" + std::to_string(e.d) + (e.has ? " if " + e.c.str() : "");
        es.push_back(e);
    }
    bool sr = g.r.chance(1, 2), inc = g.r.chance(1, 2), aud = inc && g.r.chance(1, 2);
    g.add("difference", d + (sr ? " simp" : "") + (inc ? " inc" : "") + (aud ? " audit" : ""), [=](const A & a) {
        for (auto & e : es)
            if ((! e.has || e.c.at(a)) && o[e.x].at(a) - o[e.y].at(a) > e.d)
                return false;
        return true;
    }, [=](const Ids & i) {
        vector<DifferenceEdge> v;
        for (auto & e : es)
            v.push_back(DifferenceEdge{o[e.x].id(i), o[e.y].id(i), I(e.d), e.has ? std::optional<IntegerVariableCondition>{e.c.cond(i)} : std::nullopt});
        DifferenceConstraints c{v};
        c.simplifying_at_root(sr).incrementally(inc).auditing_incremental_propagation(aud);
        return mk(c);
    });
}

REG("D", min_distance)
{
    int n = static_cast<int>(g.r.range(2, 5)), p = static_cast<int>(g.r.range(2, 4));
    auto x = g.ops(p, 0, n - 1, n, true);
    auto z = g.op(-1, 6, 7);
    for (auto & o : x)
        if (g.lo(o) < 0 || g.hi(o) >= n)
            return;
    vector<vector<ll>> D(n, vector<ll>(n, 0)), R;
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
            D[i][j] = D[j][i] = g.r.range(0, 6);
    if (g.r.chance(1, 3)) {
        R.assign(p, vector<ll>(p, 0));
        for (int i = 0; i < p; ++i)
            for (int j = 0; j < p; ++j)
                R[i][j] = i < j ? g.r.range(0, 3) : g.r.range(-1, 4);
    }
    int pr = static_cast<int>(g.r.range(0, 4));
    std::ostringstream d;
    d << str(x) << "->" << z.str() << " D";
    for (auto & r : D)
        d << "(" << vh::join(r) << ")";
    if (! R.empty()) {
        d << " R";
        for (auto & r : R)
            d << "(" << vh::join(r) << ")";
    }
    d << " prop " << pr;
    g.add("min_distance", d.str(), [=](const A & a) {
        auto v = at_of(x, a);
        ll m = 1000000;
        for (int i = 0; i < p; ++i)
            for (int j = i + 1; j < p; ++j) {
                if (v[i] < 0 || v[i] >= n || v[j] < 0 || v[j] >= n)
                    return false;
                m = std::min(m, D[v[i]][v[j]]);
                if (! R.empty() && D[v[i]][v[j]] < R[i][j])
                    return false;
            }
        return m == z.at(a);
    }, [=](const Ids & i) {
        MinDistance::Matrix d2, r2;
        for (auto & r : D)
            d2.push_back(IV(r));
        for (auto & r : R)
            r2.push_back(IV(r));
        static const MinDistancePropagation ps[] = {MinDistancePropagation::CheckOnly, MinDistancePropagation::ForwardBound, MinDistancePropagation::PairSupport, MinDistancePropagation::ForwardBoundMatch, MinDistancePropagation::PairSupportMatch};
        std::optional<ArrayParam<MinDistance::Matrix>> rr;
        if (! R.empty())
            rr = ArrayParam<MinDistance::Matrix>{r2};
        return mk(MinDistance{ids_of(x, i), z.id(i), ArrayParam<MinDistance::Matrix>{d2}, rr, ps[pr]});
    });
}

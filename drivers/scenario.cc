// Scheduling models and presolver line-ups shared by several monitors.
#include "scenario.hh"

using namespace gcs;
using vh::join;
namespace eng
{
    namespace
    {
        // now and then, something a constant away
        auto shifted(Rng & r, int v, bool often) -> Op
        {
            return Op{v, false, often && r.chance(1, 2) ? r.range(-3, 3) : 0};
        }

        auto difference_row(Rng & r, const Op & x, const Op & y, ll d, int kind, const Cond & cc, const string & fam) -> Con
        {
            Con c;
            c.fam = fam;
            int form = static_cast<int>(r.range(0, 8));
            auto cond = " " + cc.str();
            c.desc = x.str() + "-(" + y.str() + ")<=" + std::to_string(d) + (kind == 0 ? "" : kind == 1 ? " if" + cond : kind == 2 ? " iff" + cond : kind == 3 ? " not" : " not if" + cond) + " form " + std::to_string(form);
            c.holds = [=](const A & a) {
                bool b = x.at(a) - y.at(a) <= d, k = kind == 0 || kind == 3 || cc.at(a);
                return kind == 2 ? b == k : ! k || b == (kind < 3);
            };
            c.make = [=](const Ids & ids) -> std::unique_ptr<Constraint> {
                auto p = x.id(ids), q = y.id(ids);
                if (kind < 3 && form >= 5 && form <= 7) {
                    auto k = kind ? std::optional{cc.cond(ids)} : std::nullopt;
                    if (form == 5)
                        return kind == 0 ? mk(LessThanEqual{p, q + I(d)}) : kind == 1 ? mk(LessThanEqualIf{p, q + I(d), *k}) : mk(LessThanEqualIff{p, q + I(d), *k});
                    if (form == 6)
                        return kind == 0 ? mk(LessThan{p + I(-d - 1), q}) : kind == 1 ? mk(LessThanIf{p + I(-d - 1), q, *k}) : mk(LessThanIff{p + I(-d - 1), q, *k});
                    return kind == 0 ? mk(GreaterThanEqual{q + I(d), p}) : kind == 1 ? mk(GreaterThanEqualIf{q + I(d), p, *k}) : mk(GreaterThanEqualIff{q + I(d), p, *k});
                }
                WeightedSum s;
                switch (form) {
                case 0: s = WeightedSum{} + 1_i * p + -1_i * q; break;
                case 1: s = WeightedSum{} + -1_i * q + 1_i * p; break;
                case 2: s = WeightedSum{} + -1_i * -p + -1_i * q; break;
                case 3: s = WeightedSum{} + 1_i * p + 1_i * -q; break;
                case 4: s = WeightedSum{} + 1_i * -q + -1_i * -p; break;
                default: s = WeightedSum{} + 1_i * p + -1_i * q; break;
                }
                if (form == 8 && kind == 0)
                    return mk(LinearGreaterThanEqual{WeightedSum{} + 1_i * q + -1_i * p, I(-d)});
                switch (kind) {
                case 0: return mk(LinearLessThanEqual{s, I(d)});
                case 1: return mk(LinearLessThanEqualIf{s, I(d), cc.cond(ids)});
                case 2: return mk(LinearLessThanEqualIff{s, I(d), cc.cond(ids)});
                case 3: return mk(ReifiedLinearInequality{s, I(d), reif::MustNotHold{}});
                default: return mk(ReifiedLinearInequality{s, I(d), reif::NotIf{cc.cond(ids)}});
                }
            };
            for (int v : {x.v, y.v, kind == 0 || kind == 3 ? -1 : cc.var.v})
                if (v >= 0) {
                    if (std::count(c.used.begin(), c.used.end(), v))
                        c.aliased = true;
                    else
                        c.used.push_back(v);
                }
            return c;
        }
    }

    // difference constraints in every shape they can be written in
    auto difference_system(Rng & r, bool provable) -> Inst
    {
        Inst in;
        int n = static_cast<int>(r.range(2, 5));
        for (int i = 0; i < n; ++i) {
            vector<ll> d;
            ll lo = r.range(-3, 3), hi = lo + r.range(0, n <= 3 ? 7 : 4);
            for (ll v = lo; v <= hi; ++v)
                if (v == lo || v == hi || ! r.chance(1, 8))
                    d.push_back(v);
            in.doms.push_back(d);
            in.size *= static_cast<double>(d.size());
        }
        bool views = r.chance(2, 3), minus = r.chance(1, 4), conds = r.chance(1, 2);
        int rows = static_cast<int>(r.range(1, 2 * n));
        auto var = [&] { return static_cast<int>(r.range(0, n - 1)); };
        for (int k = 0; k < rows; ++k) {
            Op x = shifted(r, var(), views), y = shifted(r, var(), views);
            if (x.v == y.v && ! r.chance(1, 8))
                y.v = (x.v + 1) % n;
            if (minus && r.chance(1, 5))
                x.neg = true;
            if (minus && r.chance(1, 5))
                y.neg = true;
            if (r.chance(1, 20))
                (r.chance(1, 2) ? x : y) = Op{-1, false, r.range(-3, 3)};
            if (x.v < 0 && y.v < 0)
                continue;
            // mostly about as tight as the domains are wide
            ll d = r.range(-4, 3);
            if (x.v >= 0 && y.v >= 0 && ! x.neg && ! y.neg && ! r.chance(1, 4))
                d = in.doms[x.v].front() + x.add - in.doms[y.v].front() - y.add + r.range(-2, 2);
            int kind = conds && r.chance(1, 2) ? static_cast<int>(r.range(1, 5)) : 0;
            if (kind == 5 || (provable && kind >= 3))
                kind = 1;
            Cond cc;
            cc.var = Op{var(), minus && r.chance(1, 4), views && r.chance(1, 3) ? r.range(-2, 2) : 0};
            cc.kind = static_cast<int>(r.range(0, 7));
            cc.val = (cc.var.neg ? -1 : 1) * r.pick(in.doms[cc.var.v]) + cc.var.add;
            cc.hi = cc.val + r.range(0, 2);
            in.cons.push_back(difference_row(r, x, y, d, kind, cc, "precedence"));
        }
        if (r.chance(1, 3)) {
            int i = var(), j = var();
            if (i != j) {
                Con c;
                c.fam = "apart";
                c.desc = std::to_string(i) + "," + std::to_string(j);
                c.holds = [=](const A & a) { return a[i] != a[j]; };
                c.make = [=](const Ids & ids) { return mk(NotEquals{ids[i], ids[j]}); };
                c.used = {i, j};
                in.cons.push_back(c);
            }
        }
        return in;
    }

    auto rcpsp(Rng & r) -> Inst
    {
        Inst in;
        bool views = r.chance(1, 3);
        int n = static_cast<int>(r.range(2, 4)), m = static_cast<int>(r.range(1, 3));
        vector<ll> dur;
        int horizon = static_cast<int>(r.range(3, 6));
        for (int i = 0; i < n; ++i) {
            dur.push_back(r.range(r.chance(1, 6) ? 0 : 1, 3));
            vector<ll> d;
            ll lo = r.range(0, 1), hi = std::max<ll>(lo + 1, r.range(2, horizon));
            for (ll v = lo; v <= hi; ++v)
                if (v == lo || v == hi || ! r.chance(1, 8))
                    d.push_back(v);
            in.doms.push_back(d);
            in.size *= static_cast<double>(d.size());
        }
        for (int k = 0; k < m; ++k) {
            vector<ll> h;
            vector<int> who;
            vector<Op> at;
            for (int i = 0; i < n; ++i)
                if (! r.chance(1, 4)) {
                    who.push_back(i);
                    at.push_back(shifted(r, i, views));
                    h.push_back(r.range(r.chance(1, 6) ? 0 : 1, 4));
                }
            ll cap = r.range(2, 6);
            Con c;
            c.fam = "resource";
            c.desc = "tasks " + str(at) + " heights " + join(h) + " cap " + std::to_string(cap) + " durations " + join(dur);
            c.holds = [=](const A & a) {
                for (ll t = -6; t < 30; ++t) {
                    ll u = 0;
                    for (size_t i = 0; i < who.size(); ++i)
                        if (at[i].at(a) <= t && t < at[i].at(a) + dur[who[i]])
                            u += h[i];
                    if (u > cap)
                        return false;
                }
                return true;
            };
            bool scalar = r.chance(1, 2);
            c.make = [=](const Ids & ids) -> std::unique_ptr<Constraint> {
                vector<IntegerVariableID> s;
                vector<ll> l;
                for (size_t i = 0; i < who.size(); ++i) {
                    s.push_back(at[i].id(ids));
                    l.push_back(dur[who[i]]);
                }
                if (scalar)
                    return mk(Cumulative{s, IV(l), IV(h), I(cap)});
                vector<IntegerVariableID> lv, hv;
                for (size_t i = 0; i < l.size(); ++i) {
                    lv.push_back(ConstantIntegerVariableID{I(l[i])});
                    hv.push_back(ConstantIntegerVariableID{I(h[i])});
                }
                return mk(Cumulative{s, lv, hv, ConstantIntegerVariableID{I(cap)}});
            };
            c.used = who;
            if (! who.empty())
                in.cons.push_back(c);
        }
        // makespan
        vector<ll> d;
        for (ll v = r.range(0, 3); v <= horizon + 3; ++v)
            d.push_back(v);
        int mk_ = n;
        in.doms.push_back(d);
        in.size *= static_cast<double>(d.size());
        for (int i = 0; i < n; ++i) {
            // x[i] + dur <= makespan
            auto x = shifted(r, i, views), y = shifted(r, mk_, views && r.chance(1, 3));
            auto c = difference_row(r, x, y, x.add - y.add - dur[i], 0, Cond{}, "finish");
            in.cons.push_back(c);
        }
        int prec = static_cast<int>(r.range(0, 2));
        for (int k = 0; k < prec; ++k) {
            int i = static_cast<int>(r.range(0, n - 1)), j = static_cast<int>(r.range(0, n - 1));
            if (i == j)
                continue;
            ll gap = r.chance(2, 3) ? dur[i] : r.range(-2, 4);
            bool cond = r.chance(1, 4);
            Cond cc;
            if (cond) {
                cc.var = Op{static_cast<int>(r.range(0, n)), false, 0};
                cc.kind = static_cast<int>(r.range(0, 3));
                cc.val = r.range(0, 4);
            }
            auto x = shifted(r, i, views), y = shifted(r, j, views);
            auto c = difference_row(r, x, y, x.add - y.add - gap, cond ? 1 : 0, cc, "precedence");
            in.cons.push_back(c);
        }
        return in;
    }

    // Constraints the proof writer is known not to cope with, each reported
    // from a fixed model of its own (see directed_models of drv_proof); random models leave
    // them out, so that anything else these constraints do is still judged.
    auto fragile(const Con & k) -> bool
    {
        if (k.fam == "disjunctive" || k.fam == "disjunctive_opt") {
            auto on = [&](std::initializer_list<size_t> rules) {
                auto at = k.desc.find(" rules ") + 7;
                return std::any_of(rules.begin(), rules.end(), [&](size_t i) { return k.desc[at + i] == '1'; });
            };
            // energy rules over starts that are views
            auto starts = k.desc.substr(0, k.desc.find(']'));
            if (starts.find_first_of("+-") != string::npos && on({2, 4, 7, 10}))
                return true;
            // at-most-ones folded from separation clauses that carry presence literals
            if (k.fam == "disjunctive_opt" && on({2, 3, 4, 7, 10}))
                return true;
        }
        if (! k.aliased)
            return false;
        // an explanation reads the domain its own inference has just changed
        static const std::set<string> fams{"disjunctive", "disjunctive_opt", "disjunctive2d", "cumulative", "cumulative_opt", "global_cardinality", "element", "element2d", "element_const", "element2d_const", "min_distance", "count"};
        if ((k.fam == "linear" || k.fam == "precedence") && k.desc.find(" if") != string::npos)
            return true;
        return fams.contains(k.fam);
    }

    auto presolve_scenario(Rng & r, const Family & f, bool provable) -> Scenario
    {
        Scenario sc;
        auto & in = sc.in;
        bool sched = r.chance(1, 2), diffs = ! sched && r.chance(1, 2);
        if (sched)
            in = rcpsp(r);
        else if (diffs)
            in = difference_system(r, provable);
        else {
            in = random_instance(r, f, random_style(r, r.chance(1, 2)), static_cast<int>(r.range(0, 3)));
        }
        if (in.cons.empty())
            return sc;
        auto & cfg = sc.cfg;
        cfg = random_cfg(r, r.chance(1, 5));
        int which = diffs && r.chance(3, 4) ? 1 : static_cast<int>(r.range(0, 5));
        unsigned bits = static_cast<unsigned>(r.next());
        auto & lim = sc.limits;
        if (r.chance(1, 3))
            for (auto * l : {&lim.dp, &lim.raise, &lim.subset, &lim.covers, &lim.cuts, &lim.capacity, &lim.calls, &lim.states, &lim.candidates, &lim.cliques})
                if (r.chance(1, 2))
                    *l = r.chance(1, 3) ? r.range(0, 1) : r.range(1, r.chance(1, 2) ? 6 : 60);
        vector<int> tab;
        for (size_t i = 0; i < in.doms.size(); ++i)
            if (r.chance(1, 2))
                tab.push_back(static_cast<int>(i));
        int mk_ = static_cast<int>(in.doms.size()) - 1;
        // naming a variable that is not the makespan is allowed, and must not matter
        int said = r.chance(1, 4) ? static_cast<int>(r.range(0, mk_)) : mk_;
        bool say = (sched || r.chance(1, 3)) && mk_ >= 0, twice = r.chance(1, 8);
        int order_bits = static_cast<int>(r.range(0, 3));
        auto at_stats = sc.stats.at;
        auto cs_stats = sc.stats.cs;
        auto ic_stats = sc.stats.ic;
        auto id_stats = sc.stats.id;
        auto dl_stats = sc.stats.dl;
        auto rules = [](unsigned b) {
            CumulativeRules ru;
            ru.time_table = b & 1;
            ru.overload = b & 2;
            ru.edge_finding = b & 4;
            ru.elastic_overload = b & 8;
            ru.not_first_not_last = b & 16;
            return ru;
        };
        cfg.extra = [=, lim = sc.limits](Problem & p, const Ids & ids) {
            auto one = [&](int w) {
                switch (w) {
                case 0: {
                    vector<IntegerVariableID> v;
                    for (int i : tab)
                        v.push_back(ids[i]);
                    p.add_presolver(AutoTable{v, at_stats});
                    break;
                }
                case 1: p.add_presolver(DifferenceLogic{dl_stats}.disabling_lifted_donors(bits & 1).simplifying_at_root(bits & 2).incrementally(bits & 4).auditing_incremental_propagation((bits & 12) == 12)); break;
                case 2: {
                    CumulativeStrengthening k{cs_stats};
                    if (bits & 1)
                        k.with_rules(rules(bits >> 8));
                    if (lim.dp >= 0)
                        k.with_dynamic_programming_budget(lim.dp);
                    if (lim.raise >= 0)
                        k.with_raise_budget(lim.raise);
                    if (lim.subset >= 0)
                        k.with_subset_sum_capacity_limit(lim.subset);
                    p.add_presolver(k);
                    break;
                }
                case 3: {
                    InferredCumulative k{ic_stats};
                    if (bits & 1)
                        k.with_rules(rules(bits >> 8));
                    if (say && (bits & 2))
                        k.with_makespan(ids[said]);
                    if (lim.covers >= 0 || lim.cuts >= 0)
                        k.with_budgets(static_cast<size_t>(lim.covers < 0 ? 100 : lim.covers), static_cast<size_t>(lim.cuts < 0 ? 100 : lim.cuts));
                    if (lim.capacity >= 0)
                        k.with_maximum_capacity(static_cast<size_t>(lim.capacity));
                    if (lim.calls >= 0)
                        k.with_lifting_call_budget(static_cast<size_t>(lim.calls));
                    if (lim.states >= 0)
                        k.with_programme_state_budget(static_cast<size_t>(lim.states));
                    p.add_presolver(k);
                    break;
                }
                default: {
                    InferredDisjunctive k{id_stats};
                    if (bits & 1)
                        k.with_rules(rules(bits >> 8));
                    if (say && (bits & 2))
                        k.with_makespan(ids[said]);
                    if (lim.candidates >= 0 || lim.cliques >= 0)
                        k.with_budgets(static_cast<size_t>(lim.candidates < 0 ? 100 : lim.candidates), static_cast<size_t>(lim.cliques < 0 ? 100 : lim.cliques));
                    if (bits & 4)
                        k.with_minimum_clique_size(2);
                    p.add_presolver(k);
                    break;
                }
                }
            };
            if (which == 5) {
                for (int w = 1; w <= 4; ++w)
                    one(1 + (w + order_bits) % 4);
            }
            else
                one(which);
            if (twice)
                one(which == 5 ? 2 : which);
        };
        sc.makespan = said;
        sc.sched = say;
        sc.text = " presolver " + std::to_string(which) + " bits " + std::to_string(bits & 0xffff) + " table {" + join(tab) + "}" + (said == mk_ ? "" : " said x" + std::to_string(said)) + (twice ? " twice" : "") + sc.limits.str();
        sc.which = which;
        return sc;
    }
}

#include "eng.hh"
#include <cmath>

// Weak, so that a tree in which it is declared but never defined still links, and the
// branching monitor can report it.
namespace gcs::variable_order
{
    auto with_largest_value(std::vector<IntegerVariableID>) -> BranchVariableHeuristic __attribute__((weak));
    auto with_largest_value(const Problem &) -> BranchVariableHeuristic __attribute__((weak));
}

using namespace gcs;
namespace eng
{
    auto largest_value_heuristics_exist() -> bool
    {
        auto a = static_cast<BranchVariableHeuristic (*)(std::vector<IntegerVariableID>)>(&variable_order::with_largest_value);
        auto b = static_cast<BranchVariableHeuristic (*)(const Problem &)>(&variable_order::with_largest_value);
        return a && b;
    }

    auto Op::id(const Ids & ids) const -> IntegerVariableID
    {
        if (v < 0)
            return ConstantIntegerVariableID{I(add)};
        IntegerVariableID r = ids[v];
        if (neg)
            r = -r;
        if (add != 0)
            r = add > 0 ? r + I(add) : r - I(-add);
        return r;
    }

    auto Op::str() const -> string
    {
        if (v < 0)
            return "#" + std::to_string(add);
        string s = string(neg ? "-" : "") + "x" + std::to_string(v);
        if (add > 0)
            s += "+" + std::to_string(add);
        else if (add < 0)
            s += std::to_string(add);
        return s;
    }

    auto ids_of(const Ops & o, const Ids & ids) -> vector<IntegerVariableID>
    {
        vector<IntegerVariableID> r;
        for (auto & x : o)
            r.push_back(x.id(ids));
        return r;
    }

    auto at_of(const Ops & o, const A & a) -> vector<ll>
    {
        vector<ll> r;
        r.reserve(o.size());
        for (auto & x : o)
            r.push_back(x.at(a));
        return r;
    }

    auto str(const Ops & o) -> string
    {
        string s = "[";
        for (size_t i = 0; i < o.size(); ++i)
            s += (i ? "," : "") + o[i].str();
        return s + "]";
    }

    auto Cond::at(const A & a) const -> bool
    {
        auto x = var.at(a);
        switch (kind) {
        case 0: return x == val;
        case 1: return x != val;
        case 2: return x < val;
        case 3: return x >= val;
        case 4: return x >= val && x <= hi;
        case 5: return x < val || x > hi;
        case 6: return x <= val;
        case 7: return x > val;
        }
        return false;
    }

    auto Cond::cond(const Ids & ids) const -> IntegerVariableCondition
    {
        auto x = var.id(ids);
        switch (kind) {
        case 0: return x == I(val);
        case 1: return x != I(val);
        case 2: return x < I(val);
        case 3: return x >= I(val);
        case 4: return in_range(x, I(val), I(hi));
        case 5: return not_in_range(x, I(val), I(hi));
        case 6: return x <= I(val);
        default: return x > I(val);
        }
    }

    auto Cond::str() const -> string
    {
        static const char * n[] = {"==", "!=", "<", ">=", " in ", " notin ", "<=", ">"};
        auto s = "(" + var.str() + n[kind] + std::to_string(val);
        if (kind == 4 || kind == 5)
            s += ".." + std::to_string(hi);
        return s + ")";
    }

    auto Inst::describe() const -> string
    {
        std::ostringstream o;
        for (size_t i = 0; i < doms.size(); ++i)
            o << "x" << i << "{" << vh::join(doms[i]) << "} ";
        for (auto & c : cons)
            o << " | " << c.fam << " " << c.desc;
        return o.str();
    }

    auto Inst::each(const std::function<void(const A &)> & f) const -> void
    {
        A a(doms.size());
        vector<size_t> ix(doms.size(), 0);
        for (size_t i = 0; i < doms.size(); ++i)
            a[i] = doms[i][0];
        while (true) {
            f(a);
            size_t k = doms.size();
            while (k > 0) {
                --k;
                if (++ix[k] < doms[k].size()) {
                    a[k] = doms[k][ix[k]];
                    break;
                }
                ix[k] = 0;
                a[k] = doms[k][0];
                if (k == 0)
                    return;
            }
            if (doms.empty())
                return;
        }
    }

    auto Inst::all_solutions() const -> vector<A>
    {
        vector<A> r;
        each([&](const A & a) {
            if (ok(a))
                r.push_back(a);
        });
        return r;
    }

    auto Gen::fresh(ll lo, ll hi, int max_size, bool full) -> int
    {
        double b = std::max(1.0, left());
        ll cap = std::min<ll>(max_size, std::max<ll>(1, static_cast<ll>(b)));
        if (hi - lo + 1 > cap || ! full) {
            ll want = full ? cap : r.range(std::min<ll>(2, cap), cap);
            want = std::min(want, hi - lo + 1);
            ll span = want;
            if (! full && pc(25))
                span = std::min(hi - lo + 1, want + r.range(1, 4));
            ll l = r.range(lo, hi - span + 1);
            lo = l;
            hi = l + span - 1;
        }
        vector<ll> d;
        for (ll v = lo; v <= hi; ++v)
            d.push_back(v);
        if (pc(st.hole) && d.size() > 2) {
            vector<ll> e{d.front()};
            for (size_t i = 1; i + 1 < d.size(); ++i)
                if (r.chance(3, 5))
                    e.push_back(d[i]);
            e.push_back(d.back());
            d = e;
        }
        while (static_cast<ll>(d.size()) > cap)
            d.erase(d.begin() + r.range(0, static_cast<ll>(d.size()) - 1));
        in.doms.push_back(d);
        in.size *= static_cast<double>(d.size());
        return static_cast<int>(in.doms.size()) - 1;
    }

    auto Gen::lo(const Op & o) const -> ll
    {
        if (o.v < 0)
            return o.add;
        return (o.neg ? -in.doms[o.v].back() : in.doms[o.v].front()) + o.add;
    }

    auto Gen::hi(const Op & o) const -> ll
    {
        if (o.v < 0)
            return o.add;
        return (o.neg ? -in.doms[o.v].front() : in.doms[o.v].back()) + o.add;
    }

    auto Gen::vals(const Op & o) const -> vector<ll>
    {
        if (o.v < 0)
            return {o.add};
        vector<ll> s;
        for (auto x : in.doms[o.v])
            s.push_back((o.neg ? -x : x) + o.add);
        std::sort(s.begin(), s.end());
        return s;
    }

    auto Gen::op(ll l, ll h, int max_size, bool strict) -> Op
    {
        if (pc(st.con) || left() < 2) {
            if (! in.doms.empty() && ! strict && r.chance(1, 2)) {
                // fall through to aliasing
            }
            else
                return Op{-1, false, r.range(l, h)};
        }
        if (! in.doms.empty() && (pc(st.alias) || left() < 2)) {
            for (int tries = 0; tries < 5; ++tries) {
                int v = static_cast<int>(r.range(0, static_cast<ll>(in.doms.size()) - 1));
                Op o{v, st.view > 0 && r.chance(1, 3), 0};
                ll ol = lo(o), oh = hi(o);
                if (oh - ol > h - l) {
                    if (strict || oh - ol > h - l + 3)
                        continue;
                }
                if (st.view > 0 || ol < l || oh > h) {
                    // shift into range
                    if (ol < l)
                        o.add += l - ol;
                    else if (oh > h)
                        o.add += h - oh;
                    if (o.add != 0 && st.view == 0)
                        continue;
                    if (lo(o) < l && strict)
                        continue;
                }
                for (int m : mentioned)
                    if (m == v)
                        aliased = true;
                mentioned.push_back(v);
                return o;
            }
        }
        if (pc(st.view)) {
            bool neg = r.chance(1, 2);
            ll add = r.chance(1, 3) ? 0 : r.range(-5, 5);
            if (pc(st.big))
                add = r.range(-1000000, 1000000);
            ll bl = neg ? add - h : l - add, bh = neg ? add - l : h - add;
            int v = fresh(bl, bh, max_size);
            mentioned.push_back(v);
            return Op{v, neg, add};
        }
        int v = fresh(l, h, max_size);
        mentioned.push_back(v);
        return Op{v, false, 0};
    }

    auto Gen::ops(int n, ll l, ll h, int max_size, bool strict) -> Ops
    {
        Ops o;
        // spread the remaining budget over the operands
        for (int i = 0; i < n; ++i) {
            double share = std::pow(std::max(1.0, left()), 1.0 / (n - i));
            int ms = std::max(2, std::min(max_size, static_cast<int>(share * 1.6) + 1));
            o.push_back(op(l, h, ms, strict));
        }
        return o;
    }

    auto Gen::cond() -> Cond
    {
        Cond c;
        if (r.chance(1, 2) || in.doms.empty() || ! st.alias)
            c.var = op(0, 1, 2);
        else
            c.var = op(-2, 3, 4);
        ll l = lo(c.var), h = hi(c.var);
        c.kind = static_cast<int>(r.range(0, 7));
        c.val = r.range(l, h + (r.chance(1, 6) ? 1 : 0));
        c.hi = c.val + r.range(0, 2);
        return c;
    }

    auto Gen::add(Con c) -> void
    {
        c.used = mentioned;
        std::sort(c.used.begin(), c.used.end());
        c.used.erase(std::unique(c.used.begin(), c.used.end()), c.used.end());
        c.aliased = aliased;
        if (aliased)
            c.level = Level::None;
        in.cons.push_back(std::move(c));
        mentioned.clear();
        aliased = false;
    }

    auto families() -> vector<Family> &
    {
        static vector<Family> f;
        return f;
    }

    auto families_of(const string & groups) -> vector<const Family *>
    {
        vector<const Family *> r;
        for (auto & f : families())
            if (groups.empty() || ("," + groups + ",").find("," + f.group + ",") != string::npos || ("," + groups + ",").find("," + f.name + ",") != string::npos)
                r.push_back(&f);
        std::sort(r.begin(), r.end(), [](auto a, auto b) { return a->name < b->name; });
        return r;
    }

    auto random_style(Rng & r, bool mixed) -> Style
    {
        Style s;
        if (mixed) {
            s.alias = static_cast<int>(r.range(10, 40));
            s.view = static_cast<int>(r.range(10, 60));
            s.con = static_cast<int>(r.range(0, 25));
            s.hole = static_cast<int>(r.range(0, 60));
            s.big = r.chance(1, 5) ? 30 : 0;
        }
        else {
            s.hole = r.chance(1, 2) ? 50 : 0;
            if (r.chance(1, 4))
                s.view = 30;
        }
        return s;
    }

    auto random_instance(Rng & r, const Family & f, const Style & st, int extra) -> Inst
    {
        Inst in;
        Gen g{r, in, st};
        f.fn(g);
        auto all = families_of("");
        for (int i = 0; i < extra; ++i) {
            Style s2 = st;
            s2.alias = std::max(s2.alias, 70);
            s2.budget = st.budget * 1.5;
            Gen g2{r, in, s2};
            all[r.range(0, static_cast<ll>(all.size()) - 1)]->fn(g2);
        }
        return in;
    }

    auto Heur::str() const -> string
    {
        return "var" + std::to_string(var) + "/val" + std::to_string(val) + "/s" + std::to_string(seed) + (views ? "/views" + std::to_string(views) : string{});
    }

    auto random_heur(Rng & r) -> Heur
    {
        Heur h{static_cast<int>(r.range(0, 11)), static_cast<int>(r.range(0, 12)), static_cast<unsigned>(r.range(1, 1000000)), 0};
        if (r.chance(1, 3))
            h.views = static_cast<unsigned>(r.range(1, 1000000));
        return h;
    }

    auto Heur::view(int v) const -> Op
    {
        if (! views)
            return Op{v, false, 0};
        Rng r{views * 1000003ull + static_cast<unsigned long long>(v)};
        bool neg = r.chance(1, 2);
        return Op{v, neg, r.chance(1, 3) ? 0 : r.range(-6, 6)};
    }

    auto make_branch(const Heur & h, const Ids & base_ids) -> BranchHeuristic
    {
        Ids ids;
        for (size_t i = 0; i < base_ids.size(); ++i)
            ids.push_back(h.view(static_cast<int>(i)).id(base_ids));
        BranchVariableHeuristic v;
        switch (h.var) {
        case 0: v = variable_order::dom_then_deg(ids); break;
        case 1: v = variable_order::dom(ids); break;
        case 2: v = variable_order::in_order(ids); break;
        case 3: v = variable_order::with_smallest_value(ids); break;
        case 4: v = largest_value_heuristics_exist() ? variable_order::with_largest_value(ids) : variable_order::in_order(ids); break;
        case 5: v = variable_order::random(ids, h.seed); break;
        case 6: v = variable_order::dom_wdeg(ids); break;
        case 7: v = variable_order::dom_wdeg(ids, WeightingScheme::Classic); break;
        case 8: v = variable_order::dom_wdeg(ids, WeightingScheme::CurrentArityCurrentDomain); break;
        case 9: v = variable_order::dom_wdeg(ids, WeightingScheme::InitialDomain); break;
        case 10:
            v = variable_order::in_order_of(ids,
                [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
                    return s.domain_size(a) > s.domain_size(b);
                });
            break;
        default: v = variable_order::random(ids, h.seed + 1); break;
        }
        BranchValueGenerator g;
        switch (h.val) {
        case 0: g = value_order::smallest_first(); break;
        case 1: g = value_order::largest_first(); break;
        case 2: g = value_order::smallest_in(); break;
        case 3: g = value_order::smallest_out(); break;
        case 4: g = value_order::largest_in(); break;
        case 5: g = value_order::largest_out(); break;
        case 6: g = value_order::split_smallest_first(); break;
        case 7: g = value_order::split_largest_first(); break;
        case 8: g = value_order::split_random(h.seed); break;
        case 9: g = value_order::random(h.seed); break;
        case 10: g = value_order::random_out(h.seed); break;
        case 11: g = value_order::reject_random_interval(h.seed); break;
        default: g = value_order::median(); break;
        }
        return branch_with(v, g);
    }

    auto build(const Inst & in, Problem & p, bool named) -> Ids
    {
        Ids ids;
        for (size_t i = 0; i < in.doms.size(); ++i) {
            auto & d = in.doms[i];
            std::optional<std::string> name;
            if (named)
                name = "v" + std::to_string(i);
            if (d.back() - d.front() + 1 == static_cast<ll>(d.size()))
                ids.push_back(p.create_integer_variable(I(d.front()), I(d.back()), name));
            else
                ids.push_back(p.create_integer_variable(IV(d), name));
        }
        for (size_t i = 0; i < in.cons.size(); ++i) {
            auto & c = in.cons[i];
            if (c.make) {
                auto k = c.make(ids);
                if (named)
                    p.post_named(*k, "c" + std::to_string(i));
                else
                    p.post(*k);
            }
            else
                c.post(p, ids);
        }
        return ids;
    }

    auto values_at(const CurrentState & s, const Ids & ids) -> A
    {
        A a;
        for (auto & i : ids)
            a.push_back(s(i).raw_value);
        return a;
    }

    auto show(const A & a) -> string { return "(" + vh::join(a) + ")"; }
    auto show(const vector<A> & v, size_t limit) -> string
    {
        string s;
        for (size_t i = 0; i < v.size() && i < limit; ++i)
            s += show(v[i]);
        if (v.size() > limit)
            s += "... (" + std::to_string(v.size()) + ")";
        return s;
    }

    auto compare_solutions(const vector<A> & expected, vector<A> got) -> string
    {
        std::sort(got.begin(), got.end());
        if (got == expected)
            return "";
        vector<A> missing, extra;
        std::set_difference(expected.begin(), expected.end(), got.begin(), got.end(), std::back_inserter(missing));
        std::set_difference(got.begin(), got.end(), expected.begin(), expected.end(), std::back_inserter(extra));
        return "expected " + std::to_string(expected.size()) + " solutions, got " + std::to_string(got.size()) + "; missing: " + show(missing) +
            " wrong or repeated: " + show(extra);
    }
}

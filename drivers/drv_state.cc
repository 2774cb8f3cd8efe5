// Monitor for the domain state: every operation and query against a model
// made of plain lists of disjoint intervals and a stack of snapshots of it.
#include "vh.hh"
#include <gcs/current_state.hh>
#include <gcs/exception.hh>
#include <gcs/innards/literal.hh>
#include <gcs/innards/state.hh>
#include <gcs/interval_set.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>
#include <any>
#include <generator>
#include <memory>
#include <optional>

using namespace gcs;
using namespace gcs::innards;
using namespace vh;
using std::optional;
using std::pair;

namespace
{
    using Dom = vector<pair<ll, ll>>; // disjoint, ascending, never touching

    auto norm(Dom d) -> Dom
    {
        std::sort(d.begin(), d.end());
        Dom r;
        for (auto & [l, u] : d) {
            if (l > u)
                continue;
            if (! r.empty() && r.back().second + 1 >= l)
                r.back().second = std::max(r.back().second, u);
            else
                r.emplace_back(l, u);
        }
        return r;
    }

    auto meet(const Dom & d, ll lo, ll hi) -> Dom
    {
        Dom r;
        for (auto & [l, u] : d)
            r.emplace_back(std::max(l, lo), std::min(u, hi));
        return norm(r);
    }

    const ll far_away = (1LL << 61);

    auto without(const Dom & d, ll lo, ll hi) -> Dom
    {
        if (lo > hi)
            return d;
        auto r = meet(d, -far_away, lo - 1);
        for (auto & p : meet(d, hi + 1, far_away))
            r.push_back(p);
        return norm(r);
    }

    auto size_of(const Dom & d) -> ll
    {
        ll n = 0;
        for (auto & [l, u] : d)
            n += u - l + 1;
        return n;
    }

    auto has(const Dom & d, ll v) -> bool
    {
        for (auto & [l, u] : d)
            if (l <= v && v <= u)
                return true;
        return false;
    }

    auto str(const Dom & d) -> string
    {
        string s = "{";
        for (auto & [l, u] : d)
            s += (s.size() > 1 ? " " : "") + std::to_string(l) + (l == u ? string{} : ".." + std::to_string(u));
        return s + "}";
    }

    auto dom_of(const IntervalSet<Integer> & s) -> Dom
    {
        Dom d;
        for (const auto & [l, u] : s.each_interval())
            d.emplace_back(l.raw_value, u.raw_value);
        return d;
    }

    auto set_of(const Dom & d) -> IntervalSet<Integer>
    {
        IntervalSet<Integer> s;
        for (auto & [l, u] : d)
            s.insert_at_end(Integer{l}, Integer{u});
        return s;
    }

    // what an operation is applied to: variable v, negated or not, plus add; or a constant
    struct Term
    {
        int v;
        bool neg;
        ll add;
        int form; // how it is typed: 0 variant, 1 the specific type
        auto id() const -> IntegerVariableID
        {
            if (v < 0)
                return ConstantIntegerVariableID{Integer{add}};
            if (! neg && add == 0)
                return SimpleIntegerVariableID{static_cast<unsigned long long>(v)};
            return ViewOfIntegerVariableID{SimpleIntegerVariableID{static_cast<unsigned long long>(v)}, neg, Integer{add}};
        }
        auto view(const Dom & d) const -> Dom
        {
            Dom r;
            for (auto & [l, u] : d)
                r.emplace_back(neg ? add - u : l + add, neg ? add - l : u + add);
            return norm(r);
        }
        auto back(const Dom & d) const -> Dom
        {
            Dom r;
            for (auto & [l, u] : d)
                r.emplace_back(neg ? add - u : l - add, neg ? add - l : u - add);
            return norm(r);
        }
        auto str() const -> string
        {
            if (v < 0)
                return std::to_string(add);
            return string(neg ? "-" : "") + "x" + std::to_string(v) + (add ? (add > 0 ? "+" : "") + std::to_string(add) : "") + (form ? "!" : "");
        }
    };

    template <typename F>
    auto typed(const Term & t, F && f) -> void
    {
        auto id = t.id();
        if (t.form)
            std::visit([&](auto & x) { f(x); }, id);
        else
            f(id);
    }

    struct Model
    {
        vector<Dom> doms;
        vector<vector<ll>> cs;
        auto dom(const Term & t) const -> Dom { return t.v < 0 ? Dom{{t.add, t.add}} : t.view(doms[t.v]); }
    };

    struct Epoch
    {
        Timestamp when;
        Model model;
        size_t guesses, extras;
        bool sub;
        vector<int> callbacks;
    };

    enum Op
    {
        Eq,
        Ne,
        Lt,
        Ge,
        In,
        NotIn
    };

    auto apply(const Dom & d, Op op, ll a, ll b) -> Dom
    {
        switch (op) {
        case Eq: return meet(d, a, a);
        case Ne: return without(d, a, a);
        case Lt: return meet(d, -far_away, a - 1);
        case Ge: return meet(d, a, far_away);
        case In: return a > b ? Dom{} : meet(d, a, b);
        case NotIn: return without(d, a, b);
        }
        return d;
    }

    auto name(Op op) -> const char *
    {
        static const char * n[] = {"==", "!=", "<", ">=", "in", "notin"};
        return n[op];
    }

    auto inference_name(Inference i) -> string
    {
        switch (i) {
        case Inference::NoChange: return "no change";
        case Inference::BoundsChanged: return "bounds changed";
        case Inference::InteriorValuesChanged: return "interior values changed";
        case Inference::Instantiated: return "instantiated";
        case Inference::Contradiction: return "contradiction";
        }
        return "?";
    }

    template <typename V>
    auto condition(const V & v, Op op, ll a, ll b) -> VariableConditionFrom<V>
    {
        switch (op) {
        case Eq: return v == Integer{a};
        case Ne: return v != Integer{a};
        case Lt: return v < Integer{a};
        case Ge: return v >= Integer{a};
        case In: return in_range(v, Integer{a}, Integer{b});
        default: return not_in_range(v, Integer{a}, Integer{b});
        }
    }

    auto truth(const Dom & d, Op op, ll a, ll b) -> LiteralIs
    {
        auto k = apply(d, op, a, b);
        return k.empty() ? LiteralIs::DefinitelyFalse : k == d ? LiteralIs::DefinitelyTrue : LiteralIs::Undecided;
    }

    struct Run
    {
        Ctx & c;
        Rng & r;
        State s;
        Model m;
        vector<Epoch> epochs;
        vector<Literal> guesses, extras;
        vector<ConstraintStateHandle> handles;
        vector<int> called;
        vector<int> root_callbacks;
        vector<pair<State, Model>> clones;
        vector<ll> points;
        string log;

        auto say(const string & x) -> void
        {
            log += x + "; ";
            c.describe(log.size() > 20000 ? log.substr(log.size() - 20000) : log);
        }

        auto value(const Dom & near) -> ll
        {
            if (! near.empty() && r.chance(4, 5)) {
                auto & p = r.pick(near);
                switch (r.range(0, 3)) {
                case 0: return p.first + r.range(-2, 2);
                case 1: return p.second + r.range(-2, 2);
                default: return r.range(p.first, p.second);
                }
            }
            return r.pick(points) + r.range(-4, 4);
        }

        auto term() -> Term
        {
            Term t{static_cast<int>(r.range(0, static_cast<ll>(m.doms.size()) - 1)), false, 0, static_cast<int>(r.range(0, 1))};
            switch (r.range(0, 9)) {
            case 0: t.v = -1; t.add = value(r.pick(m.doms)); break;
            case 1:
            case 2: t.neg = true; break;
            case 3: t.neg = true; t.add = r.range(-9, 9); break;
            case 4: t.add = r.range(-9, 9); break;
            case 5: {
                // land on another variable's values
                auto & o = r.pick(m.doms);
                auto & d = m.doms[t.v];
                t.neg = r.chance(1, 2);
                t.add = o.front().first + r.range(-3, 3) - (t.neg ? -d.back().second : d.front().first);
                break;
            }
            case 6: t.add = r.chance(1, 2) ? r.range(-1000000, 1000000) : r.pick(points); break;
            default: break;
            }
            return t;
        }

        auto at(const Term & t, const Dom & d) -> string { return t.str() + " should be " + str(d) + " after " + (log.size() > 3000 ? "... " + log.substr(log.size() - 3000) : log); }

        template <typename G>
        auto listed(G && g) -> vector<ll>
        {
            vector<ll> v;
            for (auto x : g)
                v.push_back(x.raw_value);
            return v;
        }

        auto check(const State & st, const Model & mo, const Term & t) -> void
        {
            auto d = mo.dom(t);
            auto id = t.id();
            auto w = [&] { return at(t, d); };
            auto lo = d.front().first, hi = d.back().second, n = size_of(d);
            VH_CHECK(st.lower_bound(id).raw_value == lo, "lower-bound", w() << " but its lower bound is " << st.lower_bound(id));
            VH_CHECK(st.upper_bound(id).raw_value == hi, "upper-bound", w() << " but its upper bound is " << st.upper_bound(id));
            VH_CHECK(st.has_single_value(id) == (n == 1), "single-value", w());
            VH_CHECK(st.domain_size(id).raw_value == n, "domain-size", w() << " but its size is " << st.domain_size(id));
            if (d.size() > 1)
                VH_CHECK(st.domain_has_holes(id), "holes", w() << " but it claims to have no holes");
            typed(t, [&](const auto & x) {
                auto b = st.bounds(x);
                VH_CHECK(b.first.raw_value == lo && b.second.raw_value == hi, "bounds", w() << " but its bounds are " << b.first << " " << b.second);
                auto o = st.optional_single_value(x);
                VH_CHECK(n == 1 ? (o && o->raw_value == lo) : ! o, "single-value", w());
                auto copy = dom_of(st.copy_of_values(x));
                VH_CHECK(copy == d, "copy-of-values", w() << " but its values are " << str(copy));
                for (int i = 0; i < 4; ++i) {
                    auto v = value(d);
                    VH_CHECK(st.in_domain(x, Integer{v}) == has(d, v), "in-domain", w() << " but it is wrong about " << v);
                }
                Dom other;
                for (ll i = 0, v = value(d), e = r.range(0, 3); i < e; ++i) {
                    other.emplace_back(v, v + r.range(0, 3));
                    v += r.range(5, 9);
                }
                Dom common;
                for (auto & [l, u] : other)
                    for (auto & p : meet(d, l, u))
                        common.push_back(p);
                VH_CHECK(st.domain_intersects_with(x, set_of(other)) == ! common.empty(), "intersects-set", w() << " but it is wrong about meeting " << str(other));
                if (n <= 300) {
                    vector<ll> all;
                    for (auto & [l, u] : d)
                        for (ll v = l; v <= u; ++v)
                            all.push_back(v);
                    VH_CHECK(listed(st.each_value_immutable(x)) == all, "each-value", w() << " but each value gives " << join(listed(st.each_value_immutable(x))));
                    VH_CHECK(listed(st.each_value_mutable(x)) == all, "each-value", w() << " but each value gives " << join(listed(st.each_value_mutable(x))));
                    vector<ll> seen;
                    st.for_each_value_immutable(x, [&](Integer v) { seen.push_back(v.raw_value); });
                    VH_CHECK(seen == all, "for-each-value", w() << " but for each value gives " << join(seen));
                    seen.clear();
                    st.for_each_value_mutable(x, [&](Integer v) { seen.push_back(v.raw_value); });
                    VH_CHECK(seen == all, "for-each-value", w() << " but for each value gives " << join(seen));
                    size_t stop = static_cast<size_t>(r.range(1, n));
                    seen.clear();
                    auto stopping = [&](Integer v) -> bool {
                        seen.push_back(v.raw_value);
                        return seen.size() < stop;
                    };
                    if (r.chance(1, 2))
                        st.for_each_value_immutable(x, stopping);
                    else
                        st.for_each_value_mutable(x, stopping);
                    VH_CHECK((seen == vector<ll>(all.begin(), all.begin() + stop)), "for-each-value-stopping", w() << " but stopping after " << stop << " gave " << join(seen));
                }
            });
            for (int k = 0; k < 3; ++k) {
                auto op = static_cast<Op>(r.range(0, 5));
                auto a = value(d), b = a + (r.chance(1, 6) ? 0 : r.range(0, 6));
                if (r.chance(1, 6))
                    b = std::max(a, value(d));
                auto got = st.test_literal(condition(id, op, a, b));
                auto lit = st.test_literal(Literal{condition(id, op, a, b)});
                VH_CHECK(got == truth(d, op, a, b) && lit == got, "test-literal", w() << " but it is wrong about " << name(op) << " " << a << " " << b << ": " << static_cast<int>(got));
                c.count(string("literals_") + name(op) + "_" + std::to_string(static_cast<int>(got)));
            }
            optional<ll> val;
            try {
                val = st(id).raw_value;
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
            }
            VH_CHECK(n == 1 ? val == lo : ! val, "unique-value", w());
            // two at once
            auto u = term();
            if (r.chance(1, 2)) {
                auto e = mo.dom(u);
                Dom common;
                for (auto & [l, h] : e)
                    for (auto & p : meet(d, l, h))
                        common.push_back(p);
                VH_CHECK(st.domains_intersect(id, u.id()) == ! common.empty(), "intersects-domain", w() << " but it is wrong about meeting " << u.str() << " " << str(e));
                c.count(common.empty() ? "disjoint_pairs" : "meeting_pairs");
            }
            c.count("terms_checked");
        }

        auto check_current(const CurrentState & cs, const Model & mo, const Term & t) -> void
        {
            auto d = mo.dom(t);
            auto id = t.id();
            auto w = [&] { return at(t, d); };
            auto n = size_of(d);
            VH_CHECK(cs.lower_bound(id).raw_value == d.front().first && cs.upper_bound(id).raw_value == d.back().second && cs.domain_size(id).raw_value == n && cs.has_single_value(id) == (n == 1),
                "current-bounds", w() << " but the current state disagrees");
            VH_CHECK(dom_of(cs.copy_of_values(id)) == d, "current-values", w() << " but the current state's values are " << str(dom_of(cs.copy_of_values(id))));
            for (int i = 0; i < 3; ++i) {
                auto v = value(d);
                VH_CHECK(cs.in_domain(id, Integer{v}) == has(d, v), "current-in-domain", w() << " but it is wrong about " << v);
            }
            if (n <= 300) {
                vector<ll> all;
                for (auto & [l, u] : d)
                    for (ll v = l; v <= u; ++v)
                        all.push_back(v);
                VH_CHECK(listed(cs.each_value(id)) == all, "current-each-value", w() << " but each value gives " << join(listed(cs.each_value(id))));
                std::reverse(all.begin(), all.end());
                VH_CHECK(listed(cs.each_value_reversed(id)) == all, "current-each-value-reversed", w() << " but each value reversed gives " << join(listed(cs.each_value_reversed(id))));
            }
            optional<ll> val;
            try {
                val = cs(id).raw_value;
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
            }
            VH_CHECK(n == 1 ? val == d.front().first : ! val, "current-unique-value", w());
        }

        auto check_all(const State & st, const Model & mo) -> void
        {
            for (size_t i = 0; i < mo.doms.size(); ++i) {
                auto copy = dom_of(st.copy_of_values(SimpleIntegerVariableID{i}));
                VH_CHECK(copy == mo.doms[i], "domain", at(Term{static_cast<int>(i), false, 0, 0}, mo.doms[i]) << " but it is " << str(copy));
            }
            for (size_t i = 0; i < mo.cs.size(); ++i) {
                auto & v = std::any_cast<vector<ll> &>(st.get_constraint_state(handles[i]));
                VH_CHECK(v == mo.cs[i], "constraint-state", "constraint state " << i << " is " << join(v) << " rather than " << join(mo.cs[i]) << " after " << log);
            }
            check(st, mo, term());
        }

        auto check_guesses() -> void
        {
            vector<Literal> want = extras, got;
            want.insert(want.end(), guesses.begin(), guesses.end());
            for (auto g : s.guesses())
                got.push_back(g);
            VH_CHECK(got == want, "guesses", "there are " << got.size() << " guesses rather than " << want.size() << ", or they differ, after " << log);
        }

        auto open() -> void
        {
            bool sub = r.chance(1, 5);
            auto before = m;
            auto g = guesses.size(), e = extras.size();
            auto t = sub ? s.new_epoch(true) : s.new_epoch();
            epochs.push_back(Epoch{t, before, g, e, sub, {}});
            say(sub ? "subsearch epoch" : "epoch");
            c.count("epochs");
        }

        auto close() -> void
        {
            auto e = epochs.back();
            epochs.pop_back();
            auto before = called;
            s.backtrack(e.when);
            m = e.model;
            guesses.resize(e.guesses, Literal{TrueLiteral{}});
            if (e.sub)
                extras.resize(e.extras, Literal{TrueLiteral{}});
            say("backtrack");
            for (int k : e.callbacks)
                ++before[k];
            VH_CHECK(called == before, "callbacks", "on backtracking, callbacks were called " << join(called) << " times in all rather than " << join(before) << " after " << log);
            check_all(s, m);
            check_guesses();
            c.count("backtracks");
        }

        auto infer() -> void
        {
            auto t = term();
            auto d = m.dom(t);
            auto op = static_cast<Op>(r.range(0, 5));
            auto a = value(d), b = r.chance(1, 2) ? a + r.range(0, 4) : value(d);
            if (op == Eq && r.chance(1, 2))
                op = NotIn;
            auto k = apply(d, op, a, b);
            if (k.empty() && r.chance(2, 3))
                return;
            if (k.empty() && epochs.empty())
                open();
            auto want = k == d ? Inference::NoChange
                : k.empty()    ? Inference::Contradiction
                : size_of(k) == 1
                ? Inference::Instantiated
                : k.front().first != d.front().first || k.back().second != d.back().second ? Inference::BoundsChanged
                                                                                           : Inference::InteriorValuesChanged;
            optional<Inference> got;
            int how = static_cast<int>(r.range(0, 3));
            if ((op == In || op == NotIn) && a > b)
                how = 0; // such conditions cannot be built
            if (how == 3 && k.empty())
                how = 2;
            say(t.str() + " " + name(op) + " " + std::to_string(a) + (op == In || op == NotIn ? ".." + std::to_string(b) : "") + (how == 1 ? " (condition)" : how == 2 ? " (literal)" : how == 3 ? " (guess)" : ""));
            typed(t, [&](const auto & x) {
                if (how == 0)
                    switch (op) {
                    case Eq: got = s.infer_equal(x, Integer{a}); break;
                    case Ne: got = s.infer_not_equal(x, Integer{a}); break;
                    case Lt: got = s.infer_less_than(x, Integer{a}); break;
                    case Ge: got = s.infer_greater_than_or_equal(x, Integer{a}); break;
                    case In: got = s.infer_in_range(x, Integer{a}, Integer{b}); break;
                    case NotIn: got = s.infer_not_in_range(x, Integer{a}, Integer{b}); break;
                    }
                else if (how == 1)
                    got = s.infer(condition(x, op, a, b));
            });
            if (how == 2)
                got = s.infer(Literal{condition(t.id(), op, a, b)});
            if (how == 3) {
                auto l = Literal{condition(t.id(), op, a, b)};
                s.guess(l);
                guesses.push_back(l);
                check_guesses();
            }
            if (got)
                VH_CHECK(*got == want, "inference-result", "the inference reported " << inference_name(*got) << " rather than " << inference_name(want) << " on " << t.str() << " " << str(d) << " after " << log);
            c.count("inferences_" + inference_name(want));
            if (want == Inference::Contradiction) {
                close();
                return;
            }
            if (t.v >= 0)
                m.doms[t.v] = t.back(k);
            check_all(s, m);
            if (want != Inference::NoChange)
                c.nontrivial(str(d) + name(op) + std::to_string(a) + "," + std::to_string(b) + t.str());
        }

        // iterate whilst changing the domain
        auto mutate() -> void
        {
            auto t = term();
            auto d = m.dom(t);
            if (t.v < 0 || size_of(d) > 300 || size_of(d) < 2)
                return;
            vector<ll> all, seen;
            for (auto & [l, u] : d)
                for (ll v = l; v <= u; ++v)
                    all.push_back(v);
            say("change whilst iterating over " + t.str());
            int density = static_cast<int>(r.range(1, 4));
            auto step = [&](Integer v) {
                seen.push_back(v.raw_value);
                auto x = r.chance(1, 2) ? v.raw_value : r.pick(all);
                auto now = m.dom(t);
                auto k = without(now, x, x);
                if (r.chance(1, density) && ! k.empty()) {
                    (void) s.infer_not_equal(t.id(), Integer{x});
                    m.doms[t.v] = t.back(k);
                }
            };
            auto e = r.range(0, 2);
            typed(t, [&](const auto & x) {
                if (e == 0)
                    s.for_each_value_mutable(x, step);
                else if (e == 1) {
                    auto g = s.each_value_mutable(x);
                    for (auto v : g)
                        step(v);
                }
            });
            if (e == 2) {
                auto cs = s.current();
                auto g = cs.each_value(t.id());
                for (auto v : g)
                    step(v);
            }
            VH_CHECK(seen == all, "iteration-over-changing-domain", at(t, d) << " but iterating whilst changing it gave " << join(seen));
            check_all(s, m);
        }
    };

    auto state_case(Ctx & c, Rng & r) -> void
    {
        Run u{c, r, State{}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}};
        int n = static_cast<int>(r.range(1, 4));
        u.called.reserve(100000);
        for (int i = 0; i < n; ++i) {
            ll base = 0, width = 0;
            switch (r.range(0, 5)) {
            case 0: base = r.range(-3, 3); width = r.range(0, 1); break;
            case 1: base = r.range(-40, 40); width = r.range(0, 40); break;
            case 2: base = r.range(-(1LL << 59), 1LL << 59); width = r.range(0, 20); break;
            case 3: base = r.range(-(1LL << 59), 0); width = r.range(0, 1LL << 58); break;
            case 4: base = r.range(-5, 5); width = r.range(2, 8); break;
            default: base = r.range(-1000, 1000); width = r.range(0, 100000); break;
            }
            auto will = u.s.what_variable_id_will_be_created_next();
            auto id = u.s.allocate_integer_variable_with_state(Integer{base}, Integer{base + width});
            VH_CHECK(will == id && id.index == static_cast<unsigned long long>(i), "variable-index", "variable " << i << " has index " << id.index << ", expected " << will.index);
            u.m.doms.push_back({{base, base + width}});
            u.points.push_back(base);
            u.points.push_back(base + width);
            u.say("x" + std::to_string(i) + " " + str(u.m.doms.back()));
        }
        for (int i = 0, k = static_cast<int>(r.range(0, 2)); i < k; ++i) {
            u.m.cs.push_back({r.range(0, 9)});
            u.handles.push_back(u.s.add_constraint_state(u.m.cs.back()));
        }
        int ops = static_cast<int>(r.range(5, 120));
        int depth_bias = static_cast<int>(r.range(1, 8));
        for (int o = 0; o < ops; ++o) {
            auto k = r.range(0, 19);
            if (k < 9)
                u.infer();
            else if (k < 11) {
                if (static_cast<int>(u.epochs.size()) < depth_bias)
                    u.open();
            }
            else if (k < 13) {
                if (! u.epochs.empty())
                    u.close();
            }
            else if (k == 13) {
                int i = static_cast<int>(u.called.size());
                u.called.push_back(0);
                (u.epochs.empty() ? u.root_callbacks : u.epochs.back().callbacks).push_back(i);
                u.s.on_backtrack([&u, i] { ++u.called[i]; });
                u.say("callback " + std::to_string(i));
            }
            else if (k == 14) {
                auto l = Literal{condition(u.term().id(), static_cast<Op>(r.range(0, 3)), r.range(-3, 3), 0)};
                u.s.add_extra_proof_condition(l);
                u.extras.push_back(l);
                u.say("extra condition");
                u.check_guesses();
            }
            else if (k == 15 && ! u.m.cs.empty()) {
                auto i = static_cast<size_t>(r.range(0, static_cast<ll>(u.m.cs.size()) - 1));
                auto & v = std::any_cast<vector<ll> &>(u.s.get_constraint_state(u.handles[i]));
                if (v.size() > 5 || (v.size() > 1 && r.chance(1, 3)))
                    v.pop_back();
                else
                    v.push_back(r.range(0, 9));
                u.m.cs[i] = v;
                u.say("constraint state " + std::to_string(i));
            }
            else if (k == 16)
                u.mutate();
            else if (k == 17) {
                auto t = u.term();
                auto cs = u.s.current();
                u.check_current(cs, u.m, t);
                if (r.chance(1, 2)) {
                    auto kept = cs.clone();
                    auto then = u.m;
                    u.infer();
                    u.check_current(kept, then, t);
                }
            }
            else if (k == 18 && u.clones.size() < 3) {
                u.clones.emplace_back(u.s.clone(), u.m);
                u.say("clone");
                c.count("clones");
            }
            else {
                for (auto & [st, mo] : u.clones) {
                    u.check_all(st, mo);
                    // and changing it leaves the original alone
                    auto i = static_cast<int>(r.range(0, n - 1));
                    auto & d = mo.doms[i];
                    if (size_of(d) > 1) {
                        VH_CHECK(st.infer_less_than(SimpleIntegerVariableID{static_cast<ull>(i)}, Integer{d.back().second}) != Inference::Contradiction, "clone", "a clone is contradictory after " << u.log);
                        d = meet(d, -far_away, d.back().second - 1);
                        u.check_all(st, mo);
                    }
                }
                u.check_all(u.s, u.m);
                auto t = u.s.infer(Literal{TrueLiteral{}});
                VH_CHECK(t == Inference::NoChange && u.s.test_literal(Literal{TrueLiteral{}}) == LiteralIs::DefinitelyTrue && u.s.test_literal(Literal{FalseLiteral{}}) == LiteralIs::DefinitelyFalse, "constant-literals", "true or false literals");
                VH_CHECK(u.s.infer(Literal{FalseLiteral{}}) == Inference::Contradiction, "constant-literals", "false literal");
            }
        }
        while (! u.epochs.empty())
            u.close();
        for (int k : u.root_callbacks)
            VH_CHECK(u.called[k] == 0, "callbacks", "a callback registered with no epoch open was called");
        c.count("operations", ops);
        c.sample(u.log);
    }
}

int main(int argc, char * argv[])
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) { state_case(c, r); });
}

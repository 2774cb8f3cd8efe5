// Monitors over the refusal of malformed models and names: every scenario
// builds well-formed random arguments and possibly damages one of them in a
// way the documentation rules out. A damaged model has to be refused with the
// documented exception before any solution is reported, a well-formed one has
// to be accepted, and a refused step must leave the problem as it was.
#include "vh.hh"
#include <algorithm>
#include <functional>
#include <gcs/constraints/all_different.hh>
#include <gcs/constraints/bin_packing.hh>
#include <gcs/constraints/circuit.hh>
#include <gcs/constraints/comparison.hh>
#include <gcs/constraints/cumulative.hh>
#include <gcs/constraints/difference.hh>
#include <gcs/constraints/disjunctive.hh>
#include <gcs/constraints/disjunctive_2d.hh>
#include <gcs/constraints/element.hh>
#include <gcs/constraints/equals.hh>
#include <gcs/constraints/global_cardinality.hh>
#include <gcs/constraints/in.hh>
#include <gcs/constraints/inverse.hh>
#include <gcs/constraints/knapsack.hh>
#include <gcs/constraints/linear.hh>
#include <gcs/constraints/mdd.hh>
#include <gcs/constraints/min_distance.hh>
#include <gcs/constraints/min_max.hh>
#include <gcs/constraints/regular.hh>
#include <gcs/constraints/smart_table.hh>
#include <gcs/constraints/sort.hh>
#include <gcs/constraints/table.hh>
#include <gcs/current_state.hh>
#include <gcs/exception.hh>
#include <gcs/problem.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/solve.hh>
#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace gcs;
using vh::Ctx;
using vh::ll;
using vh::Rng;
using std::optional;
using std::string;
using std::vector;
using Ids = vector<IntegerVariableID>;

namespace
{
    auto I(ll v) -> Integer { return Integer{v}; }
    auto ints(const vector<ll> & v) -> vector<Integer>
    {
        vector<Integer> r;
        for (auto x : v)
            r.push_back(I(x));
        return r;
    }

    // What a scenario works with. dmg is the damage to do, or -1 for none.
    struct B
    {
        Rng & r;
        Problem & p;
        int dmg;
        bool bad(int d) const { return dmg == d; }
        ll n(ll lo, ll hi) { return r.range(lo, hi); }
        // a plain variable within the bounds
        auto var(ll lo, ll hi) -> IntegerVariableID
        {
            auto a = r.range(lo, hi), b = r.range(lo, hi);
            return p.create_integer_variable(I(std::min(a, b)), I(std::max(a, b)));
        }
        // a plain variable, a view or a constant within the bounds
        auto any(ll lo, ll hi) -> IntegerVariableID
        {
            switch (r.range(0, 5)) {
            case 0: return ConstantIntegerVariableID{I(r.range(lo, hi))};
            case 1: {
                auto k = r.range(-3, 3);
                return var(lo - k, hi - k) + I(k);
            }
            case 2: {
                auto k = r.range(-3, 3);
                return -var(k - hi, k - lo) + I(k);
            }
            default: return var(lo, hi);
            }
        }
        // something that is not a constant
        auto nonconst(ll lo, ll hi) -> IntegerVariableID
        {
            while (true) {
                auto v = any(lo, hi);
                if (! std::holds_alternative<ConstantIntegerVariableID>(v))
                    return v;
            }
        }
        auto vars(ll n, ll lo, ll hi) -> Ids
        {
            Ids v;
            for (ll i = 0; i < n; ++i)
                v.push_back(any(lo, hi));
            return v;
        }
        auto consts(ll n, ll lo, ll hi) -> vector<Integer>
        {
            vector<Integer> v;
            for (ll i = 0; i < n; ++i)
                v.push_back(I(r.range(lo, hi)));
            return v;
        }
        // a handle whose smallest value is negative: constant, variable or view
        auto negative() -> IntegerVariableID
        {
            auto lo = -r.range(1, 3);
            switch (r.range(0, 3)) {
            case 0: return ConstantIntegerVariableID{I(lo)};
            case 1: return p.create_integer_variable(I(lo + 2), I(r.range(4, 6))) - 2_i;
            case 2: return -p.create_integer_variable(I(-r.range(2, 5)), I(-lo));
            default: return p.create_integer_variable(I(lo), I(r.range(0, 4)));
            }
        }
        template <typename T>
        auto at(vector<T> & v) -> T &
        {
            return v.at(r.range(0, static_cast<ll>(v.size()) - 1));
        }
        // one element too many or too few
        template <typename T, typename F>
        auto resize(vector<T> & v, F && more) -> void
        {
            if (v.empty() || r.chance(1, 2))
                v.push_back(more());
            else
                v.pop_back();
        }
        // put the same non-constant handle at two places (at least two elements)
        auto repeat(Ids & v, ll lo, ll hi) -> void
        {
            auto i = r.range(0, static_cast<ll>(v.size()) - 1), j = r.range(0, static_cast<ll>(v.size()) - 2);
            if (j >= i)
                ++j;
            v[i] = v[j] = nonconst(lo, hi);
        }
        template <typename C>
        auto post(const C & c) -> void
        {
            if (r.chance(1, 3))
                p.post_named(c, "the_constraint");
            else
                p.post(c);
        }
    };

    struct Scenario
    {
        string name;
        vector<string> damages;
        std::function<void(B &)> run;
    };

    auto scenarios() -> const vector<Scenario> &
    {
        static vector<Scenario> s = [] {
            vector<Scenario> s;
            s.push_back({"variable", {"lower bound above upper bound"}, [](B & b) {
                auto lo = b.n(-9, 9), hi = lo + b.n(0, 3);
                if (b.bad(0))
                    hi = lo - b.n(1, 1000);
                b.p.create_integer_variable(I(lo), I(hi));
            }});
            s.push_back({"variable vector", {"lower bound above upper bound"}, [](B & b) {
                auto lo = b.n(-9, 9), hi = lo + b.n(0, 1);
                if (b.bad(0))
                    hi = lo - 1;
                b.p.create_integer_variable_vector(b.n(1, 3), I(lo), I(hi), b.n(0, 1) ? optional<string>{"xs"} : std::nullopt);
            }});
            s.push_back({"variable from values", {"no values"}, [](B & b) {
                auto d = b.consts(b.n(1, 4), -5, 5);
                if (b.bad(0))
                    d.clear();
                b.p.create_integer_variable(d);
            }});
            s.push_back({"inverse", {"handle twice in the first array", "handle twice in the second array", "different sizes"}, [](B & b) {
                auto n = b.n(2, 3);
                auto x = b.vars(n, 0, n - 1), y = b.vars(n, 0, n - 1);
                if (b.bad(0))
                    b.repeat(x, 0, n - 1);
                if (b.bad(1))
                    b.repeat(y, 0, n - 1);
                if (b.bad(2))
                    b.resize(b.n(0, 1) ? x : y, [&] { return b.any(0, n - 1); });
                b.post(Inverse{x, y});
            }});
            s.push_back({"element 2d", {"irregular array"}, [](B & b) {
                auto h = b.n(2, 3), w = b.n(1, 3);
                vector<Ids> a;
                for (ll i = 0; i < h; ++i)
                    a.push_back(b.vars(w, 0, 2));
                if (b.bad(0))
                    b.resize(b.at(a), [&] { return b.any(0, 2); });
                b.post(Element2D{b.any(0, 2), b.any(0, h - 1), b.any(0, w - 1), Element2D::Array{a}});
            }});
            s.push_back({"element 2d of constants", {"irregular array"}, [](B & b) {
                auto h = b.n(2, 3), w = b.n(1, 3);
                vector<vector<Integer>> a;
                for (ll i = 0; i < h; ++i)
                    a.push_back(b.consts(w, 0, 2));
                if (b.bad(0))
                    b.resize(b.at(a), [&] { return 1_i; });
                b.post(Element2DConstantArray{b.any(0, 2), b.any(0, h - 1), b.any(0, w - 1), Element2DConstantArray::Array{a}});
            }});
            s.push_back({"difference constraints", {"negated view on the left", "negated view on the right"}, [](B & b) {
                vector<DifferenceEdge> e;
                auto plain = [&]() -> IntegerVariableID {
                    switch (b.n(0, 3)) {
                    case 0: return ConstantIntegerVariableID{I(b.n(0, 3))};
                    case 1: return b.var(0, 3) + I(b.n(-2, 2));
                    default: return b.var(0, 3);
                    }
                };
                auto n = b.n(1, 3);
                for (ll i = 0; i < n; ++i) {
                    auto x = plain(), y = plain();
                    e.push_back(b.n(0, 2) ? DifferenceEdge{x, y, I(b.n(-1, 3))} : DifferenceEdge{x, y, I(b.n(-1, 3)), b.var(0, 1) == 1_i});
                }
                auto neg = -b.var(0, 3) + I(b.n(-1, 1));
                if (b.bad(0))
                    b.at(e).x = neg;
                if (b.bad(1))
                    b.at(e).y = neg;
                b.post(DifferenceConstraints{e});
            }});
            s.push_back({"min distance", {"one position", "no distances", "distances not square", "non-zero diagonal", "negative distance", "asymmetric distances", "requirements of the wrong height", "requirements of the wrong width", "negative requirement"}, [](B & b) {
                auto p = b.n(2, 3), n = b.n(2, 4);
                vector<vector<Integer>> d(n, vector<Integer>(n, 0_i)), q(p, vector<Integer>(p, 0_i));
                for (ll i = 0; i < n; ++i)
                    for (ll j = 0; j < i; ++j)
                        d[i][j] = d[j][i] = I(b.n(0, 4));
                for (ll i = 0; i < p; ++i)
                    for (ll j = i + 1; j < p; ++j)
                        q[i][j] = I(b.n(0, 2));
                auto req = b.n(0, 1) == 1 || b.dmg >= 6;
                auto x = b.vars(p, 0, n - 1);
                auto i = b.n(0, n - 1), j = (i + b.n(1, n - 1)) % n;
                if (b.bad(0))
                    x.resize(b.n(0, 1), 0_c);
                if (b.bad(1))
                    d.clear();
                if (b.bad(2))
                    b.resize(d[i], [] { return 0_i; });
                if (b.bad(3))
                    d[i][i] = I(b.n(1, 3));
                if (b.bad(4))
                    d[i][j] = d[j][i] = I(-b.n(1, 3));
                if (b.bad(5))
                    d[i][j] += 1_i;
                if (b.bad(6))
                    b.resize(q, [&] { return vector<Integer>(p, 0_i); });
                if (b.bad(7))
                    b.resize(b.at(q), [] { return 0_i; });
                if (b.bad(8)) {
                    auto k = b.n(0, p - 2);
                    q[k][b.n(k + 1, p - 1)] = I(-b.n(1, 3));
                }
                using M = ArrayParam<MinDistance::Matrix>;
                b.post(MinDistance{x, b.any(0, 4), M{d}, req ? optional<M>{M{q}} : std::nullopt});
            }});
            s.push_back({"argsort", {"different sizes"}, [](B & b) {
                auto n = b.n(2, 3);
                auto x = b.vars(n, 0, 2), y = b.vars(n, 0, n - 1);
                if (b.bad(0))
                    b.resize(b.n(0, 1) ? x : y, [&] { return b.any(0, n - 1); });
                b.post(ArgSort{x, y});
            }});
            s.push_back({"sort", {"different sizes"}, [](B & b) {
                auto n = b.n(2, 3);
                auto x = b.vars(n, 0, 2), y = b.vars(n, 0, 2);
                if (b.bad(0))
                    b.resize(b.n(0, 1) ? x : y, [&] { return b.any(0, 2); });
                b.post(Sort{x, y});
            }});
            s.push_back({"strict comparison", {"an operand twice in not equals", "an operand twice in less than", "an operand twice in greater than"}, [](B & b) {
                auto x = b.nonconst(0, 3), y = b.nonconst(0, 3);
                if (b.dmg == -1 && b.n(0, 2) == 0)
                    x = y = ConstantIntegerVariableID{I(b.n(0, 3))};
                if (b.dmg != -1)
                    y = x;
                switch (b.dmg == -1 ? b.n(0, 2) : b.dmg) {
                case 0: b.post(NotEquals{x, y}); break;
                case 1: b.post(LessThan{x, y}); break;
                case 2: b.post(GreaterThan{x, y}); break;
                }
            }});
            s.push_back({"mdd", {"layer sizes too many or few", "layers too many or few", "more or fewer than one root", "a layer without entries for its nodes", "an edge to a node that does not exist", "an accepting node that does not exist"}, [](B & b) {
                auto n = b.n(1, 3);
                vector<long> npl{1};
                for (ll i = 0; i < n; ++i)
                    npl.push_back(b.n(1, 3));
                vector<vector<std::unordered_map<Integer, long>>> t;
                for (ll i = 0; i < n; ++i) {
                    t.emplace_back(npl[i]);
                    for (auto & m : t.back())
                        for (ll v = 0; v < 3; ++v)
                            if (b.n(0, 2))
                                m[I(v)] = b.n(0, npl[i + 1] - 1);
                }
                vector<long> acc;
                for (long q = 0; q < npl[n]; ++q)
                    if (b.n(0, 2))
                        acc.push_back(q);
                if (b.bad(0))
                    b.resize(npl, [] { return 1; });
                if (b.bad(1))
                    b.resize(t, [] { return vector<std::unordered_map<Integer, long>>(3); });
                if (b.bad(2))
                    npl[0] = b.n(0, 1) ? 0 : b.n(2, 4);
                if (b.bad(3))
                    b.at(t).pop_back();
                if (b.bad(4)) {
                    auto i = b.n(0, n - 1);
                    b.at(t[i])[I(b.n(0, 2))] = b.n(0, 1) ? npl[i + 1] + b.n(0, 3) : -b.n(2, 4);
                }
                if (b.bad(5))
                    acc.push_back(b.n(0, 1) ? npl[n] + b.n(0, 3) : -b.n(1, 4));
                b.post(MDD{b.vars(n, 0, 2), t, npl, acc});
            }});
            s.push_back({"disjunctive", {"lengths too many or few", "a negative constant length", "a length that could be negative", "presences too many or few", "a constant presence outside 0..1", "a presence that could be outside 0..1"}, [](B & b) {
                auto n = b.n(1, 3);
                auto st = b.vars(n, 0, 5), len = b.vars(n, 0, 2), pr = b.vars(n, 0, 1);
                auto with = b.dmg >= 3 || b.n(0, 2) == 0;
                if (b.bad(0))
                    b.resize(len, [&] { return b.any(0, 2); });
                if (b.bad(1))
                    b.at(len) = ConstantIntegerVariableID{I(-b.n(1, 3))};
                if (b.bad(2))
                    b.at(len) = b.negative();
                if (b.bad(3))
                    if (pr.size() == 1)
                        pr.push_back(b.any(0, 1)); // no presences at all means something else
                    else
                        b.resize(pr, [&] { return b.any(0, 1); });
                if (b.bad(4))
                    b.at(pr) = ConstantIntegerVariableID{I(b.n(0, 1) ? b.n(2, 4) : b.n(-3, -1))};
                if (b.bad(5))
                    b.at(pr) = b.n(0, 1) ? b.p.create_integer_variable(0_i, I(b.n(2, 4))) : b.p.create_integer_variable(I(b.n(-3, -1)), 1_i);
                auto strict = b.n(0, 1) == 1;
                if (with)
                    b.post(Disjunctive{st, len, pr}.with_strict(strict));
                else
                    b.post(Disjunctive{st, len}.with_strict(strict));
            }});
            s.push_back({"disjunctive 2d", {"arrays of different sizes", "a negative width", "a negative height"}, [](B & b) {
                auto n = b.n(1, 3);
                auto x = b.vars(n, 0, 3), y = b.vars(n, 0, 3), w = b.vars(n, 0, 2), h = b.vars(n, 0, 2);
                if (b.bad(0)) {
                    Ids * a[] = {&x, &y, &w, &h};
                    b.resize(*a[b.n(0, 3)], [&] { return b.any(0, 2); });
                }
                if (b.bad(1))
                    b.at(w) = b.negative();
                if (b.bad(2))
                    b.at(h) = b.negative();
                b.post(Disjunctive2D{x, y, w, h}.with_strict(b.n(0, 1) == 1));
            }});
            s.push_back({"cumulative", {"arrays of different sizes", "a negative length", "a negative height", "a negative capacity", "presences too many or few", "a constant presence outside 0..1", "a presence that could be outside 0..1"}, [](B & b) {
                auto n = b.n(1, 3);
                auto st = b.vars(n, 0, 4), len = b.vars(n, 0, 2), ht = b.vars(n, 0, 2), pr = b.vars(n, 0, 1);
                auto cap = b.any(0, 3);
                auto with = b.dmg >= 4 || b.n(0, 2) == 0;
                if (b.bad(0)) {
                    Ids * a[] = {&st, &len, &ht};
                    b.resize(*a[b.n(0, 2)], [&] { return b.any(0, 2); });
                }
                if (b.bad(1))
                    b.at(len) = b.negative();
                if (b.bad(2))
                    b.at(ht) = b.negative();
                if (b.bad(3))
                    cap = b.negative();
                if (b.bad(4))
                    if (pr.size() == 1)
                        pr.push_back(b.any(0, 1)); // no presences at all means something else
                    else
                        b.resize(pr, [&] { return b.any(0, 1); });
                if (b.bad(5))
                    b.at(pr) = ConstantIntegerVariableID{I(b.n(0, 1) ? b.n(2, 4) : b.n(-3, -1))};
                if (b.bad(6))
                    b.at(pr) = b.n(0, 1) ? b.p.create_integer_variable(0_i, I(b.n(2, 4))) : b.p.create_integer_variable(I(b.n(-3, -1)), 1_i);
                if (with)
                    b.post(Cumulative{st, len, ht, pr, cap});
                else
                    b.post(Cumulative{st, len, ht, cap});
            }});
            s.push_back({"circuit", {"handle twice"}, [](B & b) {
                auto n = b.n(2, 3);
                auto x = b.vars(n, 0, n - 1);
                if (b.bad(0))
                    b.repeat(x, 0, n - 1);
                b.post(Circuit{x});
            }});
            s.push_back({"automaton", {"transitions for too many or few states", "a transition to a state that does not exist", "a final state that does not exist", "no states"}, [](B & b) {
                auto q = b.n(1, 3), n = b.n(0, 3), w = b.n(1, 3);
                vector<std::unordered_map<Integer, long>> m(q);
                vector<vector<long>> v(q, vector<long>(w, -1));
                for (ll i = 0; i < q; ++i)
                    for (ll k = 0; k < w; ++k)
                        if (b.n(0, 3))
                            v[i][k] = m[i][I(k)] = b.n(0, q - 1);
                vector<long> fin;
                for (long i = 0; i < q; ++i)
                    if (b.n(0, 1))
                        fin.push_back(i);
                if (b.bad(0)) {
                    auto more = b.n(0, 1) == 1;
                    m.resize(more ? q + 1 : q - 1);
                    v.resize(m.size());
                }
                if (b.bad(1)) {
                    auto i = b.n(0, q - 1), k = b.n(0, w - 1);
                    v[i][k] = m[i][I(k)] = b.n(0, 1) ? q + b.n(0, 3) : -b.n(2, 4);
                }
                if (b.bad(2))
                    fin.push_back(b.n(0, 1) ? q + b.n(0, 3) : -b.n(1, 4));
                if (b.bad(3)) {
                    m.clear();
                    v.clear();
                    q = -b.n(0, 2);
                    fin.clear();
                }
                auto x = b.vars(n, 0, 2);
                auto ps = b.n(0, 2);
                RegularProofStrategy strategy = ps == 0 ? RegularProofStrategy{proof_strategy::Upfront{}} : ps == 1 ? RegularProofStrategy{proof_strategy::PerCall{}} : RegularProofStrategy{proof_strategy::Bacchus{}};
                if (b.n(0, 1))
                    b.post(Regular{x, q, m, fin}.with_proof_strategy(strategy));
                else
                    b.post(Regular{x, q, v, fin}.with_proof_strategy(strategy));
            }});
            s.push_back({"regular expression", {"unknown character", "unclosed group", "unopened group", "nothing to repeat", "unclosed class", "unclosed quantifier", "number out of range"}, [](B & b) {
                static const vector<string> atoms{"1", "2", "(1|2)", "[0-2]", "[^1]", ".", "(1 2)?", "0*", "2+", "1{0,2}", "(0|1){2}", "0{1,}"};
                auto gen = [&] {
                    string s;
                    auto k = b.n(1, 3);
                    for (ll i = 0; i < k; ++i)
                        s += (i ? (b.n(0, 4) ? " " : "|") : "") + b.r.pick(atoms);
                    return s;
                };
                auto a = gen(), c = gen();
                string e = a + " " + c;
                switch (b.dmg) {
                case 0: e = a + string(1, "abz$#@!&;:<>=/\\\"'~%"[b.n(0, 18)]) + c; break;
                case 1: e = a + " (" + c; break;
                case 2: e = a + ") " + c; break;
                case 3: e = string{"*+?"}.substr(b.n(0, 2), 1) + a; break;
                case 4: e = a + " [1-2 "; break;
                case 5: e = a + " 1{2"; break;
                case 6: e = a + " 9" + std::to_string(b.n(100, 999)) + "9999999999999999999"; break;
                default: break;
                }
                b.post(Regular{b.vars(b.n(1, 3), 0, 2), e});
            }});
            s.push_back({"bin packing", {"sizes too many or few", "a negative size", "no bins", "an item outside the bins", "a load that could be negative", "a negative capacity"}, [](B & b) {
                auto n = b.n(1, 3), k = b.n(1, 3);
                auto items = b.vars(n, 0, k - 1), loads = b.vars(k, 0, 4);
                auto sizes = b.consts(n, 0, 3), caps = b.consts(k, 0, 5);
                auto use_loads = b.bad(4) || (! b.bad(5) && b.n(0, 1));
                if (b.bad(0))
                    b.resize(sizes, [] { return 1_i; });
                if (b.bad(1))
                    b.at(sizes) = I(-b.n(1, 3));
                if (b.bad(2)) {
                    loads.clear();
                    caps.clear();
                }
                if (b.bad(3))
                    b.at(items) = b.n(0, 1) ? b.p.create_integer_variable(0_i, I(k + b.n(0, 2))) : b.p.create_integer_variable(I(-b.n(1, 2)), I(k - 1));
                if (b.bad(4))
                    b.at(loads) = b.negative();
                if (b.bad(5))
                    b.at(caps) = I(-b.n(1, 3));
                BinPackingConsistency cons = b.n(0, 1) ? BinPackingConsistency{consistency::BC{}} : BinPackingConsistency{consistency::GAC{}};
                if (use_loads)
                    b.post(BinPacking{items, sizes, loads}.with_consistency(cons));
                else
                    b.post(BinPacking{items, sizes, caps}.with_consistency(cons));
            }});
            s.push_back({"array minimum or maximum", {"empty array"}, [](B & b) {
                auto x = b.vars(b.n(1, 3), 0, 3);
                if (b.bad(0))
                    x.clear();
                if (b.n(0, 1))
                    b.post(ArrayMin{x, b.any(0, 3)});
                else
                    b.post(ArrayMax{x, b.any(0, 3)});
            }});
            s.push_back({"table", {"a tuple of the wrong width", "a wildcard tuple of the wrong width"}, [](B & b) {
                auto n = b.n(1, 3);
                if (b.bad(0) || (b.dmg == -1 && b.n(0, 1))) {
                    SimpleTuples t;
                    auto k = b.n(1, 5);
                    for (ll i = 0; i < k; ++i)
                        t.push_back(b.consts(n, 0, 2));
                    if (b.bad(0))
                        b.resize(b.at(t), [] { return 1_i; });
                    if (b.n(0, 1))
                        b.post(Table{b.vars(n, 0, 2), t});
                    else
                        b.post(NegativeTable{b.vars(n, 0, 2), t});
                }
                else {
                    WildcardTuples t;
                    auto k = b.n(1, 5);
                    for (ll i = 0; i < k; ++i) {
                        vector<IntegerOrWildcard> u;
                        for (ll j = 0; j < n; ++j)
                            u.push_back(b.n(0, 2) ? IntegerOrWildcard{I(b.n(0, 2))} : IntegerOrWildcard{Wildcard{}});
                        t.push_back(u);
                    }
                    if (b.bad(1))
                        b.resize(b.at(t), [] { return IntegerOrWildcard{Wildcard{}}; });
                    if (b.n(0, 1))
                        b.post(Table{b.vars(n, 0, 2), t});
                    else
                        b.post(NegativeTable{b.vars(n, 0, 2), t});
                }
            }});
            s.push_back({"knapsack", {"totals too many or few", "no rows", "ragged rows", "a negative coefficient", "an item that could be negative", "a total that could be negative", "rows not as long as the items"}, [](B & b) {
                auto n = b.n(1, 3), k = b.n(1, 2);
                vector<vector<Integer>> c;
                for (ll i = 0; i < k; ++i)
                    c.push_back(b.consts(n, 0, 3));
                if (b.bad(2)) {
                    c.push_back(b.consts(n, 0, 3));
                    k = c.size();
                }
                auto x = b.vars(n, 0, 2), t = b.vars(k, 0, 6);
                if (b.bad(0))
                    b.resize(t, [&] { return b.any(0, 6); });
                if (b.bad(1)) {
                    c.clear();
                    t.clear();
                }
                if (b.bad(2))
                    b.resize(b.at(c), [] { return 1_i; });
                if (b.bad(3))
                    b.at(b.at(c)) = I(-b.n(1, 3));
                if (b.bad(4))
                    b.at(x) = b.negative();
                if (b.bad(5))
                    b.at(t) = b.negative();
                if (b.bad(6))
                    b.resize(x, [&] { return b.any(0, 2); });
                KnapsackProofStrategy ps = b.n(0, 1) ? KnapsackProofStrategy{proof_strategy::Upfront{}} : KnapsackProofStrategy{proof_strategy::PerCall{}};
                b.post(Knapsack{c, x, t}.with_proof_strategy(ps));
            }});
            s.push_back({"smart table", {"an entry comparing a variable with itself", "an entry comparing a variable with its own view"}, [](B & b) {
                auto n = b.n(2, 3);
                Ids x;
                for (ll i = 0; i < n; ++i)
                    x.push_back(b.var(0, 2));
                auto entry = [&](IntegerVariableID p, IntegerVariableID q) -> SmartEntry {
                    switch (b.n(0, 5)) {
                    case 0: return SmartTable::equals(p, q);
                    case 1: return SmartTable::not_equals(p, q);
                    case 2: return SmartTable::less_than(p, q);
                    case 3: return SmartTable::less_than_equal(p, q);
                    case 4: return SmartTable::greater_than(p, q);
                    default: return SmartTable::greater_than_equal(p, q);
                    }
                };
                SmartTuples t;
                auto k = b.n(1, 3);
                for (ll i = 0; i < k; ++i) {
                    vector<SmartEntry> u;
                    u.push_back(entry(x[0], x[1]));
                    if (b.n(0, 1))
                        u.push_back(SmartTable::equals(x[n - 1], I(b.n(0, 2))));
                    t.push_back(u);
                }
                auto v = b.at(x);
                if (b.bad(0))
                    b.at(t).push_back(entry(v, v));
                if (b.bad(1))
                    b.at(t).push_back(entry(v, v + I(b.n(1, 2))));
                b.post(SmartTable{x, t});
            }});
            s.push_back({"range condition", {"lower end above upper end", "lower end above upper end, negated"}, [](B & b) {
                auto lo = b.n(-3, 3), hi = lo + b.n(0, 3);
                if (b.dmg >= 0)
                    hi = lo - b.n(1, 5);
                auto v = b.nonconst(-4, 4);
                if (b.bad(0) || (b.dmg == -1 && b.n(0, 1)))
                    b.post(EqualsIf{b.any(0, 2), b.any(0, 2), in_range(v, I(lo), I(hi))});
                else
                    b.post(EqualsIf{b.any(0, 2), b.any(0, 2), not_in_range(v, I(lo), I(hi))});
            }});
            s.push_back({"global cardinality", {"counts too many or few"}, [](B & b) {
                auto n = b.n(1, 3), k = b.n(1, 3);
                vector<Integer> values;
                for (ll i = 0; i < k; ++i)
                    values.push_back(I(i));
                b.r.shuffle(values);
                auto counts = b.vars(k, 0, n);
                if (b.bad(0))
                    b.resize(counts, [&] { return b.any(0, n); });
                GlobalCardinalityConsistency cons = b.n(0, 1) ? GlobalCardinalityConsistency{consistency::BC{}} : GlobalCardinalityConsistency{consistency::GAC{}};
                b.post(GlobalCardinality{b.vars(n, 0, 3), values, counts}.with_consistency(cons).with_closed(b.n(0, 1) == 1));
            }});
            return s;
        }();
        return s;
    }

    // a small model that is there before and after the step under test
    auto base(Problem & p, Rng & r) -> vector<IntegerVariableID>
    {
        vector<IntegerVariableID> x;
        auto n = r.range(2, 3);
        for (ll i = 0; i < n; ++i)
            x.push_back(p.create_integer_variable(0_i, I(r.range(1, 3)), r.chance(1, 2) ? optional<string>{"base" + std::to_string(i)} : std::nullopt));
        WeightedSum s;
        for (auto & v : x)
            s += I(r.range(-2, 3)) * v;
        p.post(s <= I(r.range(0, 6)));
        return x;
    }

    auto solutions(Problem & p, const vector<IntegerVariableID> & x) -> std::multiset<string>
    {
        std::multiset<string> out;
        solve_with(p, SolveCallbacks{.solution = [&](const CurrentState & s) {
            string o;
            for (auto & v : x)
                o += std::to_string(s(v).raw_value) + " ";
            out.insert(o);
            return true;
        },
            .branch = branch_with(variable_order::dom(x), value_order::smallest_first())});
        return out;
    }

    auto models(Ctx & c, Rng & r) -> void
    {
        auto & all = scenarios();
        auto & sc = all[r.range(0, static_cast<ll>(all.size()) - 1)];
        auto dmg = r.chance(1, 3) ? -1 : static_cast<int>(r.range(0, static_cast<ll>(sc.damages.size()) - 1));
        auto what = sc.name + (dmg < 0 ? string{}: ": " + sc.damages[dmg]);
        c.describe(what);

        auto seed = r.next();
        Problem p;
        Rng rb{seed};
        auto x = base(p, rb);
        bool posted = false, refused = false;
        string why;
        long sols = 0;
        B b{r, p, dmg};
        try {
            sc.run(b);
            posted = true;
            auto stats = solve_with(p, SolveCallbacks{.solution = [&](const CurrentState &) { return ++sols < 20; }});
            (void)stats;
        }
        catch (const InvalidProblemDefinitionException & e) {
            refused = true;
            why = e.what();
        }
        ++c.evaluations;
        c.count(dmg < 0 ? "well-formed" : posted ? "refused by solve" : "refused by the constructor");
        c.nontrivial(what + (posted ? "+" : "-") + std::to_string(sols));
        c.sample(what + (refused ? " -> " + why : " -> " + std::to_string(sols) + " solutions"));
        if (dmg < 0) {
            VH_CHECK(! refused, "refused:" + sc.name, "a well-formed model (" << sc.name << ") was refused: " << why);
            return;
        }
        VH_CHECK(sols == 0, "solution:" + what, "a solution was reported for a malformed model (" << what << ")");
        VH_CHECK(refused, "accepted:" + what, "a malformed model (" << what << ") was not refused");
        VH_CHECK(! why.empty(), "silent:" + what, "the refusal of a malformed model (" << what << ") says nothing");
        if (posted)
            return;

        // the problem is as it was before the refused step
        Problem q;
        Rng rq{seed};
        auto y = base(q, rq);
        auto left = solutions(p, x), right = solutions(q, y);
        VH_CHECK(left == right, "after:" + sc.name, "after the refusal of " << what << " the problem has " << left.size() << " solutions instead of " << right.size());
    }

    // ------------------------------------------------------------- names --

    // letters, digits, _, -, [, ], {, }: starting with a letter after any
    // number of underscores, brackets matched and properly nested
    auto well_formed(const string & n) -> bool
    {
        size_t i = 0;
        while (i < n.size() && n[i] == '_')
            ++i;
        auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
        if (i == n.size() || ! letter(n[i]))
            return false;
        vector<char> open;
        for (; i < n.size(); ++i) {
            auto c = n[i];
            if (c == '[' || c == '{')
                open.push_back(c);
            else if (c == ']' || c == '}') {
                if (open.empty() || open.back() != (c == ']' ? '[' : '{'))
                    return false;
                open.pop_back();
            }
            else if (! letter(c) && ! (c >= '0' && c <= '9') && c != '_' && c != '-')
                return false;
        }
        return open.empty();
    }

    auto random_name(Rng & r) -> string
    {
        string s;
        switch (r.range(0, 7)) {
        case 0: return "_" + std::to_string(r.range(0, 20));
        case 1: {
            auto n = r.range(0, 5);
            for (ll i = 0; i < n; ++i)
                s += "abXZ019_-[]{}[]{} .,()\n\t\"'\\/@$%"[r.range(0, 30)];
            return s;
        }
        default: {
            if (r.chance(1, 4))
                s += string(r.range(1, 2), '_');
            s += "abxyzABXYZ"[r.range(0, 9)];
            auto n = r.range(0, 3);
            vector<char> open;
            for (ll i = 0; i < n; ++i) {
                if (r.chance(1, 3)) {
                    open.push_back(r.chance(1, 2) ? ']' : '}');
                    s += open.back() == ']' ? '[' : '{';
                }
                s += "ab09_-"[r.range(0, 5)];
                if (! open.empty() && r.chance(1, 2)) {
                    s += open.back();
                    open.pop_back();
                }
            }
            if (r.chance(7, 8))
                while (! open.empty()) {
                    s += open.back();
                    open.pop_back();
                }
            return s;
        }
        }
    }

    auto names(Ctx & c, Rng & r) -> void
    {
        Problem p;
        std::set<string> taken;
        vector<string> log;
        vector<IntegerVariableID> x;
        vector<string> expect_names;
        unsigned long long constraints = 0, anonymous = 0;
        vector<string> expect_constraints;
        x.push_back(p.create_integer_variable(0_i, 2_i));
        expect_names.push_back("_" + std::to_string(++anonymous));
        auto steps = r.range(3, 12);
        bool saw_bad = false, saw_good = false;
        for (ll k = 0; k < steps; ++k) {
            auto name = ! taken.empty() && r.chance(1, 6) ? r.pick(vector<string>(taken.begin(), taken.end())) : random_name(r);
            auto kind = r.range(0, 6);
            bool ok = well_formed(name) && ! taken.contains(name), thrown = false;
            string how;
            c.describe(vh::join(log, "; ") + "; then step " + std::to_string(kind) + " with " + name);
            auto guarded = [&](auto && f) {
                try {
                    f();
                }
                catch (const NamingError & e) {
                    thrown = true;
                    VH_CHECK(! string{e.what()}.empty(), "silent", "a refused name comes with no message");
                }
            };
            switch (kind) {
            case 0:
            case 1: {
                how = "variable '" + name + "'";
                guarded([&] {
                    auto v = kind == 0 ? p.create_integer_variable(0_i, 1_i, name) : p.create_integer_variable(vector<Integer>{0_i, 1_i}, name);
                    x.push_back(v);
                    expect_names.push_back(name);
                    if (kind == 1)
                        expect_constraints.push_back("_" + std::to_string(++constraints));
                });
                break;
            }
            case 2:
            case 3: {
                how = "constraint '" + name + "'";
                guarded([&] {
                    if (kind == 2)
                        p.post_named(LessThanEqual{x[0], x[0]}, name);
                    else
                        p.post_named(WeightedSum{} + 1_i * x[0] <= 5_i, name);
                    expect_constraints.push_back(name);
                });
                break;
            }
            case 4: {
                auto num = constraints + 1 + (r.chance(1, 2) ? 0 : static_cast<unsigned long long>(r.range(1, 3)));
                if (r.chance(1, 4))
                    num = static_cast<unsigned long long>(r.range(0, 3));
                ok = num == constraints + 1;
                how = "numbered constraint " + std::to_string(num);
                guarded([&] {
                    p.post_autonumbered(LessThanEqual{x[0], x[0]}, num);
                    expect_constraints.push_back("_" + std::to_string(++constraints));
                });
                break;
            }
            case 5: {
                how = "unnamed constraint";
                ok = true;
                guarded([&] {
                    p.post(LessThanEqual{x[0], x[0]});
                    expect_constraints.push_back("_" + std::to_string(++constraints));
                });
                break;
            }
            default: {
                auto n = r.range(1, 3);
                how = "vector of " + std::to_string(n) + " '" + name + "'";
                ok = well_formed(name + "[0]");
                ll good = 0;
                if (ok)
                    while (good < n && ! taken.contains(name + "[" + std::to_string(good) + "]"))
                        ++good;
                ok = good == n;
                // a refusal part of the way through leaves the earlier elements behind
                guarded([&] {
                    auto v = p.create_integer_variable_vector(n, 0_i, 1_i, name);
                    VH_CHECK(static_cast<ll>(v.size()) == n, "vector", "asked for " << n << " variables, got " << v.size());
                    for (auto & i : v)
                        x.push_back(i);
                });
                for (ll i = 0; i < good; ++i) {
                    expect_names.push_back(name + "[" + std::to_string(i) + "]");
                    taken.insert(expect_names.back());
                }
                break;
            }
            }
            log.push_back(how + (thrown ? " refused" : " accepted"));
            VH_CHECK(thrown == ! ok, (thrown ? "refused" : "accepted"), how << " was " << (thrown ? "refused" : "accepted") << " after: " << vh::join(log, "; "));
            if (ok && kind <= 3)
                taken.insert(name);
            (ok ? saw_good : saw_bad) = true;
            ++c.evaluations;
            c.count(ok ? "accepted" : "refused");
        }
        // every variable is listed once, in order, under its name
        vector<string> got;
        for (auto [v, lo, hi, n] : p.each_variable_with_bounds_and_name())
            got.push_back(n);
        VH_CHECK(got == expect_names, "listed", "the problem lists the variables " << vh::join(got, " ") << " instead of " << vh::join(expect_names, " "));
        vector<string> cs;
        for (auto & k : p.each_constraint())
            cs.push_back(as_string(k.constraint_id()));
        VH_CHECK(cs == expect_constraints, "constraints", "the problem lists the constraints " << vh::join(cs, " ") << " instead of " << vh::join(expect_constraints, " "));
        if (saw_bad && saw_good)
            c.nontrivial(vh::join(log, ";"));
        c.sample(vh::join(log, "; "));
    }
}

auto main(int argc, char ** argv) -> int
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (c.mode == "models")
            models(c, r);
        else if (c.mode == "names")
            names(c, r);
        else
            throw std::runtime_error{"unknown mode " + c.mode};
    });
}

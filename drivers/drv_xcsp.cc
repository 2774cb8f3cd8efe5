// The XCSP program, run as a process on generated instances. The parser library it needs is not installed: it is built
// against shim/XCSP3CoreParser.h, which calls the same callbacks from a plain text. What each constraint of the format means
// is written here; what the program prints is judged against enumeration.
#include "vh.hh"
#include <fcntl.h>
#include <optional>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using vh::Ctx;
using vh::join;
using vh::ll;
using vh::Rng;
using vh::string;
using vh::vector;

namespace
{
    using A = vector<ll>;
    using Is = vector<ll>;
    using Vs = vector<int>;
    auto put(const string & path, const string & text) -> void
    {
        std::ofstream o{path, std::ios::binary};
        o << text;
    }
    auto slurp(const string & path) -> string
    {
        std::ifstream i{path, std::ios::binary};
        std::ostringstream o;
        o << i.rdbuf();
        return o.str();
    }
    struct Ran
    {
        int status;
        string out, err;
    };
    auto run_program(Ctx & c, vector<string> args) -> Ran
    {
        char self[4096];
        auto len = readlink("/proc/self/exe", self, sizeof self - 1);
        string exe{self, static_cast<size_t>(std::max<ssize_t>(len, 0))};
        exe = exe.substr(0, exe.rfind('/')) + "/xcsp_solver";
        auto out = c.tmp + "/xcsp.out", err = c.tmp + "/xcsp.err";
        auto pid = fork();
        if (pid == 0) {
            dup2(open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 1);
            dup2(open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 2);
            rlimit lim{60, 60};
            setrlimit(RLIMIT_CPU, &lim);
            vector<char *> argv{exe.data()};
            for (auto & a : args)
                argv.push_back(a.data());
            argv.push_back(nullptr);
            execv(exe.c_str(), argv.data());
            _exit(125);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        Ran ran{WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), slurp(out), slurp(err)};
        if (ran.status == 125) {
            std::cerr << "cannot run " << exe << ": " << ran.err << "\n";
            std::exit(2);
        }
        return ran;
    }

    struct Var
    {
        string name;
        Is dom;
        bool range;
    };
    using Meaning = std::function<bool(const A &)>;
    struct Term
    {
        string text;
        std::function<ll(const A &)> at;
        ll lo, hi;
    };
    auto n2s(ll v) -> string { return std::to_string(v); }

    struct Model
    {
        Rng & r;
        vector<Var> vars;
        double size = 1;
        vector<vector<string>> constraints; // lines that stay together
        vector<Meaning> meanings;
        std::set<int> used;
        std::set<int> before;
        bool aliased = false;
        vector<string> kinds;

        explicit Model(Rng & r_) : r(r_) {}
        auto fresh(ll lo, ll hi, int most) -> int
        {
            Var v;
            auto left = 2000 / size;
            most = static_cast<int>(std::max(1.0, std::min<double>(most, left)));
            auto a = r.range(lo, hi), b = std::min(hi, a + r.range(most > 1 ? 1 : 0, most - 1));
            if (r.chance(1, 3)) {
                v.range = false;
                for (auto x = a; x <= b; ++x)
                    if (v.dom.empty() || ! r.chance(1, 4))
                        v.dom.push_back(x);
            }
            else {
                v.range = true;
                for (auto x = a; x <= b; ++x)
                    v.dom.push_back(x);
            }
            static const vector<string> stems{"x", "y", "queue", "some_thing", "V", "abs", "ne"};
            auto n = n2s(static_cast<ll>(vars.size()));
            v.name = r.chance(1, 2) ? r.pick(stems) + "[" + n + "]" : r.chance(1, 3) ? r.pick(stems) + "[" + n + "][0]" : r.pick(stems) + n;
            size *= static_cast<double>(v.dom.size());
            vars.push_back(v);
            return static_cast<int>(vars.size()) - 1;
        }
        // a variable whose values lie in the range, new or used before
        auto any(ll lo, ll hi, int most, bool may_repeat = true) -> int
        {
            if (may_repeat && (r.chance(1, 2) || size > 1500)) {
                Vs fit;
                for (size_t i = 0; i < vars.size(); ++i)
                    if (vars[i].dom.front() >= lo && vars[i].dom.back() <= hi && (! used.contains(static_cast<int>(i)) || r.chance(1, 12)))
                        fit.push_back(static_cast<int>(i));
                if (! fit.empty())
                    return note(r.pick(fit));
            }
            return note(fresh(lo, hi, most));
        }
        auto note(int v) -> int
        {
            if (! used.insert(v).second)
                aliased = true;
            return v;
        }
        auto some(ll k, ll lo, ll hi, int most) -> Vs
        {
            Vs o;
            for (; k > 0; --k)
                o.push_back(any(lo, hi, most));
            return o;
        }
        auto name(int v) const -> string { return vars[static_cast<size_t>(v)].name; }
        auto list(const Vs & v) const -> string
        {
            string s = "[";
            for (auto x : v)
                s += " " + name(x);
            return s + " ]";
        }
        static auto list(const Is & v) -> string
        {
            string s = "[";
            for (auto x : v)
                s += " " + n2s(x);
            return s + " ]";
        }
        template <typename T_>
        auto list(const vector<vector<T_>> & v) const -> string
        {
            string s = "[";
            for (auto & x : v)
                s += " " + list(x);
            return s + " ]";
        }
        static auto at(const Vs & v, const A & a) -> Is
        {
            Is o;
            for (auto x : v)
                o.push_back(a[static_cast<size_t>(x)]);
            return o;
        }
        static auto at(int v, const A & a) -> ll { return a[static_cast<size_t>(v)]; }
        auto ints(ll k, ll lo, ll hi) -> Is
        {
            Is o;
            for (; k > 0; --k)
                o.push_back(r.range(lo, hi));
            return o;
        }
        auto distinct(ll k, ll lo, ll hi) -> Is
        {
            Is o;
            for (int tries = 0; tries < 50 && static_cast<ll>(o.size()) < k; ++tries) {
                auto v = r.range(lo, hi);
                if (std::find(o.begin(), o.end(), v) == o.end())
                    o.push_back(v);
            }
            return o;
        }
        auto add(const string & kind, vector<string> lines, Meaning m) -> void
        {
            kinds.push_back(kind);
            constraints.push_back(std::move(lines));
            meanings.push_back(std::move(m));
        }
        auto ok(const A & a) const -> bool
        {
            for (auto & m : meanings)
                if (! m(a))
                    return false;
            return true;
        }
    };

    auto compare(const string & op, ll a, ll b) -> bool { return op == "le" ? a <= b : op == "lt" ? a < b : op == "ge" ? a >= b : op == "gt" ? a > b : op == "eq" ? a == b : a != b; }

    // a condition on a number that is about lo..hi
    struct Condition
    {
        string text;
        std::function<bool(ll, const A &)> holds;
    };
    auto condition(Model & m, ll lo, ll hi, bool interval) -> Condition
    {
        auto & r = m.r;
        static const vector<string> ops{"le", "lt", "ge", "gt", "eq", "ne"};
        auto op = r.pick(ops);
        if (interval && r.chance(1, 6)) {
            auto a = r.range(lo - 1, hi), b = r.range(a, hi + 2);
            bool in = ! r.chance(1, 3);
            return {string{"[ "} + (in ? "in" : "notin") + " r " + n2s(a) + " " + n2s(b) + " ]", [=](ll v, const A &) { return (v >= a && v <= b) == in; }};
        }
        if (r.chance(1, 4)) {
            auto x = m.any(lo - 1, hi + 1, 4);
            return {"[ " + op + " v " + m.name(x) + " ]", [=](ll v, const A & a) { return compare(op, v, Model::at(x, a)); }};
        }
        auto k = r.chance(1, 8) ? r.range(lo - 40, hi + 40) : r.range(lo, hi);
        return {"[ " + op + " i " + n2s(k) + " ]", [=](ll v, const A &) { return compare(op, v, k); }};
    }

    auto expression(Model & m, int depth, bool boolean) -> Term;
    auto numeric_leaf(Model & m) -> Term
    {
        if (m.r.chance(1, 3)) {
            auto k = m.r.range(-4, 6);
            return {n2s(k), [=](const A &) { return k; }, k, k};
        }
        auto x = m.any(-4, 6, 5);
        auto & d = m.vars[static_cast<size_t>(x)].dom;
        return {m.name(x), [=](const A & a) { return Model::at(x, a); }, d.front(), d.back()};
    }
    auto expression(Model & m, int depth, bool boolean) -> Term
    {
        auto & r = m.r;
        auto node = [](const string & op, const vector<Term> & t) {
            string s = "[ " + op;
            for (auto & x : t)
                s += " " + x.text;
            return s + " ]";
        };
        if (boolean) {
            if (depth == 0 && r.chance(1, 3)) {
                auto x = m.any(0, 1, 2);
                return {m.name(x), [=](const A & a) { return Model::at(x, a); }, 0, 1};
            }
            auto k = depth <= 0 ? 0 : r.range(0, 6);
            if (k <= 1) {
                static const vector<string> ops{"le", "lt", "ge", "gt", "eq", "ne"};
                auto op = r.pick(ops);
                auto a = expression(m, depth - 1, false), b = expression(m, depth - 1, false);
                return {node(op, {a, b}), [=](const A & s) -> ll { return compare(op, a.at(s), b.at(s)); }, 0, 1};
            }
            if (k == 2) {
                auto a = expression(m, depth - 1, true);
                return {node("not", {a}), [=](const A & s) -> ll { return ! a.at(s); }, 0, 1};
            }
            if (k == 3) {
                auto a = expression(m, depth - 1, true), b = expression(m, depth - 1, true);
                bool iff = r.chance(1, 2);
                return {node(iff ? "iff" : "imp", {a, b}), [=](const A & s) -> ll { return iff ? a.at(s) == b.at(s) : ! a.at(s) || b.at(s); }, 0, 1};
            }
            vector<Term> t;
            for (auto n = r.range(2, 3); n > 0; --n)
                t.push_back(expression(m, depth - 1, true));
            return {node(k == 4 ? "and" : k == 5 ? "or" : "xor", t), [=](const A & s) -> ll {
                        ll n = 0;
                        for (auto & x : t)
                            n += x.at(s);
                        return k == 4 ? n == static_cast<ll>(t.size()) : k == 5 ? n > 0 : n % 2;
                    },
                0, 1};
        }
        if (depth <= 0)
            return numeric_leaf(m);
        auto sub = [&] { return expression(m, depth - 1, r.chance(1, 12)); };
        auto small = [](const Term & t) { return t.lo >= -2000 && t.hi <= 2000; };
        switch (r.range(0, 13)) {
        case 0: {
            vector<Term> t;
            for (auto n = r.range(2, 3); n > 0; --n)
                t.push_back(sub());
            ll lo = 0, hi = 0;
            for (auto & x : t) {
                lo += x.lo;
                hi += x.hi;
            }
            return {node("add", t), [=](const A & s) {
                        ll v = 0;
                        for (auto & x : t)
                            v += x.at(s);
                        return v;
                    },
                lo, hi};
        }
        case 1: {
            auto a = sub(), b = sub();
            return {node("sub", {a, b}), [=](const A & s) { return a.at(s) - b.at(s); }, a.lo - b.hi, a.hi - b.lo};
        }
        case 2: {
            vector<Term> t{sub(), sub()};
            if (r.chance(1, 4))
                t.push_back(numeric_leaf(m));
            ll most = 1;
            for (auto & x : t) {
                if (! small(x))
                    return x;
                most *= std::max(std::abs(x.lo), std::abs(x.hi));
            }
            return {node("mul", t), [=](const A & s) {
                        ll v = 1;
                        for (auto & x : t)
                            v *= x.at(s);
                        return v;
                    },
                -most, most};
        }
        case 3: {
            auto a = sub();
            return {node("neg", {a}), [=](const A & s) { return -a.at(s); }, -a.hi, -a.lo};
        }
        case 4: {
            auto a = sub();
            return {node("abs", {a}), [=](const A & s) { return std::abs(a.at(s)); }, 0, std::max(std::abs(a.lo), std::abs(a.hi))};
        }
        case 5: {
            auto a = sub();
            if (! small(a))
                return a;
            auto b = std::max(a.lo * a.lo, a.hi * a.hi);
            return {node("sqr", {a}), [=](const A & s) { return a.at(s) * a.at(s); }, 0, b};
        }
        case 6:
        case 7: {
            vector<Term> t;
            bool mn = r.chance(1, 2);
            for (auto n = r.range(2, 3); n > 0; --n)
                t.push_back(sub());
            ll lo = t[0].lo, hi = t[0].hi;
            for (auto & x : t) {
                lo = std::min(lo, x.lo);
                hi = std::max(hi, x.hi);
            }
            return {node(mn ? "min" : "max", t), [=](const A & s) {
                        auto v = t[0].at(s);
                        for (auto & x : t)
                            v = mn ? std::min(v, x.at(s)) : std::max(v, x.at(s));
                        return v;
                    },
                lo, hi};
        }
        case 8: {
            auto a = sub();
            auto k = r.range(0, 3);
            if (a.lo < -20 || a.hi > 20)
                return a;
            ll most = 1;
            for (int i = 0; i < k; ++i)
                most *= std::max<ll>({1, std::abs(a.lo), std::abs(a.hi)});
            return {node("pow", {a, {n2s(k), {}, k, k}}), [=](const A & s) {
                        ll v = 1;
                        for (int i = 0; i < k; ++i)
                            v *= a.at(s);
                        return v;
                    },
                -most, most};
        }
        case 9:
        case 10: {
            auto a = sub();
            auto k = r.range(1, 4) * (r.chance(1, 3) ? -1 : 1);
            Term b{n2s(k), [=](const A &) { return k; }, k, k};
            if (r.chance(1, 2)) {
                auto x = m.any(1, 4, 4);
                auto & d = m.vars[static_cast<size_t>(x)].dom;
                b = {m.name(x), [=](const A & s) { return Model::at(x, s); }, d.front(), d.back()};
            }
            bool div = r.chance(1, 2);
            auto most = std::max({std::abs(a.lo), std::abs(a.hi), std::abs(b.lo), std::abs(b.hi)});
            return {node(div ? "div" : "mod", {a, b}), [=](const A & s) { return div ? a.at(s) / b.at(s) : a.at(s) % b.at(s); }, -most, most};
        }
        case 11: {
            auto a = sub(), b = sub();
            return {node("dist", {a, b}), [=](const A & s) { return std::abs(a.at(s) - b.at(s)); }, 0, std::max(a.hi, b.hi) - std::min(a.lo, b.lo)};
        }
        case 12: {
            auto k = expression(m, depth - 1, true), a = sub(), b = sub();
            return {node("if", {k, a, b}), [=](const A & s) { return k.at(s) ? a.at(s) : b.at(s); }, std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
        }
        default: return numeric_leaf(m);
        }
    }

    auto add_constraint(Model & m) -> void
    {
        auto & r = m.r;
        m.before = m.used;
        m.used.clear();
        static const vector<string> orders{"le", "lt", "ge", "gt"};
        auto at = [](const auto & v, const A & a) { return Model::at(v, a); };
        auto matches = [](const vector<Is> & tuples, const Is & v) {
            return std::any_of(tuples.begin(), tuples.end(), [&](auto & t) {
                for (size_t i = 0; i < v.size(); ++i)
                    if (t[i] != INT_MAX && t[i] != v[i])
                        return false;
                return true;
            });
        };
        auto star_list = [](const vector<Is> & ts) {
            string s = "[";
            for (auto & t : ts) {
                s += " [";
                for (auto x : t)
                    s += x == INT_MAX ? string{" *"} : " " + n2s(x);
                s += " ]";
            }
            return s + " ]";
        };
        switch (r.range(0, 38)) {
        case 0: {
            auto x = m.some(r.range(2, 3), -2, 4, 4);
            vector<Is> t;
            for (auto k = r.range(1, 8); k > 0; --k) {
                Is row;
                for (auto v : x)
                    row.push_back(r.chance(1, 8) ? INT_MAX : r.chance(1, 8) ? r.range(-3, 5) : r.pick(m.vars[static_cast<size_t>(v)].dom));
                t.push_back(row);
            }
            bool sup = r.chance(1, 2);
            vector<string> lines{"extension " + m.list(x) + " " + star_list(t) + (sup ? " support" : " conflict")};
            Meaning f = [=](const A & a) { return matches(t, at(x, a)) == sup; };
            if (r.chance(1, 3)) {
                auto y = m.some(static_cast<ll>(x.size()), -2, 4, 4);
                bool sup2 = r.chance(1, 2);
                lines.push_back("extensionas " + m.list(y) + (sup2 ? " support" : " conflict"));
                f = [=](const A & a) { return matches(t, at(x, a)) == sup && matches(t, at(y, a)) == sup2; };
            }
            m.add("extension", lines, f);
            break;
        }
        case 1: {
            auto x = m.any(-2, 6, 6);
            auto t = m.distinct(r.range(1, 5), -3, 7);
            bool sup = r.chance(1, 2);
            m.add("extension1", {"extension1 " + m.name(x) + " " + m.list(t) + (sup ? " support" : " conflict")}, [=](const A & a) { return (std::find(t.begin(), t.end(), at(x, a)) != t.end()) == sup; });
            break;
        }
        case 2:
        case 3:
        case 4:
        case 5:
        case 6: {
            auto k = r.range(0, 9);
            if (k == 0) {
                auto e = expression(m, 1, false);
                auto vals = m.distinct(r.range(1, 4), -4, 8);
                bool in = r.chance(1, 2);
                string s = "[ set";
                for (auto v : vals)
                    s += " " + n2s(v);
                m.add("intension", {string{"intension [ "} + (in ? "in " : "notin ") + e.text + " " + s + " ] ]"}, [=](const A & a) { return (std::find(vals.begin(), vals.end(), e.at(a)) != vals.end()) == in; });
            }
            else if (k == 1) {
                vector<Term> t;
                string s;
                for (auto n = r.range(2, 4); n > 0; --n)
                    t.push_back(expression(m, 1, false));
                for (auto & x : t)
                    s += " " + x.text;
                m.add("intension", {"intension [ eq" + s + " ]"}, [=](const A & a) {
                    for (auto & x : t)
                        if (x.at(a) != t[0].at(a))
                            return false;
                    return true;
                });
            }
            else if (k == 2) {
                // shapes of difference constraints
                auto x = numeric_leaf(m), y = numeric_leaf(m), z = numeric_leaf(m);
                static const vector<string> ops{"le", "lt", "ge", "gt"};
                auto op = r.pick(ops);
                bool left = r.chance(1, 2), sub = r.chance(1, 2);
                string e = string{"[ "} + (sub ? "sub " : "add ") + x.text + " " + y.text + " ]";
                m.add("intension", {"intension [ " + op + " " + (left ? e + " " + z.text : z.text + " " + e) + " ]"}, [=](const A & a) {
                    auto v = sub ? x.at(a) - y.at(a) : x.at(a) + y.at(a);
                    return left ? compare(op, v, z.at(a)) : compare(op, z.at(a), v);
                });
            }
            else {
                auto e = expression(m, static_cast<int>(r.range(1, 3)), true);
                if (e.text[0] != '[')
                    e = {"[ eq " + e.text + " 1 ]", e.at, 0, 1};
                m.add("intension", {"intension " + e.text}, [=](const A & a) { return e.at(a) == 1; });
            }
            break;
        }
        case 7: {
            auto x = m.some(r.range(2, 4), 0, 3, 3);
            auto n = r.range(1, 4);
            std::map<std::pair<ll, ll>, ll> tr;
            for (auto k = r.range(1, 8); k > 0; --k)
                tr.emplace(std::pair{r.range(0, n - 1), r.range(0, 3)}, r.range(0, n - 1));
            std::set<ll> fin;
            for (auto k = r.range(1, 2); k > 0; --k)
                fin.insert(r.range(0, n - 1));
            auto start = r.range(0, n - 1);
            string s = "regular " + m.list(x) + " q" + n2s(start) + " [";
            for (auto f : fin)
                s += " q" + n2s(f);
            s += " ] [";
            vector<std::pair<std::pair<ll, ll>, ll>> order(tr.begin(), tr.end());
            r.shuffle(order);
            for (auto & [k, v] : order)
                s += " [ q" + n2s(k.first) + " " + n2s(k.second) + " q" + n2s(v) + " ]";
            m.add("regular", {s + " ]"}, [=](const A & a) {
                auto q = start;
                for (auto v : at(x, a)) {
                    auto it = tr.find({q, v});
                    if (it == tr.end())
                        return false;
                    q = it->second;
                }
                return fin.contains(q);
            });
            break;
        }
        case 8: {
            auto x = m.some(r.range(2, 3), 0, 3, 3);
            auto n = static_cast<ll>(x.size());
            // layered: some tuples, as a tree that may share its ends
            vector<std::tuple<string, ll, string>> edges;
            std::set<string> alive{"r"};
            for (ll i = 0; i < n; ++i) {
                std::set<string> next;
                for (auto & q : alive)
                    for (auto v : m.distinct(r.range(1, 3), 0, 3)) {
                        auto to = i + 1 == n ? string{"t"} : "n" + n2s(i + 1) + "_" + n2s(r.range(0, 1));
                        edges.emplace_back(q, v, to);
                        next.insert(to);
                    }
                alive = next;
            }
            auto order = edges;
            r.shuffle(order);
            string s = "mdd " + m.list(x) + " [";
            for (auto & [p, v, q] : order)
                s += " [ " + p + " " + n2s(v) + " " + q + " ]";
            m.add("mdd", {s + " ]"}, [=](const A & a) {
                string q = "r";
                for (auto v : at(x, a)) {
                    auto it = std::find_if(edges.begin(), edges.end(), [&](auto & e) { return std::get<0>(e) == q && std::get<1>(e) == v; });
                    if (it == edges.end())
                        return false;
                    q = std::get<2>(*it);
                }
                return true;
            });
            break;
        }
        case 9: {
            auto x = m.some(r.range(2, 4), -1, 4, 4);
            m.add("alldifferent", {"alldifferent " + m.list(x)}, [=](const A & a) {
                auto v = at(x, a);
                return std::set<ll>(v.begin(), v.end()).size() == v.size();
            });
            break;
        }
        case 10: {
            vector<Vs> x{m.some(2, 0, 3, 3), m.some(2, 0, 3, 3)};
            if (r.chance(1, 3))
                x.push_back(m.some(2, 0, 3, 2));
            m.add("alldifferentmatrix", {"alldifferentmatrix " + m.list(x)}, [=](const A & a) {
                for (auto & row : x)
                    if (at(row[0], a) == at(row[1], a))
                        return false;
                for (size_t c = 0; c < 2; ++c)
                    for (size_t i = 0; i < x.size(); ++i)
                        for (size_t j = 0; j < i; ++j)
                            if (at(x[i][c], a) == at(x[j][c], a))
                                return false;
                return true;
            });
            break;
        }
        case 11:
        case 12: {
            bool matrix = r.chance(1, 2);
            auto op = r.pick(orders);
            auto n = r.range(1, 3);
            vector<Vs> x;
            for (auto k = r.range(2, 3); k > 0 && (x.size() < 2 || m.size < 300); --k)
                x.push_back(m.some(n, 0, 2, 3));
            m.add(matrix ? "lexmatrix" : "lex", {(matrix ? "lexmatrix " : "lex ") + m.list(x) + " " + op}, [=](const A & a) {
                auto good = [&](const Is & p, const Is & q) { return op == "le" ? p <= q : op == "lt" ? p < q : op == "ge" ? p >= q : p > q; };
                for (size_t i = 0; i + 1 < x.size(); ++i)
                    if (! good(at(x[i], a), at(x[i + 1], a)))
                        return false;
                if (matrix)
                    for (size_t c = 0; c + 1 < x[0].size(); ++c) {
                        Is p, q;
                        for (auto & row : x) {
                            p.push_back(at(row[c], a));
                            q.push_back(at(row[c + 1], a));
                        }
                        if (! good(p, q))
                            return false;
                    }
                return true;
            });
            break;
        }
        case 13: {
            auto x = m.some(r.range(1, 4), -1, 3, 4);
            m.add("allequal", {"allequal " + m.list(x)}, [=](const A & a) {
                auto v = at(x, a);
                return std::all_of(v.begin(), v.end(), [&](ll k) { return k == v[0]; });
            });
            break;
        }
        case 14:
        case 15: {
            auto x = m.some(r.range(2, 4), -1, 5, 4);
            auto op = r.pick(orders);
            bool len = r.chance(1, 2);
            auto l = m.ints(static_cast<ll>(x.size()) - 1, len ? -1 : 0, len ? 2 : 0);
            m.add("ordered", {"ordered " + m.list(x) + " " + op + (len ? " " + m.list(l) : "")}, [=](const A & a) {
                for (size_t i = 0; i + 1 < x.size(); ++i)
                    if (! compare(op, at(x[i], a) + l[i], at(x[i + 1], a)))
                        return false;
                return true;
            });
            break;
        }
        case 16: {
            auto x = m.some(r.range(2, 4), 0, 3, 4);
            auto vals = m.distinct(r.range(2, 3), 0, 4);
            if (vals.size() < 2)
                return;
            m.add("precedence", {"precedence " + m.list(x) + " " + m.list(vals) + " open"}, [=](const A & a) {
                auto v = at(x, a);
                for (size_t i = 0; i + 1 < vals.size(); ++i) {
                    auto p = std::find(v.begin(), v.end(), vals[i]), q = std::find(v.begin(), v.end(), vals[i + 1]);
                    if (q != v.end() && p > q)
                        return false;
                }
                return true;
            });
            break;
        }
        case 17:
        case 18:
        case 19: {
            auto x = m.some(r.range(1, 4), -3, 5, 5);
            auto k = m.ints(static_cast<ll>(x.size()), -3, 4);
            bool plain = r.chance(1, 3);
            if (plain)
                k.assign(x.size(), 1);
            ll lo = 0, hi = 0;
            for (size_t i = 0; i < x.size(); ++i) {
                auto & d = m.vars[static_cast<size_t>(x[i])].dom;
                lo += std::min(k[i] * d.front(), k[i] * d.back());
                hi += std::max(k[i] * d.front(), k[i] * d.back());
            }
            auto c = condition(m, lo, hi, false);
            m.add("sum", {"sum " + m.list(x) + " " + c.text + (plain ? "" : " " + m.list(k))}, [=](const A & a) {
                ll s = 0;
                for (size_t i = 0; i < x.size(); ++i)
                    s += k[i] * at(x[i], a);
                return c.holds(s, a);
            });
            break;
        }
        case 20: {
            auto x = m.some(r.range(1, 4), 0, 3, 4);
            auto vals = m.distinct(r.range(1, 3), -1, 4);
            auto c = condition(m, 0, static_cast<ll>(x.size()), true);
            m.add("count", {"count " + m.list(x) + " " + m.list(vals) + " " + c.text}, [=](const A & a) {
                ll n = 0;
                for (auto v : at(x, a))
                    n += std::find(vals.begin(), vals.end(), v) != vals.end();
                return c.holds(n, a);
            });
            break;
        }
        case 21: {
            auto x = m.some(r.range(1, 4), 0, 3, 4);
            auto vals = m.distinct(r.range(1, 3), -1, 4);
            auto k = r.range(0, static_cast<ll>(x.size()) + (r.chance(1, 6) ? 1 : 0));
            m.add("among", {"among " + m.list(x) + " " + m.list(vals) + " " + n2s(k)}, [=](const A & a) {
                ll n = 0;
                for (auto v : at(x, a))
                    n += std::find(vals.begin(), vals.end(), v) != vals.end();
                return n == k;
            });
            break;
        }
        case 22:
        case 23: {
            auto x = m.some(r.range(1, 4), 0, 3, 4);
            auto v = r.range(-1, 4), k = r.range(0, static_cast<ll>(x.size()) + (r.chance(1, 6) ? 2 : 0));
            auto w = r.range(0, 3);
            int y = w == 3 ? m.any(0, 4, 4) : -1;
            m.add("atmost", {string{w == 0 ? "atmost " : w == 1 ? "atleast " : "exactly "} + m.list(x) + " " + n2s(v) + " " + (y >= 0 ? m.name(y) : n2s(k))}, [=](const A & a) {
                auto s = at(x, a);
                auto n = std::count(s.begin(), s.end(), v);
                return w == 0 ? n <= k : w == 1 ? n >= k : w == 2 ? n == k : n == at(y, a);
            });
            break;
        }
        case 24: {
            auto x = m.some(r.range(1, 4), 0, 3, 4);
            auto c = condition(m, 1, static_cast<ll>(x.size()), true);
            m.add("nvalues", {"nvalues " + m.list(x) + " " + c.text}, [=](const A & a) {
                auto v = at(x, a);
                return c.holds(static_cast<ll>(std::set<ll>(v.begin(), v.end()).size()), a);
            });
            break;
        }
        case 25: {
            auto x = m.some(r.range(2, 4), 0, 3, 4);
            auto vals = m.distinct(r.range(1, 3), 0, 4);
            bool closed = r.chance(1, 2);
            auto kind = r.range(0, 2);
            string occ;
            std::function<bool(size_t, ll, const A &)> good;
            if (kind == 0) {
                auto o = m.ints(static_cast<ll>(vals.size()), 0, 2);
                occ = "i " + m.list(o);
                good = [=](size_t i, ll n, const A &) { return n == o[i]; };
            }
            else if (kind == 1) {
                auto o = m.some(static_cast<ll>(vals.size()), -1, 3, 3);
                occ = "v " + m.list(o);
                good = [=](size_t i, ll n, const A & a) { return n == at(o[i], a); };
            }
            else {
                vector<Is> o;
                for (size_t i = 0; i < vals.size(); ++i) {
                    auto a = r.range(0, 2);
                    o.push_back({a, r.range(a, 3)});
                }
                occ = "r " + m.list(o);
                good = [=](size_t i, ll n, const A &) { return n >= o[i][0] && n <= o[i][1]; };
            }
            m.add("cardinality", {"cardinality " + m.list(x) + " " + m.list(vals) + " " + occ + (closed ? " closed" : " open")}, [=](const A & a) {
                auto v = at(x, a);
                for (size_t i = 0; i < vals.size(); ++i)
                    if (! good(i, std::count(v.begin(), v.end(), vals[i]), a))
                        return false;
                if (closed)
                    for (auto k : v)
                        if (std::find(vals.begin(), vals.end(), k) == vals.end())
                            return false;
                return true;
            });
            break;
        }
        case 26: {
            auto x = m.some(r.range(1, 4), -2, 4, 4);
            bool mn = r.chance(1, 2);
            auto c = condition(m, -2, 4, true);
            m.add("minimum", {(mn ? "minimum " : "maximum ") + m.list(x) + " " + c.text}, [=](const A & a) {
                auto v = at(x, a);
                return c.holds(mn ? *std::min_element(v.begin(), v.end()) : *std::max_element(v.begin(), v.end()), a);
            });
            break;
        }
        case 27:
        case 28: {
            bool consts = r.chance(1, 2);
            auto n = r.range(1, 4);
            auto start = r.chance(1, 2) ? 0 : r.range(-2, 3);
            auto idx = m.any(start - 1, start + n, 5);
            auto l = m.ints(n, -1, 4);
            auto x = consts ? Vs{} : m.some(n, -1, 4, 3);
            bool constant = ! consts;
            auto k = r.range(-1, 4);
            int val = constant ? -1 : m.any(-2, 5, 5);
            m.add("element", {string{"element "} + (consts ? "i " + m.list(l) : "v " + m.list(x)) + " " + n2s(start) + " " + m.name(idx) + " any " + (constant ? n2s(k) : m.name(val))}, [=](const A & a) {
                auto i = at(idx, a) - start;
                if (i < 0 || i >= n)
                    return false;
                return (consts ? l[static_cast<size_t>(i)] : at(x[static_cast<size_t>(i)], a)) == (constant ? k : at(val, a));
            });
            break;
        }
        case 29: {
            bool consts = r.chance(1, 2);
            auto n = r.range(1, 3), w = r.range(1, 2);
            auto sr = r.chance(1, 2) ? 0 : r.range(-2, 2), sc = r.chance(1, 2) ? 0 : r.range(-2, 2);
            auto ri = m.any(sr - 1, sr + n, 4), ci = m.any(sc - 1, sc + w, 4);
            vector<Is> l;
            vector<Vs> x;
            for (ll i = 0; i < n; ++i)
                if (consts)
                    l.push_back(m.ints(w, -1, 4));
                else
                    x.push_back(m.some(w, -1, 4, 2));
            bool constant = ! consts && r.chance(1, 2);
            auto k = r.range(-1, 4);
            int val = constant ? -1 : m.any(-2, 5, 5);
            m.add("elementmatrix", {string{"elementmatrix "} + (consts ? "i " + m.list(l) : "v " + m.list(x)) + " " + n2s(sr) + " " + m.name(ri) + " " + n2s(sc) + " " + m.name(ci) + " " + (constant ? n2s(k) : m.name(val))}, [=](const A & a) {
                auto i = at(ri, a) - sr, j = at(ci, a) - sc;
                if (i < 0 || i >= n || j < 0 || j >= w)
                    return false;
                auto p = static_cast<size_t>(i), q = static_cast<size_t>(j);
                return (consts ? l[p][q] : at(x[p][q], a)) == (constant ? k : at(val, a));
            });
            break;
        }
        case 30: {
            auto n = r.range(2, 3);
            auto s1 = r.chance(1, 2) ? 0 : r.range(-1, 2), s2 = r.chance(1, 2) ? 0 : r.range(-1, 2);
            if (r.chance(1, 2)) {
                auto x = m.some(n, s1 - 1, s1 + n, 4);
                m.add("channel", {"channel " + m.list(x) + " " + n2s(s1)}, [=](const A & a) {
                    auto v = at(x, a);
                    for (ll i = 0; i < n; ++i) {
                        auto j = v[static_cast<size_t>(i)] - s1;
                        if (j < 0 || j >= n || v[static_cast<size_t>(j)] - s1 != i)
                            return false;
                    }
                    return true;
                });
            }
            else {
                auto x = m.some(n, s2 - 1, s2 + n, 3), y = m.some(n, s1 - 1, s1 + n, 3);
                m.add("channel", {"channel " + m.list(x) + " " + n2s(s1) + " " + m.list(y) + " " + n2s(s2)}, [=](const A & a) {
                    auto v = at(x, a), w = at(y, a);
                    for (ll i = 0; i < n; ++i) {
                        auto j = v[static_cast<size_t>(i)] - s2;
                        if (j < 0 || j >= n || w[static_cast<size_t>(j)] - s1 != i)
                            return false;
                        j = w[static_cast<size_t>(i)] - s1;
                        if (j < 0 || j >= n || v[static_cast<size_t>(j)] - s2 != i)
                            return false;
                    }
                    return true;
                });
            }
            break;
        }
        case 31: {
            auto n = r.range(2, 3);
            bool z = r.chance(1, 2), lv = r.chance(1, 3);
            auto x = m.some(n, -1, 5, 5);
            auto l = m.ints(n, 0, 3);
            auto y = lv ? m.some(n, 0, 3, 2) : Vs{};
            m.add("nooverlap", {string{"nooverlap "} + (lv ? "v " : "i ") + m.list(x) + " " + (lv ? m.list(y) : m.list(l)) + (z ? " zeroignored" : " all")}, [=](const A & a) {
                auto s = at(x, a), d = lv ? at(y, a) : l;
                for (size_t i = 0; i < s.size(); ++i)
                    for (size_t j = 0; j < i; ++j)
                        if (! (z && (d[i] == 0 || d[j] == 0)) && s[i] + d[i] > s[j] && s[j] + d[j] > s[i])
                            return false;
                return true;
            });
            break;
        }
        case 32: {
            auto n = r.range(2, 3);
            bool z = r.chance(1, 2), lv = r.chance(1, 3);
            vector<Vs> x, y;
            vector<Is> l;
            for (ll i = 0; i < n; ++i) {
                x.push_back(m.some(2, 0, 3, 3));
                if (lv)
                    y.push_back(m.some(2, 0, 2, 2));
                else
                    l.push_back(m.ints(2, 0, 2));
            }
            m.add("nooverlap2", {string{"nooverlap "} + (lv ? "vv " : "ii ") + m.list(x) + " " + (lv ? m.list(y) : m.list(l)) + (z ? " zeroignored" : " all")}, [=](const A & a) {
                for (size_t i = 0; i < x.size(); ++i)
                    for (size_t j = 0; j < i; ++j) {
                        auto p = at(x[i], a), q = at(x[j], a), d = lv ? at(y[i], a) : l[i], e = lv ? at(y[j], a) : l[j];
                        if (z && (d[0] == 0 || d[1] == 0 || e[0] == 0 || e[1] == 0))
                            continue;
                        if (p[0] + d[0] > q[0] && q[0] + e[0] > p[0] && p[1] + d[1] > q[1] && q[1] + e[1] > p[1])
                            return false;
                    }
                return true;
            });
            break;
        }
        case 33:
        case 34: {
            auto n = r.range(1, 3);
            bool lv = r.chance(1, 3), hv = r.chance(1, 3), cv = r.chance(1, 3);
            auto x = m.some(n, -1, 4, 4);
            auto l = m.ints(n, 0, 3), h = m.ints(n, 0, 3);
            auto ly = lv ? m.some(n, 0, 3, 2) : Vs{}, hy = hv ? m.some(n, 0, 3, 2) : Vs{};
            auto c = r.range(0, 4);
            int cy = cv ? m.any(0, 4, 3) : -1;
            m.add("cumulative", {string{"cumulative "} + (lv ? "v" : "i") + (hv ? "v " : "i ") + m.list(x) + " " + (lv ? m.list(ly) : m.list(l)) + " " + (hv ? m.list(hy) : m.list(h)) + " [ le " + (cv ? "v " + m.name(cy) : "i " + n2s(c)) + " ]"}, [=](const A & a) {
                auto s = at(x, a), d = lv ? at(ly, a) : l, k = hv ? at(hy, a) : h;
                auto cap = cv ? at(cy, a) : c;
                for (ll t = -2; t < 10; ++t) {
                    ll use = 0;
                    for (size_t i = 0; i < s.size(); ++i)
                        if (s[i] <= t && t < s[i] + d[i])
                            use += k[i];
                    if (use > cap)
                        return false;
                }
                return true;
            });
            break;
        }
        case 35: {
            auto n = r.range(1, 4), bins = r.range(1, 3);
            auto x = m.some(n, 0, bins - 1, 3);
            auto s = m.ints(n, 0, 4);
            auto load = [=](ll b, const A & a) {
                ll t = 0;
                for (size_t i = 0; i < x.size(); ++i)
                    if (at(x[i], a) == b)
                        t += s[i];
                return t;
            };
            auto kind = r.range(0, 3);
            if (kind == 0) {
                auto c = condition(m, 0, 6, true);
                // the bins there are: those some item may go into, and those below
                ll most = 0;
                for (auto v : x)
                    most = std::max(most, m.vars[static_cast<size_t>(v)].dom.back());
                m.add("binpacking", {"binpacking cond " + m.list(x) + " " + m.list(s) + " " + c.text}, [=](const A & a) {
                    for (ll b = 0; b <= most; ++b)
                        if (! c.holds(load(b, a), a))
                            return false;
                    return true;
                });
            }
            else {
                auto k = m.ints(bins, 0, 6);
                auto y = kind == 3 ? m.some(bins, 0, 8, 4) : Vs{};
                m.add("binpacking", {"binpacking " + string{kind == 1 ? "capacities " : kind == 2 ? "loads " : "loadvars "} + m.list(x) + " " + m.list(s) + " " + (kind == 3 ? m.list(y) : m.list(k))}, [=](const A & a) {
                    for (ll b = 0; b < bins; ++b) {
                        auto t = load(b, a), want = kind == 3 ? at(y[static_cast<size_t>(b)], a) : k[static_cast<size_t>(b)];
                        if (kind == 1 ? t > want : t != want)
                            return false;
                    }
                    return true;
                });
            }
            break;
        }
        case 36: {
            auto n = r.range(2, 4);
            auto before = static_cast<int>(m.vars.size());
            auto x = m.some(n, 0, n - 1, 4);
            for (ll i = 0; i < n; ++i) { // with self loops, what the format means is another matter
                auto & v = m.vars[static_cast<size_t>(x[static_cast<size_t>(i)])];
                if (std::find(v.dom.begin(), v.dom.end(), i) == v.dom.end())
                    continue;
                if (v.dom.size() == 1 || x[static_cast<size_t>(i)] < before)
                    return;
                std::erase(v.dom, i);
                v.range = false;
            }
            m.add("circuit", {"circuit " + m.list(x) + " 0"}, [=](const A & a) {
                auto v = at(x, a);
                ll p = 0;
                for (ll i = 0; i < n; ++i) {
                    p = v[static_cast<size_t>(p)];
                    if ((p == 0) != (i == n - 1))
                        return false;
                }
                return true;
            });
            break;
        }
        case 37: {
            auto x = m.some(r.range(1, 3), -2, 4, 4);
            Is k;
            for (auto v : x)
                k.push_back(r.chance(1, 8) ? r.range(-3, 5) : r.pick(m.vars[static_cast<size_t>(v)].dom));
            m.add("instantiation", {"instantiation " + m.list(x) + " " + m.list(k)}, [=](const A & a) { return at(x, a) == k; });
            break;
        }
        default: {
            auto x = m.some(r.range(1, 3), 0, 3, 4);
            auto w = m.ints(static_cast<ll>(x.size()), 0, 4), p = m.ints(static_cast<ll>(x.size()), 0, 4);
            auto c = condition(m, 0, 10, true), d = condition(m, 0, 10, true);
            m.add("knapsack", {"knapsack " + m.list(x) + " " + m.list(w) + " " + m.list(p) + " " + c.text + " " + d.text}, [=](const A & a) {
                ll s = 0, t = 0;
                for (size_t i = 0; i < x.size(); ++i) {
                    s += w[i] * at(x[i], a);
                    t += p[i] * at(x[i], a);
                }
                return c.holds(s, a) && d.holds(t, a);
            });
            break;
        }
        }
    }

    // what the program says it cannot do
    auto unsupported(Model & m) -> vector<string>
    {
        auto & r = m.r;
        m.used.clear();
        auto x = m.some(2, 0, 2, 2);
        auto l = m.list(x);
        switch (r.range(0, 12)) {
        case 0: return {"circuit " + l + " 0 2"};
        case 1: return {"circuit " + l + " 1"};
        case 2: return {"circuit " + l + " 0 " + m.name(x[0])};
        case 3: return {"channel " + l + " 0 " + m.name(x[0])};
        case 4: return {"element v " + l + " 0 " + m.name(x[0]) + " first 1"};
        case 5: return {"sum " + l + " [ in s 1 2 ]"};
        case 6: return {"precedence " + l};
        case 7: return {"precedence " + l + " [ 1 2 ] covered"};
        case 8: return {"alldifferentexcept " + l + " [ 0 ]"};
        case 9: return {"binpacking conds " + l + " [ 1 2 ] [ [ le i 2 ] [ le i 2 ] ]"};
        case 10: return {"intension [ eq [ pow " + m.name(x[0]) + " " + m.name(x[1]) + " ] 1 ]"};
        case 11: return {"cumulative ii " + l + " [ 1 1 ] [ 1 1 ] [ lt i 2 ]"};
        default: return {"minimizeexpression x"};
        }
    }

    auto front_case(Ctx & c, Rng & r) -> void
    {
        // models with no solutions are kept only now and then
        std::unique_ptr<Model> made;
        bool aliased = false;
        for (int tries = 0;; ++tries) {
            made = std::make_unique<Model>(r);
            aliased = false;
            for (auto k = r.range(1, 2); k > 0; --k)
                made->fresh(-3, 6, 4);
            for (auto k = r.range(1, 3); k > 0 && made->size <= 6000; --k) {
                made->aliased = false;
                add_constraint(*made);
                aliased = aliased || made->aliased;
            }
            if (made->size > 6000)
                return;
            if (tries == 4 || r.chance(1, 6))
                break;
            A a(made->vars.size());
            std::function<bool(size_t)> any_ok = [&](size_t i) {
                if (i == a.size())
                    return made->ok(a);
                for (auto v : made->vars[i].dom) {
                    a[i] = v;
                    if (any_ok(i + 1))
                        return true;
                }
                return false;
            };
            if (any_ok(0))
                break;
        }
        Model & m = *made;
        bool fault = r.chance(1, 12);
        if (fault)
            m.constraints.push_back(unsupported(m));
        // objective
        m.used.clear();
        std::function<ll(const A &)> objective;
        string objective_line;
        bool maximise = r.chance(1, 2);
        if (r.chance(1, 3)) {
            string way = maximise ? "maximize" : "minimize";
            auto kind = r.range(0, 4);
            if (kind == 0) {
                auto x = m.any(-3, 6, 4);
                objective_line = way + "var " + m.name(x);
                objective = [=](const A & a) { return Model::at(x, a); };
            }
            else {
                auto x = m.some(r.range(1, 3), -3, 6, 3);
                auto k = m.ints(static_cast<ll>(x.size()), -3, 3);
                if (kind == 1)
                    k.assign(x.size(), 1);
                objective_line = way + " " + (kind <= 2 ? "sum " : kind == 3 ? "minimum " : "maximum ") + m.list(x) + (kind == 2 ? " " + m.list(k) : "");
                objective = [=](const A & a) {
                    auto v = Model::at(x, a);
                    if (kind >= 3)
                        return kind == 3 ? *std::min_element(v.begin(), v.end()) : *std::max_element(v.begin(), v.end());
                    ll s = 0;
                    for (size_t i = 0; i < v.size(); ++i)
                        s += k[i] * v[i];
                    return s;
                };
            }
        }
        if (m.size > 6000)
            return;
        // the file
        string text;
        for (auto & v : m.vars)
            if (v.range)
                text += "var " + v.name + " " + n2s(v.dom.front()) + " " + n2s(v.dom.back()) + "\n";
            else {
                auto d = v.dom;
                r.shuffle(d);
                text += "dom " + v.name + " " + Model::list(d) + "\n";
            }
        auto the_constraints = m.constraints;
        r.shuffle(the_constraints);
        for (auto & k : the_constraints)
            for (auto & l : k)
                text += l + "\n";
        if (objective)
            text += objective_line + "\n";
        bool all = r.chance(2, 3), prove = r.chance(1, 12), restarts = (objective || ! all) && r.chance(1, 5);
        auto file = c.tmp + "/m.xcsp", base = c.tmp + "/xcspproof";
        put(file, text);
        vector<string> args;
        if (all)
            args.push_back("--all");
        if (r.chance(1, 4)) {
            args.push_back("--difference-logic");
            if (r.chance(1, 2))
                args.push_back(string{"--difference-logic-simplify="} + (r.chance(1, 2) ? "on" : "off"));
        }
        if (r.chance(1, 3)) {
            static const vector<string> bs{"dom-then-deg", "dom-wdeg", "dom-wdeg:classic", "dom-wdeg:ia", "dom-wdeg:ca", "dom-wdeg:id", "dom-wdeg:cd", "dom-wdeg:ca.cd", "dom-wdeg:chs"};
            args.push_back("--branch=" + r.pick(bs));
        }
        if (restarts)
            args.push_back("--restarts=" + n2s(r.range(1, 5)));
        if (r.chance(1, 10))
            args.push_back("--timeout=5000");
        if (prove)
            args.insert(args.end(), {"--prove", "--proof-files-basename=" + base});
        args.insert(r.chance(1, 2) ? args.begin() : args.end(), file);
        string shown = "xcsp program " + join(args, " ") + "\n" + text;
        c.describe(shown);
        auto ran = run_program(c, args);
        std::remove(file.c_str());
        string kinds;
        for (auto & k : m.kinds)
            kinds += (kinds.empty() ? "" : "+") + k;
        if (m.kinds.empty())
            kinds = "none";
        auto key = [&](const string & k) { return k + (m.kinds.size() == 1 ? " (" + kinds + ")" : ""); };
        auto say = [&] { return " status " + n2s(ran.status) + ", output:\n" + ran.out.substr(0, 1500) + "\n" + ran.err.substr(0, 600) + "\nof\n" + text; };
        VH_CHECK(ran.status != 99, "crash: sanitizer report from the program", "the program ended with" << say());
        // lines
        string verdict, values, names;
        vector<string> sols;
        Is costs;
        std::istringstream in{ran.out};
        for (string l; std::getline(in, l);) {
            if (l.rfind("s ", 0) == 0) {
                VH_CHECK(verdict.empty(), key("xcsp-output"), "two answers:" << say());
                verdict = l.substr(2);
            }
            else if (l.rfind("ENUMSOL:", 0) == 0)
                sols.push_back(l.substr(8));
            else if (l.rfind("o ", 0) == 0)
                costs.push_back(std::stoll(l.substr(2)));
            else if (l.rfind("v   <list>", 0) == 0)
                names = l.substr(10, l.size() - 10 - 8);
            else if (l.rfind("v   <values>", 0) == 0)
                values = l.substr(12, l.size() - 12 - 10);
        }
        if (aliased && ran.err.find("variable handle") != string::npos) {
            c.count("rejected_as_documented");
            return;
        }
        if (fault) {
            VH_CHECK(verdict == "UNSUPPORTED" && ran.status != 0 && ran.status < 1000, "xcsp-unsupported", "something not supported gives" << say());
            VH_CHECK(sols.empty() && values.empty() && costs.empty(), "xcsp-unsupported", "an answer with something not supported:" << say());
            c.count("unsupported_said_so");
            c.nontrivial(text);
            return;
        }
        if (prove && ran.status != 0 && (ran.status >= 1000 || ran.err.find("proof") != string::npos)) {
            c.count("proof_writer_died"); // judged by the proof monitors
            return;
        }
        VH_CHECK(ran.status == 0, key("xcsp-status"), "the program ended with" << say());
        // the answer
        vector<A> want;
        {
            A a(m.vars.size());
            std::function<void(size_t)> go = [&](size_t i) {
                if (i == a.size()) {
                    if (m.ok(a))
                        want.push_back(a);
                    return;
                }
                for (auto v : m.vars[i].dom) {
                    a[i] = v;
                    go(i + 1);
                }
            };
            go(0);
        }
        // a printed assignment, where a star stands for any value
        auto read_one = [&](const std::map<string, string> & by_name) {
            vector<std::optional<ll>> o(m.vars.size());
            VH_CHECK(by_name.size() == m.vars.size(), key("xcsp-output"), "not every variable is listed:" << say());
            for (size_t i = 0; i < m.vars.size(); ++i) {
                auto it = by_name.find(m.vars[i].name);
                VH_CHECK(it != by_name.end(), key("xcsp-output"), "no value for " << m.vars[i].name << ":" << say());
                if (it->second != "*")
                    o[i] = std::stoll(it->second);
            }
            return o;
        };
        auto agrees = [](const vector<std::optional<ll>> & p, const A & a) {
            for (size_t i = 0; i < a.size(); ++i)
                if (p[i] && *p[i] != a[i])
                    return false;
            return true;
        };
        auto stands_for = [&](const vector<std::optional<ll>> & p) {
            size_t n = 1;
            for (size_t i = 0; i < p.size(); ++i)
                if (! p[i])
                    n *= m.vars[i].dom.size();
            return n;
        };
        auto check_one = [&](const vector<std::optional<ll>> & p, const string & shown_as) {
            size_t n = 0;
            for (auto & a : want)
                n += agrees(p, a);
            VH_CHECK(n == stands_for(p), key("xcsp-answer"), "not a solution: " << shown_as << say());
        };
        if (want.empty()) {
            VH_CHECK(verdict == "UNSATISFIABLE" && values.empty() && sols.empty() && costs.empty(), key("xcsp-answer"), "there are no solutions:" << say());
            c.count("unsatisfiable");
        }
        else if (objective) {
            auto best = objective(want[0]);
            for (auto & a : want)
                best = maximise ? std::max(best, objective(a)) : std::min(best, objective(a));
            VH_CHECK(verdict == "OPTIMUM FOUND" && ! costs.empty() && costs.back() == best, key("xcsp-optimum"), "the optimum is " << best << ":" << say());
            for (size_t i = 0; i + 1 < costs.size(); ++i)
                VH_CHECK(maximise ? costs[i] < costs[i + 1] : costs[i] > costs[i + 1], key("xcsp-optimum"), "no improvement:" << say());
            for (auto k : costs)
                VH_CHECK(std::any_of(want.begin(), want.end(), [&](auto & a) { return objective(a) == k; }), key("xcsp-optimum"), "no solution costs " << k << ":" << say());
        }
        else
            VH_CHECK(verdict == "SATISFIABLE", key("xcsp-answer"), "there are " << want.size() << " solutions:" << say());
        if (! want.empty() && (objective || ! all)) {
            std::istringstream ns{names}, vs{values};
            std::map<string, string> by_name;
            for (string n, v; ns >> n;) {
                VH_CHECK(bool(vs >> v), key("xcsp-output"), "fewer values than names:" << say());
                by_name[n] = v;
            }
            auto p = read_one(by_name);
            check_one(p, values);
            if (objective) {
                auto best = costs.back();
                for (auto & a : want)
                    if (agrees(p, a))
                        VH_CHECK(objective(a) == best, key("xcsp-optimum"), "the solution printed does not cost " << best << ":" << say());
                c.count("optimised");
            }
            else
                c.count("one_found");
        }
        else if (! want.empty()) {
            std::set<string> seen;
            size_t n = 0;
            for (auto & s : sols) {
                std::istringstream ws{s};
                std::map<string, string> by_name;
                for (string w; ws >> w;)
                    by_name[w.substr(0, w.find('='))] = w.substr(w.find('=') + 1);
                VH_CHECK(seen.insert(s).second, key("xcsp-answer"), "printed twice: " << s << say());
                auto p = read_one(by_name);
                check_one(p, s);
                n += stands_for(p);
            }
            VH_CHECK(n == want.size(), key("xcsp-answer"), "there are " << want.size() << " solutions, and " << n << " are printed:" << say());
            VH_CHECK(ran.out.find("d FOUND SOLUTIONS " + n2s(static_cast<ll>(sols.size())) + "\n") != string::npos, key("xcsp-output"), "the number of solutions is not as printed:" << say());
            c.count("enumerated");
        }
        if (prove) {
            for (auto s : {".opb", ".pbp"})
                VH_CHECK(! slurp(base + s).empty(), "xcsp-proof", string{"no "} + s + " file was written");
            for (auto s : {".opb", ".pbp", ".varmap", ".scp"})
                std::remove((base + s).c_str());
            c.count("proved");
        }
        for (auto & k : m.kinds)
            c.count("with_" + k);
        if (! want.empty() && static_cast<double>(want.size()) < m.size)
            c.nontrivial(text);
        c.sample(text);
    }
}

auto main(int argc, char ** argv) -> int
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (c.mode == "front")
            front_case(c, r);
        else {
            std::cerr << "unknown mode " << c.mode << "\n";
            std::exit(2);
        }
    });
}

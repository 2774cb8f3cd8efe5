// The FlatZinc program, run as a process on generated JSON files. Every predicate's meaning is written here from the
// FlatZinc and MiniZinc library definitions; what the program prints is judged against enumeration.
#include "vh.hh"
#include <cmath>
#include <optional>
#include <sys/resource.h>
#include <sys/wait.h>

using vh::Ctx;
using vh::join;
using vh::ll;
using vh::Rng;
using vh::string;
using vh::vector;

namespace
{
    using A = vector<ll>;
    auto put(const string & path, const string & text) -> void
    {
        std::ofstream o{path, std::ios::binary};
        o << text;
    }
    auto slurp(const string & path) -> string
    {
        std::ifstream i{path, std::ios::binary};
        std::ostringstream o;
        o << i.rdbuf();
        return o.str();
    }
    struct Ran
    {
        int status;
        string out, err;
    };
    auto run_program(Ctx & c, vector<string> args) -> Ran
    {
        char self[4096];
        auto len = readlink("/proc/self/exe", self, sizeof self - 1);
        string exe{self, static_cast<size_t>(std::max<ssize_t>(len, 0))};
        exe = exe.substr(0, exe.rfind('/')) + "/fzn_glasgow";
        auto out = c.tmp + "/fzn.out", err = c.tmp + "/fzn.err";
        auto pid = fork();
        if (pid == 0) {
            dup2(open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 1);
            dup2(open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), 2);
            rlimit lim{60, 60};
            setrlimit(RLIMIT_CPU, &lim);
            vector<char *> argv{exe.data()};
            for (auto & a : args)
                argv.push_back(a.data());
            argv.push_back(nullptr);
            execv(exe.c_str(), argv.data());
            _exit(125);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        Ran ran{WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), slurp(out), slurp(err)};
        if (ran.status == 125) {
            std::cerr << "cannot run " << exe << "\n";
            std::exit(2);
        }
        return ran;
    }

    struct Arg
    {
        string json;
        int v = -1; // variable
        ll k = 0;
        auto at(const A & a) const -> ll { return v < 0 ? k : a[static_cast<size_t>(v)]; }
    };
    struct Args
    {
        string json;
        vector<Arg> of;
        auto at(const A & a) const -> vector<ll>
        {
            vector<ll> o;
            for (auto & x : of)
                o.push_back(x.at(a));
            return o;
        }
        auto size() const -> size_t { return of.size(); }
    };
    struct Var
    {
        string name;
        vector<ll> dom;
        bool boolean, defined;
    };
    using Meaning = std::function<bool(const A &)>;

    struct Model
    {
        Rng & r;
        vector<Var> vars;
        double size = 1;
        vector<std::pair<string, Args>> arrays; // named
        vector<std::pair<bool, string>> array_is_bool;
        vector<string> array_jsons; // "name": {...}
        vector<string> constraints;
        vector<Meaning> meanings;
        std::set<int> used;
        bool aliased = false;

        explicit Model(Rng & r_) : r(r_) {}

        auto note(int v) -> int
        {
            if (! used.insert(v).second)
                aliased = true;
            return v;
        }
        auto ranges(const vector<ll> & d) -> string
        {
            string s;
            for (size_t i = 0; i < d.size();) {
                size_t j = i;
                while (j + 1 < d.size() && d[j + 1] == d[j] + 1 && ! r.chance(1, 30))
                    ++j;
                s += (i ? "," : "") + string{"["} + std::to_string(d[i]) + "," + std::to_string(d[j]) + "]";
                i = j + 1;
            }
            return "[" + s + "]";
        }
        auto set(const vector<ll> & d) -> string { return "{\"set\":" + ranges(d) + "}"; }
        auto domain(ll lo, ll hi, int most) -> vector<ll>
        {
            vector<ll> d;
            auto a = r.range(lo, hi), b = std::min(hi, a + r.range(0, most - 1));
            for (auto v = a; v <= b; ++v)
                if (v == a || v == b || ! r.chance(1, 5))
                    d.push_back(v);
            return d;
        }
        auto fresh(bool boolean, ll lo, ll hi) -> int
        {
            auto left = 3000 / size;
            Var v;
            v.boolean = boolean;
            v.defined = r.chance(1, 5);
            v.name = r.pick(vector<string>{"x", "X_INTRODUCED_", "b_", "_v", "Y"}) + std::to_string(vars.size()) + (r.chance(1, 3) ? "_" : "");
            v.dom = boolean ? vector<ll>{0, 1} : domain(lo, hi, static_cast<int>(std::min(6.0, left)));
            size *= static_cast<double>(v.dom.size());
            vars.push_back(v);
            return static_cast<int>(vars.size()) - 1;
        }
        auto find(bool boolean, ll lo, ll hi) -> int
        {
            if (3000 / size >= 2 && r.chance(1, 2))
                return fresh(boolean, lo, hi);
            vector<int> ok;
            for (size_t i = 0; i < vars.size(); ++i)
                if (vars[i].boolean == boolean && vars[i].dom.front() >= lo && vars[i].dom.back() <= hi)
                    ok.push_back(static_cast<int>(i));
            if (ok.empty())
                return fresh(boolean, lo, hi);
            return r.pick(ok);
        }
        auto con(bool boolean, ll k) -> Arg { return {boolean ? (k ? "true" : "false") : std::to_string(k), -1, k}; }
        auto iv(ll lo = -3, ll hi = 6) -> Arg
        {
            if (r.chance(1, 8))
                return con(false, r.range(lo, hi));
            auto v = note(find(false, lo, hi));
            return {"\"" + vars[static_cast<size_t>(v)].name + "\"", v, 0};
        }
        auto bv() -> Arg
        {
            if (r.chance(1, 10))
                return con(true, r.range(0, 1));
            auto v = note(find(true, 0, 1));
            return {"\"" + vars[static_cast<size_t>(v)].name + "\"", v, 0};
        }
        auto array(vector<Arg> of) -> Args
        {
            string body;
            for (size_t i = 0; i < of.size(); ++i)
                body += (i ? "," : "") + of[i].json;
            body = "[" + body + "]";
            if (r.chance(1, 2))
                return {body, of};
            auto name = "arr" + std::to_string(arrays.size());
            array_jsons.push_back("\"" + name + "\":{\"a\":" + body + (r.chance(1, 4) ? ",\"introduced\":true" : "") + "}");
            Args a{"\"" + name + "\"", of};
            arrays.emplace_back(name, a);
            return a;
        }
        auto ivs(size_t n, ll lo = -3, ll hi = 6) -> Args
        {
            vector<Arg> o;
            for (size_t i = 0; i < n; ++i)
                o.push_back(iv(lo, hi));
            return array(o);
        }
        auto bvs(size_t n) -> Args
        {
            vector<Arg> o;
            for (size_t i = 0; i < n; ++i)
                o.push_back(bv());
            return array(o);
        }
        auto cons(const vector<ll> & v, bool boolean = false) -> Args
        {
            vector<Arg> o;
            for (auto k : v)
                o.push_back(con(boolean, k));
            return array(o);
        }
        auto ints(size_t n, ll lo, ll hi) -> vector<ll>
        {
            vector<ll> v;
            for (size_t i = 0; i < n; ++i)
                v.push_back(r.range(lo, hi));
            return v;
        }
        auto values(ll lo, ll hi, int pct = 50) -> vector<ll>
        {
            vector<ll> v;
            for (; lo <= hi; ++lo)
                if (r.range(1, 100) <= pct)
                    v.push_back(lo);
            return v;
        }
        auto post(const string & id, const vector<string> & args, Meaning m) -> void
        {
            string j = "{\"id\":\"" + id + "\",\"args\":[";
            for (size_t i = 0; i < args.size(); ++i)
                j += (i ? "," : "") + args[i];
            j += "]" + string{r.chance(1, 5) ? ",\"ann\":[\"domain\"]" : ""} + "}";
            constraints.push_back(j);
            meanings.push_back(std::move(m));
        }
        auto ok(const A & a) const -> bool
        {
            for (auto & m : meanings)
                if (! m(a))
                    return false;
            return true;
        }
    };

    auto tdiv(ll a, ll b) -> ll { return a / b; }
    auto ipow(ll a, ll b) -> ll
    {
        ll p = 1;
        for (; b > 0; --b)
            p *= a;
        return p;
    }
    auto lex(const vector<ll> & x, const vector<ll> & y, bool or_equal) -> bool { return or_equal ? x <= y : x < y; }

    auto cumulative_ok(const vector<ll> & s, const vector<ll> & d, const vector<ll> & h, const vector<ll> & o, ll cap) -> bool
    {
        for (ll t = -20; t < 40; ++t) {
            ll u = 0;
            for (size_t i = 0; i < s.size(); ++i)
                if (o[i] && s[i] <= t && t < s[i] + d[i])
                    u += h[i];
            if (u > cap)
                return false;
        }
        return true;
    }
    auto disjunctive_ok(const vector<ll> & s, const vector<ll> & d, const vector<ll> & o, bool strict) -> bool
    {
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = i + 1; j < s.size(); ++j)
                if (o[i] && o[j] && (strict || (d[i] > 0 && d[j] > 0)))
                    if (! (s[i] + d[i] <= s[j] || s[j] + d[j] <= s[i]))
                        return false;
        return true;
    }

    // one random predicate
    auto add(Model & m) -> void
    {
        auto & r = m.r;
        m.used.clear();
        static const vector<std::function<void(Model &, Rng &)>> all{
            [](Model & m, Rng & r) {
                bool b = r.chance(1, 3), var = r.chance(1, 2);
                auto n = static_cast<size_t>(r.range(1, 4));
                auto idx = m.iv(-1, 6);
                auto arr = var ? (b ? m.bvs(n) : m.ivs(n)) : m.cons(b ? m.ints(n, 0, 1) : m.ints(n, -4, 6), b);
                auto x = b ? m.bv() : m.iv();
                m.post(string{"array_"} + (var ? "var_" : "") + (b ? "bool" : "int") + "_element", {idx.json, arr.json, x.json}, [=](const A & a) {
                    auto i = idx.at(a);
                    return i >= 1 && i <= static_cast<ll>(arr.size()) && arr.of[static_cast<size_t>(i - 1)].at(a) == x.at(a);
                });
            },
            [](Model & m, Rng & r) {
                bool mx = r.chance(1, 2);
                auto x = m.iv();
                auto arr = m.ivs(static_cast<size_t>(r.range(1, 4)));
                m.post(mx ? "array_int_maximum" : "array_int_minimum", {x.json, arr.json}, [=](const A & a) {
                    auto v = arr.at(a);
                    return x.at(a) == (mx ? *std::max_element(v.begin(), v.end()) : *std::min_element(v.begin(), v.end()));
                });
            },
            [](Model & m, Rng & r) {
                auto x = m.iv(), y = m.iv();
                if (r.chance(1, 2))
                    m.post("int_abs", {x.json, y.json}, [=](const A & a) { return std::llabs(x.at(a)) == y.at(a); });
                else {
                    auto b = m.bv();
                    m.post("bool2int", {b.json, y.json}, [=](const A & a) { return b.at(a) == y.at(a); });
                }
            },
            [](Model & m, Rng & r) {
                auto kind = r.range(0, 6);
                auto x = kind == 3 ? m.iv(0, 4) : m.iv(), y = kind == 3 ? m.iv(0, 3) : m.iv(), z = m.iv(-6, 12);
                static const vector<string> names{"int_div", "int_mod", "int_times", "int_pow", "int_plus", "int_max", "int_min"};
                m.post(names[static_cast<size_t>(kind)], {x.json, y.json, z.json}, [=](const A & a) {
                    auto p = x.at(a), q = y.at(a), s = z.at(a);
                    switch (kind) {
                    case 0: return q != 0 && tdiv(p, q) == s;
                    case 1: return q != 0 && p % q == s;
                    case 2: return p * q == s;
                    case 3: return ipow(p, q) == s;
                    case 4: return p + q == s;
                    case 5: return std::max(p, q) == s;
                    default: return std::min(p, q) == s;
                    }
                });
            },
            [](Model & m, Rng & r) {
                bool b = r.chance(1, 3), reif = r.chance(1, 2);
                auto kind = r.range(0, b && reif ? 2 : 3); // eq le lt ne
                auto x = b ? m.bv() : m.iv(), y = b ? m.bv() : m.iv();
                static const vector<string> names{"eq", "le", "lt", "ne"};
                auto holds = [=](const A & a) {
                    auto p = x.at(a), q = y.at(a);
                    return kind == 0 ? p == q : kind == 1 ? p <= q : kind == 2 ? p < q : p != q;
                };
                auto id = b && kind == 3 ? string{"bool_not"} : string{b ? "bool_" : "int_"} + names[static_cast<size_t>(kind)];
                if (! reif)
                    m.post(id, {x.json, y.json}, holds);
                else {
                    auto z = m.bv();
                    m.post(id + "_reif", {x.json, y.json, z.json}, [=](const A & a) { return holds(a) == (z.at(a) == 1); });
                }
            },
            [](Model & m, Rng & r) {
                bool b = r.chance(1, 4), reif = ! b && r.chance(1, 2);
                auto kind = r.range(0, b ? 1 : 2); // eq le ne
                auto n = static_cast<size_t>(r.range(r.chance(1, 6) ? 0 : 1, 4));
                auto co = m.ints(n, -3, 3);
                auto cs = m.cons(co);
                auto xs = b ? m.bvs(n) : m.ivs(n);
                auto rhs = ! reif && r.chance(1, 4) ? m.iv(-4, 9) : m.con(false, r.range(-6, 9));
                static const vector<string> names{"eq", "le", "ne"};
                auto holds = [=](const A & a) {
                    ll s = 0;
                    for (size_t i = 0; i < n; ++i)
                        s += co[i] * xs.of[i].at(a);
                    return kind == 0 ? s == rhs.at(a) : kind == 1 ? s <= rhs.at(a) : s != rhs.at(a);
                };
                auto id = string{b ? "bool_lin_" : "int_lin_"} + names[static_cast<size_t>(kind)];
                if (! reif)
                    m.post(id, {cs.json, xs.json, rhs.json}, holds);
                else {
                    auto z = m.bv();
                    m.post(id + "_reif", {cs.json, xs.json, rhs.json, z.json}, [=](const A & a) { return holds(a) == (z.at(a) == 1); });
                }
            },
            [](Model & m, Rng & r) {
                auto x = m.iv();
                auto s = m.values(-4, 7);
                if (r.chance(1, 10))
                    s.clear();
                auto holds = [=](const A & a) { return std::find(s.begin(), s.end(), x.at(a)) != s.end(); };
                if (r.chance(1, 2))
                    m.post("set_in", {x.json, m.set(s)}, holds);
                else {
                    auto z = m.bv();
                    m.post("set_in_reif", {x.json, m.set(s), z.json}, [=](const A & a) { return holds(a) == (z.at(a) == 1); });
                }
            },
            [](Model & m, Rng & r) {
                auto kind = r.range(0, 7);
                auto all_true = [](const Args & x, const A & a) {
                    auto v = x.at(a);
                    return std::count(v.begin(), v.end(), 1) == static_cast<ll>(v.size());
                };
                auto clause = [](const Args & p, const Args & n, const A & a) {
                    auto v = p.at(a), w = n.at(a);
                    return std::count(v.begin(), v.end(), 1) > 0 || std::count(w.begin(), w.end(), 0) > 0;
                };
                auto xs = m.bvs(static_cast<size_t>(r.range(kind == 1 ? 1 : 0, 3)));
                auto ys = m.bvs(static_cast<size_t>(r.range(0, 2)));
                auto x = m.bv(), y = m.bv(), z = m.bv();
                switch (kind) {
                case 0: m.post("array_bool_and", {xs.json, z.json}, [=](const A & a) { return all_true(xs, a) == (z.at(a) == 1); }); break;
                case 1:
                    m.post("array_bool_xor", {xs.json}, [=](const A & a) {
                        auto v = xs.at(a);
                        return std::count(v.begin(), v.end(), 1) % 2 == 1;
                    });
                    break;
                case 2: m.post("bool_and", {x.json, y.json, z.json}, [=](const A & a) { return (x.at(a) && y.at(a)) == (z.at(a) == 1); }); break;
                case 3: m.post("bool_or", {x.json, y.json, z.json}, [=](const A & a) { return (x.at(a) || y.at(a)) == (z.at(a) == 1); }); break;
                case 4: m.post("bool_xor", {x.json, y.json, z.json}, [=](const A & a) { return (x.at(a) != y.at(a)) == (z.at(a) == 1); }); break;
                case 5: m.post("bool_xor", {x.json, y.json}, [=](const A & a) { return x.at(a) != y.at(a); }); break;
                case 6: m.post("bool_clause", {xs.json, ys.json}, [=](const A & a) { return clause(xs, ys, a); }); break;
                default: m.post("bool_clause_reif", {xs.json, ys.json, z.json}, [=](const A & a) { return clause(xs, ys, a) == (z.at(a) == 1); });
                }
            },
            [](Model & m, Rng & r) {
                auto xs = m.ivs(static_cast<size_t>(r.range(1, 4)), -1, 4);
                auto but = m.values(-1, 4, 30);
                if (r.chance(1, 3))
                    m.post("glasgow_alldifferent", {xs.json}, [=](const A & a) {
                        auto v = xs.at(a);
                        return std::set<ll>(v.begin(), v.end()).size() == v.size();
                    });
                else if (r.chance(1, 2))
                    m.post("glasgow_all_different_except_int", {xs.json, m.set(but)}, [=](const A & a) {
                        vector<ll> v;
                        for (auto x : xs.at(a))
                            if (std::find(but.begin(), but.end(), x) == but.end())
                                v.push_back(x);
                        return std::set<ll>(v.begin(), v.end()).size() == v.size();
                    });
                else
                    m.post("glasgow_all_equal_int", {xs.json}, [=](const A & a) {
                        auto v = xs.at(a);
                        return std::set<ll>(v.begin(), v.end()).size() == 1;
                    });
            },
            [](Model & m, Rng & r) {
                auto n = m.iv(-1, 4);
                auto xs = m.ivs(static_cast<size_t>(r.range(1, 4)));
                auto s = m.values(-3, 6);
                auto of = r.chance(1, 2) ? m.set(s) : m.cons(s).json;
                switch (r.range(0, 2)) {
                case 0:
                    m.post("glasgow_among", {n.json, xs.json, of}, [=](const A & a) {
                        ll k = 0;
                        for (auto x : xs.at(a))
                            k += std::find(s.begin(), s.end(), x) != s.end();
                        return k == n.at(a);
                    });
                    break;
                case 1: {
                    auto y = m.iv();
                    m.post("glasgow_count_eq", {xs.json, y.json, n.json}, [=](const A & a) {
                        auto v = xs.at(a);
                        return std::count(v.begin(), v.end(), y.at(a)) == n.at(a);
                    });
                    break;
                }
                default:
                    m.post("glasgow_nvalue", {n.json, xs.json}, [=](const A & a) {
                        auto v = xs.at(a);
                        return static_cast<ll>(std::set<ll>(v.begin(), v.end()).size()) == n.at(a);
                    });
                }
            },
            [](Model & m, Rng & r) {
                auto n = static_cast<size_t>(r.range(1, 3));
                auto xs = m.ivs(n, 0, 4);
                if (r.chance(1, 2)) {
                    auto ps = m.ivs(n, 0, static_cast<ll>(n) + 1);
                    m.post("glasgow_arg_sort_int", {xs.json, ps.json}, [=](const A & a) {
                        auto x = xs.at(a);
                        vector<ll> want;
                        for (size_t i = 0; i < n; ++i)
                            want.push_back(static_cast<ll>(i) + 1);
                        std::stable_sort(want.begin(), want.end(), [&](ll p, ll q) { return x[static_cast<size_t>(p - 1)] < x[static_cast<size_t>(q - 1)]; });
                        return want == ps.at(a);
                    });
                }
                else {
                    auto ys = m.ivs(n, 0, 4);
                    m.post("glasgow_sort", {xs.json, ys.json}, [=](const A & a) {
                        auto x = xs.at(a);
                        std::sort(x.begin(), x.end());
                        return x == ys.at(a);
                    });
                }
            },
            [](Model & m, Rng & r) {
                auto n = static_cast<size_t>(r.range(1, 3)), b = static_cast<size_t>(r.range(1, 3));
                auto items = m.ivs(n, 0, static_cast<ll>(b) - 1);
                auto w = m.ints(n, 0, 4);
                auto load = [=](const A & a) {
                    vector<ll> l(b, 0);
                    for (size_t i = 0; i < n; ++i)
                        if (auto k = items.of[i].at(a); k >= 0 && k < static_cast<ll>(b))
                            l[static_cast<size_t>(k)] += w[i];
                    return l;
                };
                if (r.chance(1, 2)) {
                    auto cap = m.ints(b, 0, 8);
                    m.post("glasgow_bin_packing_capa", {m.cons(cap).json, items.json, m.cons(w).json}, [=](const A & a) {
                        auto l = load(a);
                        for (size_t i = 0; i < b; ++i)
                            if (l[i] > cap[i])
                                return false;
                        return true;
                    });
                }
                else {
                    auto ls = m.ivs(b, 0, 8);
                    m.post("glasgow_bin_packing_load", {ls.json, items.json, m.cons(w).json}, [=](const A & a) { return load(a) == ls.at(a); });
                }
            },
            [](Model & m, Rng & r) {
                auto n = static_cast<size_t>(r.range(1, 4));
                switch (r.range(0, 2)) {
                case 0: {
                    auto xs = m.ivs(n, 0, static_cast<ll>(n) - 1);
                    m.post("glasgow_circuit", {xs.json}, [=](const A & a) {
                        auto x = xs.at(a);
                        size_t at = 0;
                        std::set<size_t> seen;
                        while (seen.insert(at).second) {
                            if (x[at] < 0 || x[at] >= static_cast<ll>(n))
                                return false;
                            at = static_cast<size_t>(x[at]);
                        }
                        return at == 0 && seen.size() == n;
                    });
                    break;
                }
                case 1: {
                    n = std::min<size_t>(n, 3);
                    auto xs = m.ivs(n, 0, static_cast<ll>(n) + 1), ys = m.ivs(n, 0, static_cast<ll>(n) + 1);
                    m.post("glasgow_inverse", {xs.json, ys.json}, [=](const A & a) {
                        auto x = xs.at(a), y = ys.at(a);
                        for (auto v : {x, y})
                            for (auto k : v)
                                if (k < 1 || k > static_cast<ll>(n))
                                    return false;
                        for (size_t i = 0; i < n; ++i)
                            if (y[static_cast<size_t>(x[i] - 1)] != static_cast<ll>(i) + 1 || x[static_cast<size_t>(y[i] - 1)] != static_cast<ll>(i) + 1)
                                return false;
                        return true;
                    });
                    break;
                }
                default: {
                    auto xs = m.ivs(n, 0, static_cast<ll>(n) + 1);
                    m.post("glasgow_symmetric_all_different", {xs.json}, [=](const A & a) {
                        auto x = xs.at(a);
                        for (size_t i = 0; i < n; ++i)
                            if (x[i] < 1 || x[i] > static_cast<ll>(n) || x[static_cast<size_t>(x[i] - 1)] != static_cast<ll>(i) + 1)
                                return false;
                        return true;
                    });
                }
                }
            },
            [](Model & m, Rng & r) {
                auto n = static_cast<size_t>(r.range(1, 3));
                bool opt = r.chance(1, 2);
                auto kind = r.range(0, 2); // cumulative, disjunctive, diffn
                auto s = m.ivs(n, 0, 5);
                auto d = r.chance(1, 2) ? m.cons(m.ints(n, 0, 3)) : m.ivs(n, 0, 3);
                Args o;
                vector<ll> here(n, 1);
                if (kind == 0) {
                    auto h = r.chance(1, 2) ? m.cons(m.ints(n, 0, 3)) : m.ivs(n, 0, 3);
                    auto cap = r.chance(1, 2) ? m.con(false, r.range(0, 4)) : m.iv(0, 4);
                    if (opt)
                        o = m.bvs(n);
                    auto f = [=](const A & a) { return cumulative_ok(s.at(a), d.at(a), h.at(a), opt ? o.at(a) : here, cap.at(a)); };
                    if (opt)
                        m.post("glasgow_cumulative_opt", {s.json, d.json, h.json, o.json, cap.json}, f);
                    else
                        m.post("glasgow_cumulative", {s.json, d.json, h.json, cap.json}, f);
                }
                else if (kind == 1) {
                    bool strict = r.chance(1, 2);
                    if (opt)
                        o = m.bvs(n);
                    auto f = [=](const A & a) { return disjunctive_ok(s.at(a), d.at(a), opt ? o.at(a) : here, strict); };
                    if (opt)
                        m.post(strict ? "glasgow_disjunctive_strict_opt" : "glasgow_disjunctive_opt", {s.json, d.json, o.json}, f);
                    else
                        m.post(strict ? "glasgow_disjunctive_strict" : "glasgow_disjunctive", {s.json, d.json}, f);
                }
                else {
                    bool strict = r.chance(1, 2);
                    auto y = m.ivs(n, 0, 4);
                    auto e = r.chance(1, 2) ? m.cons(m.ints(n, 0, 3)) : m.ivs(n, 0, 3);
                    m.post(strict ? "glasgow_diffn" : "glasgow_diffn_nonstrict", {s.json, y.json, d.json, e.json}, [=](const A & a) {
                        auto X = s.at(a), Y = y.at(a), W = d.at(a), H = e.at(a);
                        for (size_t i = 0; i < n; ++i)
                            for (size_t j = i + 1; j < n; ++j) {
                                if (! strict && (W[i] == 0 || H[i] == 0 || W[j] == 0 || H[j] == 0))
                                    continue;
                                if (! (X[i] + W[i] <= X[j] || X[j] + W[j] <= X[i] || Y[i] + H[i] <= Y[j] || Y[j] + H[j] <= Y[i]))
                                    return false;
                            }
                        return true;
                    });
                }
            },
            [](Model & m, Rng & r) {
                auto n = static_cast<size_t>(r.range(1, 4)), k = static_cast<size_t>(r.range(1, 3));
                auto xs = m.ivs(n, 0, 4);
                vector<ll> cover;
                for (ll v = -1; v <= 5; ++v)
                    cover.push_back(v);
                r.shuffle(cover);
                cover.resize(k);
                auto cs = m.cons(cover);
                auto counts = m.ivs(k, 0, static_cast<ll>(n));
                bool closed = r.chance(1, 2);
                m.post(closed ? "glasgow_global_cardinality_closed" : "glasgow_global_cardinality", {xs.json, cs.json, counts.json}, [=](const A & a) {
                    auto x = xs.at(a);
                    for (size_t i = 0; i < k; ++i)
                        if (std::count(x.begin(), x.end(), cover[i]) != counts.of[i].at(a))
                            return false;
                    if (closed)
                        for (auto v : x)
                            if (std::find(cover.begin(), cover.end(), v) == cover.end())
                                return false;
                    return true;
                });
            },
            [](Model & m, Rng & r) {
                auto n = static_cast<size_t>(r.range(1, 4));
                bool b = r.chance(1, 3);
                auto xs = b ? m.bvs(n) : m.ivs(n);
                if (b || r.chance(1, 2))
                    m.post(b ? "glasgow_increasing_bool" : "glasgow_increasing_int", {xs.json}, [=](const A & a) {
                        auto v = xs.at(a);
                        return std::is_sorted(v.begin(), v.end());
                    });
                else
                    m.post("glasgow_strictly_increasing_int", {xs.json}, [=](const A & a) {
                        auto v = xs.at(a);
                        for (size_t i = 1; i < v.size(); ++i)
                            if (v[i - 1] >= v[i])
                                return false;
                        return true;
                    });
            },
            [](Model & m, Rng & r) {
                auto n = static_cast<size_t>(r.range(1, 3));
                auto w = m.ints(n, 0, 4), p = m.ints(n, 0, 4);
                auto ws = m.cons(w), ps = m.cons(p);
                auto xs = m.ivs(n, 0, 3);
                auto W = m.iv(0, 12), P = m.iv(0, 12);
                m.post("glasgow_knapsack", {ws.json, ps.json, xs.json, W.json, P.json}, [=](const A & a) {
                    ll s = 0, t = 0;
                    for (size_t i = 0; i < n; ++i) {
                        s += w[i] * xs.of[i].at(a);
                        t += p[i] * xs.of[i].at(a);
                    }
                    return s == W.at(a) && t == P.at(a);
                });
            },
            [](Model & m, Rng & r) {
                bool b = r.chance(1, 2), eq = r.chance(1, 2), reif = r.chance(1, 2);
                auto n = static_cast<size_t>(r.range(0, 3)), k = static_cast<size_t>(r.range(0, 3));
                auto xs = b ? m.bvs(n) : m.ivs(n, 0, 3), ys = b ? m.bvs(k) : m.ivs(k, 0, 3);
                auto id = string{"glasgow_lex_"} + (eq ? "lesseq_" : "less_") + (b ? "bool" : "int");
                auto holds = [=](const A & a) { return lex(xs.at(a), ys.at(a), eq); };
                if (! reif)
                    m.post(id, {xs.json, ys.json}, holds);
                else {
                    auto z = m.bv();
                    m.post(id + "_reif", {xs.json, ys.json, z.json}, [=](const A & a) { return holds(a) == (z.at(a) == 1); });
                }
            },
            [](Model & m, Rng & r) {
                // a layered diagram: nodes numbered from 1 (the root), 0 accepts
                auto L = r.range(1, 3);
                auto xs = m.ivs(static_cast<size_t>(L), 0, 3);
                vector<ll> level{1};
                for (ll l = 2; l <= L; ++l)
                    for (auto k = r.range(1, 2); k > 0; --k)
                        level.push_back(l);
                // any numbering but the root's
                for (size_t i = level.size(); i > 2; --i)
                    std::swap(level[i - 1], level[static_cast<size_t>(r.range(1, static_cast<ll>(i) - 1))]);
                struct Edge
                {
                    ll from, to;
                    vector<ll> label;
                };
                vector<Edge> es;
                for (size_t i = 0; i < level.size(); ++i) {
                    vector<ll> to;
                    for (size_t j = 0; j < level.size(); ++j)
                        if (level[j] == level[i] + 1)
                            to.push_back(static_cast<ll>(j) + 1);
                    if (level[i] == L)
                        to = {0};
                    std::map<ll, vector<ll>> by;
                    for (ll v = -1; v <= 4; ++v)
                        if (! to.empty() && r.chance(3, 5))
                            by[r.pick(to)].push_back(v);
                    for (auto & [t, l] : by)
                        es.push_back({static_cast<ll>(i) + 1, t, l});
                }
                r.shuffle(es);
                if (es.empty())
                    return;
                vector<ll> from, to;
                string labels;
                for (auto & e : es) {
                    from.push_back(e.from);
                    to.push_back(e.to);
                    labels += (labels.empty() ? "" : ",") + m.set(e.label);
                }
                labels = "[" + labels + "]";
                if (r.chance(1, 2)) {
                    auto name = "sets" + std::to_string(m.array_jsons.size());
                    m.array_jsons.push_back("\"" + name + "\":{\"a\":" + labels + "}");
                    labels = "\"" + name + "\"";
                }
                m.post("glasgow_mdd", {xs.json, std::to_string(level.size()), m.cons(level).json, std::to_string(es.size()), m.cons(from).json, labels, m.cons(to).json}, [=](const A & a) {
                    ll at = 1;
                    for (auto v : xs.at(a)) {
                        ll next = -1;
                        for (auto & e : es)
                            if (e.from == at && std::find(e.label.begin(), e.label.end(), v) != e.label.end())
                                next = e.to;
                        if (next < 0)
                            return false;
                        at = next;
                    }
                    return at == 0;
                });
            },
            [](Model & m, Rng & r) {
                auto x = m.iv();
                auto xs = m.ivs(static_cast<size_t>(r.range(1, 4)));
                bool b = r.chance(1, 3);
                if (b) {
                    x = m.bv();
                    xs = m.bvs(static_cast<size_t>(r.range(1, 3)));
                }
                m.post(b ? "glasgow_member_bool" : "glasgow_member_int", {xs.json, x.json}, [=](const A & a) {
                    auto v = xs.at(a);
                    return std::find(v.begin(), v.end(), x.at(a)) != v.end();
                });
            },
            [](Model & m, Rng & r) {
                // symbols arrive counted from 0, states from 1; 0 is a failure
                auto Q = r.range(1, 4), S = r.range(1, 3);
                auto xs = m.ivs(static_cast<size_t>(r.range(1, 4)), 0, S - 1);
                vector<ll> d;
                for (ll i = 0; i < Q * S; ++i)
                    d.push_back(r.chance(1, 5) ? 0 : r.range(1, Q));
                auto q0 = r.range(1, Q);
                auto F = m.values(1, Q);
                m.post("glasgow_regular", {xs.json, std::to_string(Q), std::to_string(S), m.cons(d).json, std::to_string(q0), m.set(F)}, [=](const A & a) {
                    auto q = q0;
                    for (auto v : xs.at(a)) {
                        if (v < 0 || v >= S)
                            return false;
                        q = d[static_cast<size_t>((q - 1) * S + v)];
                        if (q == 0)
                            return false;
                    }
                    return std::find(F.begin(), F.end(), q) != F.end();
                });
            },
            [](Model & m, Rng & r) {
                auto xs = m.ivs(static_cast<size_t>(r.range(1, 4)), 0, 4);
                switch (r.range(0, 2)) {
                case 0:
                    m.post("glasgow_seq_precede_chain_int", {xs.json}, [=](const A & a) {
                        ll most = 0;
                        for (auto v : xs.at(a)) {
                            if (v > most + 1)
                                return false;
                            most = std::max(most, v);
                        }
                        return true;
                    });
                    break;
                default: {
                    vector<ll> chain{0, 1, 2, 3, 4, 5};
                    r.shuffle(chain);
                    bool two = r.chance(1, 2);
                    chain.resize(two ? 2 : static_cast<size_t>(r.range(1, 4)));
                    auto holds = [=](const A & a) {
                        for (size_t k = 1; k < chain.size(); ++k) {
                            bool before = false;
                            for (auto v : xs.at(a)) {
                                if (v == chain[k - 1])
                                    before = true;
                                if (v == chain[k] && ! before)
                                    return false;
                            }
                        }
                        return true;
                    };
                    if (two)
                        m.post("glasgow_value_precede_int", {std::to_string(chain[0]), std::to_string(chain[1]), xs.json}, holds);
                    else
                        m.post("glasgow_value_precede_chain_int", {m.cons(chain).json, xs.json}, holds);
                }
                }
            },
            [](Model & m, Rng & r) {
                bool b = r.chance(1, 3);
                auto n = static_cast<size_t>(r.range(1, 3));
                auto xs = b ? m.bvs(n) : m.ivs(n, 0, 3);
                vector<ll> flat = m.ints(n * static_cast<size_t>(r.range(0, 6)), 0, b ? 1 : 3);
                m.post(b ? "glasgow_table_bool" : "glasgow_table_int", {xs.json, m.cons(flat, b).json}, [=](const A & a) {
                    auto v = xs.at(a);
                    for (size_t i = 0; i < flat.size(); i += n)
                        if (std::equal(v.begin(), v.end(), flat.begin() + static_cast<long>(i)))
                            return true;
                    return false;
                });
            }};
        auto & f = all[static_cast<size_t>(r.range(0, static_cast<ll>(all.size()) - 1))];
        f(m, r);
    }

    auto search_ann(Model & m, int depth) -> string
    {
        auto & r = m.r;
        if (depth > 0 && r.chance(1, 3)) {
            string s;
            for (auto k = r.range(0, 3); k > 0; --k)
                s += (s.empty() ? "" : ",") + search_ann(m, depth - 1);
            return "{\"id\":\"seq_search\",\"args\":[[" + s + "]]}";
        }
        bool b = r.chance(1, 3);
        vector<Arg> some;
        for (size_t i = 0; i < m.vars.size(); ++i)
            if (m.vars[i].boolean == b && r.chance(1, 2))
                some.push_back({"\"" + m.vars[i].name + "\"", static_cast<int>(i), 0});
        r.shuffle(some);
        if (r.chance(1, 8))
            some.push_back(m.con(b, 1));
        auto xs = m.array(some);
        return "{\"id\":\"" + string{b ? "bool_search" : "int_search"} + "\",\"args\":[" + xs.json + ",\"" +
            r.pick(vector<string>{"first_fail", "input_order", "dom_w_deg", "smallest", "largest", "anti_first_fail"}) + "\",\"" +
            r.pick(vector<string>{"indomain", "indomain_min", "indomain_max", "indomain_median", "outdomain_max", "outdomain_min", "indomain_split", "indomain_split_random", "indomain_random", "indomain_reverse_split"}) +
            "\",\"" + (r.chance(1, 10) ? "lds" : "complete") + "\"]}";
    }

    auto front_case(Ctx & c, Rng & r) -> void
    {
        Model m{r};
        for (auto k = r.range(1, 2); k > 0; --k)
            m.fresh(r.chance(1, 4), -3, 6);
        bool aliased = false;
        for (auto k = r.range(1, 3); k > 0; --k) {
            m.aliased = false;
            add(m);
            aliased = aliased || m.aliased;
            if (m.size > 20000)
                return;
        }
        if (m.size > 20000)
            return;
        // outputs: some variables and arrays
        struct Output
        {
            string name;
            vector<Arg> of;
            bool array;
            vector<bool> as_bool;
        };
        vector<Output> outs;
        bool everything = r.chance(1, 2);
        for (size_t i = 0; i < m.vars.size(); ++i)
            if (everything || r.chance(1, 2))
                outs.push_back({m.vars[i].name, {{"", static_cast<int>(i), 0}}, false, {m.vars[i].boolean}});
        for (auto & [name, arr] : m.arrays)
            if (r.chance(1, 3)) {
                // arrays of constants alone say nothing about their type
                bool has = false, b = false;
                for (auto & x : arr.of) {
                    has = has || x.v >= 0;
                    b = b || (x.v >= 0 && m.vars[static_cast<size_t>(x.v)].boolean);
                }
                if (has)
                    outs.push_back({name, arr.of, true, vector<bool>(arr.size(), b)});
            }
        r.shuffle(outs);
        // objective and search
        int objective = -1;
        bool maximise = r.chance(1, 2);
        if (r.chance(1, 3)) {
            vector<int> ints;
            for (size_t i = 0; i < m.vars.size(); ++i)
                if (! m.vars[i].boolean)
                    ints.push_back(static_cast<int>(i));
            if (! ints.empty())
                objective = r.pick(ints);
        }
        string solve = "\"method\":\"" + string{objective < 0 ? "satisfy" : maximise ? "maximize" : "minimize"} + "\"";
        if (objective >= 0)
            solve += ",\"objective\":\"" + m.vars[static_cast<size_t>(objective)].name + "\"";
        if (r.chance(1, 2)) {
            string anns;
            for (auto k = r.range(0, 2); k > 0; --k)
                anns += (anns.empty() ? "" : ",") + search_ann(m, 2);
            solve += ",\"ann\":[" + anns + "]";
        }
        // the file
        bool all = r.chance(2, 3), restarts = r.chance(1, 5), prove = r.chance(1, 10), stats = r.chance(1, 4);
        int limit = r.chance(1, 6) ? static_cast<int>(r.range(1, 4)) : 0;
        if (objective < 0 && (all || limit > 1))
            restarts = false; // documented as for one solution, or optimising
        auto fault = r.chance(1, 8) ? r.range(1, 8) : 0;
        string version = "1.0", vars, outputs;
        auto the_constraints = m.constraints;
        for (auto & v : m.vars) {
            string type = v.boolean ? "\"type\":\"bool\"" : "\"type\":\"int\",\"domain\":" + m.ranges(v.dom);
            if (fault == 1 && &v == &m.vars[0])
                type = "\"type\":\"float\"";
            vars += (vars.empty() ? "" : ",") + string{"\""} + v.name + "\":{" + type + (v.defined ? ",\"defined\":true" : r.chance(1, 6) ? ",\"defined\":false" : "") + "}";
        }
        for (auto & o : outs)
            outputs += (outputs.empty() ? "" : ",") + string{"\""} + o.name + "\"";
        switch (fault) {
        case 2: version = "2.0"; break;
        case 3: the_constraints.push_back("{\"id\":\"int_frobnicate\",\"args\":[1,2]}"); break;
        case 4: the_constraints.push_back("{\"id\":\"int_le\",\"args\":[\"nosuch\",2]}"); break;
        case 5: the_constraints.push_back("{\"id\":\"int_lin_le\",\"args\":[[1,2,3],[1],2]}"); break;
        case 6: solve = "\"method\":\"enumerate\""; break;
        case 7: the_constraints.push_back("{\"id\":\"glasgow_alldifferent\",\"args\":[\"nosucharray\"]}"); break;
        default: break;
        }
        r.shuffle(the_constraints);
        string cons, arrays;
        for (auto & k : the_constraints)
            cons += (cons.empty() ? "" : ",\n ") + k;
        for (auto & k : m.array_jsons)
            arrays += (arrays.empty() ? "" : ",") + k;
        string text = "{\"variables\":{" + vars + "},\n\"arrays\":{" + arrays + "},\n\"constraints\":[" + cons + "],\n\"output\":[" + outputs + "],\n\"solve\":{" + solve + "},\n\"version\":\"" + version + "\"}\n";
        if (fault == 8)
            text.resize(text.size() - static_cast<size_t>(r.range(3, static_cast<ll>(text.size()) / 2)));
        auto file = c.tmp + "/m.fzn.json", base = c.tmp + "/fznproof";
        put(file, text);
        vector<string> args;
        if (all)
            args.push_back(r.chance(1, 2) ? "-a" : "--all-solutions");
        if (limit)
            args.insert(args.end(), {"-n", std::to_string(limit)});
        if (r.chance(1, 3))
            args.push_back("-f");
        if (stats)
            args.push_back("-s");
        if (r.chance(1, 10))
            args.push_back("-i");
        if (r.chance(1, 8))
            args.insert(args.end(), {"-r", std::to_string(r.range(0, 99))});
        if (r.chance(1, 12))
            args.insert(args.end(), {"-p", "4"});
        if (r.chance(1, 12))
            args.insert(args.end(), {"-t", "50000"});
        if (restarts)
            args.push_back("--restarts=" + std::to_string(r.range(0, 5)));
        if (r.chance(1, 4)) {
            args.push_back("--difference-logic");
            if (r.chance(1, 2))
                args.push_back(string{"--difference-logic-simplify="} + (r.chance(1, 2) ? "on" : "off"));
        }
        if (prove)
            args.insert(args.end(), {"--prove", "--proof-files-basename", base});
        args.insert(r.chance(1, 2) ? args.begin() : args.end(), file);
        c.describe("fzn_glasgow " + join(args, " ") + "\n" + text);
        auto ran = run_program(c, args);
        std::remove(file.c_str());
        auto say = [&] { return " status " + std::to_string(ran.status) + ", output:\n" + ran.out.substr(0, 1500) + "\n" + ran.err.substr(0, 600); };
        VH_CHECK(ran.status != 99, "crash: sanitizer report from the program", "the program ended with" << say());
        auto claims = ran.out.find("==========") != string::npos || ran.out.find("=====UNSAT") != string::npos;
        if (fault) {
            VH_CHECK(ran.status == 1, "fzn-fault-accepted", "a faulty file (fault " << fault << ") gives" << say());
            VH_CHECK(! claims && ! ran.err.empty(), "fzn-fault-claims", "a faulty file (fault " << fault << ") gives" << say());
            c.count("faulty_files_refused");
            c.nontrivial("fault " + std::to_string(fault) + text);
            return;
        }
        if (ran.status == 1 && aliased && ran.err.find("variable handle") != string::npos) {
            c.count("rejected_as_documented");
            return;
        }
        if (prove && (ran.status >= 1000 || ran.err.find("proof") != string::npos || ran.err.find("unexpected problem") != string::npos)) {
            c.count("proof_writer_died"); // judged by the proof monitors
            return;
        }
        VH_CHECK(ran.status == 0, "fzn-status", "the program ended with" << say());
        // what is to be printed for an assignment
        auto print = [&](const A & a) {
            string s;
            for (auto & o : outs) {
                s += o.name + " = " + (o.array ? "[" : "");
                for (size_t i = 0; i < o.of.size(); ++i) {
                    auto v = o.of[i].at(a);
                    s += (i ? ", " : "") + (o.as_bool[i] ? string{v == 1 ? "true" : "false"} : std::to_string(v));
                }
                s += o.array ? "];\n" : ";\n";
            }
            return s;
        };
        std::map<string, ll> want;
        ll total = 0;
        std::optional<ll> best;
        std::map<string, std::set<ll>> costs; // objective values an output may come with
        auto cost = [&](const A & a) { return maximise ? -a[static_cast<size_t>(objective)] : a[static_cast<size_t>(objective)]; };
        {
            A a(m.vars.size());
            std::function<void(size_t)> go = [&](size_t i) {
                if (i == a.size()) {
                    if (m.ok(a)) {
                        auto s = print(a);
                        ++want[s];
                        ++total;
                        if (objective >= 0) {
                            best = best ? std::min(*best, cost(a)) : cost(a);
                            costs[s].insert(cost(a));
                        }
                    }
                    return;
                }
                for (auto v : m.vars[i].dom) {
                    a[i] = v;
                    go(i + 1);
                }
            };
            go(0);
        }
        // blocks
        vector<string> blocks;
        string block, tail;
        ll stat_int = -1, stat_branch = -1;
        bool saw_stats = false;
        std::istringstream in{ran.out};
        for (string line; std::getline(in, line);) {
            if (line.rfind("%%%mzn-stat", 0) == 0) {
                VH_CHECK(stats, "fzn-unasked-statistics", "statistics not asked for:" << say());
                saw_stats = true;
                if (line.find(": intVariables=") != string::npos)
                    stat_int = std::stoll(line.substr(line.find('=') + 1));
                if (line.find(": branchableVariables=") != string::npos)
                    stat_branch = std::stoll(line.substr(line.find('=') + 1));
                continue;
            }
            if (line == "----------") {
                blocks.push_back(block);
                block.clear();
            }
            else if (line.rfind("=====", 0) == 0)
                tail += line + "\n";
            else
                block += line + "\n";
        }
        VH_CHECK(block.empty(), "fzn-output", "text that is no solution:" << say());
        VH_CHECK(! stats || saw_stats, "fzn-statistics", "statistics were asked for, and not given:" << say());
        if (stats) {
            ll branch = std::count_if(m.vars.begin(), m.vars.end(), [](auto & v) { return ! v.defined; });
            VH_CHECK(stat_int == static_cast<ll>(m.vars.size()) && stat_branch == branch, "fzn-statistics", "there are " << m.vars.size() << " variables, " << branch << " of them to branch on:" << say());
        }
        auto n = static_cast<ll>(blocks.size());
        for (auto & b : blocks)
            VH_CHECK(want.contains(b), "fzn-answer", "not a solution:\n" << b << "in" << say());
        auto expect_tail = [&](const string & t) { VH_CHECK(tail == t, "fzn-ending", "expected the ending '" << t << "', with " << total << " solutions:" << say()); };
        if (0 == total) {
            VH_CHECK(n == 0, "fzn-answer", "there are no solutions:" << say());
            expect_tail("=====UNSATISFIABLE=====\n");
            c.count("unsatisfiable");
        }
        else if (objective >= 0) {
            VH_CHECK(n >= 1, "fzn-answer", "no solution found, of " << total << ":" << say());
            VH_CHECK(! limit || n <= limit, "fzn-limit", "more solutions than asked for:" << say());
            std::optional<ll> last; // the best that could have been reached, strictly improving
            for (auto & b : blocks) {
                // the largest cost this output could have had below the last
                std::optional<ll> now;
                for (auto k : costs[b])
                    if (! last || k < *last)
                        now = k;
                VH_CHECK(now.has_value(), "fzn-answer", "no improvement:\n" << b << "in" << say());
                last = now;
            }
            if (! limit || n < limit) {
                VH_CHECK(costs[blocks.back()].contains(*best), "fzn-optimum", "the optimum is " << (maximise ? -*best : *best) << ":" << say());
                expect_tail("==========\n");
            }
            else
                expect_tail("");
            c.count("optimised");
        }
        else if (limit || ! all) {
            auto most = limit ? limit : 1;
            VH_CHECK(n == std::min<ll>(most, total), "fzn-limit", most << " solutions were asked for, of " << total << ":" << say());
            expect_tail(most <= total ? "" : "==========\n");
            std::map<string, ll> got;
            for (auto & b : blocks)
                VH_CHECK(++got[b] <= want[b], "fzn-answer", "printed too often:\n" << b << "in" << say());
            c.count("limited");
        }
        else {
            std::map<string, ll> got;
            for (auto & b : blocks)
                ++got[b];
            for (auto & [b, k] : want)
                VH_CHECK(got[b] == k, "fzn-answer", "printed " << got[b] << " times rather than " << k << ":\n" << b << "in" << say());
            expect_tail("==========\n");
            c.count("enumerated");
        }
        if (prove) {
            for (auto s : {".opb", ".pbp"})
                VH_CHECK(! slurp(base + s).empty(), "fzn-proof", string{"no "} + s + " file was written");
            for (auto s : {".opb", ".pbp", ".varmap", ".scp"})
                std::remove((base + s).c_str());
            c.count("proved");
        }
        if (total && static_cast<double>(total) < m.size)
            c.nontrivial(text);
        c.sample(text);
    }
}

auto main(int argc, char ** argv) -> int
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (c.mode == "front")
            front_case(c, r);
        else {
            std::cerr << "unknown mode " << c.mode << "\n";
            std::exit(2);
        }
    });
}

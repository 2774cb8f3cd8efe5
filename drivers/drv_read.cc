// Monitors over the instance files' readers and generators: every file is
// written by this driver (or damaged by it) and judged by readers of its own.
#include "vh.hh"
#include <algorithm>
#include <examples/p_dispersion/p_dispersion_instance.hh>
#include <examples/rcpsp/rcpsp_instance.hh>
#include <examples/table_layout/table_layout_instance.hh>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <sstream>

using vh::Ctx;
using vh::join;
using vh::ll;
using vh::Rng;
using std::optional;
using std::pair;
using std::string;
using std::vector;
using Matrix = vector<vector<ll>>;

namespace
{
    auto put(const string & path, const string & text) -> void
    {
        std::ofstream o{path, std::ios::binary};
        o << text;
    }

    // a value, or nothing for "rejected with an error"
    template <typename T>
    auto attempt(const std::function<T()> & f, string & why) -> optional<T>
    {
        try {
            return f();
        }
        catch (const std::runtime_error & e) {
            why = e.what();
            return std::nullopt;
        }
    }

    auto show(ll v) -> string { return std::to_string(v); }
    auto show(const vector<ll> & v) -> string { return "[" + join(v) + "]"; }
    auto show(const vector<bool> & v) -> string
    {
        string s = "[";
        for (auto b : v)
            s += b ? "T" : "F";
        return s + "]";
    }
    auto show(const Matrix & m) -> string
    {
        string s = "[";
        for (auto & r : m)
            s += show(r);
        return s + "]";
    }
    template <typename T>
    auto show_opt(const optional<T> & v) -> string { return v ? show(*v) : string{"an error"}; }

    // ---- an independent reader of the fragment of dzn that dzn.hh documents

    auto blank(char c) -> bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
    auto trimmed(const string & s) -> string
    {
        size_t a = 0, b = s.size();
        while (a < b && blank(s[a]))
            ++a;
        while (b > a && blank(s[b - 1]))
            --b;
        return s.substr(a, b - a);
    }
    auto number(const string & t) -> optional<ll>
    {
        size_t i = (! t.empty() && (t[0] == '-' || t[0] == '+')) ? 1 : 0;
        if (i == t.size())
            return std::nullopt;
        __int128 v = 0;
        for (; i < t.size(); ++i) {
            if (t[i] < '0' || t[i] > '9')
                return std::nullopt;
            v = v * 10 + (t[i] - '0');
            if (v > (__int128{1} << 64))
                return std::nullopt;
        }
        if (t[0] == '-')
            v = -v;
        if (v < std::numeric_limits<ll>::min() || v > std::numeric_limits<ll>::max())
            return std::nullopt;
        return static_cast<ll>(v);
    }
    auto words(const string & s, const string & separators) -> vector<string>
    {
        vector<string> out;
        string w;
        for (auto c : s + " ")
            if (blank(c) || separators.find(c) != string::npos) {
                if (! w.empty())
                    out.push_back(w);
                w.clear();
            }
            else
                w += c;
        return out;
    }
    // a known finding, reported from texts of its own (directed_case): a list's last entry that is out of range or only a
    // sign is dropped. Random texts of that shape are recognised by what this says they are misread as.
    bool as_misread = false;
    auto numbers(const string & s, const string & separators) -> optional<vector<ll>>
    {
        vector<ll> out;
        if (as_misread) {
            string t = s;
            for (auto & ch : t)
                if (separators.find(ch) != string::npos)
                    ch = ' ';
            std::istringstream in{t};
            for (ll v = 0; in >> v;)
                out.push_back(v);
            return in.eof() ? optional{out} : std::nullopt;
        }
        for (auto & w : words(s, separators)) {
            auto n = number(w);
            if (! n)
                return std::nullopt;
            out.push_back(*n);
        }
        return out;
    }
    auto inside(const string & s) -> optional<string>
    {
        auto a = s.find('['), b = s.rfind(']');
        if (a == string::npos || b == string::npos || b < a)
            return std::nullopt;
        return s.substr(a + 1, b - a - 1);
    }
    auto ref_integer(const string & s) -> optional<ll>
    {
        auto w = words(s, "");
        return w.size() == 1 ? number(w[0]) : std::nullopt;
    }
    auto ref_integers(const string & s) -> optional<vector<ll>>
    {
        auto b = inside(s);
        return b ? numbers(*b, ",|") : std::nullopt;
    }
    auto ref_bools(const string & s) -> optional<vector<bool>>
    {
        auto b = inside(s);
        if (! b)
            return std::nullopt;
        vector<bool> out;
        for (auto & w : words(*b, ",")) {
            if (w == "true" || w == "1")
                out.push_back(true);
            else if (w == "false" || w == "0")
                out.push_back(false);
            else
                return std::nullopt;
        }
        return out;
    }
    auto ref_matrix(const string & s) -> optional<Matrix>
    {
        auto b = inside(s);
        if (! b || trimmed(*b).empty() || trimmed(*b)[0] != '|')
            return std::nullopt;
        Matrix out;
        string row;
        auto flush = [&]() -> bool {
            if (! trimmed(row).empty()) {
                auto n = numbers(row, ",");
                if (! n)
                    return false;
                out.push_back(*n);
            }
            row.clear();
            return true;
        };
        for (auto c : *b + "|")
            if (c == '|') {
                if (! flush())
                    return std::nullopt;
            }
            else
                row += c;
        for (auto & r : out)
            if (r.size() != out[0].size())
                return std::nullopt;
        return out;
    }
    auto ref_sets(const string & s) -> optional<Matrix>
    {
        auto b = inside(s);
        if (! b)
            return std::nullopt;
        Matrix out;
        bool open = false;
        string in;
        for (auto c : *b) {
            if (open) {
                if (c == '}') {
                    auto n = numbers(in, ",");
                    if (! n)
                        return std::nullopt;
                    out.push_back(*n);
                    open = false;
                }
                else
                    in += c;
            }
            else if (c == '{') {
                open = true;
                in.clear();
            }
            else if (c != ',' && ! blank(c))
                return std::nullopt;
        }
        return open ? std::nullopt : optional{out};
    }
    // the statements of a file; nothing if a name is defined twice
    auto ref_file(const string & text) -> optional<std::map<string, string>>
    {
        string t;
        bool comment = false;
        for (auto c : text) {
            if (c == '%')
                comment = true;
            if (c == '\n')
                comment = false;
            if (! comment)
                t += c;
        }
        std::map<string, string> out;
        string st;
        bool twice = false;
        auto flush = [&] {
            auto eq = st.find('=');
            if (eq != string::npos) {
                auto name = trimmed(st.substr(0, eq));
                if (! name.empty() && ! out.emplace(name, trimmed(st.substr(eq + 1))).second)
                    twice = true;
            }
            st.clear();
        };
        for (auto c : t)
            if (c == ';')
                flush();
            else
                st += c;
        flush();
        if (twice)
            return std::nullopt;
        return out;
    }

    // ---- writing

    struct Writer
    {
        Rng & r;
        bool messy;
        auto gap() -> string
        {
            if (! messy)
                return "";
            string s;
            for (auto n = r.range(0, 2); n > 0; --n)
                s += r.chance(1, 8) ? string{"% noise = [1]; 'x'\n"} : string{r.pick(vector<string>{" ", "\t", "\n", "\r\n", "  "})};
            return s;
        }
        auto num(ll v) -> string
        {
            return gap() + std::to_string(v) + gap();
        }
        auto list(const vector<ll> & v, bool trailing = true) -> string
        {
            string s;
            for (size_t i = 0; i < v.size(); ++i)
                s += (i ? "," : "") + num(v[i]);
            if (trailing && messy && ! v.empty() && r.chance(1, 5))
                s += "," + gap();
            return s;
        }
        auto array(const vector<ll> & v) -> string
        {
            auto body = "[" + gap() + list(v) + gap() + "]";
            if (! messy || ! r.chance(1, 3))
                return body;
            return r.chance(1, 2) ? "array1d(1.." + std::to_string(v.size()) + "," + gap() + body + ")" : "array3d(A, B, 0..3," + gap() + body + gap() + ")";
        }
        auto matrix(const Matrix & m) -> string
        {
            string s = "[" + gap() + "|";
            for (size_t i = 0; i < m.size(); ++i)
                s += (i ? "|" : "") + list(m[i]);
            return s + gap() + "|" + gap() + "]";
        }
        auto sets(const Matrix & m) -> string
        {
            string s = "[" + gap();
            for (size_t i = 0; i < m.size(); ++i)
                s += string{i ? "," : ""} + gap() + "{" + gap() + list(m[i], false) + gap() + "}" + gap();
            return s + "]";
        }
        auto statement(const string & name, const string & value) -> string { return gap() + name + (messy ? gap() : " ") + "=" + (messy ? gap() : " ") + value + gap() + ";" + (messy ? gap() : "\n"); }
    };

    auto value(Rng & r) -> ll
    {
        switch (r.range(0, 11)) {
        case 0: return std::numeric_limits<ll>::max() - r.range(0, 1);
        case 1: return std::numeric_limits<ll>::min() + r.range(0, 1);
        case 2: return r.range(-1000000000000, 1000000000000);
        default: return r.range(-20, 120);
        }
    }

    auto damage(Rng & r, string s, int edits) -> string
    {
        static const vector<string> bits{"[", "]", "{", "}", "|", ",", ";", "=", "%", "-", "+", " ", "\n", "0", "7", ".", "t", "true", "false", "99999999999999999999", "9223372036854775808", "-9223372036854775808", "..", "1e3", "0x1", "(", ")"};
        for (; edits > 0 && ! s.empty(); --edits) {
            auto at = static_cast<size_t>(r.range(0, static_cast<ll>(s.size()) - 1));
            switch (r.range(0, 6)) {
            case 0: s.erase(at, 1); break;
            case 1:
            case 2: s.insert(at, r.pick(bits)); break;
            case 3: s[at] = r.pick(bits)[0]; break;
            case 4: s.resize(at); break;
            case 5: {
                auto n = std::min<size_t>(s.size() - at, static_cast<size_t>(r.range(1, 12)));
                s.insert(static_cast<size_t>(r.range(0, static_cast<ll>(s.size()))), s.substr(at, n));
                break;
            }
            default: {
                // a separator or a bracket is the interesting place
                vector<size_t> where;
                for (size_t i = 0; i < s.size(); ++i)
                    if (string{"[]{}|,;=-"}.find(s[i]) != string::npos)
                        where.push_back(i);
                if (where.empty())
                    break;
                auto i = r.pick(where);
                if (r.chance(1, 2))
                    s.insert(i + (r.chance(1, 2) ? 1 : 0), r.pick(bits));
                else
                    s.erase(i, 1);
            }
            }
        }
        return s;
    }

    auto dzn_case(Ctx & c, Rng & r) -> void
    {
        auto path = c.tmp + "/x.dzn";
        for (int rep = 0; rep < 12; ++rep) {
            Writer w{r, r.chance(2, 3)};
            string text;
            auto n = static_cast<int>(r.range(1, 5));
            for (int i = 0; i < n; ++i) {
                auto name = string{"n"} + std::to_string(i) + r.pick(vector<string>{"", "_x", "AB"});
                vector<ll> v;
                for (auto k = r.range(0, 6); k > 0; --k)
                    v.push_back(value(r));
                Matrix m;
                auto cols = r.range(1, 4);
                for (auto k = r.range(1, 4); k > 0; --k) {
                    vector<ll> row;
                    for (auto j = cols; j > 0; --j)
                        row.push_back(value(r));
                    m.push_back(row);
                }
                auto sets = m;
                for (auto & s : sets)
                    s.resize(static_cast<size_t>(r.range(0, static_cast<ll>(s.size()))));
                switch (r.range(0, 4)) {
                case 0: text += w.statement(name, std::to_string(value(r))); break;
                case 1: text += w.statement(name, w.array(v)); break;
                case 2: {
                    string b;
                    for (size_t k = 0; k < v.size(); ++k)
                        b += string{k ? "," : ""} + w.gap() + (r.chance(1, 5) ? (v[k] & 1 ? "1" : "0") : (v[k] & 1 ? "true" : "false")) + w.gap();
                    text += w.statement(name, "[" + b + "]");
                    break;
                }
                case 3: text += w.statement(name, w.matrix(m)); break;
                default: text += w.statement(name, w.sets(sets)); break;
                }
                if (r.chance(1, 12))
                    text += "output [show(x)];\n";
            }
            if (r.chance(1, 4) && ! text.empty())
                text.resize(text.rfind(';'));
            bool damaged = r.chance(2, 3);
            if (damaged)
                text = damage(r, text, static_cast<int>(r.range(1, 3)));
            c.describe("dzn <" + text + ">");
            put(path, text);
            auto want = ref_file(text);
            string why;
            auto got = attempt<dzn::Data>([&] { return dzn::read(path); }, why);
            ++c.evaluations;
            VH_CHECK(want.has_value() == got.has_value(), "dzn-duplicates", (want ? "the file was rejected: " + why : string{"a name defined twice was accepted"}));
            if (! want) {
                c.count("files_rejected");
                VH_CHECK(why.find(path) != string::npos, "dzn-message", "the error does not name the file: " + why);
                continue;
            }
            VH_CHECK(got->path() == path, "dzn-path", got->path());
            VH_CHECK(! got->contains("no such name"), "dzn-contains", "contains a name that was never defined");
            VH_CHECK(! attempt<ll>([&] { return got->integer("no such name"); }, why), "dzn-contains", "read a name that was never defined");
            VH_CHECK(want->size() == static_cast<size_t>(std::count_if(want->begin(), want->end(), [&](auto & kv) { return got->contains(kv.first); })), "dzn-contains", "a defined name is missing");
            for (auto & [name, raw] : *want) {
                auto same = [&](const string & kind, const auto & says, const auto & read_it) {
                    auto expected = says();
                    using T = typename decltype(expected)::value_type;
                    string error;
                    auto actual = attempt<T>(read_it, error);
                    ++c.evaluations;
                    if (actual && ! expected) {
                        as_misread = true;
                        auto misread = says();
                        as_misread = false;
                        if (misread == actual) {
                            c.count("known_shape_not_judged");
                            return;
                        }
                    }
                    c.count(actual ? "values_read" : "values_rejected");
                    VH_CHECK(expected == actual, "dzn-" + kind, name + " = " + raw + " read as " + kind + " gives " + show_opt(actual) + ", but is " + show_opt(expected));
                    if (! actual)
                        VH_CHECK(error.find(name) != string::npos && error.find(path) != string::npos, "dzn-message", "the error does not name what was read: " + error);
                    else
                        c.nontrivial(kind + show(*actual));
                };
                same("integer", [&] { return ref_integer(raw); }, [&] { return got->integer(name); });
                same("integers", [&] { return ref_integers(raw); }, [&] { return got->integers(name); });
                same("bools", [&] { return ref_bools(raw); }, [&] { return got->bools(name); });
                same("matrix", [&] { return ref_matrix(raw); }, [&] { return got->matrix(name); });
                same("sets", [&] { return ref_sets(raw); }, [&] { return got->sets(name); });
            }
            if (rep == 0)
                c.sample(text);
        }
        std::remove(path.c_str());
    }

    // ---- project scheduling

    auto raw(const vector<gcs::Integer> & v) -> vector<ll>
    {
        vector<ll> o;
        for (auto & x : v)
            o.push_back(x.raw_value);
        return o;
    }
    struct Project // what an instance says, in plain numbers
    {
        vector<ll> dur, cap;
        Matrix dem;
        vector<pair<int, int>> prec;
        vector<vector<ll>> lags; // from, to, d
        vector<int> machine;
        optional<int> source;
        auto str() const -> string
        {
            string s = "d" + show(dur) + " c" + show(cap) + " q" + show(dem) + " p";
            for (auto & [a, b] : prec)
                s += "(" + std::to_string(a) + ">" + std::to_string(b) + ")";
            s += " l" + show(lags) + " m[" + join(machine) + "]";
            return s + (source ? " source " + std::to_string(*source) : "");
        }
    };
    auto plain(const rcpsp::Instance & i) -> Project
    {
        Project p;
        p.dur = raw(i.durations);
        p.cap = raw(i.capacities);
        for (auto & row : i.demands)
            p.dem.push_back(raw(row));
        p.prec = i.precedences;
        for (auto & l : i.lags)
            p.lags.push_back({l.from, l.to, l.d.raw_value});
        p.machine = i.machine_tasks;
        p.source = i.source_task;
        return p;
    }

    auto sch_case(Ctx & c, Rng & r) -> void
    {
        auto n = static_cast<size_t>(r.range(1, 5)), g = static_cast<size_t>(r.range(0, 3));
        auto all = n + 2;
        // blocks of fields, so that they can be damaged and laid out
        vector<ll> header{static_cast<ll>(n), static_cast<ll>(g)};
        if (r.chance(3, 4))
            header.push_back(0), header.push_back(0);
        vector<vector<ll>> lines;
        for (size_t i = 0; i < all; ++i) {
            vector<ll> l{static_cast<ll>(i), 1};
            auto k = i + 1 == all ? 0 : r.range(0, 3);
            l.push_back(k);
            for (ll j = 0; j < k; ++j)
                l.push_back(r.range(0, static_cast<ll>(all) - 1));
            for (ll j = 0; j < k; ++j)
                l.push_back(r.range(-9, 9));
            lines.push_back(l);
        }
        for (size_t i = 0; i < all; ++i) {
            vector<ll> l{static_cast<ll>(i), 1, i == 0 || i + 1 == all ? 0 : r.range(0, 9)};
            for (size_t j = 0; j < g; ++j)
                l.push_back(r.range(0, 5));
            lines.push_back(l);
        }
        lines.push_back({});
        for (size_t j = 0; j < g; ++j)
            lines.back().push_back(r.range(0, 9));
        if (r.chance(1, 2)) {
            auto edits = r.range(1, 2);
            for (; edits > 0; --edits)
                switch (r.range(0, 6)) {
                case 0: {
                    auto & l = r.chance(1, 6) ? header : lines[static_cast<size_t>(r.range(0, static_cast<ll>(lines.size()) - 1))];
                    if (l.empty())
                        break;
                    l[static_cast<size_t>(r.range(0, static_cast<ll>(l.size()) - 1))] = r.pick(vector<ll>{-1, 0, 1, 2, 3, 4, 5, 1000001, 2000000000, -2000000000});
                    break;
                }
                case 1: {
                    auto & l = r.pick(vector<int>{0, 1}) ? lines[static_cast<size_t>(r.range(0, static_cast<ll>(lines.size()) - 1))] : lines.back();
                    if (! l.empty())
                        l.erase(l.begin() + static_cast<long>(r.range(0, static_cast<ll>(l.size()) - 1)));
                    break;
                }
                case 2: lines.pop_back(); lines.push_back({}); break;
                case 3: header.push_back(r.range(0, 2)); break;
                case 4: {
                    auto & l = lines[static_cast<size_t>(r.range(0, static_cast<ll>(lines.size()) - 1))];
                    l.insert(l.begin() + static_cast<long>(r.range(0, static_cast<ll>(l.size()))), r.range(-2, 4));
                    break;
                }
                case 5: std::swap(lines[static_cast<size_t>(r.range(0, static_cast<ll>(lines.size()) - 1))], lines[static_cast<size_t>(r.range(0, static_cast<ll>(lines.size()) - 1))]); break;
                default: header.resize(static_cast<size_t>(r.range(0, 4)));
                }
        }
        // what it says, read independently
        auto wanted = [&]() -> optional<Project> {
            if (header.size() < 2 || header.size() > 4)
                return std::nullopt;
            for (size_t i = 2; i < header.size(); ++i)
                if (header[i] != 0)
                    return std::nullopt;
            if (header[0] <= 0 || header[0] > 1000000 || header[1] < 0 || header[1] > 1000000)
                return std::nullopt;
            vector<ll> flat;
            for (auto & l : lines)
                flat.insert(flat.end(), l.begin(), l.end());
            size_t at = 0;
            auto more = [&](ll & v) { return at < flat.size() && (v = flat[at++], true); };
            Project p;
            p.source = 0;
            auto N = header[0] + 2, G = header[1];
            ll v = 0, one = 0, k = 0;
            for (ll i = 0; i < N; ++i) {
                if (! more(v) || v != i || ! more(one) || one != 1 || ! more(k) || k < 0 || k > N)
                    return std::nullopt;
                vector<ll> to;
                for (ll j = 0; j < k; ++j) {
                    if (! more(v))
                        return std::nullopt;
                    to.push_back(v);
                }
                for (ll j = 0; j < k; ++j) {
                    if (! more(v))
                        return std::nullopt;
                    p.lags.push_back({i, to[static_cast<size_t>(j)], v});
                }
            }
            p.dem.assign(static_cast<size_t>(G), {});
            for (ll i = 0; i < N; ++i) {
                if (! more(v) || v != i || ! more(one) || one != 1 || ! more(v))
                    return std::nullopt;
                p.dur.push_back(v);
                for (ll j = 0; j < G; ++j) {
                    if (! more(v))
                        return std::nullopt;
                    p.dem[static_cast<size_t>(j)].push_back(v);
                }
            }
            for (ll j = 0; j < G; ++j) {
                if (! more(v))
                    return std::nullopt;
                p.cap.push_back(v);
            }
            for (auto & l : p.lags)
                if (l[1] < 0 || l[1] >= N)
                    return std::nullopt;
            for (auto x : p.dur)
                if (x < 0)
                    return std::nullopt;
            for (auto x : p.cap)
                if (x < 0)
                    return std::nullopt;
            return p;
        }();
        auto sep = [&] { return r.pick(vector<string>{" ", "\t", "  "}); };
        string text;
        if (r.chance(1, 4))
            text += r.pick(vector<string>{"\n", "  \n", "\r\n"});
        for (auto v : header)
            text += std::to_string(v) + sep();
        text += r.chance(1, 5) ? "\r\n" : "\n";
        for (auto & l : lines) {
            auto brackets = l.size() > 4 && r.chance(4, 5) ? 3 + (l.size() - 3) / 2 : l.size();
            for (size_t i = 0; i < l.size(); ++i)
                text += i >= brackets ? "[" + std::to_string(l[i]) + "]" + (r.chance(1, 4) ? "" : sep()) : std::to_string(l[i]) + sep();
            text += "\n";
        }
        c.describe("sch <" + text + ">");
        string why;
        std::istringstream in{text};
        auto got = attempt<rcpsp::Instance>([&] { return rcpsp::read_sch_stream(in, "here"); }, why);
        ++c.evaluations;
        c.count(wanted ? "files_read" : "files_rejected");
        VH_CHECK(wanted.has_value() == got.has_value(), wanted ? "sch-rejected" : "sch-misread", (wanted ? "a well formed file was rejected: " + why : "a malformed file was read as " + plain(*got).str()));
        if (wanted) {
            auto p = plain(*got);
            VH_CHECK(p.str() == wanted->str() && got->n_tasks == static_cast<int>(wanted->dur.size()) && got->description == "here", "sch-misread", "read as " + p.str() + " but says " + wanted->str());
            bool backward = std::any_of(p.lags.begin(), p.lags.end(), [](auto & l) { return l[2] < 0; });
            VH_CHECK(rcpsp::has_maximum_lags(*got) == backward, "maximum-lags", p.str());
            c.nontrivial(p.str());
            c.sample(text);
        }
    }

    auto rcpsp_dzn_case(Ctx & c, Rng & r) -> void
    {
        auto n = r.range(1, 6), g = r.range(0, 3);
        Project p;
        for (ll i = 0; i < n; ++i)
            p.dur.push_back(r.range(1, 9));
        for (ll k = 0; k < g; ++k) {
            p.cap.push_back(r.range(0, 9));
            p.dem.push_back({});
            for (ll i = 0; i < n; ++i)
                p.dem.back().push_back(r.range(0, 5));
        }
        Matrix suc(static_cast<size_t>(n));
        for (ll i = 0; i < n; ++i)
            for (ll j = i + 1; j < n; ++j)
                if (r.chance(1, 3))
                    suc[static_cast<size_t>(i)].push_back(j + 1);
        for (auto & s : suc)
            r.shuffle(s);
        ll say_n = n, say_g = g;
        bool bad = false;
        auto q = p;
        auto rows = suc;
        if (r.chance(1, 2)) {
            auto any = [&](auto & v) -> auto & { return v[static_cast<size_t>(r.range(0, static_cast<ll>(v.size()) - 1))]; };
            switch (r.range(0, 10)) {
            case 0: say_n = r.pick(vector<ll>{n + 1, n - 1, -n, 0, n + 2000000000}); bad = true; break;
            case 1: say_g = r.pick(vector<ll>{g + 1, g - 1, -1}); bad = true; break;
            case 2: any(q.dur) = r.pick(vector<ll>{0, -1}); bad = true; break;
            case 3: q.dur.push_back(1); bad = true; break;
            case 4:
                if (g) {
                    any(any(q.dem)) = -r.range(1, 3);
                    bad = true;
                }
                break;
            case 5: q.cap.push_back(1); bad = true; break;
            case 6: rows.pop_back(); bad = true; break;
            case 7: any(rows).push_back(r.pick(vector<ll>{0, -1, n + 1, n + 2000000000, -2000000000})); bad = true; break;
            case 8: {
                auto i = static_cast<size_t>(r.range(0, n - 1));
                rows[i].push_back(r.range(1, static_cast<ll>(i) + 1));
                bad = true;
                break;
            }
            case 9:
                if (g) {
                    q.dem.push_back(q.dem.back());
                    bad = true;
                }
                break;
            default:
                if (g) {
                    for (auto & d : q.dem)
                        d.push_back(0);
                    bad = true;
                }
            }
        }
        for (size_t i = 0; i < suc.size(); ++i)
            for (auto j : suc[i])
                p.prec.emplace_back(static_cast<int>(i), static_cast<int>(j) - 1);
        Writer w{r, r.chance(1, 2)};
        vector<string> st{w.statement("n_tasks", std::to_string(say_n)), w.statement("n_res", std::to_string(say_g)), w.statement("rc", w.array(q.cap)), w.statement("d", w.array(q.dur)), w.statement("rr", w.matrix(q.dem)), w.statement("suc", w.sets(rows))};
        r.shuffle(st);
        if (! bad && r.chance(1, 8)) {
            st.pop_back();
            bad = true;
        }
        auto path = c.tmp + "/p.dzn";
        string text;
        for (auto & s : st)
            text += s;
        c.describe("rcpsp dzn <" + text + ">");
        put(path, text);
        string why;
        auto got = attempt<rcpsp::Instance>([&] { return rcpsp::read_dzn_file(path); }, why);
        ++c.evaluations;
        c.count(bad ? "files_rejected" : "files_read");
        VH_CHECK(got.has_value() != bad, bad ? "rcpsp-misread" : "rcpsp-rejected", (bad ? "a malformed file was read as " + plain(*got).str() : "a well formed file was rejected: " + why));
        if (got) {
            VH_CHECK(plain(*got).str() == p.str() && got->n_tasks == static_cast<int>(n), "rcpsp-misread", "read as " + plain(*got).str() + " but says " + p.str());
            c.nontrivial(p.str());
        }
        std::remove(path.c_str());
    }

    // ---- dispersion

    auto pdisp_case(Ctx & c, Rng & r) -> void
    {
        auto n = r.range(1, 6);
        vector<ll> ids;
        while (static_cast<ll>(ids.size()) < n) {
            auto v = r.chance(1, 2) ? r.range(0, 40) : r.range(0, 6);
            if (std::find(ids.begin(), ids.end(), v) == ids.end())
                ids.push_back(v);
        }
        std::sort(ids.begin(), ids.end());
        bool contiguous = r.chance(1, 2);
        if (contiguous)
            for (ll i = 0; i < n; ++i)
                ids[static_cast<size_t>(i)] = i;
        Matrix dist(static_cast<size_t>(n), vector<ll>(static_cast<size_t>(n), 0));
        struct Triple
        {
            ll a, b;
            string d;
        };
        vector<Triple> ts;
        bool reals = r.chance(1, 3);
        for (size_t i = 0; i < ids.size(); ++i)
            for (size_t j = i + 1; j < ids.size(); ++j) {
                auto d = r.range(0, 50);
                dist[i][j] = dist[j][i] = d;
                string text = std::to_string(d);
                if (reals)
                    text += r.pick(vector<string>{".0", ".25", ".4999", ""});
                if (reals && d > 0 && r.chance(1, 3))
                    text = std::to_string(d - 1) + r.pick(vector<string>{".5", ".75", ".9"});
                Triple t{ids[i], ids[j], text};
                if (r.chance(1, 3))
                    std::swap(t.a, t.b);
                ts.push_back(t);
            }
        r.shuffle(ts);
        // one triple short and the rest left alone is too few; the others are damaged in place
        auto kind = r.range(0, 2); // plain, with requirements, with coordinates
        bool bad = false;
        string damage_text;
        if (n >= 2 && r.chance(1, 3)) {
            auto & t = r.pick(vector<int>{0}) ? ts[0] : ts[static_cast<size_t>(r.range(0, static_cast<ll>(ts.size()) - 1))];
            switch (r.range(0, 2)) {
            case 0: t.b = t.a; break;
            case 1:
                if (ts.size() >= 2) {
                    auto & u = &t == &ts[0] ? ts[1] : ts[0];
                    t.a = u.b;
                    t.b = u.a;
                }
                else
                    t.b = t.a;
                break;
            default: ts.pop_back(); kind = 0; break;
            }
            bad = true;
        }
        auto p = r.range(2, 4);
        Matrix req(static_cast<size_t>(p), vector<ll>(static_cast<size_t>(p), -1));
        std::ostringstream o;
        if (r.chance(1, 4))
            o << "\n";
        o << n;
        if (kind == 1)
            o << " " << p;
        else if (kind == 0 && r.chance(1, 2))
            o << " " << r.pick(vector<ll>{0, 1, p});
        o << "\n";
        for (auto & t : ts)
            o << t.a << r.pick(vector<string>{" ", "\t"}) << t.b << " " << t.d << r.pick(vector<string>{"\n", "\n", " \n", "\r\n"});
        if (kind == 1) {
            vector<Triple> rs;
            for (ll i = 0; i < p; ++i)
                for (ll j = i + 1; j < p; ++j) {
                    auto v = r.range(0, 30);
                    req[static_cast<size_t>(i)][static_cast<size_t>(j)] = req[static_cast<size_t>(j)][static_cast<size_t>(i)] = v;
                    rs.push_back({i, j, std::to_string(v)});
                }
            r.shuffle(rs);
            if (! bad && r.chance(1, 6)) {
                rs[0].a = r.pick(vector<ll>{-1, p, p + 3});
                bad = true;
            }
            for (auto & t : rs)
                o << t.a << " " << t.b << " " << t.d << "\n";
        }
        else if (kind == 2)
            for (ll i = 0; i < n; ++i)
                o << r.range(0, 99) << " " << r.range(0, 99) << "\n";
        auto text = o.str();
        c.describe("dispersion <" + text + ">");
        string why;
        std::istringstream in{text};
        auto got = attempt<p_dispersion::Instance>([&] { return p_dispersion::read_instance_stream(in, "here"); }, why);
        ++c.evaluations;
        // a single site is never mentioned by any distance, so there is no such file
        if (n == 1) {
            VH_CHECK(! got || got->n == 1, "dispersion-misread", "one site became " + std::to_string(got->n));
            return;
        }
        c.count(bad ? "files_rejected" : "files_read");
        VH_CHECK(got.has_value() != bad, bad ? "dispersion-misread" : "dispersion-rejected", (bad ? string{"a malformed file was accepted"} : "a well formed file was rejected: " + why));
        if (! got)
            return;
        Matrix d;
        for (auto & row : got->distance)
            d.push_back(raw(row));
        VH_CHECK(got->n == n && d == dist && got->description == "here", "dispersion-misread", "distances " + show(d) + " but the file says " + show(dist));
        // a plain file's trailing block never looks like requirements here: there is none
        if (kind == 1) {
            Matrix q;
            for (auto & row : got->reqs)
                q.push_back(vector<ll>(row.begin(), row.end()));
            VH_CHECK(got->p && *got->p == p && q == req, "dispersion-requirements", "requirements " + show(q) + " but the file says " + show(req));
        }
        else
            VH_CHECK(! got->p && got->reqs.empty(), "dispersion-requirements", "requirements were found where there are none");
        ll most = 0;
        for (auto & row : dist)
            for (auto v : row)
                most = std::max(most, v);
        VH_CHECK(p_dispersion::max_distance(*got).raw_value == most, "dispersion-maximum", "the largest distance of " + show(dist) + " is given as " + show(p_dispersion::max_distance(*got).raw_value));
        c.nontrivial(show(dist));
        c.sample(text);
    }

    auto nearest_root(ll sq) -> ll // integer nearest to the square root
    {
        ll k = 0;
        while ((k + 1) * (k + 1) <= sq)
            ++k;
        return sq - k * k > k ? k + 1 : k; // sq > (k + 1/2)^2 = k^2 + k + 1/4
    }

    auto same_dispersion(Ctx & c, const p_dispersion::Instance & i, const string & what) -> void
    {
        VH_CHECK(static_cast<int>(i.distance.size()) == i.n && static_cast<int>(i.coords.size()) == i.n, "dispersion-generator", what + " has the wrong size");
        for (int a = 0; a < i.n; ++a)
            for (int b = 0; b < i.n; ++b) {
                auto dx = i.coords[a].first - i.coords[b].first, dy = i.coords[a].second - i.coords[b].second;
                ++c.evaluations;
                VH_CHECK(static_cast<int>(i.distance[a].size()) == i.n && i.distance[a][b].raw_value == nearest_root(dx * dx + dy * dy), "dispersion-generator",
                    what + ": distance of sites " + std::to_string(a) + " and " + std::to_string(b) + " is " + std::to_string(i.distance[a][b].raw_value) + ", not " + std::to_string(nearest_root(dx * dx + dy * dy)));
            }
    }

    auto layout_case(Ctx & c, Rng & r) -> void
    {
        auto rows = r.range(1, 4), cols = r.range(1, 4), most = r.range(1, 4);
        auto size = static_cast<size_t>(rows * cols * most);
        vector<ll> w, h;
        for (size_t i = 0; i < size; ++i) {
            w.push_back(r.chance(1, 4) ? -r.range(1, 3) : r.range(0, 90));
            h.push_back(r.chance(1, 6) ? -1 : r.range(0, 90));
        }
        auto pixels = r.range(0, 500);
        auto say_rows = rows, say_cols = cols, say_most = most;
        auto fw = w, fh = h;
        bool bad = false;
        if (r.chance(1, 3)) {
            bad = true;
            switch (r.range(0, 5)) {
            case 0: say_rows = r.pick(vector<ll>{0, -rows, rows + 1, rows + 2000000000}); break;
            case 1: say_cols = r.pick(vector<ll>{0, -cols, cols + 1, cols + 2000000000}); break;
            case 2: say_most = r.pick(vector<ll>{0, -most, most + 1, most + 2000000000}); break;
            case 3: fw.push_back(1); break;
            case 4: fh.pop_back(); break;
            default: fh.push_back(1), fw.push_back(1); break;
            }
        }
        Writer wr{r, r.chance(1, 2)};
        vector<string> st{wr.statement("pixelwidth", std::to_string(pixels)), wr.statement("maxconfig", std::to_string(say_most)), wr.statement("rows", std::to_string(say_rows)), wr.statement("cols", std::to_string(say_cols)), wr.statement("width", wr.array(fw)), wr.statement("height", wr.array(fh))};
        r.shuffle(st);
        string text;
        for (auto & s : st)
            text += s;
        auto path = c.tmp + "/t.dzn";
        put(path, text);
        c.describe("layout <" + text + ">");
        string why;
        auto got = attempt<table_layout::Instance>([&] { return table_layout::read_dzn(path); }, why);
        ++c.evaluations;
        c.count(bad ? "files_rejected" : "files_read");
        VH_CHECK(got.has_value() != bad, bad ? "layout-misread" : "layout-rejected", (bad ? string{"a malformed file was accepted"} : "a well formed file was rejected: " + why));
        std::remove(path.c_str());
        if (! got)
            return;
        VH_CHECK(got->rows == rows && got->cols == cols && got->maxconfig == most && got->pixelwidth == pixels, "layout-misread", "the sizes were misread");
        size_t at = 0;
        bool some_cell_empty = false;
        ll lo_w = 1000, hi_w = -1, lo_h = 1000, hi_h = -1;
        for (int a = 0; a < rows; ++a)
            for (int b = 0; b < cols; ++b) {
                vector<std::tuple<long, long, long>> legal;
                for (int k = 0; k < most; ++k, ++at) {
                    VH_CHECK(got->width[a][b][k] == w[at] && got->height[a][b][k] == h[at], "layout-misread", "a width or height is out of place");
                    if (w[at] >= 0 && h[at] >= 0) {
                        legal.emplace_back(k + 1, w[at], h[at]);
                        lo_w = std::min(lo_w, w[at]), hi_w = std::max(hi_w, w[at]), lo_h = std::min(lo_h, h[at]), hi_h = std::max(hi_h, h[at]);
                    }
                }
                some_cell_empty = some_cell_empty || legal.empty();
                VH_CHECK(table_layout::legal_configurations(*got, a, b) == legal, "layout-configurations", "cell " + std::to_string(a) + "," + std::to_string(b));
            }
        auto e = attempt<table_layout::Extents>([&] { return table_layout::extents(*got); }, why);
        VH_CHECK(e.has_value() == ! some_cell_empty, "layout-extents", (some_cell_empty ? string{"a cell without configurations went unnoticed"} : "rejected: " + why));
        if (e)
            VH_CHECK(e->min_width == lo_w && e->max_width == hi_w && e->min_height == lo_h && e->max_height == hi_h, "layout-extents", "the extents are wrong");
        c.nontrivial(show(w) + show(h));
        c.sample(text);
    }

    // ---- generators, and the bounds and checks the examples' models rest on

    auto independent_feasible(const rcpsp::Instance & i, const vector<ll> & s) -> bool
    {
        auto n = static_cast<size_t>(i.n_tasks);
        if (s.size() != n)
            return false;
        auto d = raw(i.durations);
        for (auto v : s)
            if (v < 0)
                return false;
        for (auto & [a, b] : i.precedences)
            if (s[static_cast<size_t>(b)] - s[static_cast<size_t>(a)] < d[static_cast<size_t>(a)])
                return false;
        for (auto & l : i.lags)
            if (s[static_cast<size_t>(l.to)] - s[static_cast<size_t>(l.from)] < l.d.raw_value)
                return false;
        if (i.source_task && s[static_cast<size_t>(*i.source_task)] != 0)
            return false;
        auto runs = [&](size_t a, ll t) { return s[a] <= t && t < s[a] + d[a]; };
        // the load can only be at its worst where some task starts
        for (size_t a = 0; a < n; ++a) {
            if (d[a] == 0)
                continue;
            for (size_t k = 0; k < i.capacities.size(); ++k) {
                ll load = 0;
                for (size_t b = 0; b < n; ++b)
                    if (runs(b, s[a]))
                        load += i.demands[k][b].raw_value;
                if (load > i.capacities[k].raw_value)
                    return false;
            }
        }
        for (size_t a = 0; a < i.machine_tasks.size(); ++a)
            for (size_t b = a + 1; b < i.machine_tasks.size(); ++b) {
                auto x = static_cast<size_t>(i.machine_tasks[a]), y = static_cast<size_t>(i.machine_tasks[b]);
                if (d[x] > 0 && d[y] > 0 && s[x] < s[y] + d[y] && s[y] < s[x] + d[x])
                    return false;
            }
        return true;
    }

    auto bounds_case(Ctx & c, Rng & r) -> void
    {
        rcpsp::GeneratorOptions o;
        o.n_tasks = static_cast<int>(r.range(1, 9));
        o.seed = static_cast<std::uint_fast32_t>(r.range(0, 1000000));
        o.n_resources = static_cast<int>(r.range(0, 3));
        o.capacity = static_cast<int>(r.range(1, 6));
        o.max_duration = static_cast<int>(r.range(1, 5));
        o.max_demand = static_cast<int>(r.range(0, o.capacity));
        o.precedence_density = static_cast<double>(r.range(0, 10)) / 10;
        o.precedence_window = static_cast<int>(r.range(1, 6));
        o.machine_fraction = static_cast<double>(r.range(0, 10)) / 10;
        auto base = rcpsp::generate(o);
        bool with_lags = r.chance(1, 2);
        auto lagged = o;
        if (with_lags) {
            lagged.max_lag_density = static_cast<double>(r.range(0, 10)) / 10;
            lagged.max_lag_span = static_cast<int>(r.range(1, 6));
            lagged.max_lag_slack = r.range(0, 3);
            lagged.infeasible = r.chance(1, 3);
        }
        auto text = "generate tasks " + std::to_string(o.n_tasks) + " seed " + std::to_string(o.seed) + " window " + std::to_string(o.precedence_window) + " lags " + std::to_string(lagged.max_lag_density) + (lagged.infeasible ? " infeasible" : "");
        c.describe(text);
        auto n = static_cast<size_t>(o.n_tasks);
        auto d = raw(base.durations);
        // longest path from every task to every other, by closure
        constexpr ll none = -1000000;
        auto closure = [&](const rcpsp::Instance & i, bool lags) {
            Matrix m(n, vector<ll>(n, none));
            for (size_t a = 0; a < n; ++a)
                m[a][a] = 0;
            for (auto & [a, b] : i.precedences)
                m[static_cast<size_t>(a)][static_cast<size_t>(b)] = std::max(m[static_cast<size_t>(a)][static_cast<size_t>(b)], i.durations[static_cast<size_t>(a)].raw_value);
            if (lags)
                for (auto & l : i.lags)
                    m[static_cast<size_t>(l.from)][static_cast<size_t>(l.to)] = std::max(m[static_cast<size_t>(l.from)][static_cast<size_t>(l.to)], l.d.raw_value);
            for (size_t k = 0; k < n; ++k)
                for (size_t a = 0; a < n; ++a)
                    for (size_t b = 0; b < n; ++b)
                        if (m[a][k] != none && m[k][b] != none)
                            m[a][b] = std::max(m[a][b], m[a][k] + m[k][b]);
            return m;
        };
        auto lp = closure(base, false);
        string why;
        auto inst_opt = attempt<rcpsp::Instance>([&] { return rcpsp::generate(lagged); }, why);
        if (! inst_opt) {
            bool joined = false;
            for (size_t a = 0; a < n; ++a)
                for (size_t b = a + 1; b < n && b <= a + static_cast<size_t>(lagged.max_lag_span); ++b)
                    joined = joined || lp[a][b] != none;
            VH_CHECK(lagged.infeasible && ! joined, "generator-rejected", "generate failed: " + why);
            c.count("no_pair_to_tighten");
            return;
        }
        auto & inst = *inst_opt;
        // what was asked for, and the same instance underneath
        auto p = plain(inst), q = plain(base);
        q.lags = p.lags;
        VH_CHECK(p.str() == q.str(), "generator-drift", "asking for lags changed the rest of the instance: " + q.str() + " became " + p.str());
        VH_CHECK(inst.n_tasks == o.n_tasks && p.dur.size() == n && p.cap == vector<ll>(static_cast<size_t>(o.n_resources), o.capacity) && p.dem.size() == p.cap.size(), "generator-options", p.str());
        for (auto v : p.dur)
            VH_CHECK(v >= 1 && v <= o.max_duration, "generator-options", "duration " + std::to_string(v));
        for (auto & row : p.dem) {
            VH_CHECK(row.size() == n, "generator-options", "demands of the wrong length");
            for (auto v : row)
                VH_CHECK(v >= 0 && v <= o.max_demand, "generator-options", "demand " + std::to_string(v));
        }
        for (auto & [a, b] : p.prec)
            VH_CHECK(a < b && a >= 0 && b < o.n_tasks && b - a <= o.precedence_window, "generator-options", "precedence " + std::to_string(a) + " before " + std::to_string(b));
        VH_CHECK(std::is_sorted(p.machine.begin(), p.machine.end()) && ! p.source, "generator-options", "machine tasks out of order");
        auto got_lp = rcpsp::detail::longest_paths(inst);
        for (size_t a = 0; a < n; ++a)
            for (size_t b = 0; b < n; ++b) {
                auto want = lp[a][b] == none ? rcpsp::detail::unreachable : lp[a][b];
                VH_CHECK(got_lp[a][b] == want, "longest-paths", "from " + std::to_string(a) + " to " + std::to_string(b) + " is given as " + std::to_string(got_lp[a][b]) + " not " + std::to_string(want) + " in " + p.str());
            }
        bool negative = false;
        for (auto & l : inst.lags) {
            VH_CHECK(l.from > l.to && l.from - l.to <= lagged.max_lag_span, "generator-lags", "lag from " + std::to_string(l.from) + " to " + std::to_string(l.to));
            auto over = -l.d.raw_value - lp[static_cast<size_t>(l.to)][static_cast<size_t>(l.from)];
            VH_CHECK(over == lagged.max_lag_slack || (lagged.infeasible && over == -1 && ! negative), "generator-lags", "a lag with slack " + std::to_string(over));
            negative = negative || over == -1;
        }
        auto whole = closure(inst, true);
        bool cyclic = false;
        for (size_t a = 0; a < n; ++a)
            cyclic = cyclic || whole[a][a] > 0;
        VH_CHECK(cyclic || ! lagged.infeasible, "generator-lags", "the instance asked to be infeasible has no contradictory time lags");
        // earliest starts, tails and the critical path
        auto est = rcpsp::earliest_starts(inst), tail = rcpsp::tails(inst);
        ll critical = 0;
        for (size_t a = 0; a < n; ++a) {
            ll early = 0, late = 0;
            for (size_t b = 0; b < n; ++b) {
                if (lp[b][a] != none)
                    early = std::max(early, lp[b][a]);
                if (a != b && lp[a][b] != none)
                    late = std::max(late, lp[a][b] + d[b] - d[a]);
            }
            VH_CHECK(est[a] == early, "earliest-starts", "task " + std::to_string(a) + " is given " + std::to_string(est[a]) + " not " + std::to_string(early) + " in " + p.str());
            VH_CHECK(tail[a] == late, "tails", "task " + std::to_string(a) + " is given " + std::to_string(tail[a]) + " not " + std::to_string(late) + " in " + p.str());
            critical = std::max(critical, early + d[a] + late);
        }
        VH_CHECK(rcpsp::critical_path_length(inst) == critical, "critical-path", std::to_string(rcpsp::critical_path_length(inst)) + " not " + std::to_string(critical) + " in " + p.str());
        // the serial schedule keeps to everything but the lags
        auto serial = rcpsp::serial_schedule(inst);
        auto unlagged = inst;
        unlagged.lags.clear();
        VH_CHECK(independent_feasible(unlagged, serial), "serial-schedule", "schedule " + show(serial) + " breaks " + p.str());
        ll span = 0;
        for (size_t a = 0; a < n; ++a)
            span = std::max(span, serial[a] + d[a]);
        VH_CHECK(rcpsp::makespan_of(inst, serial) == span, "makespan", std::to_string(rcpsp::makespan_of(inst, serial)) + " not " + std::to_string(span));
        VH_CHECK(rcpsp::makespan_of(inst, serial) >= critical, "critical-path", "longer than a feasible schedule");
        ll horizon = 0;
        for (size_t a = 0; a < n; ++a) {
            auto most = d[a];
            for (auto & l : inst.lags)
                if (static_cast<size_t>(l.from) == a)
                    most = std::max(most, l.d.raw_value);
            horizon += most;
        }
        VH_CHECK(rcpsp::default_horizon(inst) == horizon && horizon >= span, "default-horizon", std::to_string(rcpsp::default_horizon(inst)) + " not " + std::to_string(horizon) + ", makespan " + std::to_string(span));
        // the feasibility check, on schedules near the edge
        auto judged = inst;
        if (r.chance(1, 4))
            judged.source_task = static_cast<int>(r.range(0, o.n_tasks - 1));
        if (r.chance(1, 4))
            judged.lags.push_back({static_cast<int>(r.range(0, o.n_tasks - 1)), static_cast<int>(r.range(0, o.n_tasks - 1)), gcs::Integer{r.range(-4, 0)}});
        for (int k = 0; k < 30; ++k) {
            auto s = serial;
            for (auto e = r.range(0, 3); e > 0; --e)
                s[static_cast<size_t>(r.range(0, static_cast<ll>(n) - 1))] += r.range(-2, 3);
            if (r.chance(1, 40))
                s.pop_back();
            auto want = independent_feasible(judged, s);
            ++c.evaluations;
            c.count(want ? "feasible_schedules" : "infeasible_schedules");
            VH_CHECK(rcpsp::is_feasible(judged, s) == want, "feasibility", ("schedule " + show(s) + (want ? " is feasible" : " is not feasible") + " for " + plain(judged).str()));
        }
        c.nontrivial(p.str());
        c.sample(p.str());
        // the other generators
        if (r.chance(1, 3)) {
            auto w = static_cast<int>(r.range(1, 5)), h = static_cast<int>(r.range(1, 5));
            auto grid = p_dispersion::make_grid(w, h);
            VH_CHECK(grid.n == w * h, "dispersion-generator", "grid of the wrong size");
            std::set<pair<long, long>> at(grid.coords.begin(), grid.coords.end());
            VH_CHECK(static_cast<int>(at.size()) == grid.n, "dispersion-generator", "grid points repeat");
            for (auto & [x, y] : at)
                VH_CHECK(x >= 0 && x < w && y >= 0 && y < h, "dispersion-generator", "a grid point outside the grid");
            same_dispersion(c, grid, "grid");
            auto m = static_cast<int>(r.range(1, 8));
            auto span_of = r.range(0, 300);
            auto euclid = p_dispersion::make_random_euclidean(m, o.seed, span_of);
            VH_CHECK(euclid.n == m, "dispersion-generator", "random instance of the wrong size");
            for (auto & [x, y] : euclid.coords)
                VH_CHECK(x >= 0 && x <= span_of && y >= 0 && y <= span_of, "dispersion-generator", "a random point outside the square");
            same_dispersion(c, euclid, "random");
            auto rows = static_cast<int>(r.range(1, 4)), cols = static_cast<int>(r.range(1, 4)), most = static_cast<int>(r.range(1, 4));
            auto budget = r.chance(1, 2) ? 0 : r.range(1, 99);
            auto size = r.range(1, 30);
            auto t = table_layout::make_random(rows, cols, most, budget, size, o.seed);
            VH_CHECK(t.rows == rows && t.cols == cols && t.maxconfig == most && t.pixelwidth == (budget ? budget : cols * size), "layout-generator", t.description);
            for (int a = 0; a < rows; ++a)
                for (int b = 0; b < cols; ++b) {
                    auto legal = table_layout::legal_configurations(t, a, b);
                    VH_CHECK(! legal.empty(), "layout-generator", "a cell without configurations");
                    for (size_t k = 0; k < legal.size(); ++k) {
                        auto & [l, x, y] = legal[k];
                        VH_CHECK(l == static_cast<long>(k) + 1 && x >= 1 && x <= size && y >= 1 && y <= size, "layout-generator", "a configuration out of range");
                    }
                }
        }
    }

    // known findings, and regressions: one text each, under its own name
    auto directed_case(Ctx & c, Rng &) -> void
    {
        auto path = c.tmp + "/d.dzn";
        string why;
        auto refuse = [&](const string & name, const string & text, const std::function<bool()> & accepted) {
            put(path, text);
            c.describe(name + ": " + text);
            c.nontrivial(name);
            VH_CHECK(! accepted(), "directed:" + name, "read without complaint: " + text);
        };
        auto list = [&] { return attempt<vector<ll>>([&] { return dzn::read(path).integers("a"); }, why).has_value(); };
        auto project = [&] { return attempt<rcpsp::Instance>([&] { return rcpsp::read_dzn_file(path); }, why).has_value(); };
        string ps = "n_res = 1; rc = [3]; d = [1, 2]; rr = [|1, 1|]; ";
        switch (c.current_case % 6) {
        case 0: refuse("dzn-list-ending-in-an-entry-out-of-range", "a = [1, 2, 99999999999999999999];\n", list); break;
        case 1: refuse("dzn-list-ending-in-a-sign", "a = [1, 2, -];\n", list); break;
        case 2: refuse("rcpsp-task-count-beyond-int", "n_tasks = 4294967298; " + ps + "suc = [{2}, {}];\n", project); break;
        case 3: refuse("rcpsp-successor-beyond-int", "n_tasks = 2; " + ps + "suc = [{4294967298}, {}];\n", project); break;
        case 4: {
            string text = "1 0\n0 1 1 4294967297 [0]\n1 1 1 2 [0]\n2 1 0\n0 1 0\n1 1 3\n2 1 0\n";
            refuse("sch-successor-beyond-int", text, [&] {
                std::istringstream in{text};
                return attempt<rcpsp::Instance>([&] { return rcpsp::read_sch_stream(in, "here"); }, why).has_value();
            });
            break;
        }
        default:
            refuse("table-layout-dimension-beyond-int", "pixelwidth = 10; maxconfig = 1; rows = 4294967297; cols = 1; width = [1]; height = [1];\n",
                [&] { return attempt<table_layout::Instance>([&] { return table_layout::read_dzn(path); }, why).has_value(); });
        }
        std::remove(path.c_str());
    }
}

int main(int argc, char * argv[])
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (c.mode == "dzn")
            dzn_case(c, r);
        else if (c.mode == "instances")
            switch (c.current_case % 4) {
            case 0: sch_case(c, r); break;
            case 1: rcpsp_dzn_case(c, r); break;
            case 2: pdisp_case(c, r); break;
            default: layout_case(c, r); break;
            }
        else if (c.mode == "directed")
            directed_case(c, r);
        else if (c.mode == "bounds")
            bounds_case(c, r);
        else {
            std::cerr << "unknown mode " << c.mode << "\n";
            std::exit(2);
        }
    });
}

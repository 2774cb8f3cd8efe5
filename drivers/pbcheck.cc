#include "pbcheck.hh"
#include <algorithm>
#include <charconv>
#include <sstream>
#include <unordered_set>

namespace pbc
{
    namespace
    {
        auto add_(i128 a, i128 b) -> i128
        {
            i128 r;
            if (__builtin_add_overflow(a, b, &r))
                throw Error{"checker: coefficient overflow"};
            return r;
        }
        auto mul_(i128 a, i128 b) -> i128
        {
            i128 r;
            if (__builtin_mul_overflow(a, b, &r))
                throw Error{"checker: coefficient overflow"};
            return r;
        }
    }

    auto str(i128 v) -> string
    {
        if (v == 0)
            return "0";
        string s;
        bool neg = v < 0;
        auto u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        while (u) {
            s += static_cast<char>('0' + static_cast<int>(u % 10));
            u /= 10;
        }
        if (neg)
            s += '-';
        std::reverse(s.begin(), s.end());
        return s;
    }

    auto Con::sum() const -> i128
    {
        i128 s = 0;
        for (auto & x : t)
            s = add_(s, x.c);
        return s;
    }

    auto Names::var(string_view n) -> int
    {
        auto [it, fresh] = index.try_emplace(string(n), static_cast<int>(names.size()));
        if (fresh)
            names.emplace_back(n);
        return it->second;
    }
    auto Names::lit(string_view n) -> int
    {
        if (! n.empty() && n[0] == '~')
            return 2 * var(n.substr(1)) + 1;
        return 2 * var(n);
    }
    auto Names::find(const string & n) const -> int
    {
        auto it = index.find(n);
        return it == index.end() ? -1 : it->second;
    }
    auto Names::show_lit(int l) const -> string { return (l & 1 ? "~" : "") + names[l >> 1]; }
    auto Names::show(const Con & c) const -> string
    {
        string s;
        for (auto & x : c.t)
            s += str(x.c) + " " + show_lit(x.lit) + " ";
        return s + ">= " + str(c.deg);
    }

    auto normalise(vector<Term> raw, i128 deg) -> Con
    {
        // to coefficients of positive literals
        for (auto & x : raw)
            if (x.lit & 1) { // c * (1 - v)
                deg = add_(deg, -x.c);
                x.c = -x.c;
                x.lit ^= 1;
            }
        std::sort(raw.begin(), raw.end(), [](const Term & a, const Term & b) { return a.lit < b.lit; });
        Con r;
        r.deg = deg;
        for (size_t i = 0; i < raw.size();) {
            size_t j = i;
            i128 c = 0;
            for (; j < raw.size() && raw[j].lit == raw[i].lit; ++j)
                c = add_(c, raw[j].c);
            if (c > 0)
                r.t.push_back({c, raw[i].lit});
            else if (c < 0) { // c v = c - c (1 - v) ... = -|c| + |c| ~v
                r.t.push_back({-c, raw[i].lit ^ 1});
                r.deg = add_(r.deg, -c);
            }
            i = j;
        }
        return r;
    }

    auto negated(const Con & c) -> Con
    {
        Con r;
        r.t = c.t;
        for (auto & x : r.t)
            x.lit ^= 1;
        r.deg = add_(add_(c.sum(), -c.deg), 1);
        return r;
    }

    auto implies(const Con & d, const Con & c) -> bool
    {
        if (c.deg <= 0)
            return true;
        auto attempt = [&](const Con & x) {
            i128 deg = x.deg;
            size_t j = 0;
            for (auto & t : x.t) {
                while (j < c.t.size() && (c.t[j].lit >> 1) < (t.lit >> 1))
                    ++j;
                i128 have = j < c.t.size() && c.t[j].lit == t.lit ? c.t[j].c : 0;
                if (t.c > have)
                    deg -= t.c - have;
            }
            return deg >= c.deg;
        };
        if (attempt(d))
            return true;
        if (d.deg > 0) {
            Con s = d;
            bool changed = false;
            for (auto & t : s.t)
                if (t.c > s.deg) {
                    t.c = s.deg;
                    changed = true;
                }
            if (changed && attempt(s))
                return true;
        }
        return false;
    }

    // ---- propagation

    auto Engine::need_vars(int n) -> void
    {
        if (static_cast<int>(val.size()) >= n)
            return;
        val.resize(n, -1);
        reason.resize(n, -1);
        pos.resize(n, -1);
        occ.resize(2 * n);
    }

    auto Engine::live_rows() const -> size_t
    {
        size_t n = 0;
        for (auto & r : rows)
            n += r.live;
        return n;
    }

    auto Engine::attach(Con con, bool formula) -> int
    {
        int id = static_cast<int>(rows.size());
        rows.emplace_back();
        auto & r = rows.back();
        r.formula = formula;
        r.by_size = con.t;
        std::stable_sort(r.by_size.begin(), r.by_size.end(), [](const Term & a, const Term & b) { return a.c > b.c; });
        r.maxc = r.by_size.empty() ? 0 : r.by_size[0].c;
        i128 s = -con.deg;
        for (auto & t : con.t) {
            need_vars((t.lit >> 1) + 1);
            if (! (is_false(t.lit) && pos[t.lit >> 1] < static_cast<int>(qhead)))
                s = add_(s, t.c);
            occ[t.lit].push_back({id, t.c});
        }
        r.slack = s;
        live_terms += con.t.size();
        r.con = std::move(con);
        return id;
    }

    auto Engine::scan(int id) -> bool
    {
        auto & r = rows[id];
        if (r.slack < 0)
            return false;
        for (auto & t : r.by_size) {
            if (t.c <= r.slack)
                break;
            if (val[t.lit >> 1] < 0) {
                val[t.lit >> 1] = static_cast<signed char>(1 - (t.lit & 1));
                reason[t.lit >> 1] = id;
                pos[t.lit >> 1] = static_cast<int>(trail.size());
                trail.push_back(t.lit);
                ++propagations;
            }
        }
        return true;
    }

    auto Engine::propagate() -> bool
    {
        bool ok = true;
        while (ok && qhead < trail.size()) {
            int l = trail[qhead++];
            pending.clear();
            for (auto & o : occ[l ^ 1]) {
                auto & r = rows[o.row];
                r.slack -= o.c;
                if (r.live && r.slack < r.maxc)
                    pending.push_back(o.row);
            }
            for (auto id : pending)
                if (! scan(id)) {
                    ok = false;
                    break;
                }
        }
        return ok;
    }

    auto Engine::backtrack(size_t n) -> void
    {
        while (trail.size() > n) {
            int l = trail.back();
            if (trail.size() <= qhead) {
                for (auto & o : occ[l ^ 1])
                    rows[o.row].slack += o.c;
                --qhead;
            }
            val[l >> 1] = -1;
            reason[l >> 1] = -1;
            pos[l >> 1] = -1;
            trail.pop_back();
        }
    }

    auto Engine::rebuild() -> void
    {
        backtrack(0);
        root_conflict = false;
        for (size_t i = 0; i < rows.size() && ! root_conflict; ++i)
            if (rows[i].live && rows[i].slack < rows[i].maxc)
                if (! scan(static_cast<int>(i)) || ! propagate())
                    root_conflict = true;
        for (size_t i = 0; i < rows.size() && ! root_conflict; ++i)
            if (rows[i].live && rows[i].slack < 0)
                root_conflict = true;
    }

    auto Engine::compact() -> void
    {
        for (auto & l : occ)
            std::erase_if(l, [&](const Occ & o) { return ! rows[o.row].live; });
        dead_terms = 0;
    }

    auto Engine::add(Con c, bool formula) -> int
    {
        int id = attach(std::move(c), formula);
        if (! root_conflict && rows[id].slack < std::max<i128>(rows[id].maxc, 0))
            if (! scan(id) || ! propagate())
                root_conflict = true;
        return id;
    }

    auto Engine::remove(const vector<int> & ids) -> void
    {
        std::unordered_set<int> gone;
        for (auto i : ids)
            if (rows[i].live) {
                rows[i].live = false;
                gone.insert(i);
                dead_terms += rows[i].con.t.size();
                live_terms -= rows[i].con.t.size();
            }
        if (gone.empty())
            return;
        if (root_conflict)
            rebuild();
        else {
            size_t first = trail.size();
            for (size_t p = 0; p < trail.size(); ++p)
                if (reason[trail[p] >> 1] >= 0 && gone.contains(reason[trail[p] >> 1])) {
                    first = p;
                    break;
                }
            if (first < trail.size()) {
                vector<int> removed(trail.begin() + static_cast<long>(first), trail.end());
                backtrack(first);
                for (auto l : removed) {
                    if (root_conflict)
                        break;
                    for (size_t k = 0; k < occ[l].size(); ++k) {
                        auto id = occ[l][k].row;
                        if (rows[id].live && rows[id].slack < rows[id].maxc)
                            if (! scan(id) || ! propagate()) {
                                root_conflict = true;
                                break;
                            }
                    }
                }
            }
        }
        if (dead_terms > live_terms + 1000)
            compact();
    }

    auto Engine::push(const Con & c) -> bool
    {
        int id = attach(c, false);
        if (rows[id].slack < 0)
            return false;
        return scan(id);
    }

    auto Engine::settle() -> bool { return propagate(); }

    auto Engine::assume(int lit) -> bool
    {
        need_vars((lit >> 1) + 1);
        if (is_false(lit))
            return false;
        if (! is_true(lit)) {
            val[lit >> 1] = static_cast<signed char>(1 - (lit & 1));
            pos[lit >> 1] = static_cast<int>(trail.size());
            trail.push_back(lit);
        }
        return true;
    }

    auto Engine::undo(const Mark & m) -> void
    {
        backtrack(m.trail);
        while (rows.size() > m.rows) {
            for (auto & t : rows.back().con.t)
                occ[t.lit].pop_back();
            live_terms -= rows.back().con.t.size();
            rows.pop_back();
        }
    }

    auto Engine::rup(const Con & c) -> bool
    {
        if (root_conflict || c.deg <= 0)
            return true;
        auto m = mark();
        bool ok = push(negated(c)) && settle();
        undo(m);
        return ! ok;
    }

    // ---- reading

    namespace
    {
        struct Lexer
        {
            string_view s;
            size_t p = 0;
            auto space() -> void
            {
                while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\r'))
                    ++p;
            }
            auto done() -> bool
            {
                space();
                return p >= s.size();
            }
            static auto numeric(string_view w) -> bool
            {
                size_t i = ! w.empty() && (w[0] == '-' || w[0] == '+') ? 1 : 0;
                return i < w.size() && w[i] >= '0' && w[i] <= '9';
            }
            // numbers, names, and the punctuation ; : >= -> each as one token
            auto next() -> string_view
            {
                space();
                if (p >= s.size())
                    return {};
                size_t b = p;
                if (s[p] == ';' || s[p] == ':') {
                    ++p;
                    return s.substr(b, 1);
                }
                while (p < s.size() && s[p] != ' ' && s[p] != '\t' && s[p] != '\r' && s[p] != ';')
                    ++p;
                auto w = s.substr(b, p - b);
                if (numeric(w)) {
                    size_t k = w[0] == '-' || w[0] == '+' ? 1 : 0;
                    while (k < w.size() && w[k] >= '0' && w[k] <= '9')
                        ++k;
                    if (k < w.size() && w[k] == ':') {
                        p = b + k;
                        w = w.substr(0, k);
                    }
                    else if (k < w.size())
                        throw Error{"malformed number " + string(w)};
                }
                return w;
            }
            auto peek() -> string_view
            {
                auto q = p;
                auto w = next();
                p = q;
                return w;
            }
            auto number() -> i128
            {
                auto w = next();
                return number_of(w);
            }
            static auto number_of(string_view w) -> i128
            {
                if (! numeric(w))
                    throw Error{"expected a number, not '" + string(w) + "'"};
                bool neg = w[0] == '-';
                i128 v = 0;
                for (size_t i = w[0] == '-' || w[0] == '+' ? 1 : 0; i < w.size(); ++i) {
                    if (w[i] < '0' || w[i] > '9')
                        throw Error{"malformed number " + string(w)};
                    v = add_(mul_(v, 10), w[i] - '0');
                }
                return neg ? -v : v;
            }
            auto expect(string_view x) -> void
            {
                auto w = next();
                if (w != x)
                    throw Error{"expected '" + string(x) + "', not '" + string(w) + "'"};
            }
            auto semi() -> void
            {
                expect(";");
                if (! done())
                    throw Error{"text after ;: " + string(s.substr(p))};
            }
        };

        auto read_terms(Lexer & lx, Names & names) -> vector<Term>
        {
            vector<Term> r;
            while (Lexer::numeric(lx.peek())) {
                auto c = lx.number();
                auto n = lx.next();
                if (n.empty() || n == ";" || n == ":" || n == ">=")
                    throw Error{"a coefficient with no literal"};
                r.push_back({c, names.lit(n)});
            }
            return r;
        }
        auto read_con(Lexer & lx, Names & names) -> Con
        {
            auto t = read_terms(lx, names);
            lx.expect(">=");
            auto d = lx.number();
            return normalise(std::move(t), d);
        }
        template <typename F_>
        auto each_line(const string & text, F_ f) -> void
        {
            size_t p = 0, n = 0;
            while (p < text.size()) {
                auto e = text.find('\n', p);
                if (e == string::npos)
                    e = text.size();
                ++n;
                if (! f(string_view(text).substr(p, e - p), n))
                    return;
                p = e + 1;
            }
        }
    }

    auto read_opb(const string & text) -> Formula
    {
        Formula f;
        std::set<string> labels;
        each_line(text, [&](string_view line, size_t n) {
            try {
                Lexer lx{line};
                auto w = lx.peek();
                if (w.empty() || w[0] == '*')
                    return true;
                if (w == "min:" || w == "min") {
                    if (f.has_objective || ! f.rows.empty())
                        throw Error{"misplaced objective"};
                    lx.next();
                    f.has_objective = true;
                    f.objective = read_terms(lx, f.names);
                    lx.semi();
                    return true;
                }
                if (w == "preserved:") {
                    lx.next();
                    f.has_preserved = true;
                    for (auto l = lx.next(); l != ";"; l = lx.next()) {
                        if (l.empty())
                            throw Error{"unterminated preserved list"};
                        if (l[0] == '~')
                            throw Error{"negated preserved literal"};
                        f.preserved.push_back(f.names.var(l));
                    }
                    if (! lx.done())
                        throw Error{"text after preserved list"};
                    return true;
                }
                string label;
                if (w[0] == '@') {
                    label = string(lx.next());
                    if (! labels.insert(label).second)
                        throw Error{"duplicate label " + label};
                }
                f.rows.push_back(read_con(lx, f.names));
                f.labels.push_back(label);
                lx.semi();
            }
            catch (Error & e) {
                throw Error{"opb line " + std::to_string(n) + ": " + e.what + "\n" + string(line)};
            }
            return true;
        });
        return f;
    }

    namespace
    {
        auto dpll(Engine & e, const vector<int> & order, size_t from, long & budget) -> std::optional<bool>
        {
            // everything satisfied already?
            size_t i = from;
            while (i < order.size() && e.val[order[i]] >= 0)
                ++i;
            if (i == order.size())
                return true; // all assigned and no conflict
            if (--budget < 0)
                return std::nullopt;
            int v = order[i];
            for (int sign : {1, 0}) {
                auto m = e.mark();
                std::optional<bool> r = false;
                if (e.assume(2 * v + sign) && e.settle())
                    r = dpll(e, order, i + 1, budget);
                e.undo(m);
                if (! r || *r)
                    return r;
            }
            return false;
        }
    }

    // ---- checking

    namespace
    {
        struct Checker
        {
            Formula & f;
            const Options & opt;
            Result & res;
            Engine e;
            Names & names;
            vector<int> row_of;            // id - 1 -> engine row or -1 when never a constraint
            std::unordered_map<string, long long> labels;
            std::optional<i128> best;
            bool finished = false, concluded = false;
            struct Goal
            {
                Con con;
            };
            struct Sub // an open subproof
            {
                Con c, not_c;
                std::map<int, int> w; // variable -> literal, or -2 (0) / -1 (1)
                long long first_id;
                std::set<string> done;       // goal names proved
                std::set<long long> done_ids;
                bool in_goal = false;
                long long goal_first = 0;
                Con goal;
                string label;
            };
            vector<Sub> subs;

            Checker(Formula & f_, const Options & o, Result & r) : f(f_), opt(o), res(r), names(f_.names)
            {
                e.need_vars(static_cast<int>(names.names.size()));
                for (size_t i = 0; i < f.rows.size(); ++i) {
                    consume(f.rows[i], true);
                    if (! f.labels[i].empty())
                        labels[f.labels[i]] = static_cast<long long>(row_of.size());
                }
            }

            auto last() const -> long long { return static_cast<long long>(row_of.size()); }

            auto consume(const Con & c, bool formula = false) -> void
            {
                e.need_vars(static_cast<int>(names.names.size()));
                row_of.push_back(e.add(c, formula));
            }

            auto id_of(string_view w) -> long long
            {
                if (! w.empty() && w[0] == '@') {
                    auto it = labels.find(string(w));
                    if (it == labels.end())
                        throw Error{"unknown label " + string(w)};
                    return it->second;
                }
                auto n = static_cast<long long>(Lexer::number_of(w));
                auto id = n < 0 ? last() + 1 + n : n;
                if (id < 1 || id > last())
                    throw Error{"no constraint " + string(w)};
                return id;
            }
            auto row(long long id) -> Engine::Row &
            {
                auto r = row_of[id - 1];
                if (r < 0 || ! e.rows[r].live)
                    throw Error{"constraint " + std::to_string(id) + " has been deleted"};
                return e.rows[r];
            }

            // propagation over some rows only
            auto hinted(const Con & c, const vector<long long> & ids) -> bool
            {
                vector<Con> use;
                for (auto i : ids)
                    use.push_back(row(i).con);
                use.push_back(negated(c));
                std::unordered_map<int, bool> v;
                while (true) {
                    bool changed = false;
                    for (auto & x : use) {
                        i128 slack = -x.deg;
                        for (auto & t : x.t) {
                            auto it = v.find(t.lit >> 1);
                            if (it == v.end() || it->second == ! (t.lit & 1))
                                slack += t.c;
                        }
                        if (slack < 0)
                            return true;
                        for (auto & t : x.t)
                            if (t.c > slack && ! v.contains(t.lit >> 1)) {
                                v[t.lit >> 1] = ! (t.lit & 1);
                                changed = true;
                            }
                    }
                    if (! changed)
                        return false;
                }
            }

            auto pol(Lexer & lx) -> Con
            {
                vector<Con> st;
                auto pop = [&] {
                    if (st.empty())
                        throw Error{"pol stack empty"};
                    auto c = std::move(st.back());
                    st.pop_back();
                    return c;
                };
                vector<string> raw; // last raw token, for w and constants
                struct Pend
                {
                    bool is_num = false;
                    i128 n = 0;
                    string text;
                };
                vector<Pend> toks;
                for (auto w = lx.next(); w != ";"; w = lx.next()) {
                    if (w.empty())
                        throw Error{"unterminated pol"};
                    toks.push_back({Lexer::numeric(w), 0, string(w)});
                }
                if (! lx.done())
                    throw Error{"text after ;"};
                for (size_t i = 0; i < toks.size(); ++i) {
                    auto & w = toks[i].text;
                    auto next_is = [&](const char * x) { return i + 1 < toks.size() && toks[i + 1].text == x; };
                    if (w == "+") {
                        auto b = pop(), a = pop();
                        auto t = a.t;
                        t.insert(t.end(), b.t.begin(), b.t.end());
                        st.push_back(normalise(std::move(t), add_(a.deg, b.deg)));
                    }
                    else if (w == "s") {
                        auto a = pop();
                        auto d = std::max<i128>(a.deg, 0);
                        vector<Term> t;
                        for (auto & x : a.t)
                            t.push_back({std::min(x.c, d), x.lit});
                        st.push_back(normalise(std::move(t), a.deg));
                    }
                    else if (toks[i].is_num && next_is("*")) {
                        auto k = Lexer::number_of(w);
                        if (k < 0)
                            throw Error{"multiplication by a negative number"};
                        auto a = pop();
                        for (auto & x : a.t)
                            x.c = mul_(x.c, k);
                        st.push_back(normalise(std::move(a.t), mul_(a.deg, k)));
                        ++i;
                    }
                    else if (toks[i].is_num && next_is("d")) {
                        auto k = Lexer::number_of(w);
                        if (k <= 0)
                            throw Error{"division by a number that is not positive"};
                        auto a = pop();
                        auto up = [&](i128 x) { return x >= 0 ? (x + k - 1) / k : -((-x) / k); };
                        for (auto & x : a.t)
                            x.c = up(x.c);
                        st.push_back(normalise(std::move(a.t), up(a.deg)));
                        ++i;
                    }
                    else if (next_is("w")) {
                        auto l = names.lit(w);
                        auto a = pop();
                        vector<Term> t;
                        auto d = a.deg;
                        for (auto & x : a.t)
                            if ((x.lit >> 1) == (l >> 1))
                                d -= x.c;
                            else
                                t.push_back(x);
                        st.push_back(normalise(std::move(t), d));
                        ++i;
                    }
                    else if (toks[i].is_num || w[0] == '@')
                        st.push_back(row(id_of(w)).con);
                    else if (w == "*" || w == "d" || w == "w")
                        throw Error{"misplaced pol operator " + w};
                    else
                        st.push_back(Con{{{1, names.lit(w)}}, 0});
                }
                if (st.size() != 1)
                    throw Error{"pol leaves " + std::to_string(st.size()) + " constraints"};
                return st.back();
            }

            auto substitute(const Con & c, const std::map<int, int> & w) -> Con
            {
                vector<Term> t;
                auto d = c.deg;
                for (auto & x : c.t) {
                    auto it = w.find(x.lit >> 1);
                    if (it == w.end())
                        t.push_back(x);
                    else if (it->second < 0) {
                        bool one = it->second == -1;
                        if (one == ! (x.lit & 1))
                            d -= x.c;
                    }
                    else
                        t.push_back({x.c, it->second ^ (x.lit & 1)});
                }
                return normalise(std::move(t), d);
            }

            auto touches(const Con & c, const std::map<int, int> & w) -> bool
            {
                for (auto & x : c.t)
                    if (w.contains(x.lit >> 1))
                        return true;
                return false;
            }

            // not_c already accounted for by the caller having pushed it, or given here
            auto autoprove(const Con & g, const Con * not_c) -> bool
            {
                if (g.deg <= 0 || e.root_conflict)
                    return true;
                if (not_c && implies(*not_c, g))
                    return true;
                auto m = e.mark();
                bool alive = true;
                if (not_c)
                    alive = e.push(*not_c);
                alive = alive && e.push(negated(g)) && e.settle();
                e.undo(m);
                if (! alive)
                    return true;
                std::set<int> seen;
                for (auto & t : g.t)
                    for (auto & o : e.occ[t.lit])
                        if (e.rows[o.row].live && seen.insert(o.row).second && implies(e.rows[o.row].con, g))
                            return true;
                return false;
            }

            // rows whose own redundancy goal has to be proved
            auto touched_rows(const std::map<int, int> & w) -> vector<int>
            {
                std::set<int> r;
                for (auto & [v, _] : w)
                    for (int l : {2 * v, 2 * v + 1})
                        if (l < static_cast<int>(e.occ.size()))
                            for (auto & o : e.occ[l])
                                if (e.rows[o.row].live)
                                    r.insert(o.row);
                return {r.begin(), r.end()};
            }

            auto objective_goal(const std::map<int, int> & w) -> std::optional<Con>
            {
                if (! f.has_objective)
                    return {};
                bool any = false;
                vector<Term> t;
                i128 d = 0;
                for (auto & x : f.objective) {
                    auto it = w.find(x.lit >> 1);
                    if (it == w.end())
                        continue;
                    any = true;
                    t.push_back(x);
                    if (it->second < 0) {
                        bool one = it->second == -1;
                        if (one == ! (x.lit & 1))
                            d += x.c;
                    }
                    else
                        t.push_back({-x.c, it->second ^ (x.lit & 1)});
                }
                if (! any)
                    return {};
                return normalise(std::move(t), d);
            }

            auto check_goals(const Sub & s) -> void
            {
                if (! s.done.contains("#1")) {
                    auto g = substitute(s.c, s.w);
                    if (! autoprove(g, &s.not_c))
                        throw Error{"red: the constraint itself under the witness is not proved: " + names.show(g)};
                }
                if (auto o = objective_goal(s.w))
                    if (! autoprove(*o, &s.not_c))
                        throw Error{"red: the witness may worsen the objective"};
                for (auto r : touched_rows(s.w)) {
                    bool skip = false;
                    for (auto id : s.done_ids)
                        skip = skip || row_of[id - 1] == r;
                    if (skip)
                        continue;
                    auto g = substitute(e.rows[r].con, s.w);
                    if (implies(e.rows[r].con, g))
                        continue;
                    if (! autoprove(g, &s.not_c))
                        throw Error{"red: not proved for " + names.show(e.rows[r].con) + " under the witness, which is " + names.show(g)};
                }
            }

            auto close_ids(long long from) -> void // removes ids from 'from' to the end
            {
                vector<int> gone;
                for (auto i = from; i <= last(); ++i)
                    if (row_of[i - 1] >= 0 && e.rows[row_of[i - 1]].live)
                        gone.push_back(row_of[i - 1]);
                e.remove(gone);
            }

            auto solution(Lexer & lx, bool soli) -> void
            {
                if (! subs.empty())
                    throw Error{"solution inside a subproof"};
                if (soli && ! f.has_objective)
                    throw Error{"soli without an objective"};
                if (! soli && f.has_objective)
                    throw Error{"solx with an objective"};
                if (opt.before_solution)
                    opt.before_solution(e, res.solutions.size());
                auto m = e.mark();
                bool ok = ! e.root_conflict;
                for (auto w = lx.next(); w != ";"; w = lx.next()) {
                    if (w.empty())
                        throw Error{"unterminated solution"};
                    auto v = names.find(string(w[0] == '~' ? w.substr(1) : w));
                    if (v < 0)
                        throw Error{"solution mentions the unknown variable " + string(w)};
                    if (ok)
                        ok = e.assume(names.lit(w));
                }
                if (! lx.done())
                    throw Error{"text after ;"};
                if (ok)
                    ok = e.settle();
                if (! ok) {
                    e.undo(m);
                    throw Error{"the solution contradicts the constraints"};
                }
                Solution s;
                s.soli = soli;
                for (auto l : e.trail)
                    s.values[l >> 1] = 1 - (l & 1);
                string bad;
                for (auto & r : e.rows)
                    if (r.formula && bad.empty()) {
                        i128 have = 0;
                        for (auto & t : r.con.t)
                            if (e.is_true(t.lit))
                                have += t.c;
                        if (have < r.con.deg)
                            bad = "the solution does not satisfy " + names.show(r.con);
                    }
                if (! bad.empty()) {
                    // is there at least some way of completing it?
                    vector<int> order;
                    for (int v = 0; v < static_cast<int>(names.names.size()); ++v)
                        order.push_back(v);
                    long budget = 100000;
                    auto can = dpll(e, order, 0, budget);
                    if (! can || *can) {
                        if (res.open_solution.empty())
                            res.open_solution = bad;
                        if (! opt.strict_solutions)
                            bad.clear();
                    }
                }
                auto keep = f.preserved;
                if (! f.has_preserved) {
                    keep.clear();
                    std::set<int> all;
                    for (auto & c : f.rows)
                        for (auto & t : c.t)
                            all.insert(t.lit >> 1);
                    keep.assign(all.begin(), all.end());
                }
                for (auto v : keep)
                    if (e.val[v] < 0 && bad.empty())
                        bad = "the solution does not settle the preserved variable " + names.names[v];
                Con c;
                if (bad.empty() && soli) {
                    i128 v = 0;
                    for (auto & t : f.objective) {
                        if (e.val[t.lit >> 1] < 0)
                            bad = "the solution does not settle the objective";
                        else if (e.is_true(t.lit))
                            v = add_(v, t.c);
                    }
                    s.objective = v;
                    auto t = f.objective;
                    for (auto & x : t)
                        x.c = -x.c;
                    c = normalise(t, -(v - 1));
                    if (bad.empty()) {
                        if (best && v >= *best)
                            bad = "the solution does not improve the objective";
                        best = v;
                    }
                }
                else if (bad.empty()) {
                    vector<Term> t;
                    for (auto v : keep)
                        t.push_back({1, 2 * v + (e.val[v] == 1 ? 1 : 0)});
                    c = normalise(t, 1);
                    // a variable listed twice must still count once
                    for (auto & x : c.t)
                        x.c = 1;
                }
                e.undo(m);
                if (! bad.empty())
                    throw Error{bad};
                res.solutions.push_back(std::move(s));
                consume(c, true);
            }

            auto conclusion(Lexer & lx) -> void
            {
                if (concluded)
                    throw Error{"a second conclusion"};
                concluded = true;
                auto kind = string(lx.next());
                res.conclusion = kind;
                auto contradictory = [&](long long id) {
                    auto & c = row(id).con;
                    return c.sum() < c.deg;
                };
                if (kind == "NONE")
                    ;
                else if (kind == "UNSAT") {
                    lx.expect(":");
                    auto id = id_of(lx.next());
                    if (! contradictory(id))
                        throw Error{"UNSAT cites a constraint that is not a contradiction"};
                    if (! res.solutions.empty())
                        throw Error{"UNSAT after a solution was logged"};
                }
                else if (kind == "SAT") {
                    if (res.solutions.empty())
                        throw Error{"SAT without a solution"};
                }
                else if (kind == "ENUMERATION_COMPLETE") {
                    auto n = lx.number();
                    lx.expect(":");
                    auto id = id_of(lx.next());
                    if (! contradictory(id))
                        throw Error{"ENUMERATION_COMPLETE cites a constraint that is not a contradiction"};
                    if (n != static_cast<i128>(res.solutions.size()))
                        throw Error{"ENUMERATION_COMPLETE claims " + str(n) + " solutions, " + std::to_string(res.solutions.size()) + " were logged"};
                }
                else if (kind == "BOUNDS") {
                    if (! f.has_objective)
                        throw Error{"BOUNDS without an objective"};
                    if (lx.peek() == "INF") {
                        lx.next();
                        lx.expect("INF");
                        res.bounds_inf = true;
                        if (! res.solutions.empty())
                            throw Error{"BOUNDS INF after a solution"};
                        if (! e.rup(Con{{}, 1}))
                            throw Error{"BOUNDS INF INF but no contradiction"};
                    }
                    else {
                        res.lower = lx.number();
                        res.upper = lx.number();
                        if (! best || *best != res.upper)
                            throw Error{"BOUNDS upper " + str(res.upper) + " but the best solution logged is " + (best ? str(*best) : string("none"))};
                        if (! e.rup(normalise(f.objective, res.lower)) && ! autoprove(normalise(f.objective, res.lower), nullptr))
                            throw Error{"BOUNDS lower " + str(res.lower) + " does not follow"};
                        if (res.lower > res.upper)
                            throw Error{"BOUNDS the wrong way round"};
                    }
                }
                else
                    throw Error{"unknown conclusion " + kind};
                lx.semi();
            }

            auto del(Lexer & lx) -> void
            {
                auto what = lx.next();
                vector<int> gone;
                auto take = [&](long long id, bool strict) {
                    auto r = row_of[id - 1];
                    if (r < 0 || ! e.rows[r].live) {
                        if (strict)
                            throw Error{"deletes constraint " + std::to_string(id) + ", which is already gone"};
                        return;
                    }
                    if (e.rows[r].formula)
                        throw Error{"deletes constraint " + std::to_string(id) + ", which is part of the model or excludes a solution"};
                    gone.push_back(r);
                };
                if (what == "id") {
                    for (auto w = lx.next(); w != ";"; w = lx.next()) {
                        if (w.empty())
                            throw Error{"unterminated del"};
                        take(id_of(w), true);
                    }
                }
                else if (what == "range") {
                    auto a = id_of(lx.next());
                    auto bw = lx.next();
                    auto n = static_cast<long long>(Lexer::number_of(bw));
                    auto b = n < 0 ? last() + 1 + n : n;
                    if (b < a || b > last() + 1)
                        throw Error{"del range is empty or out of range"};
                    for (auto i = a; i < b; ++i)
                        take(i, false);
                    lx.expect(";");
                }
                else
                    throw Error{"unknown del " + string(what)};
                if (! lx.done())
                    throw Error{"text after ;"};
                e.remove(gone);
            }

            auto step(string_view line) -> void
            {
                Lexer lx{line};
                if (lx.done() || line[lx.p] == '%')
                    return;
                if (finished)
                    throw Error{"text after the end of the proof"};
                string label;
                auto rule = string(lx.next());
                if (rule[0] == '@') {
                    label = rule;
                    rule = string(lx.next());
                }
                ++res.steps;
                ++res.rules[rule];
                auto labelled = [&] {
                    // a label may be given again, and then means the newer row
                    if (! label.empty() && ! labels.insert_or_assign(label, last()).second)
                        ++res.rules["label given again"];
                };
                if (! subs.empty() && ! subs.back().in_goal && rule != "proofgoal" && rule != "qed")
                    throw Error{"step between proof goals"};
                if (concluded && rule != "end")
                    throw Error{"step after the conclusion"};
                if (rule == "rup") {
                    auto c = read_con(lx, names);
                    e.need_vars(static_cast<int>(names.names.size()));
                    if (lx.peek() == ":") {
                        lx.next();
                        vector<long long> ids;
                        for (auto w = lx.next(); w != ";"; w = lx.next()) {
                            if (w.empty())
                                throw Error{"unterminated rup"};
                            ids.push_back(id_of(w));
                        }
                        if (! lx.done())
                            throw Error{"text after ;"};
                        ++res.rules["rup with hints"];
                        if (! hinted(c, ids)) {
                            if (! opt.trust_rup)
                                throw Error{"not implied by unit propagation over the hints"};
                            ++res.trusted;
                        }
                    }
                    else {
                        lx.semi();
                        if (! e.rup(c)) {
                            if (! opt.trust_rup)
                                throw Error{"not implied by unit propagation"};
                            ++res.trusted;
                        }
                    }
                    consume(c);
                    labelled();
                }
                else if (rule == "ia") {
                    auto c = read_con(lx, names);
                    e.need_vars(static_cast<int>(names.names.size()));
                    bool ok = false;
                    if (lx.peek() == ":") {
                        lx.next();
                        auto id = id_of(lx.next());
                        lx.semi();
                        ok = implies(row(id).con, c) || hinted(c, {id});
                    }
                    else {
                        lx.semi();
                        ok = autoprove(c, nullptr);
                    }
                    if (! ok)
                        throw Error{"not implied by the constraint given"};
                    consume(c);
                    labelled();
                }
                else if (rule == "a") {
                    auto c = read_con(lx, names);
                    ++res.asserted;
                    if (! opt.allow_assertions)
                        throw Error{"an assertion instead of a justification"};
                    // the annotation, up to the closing ;
                    auto rest = line.substr(lx.p);
                    if (rest.empty() || rest.back() != ';')
                        throw Error{"unterminated assertion"};
                    consume(c);
                    labelled();
                }
                else if (rule == "pol") {
                    auto c = pol(lx);
                    consume(c);
                    labelled();
                }
                else if (rule == "e") {
                    auto c = read_con(lx, names);
                    lx.expect(":");
                    auto id = id_of(lx.next());
                    lx.semi();
                    if (! (row(id).con == c))
                        throw Error{"e: constraint " + std::to_string(id) + " is " + names.show(row(id).con)};
                }
                else if (rule == "red") {
                    auto c = read_con(lx, names);
                    Sub s;
                    s.c = c;
                    s.not_c = negated(c);
                    s.label = label;
                    lx.expect(":");
                    bool sub = false;
                    while (true) {
                        auto w = lx.next();
                        if (w == ";") {
                            if (! lx.done())
                                throw Error{"text after ;"};
                            break;
                        }
                        if (w == ":") {
                            lx.expect("subproof");
                            if (! lx.done())
                                throw Error{"text after subproof"};
                            sub = true;
                            break;
                        }
                        if (w.empty())
                            throw Error{"unterminated red"};
                        if (w == "0" || w == "1")
                            throw Error{"witness maps a constant"};
                        auto l = names.lit(w);
                        lx.expect("->");
                        auto t = lx.next();
                        int to;
                        if (t == "0" || t == "1") {
                            bool one = t == "1";
                            if (l & 1)
                                one = ! one;
                            to = one ? -1 : -2;
                        }
                        else
                            to = names.lit(t) ^ (l & 1);
                        if (! s.w.emplace(l >> 1, to).second)
                            throw Error{"witness maps a variable twice"};
                    }
                    e.need_vars(static_cast<int>(names.names.size()));
                    for (auto v : f.preserved)
                        if (s.w.contains(v) && s.w[v] != 2 * v)
                            throw Error{"witness maps the preserved variable " + names.names[v]};
                    if (! sub) {
                        check_goals(s);
                        consume(c);
                        labelled();
                    }
                    else {
                        ++res.rules["red with a subproof"];
                        s.first_id = last() + 1;
                        consume(s.not_c);
                        subs.push_back(std::move(s));
                    }
                }
                else if (rule == "proofgoal") {
                    if (subs.empty() || subs.back().in_goal)
                        throw Error{"proofgoal outside a subproof"};
                    auto & s = subs.back();
                    auto w = string(lx.next());
                    if (! lx.done())
                        throw Error{"text after proofgoal"};
                    Con g;
                    if (w == "#1") {
                        g = substitute(s.c, s.w);
                        s.done.insert(w);
                    }
                    else if (w[0] == '#') {
                        auto o = objective_goal(s.w);
                        if (w != "#2" || ! o)
                            throw Error{"unknown proof goal " + w};
                        g = *o;
                    }
                    else {
                        auto id = id_of(w);
                        if (! touches(row(id).con, s.w))
                            throw Error{"the witness does not touch the goal " + w};
                        g = substitute(row(id).con, s.w);
                        s.done_ids.insert(id);
                    }
                    s.in_goal = true;
                    s.goal_first = last() + 1;
                    consume(negated(g));
                }
                else if (rule == "qed") {
                    lx.semi();
                    if (subs.empty())
                        throw Error{"qed outside a subproof"};
                    auto & s = subs.back();
                    if (s.in_goal) {
                        if (! e.root_conflict)
                            throw Error{"the subproof ends without a contradiction"};
                        s.in_goal = false;
                        close_ids(s.goal_first);
                    }
                    else {
                        auto done = std::move(s);
                        subs.pop_back();
                        close_ids(done.first_id);
                        check_goals(done);
                        consume(done.c);
                        label = done.label;
                        labelled();
                    }
                }
                else if (rule == "solx" || rule == "soli") {
                    solution(lx, rule == "soli");
                    labelled();
                }
                else if (rule == "del")
                    del(lx);
                else if (rule == "output") {
                    lx.expect("NONE");
                    lx.semi();
                }
                else if (rule == "conclusion")
                    conclusion(lx);
                else if (rule == "end") {
                    if (! concluded)
                        throw Error{"end without a conclusion"};
                    finished = true;
                }
                else
                    throw Error{"unknown rule " + rule};
            }
        };
    }

    auto check(Formula & f, const string & proof, const Options & opt) -> Result
    {
        Result res;
        try {
            Checker c{f, opt, res};
            each_line(proof, [&](string_view line, size_t n) {
                res.line = n;
                if (n > opt.max_lines || c.e.propagations > opt.max_propagations) {
                    res.too_big = true;
                    return false;
                }
                if (n == 1) {
                    if (line != "pseudo-Boolean proof version 3.0")
                        throw Error{"bad header"};
                    return true;
                }
                try {
                    c.step(line);
                }
                catch (Error & e) {
                    if (e.what.starts_with("checker:")) {
                        res.too_big = true;
                        return false;
                    }
                    throw Error{"proof line " + std::to_string(n) + ": " + string(line.substr(0, 1500)) + "\n" + e.what};
                }
                return true;
            });
            res.propagations = c.e.propagations;
            if (! res.too_big && ! c.finished)
                throw Error{"the proof has no end"};
        }
        catch (Error & e) {
            if (e.what.starts_with("checker:"))
                res.too_big = true;
            else
                res.error = e.what;
        }
        return res;
    }

    auto satisfiable(const Formula & f, Engine & e, const vector<int> & lits, long & budget) -> std::optional<bool>
    {
        if (e.root_conflict)
            return false;
        auto m = e.mark();
        std::optional<bool> r = false;
        bool ok = true;
        for (auto l : lits)
            if (ok)
                ok = e.assume(l);
        if (ok && e.settle()) {
            vector<int> order;
            for (int v = 0; v < static_cast<int>(f.names.names.size()); ++v)
                order.push_back(v);
            r = dpll(e, order, 0, budget);
        }
        e.undo(m);
        return r;
    }
}

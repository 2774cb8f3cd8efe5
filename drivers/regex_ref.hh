// Independent parser, matcher and generator for the string regular expressions.
#ifndef VERIF_REGEX_REF_HH
#define VERIF_REGEX_REF_HH
#include "vh.hh"
#include <memory>
#include <optional>
#include <set>
namespace rx
{
using namespace vh;
using std::optional; using std::set; using std::unique_ptr; using std::make_unique; using std::pair; using std::nullopt;

struct Re
{
    enum K { Sym, Cat, Alt, Rep } k;
    std::set<ll> syms;
    vector<std::shared_ptr<Re>> kids;
    ll lo = 0, hi = -1; // Rep: hi < 0 means unbounded
};
using ReP = std::shared_ptr<Re>;

struct ReParser // independent parser for the documented grammar; throws int on a syntax error
{
    const string & s;
    std::set<ll> alphabet;
    size_t p = 0;
    auto skip() -> void { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n')) ++p; }
    auto peek() -> char { skip(); return p < s.size() ? s[p] : 0; }
    auto eat(char ch) -> bool { if (peek() == ch && p < s.size()) { ++p; return true; } return false; }
    auto number() -> ll
    {
        skip();
        if (p >= s.size() || ! isdigit((unsigned char)s[p]))
            throw 1;
        __int128 v = 0;
        while (p < s.size() && isdigit((unsigned char)s[p])) {
            v = v * 10 + (s[p++] - '0');
            if (v > std::numeric_limits<ll>::max())
                throw 1;
        }
        return (ll)v;
    }
    auto alt() -> ReP
    {
        auto a = cat();
        while (eat('|')) {
            auto n = std::make_shared<Re>(Re{Re::Alt, {}, {a, cat()}});
            a = n;
        }
        return a;
    }
    auto starts() -> bool { char ch = peek(); return p < s.size() && (isdigit((unsigned char)ch) || ch == '.' || ch == '[' || ch == '('); }
    auto cat() -> ReP
    {
        auto a = rep();
        while (starts())
            a = std::make_shared<Re>(Re{Re::Cat, {}, {a, rep()}});
        return a;
    }
    auto rep() -> ReP
    {
        auto a = atom();
        auto mk = [&](ll lo, ll hi) { auto n = std::make_shared<Re>(Re{Re::Rep, {}, {a}}); n->lo = lo; n->hi = hi; return n; };
        if (eat('*'))
            return mk(0, -1);
        if (eat('+'))
            return mk(1, -1);
        if (eat('?'))
            return mk(0, 1);
        if (eat('{')) {
            ll n = number();
            if (eat('}'))
                return mk(n, n);
            if (! eat(','))
                throw 1;
            if (eat('}'))
                return mk(n, -1);
            ll m = number();
            if (! eat('}') || m < n)
                throw 1;
            return mk(n, m);
        }
        return a;
    }
    auto atom() -> ReP
    {
        auto n = std::make_shared<Re>(Re{Re::Sym, {}, {}});
        if (eat('.')) {
            n->syms = alphabet;
            return n;
        }
        if (eat('(')) {
            auto a = alt();
            if (! eat(')'))
                throw 1;
            return a;
        }
        if (eat('[')) {
            bool neg = eat('^');
            std::set<ll> items;
            do {
                ll a = number();
                ll b = a;
                if (eat('-'))
                    b = number();
                if (b < a)
                    std::swap(a, b);
                for (ll v = a; v <= b; ++v)
                    items.insert(v);
            } while (peek() != ']' && p < s.size());
            if (! eat(']'))
                throw 1;
            if (! neg)
                n->syms = items;
            else
                for (auto v : alphabet)
                    if (! items.contains(v))
                        n->syms.insert(v);
            return n;
        }
        n->syms.insert(number());
        return n;
    }
};

// ends of matches as a bitset over positions
static auto match(const Re & e, const vector<ll> & w, std::set<size_t> from) -> std::set<size_t>
{
    std::set<size_t> out;
    switch (e.k) {
    case Re::Sym:
        for (auto i : from)
            if (i < w.size() && e.syms.contains(w[i]))
                out.insert(i + 1);
        return out;
    case Re::Cat: return match(*e.kids[1], w, match(*e.kids[0], w, from));
    case Re::Alt: {
        out = match(*e.kids[0], w, from);
        auto b = match(*e.kids[1], w, from);
        out.insert(b.begin(), b.end());
        return out;
    }
    case Re::Rep: {
        auto cur = from;
        for (ll i = 0; i < e.lo; ++i)
            cur = match(*e.kids[0], w, cur);
        out = cur;
        for (ll i = e.lo; e.hi < 0 || i < e.hi; ++i) {
            cur = match(*e.kids[0], w, cur);
            auto before = out.size();
            out.insert(cur.begin(), cur.end());
            if (out.size() == before)
                break;
        }
        return out;
    }
    }
    return out;
}

static auto random_regex(Rng & r, int depth, ll maxsym) -> string
{
    auto sp = [&]() -> string { return r.chance(1, 10) ? (r.chance(1, 2) ? " " : "\t") : ""; };
    auto sym = [&]() { return std::to_string(r.range(0, maxsym)); };
    auto atom = [&](auto & self, int d) -> string {
        switch (r.range(0, d > 0 ? 5 : 3)) {
        case 0:
        case 1: return " " + sym() + " ";
        case 2: return ".";
        case 3: {
            string s = r.chance(1, 3) ? "[^" : "[";
            int n = r.range(1, 3);
            for (int i = 0; i < n; ++i)
                s += (i ? " " : "") + sym() + (r.chance(1, 2) ? sp() + "-" + sp() + sym() : "");
            return s + sp() + "]";
        }
        default: return "(" + sp() + random_regex(r, d - 1, maxsym) + ")";
        }
    };
    string s;
    int alts = r.chance(1, 3) ? 2 : 1;
    for (int a = 0; a < alts; ++a) {
        if (a)
            s += "|";
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            s += atom(atom, depth) + sp();
            switch (r.range(0, 9)) {
            case 0: s += "*"; break;
            case 1: s += "+"; break;
            case 2: s += "?"; break;
            case 3: s += "{" + std::to_string(r.range(0, 3)) + "}"; break;
            case 4: s += "{" + sp() + std::to_string(r.range(0, 2)) + "," + sp() + "}"; break;
            case 5: { ll n = r.range(0, 2); s += "{" + std::to_string(n) + "," + std::to_string(n + r.range(0, 2)) + "}"; break; }
            default: break;
            }
        }
    }
    return s;
}
}
#endif

// Monitors for the value layer: checked integers, bounds arithmetic, interval
// sets, interval trees, views / conditions / literals / linear expressions.
#include "vh.hh"
#include <gcs/array_param.hh>
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/innards/product_bounds.hh>
#include <gcs/constraints/linear/utils.hh>
#include <gcs/expression.hh>
#include <gcs/innards/integer_overflow.hh>
#include <gcs/innards/interval_tree.hh>
#include <gcs/innards/literal.hh>
#include <gcs/innards/power.hh>
#include <gcs/innards/proofs/bits_encoding.hh>
#include <gcs/innards/state.hh>
#include <gcs/innards/variable_id_utils.hh>
#include <gcs/integer.hh>
#include <gcs/interval_set.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>
#include <format>
#include <optional>
#include <unordered_set>

using namespace gcs;
using namespace gcs::innards;
using namespace vh;
using i128 = __int128;
using std::optional;

static const ll MX = std::numeric_limits<ll>::max(), MN = std::numeric_limits<ll>::min();

static auto s128(i128 v) -> string
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    string r;
    while (u) {
        r += char('0' + int(u % 10));
        u /= 10;
    }
    if (neg)
        r += '-';
    std::reverse(r.begin(), r.end());
    return r;
}

static auto hostile(Rng & r) -> ll
{
    switch (r.range(0, 9)) {
    case 0: return MX - r.range(0, 3);
    case 1: return MN + r.range(0, 3);
    case 2: return r.range(-3, 3);
    case 3: { int k = r.range(0, 62); ll v = (ll)(1ULL << k); ll d = r.range(-2, 2); return r.chance(1, 2) ? v + (v > MX - 3 ? 0 : d) : -v + (d < 0 ? 0 : d); }
    case 4: return (ll)r.next();
    case 5: return (ll)(r.next() >> r.range(1, 62)) * (r.chance(1, 2) ? 1 : -1);
    case 6: { ll q = 3037000499LL + r.range(-3, 3); return r.chance(1, 2) ? q : -q; }
    case 7: return r.range(-100, 100);
    case 8: { ll q = MX / r.range(1, 1000) + r.range(-2, 0); return r.chance(1, 2) ? q : -q; }
    default: return r.range(-1000000, 1000000);
    }
}

static auto fits(i128 v) -> bool { return v >= MN && v <= MX; }

// exact result, or a throw when (and only when) exact does not fit
template <typename F>
static auto exact_or_throw(const string & what, optional<i128> exact, F && f) -> void
{
    bool threw = false;
    ll got = 0;
    try {
        got = f().raw_value;
    }
    catch (const IntegerOverflow &) {
        threw = true;
    }
    bool representable = exact && fits(*exact);
    if (representable) {
        the_ctx->count("exact");
        VH_CHECK(! threw, "integer-spurious-throw", what << " threw although the result " << s128(*exact) << " is representable");
        VH_CHECK((i128)got == *exact, "integer-wrong", what << " gave " << got << " expected " << s128(*exact));
    }
    else {
        the_ctx->count("overflowed");
        VH_CHECK(threw, "integer-silent-overflow", what << " gave " << got << " instead of throwing");
    }
}

static auto op_case(Ctx & c, Rng & r) -> void
{
    for (int rep = 0; rep < 200; ++rep) {
        ll a = hostile(r), b = hostile(r);
        if (r.chance(1, 8))
            b = a;
        if (r.chance(1, 8))
            b = a == MN ? MN : -a;
        if (r.chance(1, 10))
            b = a == 0 ? 1 : static_cast<ll>(static_cast<unsigned long long>(MX / a) + static_cast<unsigned long long>(r.range(-1, 1)));
        string ab = std::to_string(a) + "," + std::to_string(b);
        if (rep % 32 == 0)
            c.describe("integer ops on " + ab);
        c.nontrivial(ab);
        Integer A{a}, B{b};
        exact_or_throw("a+b " + ab, (i128)a + b, [&] { return A + B; });
        exact_or_throw("a-b " + ab, (i128)a - b, [&] { return A - B; });
        exact_or_throw("a*b " + ab, (i128)a * b, [&] { return A * B; });
        exact_or_throw("a/b " + ab, b == 0 ? optional<i128>{} : optional<i128>{(i128)a / b}, [&] { return A / B; });
        // min % -1 is mathematically 0, but documented to be refused like the division
        exact_or_throw("a%b " + ab, b == 0 || (a == MN && b == -1) ? optional<i128>{} : optional<i128>{(i128)a % b}, [&] { return A % B; });
        exact_or_throw("-a " + ab, -(i128)a, [&] { return -A; });
        exact_or_throw("abs " + ab, a < 0 ? -(i128)a : (i128)a, [&] { return abs(A); });
        exact_or_throw("a+=b " + ab, (i128)a + b, [&] { auto x = A; x += B; return x; });
        exact_or_throw("a-=b " + ab, (i128)a - b, [&] { auto x = A; x -= B; return x; });
        exact_or_throw("++a " + ab, (i128)a + 1, [&] { auto x = A; return ++x; });
        exact_or_throw("--a " + ab, (i128)a - 1, [&] { auto x = A; return --x; });
        exact_or_throw("a++ " + ab, (i128)a + 1, [&] { auto x = A; auto o = x++; if (o != A) return Integer{a == 12345 ? 1 : 12345}; return x; });
        exact_or_throw("a-- " + ab, (i128)a - 1, [&] { auto x = A; auto o = x--; if (o != A) return Integer{a == 12345 ? 1 : 12345}; return x; });
        VH_CHECK((A < B) == (a < b) && (A <= B) == (a <= b) && (A == B) == (a == b) && (A > B) == (a > b) && (A >= B) == (a >= b) && (A != B) == (a != b), "integer-compare", "comparison disagrees on " << ab);
        VH_CHECK(A.to_string() == std::to_string(a), "integer-string", "to_string of " << a << " is " << A.to_string());
        std::ostringstream o;
        o << A;
        VH_CHECK(o.str() == std::to_string(a) && std::format("{}", A) == o.str(), "integer-string", "formatting of " << a << " is " << o.str());
        VH_CHECK(a != b || std::hash<Integer>{}(A) == std::hash<Integer>{}(B), "integer-hash", "equal values hash differently");
        long long out = 777;
        bool ov = mul_overflows<long long>(a, b, &out);
        VH_CHECK(ov == ! fits((i128)a * b) && (ov || (i128)out == (i128)a * b), "overflow-helper", "mul_overflows on " << ab);
        ov = add_overflows<long long>(a, b, &out);
        VH_CHECK(ov == ! fits((i128)a + b) && (ov || (i128)out == (i128)a + b), "overflow-helper", "add_overflows on " << ab);
        ov = sub_overflows<long long>(a, b, &out);
        VH_CHECK(ov == ! fits((i128)a - b) && (ov || (i128)out == (i128)a - b), "overflow-helper", "sub_overflows on " << ab);
        {
            ull ua = a, ub = b, uo = 0;
            bool o2 = mul_overflows<ull>(ua, ub, &uo);
            unsigned __int128 e = (unsigned __int128)ua * ub;
            VH_CHECK(o2 == (e > std::numeric_limits<ull>::max()) && (o2 || uo == e), "overflow-helper", "unsigned mul_overflows on " << ab);
            int ia = (int)a, ib = (int)b, io = 0;
            bool o3 = mul_overflows<int>(ia, ib, &io);
            ll e3 = (ll)ia * ib;
            VH_CHECK(o3 == (e3 > INT_MAX || e3 < INT_MIN) && (o3 || io == e3), "overflow-helper", "int mul_overflows on " << ab);
        }
    }
    c.sample("checked operators on boundary and random pairs, 200 pairs per case");
}

static auto ifdiv(i128 a, i128 b) -> i128
{
    i128 q = a / b;
    if (a % b != 0 && ((a < 0) != (b < 0)))
        --q;
    return q;
}
static auto icdiv(i128 a, i128 b) -> i128 { return -ifdiv(-a, b); }

static auto ipow(ll base, ll e) -> optional<i128>
{
    // reference for the documented semantics, without overflow
    if (e == 0)
        return 1;
    if (e < 0) {
        if (base == 0)
            return {};
        if (base == 1)
            return 1;
        if (base == -1)
            return (e % 2 == 0) ? 1 : -1;
        return 0;
    }
    if (base == 0 || base == 1)
        return base;
    if (base == -1)
        return e % 2 == 0 ? 1 : -1;
    i128 r = 1;
    for (ll i = 0; i < e; ++i) {
        r *= base;
        if (! fits(r))
            return {};
    }
    return r;
}

// exact; an overflow exception is only excusable when an intermediate magnitude can leave 64 bits
template <typename F>
static auto exact_unless_extreme(const string & what, i128 exact, bool extreme, F && f) -> void
{
    try {
        ll got = f().raw_value;
        VH_CHECK((i128)got == exact, "bounds-wrong", what << " gave " << got << " expected " << s128(exact));
        the_ctx->count("exact");
    }
    catch (const IntegerOverflow & e) {
        the_ctx->count("overflowed");
        VH_CHECK(extreme, "bounds-spurious-throw", what << " threw " << e.what() << " although nothing leaves the 64 bit range");
    }
}

static auto arith_case(Ctx & c, Rng & r) -> void
{
    for (int rep = 0; rep < 120; ++rep) {
        bool small = r.chance(1, 2);
        auto val = [&]() -> ll { return small ? r.range(-12, 12) : hostile(r); };
        ll a = val(), b = val();
        string ab = std::to_string(a) + "," + std::to_string(b);
        if (rep % 16 == 0)
            c.describe("bounds arithmetic near " + ab);
        c.nontrivial(ab);
        bool ex = a == MN || b == MN;
        if (b != 0) {
            exact_unless_extreme("div_floor " + ab, ifdiv(a, b), ex, [&] { return div_floor(Integer{a}, Integer{b}); });
            exact_unless_extreme("div_ceil " + ab, icdiv(a, b), ex, [&] { return div_ceil(Integer{a}, Integer{b}); });
        }
        // isqrt
        ll n = a < 0 ? (a == MN ? MX : -a) : a;
        {
            auto rt = isqrt(Integer{n}).raw_value;
            VH_CHECK(rt >= 0 && (i128)rt * rt <= n && (i128)(rt + 1) * (rt + 1) > n, "isqrt-wrong", "isqrt(" << n << ") = " << rt);
            exact_unless_extreme("ceil_isqrt " + std::to_string(n), (i128)rt * rt == n ? rt : rt + 1, false, [&] { return ceil_isqrt(Integer{n}); });
        }
        // power
        {
            ll base = r.chance(2, 3) ? r.range(-12, 12) : hostile(r), e = r.chance(2, 3) ? r.range(-4, 66) : hostile(r);
            if (e > 200 && base != 0 && base != 1 && base != -1)
                e = e % 100 + 64;
            auto want = ipow(base, e);
            auto got = checked_integer_power(Integer{base}, Integer{e});
            VH_CHECK(got.has_value() == want.has_value() && (! got || (i128)got->raw_value == *want), "power-wrong",
                base << "^" << e << " gave " << (got ? std::to_string(got->raw_value) : "none") << " expected " << (want ? s128(*want) : "none"));
            ll p = r.range(-2, 66);
            bool threw = false;
            ll v = 0;
            try {
                v = power2(Integer{p}).raw_value;
            }
            catch (const std::exception &) {
                threw = true;
            }
            VH_CHECK(threw == (p < 0 || p > 62) && (threw || v == (ll)(1ULL << p)), "power2-wrong", "power2(" << p << ") = " << v << (threw ? " threw" : ""));
        }
        // products of boxes
        ll x1 = val(), x2 = val(), y1 = val(), y2 = val();
        if (x1 > x2)
            std::swap(x1, x2);
        if (y1 > y2)
            std::swap(y1, y2);
        {
            i128 cs[4] = {(i128)x1 * y1, (i128)x1 * y2, (i128)x2 * y1, (i128)x2 * y2};
            i128 lo = *std::min_element(cs, cs + 4), hi = *std::max_element(cs, cs + 4);
            try {
                auto [l, h] = product_bounds(Integer{x1}, Integer{x2}, Integer{y1}, Integer{y2});
                VH_CHECK((i128)l.raw_value == lo && (i128)h.raw_value == hi, "bounds-wrong", "product_bounds [" << x1 << "," << x2 << "]*[" << y1 << "," << y2 << "] gave " << l << ".." << h);
            }
            catch (const IntegerOverflow &) {
                VH_CHECK(! fits(lo) || ! fits(hi), "bounds-spurious-throw", "product_bounds threw on [" << x1 << "," << x2 << "]*[" << y1 << "," << y2 << "]");
            }
            i128 s1 = (i128)x1 * x1, s2 = (i128)x2 * x2;
            i128 sl = (x1 <= 0 && 0 <= x2) ? 0 : std::min(s1, s2), sh = std::max(s1, s2);
            try {
                auto [l, h] = square_bounds(Integer{x1}, Integer{x2});
                VH_CHECK((i128)l.raw_value == sl && (i128)h.raw_value == sh, "bounds-wrong", "square_bounds [" << x1 << "," << x2 << "] gave " << l << ".." << h);
            }
            catch (const IntegerOverflow &) {
                VH_CHECK(! fits(sh), "bounds-spurious-throw", "square_bounds threw on [" << x1 << "," << x2 << "]");
            }
        }
        auto pr = product_if_representable(Integer{a}, Integer{b});
        VH_CHECK(pr.has_value() == fits((i128)a * b) && (! pr || (i128)pr->raw_value == (i128)a * b), "product-representable", "product_if_representable " << ab);
        // square_filter: small boxes by enumeration, with optional large shift handled by formula
        {
            ll xl = r.range(-14, 14), xh = xl + r.range(0, 12), zl = r.range(-30, 200), zh = zl + r.range(0, 60);
            optional<ll> lo, hi;
            for (ll x = xl; x <= xh; ++x)
                if (x * x >= zl && x * x <= zh) {
                    if (! lo)
                        lo = x;
                    hi = x;
                }
            auto [l, h] = square_filter(Integer{xl}, Integer{xh}, Integer{zl}, Integer{zh});
            c.nontrivial("sf" + std::to_string(xl) + "," + std::to_string(xh) + "," + std::to_string(zl) + "," + std::to_string(zh));
            // never outside what it says for supported values
            VH_CHECK(! lo || (l.raw_value <= *lo && h.raw_value >= *hi), "square-filter-unsound", "square_filter x " << xl << ".." << xh << " z " << zl << ".." << zh << " gave " << l << ".." << h << " dropping a supported value");
            VH_CHECK(lo ? (l.raw_value == *lo && h.raw_value == *hi) : true, "square-filter-hull", "square_filter x " << xl << ".." << xh << " z " << zl << ".." << zh << " gave " << l << ".." << h << " hull " << lo.value_or(0) << ".." << hi.value_or(0));
            if (! lo && zh < 0)
                VH_CHECK(l > h, "square-filter-hull", "square_filter with negative z must be empty");
        }
        // quotient_filter: sound, and useful where the documentation says what it derives
        {
            ll yl = r.range(-7, 7), yh = yl + r.range(0, 7), zl = r.range(-40, 40), zh = zl + r.range(0, 15);
            auto q = quotient_filter(Integer{yl}, Integer{yh}, Integer{zl}, Integer{zh});
            using Kind = QuotientFilter::Kind;
            optional<ll> lo, hi;
            for (ll x = -60; x <= 60; ++x)
                for (ll y = yl; y <= yh; ++y)
                    if (x * y >= zl && x * y <= zh) {
                        lo = lo ? std::min(*lo, x) : x;
                        hi = hi ? std::max(*hi, x) : x;
                    }
            string d = "quotient_filter y " + std::to_string(yl) + ".." + std::to_string(yh) + " z " + std::to_string(zl) + ".." + std::to_string(zh);
            c.nontrivial(d);
            bool anyx = yl <= 0 && yh >= 0 && zl <= 0 && zh >= 0;
            if (q.kind == Kind::NoFilter)
                c.count("quotient_nofilter");
            else if (q.kind == Kind::EmptyBecauseYZero)
                VH_CHECK(! lo, "quotient-unsound", d << " says empty but x=" << *lo << " is supported");
            else {
                c.count("quotient_bounds");
                VH_CHECK(! anyx, "quotient-unsound", d << " gives bounds although every x is supported");
                VH_CHECK(! lo || (q.lo.raw_value <= *lo && q.hi.raw_value >= *hi), "quotient-unsound", d << " gave " << q.lo << ".." << q.hi << " but " << *lo << ".." << *hi << " is supported");
                // magnitude bound: |x| cannot exceed max |z| when y excludes 0 products
                ll m = std::max(std::llabs(zl), std::llabs(zh));
                VH_CHECK(q.lo > q.hi || (q.lo.raw_value >= -m && q.hi.raw_value <= m), "quotient-weak", d << " gave " << q.lo << ".." << q.hi << ", wider than the symmetric bound " << m);
            }
            if (! anyx)
                VH_CHECK(q.kind != Kind::NoFilter, "quotient-weak", d << " gives no filter although x is bounded");
        }
        // affine decomposition
        {
            SimpleIntegerVariableID sv{static_cast<ull>(r.range(0, 5))};
            ll off = r.range(-20, 20), x = r.range(-20, 20);
            bool neg = r.chance(1, 2);
            IntegerVariableID v = r.chance(1, 4) ? IntegerVariableID{ConstantIntegerVariableID{Integer{off}}} : r.chance(1, 3) ? IntegerVariableID{sv}
                                                                                                                             : IntegerVariableID{ViewOfIntegerVariableID{sv, neg, Integer{off}}};
            auto f = affine_of(v);
            ll want = std::holds_alternative<ConstantIntegerVariableID>(v) ? off : std::holds_alternative<SimpleIntegerVariableID>(v) ? x
                                                                                                                                        : (neg ? -x : x) + off;
            ll got = (f.var ? f.coeff.raw_value * x : 0) + f.offset.raw_value;
            VH_CHECK(got == want && (! f.var || *f.var == sv), "affine-wrong", "affine_of " << debug_string(v) << " evaluates to " << got << " not " << want);
        }
    }
    c.sample("div_floor/div_ceil/isqrt/power/product/square/quotient filters against 128-bit and brute-force references");
}

// ---------------------------------------------------------------- bits
static auto bits_case(Ctx & c, Rng & r) -> void
{
    for (int rep = 0; rep < 200; ++rep) {
        ll lo, hi;
        bool small = r.chance(1, 2);
        if (small) {
            lo = r.range(-40, 40);
            hi = lo + r.range(0, 50);
        }
        else {
            lo = hostile(r);
            hi = hostile(r);
            if (lo > hi)
                std::swap(lo, hi);
        }
        string d = std::to_string(lo) + ".." + std::to_string(hi);
        c.nontrivial(d);
        if (rep % 32 == 0)
            c.describe("bits " + d);
        bool fitsb = bits_encoding_fits(Integer{lo}, Integer{hi});
        bool threw = false;
        Integer sh{0}, hc{0}, nc{0};
        try {
            std::tie(sh, hc, nc) = get_bits_encoding_coeffs(Integer{lo}, Integer{hi});
        }
        catch (const std::exception &) {
            threw = true;
        }
        VH_CHECK(fitsb == ! threw, "bits-fit-disagrees", "bits_encoding_fits(" << d << ") = " << fitsb << " but computing it " << (threw ? "throws" : "works"));
        // whether an encoding exists is a fact about the range: 62 magnitude bits and a sign bit of -2^62 reach -2^62 .. 2^63-1 if non-negative
        bool should = lo >= 0 ? true : (lo >= -(1LL << 62) && hi < (1LL << 62));
        VH_CHECK(fitsb == should, "bits-fit-wrong", "bits_encoding_fits(" << d << ") = " << fitsb);
        if (threw) {
            c.count("unencodable");
            continue;
        }
        c.count("encoded");
        int k = static_cast<int>(sh.raw_value) + 1; // number of magnitude bits
        VH_CHECK(k >= 0 && k <= 63, "bits-wrong", "bits " << d << " gives " << k << " magnitude bits");
        VH_CHECK(hc.raw_value == (k == 0 ? 0 : (ll)(1ULL << (k - 1))), "bits-wrong", "bits " << d << " top coefficient " << hc << " for shift " << sh);
        i128 maxv = ((i128)1 << k) - 1;
        i128 minv = nc.raw_value;
        VH_CHECK(nc.raw_value <= 0, "bits-wrong", "bits " << d << " sign coefficient " << nc);
        VH_CHECK(lo < 0 ? minv <= lo : minv == 0, "bits-range", "bits " << d << ": lowest value " << s128(minv));
        VH_CHECK(maxv >= hi, "bits-range", "bits " << d << ": highest value " << s128(maxv));
        if (lo < 0) {
            // contiguous and unique: the sign bit weighs exactly one more than the magnitude bits can reach
            VH_CHECK(-minv == maxv + 1, "bits-contiguous", "bits " << d << ": sign " << s128(minv) << " magnitude max " << s128(maxv));
        }
        // tight: one bit fewer would not do
        if (k > 0) {
            i128 m2 = ((i128)1 << (k - 1)) - 1;
            VH_CHECK(m2 < hi || (lo < 0 && -(m2 + 1) > lo), "bits-tight", "bits " << d << " uses " << k << " bits, one more than needed");
        }
        if (small) {
            for (ll v = lo; v <= hi; ++v) {
                int ways = 0;
                for (int neg = 0; neg <= (nc.raw_value != 0 ? 1 : 0); ++neg)
                    for (ll m = 0; m <= (ll)maxv; ++m)
                        if ((neg ? nc.raw_value : 0) + m == v)
                            ++ways;
                VH_CHECK(ways == 1, "bits-unique", "value " << v << " of " << d << " has " << ways << " encodings");
            }
        }
    }
    c.sample("bit encodings of ranges, small ranges decoded exhaustively");
}

// ---------------------------------------------------------------- interval sets
static auto render(const IntervalSet<Integer> & s) -> string
{
    string o;
    for (auto [l, u] : s.each_interval())
        o += "[" + l.to_string() + "," + u.to_string() + "]";
    return o;
}

static auto check_set(const IntervalSet<Integer> & s, const std::set<ll> & m, ll base, const string & trace) -> void
{
    VH_CHECK(s.empty() == m.empty(), "set-empty", trace << " -> " << render(s));
    VH_CHECK(s.size().raw_value == (ll)m.size(), "set-size", trace << " -> size " << s.size() << " of " << render(s) << " model " << join(m));
    vector<ll> mv(m.begin(), m.end()), got;
    for (auto v : s.each())
        got.push_back(v.raw_value);
    VH_CHECK(got == mv, "set-contents", trace << " -> " << render(s) << " model " << join(m));
    got.clear();
    for (auto v : s.each_reversed())
        got.push_back(v.raw_value);
    std::reverse(got.begin(), got.end());
    VH_CHECK(got == mv, "set-reversed", trace << " -> reversed " << join(got) << " model " << join(m));
    got.clear();
    s.for_each([&](Integer v) { got.push_back(v.raw_value); });
    VH_CHECK(got == mv, "set-foreach", trace);
    if (! mv.empty()) {
        size_t stop = mv.size() / 2;
        vector<ll> part;
        s.for_each([&](Integer v) -> bool { part.push_back(v.raw_value); return part.size() < stop + 1; });
        VH_CHECK(part == vector<ll>(mv.begin(), mv.begin() + std::min(stop + 1, mv.size())), "set-foreach-stop", trace << " -> " << join(part));
        VH_CHECK(s.lower().raw_value == mv.front() && s.upper().raw_value == mv.back(), "set-bounds", trace << " -> " << render(s));
    }
    // canonical maximal intervals
    optional<ll> prev;
    size_t n = 0;
    for (auto [l, u] : s.each_interval()) {
        ++n;
        VH_CHECK(l <= u, "set-canonical", trace << " -> " << render(s));
        if (prev)
            VH_CHECK(l.raw_value > *prev + 1, "set-canonical", trace << " -> adjacent or overlapping intervals " << render(s));
        prev = u.raw_value;
    }
    vector<ll> gaps, wantgaps, gapi;
    for (auto v : s.each_gap())
        gaps.push_back(v.raw_value);
    for (auto [a, b] : s.each_gap_interval())
        for (ll v = a.raw_value; v != b.raw_value; ++v)
            gapi.push_back(v);
    if (! mv.empty())
        for (ll v = mv.front(); v <= mv.back(); ++v)
            if (! m.contains(v))
                wantgaps.push_back(v);
    VH_CHECK(gaps == wantgaps && gapi == wantgaps, "set-gaps", trace << " -> gaps " << join(gaps) << " / " << join(gapi) << " of " << render(s));
    VH_CHECK(s.has_holes() == ! wantgaps.empty(), "set-holes", trace << " -> has_holes " << s.has_holes() << " of " << render(s));
    for (ll v = base - 3; v <= base + 45; ++v)
        VH_CHECK(s.contains(Integer{v}) == m.contains(v), "set-contains", trace << " -> contains(" << v << ") on " << render(s));
}

static auto make_set(Rng & r, ll base, IntervalSet<Integer> & s, std::set<ll> & m, string & d) -> void
{
    s.clear();
    m.clear();
    ll at = base + r.range(0, 6);
    int n = r.range(0, 6);
    for (int i = 0; i < n && at < base + 40; ++i) {
        ll w = r.range(0, 6);
        ll hi = std::min(at + w, base + 40);
        if (w == 0 && r.chance(1, 2))
            s.insert_at_end(Integer{at});
        else
            s.insert_at_end(Integer{at}, Integer{hi});
        for (ll v = at; v <= hi; ++v)
            m.insert(v);
        d += "+" + std::to_string(at) + ".." + std::to_string(hi);
        // sometimes exactly adjacent, so it must merge; sometimes starting at the
        // value already last, which the documented precondition allows
        at = r.chance(1, 8) ? hi : hi + 1 + (r.chance(1, 4) ? 0 : r.range(0, 4));
    }
}

static auto intervalset_case(Ctx & c, Rng & r) -> void
{
    ll base = r.chance(1, 8) ? MX - 60 : r.chance(1, 8) ? MN + 60
                                                        : r.range(-40, 40);
    IntervalSet<Integer> s;
    std::set<ll> m;
    string trace;
    if (r.chance(1, 3)) {
        ll l = base + r.range(0, 10), u = l + r.range(0, 25);
        s = IntervalSet<Integer>{Integer{l}, Integer{u}};
        for (ll v = l; v <= u; ++v)
            m.insert(v);
        trace = "range " + std::to_string(l) + ".." + std::to_string(u);
    }
    else
        make_set(r, base, s, m, trace);
    check_set(s, m, base, trace);
    int ops = r.range(3, 14);
    for (int i = 0; i < ops; ++i) {
        ll v = base + r.range(-2, 42);
        // aim at interval edges often
        if (! m.empty() && r.chance(1, 2)) {
            auto it = m.begin();
            std::advance(it, r.range(0, (ll)m.size() - 1));
            v = *it + r.range(-1, 1);
        }
        switch (r.range(0, 8)) {
        case 0:
        case 1:
            trace += " erase " + std::to_string(v);
            s.erase(Integer{v});
            m.erase(v);
            break;
        case 2:
        case 3: {
            ll w = v + r.range(-1, 8);
            trace += " erase " + std::to_string(v) + ".." + std::to_string(w);
            s.erase_range(Integer{v}, Integer{w});
            for (ll x = v; x <= w; ++x)
                m.erase(x);
            break;
        }
        case 4:
            if (r.chance(1, 2))
                break;
            v = base + r.range(-2, 20);
            trace += " less " + std::to_string(v);
            s.erase_less_than(Integer{v});
            m.erase(m.begin(), m.lower_bound(v));
            break;
        case 5:
            if (r.chance(1, 2))
                break;
            v = base + r.range(20, 42);
            trace += " greater " + std::to_string(v);
            s.erase_greater_than(Integer{v});
            m.erase(m.upper_bound(v), m.end());
            break;
        case 6: {
            IntervalSet<Integer> t;
            std::set<ll> tm;
            string d;
            make_set(r, base, t, tm, d);
            vector<ll> got, want;
            for (auto [a, b] : s.each_interval_minus(t)) {
                VH_CHECK(a <= b, "set-minus", trace << " minus {" << d << "} yields an empty interval");
                for (ll x = a.raw_value; x <= b.raw_value; ++x)
                    got.push_back(x);
            }
            bool any = false;
            for (ll x : m)
                if (tm.contains(x))
                    any = true;
                else
                    want.push_back(x);
            VH_CHECK(got == want, "set-minus", trace << " minus {" << d << "} gave " << join(got) << " expected " << join(want));
            VH_CHECK(s.contains_any_of(t) == any && t.contains_any_of(s) == any, "set-intersects", trace << " contains_any_of {" << d << "}");
            if (r.chance(1, 2)) {
                trace += " intersect {" + d + "}";
                s.intersect_with(t);
                std::erase_if(m, [&](ll x) { return ! tm.contains(x); });
            }
            break;
        }
        case 7: {
            ll at = m.empty() ? base : *m.rbegin() + r.range(0, 3);
            if (at > base + 44)
                break;
            ll hi = at + r.range(0, 2);
            trace += " append " + std::to_string(at) + ".." + std::to_string(hi);
            if (r.chance(1, 2))
                s.insert_at_end(Integer{at}, Integer{hi});
            else
                for (ll x = at; x <= hi; ++x)
                    s.insert_at_end(Integer{x});
            for (ll x = at; x <= hi; ++x)
                m.insert(x);
            break;
        }
        case 8: {
            auto copy = s;
            VH_CHECK(true, "", "");
            copy.erase(Integer{v});
            auto moved = std::move(copy);
            std::set<ll> mm = m;
            mm.erase(v);
            check_set(moved, mm, base, trace + " [copy] erase " + std::to_string(v));
            break;
        }
        }
        c.describe(trace);
        check_set(s, m, base, trace);
        c.nontrivial(render(s));
    }
    c.count("operations", ops);
    if (c.current_case % 97 == 0)
        c.sample(trace + " -> " + render(s));
}

// ---------------------------------------------------------------- interval tree
static auto tree_case(Ctx & c, Rng & r) -> void
{
    IntervalTree t;
    std::set<std::pair<ll, ll>> m;
    int n = r.range(1, r.chance(1, 4) ? 300 : 40);
    ll span = r.chance(1, 3) ? 8 : r.chance(1, 2) ? 40
                                                   : 1000000;
    int order = r.range(0, 3);
    vector<std::pair<ll, ll>> ins;
    for (int i = 0; i < n; ++i) {
        ll a = r.range(-span, span), b = a + (r.chance(1, 3) ? 0 : r.range(0, span));
        if (r.chance(1, 60)) {
            a = MN;
            b = r.chance(1, 2) ? MX : b;
        }
        ins.emplace_back(a, std::max(a, b));
        if (r.chance(1, 8))
            ins.push_back(r.pick(ins));
    }
    if (order == 0)
        std::sort(ins.begin(), ins.end());
    else if (order == 1)
        std::sort(ins.rbegin(), ins.rend());
    c.describe("interval tree, n=" + std::to_string(n) + " span=" + std::to_string(span) + " order=" + std::to_string(order));
    size_t k = 0;
    string sig;
    for (auto [a, b] : ins) {
        t.insert(Integer{a}, Integer{b});
        m.emplace(a, b);
        if (++k % 5 && k != ins.size())
            continue;
        for (int q = 0; q < 12; ++q) {
            ll x = r.range(-span - 1, span + 1), y = x + (r.chance(1, 3) ? 0 : r.range(0, span));
            if (r.chance(1, 2)) {
                auto p = r.pick(ins);
                x = p.first == MN ? MN : p.first + r.range(-1, 1);
                y = p.second == MX ? MX : std::max(x, p.second + r.range(-1, 1));
            }
            vector<std::pair<ll, ll>> got, want;
            t.for_each_containing(Integer{x}, Integer{y}, [&](Integer p, Integer q) { got.emplace_back(p.raw_value, q.raw_value); });
            for (auto & i : m)
                if (i.first <= x && i.second >= y)
                    want.push_back(i);
            VH_CHECK(got == want, "tree-containing", "after " << k << " inserts, intervals containing [" << x << "," << y << "]: got " << got.size() << " expected " << want.size() << " (in increasing order)");
            if (! got.empty())
                c.count("containing_hits", got.size());
            got.clear();
            want.clear();
            t.for_each_contained_in(Integer{x}, Integer{y}, [&](Integer p, Integer q) { got.emplace_back(p.raw_value, q.raw_value); });
            for (auto & i : m)
                if (i.first >= x && i.second <= y)
                    want.push_back(i);
            VH_CHECK(got == want, "tree-contained", "after " << k << " inserts, intervals inside [" << x << "," << y << "]: got " << got.size() << " expected " << want.size() << " (in increasing order)");
            if (! got.empty())
                c.count("contained_hits", got.size());
            sig += std::to_string(want.size()) + ";";
        }
    }
    c.nontrivial(sig);
    if (c.current_case % 101 == 0)
        c.sample("tree of " + std::to_string(m.size()) + " intervals over +-" + std::to_string(span));
}

// ---------------------------------------------------------------- views & conditions & linear
struct V
{
    IntegerVariableID id;
    int base; // -1 for constant
    ll sign, off;
    auto eval(const vector<ll> & a) const -> ll { return (base < 0 ? 0 : sign * a[base]) + off; }
};

static auto random_view(Rng & r, int nvars) -> V
{
    int b = r.chance(1, 6) ? -1 : (int)r.range(0, nvars - 1);
    V v{b < 0 ? IntegerVariableID{ConstantIntegerVariableID{0_i}} : IntegerVariableID{SimpleIntegerVariableID{(ull)b}}, b, b < 0 ? 0 : 1, 0};
    if (b < 0) {
        ll k = r.range(-9, 9);
        v.id = constant_variable(Integer{k});
        v.off = k;
    }
    int ops = r.range(0, 5);
    for (int i = 0; i < ops; ++i) {
        ll o = r.range(-7, 7);
        switch (r.range(0, 2)) {
        case 0:
            v.id = v.id + Integer{o};
            v.off += o;
            break;
        case 1:
            v.id = v.id - Integer{o};
            v.off -= o;
            break;
        default:
            v.id = -v.id;
            v.sign = -v.sign;
            v.off = -v.off;
        }
    }
    return v;
}

static auto eval_id(const IntegerVariableID & id, const vector<ll> & a) -> ll
{
    if (auto * s = std::get_if<SimpleIntegerVariableID>(&id))
        return a.at(s->index);
    if (auto * s = std::get_if<ConstantIntegerVariableID>(&id))
        return s->const_value.raw_value;
    auto w = std::get<ViewOfIntegerVariableID>(id);
    return (w.negate_first ? -1 : 1) * a.at(w.actual_variable.index) + w.then_add.raw_value;
}

static auto holds(const IntegerVariableCondition & q, ll v) -> bool
{
    switch (q.op) {
        using enum VariableConditionOperator;
    case Equal: return v == q.value.raw_value;
    case NotEqual: return v != q.value.raw_value;
    case Less: return v < q.value.raw_value;
    case GreaterEqual: return v >= q.value.raw_value;
    case InRange: return v >= q.value.raw_value && v <= q.upper_value.raw_value;
    case NotInRange: return v < q.value.raw_value || v > q.upper_value.raw_value;
    }
    return false;
}

static auto views_case(Ctx & c, Rng & r) -> void
{
    const int n = 4;
    // a State with n real variables, to see what the live store says about the same expressions
    State st;
    vector<SimpleIntegerVariableID> vars;
    vector<std::pair<ll, ll>> dom;
    for (int i = 0; i < n; ++i) {
        ll l = r.range(-6, 6), h = l + r.range(0, 6);
        dom.emplace_back(l, h);
        vars.push_back(st.allocate_integer_variable_with_state(Integer{l}, Integer{h}));
        VH_CHECK(vars.back().index == (ull)i, "var-index", "variable index");
    }
    vector<V> vs;
    for (int i = 0; i < 12; ++i)
        vs.push_back(random_view(r, n));
    vector<ll> a(n);
    string sig;
    for (auto & v : vs) {
        sig += debug_string(v.id) + ";";
        for (int k = 0; k < 4; ++k) {
            for (int i = 0; i < n; ++i)
                a[i] = r.range(dom[i].first, dom[i].second);
            VH_CHECK(eval_id(v.id, a) == v.eval(a), "view-value", "view " << debug_string(v.id) << " evaluates to " << eval_id(v.id, a) << " not " << v.eval(a));
        }
        ll lo, hi;
        if (v.base < 0)
            lo = hi = v.off;
        else {
            lo = v.sign > 0 ? dom[v.base].first + v.off : -dom[v.base].second + v.off;
            hi = v.sign > 0 ? dom[v.base].second + v.off : -dom[v.base].first + v.off;
        }
        auto [bl, bh] = st.bounds(v.id);
        VH_CHECK(bl.raw_value == lo && bh.raw_value == hi, "view-bounds", "bounds of " << debug_string(v.id) << " are " << bl << ".." << bh << " not " << lo << ".." << hi);
        VH_CHECK(is_constant_variable(v.id) == (v.base < 0) && (v.base >= 0 || constant_value_of(v.id).raw_value == v.off), "view-constant", debug_string(v.id));
        // conditions over it
        for (int k = 0; k < 10; ++k) {
            ll val = r.range(lo - 2, hi + 2), up = val + r.range(0, 4);
            int op = r.range(0, 7);
            IntegerVariableCondition q = op == 0 ? (v.id == Integer{val}) : op == 1 ? (v.id != Integer{val})
                : op == 2                                                           ? (v.id < Integer{val})
                : op == 3                                                           ? (v.id >= Integer{val})
                : op == 4                                                           ? (v.id <= Integer{val})
                : op == 5                                                           ? (v.id > Integer{val})
                : op == 6                                                           ? in_range(v.id, Integer{val}, Integer{up})
                                                                                    : not_in_range(v.id, Integer{val}, Integer{up});
            auto want = [&](ll x) { return op == 0 ? x == val : op == 1 ? x != val
                                        : op == 2                       ? x < val
                                        : op == 3                       ? x >= val
                                        : op == 4                       ? x <= val
                                        : op == 5                       ? x > val
                                        : op == 6                       ? (x >= val && x <= up)
                                                                        : (x < val || x > up); };
            auto nq = ! q;
            auto nnq = ! nq;
            for (ll x = lo - 4; x <= hi + 8; ++x) {
                VH_CHECK(holds(q, x) == want(x), "condition-meaning", "op " << op << " value " << val << " on " << x);
                VH_CHECK(holds(nq, x) == ! want(x), "condition-negation", "negation of op " << op << " value " << val << ".." << up << " on " << x);
            }
            VH_CHECK(nnq == q, "condition-negation", "double negation changes op " << op << " value " << val);
            Literal lit{q};
            VH_CHECK(! (! lit) == lit, "literal-negation", "double negation of " << debug_string(lit));
            auto known = is_literally_true_or_false(lit);
            if (v.base < 0)
                VH_CHECK(known && *known == want(v.off), "literal-constant", debug_string(lit) << " classified wrongly");
            else
                VH_CHECK(! known, "literal-constant", debug_string(lit) << " claimed literally known");
            VH_CHECK(is_literally_true(lit) == (known && *known) && is_literally_false(lit) == (known && ! *known), "literal-constant", debug_string(lit));
            // the live store agrees
            bool all = true, none = true;
            for (ll x = lo; x <= hi; ++x)
                (want(x) ? none : all) = false;
            auto tl = st.test_literal(lit);
            VH_CHECK((tl == LiteralIs::DefinitelyTrue) == all && (tl == LiteralIs::DefinitelyFalse) == none, "literal-test", debug_string(lit) << " over " << lo << ".." << hi << " all=" << all << " none=" << none);
        }
    }
    VH_CHECK(is_literally_true(Literal{TrueLiteral{}}) && is_literally_false(Literal{FalseLiteral{}}) && ! Literal{TrueLiteral{}} == Literal{FalseLiteral{}} && ! Literal{FalseLiteral{}} == Literal{TrueLiteral{}}, "literal-constant", "true/false literals");
    bool threw = false;
    try {
        (void)in_range(vs[0].id, 3_i, 2_i);
    }
    catch (const InvalidProblemDefinitionException &) {
        threw = true;
    }
    VH_CHECK(threw, "condition-range", "in_range with lo > hi accepted");
    // equality is structural and consistent with hashing and ordering
    for (auto & x : vs)
        for (auto & y : vs) {
            if (x.id == y.id) {
                VH_CHECK(std::hash<IntegerVariableID>{}(x.id) == std::hash<IntegerVariableID>{}(y.id), "view-hash", debug_string(x.id));
                VH_CHECK(x.base == y.base && x.sign == y.sign && x.off == y.off, "view-equality", debug_string(x.id) << " compares equal to " << debug_string(y.id) << " but means something else");
            }
            VH_CHECK((x.id < y.id) + (y.id < x.id) + (x.id == y.id) == 1, "view-order", debug_string(x.id) << " and " << debug_string(y.id));
        }
    // homogeneous classification keeps every operand
    {
        vector<IntegerVariableID> ids;
        int m = r.range(0, 4);
        bool homog = r.chance(1, 2);
        auto kind = vs[0].id.index();
        for (int i = 0; i < m; ++i) {
            auto & v = r.pick(vs);
            if (! homog || v.id.index() == kind)
                ids.push_back(v.id);
        }
        auto h = as_homogeneous(ids);
        vector<IntegerVariableID> back;
        std::visit([&](const auto & q) { for (auto & e : q) back.push_back(e); }, h);
        VH_CHECK(back == ids, "homogeneous", "as_homogeneous changed the operands");
    }
    // linear expressions
    for (int k = 0; k < 6; ++k) {
        WeightedSum sum;
        vector<std::pair<ll, V>> terms;
        int m = r.range(0, 6);
        int coeffs = r.range(0, 2);
        for (int i = 0; i < m; ++i) {
            ll w = coeffs == 0 ? 1 : coeffs == 1 ? (r.chance(1, 2) ? 1 : -1)
                                                 : r.range(-4, 4);
            auto v = r.pick(vs);
            terms.emplace_back(w, v);
            if (r.chance(1, 2))
                sum += Integer{w} * v.id;
            else
                sum = sum + Integer{w} * v.id;
        }
        ll rhs = r.range(-20, 20);
        auto value = [&](const vector<ll> & as) { ll t = 0; for (auto & [w, v] : terms) t += w * v.eval(as); return t; };
        auto [tidied, modifier] = tidy_up_linear(sum);
        auto wv = Integer{r.range(-3, 3)} * r.pick(vs).id;
        auto le = sum <= Integer{rhs};
        auto ge = sum >= Integer{rhs};
        auto eq = sum == Integer{rhs};
        auto lew = sum <= wv;
        auto gew = sum >= wv;
        auto eqw = sum == wv;
        auto nle = negate_inequality(le);
        auto ev = [&](const WeightedSum & s, const vector<ll> & as) { ll t = 0; for (auto & [w, v] : s.terms) t += w.raw_value * eval_id(v, as); return t; };
        for (int q = 0; q < 6; ++q) {
            for (int i = 0; i < n; ++i)
                a[i] = r.range(dom[i].first, dom[i].second);
            ll truth = value(a);
            ll tid = 0;
            std::visit([&](const auto & s) {
                optional<ull> prev;
                for (auto & t : s.terms) {
                    auto var = get_var(t);
                    auto co = get_coeff(t);
                    VH_CHECK(co != 0_i && (! prev || *prev < var.index), "linear-canonical", "tidied sum has a zero coefficient or a repeated variable");
                    prev = var.index;
                    tid += co.raw_value * a[var.index];
                }
            },
                tidied);
            VH_CHECK(tid - modifier.raw_value == truth, "linear-tidy", "tidied value " << tid << " - " << modifier << " differs from " << truth);
            ll wval = wv.coefficient.raw_value * eval_id(wv.variable, a);
            VH_CHECK((ev(le.lhs, a) <= le.rhs.raw_value) == (truth <= rhs), "linear-le", "sum <= const");
            VH_CHECK((ev(ge.lhs, a) <= ge.rhs.raw_value) == (truth >= rhs), "linear-ge", "sum >= const");
            VH_CHECK((ev(eq.lhs, a) == eq.rhs.raw_value) == (truth == rhs), "linear-eq", "sum == const");
            VH_CHECK((ev(lew.lhs, a) <= lew.rhs.raw_value) == (truth <= wval), "linear-le", "sum <= term");
            VH_CHECK((ev(gew.lhs, a) <= gew.rhs.raw_value) == (truth >= wval), "linear-ge", "sum >= term");
            VH_CHECK((ev(eqw.lhs, a) == eqw.rhs.raw_value) == (truth == wval), "linear-eq", "sum == term");
            VH_CHECK((ev(nle.lhs, a) <= nle.rhs.raw_value) == ! (truth <= rhs), "linear-negate", "negated inequality");
        }
        // the tidied form's variant says something true about its coefficients
        c.count("linear_forms");
        c.count(string("linear_variant_") + std::to_string(tidied.index()));
    }
    // array parameters: owned, shared and borrowed all read back the same
    {
        vector<Integer> data;
        int m = r.range(0, 5);
        for (int i = 0; i < m; ++i)
            data.push_back(Integer{r.range(-5, 5)});
        VectorArrayParam<Integer> owned{data}, shared{std::make_shared<const vector<Integer>>(data)}, borrowed{&data};
        auto copy = owned;
        VH_CHECK(*owned == data && *shared == data && *borrowed == data && *copy == data && borrowed->size() == data.size() && &*borrowed == &data, "array-param", "array parameter reads back differently");
        owned = shared;
        VH_CHECK(*owned == data && *copy == data, "array-param", "array parameter assignment");
    }
    c.nontrivial(sig);
    c.sample(sig.substr(0, 200));
    c.count("views", vs.size());
}

int main(int argc, char * argv[])
{
    return vh::run(argc, argv, [](Ctx & c, Rng & r) {
        if (c.mode == "integer")
            op_case(c, r);
        else if (c.mode == "arith")
            arith_case(c, r);
        else if (c.mode == "bits")
            bits_case(c, r);
        else if (c.mode == "intervalset")
            intervalset_case(c, r);
        else if (c.mode == "tree")
            tree_case(c, r);
        else if (c.mode == "views")
            views_case(c, r);
        else
            throw std::runtime_error("bad mode");
    });
}

// Shared driver scaffolding: seeded randomness, case bookkeeping, violation
// reporting, and the counters that end up in the evidence files.
#ifndef VERIF_VH_HH
#define VERIF_VH_HH
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh
{
    using ll = long long;
    using ull = unsigned long long;
    using std::string;
    using std::vector;

    struct Rng
    {
        ull s;
        explicit Rng(ull seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL)
        {
            next();
            next();
        }
        auto next() -> ull
        {
            s += 0x9E3779B97F4A7C15ULL;
            ull z = s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        auto range(ll lo, ll hi) -> ll // inclusive
        {
            if (lo >= hi)
                return lo;
            auto span = static_cast<ull>(hi) - static_cast<ull>(lo) + 1;
            if (span == 0)
                return static_cast<ll>(next());
            return static_cast<ll>(static_cast<ull>(lo) + next() % span);
        }
        auto chance(int num, int den) -> bool
        {
            return range(1, den) <= num;
        }
        template <typename T>
        auto pick(const vector<T> & v) -> const T &
        {
            return v[range(0, static_cast<ll>(v.size()) - 1)];
        }
        template <typename T>
        auto shuffle(vector<T> & v) -> void
        {
            for (size_t i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[range(0, static_cast<ll>(i) - 1)]);
        }
    };

    inline auto json_escape(const string & s) -> string
    {
        string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += static_cast<char>(c);
            }
            else if (c == '\n')
                r += "\\n";
            else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
                r += static_cast<char>(c);
        }
        return r;
    }

    inline auto fnv(const string & s) -> ull
    {
        ull h = 1469598103934665603ULL;
        for (unsigned char c : s) {
            h ^= c;
            h *= 1099511628211ULL;
        }
        return h;
    }

    template <typename C>
    auto join(const C & c, const char * sep = ",") -> string
    {
        std::ostringstream o;
        bool first = true;
        for (const auto & x : c) {
            if (! first)
                o << sep;
            first = false;
            o << x;
        }
        return o.str();
    }

    struct Violation : std::exception
    {
        string key, text;
        Violation(string k, string t) : key(std::move(k)), text(std::move(t)) {}
        auto what() const noexcept -> const char * override { return text.c_str(); }
    };

    struct Ctx;
    inline Ctx * the_ctx = nullptr;

    struct Ctx
    {
        ull seed = 1;
        ull cases = 1000;
        int shard = 0, shards = 1;
        double seconds = 600;
        double case_cpu_limit = 100;
        string out, tmp = "/tmp", mode;
        string family; // optional filter
        ll only_case = -1;
        bool verbose = false;
        int max_violations = getenv("VERIF_MAX_VIOLATIONS") ? atoi(getenv("VERIF_MAX_VIOLATIONS")) : 12;

        ull current_case = 0;
        ull evaluations = 0, done_cases = 0;
        std::unordered_set<ull> distinct;
        std::map<string, ull> counters;
        vector<string> samples;
        int violations = 0;
        std::ofstream outf;
        char * cur = nullptr; // mmapped "current case" buffer, survives a crash
        static constexpr size_t cur_size = 1 << 16;
        std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();

        auto count(const string & c, ull n = 1) -> void { counters[c] += n; }
        auto nontrivial(ull h) -> void
        {
            if (distinct.size() < 100000)
                distinct.insert(h);
        }
        auto nontrivial(const string & s) -> void { nontrivial(fnv(s)); }
        auto sample(const string & s, size_t limit = 4) -> void
        {
            if (samples.size() < limit)
                samples.push_back(s.substr(0, 600));
        }
        auto describe(const string & s) -> void
        {
            if (! cur)
                return;
            auto n = std::min(s.size(), cur_size - 64);
            char head[64];
            snprintf(head, sizeof head, "%020llu\n", current_case);
            memcpy(cur, head, 21);
            memcpy(cur + 21, s.data(), n);
            cur[21 + n] = 0;
            if (verbose)
                std::cerr << "case " << current_case << ": " << s << "\n";
        }
        auto violation(const string & key, const string & text) -> void
        {
            ++violations;
            outf << "{\"type\":\"violation\",\"case\":" << current_case << ",\"key\":\"" << json_escape(key) << "\",\"text\":\""
                 << json_escape(text.substr(0, 8000)) << "\",\"desc\":\"" << json_escape(cur ? string(cur + 21).substr(0, 8000) : "") << "\"}\n";
            outf.flush();
            if (verbose)
                std::cerr << "VIOLATION " << key << ": " << text << "\n";
        }
        auto finish() -> void
        {
            outf << "{\"type\":\"summary\",\"evaluations\":" << evaluations << ",\"cases\":" << done_cases << ",\"distinct\":[";
            bool first = true;
            for (auto h : distinct) {
                outf << (first ? "" : ",") << h;
                first = false;
            }
            outf << "],\"counters\":{";
            first = true;
            for (auto & [k, v] : counters) {
                outf << (first ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
                first = false;
            }
            outf << "},\"samples\":[";
            first = true;
            for (auto & s : samples) {
                outf << (first ? "" : ",") << "\"" << json_escape(s) << "\"";
                first = false;
            }
            outf << "],\"violations\":" << violations << "}\n";
            outf.flush();
        }
    };

    inline auto on_cpu_limit(int) -> void
    {
        // async-signal context, but the process ends here whatever happens
        static const char m[] = "{\"type\":\"violation\",\"case\":";
        if (the_ctx) {
            char b[256];
            int n = snprintf(b, sizeof b,
                "%s%llu,\"key\":\"no-termination\",\"text\":\"case exceeded its CPU limit\",\"desc\":\"see current-case file\"}\n", m,
                the_ctx->current_case);
            int fd = ::open((the_ctx->out + ".hang").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            if (fd >= 0) {
                (void) ! ::write(fd, b, n);
                ::close(fd);
            }
        }
        _exit(77);
    }

    inline auto arm(double secs) -> void
    {
        itimerval t{};
        t.it_value.tv_sec = static_cast<time_t>(secs);
        t.it_value.tv_usec = static_cast<suseconds_t>((secs - static_cast<double>(t.it_value.tv_sec)) * 1e6);
        setitimer(ITIMER_PROF, &t, nullptr);
    }

    using CaseFn = std::function<void(Ctx &, Rng &)>;

    inline auto run(int argc, char * argv[], const CaseFn & fn) -> int
    {
        Ctx c;
        for (int i = 1; i + 1 < argc; i += 2) {
            string k = argv[i], v = argv[i + 1];
            if (k == "--seed")
                c.seed = std::stoull(v);
            else if (k == "--cases")
                c.cases = std::stoull(v);
            else if (k == "--shard")
                c.shard = std::stoi(v);
            else if (k == "--shards")
                c.shards = std::stoi(v);
            else if (k == "--seconds")
                c.seconds = std::stod(v);
            else if (k == "--case-cpu")
                c.case_cpu_limit = std::stod(v);
            else if (k == "--out")
                c.out = v;
            else if (k == "--tmp")
                c.tmp = v;
            else if (k == "--mode")
                c.mode = v;
            else if (k == "--family")
                c.family = v;
            else if (k == "--case") {
                c.only_case = std::stoll(v);
                c.verbose = true;
            }
            else if (k == "--verbose")
                c.verbose = v != "0";
            else {
                std::cerr << "unknown option " << k << "\n";
                return 2;
            }
        }
        the_ctx = &c;
        if (c.out.empty())
            c.out = "/dev/stdout";
        c.outf.open(c.out);
        if (c.out.rfind("/dev/", 0) != 0) {
            int fd = ::open((c.out + ".cur").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
            if (fd >= 0 && 0 == ftruncate(fd, Ctx::cur_size)) {
                void * p = mmap(nullptr, Ctx::cur_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED)
                    c.cur = static_cast<char *>(p);
                ::close(fd);
            }
        }
        else
            c.cur = static_cast<char *>(calloc(1, Ctx::cur_size));
        signal(SIGPROF, on_cpu_limit);
        ull from = c.shard, step = c.shards, to = c.cases;
        if (c.only_case >= 0) {
            from = c.only_case;
            to = from + 1;
        }
        for (ull i = from; i < to; i += step) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - c.start).count() > c.seconds) {
                c.count("stopped_by_time_cap");
                break;
            }
            c.current_case = i;
            c.describe("(starting)");
            Rng rng(c.seed * 1000003ULL + i * 7919ULL + fnv(c.mode + c.family));
            arm(c.case_cpu_limit);
            try {
                fn(c, rng);
            }
            catch (const Violation & v) {
                c.violation(v.key, v.text);
            }
            catch (const std::exception & e) {
                c.violation("unexpected-exception", string("unexpected exception: ") + e.what());
            }
            arm(0);
            ++c.done_cases;
            if (c.violations >= c.max_violations)
                break;
        }
        c.finish();
        return c.violations ? 1 : 0;
    }

#define VH_CHECK(cond, key, msg)                      \
    do {                                              \
        ++vh::the_ctx->evaluations;                   \
        if (! (cond)) {                               \
            std::ostringstream vh_o;                  \
            vh_o << msg;                              \
            throw vh::Violation(key, vh_o.str());     \
        }                                             \
    } while (0)
}
#endif

// Shared driver for the runtime monitors: deterministic case generation, operation traces, violation
// reporting, coverage counters, CPU-time watchdog and instance accounting.
#pragma once

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <csignal>
#include <ctime>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#define VH_LSAN 1
#endif

namespace vh {

using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline u64 hcomb(u64 h, u64 v)
{
    return mix(h * 31 + v);
}

inline u64 hstr(std::string_view s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return mix(h);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed)
    {}
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    u64 below(u64 n)
    {
        return n ? next() % n : 0;
    }
    // uniform in [a, b]
    i64 range(i64 a, i64 b)
    {
        return b <= a ? a : a + static_cast<i64>(below(static_cast<u64>(b - a) + 1));
    }
    bool chance(unsigned pct)
    {
        return below(100) < pct;
    }
    template<typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    // Small sizes are common and large ones rare.
    u64 skewed(u64 max)
    {
        switch (below(6))
        {
            case 0:
                return below(std::min<u64>(max, 2) + 1);
            case 1:
            case 2:
                return below(std::min<u64>(max, 8) + 1);
            case 3:
            case 4:
                return below(std::min<u64>(max, 32) + 1);
            default:
                return below(max + 1);
        }
    }
};

struct State
{
    std::string prop;
    std::string workload;
    u64 seed = 1;
    u64 case_idx = 0;
    std::string trace;
    std::size_t ops = 0;
    bool verbose = false;
    std::string out_dir;
    int status_fd = -1;
    std::map<std::string, u64> counters;
    std::unordered_set<u64> states;
    u64 evals = 0; // number of oracle comparisons made
    std::vector<std::string> samples;
};

inline State& st()
{
    static State s;
    return s;
}

inline void put_status(const char* kind)
{
    State& s = st();
    if (s.status_fd < 0)
        return;
    char buf[256];
    int n = std::snprintf(
        buf, sizeof buf, "%-10s %-40s %20llu\n", kind, s.workload.c_str(), (unsigned long long)s.case_idx);
    if (n > 0)
        (void)!pwrite(s.status_fd, buf, n, 0);
}

[[noreturn]] inline void violation(const std::string& msg)
{
    State& s = st();
    std::string text = "workload: " + s.workload + "\nseed: " + std::to_string(s.seed) +
                       "\ncase: " + std::to_string(s.case_idx) + "\nviolation: " + msg + "\ntrace:\n" + s.trace + "\n";
    if (!s.out_dir.empty())
    {
        std::string p = s.out_dir + "/violation.txt";
        if (FILE* f = std::fopen(p.c_str(), "w"))
        {
            std::fwrite(text.data(), 1, text.size(), f);
            std::fclose(f);
        }
    }
    put_status("violation");
    std::string tail = text.size() > 6000 ? text.substr(0, 1500) + "\n...\n" + text.substr(text.size() - 4000) : text;
    std::fprintf(stderr, "%s\n", tail.c_str());
    std::fflush(nullptr);
    _exit(3);
}

// Report an observation that may be a recorded finding; the runner matches the key with the known-findings file
// and treats it as a violation if it is not listed.
inline void known(const std::string& key, const std::string& what)
{
    State& s = st();
    static std::set<std::string> done;
    if (!done.insert(key).second)
        return;
    if (s.out_dir.empty())
    {
        std::fprintf(stderr, "known: %s: %s\n", key.c_str(), what.c_str());
        return;
    }
    if (FILE* f = std::fopen((s.out_dir + "/known.txt").c_str(), "a"))
    {
        std::fprintf(f, "%s\t%s\n", key.c_str(), what.c_str());
        std::fclose(f);
    }
}

// Append one operation to the trace of the current case.
template<typename... A>
__attribute__((noinline, cold, no_sanitize("address", "undefined"))) void op(const A&... a)
{
    State& s = st();
    std::ostringstream os;
    ((os << a), ...);
    std::string line = os.str();
    ++s.ops;
    if (s.trace.size() > 400000)
        s.trace.erase(0, 200000);
    s.trace += line;
    s.trace += '\n';
    if (s.verbose)
    {
        std::fprintf(stderr, "%s\n", line.c_str());
        std::fflush(stderr);
    }
}

inline void count(const std::string& key, u64 n = 1)
{
    st().counters[key] += n;
}

// Record a state that the monitor actually inspected.
inline void seen(u64 h)
{
    State& s = st();
    if (s.states.size() < 400000)
        s.states.insert(h);
}

#define VH_COLD __attribute__((noinline, cold, no_sanitize("address", "undefined")))

template<typename... A>
VH_COLD std::string cat(const A&... a)
{
    std::ostringstream os;
    ((os << a), ...);
    return os.str();
}

#define VCHECK(cond, ...)                                                                                              \
    do                                                                                                                 \
    {                                                                                                                  \
        ++vh::st().evals;                                                                                              \
        if (!(cond)) [[unlikely]]                                                                                      \
            [&]() VH_COLD { vh::violation(vh::cat("[", #cond, "] ", __VA_ARGS__, " (", __FILE__, ":", __LINE__, ")")); }(); \
    } while (0)

// Instance accounting for element values: every constructed object must be destroyed exactly once, and
// only live objects may be used.
struct Ledger
{
    static std::unordered_set<const void*>& live()
    {
        static std::unordered_set<const void*> s;
        return s;
    }
    static void born(const void* p)
    {
        if (!live().insert(p).second)
            violation("value object constructed twice at the same address without destruction");
    }
    static void dead(const void* p)
    {
        if (!live().erase(p))
            violation("value object destroyed that is not alive (double destruction)");
    }
    static void use(const void* p)
    {
        if (!live().count(p))
            violation("value object used that is not alive");
    }
};

// Copyable/movable tracked value.
struct Tracked
{
    int v = 0;
    bool moved = false;
    Tracked()
    {
        Ledger::born(this);
    }
    Tracked(int x) : v(x)
    {
        Ledger::born(this);
    }
    Tracked(const Tracked& o) : v(o.v), moved(o.moved)
    {
        Ledger::use(&o);
        Ledger::born(this);
    }
    Tracked(Tracked&& o) noexcept : v(o.v), moved(o.moved)
    {
        Ledger::use(&o);
        o.moved = true;
        o.v = -77777;
        Ledger::born(this);
    }
    Tracked& operator=(const Tracked& o)
    {
        Ledger::use(&o);
        Ledger::use(this);
        v = o.v;
        moved = o.moved;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        Ledger::use(&o);
        Ledger::use(this);
        if (this != &o)
        {
            v = o.v;
            moved = o.moved;
            o.moved = true;
            o.v = -77777;
        }
        return *this;
    }
    ~Tracked()
    {
        Ledger::dead(this);
    }
    bool operator==(const Tracked& o) const
    {
        Ledger::use(this);
        Ledger::use(&o);
        return v == o.v;
    }
    bool operator!=(const Tracked& o) const
    {
        return !(*this == o);
    }
    bool operator<(const Tracked& o) const
    {
        return v < o.v;
    }
};
inline std::ostream& operator<<(std::ostream& os, const Tracked& t)
{
    return os << t.v;
}

inline void expect_no_live(const char* what)
{
    VCHECK(Ledger::live().empty(), what, ": ", Ledger::live().size(), " value objects leaked");
}

// A harness can be compiled in several parts, each with a share of the element types, to build in parallel.
#ifndef VH_PART
#define VH_PART 0
#define VH_PARTS 1
#endif

template<typename... Fx, typename Run>
void dispatch_types(Rng& r, Run run)
{
    constexpr std::size_t n = sizeof...(Fx);
    constexpr std::size_t mine = (n + VH_PARTS - 1 - VH_PART) / VH_PARTS;
    static_assert(mine > 0);
    std::size_t pick = r.below(mine) * VH_PARTS + VH_PART;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (
            [&] {
                if constexpr (I % VH_PARTS == VH_PART)
                    if (I == pick)
                        run.template operator()<Fx>();
            }(),
            ...);
    }(std::make_index_sequence<n>());
}

using CaseFn = std::function<void(Rng&)>;
struct Workload
{
    std::string name;
    unsigned weight;
    CaseFn fn;
};

inline void on_vtalrm(int)
{
    static const char m[] = "vh: operation exceeded its CPU-time budget (no progress)\n";
    (void)!write(2, m, sizeof m - 1);
    put_status("hang");
    _exit(4);
}

inline void on_abrt(int)
{
    put_status("abort");
    _exit(5);
}

inline void arm(int cpu_s)
{
    itimerval t{};
    t.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

inline double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            r += '\\', r += char(c);
        else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r;
}

// argv: --seed S --first I --stride K --cases N --time SEC --out DIR [--only workload] [--verbose]
inline int drive(int argc, char** argv, std::vector<Workload> table)
{
    State& s = st();
    u64 first = 0, stride = 1, cases = 1000;
    double tmax = 1e9;
    int cpu_s = 40;
    std::string only;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            s.seed = std::stoull(val());
        else if (a == "--first")
            first = std::stoull(val());
        else if (a == "--stride")
            stride = std::stoull(val());
        else if (a == "--cases")
            cases = std::stoull(val());
        else if (a == "--time")
            tmax = std::stod(val());
        else if (a == "--cpu")
            cpu_s = std::stoi(val());
        else if (a == "--out")
            s.out_dir = val();
        else if (a == "--only")
            only = val();
        else if (a == "--verbose")
            s.verbose = true;
        else if (a == "--list")
        {
            for (auto& w : table)
                std::printf("%s\n", w.name.c_str());
            return 0;
        }
    }
    if (!only.empty())
    {
        // comma separated list of workloads (prefix match when ending with '*')
        std::vector<Workload> sel;
        std::stringstream ss(only);
        std::string o;
        while (std::getline(ss, o, ','))
            for (auto& w : table)
                if (w.name == o || (!o.empty() && o.back() == '*' && w.name.compare(0, o.size() - 1, o, 0, o.size() - 1) == 0))
                    sel.push_back(w);
        table = sel;
    }
    if (table.empty())
    {
        std::fprintf(stderr, "no workload selected\n");
        return 2;
    }
    unsigned total = 0;
    for (auto& w : table)
        total += w.weight;

    if (!s.out_dir.empty())
        s.status_fd = open((s.out_dir + "/status.txt").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    std::signal(SIGVTALRM, on_vtalrm);
    std::signal(SIGABRT, on_abrt);

    double t0 = now();
    u64 done = 0;
    bool timed_out = false;
    for (u64 k = 0; k < cases; ++k)
    {
        u64 idx = first + k * stride;
        // The workload is a function of the case index alone, so that a case can be replayed.
        u64 slot = mix(idx * 2654435761u + 17) % total;
        const Workload* w = nullptr;
        for (auto& x : table)
        {
            if (slot < x.weight)
            {
                w = &x;
                break;
            }
            slot -= x.weight;
        }
        s.case_idx = idx;
        s.workload = w->name;
        s.trace.clear();
        put_status("run");
        Rng rng(mix(s.seed * 0x9e3779b97f4a7c15ull + hstr(w->name)) ^ mix(idx));
        arm(cpu_s);
        try
        {
            w->fn(rng);
        }
        catch (const std::exception& e)
        {
            violation(cat("unexpected exception escaped an operation that must not throw: ", e.what()));
        }
        arm(0);
        count("cases." + w->name);
        if (s.samples.size() < 3 && (k % 37) == 5)
        {
            std::string t = s.trace.substr(0, 400);
            s.samples.push_back(w->name + " case " + std::to_string(idx) + ": " + t);
        }
        ++done;
        Ledger::live().clear();
#ifdef VH_LSAN
        if (done % 512 == 0)
        {
            arm(0);
            if (__lsan_do_recoverable_leak_check())
                violation("heap memory became unreachable (leak) in one of the last 512 cases of this shard");
        }
#endif
        if (now() - t0 > tmax)
        {
            timed_out = true;
            break;
        }
    }
#ifdef VH_LSAN
    if (__lsan_do_recoverable_leak_check())
        violation("heap memory became unreachable (leak) in one of the last 512 cases of this shard");
#endif
    put_status("done");
    if (!s.out_dir.empty())
    {
        std::string p = s.out_dir + "/stats.json";
        if (FILE* f = std::fopen(p.c_str(), "w"))
        {
            std::fprintf(
                f, "{\"done\":%llu,\"timed_out\":%s,\"evals\":%llu,\"ops\":%llu,\"wall\":%.3f,\"counters\":{",
                (unsigned long long)done, timed_out ? "true" : "false", (unsigned long long)s.evals,
                (unsigned long long)s.ops, now() - t0);
            bool c = false;
            for (auto& kv : s.counters)
            {
                std::fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(kv.first).c_str(), (unsigned long long)kv.second);
                c = true;
            }
            std::fprintf(f, "},\"samples\":[");
            c = false;
            for (auto& x : s.samples)
            {
                std::fprintf(f, "%s\"%s\"", c ? "," : "", jesc(x).c_str());
                c = true;
            }
            std::fprintf(f, "]}\n");
            std::fclose(f);
        }
        p = s.out_dir + "/states.bin";
        if (FILE* f = std::fopen(p.c_str(), "wb"))
        {
            for (u64 h : s.states)
                std::fwrite(&h, 8, 1, f);
            std::fclose(f);
        }
    }
    std::fflush(nullptr);
    _exit(0);
}

} // namespace vh

// Common scaffolding for the harnesses: seeded case generation, reporting to
// the driver, and a per-case watchdog.  One "case" is one generated workload
// together with its oracle.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

void vh_enable_log(bool on); // log_sink.cpp

namespace vh
{

// ------------------------------------------------------------------ random
struct rng
{
    std::uint64_t s;
    explicit rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        auto z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [a,b]
    long long range(long long a, long long b)
    {
        if (b <= a) return a;
        return a + static_cast<long long>(next() % static_cast<std::uint64_t>(b - a + 1));
    }
    bool chance(int percent) { return range(0, 99) < percent; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    template<typename C>
    auto& pick(C& c) { return c[static_cast<std::size_t>(range(0, static_cast<long long>(c.size()) - 1))]; }
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
    return r.next() ^ r.next();
}

inline std::uint64_t hash_str(const std::string& s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// --------------------------------------------------------------- reporting
inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        switch (c) {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\r': o += "\\r"; break;
            case '\t': o += "\\t"; break;
            default:
                if (c < 0x20 || c >= 0x7f) {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    o += b;
                } else
                    o += static_cast<char>(c);
        }
    }
    return o;
}

struct state_t
{
    int fd = 1;
    std::mutex m;
    std::string prop, tier = "quick";
    std::uint64_t seed = 1;
    long long first = 0, count = 1;
    int timeout = 60;
    std::atomic<long long> current{-1};
    std::atomic<long long> startedMs{0};
    long long evaluations = 0;
    std::set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, long long> counters;
    std::string scratch;
    std::string context; // what the case is doing, for reports of hangs
    int violations = 0;
    bool verbose = false;
};
inline state_t& st()
{
    static state_t* s = new state_t; // never destroyed: other threads may log late
    return *s;
}
inline bool thorough() { return st().tier == "thorough"; }

inline void emit(const std::string& line)
{
    std::lock_guard<std::mutex> l(st().m);
    std::string x = line + "\n";
    const char* p = x.data();
    std::size_t n = x.size();
    while (n) {
        auto k = ::write(st().fd, p, n);
        if (k <= 0) break;
        p += k;
        n -= static_cast<std::size_t>(k);
    }
}

// Reports a violation.  `kind` identifies the failing behaviour; it's what the
// known-findings file refers to.
inline void violation(const std::string& kind, const std::string& msg)
{
    st().violations++;
    emit("{\"t\":\"viol\",\"i\":" + std::to_string(st().current.load()) + ",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg.substr(0, 4000)) + "\"}");
}

// Thrown to abandon a case after a violation was reported (or to report one).
struct failed : std::runtime_error
{
    std::string kind;
    failed(std::string k, const std::string& m) : std::runtime_error(m), kind(std::move(k)) {}
};

template<typename... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int>{(o << a, 0)...};
    return o.str();
}

#define VH_CHECK(cond, kind, ...) \
    do { \
        if (!(cond)) throw vh::failed((kind), vh::cat(__VA_ARGS__)); \
    } while (false)

inline void count(const std::string& name, long long n = 1)
{
    std::lock_guard<std::mutex> l(st().m);
    st().counters[name] += n;
}
inline void distinct(std::uint64_t h)
{
    std::lock_guard<std::mutex> l(st().m);
    st().distinct.insert(h);
}
inline void evaluated(long long n = 1)
{
    std::lock_guard<std::mutex> l(st().m);
    st().evaluations += n;
}
inline void context(const std::string& c)
{
    std::lock_guard<std::mutex> l(st().m);
    st().context = c;
}
inline void sample(const std::string& s)
{
    std::lock_guard<std::mutex> l(st().m);
    if (st().samples.size() < 3) st().samples.push_back(s.substr(0, 900));
}

using case_fn = std::function<void(rng&, long long)>;
inline std::map<std::string, case_fn>& registry()
{
    static std::map<std::string, case_fn> r;
    return r;
}
struct reg
{
    reg(const char* n, case_fn f) { registry()[n] = std::move(f); }
};
#define VH_PROP(name) \
    static void vh_case_##name(vh::rng&, long long); \
    static vh::reg vh_reg_##name(#name, vh_case_##name); \
    static void vh_case_##name(vh::rng& rng, long long caseIndex)

inline long long now_ms()
{
    // Deliberately the raw system call result of CLOCK_MONOTONIC_RAW, which no
    // harness replaces, so that virtual clocks don't affect the watchdog.
    timespec ts;
    ::clock_gettime(CLOCK_MONOTONIC_RAW, &ts);
    return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;
}

// A scratch directory for this process; the driver removes its parent.
inline std::string scratch_dir()
{
    auto& s = st();
    if (s.scratch.empty()) {
        const char* base = std::getenv("VERIF_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + "/vh-XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!::mkdtemp(b.data())) {
            std::perror("mkdtemp");
            std::_Exit(77);
        }
        s.scratch = b.data();
    }
    return s.scratch;
}

inline void harness_error(const std::string& msg)
{
    emit("{\"t\":\"error\",\"msg\":\"" + jesc(msg) + "\"}");
    std::_Exit(77);
}

inline int main(int argc, char** argv)
{
    auto& s = st();
    std::string out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--seed") s.seed = std::stoull(val());
        else if (a == "--first") s.first = std::stoll(val());
        else if (a == "--count") s.count = std::stoll(val());
        else if (a == "--tier") s.tier = val();
        else if (a == "--out") out = val();
        else if (a == "--timeout") s.timeout = std::stoi(val());
        else if (a == "-v") s.verbose = true;
        else s.prop = a;
    }
    if (!out.empty()) {
        s.fd = ::open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        if (s.fd < 0) {
            std::perror("open out");
            return 77;
        }
    }
    auto it = registry().find(s.prop);
    if (it == registry().end()) {
        std::fprintf(stderr, "no such property mode: %s\n", s.prop.c_str());
        return 77;
    }
    std::thread([] {
        for (;;) {
            ::usleep(200000);
            auto& s = st();
            const auto cur = s.current.load();
            const auto started = s.startedMs.load();
            if (started && now_ms() - started > s.timeout * 1000LL && s.current.load() == cur) {
                std::string ctx;
                {
                    std::lock_guard<std::mutex> l(s.m);
                    ctx = s.context;
                }
                emit("{\"t\":\"hang\",\"i\":" + std::to_string(cur) + ",\"msg\":\"" + jesc(ctx) + "\"}");
                std::_Exit(78);
            }
        }
    }).detach();

    const auto propHash = hash_str(s.prop);
    for (long long i = s.first; i < s.first + s.count; ++i) {
        s.current = i;
        s.startedMs = now_ms();
        emit("{\"t\":\"case\",\"i\":" + std::to_string(i) + "}");
        rng r(mix(mix(s.seed, propHash), static_cast<std::uint64_t>(i)));
        vh_enable_log(i % 6 == 1);
        try {
            it->second(r, i);
        } catch (const failed& e) {
            violation(e.kind, e.what());
        } catch (const std::exception& e) {
            violation("unexpected-exception", e.what());
        } catch (...) {
            violation("unexpected-exception", "(unknown type)");
        }
        s.startedMs = 0;
        if (s.violations >= 40) break;
    }
    std::ostringstream o;
    o << "{\"t\":\"sum\",\"evaluations\":" << s.evaluations << ",\"distinct\":[";
    bool f = true;
    for (auto h : s.distinct) {
        o << (f ? "" : ",") << '"' << std::hex << h << std::dec << '"';
        f = false;
    }
    o << "],\"samples\":[";
    f = true;
    for (auto& x : s.samples) {
        o << (f ? "" : ",") << '"' << jesc(x) << '"';
        f = false;
    }
    o << "],\"counters\":{";
    f = true;
    for (auto& [k, v] : s.counters) {
        o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v;
        f = false;
    }
    o << "}}";
    emit(o.str());
    std::_Exit(0); // skip static destructors: the watchdog thread is still there
}

} // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char** argv)
{
    return vh::main(argc, argv);
}
#endif

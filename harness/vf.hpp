// Common support for all monitors: arguments, random numbers, statistics, violation reports.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vf {

using u64 = std::uint64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {
    }
    u64 next() {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    // [0, n)
    u64 below(u64 n) {
        return n ? next() % n : 0;
    }
    // [a, b]
    u64 range(u64 a, u64 b) {
        return a + below(b - a + 1);
    }
    bool chance(unsigned num, unsigned den) {
        return below(den) < num;
    }
    template<typename V>
    auto& pick(V& v) {
        return v[below(v.size())];
    }
};

// ---- arguments -----------------------------------------------------------------------------------------------------

struct Args {
    std::string prop = "ALL";
    std::string mode;
    u64 seed = 1;
    u64 cases = 100;
    u64 first = 0;
    u64 scale = 1;
    std::string status; // file the current case number is written to
    std::map<std::string, std::string> kv;
    u64 num(const std::string& k, u64 d) const {
        auto i = kv.find(k);
        return i == kv.end() ? d : std::strtoull(i->second.c_str(), nullptr, 10);
    }
};

inline Args args;
inline int status_fd = -1;

inline void parse_args(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto eq = a.find('=');
        std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
        if (k == "prop") args.prop = v;
        else if (k == "mode") args.mode = v;
        else if (k == "seed") args.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "cases") args.cases = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "first") args.first = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "scale") args.scale = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "status") args.status = v;
        else args.kv[k] = v;
    }
    if (!args.status.empty()) {
        status_fd = ::open(args.status.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    }
}

// ---- statistics ----------------------------------------------------------------------------------------------------

// Counters may be bumped by several threads; a relaxed atomic keeps them from ordering the code under test.
struct Counter {
    std::atomic<u64> v{ 0 };
    void operator+=(u64 n) {
        v.fetch_add(n, std::memory_order_relaxed);
    }
    void operator++(int) {
        v.fetch_add(1, std::memory_order_relaxed);
    }
};

inline std::mutex stats_mutex;
inline std::map<std::string, Counter> counters;
inline std::map<std::string, std::unordered_set<u64>> distinct;
inline std::vector<std::string> samples;

// Not for hot concurrent paths: takes a lock
inline void count(const std::string& name, u64 n = 1) {
    std::lock_guard lk{ stats_mutex };
    counters[name] += n;
}

inline void seen(const std::string& name, u64 hash) {
    std::lock_guard lk{ stats_mutex };
    auto& s = distinct[name];
    if (s.size() < 500000) {
        s.insert(hash);
    }
}

inline void maximum(const std::string& name, u64 n) {
    std::lock_guard lk{ stats_mutex };
    auto& c = counters[name];
    if (c.v.load(std::memory_order_relaxed) < n) c.v.store(n, std::memory_order_relaxed);
}

inline void sample(const std::string& s) {
    std::lock_guard lk{ stats_mutex };
    if (samples.size() < 6) {
        samples.push_back(s);
    }
}

inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        } else if (c < 32 || c > 126) {
            r += fmt("\\u%04x", c);
        } else {
            r += char(c);
        }
    }
    return r + "\"";
}

// ---- violations ----------------------------------------------------------------------------------------------------

struct CaseAbort {};

inline u64 current_case = 0;
inline std::atomic<int> violations{ 0 };
inline std::atomic<bool> case_bad{ false };
inline std::vector<std::string>* trace_log = nullptr; // optional trace of the current case

inline void begin_case(u64 n) {
    current_case = n;
    case_bad = false;
    if (status_fd >= 0) {
        char b[64];
        int len = snprintf(b, sizeof b, "%llu\n", (unsigned long long)n);
        if (pwrite(status_fd, b, len, 0) < 0) {
        }
    }
}

inline bool selected(const char* prop) {
    return args.prop == "ALL" || args.prop == prop;
}

// Reports without leaving the case. Violations of properties that are not being checked are ignored (counted).
inline bool report(const char* prop, const std::string& key, const std::string& msg) {
    if (!selected(prop)) {
        count(std::string("unselected_violations_") + prop);
        return false;
    }
    if (!case_bad.exchange(true)) {
        violations++;
        std::lock_guard lk{ stats_mutex };
        printf("VIOL\t%s\t%s\t%llu\t%s\n", prop, key.c_str(), (unsigned long long)current_case, msg.c_str());
        if (trace_log) {
            std::size_t from = trace_log->size() > 40 ? trace_log->size() - 40 : 0;
            for (auto i = from; i < trace_log->size(); i++) {
                printf("TRACE\t%s\n", (*trace_log)[i].c_str());
            }
        }
        fflush(stdout);
    }
    return true;
}

// Reports and leaves the case (single threaded code only)
inline void violation(const char* prop, const std::string& key, const std::string& msg) {
    if (report(prop, key, msg)) {
        throw CaseAbort{};
    }
}

#define VF_CHECK(prop, key, cond, ...)                     \
    do {                                                   \
        if (!(cond)) ::vf::violation(prop, key, ::vf::fmt(__VA_ARGS__)); \
    } while (0)

inline int finish() {
    std::lock_guard lk{ stats_mutex };
    std::string s = "STATS\t{\"counters\":{";
    bool first = true;
    for (auto& [k, v] : counters) {
        s += (first ? "" : ",") + jstr(k) + ":" + std::to_string(v.v.load());
        first = false;
    }
    s += "},\"distinct\":{";
    first = true;
    for (auto& [k, v] : distinct) {
        s += (first ? "" : ",") + jstr(k) + ":" + std::to_string(v.size());
        first = false;
    }
    s += "},\"samples\":[";
    first = true;
    for (auto& v : samples) {
        s += (first ? "" : ",") + jstr(v);
        first = false;
    }
    s += "]}\n";
    // the hashes themselves, so that several processes' distinct counts can be merged exactly
    if (auto i = args.kv.find("hashes"); i != args.kv.end()) {
        for (auto& [k, v] : distinct) {
            if (FILE* f = fopen((i->second + "." + k).c_str(), "wb")) {
                for (u64 h : v) fwrite(&h, 8, 1, f);
                fclose(f);
            }
        }
    }
    fputs(s.c_str(), stdout);
    fflush(stdout);
    return violations ? 1 : 0;
}

// Single-threaded monitors set this: a case that takes that much processor time (hundreds of times the usual) does not end
inline int cpu_limit_s = 0;

extern "C" inline void vf_cpu_limit(int) {
    char b[300];
    const char* p = args.prop == "ALL" ? "C01" : args.prop.c_str();
    int n = snprintf(b, sizeof b, "\nVIOL\t%s\thang\t%llu\tan operation does not return\n", p, (unsigned long long)current_case);
    if (write(1, b, n) < 0) {
    }
    _exit(1);
}

inline void arm_cpu_limit() {
    if (!cpu_limit_s) return;
    signal(SIGPROF, vf_cpu_limit);
    itimerval t{};
    t.it_value.tv_sec = cpu_limit_s;
    setitimer(ITIMER_PROF, &t, nullptr);
}

// Runs cases [first, first + cases), stops after a few violations
inline int run_cases(auto&& one_case) {
    for (u64 c = args.first; c < args.first + args.cases && violations < 3; c++) {
        begin_case(c);
        arm_cpu_limit();
        Rng rng(mix(args.seed * 0x10001ull + 77) ^ mix(c));
        try {
            one_case(c, rng);
        } catch (const CaseAbort&) {
        }
        count("cases");
    }
    return finish();
}

} // namespace vf

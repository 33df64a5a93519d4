// Monitor runtime shared by all harnesses: case bookkeeping, violation records,
// coverage counters, and a crash marker that survives an abort of the process.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon
{
inline std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline std::uint64_t hash_bytes(const void * p, std::size_t n, std::uint64_t h = 0xcbf29ce484222325ull)
{
    auto b = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n; ++i) {
        h = (h ^ b[i]) * 0x100000001b3ull;
    }
    return h;
}
inline std::uint64_t hash_str(std::string_view s)
{
    return hash_bytes(s.data(), s.size());
}

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
    std::uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    // uniform in [0, n)
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::uint64_t range(std::uint64_t a, std::uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

struct Violation
{
    std::string key, label, detail;
};

struct State
{
    std::uint64_t seed = 1;
    bool thorough = false;
    double scale = 1;
    std::string only, out, prop, part = "0";
    std::string log; // optional event log (C29)
    std::FILE * logf = nullptr;
    char * marker = nullptr;
    std::size_t marker_size = 4096;
    std::string label;
    std::uint64_t evaluations = 0, checks = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::string> samples;
    std::uint64_t sample_seen = 0;
    std::vector<Violation> violations;
    std::map<std::string, unsigned> per_key;
    std::uint64_t n_violations = 0;
    std::chrono::steady_clock::time_point first_violation;
    std::recursive_mutex lock;
};
inline State & st()
{
    static State * s = new State; // never destroyed: usable at exit
    return *s;
}

inline constexpr int hung = 76; // exit status
// Processor time one case may take: thousands of times what any takes.
inline void watch()
{
    ::itimerval t{};
    t.it_value.tv_sec = st().thorough ? 600 : 90;
    ::setitimer(ITIMER_PROF, &t, nullptr);
}
inline void init(int argc, char ** argv)
{
    auto & s = st();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--tier") s.thorough = v == "thorough";
        else if (a == "--only") s.only = v;
        else if (a == "--out") s.out = v;
        else if (a == "--scale") s.scale = std::atof(v.c_str());
        else if (a == "--log") s.log = v;
        else if (a == "--part") s.part = v;
        else if (a == "--marker") {
            int fd = ::open(v.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ::ftruncate(fd, long(s.marker_size)) == 0) {
                void * p = ::mmap(nullptr, s.marker_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) s.marker = static_cast<char *>(p);
                ::close(fd);
            }
        }
    }
    // A case that does not end is ended (see begin).
    std::signal(SIGPROF, [](int) { ::_exit(hung); });
    if (!s.log.empty()) s.logf = std::fopen(s.log.c_str(), "w");
}

// Number of iterations: quick count scaled for the thorough tier.
inline std::uint64_t iters(std::uint64_t quick, std::uint64_t thorough)
{
    auto n = double(st().thorough ? thorough : quick) * st().scale;
    return n < 1 ? 1 : std::uint64_t(n);
}

int finish();

// Begin a case; returns false when filtered out by --only.
inline bool begin(const std::string & label)
{
    auto & s = st();
    // Once something was found, go on for a while only: a broken subject may be
    // arbitrarily slow.
    if (s.n_violations && std::chrono::steady_clock::now() - s.first_violation > std::chrono::seconds(s.thorough ? 120 : 20)) ::_exit(finish());
    if (!s.only.empty() && label != s.only) return false;
    s.label = label;
    if (s.marker) {
        auto n = std::min(label.size(), s.marker_size - 1);
        std::memcpy(s.marker, label.data(), n);
        s.marker[n] = 0;
    }
    ++s.evaluations;
    watch();
    return true;
}
inline Rng rng(const std::string & label) { return Rng(mix(st().seed * 0x1000003ull) ^ hash_str(label)); }

inline void count(const std::string & name, std::uint64_t n = 1) { st().counters[name] += n; }
inline void max_of(const std::string & name, std::uint64_t n)
{
    auto & c = st().counters["max:" + name];
    if (n > c) c = n;
}
// A case counts as distinct and non-trivial through the hash of what makes it so.
inline void nontrivial(std::uint64_t h) { st().distinct.insert(mix(h ^ hash_str(st().label.substr(0, st().label.find("|i="))))); }

template <typename F>
void sample(F && f)
{
    auto & s = st();
    ++s.sample_seen;
    // keep the 1st, 2nd, 4th, ... up to 6 samples
    if ((s.sample_seen & (s.sample_seen - 1)) == 0 && s.samples.size() < 6) s.samples.push_back(s.label + " : " + std::string(f()));
}

inline void fail(const std::string & key, const std::string & detail)
{
    auto & s = st();
    std::lock_guard g(s.lock);
    if (!s.n_violations++) s.first_violation = std::chrono::steady_clock::now();
    if (++s.per_key[key] <= 5 && s.violations.size() < 60) s.violations.push_back({key, s.label, detail});
}
template <typename F>
bool check(bool ok, const char * key, F && detail)
{
    ++st().checks;
    if (!ok) [[unlikely]] fail(key, std::string(detail()));
    return ok;
}
inline bool check(bool ok, const char * key)
{
    return check(ok, key, [] { return ""; });
}
// Event log line (used where logs of several builds are compared).
inline void event(const std::string & line)
{
    if (st().logf) {
        std::fputs(line.c_str(), st().logf);
        std::fputc('\n', st().logf);
    }
}

inline std::string jesc(std::string_view v)
{
    std::string r = "\"";
    for (unsigned char c : v) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += char(c);
    }
    return r + "\"";
}

inline int finish()
{
    auto & s = st();
    std::string j = "{";
    j += "\"evaluations\":" + std::to_string(s.evaluations);
    j += ",\"checks\":" + std::to_string(s.checks);
    j += ",\"distinct\":" + std::to_string(s.distinct.size());
    j += ",\"n_violations\":" + std::to_string(s.n_violations);
    j += ",\"counters\":{";
    bool first = true;
    for (auto & [k, v] : s.counters) {
        j += (first ? "" : ",") + jesc(k) + ":" + std::to_string(v);
        first = false;
    }
    j += "},\"samples\":[";
    first = true;
    for (auto & v : s.samples) {
        j += (first ? "" : ",") + jesc(v.substr(0, 600));
        first = false;
    }
    j += "],\"violations\":[";
    first = true;
    for (auto & v : s.violations) {
        j += (first ? "" : ",") + std::string("{\"key\":") + jesc(v.key) + ",\"label\":" + jesc(v.label) + ",\"detail\":" + jesc(v.detail.substr(0, 1500)) + "}";
        first = false;
    }
    j += "]}\n";
    if (s.logf) std::fclose(s.logf);
    if (!s.out.empty()) {
        auto f = std::fopen((s.out + ".tmp").c_str(), "w");
        if (!f) return 9;
        std::fputs(j.c_str(), f);
        std::fclose(f);
        std::rename((s.out + ".tmp").c_str(), s.out.c_str());
    } else std::fputs(j.c_str(), stdout);
    return s.n_violations ? 3 : 0;
}

template <typename Bytes>
std::string hex(const Bytes & b, std::size_t limit = 160)
{
    static const char d[] = "0123456789abcdef";
    std::string r;
    std::size_t n = 0;
    for (auto x : b) {
        if (n++ >= limit) {
            r += "...";
            break;
        }
        auto c = (unsigned char)(x);
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}
} // namespace mon

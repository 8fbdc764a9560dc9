// Shared plumbing of the monitors: deterministic RNG, trace, counters, violations.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

struct Rng {
    uint64_t s[4];
    static uint64_t mix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void seed(uint64_t a, uint64_t b, uint64_t c)
    {
        uint64_t x = a * 0x9e3779b97f4a7c15ULL ^ b * 0xc2b2ae3d27d4eb4fULL ^ c * 0x165667b19e3779f9ULL ^ 0x1234567;
        for (auto& v : s) v = mix(x);
    }
    uint64_t next()
    {
        auto rotl = [](uint64_t v, int k) { return (v << k) | (v >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

struct Violation : std::runtime_error {
    std::string kind;
    Violation(std::string k, const std::string& m) : std::runtime_error(m), kind(std::move(k)) {}
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
template <class V> std::string list(const V& v, size_t max = 64)
{
    std::string s = "[";
    size_t i = 0;
    for (auto x : v) {
        if (i) s += ",";
        if (i++ == max) { s += fmt("...%zu", v.size()); break; }
        s += std::to_string((unsigned long long)x);
    }
    return s + "]";
}
template <class H> std::string hx(const H& h, size_t bytes = 6)
{
    std::string s;
    for (size_t i = 0; i < bytes && i < h.size(); ++i) s += fmt("%02x", h[i]);
    return s;
}

struct Ctx {
    Rng rng;
    uint64_t seed = 1, case_no = 0;
    bool thorough = false;
    bool keep_trace = false;    // record the operations of this case
    FILE* live = nullptr;       // write each operation through (to survive a crash)
    std::string trace;
    std::map<std::string, uint64_t> cnt; // what the monitors observed
    uint64_t sig = 0;           // digest of the case
    bool nontrivial = false;
    std::unordered_set<uint64_t> states; // digests of states the monitors judged
    std::string scratch;        // directory for files
    int weight = 100;           // percentage of the normal size of a case (slow builds use less)
    int stretch = 1;            // this case is that many times longer than usual
    bool brief = false;         // this case has few, large steps

    void begin(const char* prop, uint64_t sd, uint64_t c)
    {
        uint64_t p = 0;
        for (const char* q = prop; *q; ++q) p = p * 131 + (uint8_t)*q;
        rng.seed(sd, p, c);
        seed = sd;
        case_no = c;
        trace.clear();
        sig = 0x9e3779b97f4a7c15ULL;
        nontrivial = false;
        stretch = 1;
        brief = false;
    }
    int heavy = 1000;           // at most so many cases of the largest size
    uint64_t big(int quick, int deep) const { return (uint64_t)std::min(heavy, thorough ? deep : quick); }
    // one case per run is a marathon; k: number of the case after those of the largest size
    bool marathon(uint64_t& k) const { return heavy >= 100 && k-- == 0; }
    // systematic blocks are every fourth case until all were done; -1: this case is a random one
    static int64_t block(uint64_t k, uint64_t blocks) { return k % 4 == 0 && k / 4 < blocks ? (int64_t)(k / 4) : -1; }
    int steps(int lo, int hi)
    {
        int s = (int)rng.range(lo, hi);
        if (brief) s = lo;
        s = std::max(lo, s * weight / 100);
        return stretch == 1 ? s : std::max(s, s * stretch * weight / 100);
    }
    bool tracing() const { return keep_trace || live; }
    void log(const std::string& s)
    {
        if (keep_trace && trace.size() < (1u << 20)) { trace += s; trace += '\n'; }
        if (live) { fputs(s.c_str(), live); fputc('\n', live); fflush(live); }
    }
    void mixin(uint64_t v) { sig = (sig ^ v) * 0x9fb21c651e98df25ULL; sig ^= sig >> 29; }
    void hit(const char* k, uint64_t n = 1) { cnt[k] += n; }
    void state(uint64_t d) { if (states.size() < 4000000) states.insert(d); }
    [[noreturn]] void fail(const std::string& kind, const std::string& m) { log("VIOLATION " + kind + ": " + m); throw Violation(kind, m); }
    void check(bool ok, const char* kind, const std::string& m = "") { if (!ok) fail(kind, m); }
};
// evaluates the message only when needed
#define CHK(ctx, cond, kind, ...) do { (ctx).hit("oracle:" kind); if (!(cond)) (ctx).fail(kind, fmt(__VA_ARGS__)); } while (0)
#define LOG(ctx, ...) do { if ((ctx).tracing()) (ctx).log(__VA_ARGS__); } while (0)

// allocations made by this process (counted in builds without a sanitizer)
struct AllocStat { uint64_t live, total_bytes, largest; bool on; };
AllocStat alloc_stat();
void alloc_reset_peak();

// Registered workloads. Every workload is deterministic in (name, seed, case).
struct Prop { const char* id; void (*run)(Ctx&); };
std::vector<Prop>& props();
struct Reg { Reg(const char* id, void (*run)(Ctx&)) { props().push_back({id, run}); } };
#define WORKLOAD(id) static void run_##id(Ctx& c); static Reg reg_##id(#id, run_##id); static void run_##id(Ctx& c)

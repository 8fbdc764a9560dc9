// Driver: runs a range of deterministic cases of one workload and reports what was observed.
#include "core.h"
#include "model.h"
#include <atomic>
#include <cxxabi.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <typeinfo>
#include <unistd.h>

std::vector<Prop>& props() { static std::vector<Prop> p; return p; }

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(NO_ALLOC_COUNT)
#define COUNT_ALLOC 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define COUNT_ALLOC 0
#else
#define COUNT_ALLOC 1
#endif
#else
#define COUNT_ALLOC 1
#endif

#if COUNT_ALLOC
static std::atomic<uint64_t> g_live{0}, g_total{0}, g_largest{0};
static void* counted(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_live.fetch_add(1, std::memory_order_relaxed);
    g_total.fetch_add(n, std::memory_order_relaxed);
    if (n > g_largest.load(std::memory_order_relaxed)) g_largest.store(n, std::memory_order_relaxed);
    return p;
}
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n); }
void operator delete(void* p) noexcept { if (p) { g_live.fetch_sub(1, std::memory_order_relaxed); free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
AllocStat alloc_stat() { return {g_live, g_total, g_largest, true}; }
void alloc_reset_peak() { g_largest = 0; }
#else
AllocStat alloc_stat() { return {0, 0, 0, false}; }
void alloc_reset_peak() {}
#endif

static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch > 0x7e) o += fmt("\\u%04x", ch);
        else o += (char)ch;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    std::string prop, out, progress, trace, scratch = ".", digests;
    uint64_t seed = 1, from = 0, count = 1;
    bool thorough = false, memory_only = false, leak = false;
    int weight = 100, heavy = 1000;
    uint64_t max_as = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); _exit(3); } return argv[++i]; };
        if (a == "--prop") prop = val();
        else if (a == "--seed") seed = strtoull(val(), nullptr, 0);
        else if (a == "--from") from = strtoull(val(), nullptr, 0);
        else if (a == "--count") count = strtoull(val(), nullptr, 0);
        else if (a == "--out") out = val();
        else if (a == "--progress") progress = val();
        else if (a == "--trace") trace = val();
        else if (a == "--scratch") scratch = val();
        else if (a == "--digests") digests = val();
        else if (a == "--thorough") thorough = true;
        else if (a == "--memory-only") memory_only = true; // only crashes, sanitizer reports and leaks decide
        else if (a == "--leak") leak = true;
        else if (a == "--weight") weight = atoi(val());
        else if (a == "--heavy") heavy = atoi(val());
        else if (a == "--max-as-mb") max_as = strtoull(val(), nullptr, 0);
        else if (a == "--list") { for (auto& p : props()) puts(p.id); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    const Prop* P = nullptr;
    for (auto& p : props()) if (prop == p.id) P = &p;
    if (!P) { fprintf(stderr, "no workload %s\n", prop.c_str()); return 3; }
    if (max_as) { rlimit rl{max_as << 20, max_as << 20}; setrlimit(RLIMIT_AS, &rl); }
    rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);

    volatile uint64_t* prog = nullptr;
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, 16)) { perror("progress"); return 3; }
        prog = (uint64_t*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (prog == MAP_FAILED) { perror("mmap"); return 3; }
    }
    Ctx c;
    c.scratch = scratch;
    c.thorough = thorough;
    c.weight = weight;
    c.heavy = heavy;
    if (!trace.empty()) { c.live = fopen(trace.c_str(), "w"); if (!c.live) { perror("trace"); return 3; } }
    FILE* dg = digests.empty() ? nullptr : fopen(digests.c_str(), "w");
    std::unordered_set<uint64_t> sigs;
    std::vector<std::pair<uint64_t, std::string>> samples;
    std::string vkind, vmsg, vtrace;
    uint64_t vcase = 0, functional = 0, done = 0;
    int rc = 0;
    for (uint64_t k = from; k < from + count && rc == 0; ++k) {
        if (prog) { prog[0] = k; prog[1] = 1; }
        c.begin(P->id, seed, k);
        c.keep_trace = samples.size() < 2;
        uint64_t live0 = alloc_stat().live;
        uint64_t held0 = c.states.size() + c.cnt.size();
        (void)held0;
        auto one = [&] {
            try {
                P->run(c);
            } catch (const Violation& v) {
                if (memory_only) { ++functional; return; }
                vkind = v.kind; vmsg = v.what(); rc = 10;
            } catch (const mdl::Bug& b) {
                fprintf(stderr, "harness error in %s case %llu: %s\n", P->id, (unsigned long long)k, b.what);
                rc = 3;
            } catch (const std::exception& e) {
                int st;
                char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
                vkind = std::string("exception-") + (n ? n : "unknown");
                vmsg = std::string("an exception escaped from the library: ") + e.what();
                free(n);
                rc = 10;
            }
        };
        one();
        if (rc == 0 && leak && alloc_stat().on) {
            // run the same case again: bookkeeping of the harness is warm now, so nothing may stay allocated
            c.begin(P->id, seed, k);
            uint64_t a = alloc_stat().live, n0 = c.states.size() + c.cnt.size();
            c.keep_trace = false;
            one();
            { std::string().swap(c.trace); }
            uint64_t b = alloc_stat().live, n1 = c.states.size() + c.cnt.size();
            c.hit("oracle:leak-balance");
            if (rc == 0 && n0 == n1 && b > a) { vkind = "leak"; vmsg = fmt("%llu allocations of the library were never released by the case", (unsigned long long)(b - a)); rc = 10; }
        }
        (void)live0;
        if (rc == 10) { vcase = k; vtrace = c.trace; if (c.live) { fprintf(c.live, "VIOLATION %s: %s\n", vkind.c_str(), vmsg.c_str()); fflush(c.live); } break; }
        if (rc) break;
        ++done;
        if (dg) fprintf(dg, "%llu %016llx\n", (unsigned long long)k, (unsigned long long)c.sig);
        if (c.nontrivial) {
            sigs.insert(c.sig);
            if (samples.size() < 2 && !c.trace.empty()) samples.emplace_back(k, c.trace.substr(0, 1500));
        }
    }
    if (prog) prog[1] = 2;
    if (dg) fclose(dg);
    if (c.live) fclose(c.live);
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror("out"); return 3; }
        fprintf(f, "{\"cases\":%llu,\"functional\":%llu,\"nontrivial\":%zu,\"states\":%zu,\"counters\":{", (unsigned long long)done, (unsigned long long)functional, sigs.size(), c.states.size());
        bool first = true;
        for (auto& p : c.cnt) { fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(p.first).c_str(), (unsigned long long)p.second); first = false; }
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s{\"case\":%llu,\"trace\":%s}", i ? "," : "", (unsigned long long)samples[i].first, json_str(samples[i].second).c_str());
        fprintf(f, "]");
        if (rc == 10) fprintf(f, ",\"violation\":{\"case\":%llu,\"kind\":%s,\"msg\":%s,\"trace\":%s}", (unsigned long long)vcase, json_str(vkind).c_str(), json_str(vmsg).c_str(), json_str(vtrace.substr(0, 20000)).c_str());
        fprintf(f, "}\n");
        fclose(f);
        FILE* b = fopen((out + ".sets").c_str(), "wb");
        if (b) {
            uint64_t n = 0;
            std::vector<uint64_t> v(sigs.begin(), sigs.end());
            n = v.size();
            fwrite(&n, 8, 1, b);
            if (n) fwrite(v.data(), 8, n, b);
            v.assign(c.states.begin(), c.states.end());
            if (v.size() > 300000) v.resize(300000);
            n = v.size();
            fwrite(&n, 8, 1, b);
            if (n) fwrite(v.data(), 8, n, b);
            fclose(b);
        }
    }
    if (rc == 10) fprintf(stderr, "%s case %llu: %s: %s\n", P->id, (unsigned long long)vcase, vkind.c_str(), vmsg.c_str());
    fflush(nullptr);
    return rc;
}

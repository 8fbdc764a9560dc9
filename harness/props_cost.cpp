// C18: the work done by an operation is bounded by the request and the depth of the forest.
// The library is compiled with a counter at every edge of its control flow; the count of an operation
// does not depend on the machine or its load.
#include "world.h"

static uint64_t g_edges, g_copied;
static bool g_on;
#ifdef __clang__
#define UNCOUNTED __attribute__((no_sanitize("coverage")))
#else
#define UNCOUNTED __attribute__((no_sanitize_coverage))
#endif
extern "C" UNCOUNTED void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (g_on) ++g_edges; }
extern "C" UNCOUNTED void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
extern "C" UNCOUNTED void __sanitizer_cov_trace_pc() { if (g_on) ++g_edges; }

#define PLAIN extern "C" UNCOUNTED __attribute__((noinline))
PLAIN void* memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
    if (g_on) g_copied += n;
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
PLAIN void* memmove(void* d, const void* s, size_t n)
{
    if (g_on) g_copied += n;
    void* r = d;
    if (d <= s) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else {
        d = (char*)d + n - 1;
        s = (const char*)s + n - 1;
        asm volatile("std\n rep movsb\n cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    return r;
}
PLAIN void* memset(void* d, int v, size_t n)
{
    if (g_on) g_copied += n;
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}

namespace {
typedef unsigned long long ull;
// steps: edges of the control flow; bytes: allocated, copied or filled
struct Cost { uint64_t steps, bytes; };
template <class F> Cost meter(F f)
{
    uint64_t b = alloc_stat().total_bytes;
    g_edges = g_copied = 0;
    g_on = true;
    try { f(); } catch (...) { g_on = false; throw; }
    g_on = false;
    return {g_edges, alloc_stat().total_bytes - b + g_copied};
}
// What an operation may cost per unit (see the callers for the units): ten times what it cost on the
// unchanged tree at worst, twenty times where hashing dominates, since a hash function can be
// written in few or in many steps.
struct Limit { const char* op; double steps, bytes; };
const Limit LIMITS[] = {
    {"pollard-roots", 60, 310},
    {"verify", 240, 1300},
    {"refuse", 240, 1300},
    {"pollard-prove", 1000, 500},
    {"pollard-modify", 900, 500},
    {"forest-roots", 60, 300},
    {"forest-leaf", 60, 60},
    {"forest-prove", 60, 150},
    {"forest-verify", 5, 20},
    {"forest-refuse", 10, 40},
    {"forest-modify", 330, 400},
    {"forest-undo", 450, 400},
};
struct Judge {
    Ctx& c;
    bool each; // judge every operation; otherwise the median of an operation in this case (containers grow now and then)
    struct Sample { double steps, bytes; std::string what; };
    std::map<std::string, std::vector<Sample>> seen;
    void verdict(const std::string& op, double s, double b, const std::string& what)
    {
        const Limit* l = nullptr;
        for (auto& x : LIMITS) if (op == x.op) l = &x;
        if (!l) throw mdl::Bug{"no limit"};
        CHK(c, s <= l->steps, "cost-steps", "%s: %.1f steps per unit of the request, at most %.1f are expected: %s", op.c_str(), s, l->steps, what.c_str());
        CHK(c, b <= l->bytes, "cost-memory", "%s: %.1f bytes per unit of the request, at most %.1f are expected: %s", op.c_str(), b, l->bytes, what.c_str());
    }
    void operator()(const char* op, Cost k, double unit, uint64_t n, const std::string& what)
    {
        std::string w = fmt("%s at %llu leaves, %llu steps, %llu bytes", what.c_str(), (ull)n, (ull)k.steps, (ull)k.bytes);
        LOG(c, w);
        c.hit("metered");
        c.mixin(k.steps);
        if (each) verdict(op, k.steps / unit, k.bytes / unit, w);
        else seen[op].push_back({k.steps / unit, k.bytes / unit, w});
    }
    void finish()
    {
        for (auto& [op, v] : seen) {
            if (v.size() < 5) continue;
            std::sort(v.begin(), v.end(), [](const Sample& x, const Sample& y) { return x.steps < y.steps; });
            const Sample m = v[v.size() / 2];
            std::sort(v.begin(), v.end(), [](const Sample& x, const Sample& y) { return x.bytes < y.bytes; });
            verdict(op, m.steps, v[v.size() / 2].bytes, "median: " + m.what);
        }
    }
};
}
static mdl::P sparse(Ctx& c, int h, uint64_t start, const std::set<uint64_t>& want, LeafGen& g)
{
    auto it = want.lower_bound(start);
    bool inside = it != want.end() && *it - start < (1ULL << h);
    if (!inside || h == 0) return mdl::leaf(g.fresh(c.rng));
    auto l = sparse(c, h - 1, start, want, g);
    return mdl::join(l, sparse(c, h - 1, start + (1ULL << (h - 1)), want, g));
}
struct Client {
    Ctx& c;
    World& w;
    Pollard& p;
    Judge& judge;
    std::set<Hash> kept;
    double d() const { return mdl::rows_of(w.m.n) + 2; }
    std::string at(const char* s, size_t k) const { return fmt("%s of %zu, %zu cached", s, k, kept.size()); }
    void roots() { std::vector<Hash> v; judge("pollard-roots", meter([&] { p.Roots(v); }), d(), w.m.n, "roots"); }
    void verify(const std::vector<uint64_t>& t, const std::vector<Hash>& ph)
    {
        std::vector<Hash> th = hashes_at(w.m, t);
        bool ok = false;
        BatchProof q(t, ph);
        Cost k = meter([&] { ok = p.Verify(q, th); });
        CHK(c, ok, "honest-verify", "light client at %llu leaves rejects a proof of %s", (ull)w.m.n, list(t).c_str());
        judge("verify", k, (t.size() + 1) * d() * d(), w.m.n, at("verify", t.size()));
        kept.insert(th.begin(), th.end());
    }
    void refuse(const BatchProof& q, const std::vector<Hash>& th, const char* what)
    {
        bool ok = true;
        Cost k = meter([&] { ok = p.Verify(q, th); });
        CHK(c, !ok, "false-claim-accepted", "light client at %llu leaves accepts a false claim", (ull)w.m.n);
        judge("refuse", k, (q.GetTargets().size() + q.GetHashes().size() + th.size() + 1) * d() * d(), w.m.n, at(what, q.GetTargets().size()));
    }
    void prove(const std::vector<uint64_t>& t)
    {
        std::vector<Hash> th = hashes_at(w.m, t);
        bool ok = false;
        BatchProof q;
        Cost k = meter([&] { ok = p.Prove(q, th); });
        CHK(c, ok && q.GetTargets() == t, "cached-proof", "light client at %llu leaves cannot prove %s", (ull)w.m.n, list(t).c_str());
        judge("pollard-prove", k, (t.size() + 1) * d() * d(), w.m.n, at("prove", t.size()));
    }
    void modify(const std::vector<Leaf>& adds, const std::vector<uint64_t>& t)
    {
        bool ok = false;
        for (const Hash& h : hashes_at(w.m, t)) kept.erase(h);
        size_t cached = kept.size() + t.size();
        Cost k = meter([&] { ok = p.Modify(adds, t); });
        CHK(c, ok, "pollard-modify", "light client at %llu leaves refuses to remove %s", (ull)w.m.n, list(t).c_str());
        for (auto& l : adds) if (l.second) kept.insert(l.first);
        judge("pollard-modify", k, (t.size() + adds.size() + cached + 1) * d() * d(), w.m.n, at("modify", t.size()) + fmt(" %zu adds", adds.size()));
    }
};
// arbitrary requests
static BatchProof junk(Rng& r, uint64_t n, std::vector<Hash>& th, LeafGen& g)
{
    std::vector<uint64_t> t;
    std::vector<Hash> ph;
    int big = (int)r.below(4);
    size_t k = big == 0 ? r.below(2000) : r.below(20), h = big == 1 ? r.below(2000) : r.below(100), s = big == 2 ? r.below(2000) : r.chance(1, 2) ? k : r.below(20);
    for (size_t i = 0; i < k; ++i) t.push_back(r.chance(1, 10) ? r.next() : r.below(n ? n : 1));
    if (r.chance(3, 4)) { std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); }
    for (size_t i = 0; i < h; ++i) ph.push_back(g.fresh(r));
    for (size_t i = 0; i < s; ++i) th.push_back(g.fresh(r));
    if (th.empty() && t.empty()) th.push_back(g.fresh(r));
    return BatchProof(t, ph);
}
static void cost_sparse(Ctx& c)
{
    Rng& r = c.rng;
    int lowbits = (int)r.range(1, 6), high = (int)r.range(std::max(lowbits + 1, 12), 61);
    uint64_t n = (1ULL << high) | ((1ULL << lowbits) - 1);
    for (int k = (int)r.below(4); k > 0; --k) n |= 1ULL << r.range(lowbits, high - 1);
    if (r.chance(1, 3)) n &= ~((1ULL << r.range(lowbits, high - 1)) - 1) | 1ULL << high;
    std::set<uint64_t> want;
    for (int k = 0; k < 12; ++k) want.insert(r.below(n));
    for (int k = 0; k < 6; ++k) want.insert(n - 1 - r.below(std::min<uint64_t>(n, 1ULL << lowbits)));
    Judge judge{c, true, {}};
    World w(c);
    w.m.n = n;
    for (int h = 62; h >= 0; --h) if ((n >> h) & 1) w.m.root[h] = sparse(c, h, (n >> (h + 1)) << (h + 1), want, w.gen);
    Pollard p(w.m.roots(), n);
    Client cl{c, w, p, judge, {}};
    for (int i = 0; i < 5; ++i) {
        std::vector<uint64_t> known, held;
        std::function<void(const mdl::P&, int, uint64_t)> walk = [&](const mdl::P& q, int h, uint64_t st) {
            if (h == 0) { known.push_back(st); return; }
            if (!q->l) return;
            walk(q->l, h - 1, st);
            walk(q->r, h - 1, st + (1ULL << (h - 1)));
        };
        for (int h = 62; h >= 0; --h) if (w.m.has_root(h)) walk(w.m.root[h], h, w.m.tree_start(h));
        if (known.empty()) break;
        for (uint64_t x : known) if (cl.kept.count(w.m.leaf_at(x)) && r.chance(1, 2)) held.push_back(x);
        auto choose = [&] {
            std::set<uint64_t> ts;
            for (int k = 1 + (int)r.below(4); k > 0; --k) ts.insert(known[r.below(known.size())]);
            return std::vector<uint64_t>(ts.begin(), ts.end());
        };
        cl.roots();
        if (!held.empty()) cl.prove(held);
        if (r.chance(1, 2)) { std::vector<Hash> th; BatchProof q = junk(r, w.m.n, th, w.gen); cl.refuse(q, th, "junk"); }
        auto t = choose();
        auto ph = w.m.proof_hashes(t);
        { auto th = hashes_at(w.m, t); th[r.below(th.size())][3] ^= 4; cl.refuse(BatchProof(t, ph), th, "flipped"); }
        if (r.chance(1, 2)) { auto u = choose(); cl.verify(u, w.m.proof_hashes(u)); }
        cl.verify(t, ph);
        std::vector<Leaf> adds;
        for (int a = (int)r.below(6); a > 0; --a) adds.emplace_back(w.gen.fresh(r), r.chance(1, 2));
        cl.modify(adds, t);
        w.m.remove(t);
        for (auto& l : adds) w.m.add(l.first);
        check_roots(c, p, w.m, "pollard");
        c.state(model_digest(w.m));
    }
    c.hit("sparse");
    c.nontrivial = true;
}
static void cost_forest(Ctx& c)
{
    Rng& r = c.rng;
    Judge judge{c, false, {}};
    World w(c);
    w.f = std::make_unique<RamForest>(0);
    uint64_t n = r.range(1 << 13, 1 << 15);
    if (r.chance(1, 8)) n = r.range(1 << 15, 1 << 17);
    uint64_t fill = n;
    Pollard p(0);
    Client cl{c, w, p, judge, {}};
    uint64_t den = r.chance(1, 4) ? 2 : r.chance(1, 2) ? 50 : 3000;
    std::vector<Leaf> all;
    for (uint64_t i = 0; i < fill; ++i) { all.emplace_back(w.gen.fresh(r), r.below(den) == 0); }
    CHK(c, p.Modify(all, {}), "pollard-modify", "adding is refused");
    for (auto& l : all) if (l.second) cl.kept.insert(l.first);
    UndoBatch u0;
    CHK(c, w.f->Modify(u0, all, {}), "forest-modify", "adding is refused");
    for (auto& l : all) w.m.add(l.first);
    RamForest& f = *w.f;
    for (int i = 0; i < 12; ++i) {
        double d = mdl::rows_of(w.m.n) + 2;
        uint64_t m = w.m.n;
        std::set<uint64_t> ts;
        size_t k = r.chance(1, 5) ? 1 + r.below(300) : 1 + r.below(12);
        uint64_t base = r.below(m);
        bool near = r.chance(1, 2);
        while (k--) ts.insert(near ? (base + r.below(20)) % m : r.below(m));
        std::vector<uint64_t> t(ts.begin(), ts.end());
        std::vector<Hash> th = hashes_at(w.m, t);
        { std::vector<Hash> v; judge("forest-roots", meter([&] { f.Roots(v); }), d, m, "roots"); }
        { Hash h; judge("forest-leaf", meter([&] { h = f.GetLeaf(t[0]); }), d, m, "leaf"); CHK(c, h == th[0], "leaf", "wrong leaf"); }
        BatchProof q;
        bool ok = false;
        Cost k1 = meter([&] { ok = f.Prove(q, th); });
        CHK(c, ok && q.GetTargets() == t, "forest-prove", "the forest does not prove %s", list(t).c_str());
        judge("forest-prove", k1, (t.size() + 1) * d * d, m, fmt("prove of %zu", t.size()));
        k1 = meter([&] { ok = f.Verify(q, th); });
        CHK(c, ok, "forest-verify", "the forest does not verify %s", list(t).c_str());
        judge("forest-verify", k1, (t.size() + 1) * d * d, m, fmt("verify of %zu", t.size()));
        {
            std::vector<Hash> g = th;
            g[r.below(g.size())] = w.gen.fresh(r);
            BatchProof x;
            k1 = meter([&] { ok = f.Prove(x, g) || f.Verify(q, g); });
            CHK(c, !ok, "absent-proven", "an absent leaf is proven");
            judge("forest-refuse", k1, (t.size() + 1) * d * d, m, fmt("refusal of %zu", t.size()));
        }
        cl.roots();
        { std::vector<Hash> g; BatchProof x = junk(r, m, g, w.gen); cl.refuse(x, g, "junk"); }
        { auto g = th; g[r.below(g.size())][3] ^= 4; cl.refuse(q, g, "flipped"); }
        cl.verify(t, q.GetHashes());
        {
            std::vector<uint64_t> held;
            for (int j = 0; j < 40 && held.size() < 10; ++j) { uint64_t x = r.below(m); if (cl.kept.count(w.m.leaf_at(x))) held.push_back(x); }
            held.push_back(t[0]);
            std::sort(held.begin(), held.end());
            held.erase(std::unique(held.begin(), held.end()), held.end());
            cl.prove(held);
        }
        std::vector<Leaf> adds;
        for (int a = (int)r.below(r.chance(1, 5) ? 300 : 8); a > 0; --a) adds.emplace_back(w.gen.fresh(r), r.below(den) == 0);
        cl.modify(adds, t);
        UndoBatch u;
        k1 = meter([&] { ok = f.Modify(u, adds, t); });
        CHK(c, ok, "forest-modify", "the forest refuses to remove %s", list(t).c_str());
        mdl::Forest before = w.m;
        w.m.remove(t);
        uint64_t moved = w.m.moved;
        for (auto& l : adds) w.m.add(l.first);
        judge("forest-modify", k1, ((t.size() + adds.size() + 1) * d + moved) * d, m, fmt("modify of %zu, %zu adds, %llu moved", t.size(), adds.size(), (ull)moved));
        if (r.chance(2, 3)) {
            k1 = meter([&] { ok = f.Undo(u); });
            CHK(c, ok, "undo", "undo is refused");
            judge("forest-undo", k1, ((t.size() + adds.size() + 1) * d + moved) * d, m, fmt("undo of %zu, %zu adds, %llu moved", t.size(), adds.size(), (ull)moved));
            k1 = meter([&] { ok = f.Modify(u, adds, t); });
            CHK(c, ok, "forest-modify", "redo is refused");
        }
        check_roots(c, f, w.m, "forest");
        check_roots(c, p, w.m, "pollard");
        c.state(model_digest(w.m));
    }
    judge.finish();
    c.hit("forest");
    c.nontrivial = true;
}
// a request k times as large costs about k times as much
static void cost_growth(Ctx& c)
{
    Rng& r = c.rng;
    World w(c);
    w.f = std::make_unique<RamForest>(0);
    RamForest& f = *w.f;
    uint64_t n = r.range(1 << 16, 1 << 17), small = r.range(150, 250), large = r.range(12000, 20000);
    std::vector<Leaf> all;
    for (uint64_t i = 0; i < n; ++i) all.emplace_back(w.gen.fresh(r), false);
    CHK(c, static_cast<utreexo::Accumulator&>(f).Modify(all, {}), "forest-modify", "adding is refused");
    for (auto& l : all) w.m.add(l.first);
    std::vector<Hash> rt = w.m.roots();
    int shape = (int)r.below(3); // all over the forest, or in clusters
    std::map<std::string, Cost> first;
    std::map<std::string, double> units[2];
    for (int round = 0; round < 2; ++round) {
        uint64_t k = round ? large : small;
        std::set<uint64_t> ts;
        while (ts.size() < k) {
            uint64_t x = r.below(n);
            ts.insert(x);
            if (shape) for (uint64_t i = x; i < x + 4 * shape && i < n && ts.size() < k; ++i) ts.insert(i);
        }
        std::vector<uint64_t> t(ts.begin(), ts.end());
        std::vector<Hash> th = hashes_at(w.m, t), asked = th;
        r.shuffle(asked);
        bool ok = false;
        // unit: what the request calls for, if that is not the number of targets
        auto step = [&](const char* op, auto fn, double unit = 0) {
            Cost k2 = meter(fn);
            c.hit("metered");
            c.mixin(k2.steps);
            units[round][op] = unit ? unit : k;
            LOG(c, fmt("%s of %llu targets: %llu steps, %llu bytes", op, (ull)k, (ull)k2.steps, (ull)k2.bytes));
            if (!round) { first[op] = k2; return; }
            Cost k1 = first[op];
            // what a light client moves depends on the number of its cached leaves as well
            double ratio = units[1][op] / units[0][op] * (op == std::string("pollard-modify") ? 2 : 1);
            CHK(c, k2.steps <= 3 * ratio * (k1.steps + 100), "cost-growth", "%s: %llu steps for %llu targets and %llu steps for %llu targets at %llu leaves", op, (ull)k1.steps, (ull)small, (ull)k2.steps, (ull)large, (ull)n);
            CHK(c, k2.bytes <= 4 * ratio * (k1.bytes + 400), "cost-growth", "%s: %llu bytes for %llu targets and %llu bytes for %llu targets at %llu leaves", op, (ull)k1.bytes, (ull)small, (ull)k2.bytes, (ull)large, (ull)n);
        };
        BatchProof q, q2;
        step("forest-prove", [&] { ok = f.Prove(q, asked); });
        CHK(c, ok && q.GetSortedTargets() == t, "forest-prove", "the forest does not prove %llu leaves", (ull)k);
        step("forest-verify", [&] { ok = f.Verify(q, th); });
        CHK(c, ok, "forest-verify", "the forest does not verify %llu leaves", (ull)k);
        step("check-sanity", [&] { ok = q.CheckSanity(n); });
        CHK(c, ok, "sanity", "an honest proof fails the sanity check");
        std::vector<uint8_t> bytes;
        step("serialize", [&] { q.Serialize(bytes); });
        step("unserialize", [&] { ok = q2.Unserialize(bytes); });
        CHK(c, ok, "unserialize", "a serialized proof does not read back");
        step("compare", [&] { ok = q2 == q; });
        CHK(c, ok, "unserialize", "a serialized proof reads back as another one");
        Pollard p(rt, n);
        {
            std::vector<Hash> lie = th;
            lie[r.below(lie.size())][5] ^= 1;
            step("refuse", [&] { ok = p.Verify(q, lie); });
            CHK(c, !ok, "false-claim-accepted", "a false claim is accepted");
            BatchProof many(t, std::vector<Hash>(q.GetHashes().size() + k));
            step("refuse-surplus", [&] { ok = p.Verify(many, th); });
            CHK(c, !ok, "false-claim-accepted", "a proof with too many hashes is accepted");
            std::vector<uint64_t> rev(t.rbegin(), t.rend());
            rev.push_back(rev.back());
            BatchProof twice(rev, q.GetHashes());
            step("refuse-repeated", [&] { ok = p.Verify(twice, th); });
            CHK(c, !ok, "false-claim-accepted", "a proof with a repeated target is accepted");
        }
        step("verify", [&] { ok = p.Verify(q, th); });
        CHK(c, ok, "honest-verify", "an honest proof of %llu leaves is rejected", (ull)k);
        step("verify-cached", [&] { ok = p.Verify(q, th); });
        CHK(c, ok, "honest-verify", "a known proof of %llu leaves is rejected", (ull)k);
        step("pollard-prove", [&] { ok = p.Prove(q2, th); });
        CHK(c, ok && q2.GetHashes() == q.GetHashes(), "cached-proof", "a pollard does not prove the %llu leaves it has verified", (ull)k);
        std::vector<Leaf> adds;
        for (uint64_t i = 0; i < k; ++i) adds.emplace_back(w.gen.fresh(r), i % 2 == 0);
        step("pollard-modify", [&] { ok = p.Modify(adds, t); });
        CHK(c, ok, "pollard-modify", "a pollard refuses to remove %llu leaves", (ull)k);
        step("prune", [&] { p.Prune(); });
        UndoBatch u, u2;
        // what moves subtrees costs more; only additions and undo data are compared
        step("forest-add", [&] { ok = f.Modify(u, adds, {}); });
        CHK(c, ok, "forest-modify", "the forest refuses additions");
        step("undo-adds", [&] { ok = f.Undo(u); });
        CHK(c, ok, "undo", "undo is refused");
        UndoBatch d(k, t, th);
        std::vector<uint8_t>().swap(bytes);
        step("undo-serialize", [&] { d.Serialize(bytes); });
        step("undo-unserialize", [&] { ok = u2.Unserialize(bytes); });
        CHK(c, ok && u2 == d, "unserialize", "serialized undo data does not read back");
        step("undo-refuse", [&] { ok = f.Undo(d); });
        CHK(c, !ok, "impossible-undone", "undo data of another forest is accepted");
        auto spend = [&](const char* name, const std::vector<uint64_t>& which) {
            std::string op = name;
            mdl::Forest next = w.m;
            next.remove(which);
            double d = mdl::rows_of(n) + 2, unit = (which.size() * d + (round && which.back() - which[0] >= which.size() ? next.moved : 0)) * d; // the last leaves just go
            step((op + "-remove").c_str(), [&] { ok = f.Modify(u, {}, which); }, unit);
            CHK(c, ok, "forest-modify", "the forest refuses to remove %llu leaves", (ull)k);
            check_roots(c, f, next, "forest");
            step((op + "-undo").c_str(), [&] { ok = f.Undo(u); }, unit);
            CHK(c, ok, "undo", "undo is refused");
            check_roots(c, f, w.m, "forest");
        };
        spend("scattered", t);
        std::vector<uint64_t> last;
        for (uint64_t i = n - k; i < n; ++i) last.push_back(i);
        spend("last", last);
        {
            BatchProof lp(last, w.m.proof_hashes(last));
            Pollard p2(rt, n);
            CHK(c, p2.Verify(lp, hashes_at(w.m, last)), "honest-verify", "an honest proof of the last %llu leaves is rejected", (ull)k);
            step("pollard-remove-last", [&] { ok = p2.Modify({}, last); });
            CHK(c, ok, "pollard-modify", "a pollard refuses to remove the last %llu leaves", (ull)k);
        }
        c.hit("growth", round);
    }
    c.state(c.sig);
    c.nontrivial = true;
}
// the same requests to a forest, a light client and a client that caches everything, and to ones 128 times as large
static void cost_sizes(Ctx& c)
{
    Rng& r = c.rng;
    uint64_t base = r.range(60, 128), low = r.below(8) | 1;
    std::map<std::string, std::vector<Cost>> seen[2];
    uint64_t size[2];
    for (int round = 0; round < 2; ++round) {
        World w(c);
        w.f = std::make_unique<RamForest>(0);
        RamForest& f = *w.f;
        uint64_t n = size[round] = (round ? base << 10 : base << 3) | low;
        std::vector<Leaf> all;
        for (uint64_t i = 0; i < n; ++i) all.emplace_back(w.gen.fresh(r), true);
        Pollard hoarder(0);
        CHK(c, static_cast<utreexo::Accumulator&>(f).Modify(all, {}) && hoarder.Modify(all, {}), "forest-modify", "adding is refused");
        for (auto& l : all) w.m.add(l.first);
        Pollard light(w.m.roots(), n);
        auto step = [&](const char* op, auto fn) {
            Cost k = meter(fn);
            c.hit("metered");
            c.mixin(k.steps);
            LOG(c, fmt("%s at %llu leaves: %llu steps, %llu bytes", op, (ull)n, (ull)k.steps, (ull)k.bytes));
            seen[round][op].push_back(k);
        };
        for (int i = 0; i < 9; ++i) {
            std::set<uint64_t> ts;
            while (ts.size() < 3) ts.insert(r.below(n - 1)); // not in the tree of a single leaf
            std::vector<uint64_t> t(ts.begin(), ts.end()), one{t[r.below(3)]};
            std::vector<Hash> th = hashes_at(w.m, t), lie = th, oh = hashes_at(w.m, one);
            lie[r.below(3)][r.below(32)] ^= 1;
            BatchProof q, q1, q2;
            bool ok = false;
            std::vector<Hash> rt;
            Hash h;
            step("forest-roots", [&] { f.Roots(rt); });
            step("forest-leaf", [&] { h = f.GetLeaf(t[0]); });
            step("forest-prove", [&] { ok = f.Prove(q, th); });
            CHK(c, ok && h == th[0] && f.Prove(q1, oh), "forest-prove", "the forest does not prove %s", list(t).c_str());
            step("forest-refuse-prove", [&] { ok = f.Prove(q2, lie); });
            CHK(c, !ok, "absent-proven", "an absent leaf is proven");
            step("forest-verify", [&] { ok = f.Verify(q, th); });
            CHK(c, ok, "forest-verify", "the forest does not verify %s", list(t).c_str());
            step("forest-refuse", [&] { ok = f.Verify(q, lie); });
            CHK(c, !ok, "absent-proven", "an absent leaf is verified");
            step("check-sanity", [&] { ok = q.CheckSanity(n); });
            CHK(c, ok, "sanity", "an honest proof fails the sanity check");
            std::vector<Leaf> adds{{w.gen.fresh(r), true}};
            for (int who = 0; who < 2; ++who) {
                Pollard& p = who ? hoarder : light;
                std::string name = who ? "hoarder-" : "light-";
                auto st = [&](const char* op, auto fn) { step((name + op).c_str(), fn); };
                st("roots", [&] { p.Roots(rt); });
                st("refuse", [&] { ok = p.Verify(q, lie); });
                CHK(c, !ok, "false-claim-accepted", "a false claim is accepted");
                st("verify", [&] { ok = p.Verify(q, th); });
                CHK(c, ok, "honest-verify", "an honest proof of %s is rejected", list(t).c_str());
                st("prove", [&] { ok = p.Prove(q2, th); });
                CHK(c, ok && q2.GetHashes() == q.GetHashes(), "cached-proof", "a pollard does not prove %s", list(t).c_str());
                st("refuse-prove", [&] { ok = p.Prove(q2, lie); });
                CHK(c, !ok, "absent-proven", "an absent leaf is proven");
                st("modify", [&] { ok = p.Modify(adds, one); });
                CHK(c, ok, "pollard-modify", "a pollard refuses to remove %s", list(one).c_str());
            }
            UndoBatch u;
            step("forest-modify", [&] { ok = f.Modify(u, adds, one); });
            CHK(c, ok, "forest-modify", "the forest refuses to remove %s", list(one).c_str());
            step("forest-undo", [&] { ok = f.Undo(u); });
            CHK(c, ok, "undo", "undo is refused");
            step("forest-refuse-modify", [&] { ok = f.Modify(u, adds, {one[0], one[0]}); });
            CHK(c, !ok, "invalid-accepted", "a repeated position is accepted");
            CHK(c, f.Modify(u, adds, one), "forest-modify", "redo is refused");
            w.m.remove(one);
            w.m.add(adds[0].first);
            check_roots(c, f, w.m, "forest");
            check_roots(c, light, w.m, "light client");
            check_roots(c, hoarder, w.m, "hoarder");
        }
    }
    auto median = [](std::vector<Cost> v, bool steps) {
        std::sort(v.begin(), v.end(), [&](const Cost& a, const Cost& b) { return steps ? a.steps < b.steps : a.bytes < b.bytes; });
        return steps ? v[v.size() / 2].steps : v[v.size() / 2].bytes;
    };
    for (auto& [op, v] : seen[0]) {
        uint64_t s1 = median(v, true), b1 = median(v, false), s2 = median(seen[1][op], true), b2 = median(seen[1][op], false);
        LOG(c, fmt("medians of %s: %llu and %llu steps, %llu and %llu bytes", op.c_str(), (ull)s1, (ull)s2, (ull)b1, (ull)b2));
        CHK(c, s2 <= 8 * (s1 + 300), "cost-size", "%s: %llu steps at %llu leaves and %llu steps at %llu leaves for the same request", op.c_str(), (ull)s1, (ull)size[0], (ull)s2, (ull)size[1]);
        CHK(c, b2 <= 8 * (b1 + 2000), "cost-size", "%s: %llu bytes at %llu leaves and %llu bytes at %llu leaves for the same request", op.c_str(), (ull)b1, (ull)size[0], (ull)b2, (ull)size[1]);
    }
    c.hit("sizes");
    c.state(c.sig);
    c.nontrivial = true;
}
WORKLOAD(C18)
{
    if (c.rng.chance(1, 150)) return cost_sizes(c);
    if (c.rng.chance(1, 150)) return cost_growth(c);
    if (c.rng.chance(1, 10)) cost_forest(c); else cost_sparse(c);
}

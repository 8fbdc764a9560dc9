// Histories of modifications of the full forest and of pollards following it.
#include "world.h"
#include <algorithm>
using utreexo::Accumulator;

namespace {
void setup(World& w) { w.setup(); }
int steps(Ctx& c, int lo, int hi) { return c.steps(lo, hi); }
std::vector<uint64_t> bits(uint64_t mask)
{
    std::vector<uint64_t> t;
    for (int i = 0; i < 64; ++i) if ((mask >> i) & 1) t.push_back(i);
    return t;
}
struct Range { int n; uint64_t lo, hi; };
// all subsets of 1..nmax leaves, cut into blocks
std::vector<Range> subset_blocks(int nmax, uint64_t per)
{
    std::vector<Range> v;
    for (int n = nmax; n >= 1; --n)
        for (uint64_t lo = 0; lo < (1ULL << n); lo += per) v.push_back({n, lo, std::min<uint64_t>(lo + per, 1ULL << n)});
    return v;
}
std::vector<Range> ternary_blocks(int nmax, uint64_t per)
{
    std::vector<Range> v;
    for (int n = nmax; n >= 2; --n) {
        uint64_t tot = 1;
        for (int i = 0; i < n; ++i) tot *= 3;
        for (uint64_t lo = 0; lo < tot; lo += per) v.push_back({n, lo, std::min<uint64_t>(lo + per, tot)});
    }
    return v;
}
} // namespace

// ---------------------------------------------------------------- C01
static void c01_exhaustive(Ctx& c, const Range& r)
{
    LOG(c, fmt("every deletion subset %llu..%llu of %d leaves, then additions", (unsigned long long)r.lo, (unsigned long long)r.hi, r.n));
    for (uint64_t mask = r.lo; mask < r.hi; ++mask) {
        World w(c);
        w.gen.style = (int)(mask % 3);
        w.f = std::make_unique<RamForest>(0);
        w.grow(r.n);
        World::Step st;
        st.targets = bits(mask);
        uint64_t adds = c.rng.below(5);
        for (uint64_t i = 0; i < adds; ++i) st.adds.push_back(w.gen.fresh(c.rng));
        w.forest_apply(st, (int)(mask % 4));
        check_forest(c, *w.f, w.m, true);
        check_positions(c, *w.f, w.m, 4);
        c.hit("exhaustive:deletion-subsets");
    }
}
static void c01_ternary(Ctx& c, const Range& r)
{
    LOG(c, fmt("every pair of successive deletions %llu..%llu of %d leaves", (unsigned long long)r.lo, (unsigned long long)r.hi, r.n));
    for (uint64_t code = r.lo; code < r.hi; ++code) {
        World w(c);
        w.f = std::make_unique<RamForest>(0);
        w.grow(r.n);
        std::vector<Hash> second;
        World::Step s1, s2;
        uint64_t x = code;
        for (int i = 0; i < r.n; ++i, x /= 3) {
            if (x % 3 == 1) s1.targets.push_back(i);
            if (x % 3 == 2) second.push_back(w.m.leaf_at(i));
        }
        uint64_t adds = c.rng.below(4);
        for (uint64_t i = 0; i < adds; ++i) s1.adds.push_back(w.gen.fresh(c.rng));
        w.forest_apply(s1, (int)(code % 3));
        auto lv = w.m.leaves();
        for (uint64_t i = 0; i < lv.size(); ++i) if (std::find(second.begin(), second.end(), lv[i]) != second.end()) s2.targets.push_back(i);
        w.forest_apply(s2, (int)(code % 2));
        check_forest(c, *w.f, w.m, true);
        check_positions(c, *w.f, w.m, 3);
        c.hit("exhaustive:double-deletions");
    }
}
static void c01_big(Ctx& c, uint64_t which)
{
    static const uint64_t sizes[] = {70001, 131071, 65536, 140003, 262145, 99999, 524287, 1048577};
    World w(c);
    w.f = std::make_unique<RamForest>(0);
    uint64_t n = w.scaled(sizes[which % 8]);
    LOG(c, fmt("large forest of %llu leaves", (unsigned long long)n));
    w.grow(n);
    check_forest(c, *w.f, w.m, false);
    for (int s = 0; s < 4; ++s) {
        World::Step st;
        uint64_t m = w.m.n;
        switch ((s + which) % 5) {
        case 0: { uint64_t a = c.rng.below(m), b = std::min(m, a + 1 + c.rng.below(m / 3)); for (uint64_t i = a; i < b; ++i) st.targets.push_back(i); break; }
        case 1: for (uint64_t i = 0; i < m; ++i) if (c.rng.chance(1, 50)) st.targets.push_back(i); break;
        case 2: { std::set<uint64_t> t; for (int i = 0; i < 40; ++i) t.insert(c.rng.below(m)); st.targets.assign(t.begin(), t.end()); break; }
        case 3: { uint64_t h = 1; while (h * 4 <= m) h *= 2; for (uint64_t i = 0; i < h; ++i) st.targets.push_back(i); break; } // a subtree of 2^15 leaves and more is moved
        default: for (uint64_t i = c.rng.below(2); i < m; i += 2) st.targets.push_back(i);
        }
        uint64_t k = c.rng.below(3000);
        if (s == 2) k += w.rounding(m - st.targets.size() + k, n / 2);
        for (uint64_t i = 0; i < k; ++i) st.adds.push_back(w.gen.fresh(c.rng));
        if (st.targets.empty()) continue;
        Hash gone = w.m.leaf_at(st.targets[c.rng.below(st.targets.size())]);
        w.forest_apply(st, 1);
        check_forest(c, *w.f, w.m, s == 3);
        check_positions(c, *w.f, w.m, 500);
        BatchProof p;
        CHK(c, !w.f->Prove(p, {gone}), "deleted-provable", "a deleted leaf is still proven in a forest of %llu leaves", (unsigned long long)w.m.n);
        c.hit("big:steps");
    }
}
static void c01_marathon(Ctx& c)
{
    World w(c);
    w.marathon(c.thorough ? 200000 : 66000, [](const World::Step&) {}, [&](uint64_t, bool look) {
        if (look) { check_forest(c, *w.f, w.m, true); check_positions(c, *w.f, w.m, 12); }
        else check_roots(c, *w.f, w.m, "forest");
    });
}
WORKLOAD(C01)
{
    auto ex = subset_blocks(c.thorough ? 15 : 11, 256);
    auto te = ternary_blocks(c.thorough ? 9 : 7, 512);
    uint64_t k = c.case_no, big = c.big(4, 16);
    if (k < big) return c01_big(c, c.thorough ? k : k + c.seed);
    k -= big;
    if (c.marathon(k)) return c01_marathon(c);
    int64_t b = c.block(k, ex.size() + te.size());
    if (b >= (int64_t)ex.size()) return c01_ternary(c, te[b - ex.size()]);
    if (b >= 0) return c01_exhaustive(c, ex[b]);
    World w(c);
    setup(w);
    if (c.stretch == 1 && w.cap < 200 && c.rng.chance(1, 12)) w.cap = 1500;
    int n = steps(c, 4, 25);
    for (int i = 0; i < n; ++i) {
        w.forest_apply(w.plan(), -1);
        check_forest(c, *w.f, w.m, true);
        check_positions(c, *w.f, w.m, w.m.n <= 40 ? 40 : 12);
    }
    // the same leaves added to an empty forest give the same commitment
    RamForest fresh(0);
    fresh.Add(w.flag(w.m.leaves(), 4));
    check_roots(c, fresh, w.m, "rebuilt forest");
    c.hit("op:rebuild-compare");
}

// ---------------------------------------------------------------- C02
static void forest_pollards_agree(Ctx& c, World& w)
{
    std::vector<Hash> want, got;
    w.f->Roots(want);
    for (Slot& s : w.slots) {
        s.p->Roots(got);
        CHK(c, s.p->NumLeaves() == w.f->NumLeaves(), "leaf-count", "%s reports %llu leaves, the forest %llu", s.name.c_str(), (unsigned long long)s.p->NumLeaves(), (unsigned long long)w.f->NumLeaves());
        CHK(c, got == want, "roots-disagree", "%s and the forest have different roots at %llu leaves", s.name.c_str(), (unsigned long long)w.f->NumLeaves());
    }
}
static void std_slots(World& w)
{
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    w.add_slot("hoarder", 8);
    w.add_slot("restarting", 1);
}
static void c02_exhaustive(Ctx& c, const Range& r)
{
    LOG(c, fmt("pollards: every deletion subset %llu..%llu of %d leaves", (unsigned long long)r.lo, (unsigned long long)r.hi, r.n));
    for (uint64_t mask = r.lo; mask < r.hi; ++mask) {
        World w(c);
        w.f = std::make_unique<RamForest>(0);
        std_slots(w);
        World::Step st;
        for (int i = 0; i < r.n; ++i) st.adds.push_back(w.gen.fresh(c.rng));
        BatchProof none;
        w.pollards_apply(st, none);
        w.forest_apply(st, 1);
        if (mask & 1) w.restore_slot(w.slots[3]);
        World::Step s2;
        s2.targets = bits(mask);
        uint64_t adds = c.rng.below(4);
        for (uint64_t i = 0; i < adds; ++i) s2.adds.push_back(w.gen.fresh(c.rng));
        BatchProof p = w.prove(s2.targets);
        w.pollards_apply(s2, p);
        w.forest_apply(s2, 1);
        forest_pollards_agree(c, w);
        for (auto& s : w.slots) w.check_slot(s);
        c.state(model_digest(w.m));
        c.hit("exhaustive:deletion-subsets");
    }
}
static void c02_big(Ctx& c, uint64_t which)
{
    World w(c);
    std_slots(w);
    w.big_history(which, 3, [&](const World::Step& st, const BatchProof& p) {
        if (w.m.n && c.rng.chance(1, 2)) w.restore_slot(w.slots[3]);
        if (w.m.n && c.rng.chance(1, 4)) { w.slots[1].p->Prune(); w.slots[1].remembered.clear(); LOG(c, std::string("wallet: prune")); c.hit("op:prune"); }
        w.pollards_apply(st, p);
    }, [&] {
        forest_pollards_agree(c, w);
        for (auto& s : w.slots) w.check_slot(s);
    });
}
static void c02_marathon(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    w.marathon(c.thorough ? 140000 : 66000, [&](const World::Step& st) {
        w.pollards_apply(st, w.prove(st.targets));
    }, [&](uint64_t, bool look) {
        forest_pollards_agree(c, w);
        if (look) for (auto& s : w.slots) w.check_slot(s);
    });
}
// pollards of up to 2^61 leaves
static void c02_sparse(Ctx& c)
{
    World w(c);
    std_slots(w);
    w.sparse_history((int)c.rng.range(3, 9), [&](const World::Step& st, const BatchProof& p) {
        if (c.rng.chance(1, 4)) w.restore_slot(w.slots[3]);
        if (c.rng.chance(1, 8)) { w.slots[1].p->Prune(); w.slots[1].remembered.clear(); LOG(c, std::string("wallet: prune")); c.hit("op:prune"); }
        if (c.rng.chance(1, 3)) {
            auto t = w.some_targets();
            Slot& s = w.slots[c.rng.below(4)];
            w.must_verify(s, BatchProof(t, w.m.proof_hashes(t)), t, "unrelated");
            w.check_slot(s);
        }
        w.pollards_apply(st, p);
    }, [&] { for (auto& s : w.slots) w.check_slot(s); });
}
WORKLOAD(C02)
{
    auto ex = subset_blocks(c.thorough ? 13 : 9, 128);
    uint64_t k = c.case_no, big = c.big(6, 16);
    if (k < big) return c02_big(c, k + (c.thorough ? 0 : c.seed));
    k -= big;
    if (c.marathon(k)) return c02_marathon(c);
    int64_t b = c.block(k, ex.size());
    if (b >= 0) return c02_exhaustive(c, ex[b]);
    if (c.rng.chance(1, 40)) return c02_sparse(c);
    World w(c);
    setup(w);
    if (c.stretch == 1 && w.cap < 200 && c.rng.chance(1, 25)) w.cap = 900;
    std_slots(w);
    int n = steps(c, 6, 30);
    for (int i = 0; i < n; ++i) {
        World::Step st = w.plan();
        // a block spends leaves in an arbitrary order
        BatchProof p = w.prove(st.targets);
        if (c.rng.chance(1, 4)) w.restore_slot(w.slots[3]);
        if (c.rng.chance(1, 12)) { w.slots[1].p->Prune(); w.slots[1].remembered.clear(); LOG(c, std::string("wallet: prune")); c.hit("op:prune"); }
        if (w.m.n && c.rng.chance(1, 4)) { // extra proofs not connected to a spend
            auto t = gen_targets(c.rng, w.m.n);
            Slot& s = w.slots[c.rng.below(4)];
            w.must_verify(s, w.prove(t), t, "unrelated");
            forest_pollards_agree(c, w);
        }
        w.pollards_apply(st, p);
        w.forest_apply(st, -1);
        forest_pollards_agree(c, w);
        for (auto& s : w.slots) w.check_slot(s);
        c.state(model_digest(w.m));
    }
}

// ---------------------------------------------------------------- C06
namespace {
struct Past { mdl::Forest m; World::Step st; UndoBatch undo; std::vector<uint8_t> bytes; };
}
static void undo_one(Ctx& c, World& w, Past& p, bool serialized)
{
    LOG(c, fmt("undo to %llu leaves%s", (unsigned long long)p.m.n, serialized ? " from serialized undo data" : ""));
    bool ok;
    if (serialized) {
        UndoBatch u;
        CHK(c, u.Unserialize(p.bytes), "undo-unserialize", "serialized undo data does not read back");
        ok = w.f->Undo(u);
    } else ok = w.f->Undo(p.undo);
    CHK(c, ok, "undo-refused", "undo of +%zu -%zu at %llu leaves fails", p.st.adds.size(), p.st.targets.size(), (unsigned long long)w.m.n);
    std::set<Hash> old;
    if (w.m.n <= 3000) for (auto& h : p.st.adds) old.insert(h);
    for (uint64_t t : p.st.targets) { if (old.empty()) break; old.erase(p.m.leaf_at(t)); }
    w.m = p.m;
    {   // what was deleted is back
        std::set<Hash> back;
        if (!w.gen.graveyard.empty()) for (uint64_t t : p.st.targets) back.insert(p.m.leaf_at(t));
        auto& g = w.gen.graveyard;
        g.erase(std::remove_if(g.begin(), g.end(), [&](const Hash& h) { return back.count(h) != 0; }), g.end());
    }
    c.hit("op:undo");
    check_forest(c, *w.f, w.m, w.m.n < 5000);
    check_positions(c, *w.f, w.m, w.m.n <= 40 ? 40 : 16);
    int k = 0;
    for (auto& h : old) { // the additions are gone
        if (++k > 8) break;
        BatchProof q;
        CHK(c, !w.f->Prove(q, {h}), "undone-provable", "a leaf of an undone modification is still proven");
    }
    c.nontrivial = true;
}
static void c06_exhaustive(Ctx& c, const Range& r)
{
    LOG(c, fmt("undo of every deletion subset %llu..%llu of %d leaves", (unsigned long long)r.lo, (unsigned long long)r.hi, r.n));
    World w(c);
    w.f = std::make_unique<RamForest>(0);
    w.grow(r.n);
    for (uint64_t mask = r.lo; mask < r.hi; ++mask) {
        Past p;
        p.m = w.m;
        p.st.targets = bits(mask);
        uint64_t adds = mask % 5;
        for (uint64_t i = 0; i < adds; ++i) p.st.adds.push_back(w.gen.fresh(c.rng));
        w.forest_apply(p.st, 1, &p.undo);
        check_roots(c, *w.f, w.m, "forest");
        p.undo.Serialize(p.bytes);
        undo_one(c, w, p, mask & 1);
        c.hit("exhaustive:undone-subsets");
    }
}
static void c06_big(Ctx& c, uint64_t which)
{
    static const uint64_t sizes[] = {66000, 131072, 65537, 100003};
    World w(c);
    w.f = std::make_unique<RamForest>(0);
    // every other forest loses the left half of its largest tree first: a subtree of 2^16 leaves is moved
    bool half = which & 1;
    w.grow(half ? (196608 + c.rng.below(9)) * c.weight / 100 + 3 : w.scaled(sizes[which / 2 % 4]));
    std::vector<Past> st;
    for (int i = half ? -1 : 0; i < 3; ++i) {
        Past p;
        p.m = w.m;
        uint64_t h = 1;
        while (h * 4 <= w.m.n) h *= 2;
        for (uint64_t k = 0; k < w.m.n; ++k) if (i < 0 ? k < h : c.rng.chance(1, i == 0 ? 60 : i == 1 ? 2 : 5000)) p.st.targets.push_back(k);
        // one of them adds more leaves than sixteen bits can count
        uint64_t adds = (i == 0 ? 65536 : 0) * c.weight / 100 + c.rng.below((i == 0 ? 4000 : 40000) * c.weight / 100 + 1);
        if (i == 1 || i == 2) adds += w.rounding(w.m.n - p.st.targets.size() + adds, 70000 * c.weight / 100);
        for (uint64_t k = 0; k < adds; ++k) p.st.adds.push_back(w.gen.fresh(c.rng));
        w.forest_apply(p.st, 1, &p.undo);
        p.undo.Serialize(p.bytes);
        st.push_back(std::move(p));
    }
    while (!st.empty()) { undo_one(c, w, st.back(), st.size() & 1); st.pop_back(); }
    c.hit("big:undo");
}
// undo "to any depth"
static void c06_marathon(Ctx& c)
{
    World w(c);
    std::vector<World::Step> steps;
    std::vector<UndoBatch> undo;
    std::vector<std::vector<Hash>> leaves;
    uint64_t n = (c.thorough ? 140000 : 66000) * c.weight / 100, most = c.rng.range(5, 11);
    w.f = std::make_unique<RamForest>(0);
    LOG(c, fmt("%llu modifications, then all are undone", (unsigned long long)n));
    for (uint64_t s = 0; s < n; ++s) {
        World::Step st;
        for (uint64_t i = 0; i < w.m.n; ++i) if (c.rng.chance(1, 4)) st.targets.push_back(i);
        uint64_t left = w.m.n - st.targets.size(), adds = left < most ? c.rng.below(std::min<uint64_t>(4, most - left + 1)) : 0;
        for (uint64_t i = 0; i < adds; ++i) st.adds.push_back(w.gen.fresh(c.rng));
        leaves.push_back(w.m.leaves());
        undo.emplace_back();
        w.forest_apply(st, 1, &undo.back());
        steps.push_back(std::move(st));
    }
    check_forest(c, *w.f, w.m, true);
    while (!undo.empty()) {
        uint64_t s = undo.size() - 1;
        CHK(c, w.f->Undo(undo.back()), "undo-refused", "undo number %llu of %llu fails", (unsigned long long)(n - s), (unsigned long long)n);
        w.m = mdl::Forest();
        for (auto& h : leaves.back()) w.m.add(h);
        undo.pop_back();
        leaves.pop_back();
        check_roots(c, *w.f, w.m, "forest");
        if (s % 256 < 2 || s % 256 == 255 || s < 100) { check_forest(c, *w.f, w.m, true); check_positions(c, *w.f, w.m, 12); }
        c.hit("marathon:undone");
    }
    c.nontrivial = true;
}
WORKLOAD(C06)
{
    auto ex = subset_blocks(c.thorough ? 15 : 11, 256);
    uint64_t k = c.case_no, big = c.big(2, 8);
    if (k < big) return c06_big(c, c.thorough ? k : k + c.seed);
    k -= big;
    if (c.marathon(k)) return c06_marathon(c);
    int64_t b = c.block(k, ex.size());
    if (b >= 0) return c06_exhaustive(c, ex[b]);
    World w(c);
    setup(w);
    if (c.stretch == 1 && w.cap < 200 && c.rng.chance(1, 20)) w.cap = 800;
    std::string file = c.scratch + "/undo.dat";
    bool disk = c.rng.chance(1, 3);
    remove(file.c_str());
    if (disk) { w.f = std::make_unique<RamForest>(file); LOG(c, std::string("file backed")); }
    std::vector<Past> past;
    UndoBatch reused; // an object which is filled again and again
    int n = steps(c, 8, 50);
    int forward = (int)c.rng.range(45, 70);
    auto reopen = [&] {
        if (!disk) return;
        LOG(c, std::string("close and reopen"));
        w.f.reset();
        w.f = std::make_unique<RamForest>(file);
        c.hit("op:reopen");
        check_roots(c, *w.f, w.m, "reopened forest");
    };
    for (int i = 0; i < n; ++i) {
        if (c.rng.chance(1, 6)) reopen();
        if (past.empty() || (int)c.rng.below(100) < forward) {
            Past p;
            p.m = w.m;
            p.st = w.plan();
            if (c.rng.chance(1, 3)) {
                w.forest_apply(p.st, 1, &reused);
                p.undo = reused;
                c.hit("op:reused-undo-object");
            } else
                w.forest_apply(p.st, 1, &p.undo);
            p.undo.Serialize(p.bytes);
            check_roots(c, *w.f, w.m, "forest");
            past.push_back(std::move(p));
        } else {
            int depth = c.rng.chance(1, 5) ? (int)past.size() : 1 + (int)c.rng.below(2);
            Past last;
            while (depth-- && !past.empty()) {
                last = std::move(past.back());
                past.pop_back();
                undo_one(c, w, last, c.rng.chance(1, 2));
                if (disk && c.rng.chance(1, 4)) reopen();
            }
            if (c.rng.chance(1, 3)) { // the forest compares equal to one which never went ahead
                RamForest fresh(0);
                fresh.Add(w.flag(w.m.leaves(), 4));
                CHK(c, *w.f == fresh && fresh == *w.f, "undo-not-equal", "the forest differs from one that never had the undone modification (%llu leaves)", (unsigned long long)w.m.n);
            }
            if (w.m.n && c.rng.chance(1, 3)) { // light clients at the earlier state accept its proofs
                auto t = gen_targets(c.rng, w.m.n);
                BatchProof q = w.prove(t);
                Pollard pol(w.m.roots(), w.m.n);
                CHK(c, pol.Verify(q, hashes_at(w.m, t)), "undo-proof", "after an undo the forest gives proofs nobody accepts");
            }
            if (c.rng.chance(1, 3)) { // redo
                UndoBatch again;
                Past p;
                p.m = w.m;
                p.st = last.st;
                w.forest_apply(p.st, 1, &again);
                CHK(c, again == last.undo, "redo-undo-data", "repeating an undone modification gives other undo data");
                check_forest(c, *w.f, w.m, true);
                p.undo = again;
                p.undo.Serialize(p.bytes);
                past.push_back(std::move(p));
                c.hit("op:redo");
            }
        }
    }
    while (!past.empty()) { undo_one(c, w, past.back(), c.rng.chance(1, 2)); past.pop_back(); }
    c.hit("unwound-to-start");
    w.f.reset();
    remove(file.c_str());
}

// ---------------------------------------------------------------- C11
static std::vector<uint64_t> bad_targets(Ctx& c, uint64_t n, const char** what, World* sparse = nullptr)
{
    std::vector<uint64_t> t = sparse ? sparse->some_targets() : gen_targets(c.rng, n);
    auto big = [&]() -> uint64_t {
        switch (c.rng.below(7)) {
        case 0: return n;
        case 1: return n + 1 + c.rng.below(5);
        case 2: return ~0ULL;
        case 3: return 1ULL << c.rng.range(31, 63);
        case 4: return (1ULL << 32) + (n ? c.rng.below(n) : 0);
        case 5: return mdl::row_start(n, 1) + (n > 1 ? c.rng.below(n / 2) : 0) + (mdl::rows_of(n) == 0 ? n : 0); // a position of the tree, but no leaf
        default: return (2ULL << mdl::rows_of(n)) - 1;
        }
    };
    for (;;) {
        switch (c.rng.below(6)) {
        case 0: { uint64_t b = big(); if (b < n) continue; t.push_back(b); *what = "position past the last leaf"; std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); return t; }
        case 1: if (t.empty()) continue; t.insert(t.begin() + c.rng.below(t.size() + 1), t[c.rng.below(t.size())]); std::sort(t.begin(), t.end()); *what = "repeated position"; return t;
        case 2: { if (t.size() < 2) { if (n < 2) continue; t = {0, n - 1}; } size_t i = c.rng.below(t.size() - 1); std::swap(t[i], t[i + 1]); *what = "descending positions"; return t; }
        case 3: if (t.size() < 2) continue; std::reverse(t.begin(), t.end()); *what = "reversed positions"; return t;
        case 4: { if (sparse) continue; t.clear(); for (uint64_t i = 0; i <= n + c.rng.below(3); ++i) t.push_back(i); *what = "more positions than leaves"; return t; }
        default: { uint64_t b = big(); if (b < n) continue; t.insert(t.begin() + c.rng.below(t.size() + 1), b); *what = "position past the last leaf"; if (t.size() == 1 || t.back() >= n || !std::is_sorted(t.begin(), t.end())) return t; continue; }
        }
    }
}
static void refuse_modifications(Ctx& c, World& w, int times)
{
        for (int j = 0; j < times; ++j) {
            const char* what = "";
            std::vector<uint64_t> t = bad_targets(c, w.m.n, &what, w.sparse ? &w : nullptr);
            std::vector<Hash> fresh;
            uint64_t k = c.rng.below(4);
            for (uint64_t q = 0; q < k; ++q) fresh.push_back(w.gen.fresh(c.rng));
            std::vector<Leaf> adds = w.flag(fresh, 4);
            LOG(c, fmt("invalid modification (%s) +%zu -", what, adds.size()) + list(t));
            int who = w.sparse ? 4 : (int)c.rng.below(5);
            if (who < 3) {
                bool ok;
                UndoBatch u;
                if (who == 0) ok = static_cast<Accumulator&>(*w.f).Modify(adds, t);
                else ok = w.f->Modify(u, adds, t);
                CHK(c, !ok, "invalid-accepted", "forest of %llu leaves accepts to remove %s: %s", (unsigned long long)w.m.n, list(t).c_str(), what);
                check_forest(c, *w.f, w.m, true);
                check_positions(c, *w.f, w.m, 10);
                for (auto& h : fresh) { BatchProof p; CHK(c, !w.f->Prove(p, {h}), "invalid-partly-applied", "leaf of a refused modification is in the forest"); }
            }
            if (who >= 3) for (auto& s : w.slots) {
                uint64_t nodes = s.p->CountNodes();
                CHK(c, !s.p->Modify(adds, t), "invalid-accepted", "%s of %llu leaves accepts to remove %s: %s", s.name.c_str(), (unsigned long long)w.m.n, list(t).c_str(), what);
                w.check_slot(s);
                CHK(c, s.p->CountNodes() == nodes, "invalid-partly-applied", "%s changed its nodes in a refused modification", s.name.c_str());
                for (auto& h : fresh) { BatchProof p; CHK(c, !s.p->Prove(p, {h}), "invalid-partly-applied", "leaf of a refused modification is in %s", s.name.c_str()); }
            }
            c.hit(std::string(std::string("refused:") + what).c_str());
            c.mixin(digest(t, 7));
            c.nontrivial = true;
        }
}
// a pollard that is asked to remove leaves it knows nothing of refuses, or does it right all the same
static void refuse_removals(Ctx& c, World& w, int times)
{
    for (int j = 0; j < times && w.m.n; ++j) for (auto& s : w.slots) {
        std::vector<uint64_t> t = w.sparse && c.rng.chance(1, 2) ? gen_sparse(c.rng, w.m.n, 4) : w.some_targets();
        std::vector<uint64_t> have = w.remembered_positions(s);
        if (c.rng.chance(1, 3)) t.clear();
        // some of its own and their neighbours among them
        for (int k = (int)c.rng.below(3); k > 0 && !have.empty(); --k) { uint64_t x = have[c.rng.below(have.size())]; t.push_back(c.rng.chance(1, 2) ? x : (x ^ 1) < w.m.n ? x ^ 1 : x); }
        std::sort(t.begin(), t.end());
        t.erase(std::unique(t.begin(), t.end()), t.end());
        if (std::includes(have.begin(), have.end(), t.begin(), t.end())) continue; // removals it must do, judged elsewhere
        std::vector<Hash> fresh;
        for (uint64_t q = c.rng.below(3); q > 0; --q) fresh.push_back(w.gen.fresh(c.rng));
        std::vector<Leaf> adds = w.flag(fresh, 4);
        LOG(c, s.name + fmt(": modify of unknown leaves +%zu -", adds.size()) + list(t));
        uint64_t nodes = s.p->CountNodes();
        if (!s.p->Modify(adds, t)) {
            w.check_slot(s);
            check_roots(c, *s.p, w.m, s.name.c_str());
            CHK(c, s.p->CountNodes() == nodes, "invalid-partly-applied", "%s changed its nodes in a refused modification", s.name.c_str());
            for (auto& h : fresh) { BatchProof p; CHK(c, !s.p->Prove(p, {h}), "invalid-partly-applied", "leaf of a refused modification is in %s", s.name.c_str()); }
            c.hit("refused:removal of unknown leaves");
            c.mixin(digest(t, 11));
            c.nontrivial = true;
            continue;
        }
        mdl::Forest after = w.m;
        bool certain = true;
        try { after.remove(t); } catch (mdl::Bug&) { certain = false; } // the model does not know them either
        CHK(c, certain, "unknown-removed", "%s removes %s although nobody knows these leaves", s.name.c_str(), list(t).c_str());
        for (auto& h : fresh) after.add(h);
        check_roots(c, *s.p, after, s.name.c_str());
        c.hit("removal of neighbours");
        w.restore_slot(s);
    }
}
static void refuse_proofs(Ctx& c, World& w)
{
        // requests for proofs which cannot be given
        if (w.m.n) {
            std::vector<Hash> th = hashes_at(w.m, w.some_targets());
            int kind = (int)c.rng.below(3);
            Hash bad;
            if (kind == 0) bad = w.gen.fresh(c.rng);
            else if (kind == 1) { bad = w.m.leaf_at(w.a_leaf()); bad[c.rng.below(32)] ^= 1 << c.rng.below(8); }
            else if (!th.empty()) bad = th[c.rng.below(th.size())];
            else bad = w.gen.fresh(c.rng);
            bool absent = true;
            for (auto& h : w.m.leaves()) if (h == bad) absent = false;
            bool dup = std::find(th.begin(), th.end(), bad) != th.end();
            if (absent || dup) {
                th.insert(th.begin() + c.rng.below(th.size() + 1), bad);
                BatchProof p;
                if (w.f) CHK(c, !w.f->Prove(p, th), "impossible-proof", "forest proves %s", absent ? "a leaf it does not have" : "a repeated leaf");
                for (auto& s : w.slots) CHK(c, !s.p->Prove(p, th), "impossible-proof", "%s proves %s", s.name.c_str(), absent ? "a leaf it does not have" : "a repeated leaf");
                if (w.f) check_forest(c, *w.f, w.m, true);
                c.hit(absent ? "refused:proof of absent leaf" : "refused:proof of repeated leaf");
            }
        }
}
// undo data which cannot describe a modification that led to this forest
static void refuse_undo(Ctx& c, World& w, const UndoBatch& u, int times, bool each_kind = false)
{
    const uint64_t n = w.m.n;
    for (int j = 0; j < times; ++j) {
        uint64_t adds = u.GetNumAdds();
        std::vector<uint64_t> pos = u.GetDeletedPositions();
        std::vector<Hash> hs = u.GetDeletedHashes();
        const char* what = "";
        switch (each_kind ? j % 9 : (int)c.rng.below(9)) {
        case 0: adds = n + 1 + c.rng.below(3); what = "more additions than leaves"; break;
        case 1: adds = c.rng.chance(1, 2) ? (uint64_t)(uint32_t)c.rng.next() | 0x80000000u : ~0ULL - c.rng.below(3); what = "more additions than leaves"; break;
        case 2: { // positions which are no leaves of the forest before, or not in order
            const char* w2;
            pos = bad_targets(c, n + pos.size() - std::min(adds, n), &w2);
            hs.resize(pos.size());
            for (auto& h : hs) h = w.gen.fresh(c.rng);
            what = "invalid positions";
            break;
        }
        case 3: if (pos.empty()) continue; pos[c.rng.below(pos.size())] = c.rng.chance(1, 2) ? n + pos.size() + c.rng.below(9) : c.rng.next(); what = "invalid positions"; break;
        case 4: hs.push_back(w.gen.fresh(c.rng)); what = "more hashes than positions"; break;
        case 5: if (hs.empty()) continue; hs.pop_back(); what = "fewer hashes than positions"; break;
        case 6: { // one of the leaves which are still there
            if (pos.empty() || n <= adds) continue;
            hs[c.rng.below(hs.size())] = w.m.leaf_at(c.rng.below(n - adds));
            what = "deleted leaf that is in the forest";
            break;
        }
        case 7: if (hs.size() < 2) continue; hs[c.rng.below(hs.size() - 1)] = hs.back(); what = "leaf deleted twice"; break;
        default: if (pos.size() < 2) continue; std::reverse(pos.begin(), pos.end()); what = "invalid positions";
        }
        bool possible = adds <= n && hs.size() == pos.size();
        if (possible) {
            uint64_t before = n - adds + pos.size();
            for (size_t k = 0; k < pos.size(); ++k) if (pos[k] >= before || (k && pos[k] <= pos[k - 1])) possible = false;
            std::set<Hash> left;
            for (uint64_t k = 0; k < n - adds; ++k) left.insert(w.m.leaf_at(k));
            for (auto& h : hs) if (!left.insert(h).second) possible = false;
        }
        if (possible) continue;
        LOG(c, fmt("impossible undo data (%s) of %llu additions and deletions ", what, (unsigned long long)adds) + list(pos));
        UndoBatch bad(adds, pos, hs);
        CHK(c, !w.f->Undo(bad), "impossible-undone", "forest of %llu leaves undoes a modification of %llu additions and %zu deletions: %s", (unsigned long long)n, (unsigned long long)adds, pos.size(), what);
        check_forest(c, *w.f, w.m, true);
        check_positions(c, *w.f, w.m, 10);
        for (auto& h : hs) {
            bool there = false;
            for (uint64_t k = 0; k < n && !there; ++k) there = w.m.leaf_at(k) == h;
            BatchProof p;
            CHK(c, there || !w.f->Prove(p, {h}), "impossible-undone", "a leaf of refused undo data (%s) can be proven", what);
        }
        c.hit("refused:undo data");
    }
}
static void judge_sanity(Ctx& c, World& w)
{
    // the sanity check of a proof: positions strictly ascending below the leaf count, no more hashes than the canonical proof
    for (int j = 0; j < 6; ++j) {
        std::vector<uint64_t> t;
        const char* what = "valid positions";
        bool fine = c.rng.chance(1, 2);
        if (fine) t = w.sparse && c.rng.chance(1, 2) ? gen_sparse(c.rng, w.m.n, 12) : w.some_targets();
        else t = bad_targets(c, w.m.n, &what, w.sparse ? &w : nullptr);
        std::sort(t.begin(), t.end());
        fine = std::adjacent_find(t.begin(), t.end()) == t.end() && (t.empty() || t.back() < w.m.n);
        std::vector<uint64_t> order(t);
        c.rng.shuffle(order); // the order in which the positions are listed does not matter
        size_t need = fine ? w.m.proof_keys(t).size() : c.rng.below(5), k;
        switch (c.rng.below(5)) {
        case 0: k = need; break;
        case 1: k = need + 1; break;
        case 2: k = need + c.rng.below(300); break;
        case 3: k = 0; break;
        default: k = c.rng.below(need + 1);
        }
        BatchProof p(order, std::vector<Hash>(k));
        bool want = fine && k <= need;
        CHK(c, p.CheckSanity(w.m.n) == want, "sanity", "the sanity check of a proof of %s with %zu hashes (%zu are canonical) at %llu leaves says %d", list(t).c_str(), k, need, (unsigned long long)w.m.n, !want);
        c.hit(want ? "sanity:sane" : "sanity:insane");
    }
}
static void c11_big(Ctx& c, uint64_t which)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("hoarder", 8);
    w.big_history(which, 2, [&](const World::Step& st, const BatchProof& p) { w.pollards_apply(st, p); }, [&] {
        refuse_modifications(c, w, 8);
        refuse_removals(c, w, 2);
        refuse_proofs(c, w);
        judge_sanity(c, w);
        check_forest(c, *w.f, w.m, true);
        for (auto& s : w.slots) w.check_slot(s);
    });
    World::Step st;
    std::set<uint64_t> t;
    for (int i = 0; i < 20; ++i) t.insert(c.rng.below(w.m.n));
    st.targets.assign(t.begin(), t.end());
    for (int i = (int)c.rng.below(30); i >= 0; --i) st.adds.push_back(w.gen.fresh(c.rng));
    UndoBatch u;
    mdl::Forest before = w.m;
    w.forest_apply(st, 1, &u);
    refuse_undo(c, w, u, 9, true);
    CHK(c, w.f->Undo(u), "undo-after-refusal", "the forest refuses good undo data after impossible ones");
    w.m = before;
    check_forest(c, *w.f, w.m, true);
    check_positions(c, *w.f, w.m, 100);
    c.hit("big:refused-undo");
}
static void c11_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("wallet", 4);
    w.add_slot("light", 0);
    w.sparse_history((int)c.rng.range(3, 7), [&](const World::Step& st, const BatchProof& p) {
        refuse_modifications(c, w, 5);
        refuse_removals(c, w, 1);
        refuse_proofs(c, w);
        judge_sanity(c, w);
        w.pollards_apply(st, p);
    }, [&] { for (auto& s : w.slots) w.check_slot(s); });
}
WORKLOAD(C11)
{
    uint64_t big = c.big(4, 12);
    if (c.case_no < big) return c11_big(c, c.case_no + (c.thorough ? 0 : c.seed));
    if (c.rng.chance(1, 30)) return c11_sparse(c);
    World w(c);
    setup(w);
    w.add_slot("wallet", 4);
    w.add_slot("light", 0);
    w.add_slot("hoarder", 8);
    int n = steps(c, 4, 16);
    for (int i = 0; i < n; ++i) {
        refuse_modifications(c, w, 6);
        if (c.rng.chance(1, 3)) refuse_removals(c, w, 1);
        refuse_proofs(c, w);
        judge_sanity(c, w);
        World::Step st = w.plan();
        BatchProof p = w.prove(st.targets);
        w.pollards_apply(st, p);
        mdl::Forest before = w.m;
        if (before.n < 20000 && c.rng.chance(1, 2)) {
            UndoBatch u;
            w.forest_apply(st, 1, &u);
            refuse_undo(c, w, u, before.n < 300 ? 4 : 2);
            if (c.rng.chance(1, 2)) { // the genuine data still work
                CHK(c, w.f->Undo(u), "undo-after-refusal", "undo fails after other undo data was refused");
                check_forest(c, *w.f, before, true);
                check_positions(c, *w.f, before, 10);
                std::swap(w.m, before);
                auto graves = w.gen.graveyard; // the same leaves die again
                w.forest_apply(st, 1);
                w.gen.graveyard = graves;
            }
        } else w.forest_apply(st, -1);
        check_forest(c, *w.f, w.m, true);
        for (auto& s : w.slots) w.check_slot(s);
    }
}

// ---------------------------------------------------------------- C17
static void compare_parties(Ctx& c, World& w)
{
        std::vector<Hash> lv = w.m.leaves();
        auto make = [&](const std::vector<Hash>& v) {
            auto f = std::make_unique<RamForest>(0);
            if (!f->Add(w.flag(v, 4))) c.fail("forest-add", "forest refuses additions");
            return f;
        };
        auto same = make(lv);
        CHK(c, *w.f == *same && *same == *w.f, "equal-differs", "two forests with the same %zu leaves compare unequal", lv.size());
        CHK(c, w.f->ComparePositionMap(*same) && same->ComparePositionMap(*w.f), "positions-differ", "two forests with the same %zu leaves have different positions", lv.size());
        for (auto& s : w.slots) CHK(c, s.p->ComparePositionMap(*w.f), "pollard-positions", "%s and the forest disagree about positions at %llu leaves", s.name.c_str(), (unsigned long long)w.m.n);
        if (lv.size() >= 2) {
            auto v = lv;
            uint64_t a = c.rng.below(v.size()), b = c.rng.below(v.size());
            if (c.rng.chance(1, 2)) b = a ^ 1;
            if (b >= v.size()) b = 0;
            if (a == b) b = (a + 1) % v.size();
            std::swap(v[a], v[b]);
            auto other = make(v);
            CHK(c, !(*w.f == *other) && !(*other == *w.f), "unequal-same", "forests with leaves %llu and %llu exchanged compare equal", (unsigned long long)a, (unsigned long long)b);
            CHK(c, !w.f->ComparePositionMap(*other) && !other->ComparePositionMap(*w.f), "positions-same", "exchanged leaves are not noticed");
            for (auto& s : w.slots) if (s.remembered.count(lv[a]) || s.remembered.count(lv[b]))
                CHK(c, !s.p->ComparePositionMap(*other), "positions-same", "%s does not notice exchanged leaves", s.name.c_str());
        }
        if (!lv.empty()) {
            auto v = lv;
            uint64_t a = c.rng.below(v.size());
            v[a] = w.gen.fresh(c.rng);
            auto other = make(v);
            CHK(c, !(*w.f == *other) && !(*other == *w.f), "unequal-same", "forests with a different leaf %llu compare equal", (unsigned long long)a);
            CHK(c, !w.f->ComparePositionMap(*other) && !other->ComparePositionMap(*w.f), "positions-same", "a replaced leaf is not noticed");
            v = lv;
            v.pop_back();
            auto fewer = make(v);
            CHK(c, !(*w.f == *fewer) && !(*fewer == *w.f), "unequal-same", "forests with different leaf counts compare equal");
            CHK(c, fewer->ComparePositionMap(*w.f) && !w.f->ComparePositionMap(*fewer), "positions-subset", "a missing last leaf is not told apart");
        }
        c.state(model_digest(w.m));
        c.nontrivial = true;
}
static void c17_big(Ctx& c, uint64_t which)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("wallet", 2);
    w.add_slot("hoarder", 8);
    w.big_history(which, 2, [&](const World::Step& st, const BatchProof& p) { w.pollards_apply(st, p); }, [&] { compare_parties(c, w); });
}
// light clients of enormous accumulators know a few positions each
static void c17_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("first", 3);
    w.add_slot("second", 6);
    auto compare = [&] {
        for (Slot& a : w.slots) for (Slot& b : w.slots) {
            bool want = std::includes(b.remembered.begin(), b.remembered.end(), a.remembered.begin(), a.remembered.end());
            CHK(c, a.p->ComparePositionMap(*b.p) == want, "pollard-positions", "%s knows %zu leaves of %llu, %s knows %zu, and the comparison of their positions says %d", a.name.c_str(), a.remembered.size(), (unsigned long long)w.m.n, b.name.c_str(), b.remembered.size(), !want);
            c.hit(want ? "sparse:positions-same" : "sparse:positions-differ");
        }
        // the same leaves elsewhere: a third one that is a step behind or ahead
        Slot& a = w.slots[0];
        auto pos = w.remembered_positions(a);
        if (pos.empty()) return;
        uint64_t x = pos[c.rng.below(pos.size())];
        mdl::Forest other = w.m;
        std::vector<uint64_t> k = w.known();
        uint64_t y = k[c.rng.below(k.size())];
        if (x == y) return;
        mdl::P px = other.get(0, x), py = other.get(0, y);
        other.put(0, x, py);
        other.put(0, y, px);
        Pollard q(other.roots(), other.n);
        CHK(c, q.Verify(BatchProof(pos, other.proof_hashes(pos)), hashes_at(other, pos)), "honest-verify", "a pollard of %llu leaves rejects a proof", (unsigned long long)other.n);
        bool both = std::binary_search(pos.begin(), pos.end(), y);
        CHK(c, !a.p->ComparePositionMap(q), "positions-same", "%s does not notice that leaves %llu and %llu are exchanged", a.name.c_str(), (unsigned long long)x, (unsigned long long)y);
        CHK(c, !q.ComparePositionMap(*a.p) || !both, "positions-same", "exchanged leaves %llu and %llu are not noticed", (unsigned long long)x, (unsigned long long)y);
        c.hit("sparse:exchanged");
    };
    w.sparse_history((int)c.rng.range(3, 8), [&](const World::Step& st, const BatchProof& p) {
        auto t = w.some_targets();
        if (c.rng.chance(1, 2)) { Slot& s = w.slots[c.rng.below(2)]; w.must_verify(s, BatchProof(t, w.m.proof_hashes(t)), t, "unrelated"); }
        else for (Slot& s : w.slots) w.must_verify(s, BatchProof(t, w.m.proof_hashes(t)), t, "unrelated");
        w.pollards_apply(st, p);
    }, compare);
}
WORKLOAD(C17)
{
    uint64_t big = c.big(4, 12);
    if (c.case_no < big) return c17_big(c, c.case_no + (c.thorough ? 0 : c.seed));
    if (c.rng.chance(1, 30)) return c17_sparse(c);
    World w(c);
    setup(w);
    std::string file = c.scratch + "/cmp.dat";
    bool disk = c.rng.chance(1, 5);
    remove(file.c_str());
    if (disk) { w.f = std::make_unique<RamForest>(file); LOG(c, std::string("file backed")); }
    w.add_slot("wallet", 4);
    w.add_slot("hoarder", 8);
    int n = steps(c, 4, 14);
    for (int i = 0; i < n; ++i) {
        World::Step st = w.plan();
        BatchProof p = w.prove(st.targets);
        if (c.rng.chance(1, 4)) { // a detour which is undone
            Past d;
            d.m = w.m;
            d.st = w.plan();
            LeafGen gen = w.gen;
            w.forest_apply(d.st, 1, &d.undo);
            undo_one(c, w, d, false);
            w.gen.graveyard = gen.graveyard;
            c.hit("op:detour");
            compare_parties(c, w);
            // what the detour brought back may be alive in st
            p = w.prove(st.targets);
        }
        w.pollards_apply(st, p);
        w.forest_apply(st, -1);
        if (disk && c.rng.chance(1, 3)) {
            w.f.reset();
            w.f = std::make_unique<RamForest>(file);
            c.hit("op:reopen");
        }
        compare_parties(c, w);
    }
    w.f.reset();
    remove(file.c_str());
}

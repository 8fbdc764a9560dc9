// Hostile input for the builds whose oracle is a sanitizer.
#include "world.h"
#include <algorithm>
#include <iostream>
#include <sstream>

namespace {
using Bytes = std::vector<uint8_t>;
Hash junk_hash(Ctx& c, const std::vector<Hash>& pool)
{
    if (!pool.empty() && c.rng.chance(2, 3)) return pool[c.rng.below(pool.size())];
    Hash h;
    switch (c.rng.below(3)) {
    case 0: h.fill(0); break;
    case 1: h.fill(0xff); break;
    default: for (auto& b : h) b = (uint8_t)c.rng.next();
    }
    return h;
}
uint64_t junk_pos(Ctx& c, uint64_t n)
{
    switch (c.rng.below(8)) {
    case 0: return c.rng.next();
    case 1: return n + c.rng.below(4);
    case 2: return n ? n - 1 : 0;
    case 3: return (1ULL << c.rng.below(64)) - c.rng.below(2);
    case 4: return c.rng.below(2 * n + 2);
    default: return n ? c.rng.below(n) : 0;
    }
}
Bytes junk_bytes(Ctx& c, uint64_t n, const std::vector<Hash>& pool)
{
    Bytes b;
    auto be = [&](uint32_t v) { for (int i = 3; i >= 0; --i) b.push_back((uint8_t)(v >> (8 * i))); };
    if (c.rng.chance(1, 6)) { b.resize(c.rng.below(120)); for (auto& x : b) x = (uint8_t)c.rng.next(); return b; }
    uint32_t t = c.rng.chance(1, 8) ? (uint32_t)c.rng.next() : (uint32_t)c.rng.below(12), h = c.rng.chance(1, 8) ? (uint32_t)c.rng.next() : (uint32_t)c.rng.below(20);
    be(t);
    be(h);
    for (uint32_t i = 0; i < std::min<uint32_t>(t, 40); ++i) be((uint32_t)junk_pos(c, n));
    for (uint32_t i = 0; i < std::min<uint32_t>(h, 40); ++i) { Hash x = junk_hash(c, pool); b.insert(b.end(), x.begin(), x.end()); }
    if (c.rng.chance(1, 8)) b.resize(c.rng.below(b.size() + 1));
    if (c.rng.chance(1, 8)) b.resize(b.size() + c.rng.below(70));
    return b;
}
} // namespace

// damaged, foreign and invented undo data; whatever the forest answers, it stays usable
static void hostile_undo(Ctx& c)
{
    World w(c);
    w.cap = c.rng.chance(1, 4) ? 70 : 20;
    w.gen.style = (int)c.rng.below(2);
    std::string file = c.scratch + "/h3.dat";
    remove(file.c_str());
    RamForest f(file);
    std::vector<UndoBatch> seen;
    std::vector<Hash> pool;
    for (int i = 0; i < 8; ++i) {
        // a genuine step; the forest may be anything by now, so only its own answers are asked
        uint64_t n = f.NumLeaves();
        std::vector<Leaf> adds;
        for (uint64_t k = c.rng.below(8); k > 0; --k) { Hash x = w.gen.fresh(c.rng); BatchProof p; if (!f.Prove(p, {x})) { adds.push_back({x, false}); pool.push_back(x); } } // a flipped bit may have made a later leaf
        std::vector<uint64_t> t = gen_targets(c.rng, n);
        UndoBatch u;
        LOG(c, fmt("modify +%zu -", adds.size()) + list(t));
        if (f.Modify(u, adds, t)) seen.push_back(u);
        for (int q = 0; q < 5; ++q) {
            n = f.NumLeaves();
            UndoBatch v;
            switch (c.rng.below(4)) {
            case 0: {
                Bytes b;
                if (!seen.empty()) seen[c.rng.below(seen.size())].Serialize(b);
                for (int k = (int)c.rng.below(4); k > 0 && !b.empty(); --k) b[c.rng.chance(1, 2) ? c.rng.below(std::min<size_t>(b.size(), 40)) : c.rng.below(b.size())] ^= 1 << c.rng.below(8);
                if (!v.Unserialize(b)) continue;
                break;
            }
            case 1: if (!v.Unserialize(junk_bytes(c, n, pool))) { c.hit("hostile-undo:malformed"); continue; } break;
            case 2: if (!seen.empty()) v = seen[c.rng.below(seen.size())]; break;
            default: {
                uint64_t a = c.rng.chance(1, 4) ? junk_pos(c, n) : c.rng.below(n + 1);
                std::vector<uint64_t> pos = c.rng.chance(1, 2) ? gen_targets(c.rng, n) : std::vector<uint64_t>();
                if (pos.empty()) for (uint64_t k = c.rng.below(5); k > 0; --k) pos.push_back(junk_pos(c, n));
                std::vector<Hash> hs;
                for (size_t k = pos.size() + (c.rng.chance(1, 6) ? c.rng.below(3) : 0); k > 0; --k) hs.push_back(c.rng.chance(1, 2) ? junk_hash(c, pool) : w.gen.fresh(c.rng));
                v = UndoBatch(a, pos, hs);
            }
            }
            LOG(c, fmt("undo %llu additions, %zu hashes, deletions ", (unsigned long long)v.GetNumAdds(), v.GetDeletedHashes().size()) + list(v.GetDeletedPositions()) + fmt(" at %llu leaves", (unsigned long long)n));
            bool ok = f.Undo(v);
            c.hit(ok ? "hostile-undo:accepted" : "hostile-undo:refused");
            std::vector<Hash> r;
            f.Roots(r);
            BatchProof p;
            n = f.NumLeaves();
            std::vector<Hash> th;
            for (uint64_t k = 0; k < n && k < 80; ++k) if (c.rng.chance(1, 2)) th.push_back(f.GetLeaf(k));
            f.Prove(p, th);
            f.Verify(p, th);
            c.mixin(digest(v.GetDeletedPositions(), v.GetNumAdds()));
        }
        f.Commit();
    }
    c.nontrivial = true;
    remove(file.c_str());
}
// proofs from an attacker
WORKLOAD(H1)
{
    if (c.case_no % 4 == 3) return hostile_undo(c);
    World w(c);
    static const uint64_t caps[] = {3, 8, 20, 60};
    w.cap = caps[c.rng.below(4)];
    w.gen.style = (int)c.rng.below(3);
    w.f = std::make_unique<RamForest>(0);
    w.slots.reserve(4);
    w.add_slot("light", 0);
    w.add_slot("wallet", 4);
    {   // empty objects
        Pollard p(0);
        RamForest f(0);
        std::vector<Hash> r;
        BatchProof e;
        UndoBatch u;
        p.Roots(r);
        f.Roots(r);
        p.Prune();
        p.CountNodes();
        p.Verify(e, {});
        p.Verify(BatchProof({0}, {Hash{}}), {Hash{}});
        f.Verify(e, {});
        p.Prove(e, {});
        p.Prove(e, {Hash{}});
        f.Prove(e, {Hash{}});
        p.Modify({}, {});
        f.Modify(u, {}, {});
        f.Undo(u);
        f.Undo(UndoBatch());
        f.Commit();
        f.Add({});
        p.Modify({}, {0});
        f.Modify(u, {}, {0, 1});
        f.ComparePositionMap(f);
        p.ComparePositionMap(f);
        e.CheckSanity(0);
    }
    // a client restored with roots that belong to nothing, at a huge leaf count
    uint64_t big = (1ULL << c.rng.range(1, 61)) + c.rng.below(1000);
    std::vector<Hash> rr;
    for (int i = 0; i < __builtin_popcountll(big); ++i) rr.push_back(junk_hash(c, {}));
    Pollard far(rr, big);
    int n = std::max(3, 8 * c.weight / 100);
    for (int i = 0; i < n; ++i) {
        World::Step st = w.plan();
        std::vector<Hash> pool = w.m.leaves();
        for (auto& h : w.m.roots()) pool.push_back(h);
        if (w.m.n) for (int q = 0; q < 20; ++q) { uint64_t l = c.rng.below(w.m.n); int row = (int)c.rng.below(w.m.tree_of_leaf(l) + 1); pool.push_back(w.m.hash_at({row, l >> row})); }
        for (int q = 0; q < 12; ++q) {
            BatchProof p;
            std::vector<Hash> th;
            if (c.rng.chance(1, 2)) {
                Bytes b = junk_bytes(c, c.rng.chance(1, 6) ? big : w.m.n, pool);
                UndoBatch u;
                u.Unserialize(b);
                Bytes b2;
                u.Serialize(b2);
                if (!p.Unserialize(b)) { c.hit("hostile:malformed"); continue; }
                p.Serialize(b2);
            } else {
                std::set<uint64_t> t;
                std::vector<Hash> ph;
                for (int k = (int)c.rng.below(8); k > 0; --k) t.insert(junk_pos(c, c.rng.chance(1, 6) ? big : w.m.n));
                for (int k = (int)c.rng.below(14); k > 0; --k) ph.push_back(junk_hash(c, pool));
                std::vector<uint64_t> tv(t.begin(), t.end());
                if (c.rng.chance(1, 3)) c.rng.shuffle(tv);
                // true positions and hashes with a few replaced
                if (c.rng.chance(1, 2) && w.m.n) {
                    tv = gen_targets(c.rng, w.m.n);
                    ph = w.m.proof_hashes(tv);
                    if (!ph.empty()) { if (c.rng.chance(1, 2)) ph[c.rng.below(ph.size())] = junk_hash(c, pool); else if (c.rng.chance(1, 2)) ph.pop_back(); else ph.push_back(junk_hash(c, pool)); }
                    th = hashes_at(w.m, tv);
                    if (!th.empty() && c.rng.chance(1, 3)) th[c.rng.below(th.size())] = junk_hash(c, pool);
                }
                p = BatchProof(tv, ph);
            }
            if (th.empty()) for (size_t k = p.GetTargets().size(); k > 0; --k) th.push_back(junk_hash(c, pool));
            if (c.rng.chance(1, 8)) th.push_back(junk_hash(c, pool));
            if (c.rng.chance(1, 8) && !th.empty()) th.pop_back();
            LOG(c, "hostile proof targets " + list(p.GetTargets()) + fmt(" hashes %zu leaves %zu at %llu leaves", p.GetHashes().size(), th.size(), (unsigned long long)w.m.n));
            p.CheckSanity(w.m.n);
            p.CheckSanity(big);
            for (auto& s : w.slots) {
                if (s.p->Verify(p, th)) { c.hit("hostile:accepted"); for (auto& h : th) s.remembered.insert(h); }
                else c.hit("hostile:rejected");
                BatchProof o;
                s.p->Prove(o, th);
                s.p->CountNodes();
            }
            far.Verify(p, th);
            w.f->Verify(p, th);
            BatchProof o;
            w.f->Prove(o, th);
            bool eq = o == p;
            (void)eq;
            c.mixin(digest(p.GetTargets(), th.size()));
            c.nontrivial = true;
        }
        if (w.m.n) {   // a client which removes whatever it is told to
            Pollard victim(w.m.roots(), w.m.n);
            for (int q = 0; q < 5; ++q) {
                uint64_t k = victim.NumLeaves();
                std::vector<uint64_t> t = k ? gen_targets(c.rng, k) : std::vector<uint64_t>();
                if (c.rng.chance(1, 2)) { t.clear(); if (k) for (uint64_t x = c.rng.below(3); x > 0; --x) t.push_back(c.rng.below(k)); }
                if (c.rng.chance(1, 4)) t.push_back(junk_pos(c, k));
                if (c.rng.chance(7, 8)) { std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); }
                if (k == w.m.n && c.rng.chance(2, 3)) { std::vector<uint64_t> v = gen_targets(c.rng, k); victim.Verify(BatchProof(v, w.m.proof_hashes(v)), hashes_at(w.m, v)); if (c.rng.chance(1, 2)) t = v; if (!t.empty() && c.rng.chance(1, 2)) t[c.rng.below(t.size())] ^= 1; }
                std::vector<Leaf> adds;
                for (uint64_t x = c.rng.below(4); x > 0; --x) adds.push_back({w.gen.fresh(c.rng), c.rng.chance(1, 2)});
                LOG(c, fmt("hostile modify +%zu -", adds.size()) + list(t) + fmt(" at %llu leaves", (unsigned long long)k));
                c.hit(victim.Modify(adds, t) ? "hostile-removal:accepted" : "hostile-removal:refused");
                if (c.rng.chance(1, 8)) victim.Prune();
                victim.CountNodes();
                BatchProof o;
                for (auto& a : adds) victim.Prove(o, {a.first});
            }
            uint64_t k = far.NumLeaves();
            std::vector<uint64_t> t;
            for (uint64_t x = c.rng.below(3); x > 0; --x) t.push_back(c.rng.chance(1, 4) ? junk_pos(c, k) : c.rng.chance(1, 3) ? k - 1 - std::min(k - 1, c.rng.below(4)) : c.rng.below(k));
            std::sort(t.begin(), t.end());
            LOG(c, "hostile modify -" + list(t) + fmt(" at %llu leaves", (unsigned long long)k));
            c.hit(far.Modify({}, t) ? "hostile-removal:accepted" : "hostile-removal:refused");
        }
        {   // printing
            std::ostringstream sink;
            auto* old = std::cout.rdbuf(sink.rdbuf());
            w.f->PrintRoots();
            w.f->PrintPositionMap();
            w.slots[1].p->PrintRoots();
            w.slots[1].p->PrintPositionMap();
            BatchProof p = w.prove(st.targets);
            p.Print();
            UndoBatch(1, {0}, {Hash{}}).Print();
            std::cout.rdbuf(old);
        }
        w.pollards_apply(st, w.prove(st.targets));
        w.forest_apply(st, -1);
        c.state(model_digest(w.m));
    }
}

// damaged forest files
WORKLOAD(H2)
{
    World w(c);
    w.cap = 30;
    w.gen.style = (int)c.rng.below(3);
    std::string file = c.scratch + "/h2.dat", bad = c.scratch + "/h2bad.dat";
    remove(file.c_str());
    w.f = std::make_unique<RamForest>(file);
    for (int i = 0; i < 4; ++i) w.forest_apply(w.plan(), 1);
    w.f.reset();
    Bytes img;
    FILE* h = fopen(file.c_str(), "rb");
    if (!h) throw mdl::Bug{"no file"};
    uint8_t buf[65536];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, h)) > 0) img.insert(img.end(), buf, buf + k);
    fclose(h);
    std::vector<Hash> lv = w.m.leaves();
    for (int i = 0; i < 12; ++i) {
        Bytes b = img;
        switch (c.rng.below(7)) {
        case 0: b.resize(c.rng.below(b.size() + 1)); break;
        case 5: if (w.m.n > 1) { size_t x = 8 + 32 * c.rng.below(w.m.n), y = 8 + 32 * c.rng.below(w.m.n); std::copy(img.begin() + x, img.begin() + x + 32, b.begin() + y); } break;
        case 1: for (int q = 0; q < 8; ++q) b[q] = (uint8_t)(c.rng.chance(1, 2) ? 0 : c.rng.next()); break;
        case 2: { uint64_t n = w.m.n + c.rng.below(5) - 2; for (int q = 0; q < 8; ++q) b[q] = (uint8_t)(n >> (8 * (7 - q))); break; }
        case 3: for (int q = 1 + (int)c.rng.below(20); q > 0; --q) b[c.rng.below(b.size())] ^= 1 << c.rng.below(8); break;
        case 4: b.resize(c.rng.below(400)); for (auto& x : b) x = (uint8_t)c.rng.next(); break;
        default: b.resize(b.size() + c.rng.below(500), 0x5a);
        }
        if (c.rng.chance(1, 4)) { uint64_t n = 1ULL << c.rng.below(64); if (b.size() >= 8) for (int q = 0; q < 8; ++q) b[q] = (uint8_t)(n >> (8 * (7 - q))); }
        h = fopen(bad.c_str(), "wb");
        if (!h || fwrite(b.data(), 1, b.size(), h) != b.size() || fclose(h)) throw mdl::Bug{"scratch"};
        LOG(c, fmt("file of %zu bytes", b.size()));
        try {
            RamForest f(bad);
            c.hit("damaged-file:opened");
            std::vector<Hash> r;
            f.Roots(r);
            BatchProof p;
            for (auto& x : lv) f.Prove(p, {x});
            for (uint64_t q = 0; q < f.NumLeaves() && q < 100; ++q) { Hash x = f.GetLeaf(q); f.Prove(p, {x}); f.Verify(p, {x}); }
            f.Commit();
            // it goes on as any forest does
            for (int q = 0; q < 3; ++q) {
                std::vector<Leaf> adds;
                for (uint64_t k = c.rng.below(6); k > 0; --k) {
                    Hash x = w.gen.fresh(c.rng);
                    if (!f.Prove(p, {x})) adds.push_back({x, false});
                }
                UndoBatch u;
                std::vector<uint64_t> t = gen_targets(c.rng, f.NumLeaves());
                LOG(c, fmt("modify a forest of %llu leaves +%zu -", (unsigned long long)f.NumLeaves(), adds.size()) + list(t));
                if (f.Modify(u, adds, t) && c.rng.chance(1, 2)) f.Undo(u);
                c.hit("damaged-file:modified");
            }
        } catch (const std::runtime_error&) {
            c.hit("damaged-file:refused");
        }
    }
    c.mixin(model_digest(w.m));
    c.state(model_digest(w.m));
    c.nontrivial = true;
    remove(file.c_str());
    remove(bad.c_str());
}

#include "world.h"
#include <algorithm>

Hash LeafGen::fresh(Rng& r)
{
    uint64_t id = next_id++;
    Hash h;
    if (style == 1) {
        h.fill(0);
        for (int i = 0; i < 4; ++i) h[i] = (uint8_t)(id >> (8 * i));
        h[4] = 0xff;
        return h;
    }
    if (style == 2) {
        int k = (int)r.below(8);
        if (k == 0) { h.fill(0); if (special_used.insert(h).second) return h; }
        if (k == 1) { h.fill(0xff); if (special_used.insert(h).second) return h; }
        if (k <= 3) { h.fill(0x11); for (int i = 0; i < 8; ++i) h[24 + i] = (uint8_t)(id >> (8 * i)); h[23] = 1; return h; } // same first bytes
        if (k <= 5) { h.fill(0x22); for (int i = 0; i < 8; ++i) h[i] = (uint8_t)(id >> (8 * i)); h[8] = 2; return h; }      // same last bytes
        if (k == 6) { h.fill(0); for (int i = 0; i < 8; ++i) h[12 + i] = (uint8_t)(id >> (8 * i)); h[20] = 3; return h; }
    }
    uint8_t b[16];
    memcpy(b, &id, 8);
    uint64_t salt = 0xabcdef;
    memcpy(b + 8, &salt, 8);
    ref::sha512_256(b, 16, h.data());
    return h;
}

uint64_t gen_count(Rng& r, uint64_t n, uint64_t cap)
{
    // number of additions: small, medium, or to land next to a power of two
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return r.below(4);
    case 3: {
        uint64_t p = 1;
        while (p <= n) p <<= 1;
        if (r.chance(1, 4)) p <<= 1;
        uint64_t want = p + r.below(3) - 1;
        if (want > n && want - n <= cap) return want - n;
        return r.below(8);
    }
    default: return r.below(cap / 2 + 1);
    }
}

std::vector<uint64_t> gen_targets(Rng& r, uint64_t n)
{
    std::vector<uint64_t> t;
    if (n == 0) return t;
    std::set<uint64_t> s;
    switch (r.below(13)) {
    case 0: break;
    case 1: s.insert(r.below(n)); break;
    case 2: for (uint64_t i = 0; i < n; ++i) s.insert(i); break;
    case 3: { // a range
        uint64_t a = r.below(n), b = r.range(a, n - 1);
        for (uint64_t i = a; i <= b; ++i) s.insert(i);
        break;
    }
    case 4: { // aligned subtrees
        int k = 1 + (int)r.below(3);
        while (k--) {
            int h = (int)r.below(6);
            uint64_t a = (r.below(n) >> h) << h;
            for (uint64_t i = a; i < a + (1ULL << h) && i < n; ++i) s.insert(i);
        }
        break;
    }
    case 5: { // everything but a few
        for (uint64_t i = 0; i < n; ++i) s.insert(i);
        int k = 1 + (int)r.below(3);
        while (k--) s.erase(r.below(n));
        break;
    }
    case 6: { // every second / fourth
        uint64_t step = 1ULL << (1 + r.below(3)), off = r.below(step);
        for (uint64_t i = off; i < n; i += step) s.insert(i);
        break;
    }
    case 7: s.insert(n - 1); if (r.chance(1, 2)) s.insert(0); break;
    case 8: { // sibling pairs
        int k = 1 + (int)r.below(4);
        while (k--) { uint64_t a = r.below(n) & ~1ULL; s.insert(a); if (a + 1 < n) s.insert(a + 1); }
        break;
    }
    case 9: { // a whole tree
        std::vector<std::pair<uint64_t, uint64_t>> tr;
        uint64_t st = 0;
        for (int h = 63; h >= 0; --h) if ((n >> h) & 1) { tr.push_back({st, st + (1ULL << h)}); st += 1ULL << h; }
        auto p = tr[r.below(tr.size())];
        for (uint64_t i = p.first; i < p.second; ++i) s.insert(i);
        if (r.chance(1, 2)) s.insert(r.below(n));
        break;
    }
    default: { // random density
        uint64_t k = r.chance(1, 2) ? 1 + r.below(std::min<uint64_t>(n, 6)) : 1 + r.below(n);
        if (k > n / 2) {
            for (uint64_t i = 0; i < n; ++i) if (r.below(n) < k) s.insert(i);
        } else
            while (s.size() < k) s.insert(r.below(n));
    }
    }
    t.assign(s.begin(), s.end());
    return t;
}

uint64_t digest(const std::vector<uint64_t>& v, uint64_t salt)
{
    uint64_t h = salt * 0x9e3779b97f4a7c15ULL + v.size();
    for (uint64_t x : v) { h = (h ^ x) * 0x9fb21c651e98df25ULL; h ^= h >> 31; }
    return h;
}
uint64_t model_digest(const mdl::Forest& m)
{
    uint64_t h = m.n * 0x9e3779b97f4a7c15ULL;
    for (int r = 0; r < 64; ++r) if (m.has_root(r)) { uint64_t x; memcpy(&x, m.root[r]->hash().data(), 8); h = (h ^ x) * 0x9fb21c651e98df25ULL; h ^= h >> 31; }
    return h;
}
bool subsequence(const std::vector<Hash>& sub, const std::vector<Hash>& full)
{
    size_t j = 0;
    for (size_t i = 0; i < full.size() && j < sub.size(); ++i) if (full[i] == sub[j]) ++j;
    return j == sub.size();
}

void check_roots(Ctx& c, const utreexo::Accumulator& a, const mdl::Forest& m, const char* who)
{
    CHK(c, a.NumLeaves() == m.n, "leaf-count", "%s reports %llu leaves, expected %llu", who, (unsigned long long)a.NumLeaves(), (unsigned long long)m.n);
    std::vector<Hash> r;
    a.Roots(r);
    std::vector<Hash> want = m.roots();
    CHK(c, r.size() == want.size(), "root-count", "%s has %zu roots, expected %zu at %llu leaves", who, r.size(), want.size(), (unsigned long long)m.n);
    for (size_t i = 0; i < r.size(); ++i)
        CHK(c, r[i] == want[i], "root-hash", "%s root %zu of %zu is %s, expected %s at %llu leaves", who, i, r.size(), hx(r[i]).c_str(), hx(want[i]).c_str(), (unsigned long long)m.n);
}
void check_forest(Ctx& c, const RamForest& f, const mdl::Forest& m, bool all)
{
    check_roots(c, f, m, "forest");
    if (all) {
        std::vector<Hash> lv = m.leaves();
        for (uint64_t i = 0; i < m.n; ++i)
            if (f.GetLeaf(i) != lv[i]) c.fail("leaf-order", fmt("leaf %llu of %llu is %s, expected %s", (unsigned long long)i, (unsigned long long)m.n, hx(f.GetLeaf(i)).c_str(), hx(lv[i]).c_str()));
        c.hit("oracle:leaf-order", m.n);
    } else {
        for (int k = 0; k < 40 && m.n; ++k) {
            uint64_t i = c.rng.below(m.n);
            CHK(c, f.GetLeaf(i) == m.leaf_at(i), "leaf-order", "leaf %llu of %llu differs", (unsigned long long)i, (unsigned long long)m.n);
        }
    }
    c.state(model_digest(m));
}
void check_positions(Ctx& c, const RamForest& f, const mdl::Forest& m, size_t sample)
{
    auto one = [&](uint64_t i) {
        BatchProof p;
        Hash h = m.leaf_at(i);
        CHK(c, f.Prove(p, {h}), "leaf-provable", "leaf %llu of %llu cannot be proven", (unsigned long long)i, (unsigned long long)m.n);
        CHK(c, p.GetTargets().size() == 1 && p.GetTargets()[0] == i, "leaf-position", "leaf %llu is proven at position %llu", (unsigned long long)i, (unsigned long long)(p.GetTargets().empty() ? ~0ULL : p.GetTargets()[0]));
        CHK(c, p.GetHashes() == m.proof_hashes({i}), "leaf-proof", "proof of leaf %llu of %llu differs from the reference", (unsigned long long)i, (unsigned long long)m.n);
    };
    if (sample > 100 && m.n) { one(m.n - 1); one(0); one(m.n / 2); }
    if (sample >= m.n) for (uint64_t i = 0; i < m.n; ++i) one(i);
    else for (size_t k = 0; k < sample; ++k) one(c.rng.below(m.n));
}

void World::setup()
{
    static const uint64_t caps[] = {4, 7, 10, 16, 24, 40, 70, 130};
    cap = caps[c.rng.below(8)];
    gen.style = (int)c.rng.below(3);
    if (c.rng.chance(1, 12)) { // a forest that lives in a file
        static int files = 0;
        std::string name = c.scratch + "/world" + std::to_string(++files % 16) + ".dat";
        remove(name.c_str());
        f = std::make_unique<RamForest>(name);
        c.hit("forest-with-file");
    } else f = std::make_unique<RamForest>(0);
    slots.reserve(8);
    uint64_t s = c.rng.below(1200);
    if (s < 4) { // some thousand leaves at once
        cap = (2000 + c.rng.below(4000)) * c.weight / 100;
        c.brief = true;
        c.hit("scale:thousands");
    } else if (s < 20) {
        cap = (300 + c.rng.below(900)) * c.weight / 100;
        c.brief = c.rng.chance(1, 2);
        c.hit("scale:hundreds");
    } else if (s < 26) { // a long life of a small forest
        cap = 3 + c.rng.below(10);
        c.stretch = 20 + (int)c.rng.below(20);
        c.hit("scale:long");
    }
}
std::vector<Hash> World::gen_adds()
{
    uint64_t k = gen_count(c.rng, m.n, cap);
    if (m.n > cap && k > 4) k = c.rng.below(4);
    std::vector<Hash> v;
    for (uint64_t i = 0; i < k; ++i) v.push_back(gen.fresh(c.rng));
    return v;
}
Slot& World::add_slot(const std::string& name, int den)
{
    Slot s;
    s.name = name;
    s.remember_den = den;
    s.p = std::make_unique<Pollard>(0);
    slots.push_back(std::move(s));
    return slots.back();
}
void World::restore_slot(Slot& s)
{
    LOG(c, s.name + ": restore from roots");
    s.p = std::make_unique<Pollard>(m.roots(), m.n);
    s.remembered.clear();
    s.lingering = false;
    c.hit("op:restore-pollard");
}
BatchProof World::prove(const std::vector<uint64_t>& targets)
{
    std::vector<Hash> th = hashes_at(m, targets);
    c.rng.shuffle(th);
    BatchProof p;
    CHK(c, f->Prove(p, th), "prove", "forest refuses to prove existing leaves %s of %llu", list(targets).c_str(), (unsigned long long)m.n);
    c.hit("op:prove");
    return p;
}
BatchProof World::partial(const Slot& s, const std::vector<uint64_t>& targets, bool omit_all)
{
    std::vector<mdl::Key> keys = m.proof_keys(targets);
    std::set<mdl::Key> known;
    for (uint64_t pos : remembered_positions(s)) m.path_siblings(pos, known);
    std::vector<Hash> hs;
    size_t omitted = 0;
    for (auto& k : keys) {
        if (known.count(k) && (omit_all || c.rng.chance(1, 2))) { ++omitted; continue; }
        hs.push_back(m.hash_at(k));
    }
    c.hit("partial:omitted-hashes", omitted);
    std::vector<uint64_t> order = targets; // a proof lists its targets in the order they were asked for
    if (c.rng.chance(1, 2)) c.rng.shuffle(order);
    return BatchProof(order, hs);
}
void World::must_verify(Slot& s, const BatchProof& p, const std::vector<uint64_t>& targets, const char* what)
{
    LOG(c, s.name + ": verify " + what + " targets " + list(targets) + fmt(" with %zu hashes", p.GetHashes().size()));
    CHK(c, s.p->Verify(p, hashes_at(m, targets)), "honest-verify", "%s rejects %s proof of %s at %llu leaves (%zu hashes)", s.name.c_str(), what, list(targets).c_str(), (unsigned long long)m.n, p.GetHashes().size());
    c.hit("op:verify-accepted");
    for (uint64_t t : targets) s.remembered.insert(m.leaf_at(t));
    if (!targets.empty()) s.lingering = true;
}
void World::modify_slot(Slot& s, const std::vector<Leaf>& adds, const std::vector<uint64_t>& targets)
{
    LOG(c, s.name + fmt(": modify +%zu -", adds.size()) + list(targets));
    CHK(c, s.p->Modify(adds, targets), "pollard-modify", "%s refuses to remove %s and add %zu at %llu leaves", s.name.c_str(), list(targets).c_str(), adds.size(), (unsigned long long)m.n);
    for (uint64_t t : targets) s.remembered.erase(m.leaf_at(t));
    for (const Leaf& l : adds) if (l.second) s.remembered.insert(l.first);
    c.hit("op:pollard-modify");
}
std::vector<uint64_t> World::remembered_positions(const Slot& s) const
{
    std::vector<uint64_t> v;
    if (s.remembered.empty()) return v;
    m.each_leaf([&](uint64_t i, const Hash& h) { if (s.remembered.count(h)) v.push_back(i); });
    return v;
}
std::set<mdl::Key> World::minimal_nodes(const Slot& s, bool with_paths) const
{
    std::set<mdl::Key> ks;
    for (uint64_t pos : remembered_positions(s)) {
        m.path_siblings(pos, ks);
        ks.insert({0, pos});
        if (with_paths) {
            int h = m.tree_of_leaf(pos);
            for (int r = 1; r < h; ++r) ks.insert({r, pos >> r});
        }
    }
    for (int r = 0; r < 64; ++r) if (m.has_root(r)) ks.insert({r, m.root_idx(r)});
    return ks;
}

World::Step World::plan()
{
    Step st;
    st.targets = gen_targets(c.rng, m.n);
    if (m.n > 4 * cap && st.targets.size() < m.n / 2) { // shrink
        st.targets.clear();
        for (uint64_t i = 0; i < m.n; ++i) if (c.rng.chance(3, 4)) st.targets.push_back(i);
    }
    st.adds = gen_adds();
    if (c.rng.chance(1, 9)) {
        for (uint64_t i = rounding(m.n - st.targets.size() + st.adds.size(), cap / 2 + 3); i > 0; --i) st.adds.push_back(gen.fresh(c.rng));
    }
    if (!gen.graveyard.empty() && c.rng.chance(1, 3)) {
        std::set<Hash> cur;
        for (auto& h : m.leaves()) cur.insert(h);
        int k = 1 + (int)c.rng.below(3);
        while (k-- && !gen.graveyard.empty()) {
            size_t i = c.rng.below(gen.graveyard.size());
            Hash h = gen.graveyard[i];
            gen.graveyard.erase(gen.graveyard.begin() + i);
            if (cur.count(h) || std::find(st.adds.begin(), st.adds.end(), h) != st.adds.end()) continue;
            st.adds.insert(st.adds.begin() + c.rng.below(st.adds.size() + 1), h);
            c.hit("op:re-add");
        }
    }
    if (!st.targets.empty() && c.rng.chance(1, 6)) { // remove and add back at once
        Hash h = m.leaf_at(st.targets[c.rng.below(st.targets.size())]);
        if (std::find(st.adds.begin(), st.adds.end(), h) == st.adds.end()) {
            st.adds.insert(st.adds.begin() + c.rng.below(st.adds.size() + 1), h);
            c.hit("op:re-add-same-step");
        }
    }
    return st;
}
std::vector<Leaf> World::flag(const std::vector<Hash>& adds, int den8)
{
    std::vector<Leaf> v;
    for (auto& h : adds) v.emplace_back(h, (int)c.rng.below(8) < den8);
    return v;
}
void World::forest_apply(const Step& st, int mode, UndoBatch* undo)
{
    if (mode < 0) mode = undo ? 1 : (int)c.rng.below(4);
    LOG(c, fmt("forest(%llu): mode %d +%zu -", (unsigned long long)m.n, mode, st.adds.size()) + list(st.targets));
    std::vector<Leaf> adds = flag(st.adds, 4);
    utreexo::Accumulator& base = *f;
    UndoBatch tmp;
    bool ok = true;
    if (mode == 0) ok = base.Modify(adds, st.targets);
    else if (mode == 1) ok = f->Modify(undo ? *undo : tmp, adds, st.targets);
    else if (mode == 2) ok = base.Modify({}, st.targets) && base.Modify(adds, {});
    else {
        ok = f->Modify(tmp, {}, st.targets);
        for (size_t i = 0; ok && i < adds.size();) {
            size_t k = 1 + c.rng.below(3);
            std::vector<Leaf> part(adds.begin() + i, adds.begin() + std::min(adds.size(), i + k));
            ok = f->Add(part);
            i += k;
        }
    }
    CHK(c, ok, "forest-modify", "forest refuses a valid modification of %llu leaves (+%zu -%zu)", (unsigned long long)m.n, st.adds.size(), st.targets.size());
    std::set<Hash> back(st.adds.begin(), st.adds.end());
    if (m.n <= 4096) {
        for (uint64_t t : st.targets) { Hash h = m.leaf_at(t); if (!back.count(h) && gen.graveyard.size() < 64) gen.graveyard.push_back(h); }
    }
    m.remove(st.targets);
    for (auto& h : st.adds) m.add(h);
    c.hit("op:forest-modify");
    c.hit("leaves-added", st.adds.size());
    c.hit("leaves-removed", st.targets.size());
    c.mixin(model_digest(m));
    if (st.targets.size()) c.nontrivial = true;
    // a deleted leaf is gone
    if (!gen.graveyard.empty()) {
        BatchProof p;
        Hash h = gen.graveyard.back();
        if (!back.count(h)) CHK(c, !f->Prove(p, {h}), "deleted-provable", "forest still proves a deleted leaf");
    }
}
uint64_t World::rounding(uint64_t n, uint64_t at_most)
{
    uint64_t two = 1, goal;
    while (two < n) two *= 2;
    while (two > 2 && (two - n % two) % two > at_most) two /= 2; // (for two = 2 at most one leaf is needed)
    goal = n + (two - n % two) % two;
    if (c.rng.chance(1, 4)) ++goal;
    else if (goal > n && c.rng.chance(1, 4)) --goal;
    if (goal - n > at_most) return 0;
    if ((goal & (goal - 1)) == 0 && goal >= 32) c.hit("scale:round");
    return goal - n;
}
uint64_t World::scaled(uint64_t n) const
{
    if (c.weight == 100) return n;
    for (int64_t d = -1; d <= 1; ++d) if (uint64_t two = n - d; (two & (two - 1)) == 0) {
        while (two > 4 && two > n * c.weight / 100) two /= 2;
        return two + d;
    }
    return n * c.weight / 100 + 3;
}
void World::grow(uint64_t n)
{
    Step st;
    for (uint64_t i = 0; i < n; ++i) st.adds.push_back(gen.fresh(c.rng));
    forest_apply(st, 1);
}
void World::big_history(uint64_t which, int nsteps, const std::function<void(const Step&, const BatchProof&)>& pollards, const std::function<void()>& after)
{
    static const uint64_t sizes[] = {70001, 65537, 98303, 131071, 65536, 81920, 131073, 66666};
    uint64_t n = scaled(sizes[which % 8]);
    gen.style = (int)(which / 8 % 2);
    f = std::make_unique<RamForest>(0);
    cap = n;
    for (int s = 0; s <= nsteps; ++s) {
        Step st;
        uint64_t k = m.n, adds;
        // large enough for a subtree of 2^16 leaves to be moved in the next step
        uint64_t roomy = which % 4 == 3 && s == 0 ? (196608 + c.rng.below(9)) * c.weight / 100 : 0;
        if (s == 0) adds = std::max(n, roomy); // all at once
        else {
            switch (which % 4 == 3 && s == 1 ? 4 : (which + s) % 6) {
            case 0: { uint64_t a = c.rng.below(k), b = std::min(k, a + 1 + c.rng.below(k / 4)); for (uint64_t i = a; i < b; ++i) st.targets.push_back(i); break; }
            case 1: for (uint64_t i = 0; i < k; ++i) if (c.rng.chance(1, 40)) st.targets.push_back(i); break;
            case 2: { std::set<uint64_t> t; for (int i = 0; i < 30; ++i) t.insert(c.rng.below(k)); t.insert(k - 1); st.targets.assign(t.begin(), t.end()); break; }
            case 3: for (uint64_t i = c.rng.below(2); i < k; i += 2) st.targets.push_back(i); break;
            case 4: { // the large tree loses its left half: a subtree of 2^16 leaves is moved
                uint64_t half = 1; while (half * 4 <= k) half *= 2;
                if (c.rng.chance(1, 3)) half -= 1 + c.rng.below(3);
                for (uint64_t i = 0; i < half; ++i) st.targets.push_back(i);
                break;
            }
            default: for (uint64_t i = 0; i < k; ++i) if (c.rng.below(k) > i) st.targets.push_back(i); // dense on the left, sparse on the right
            }
            adds = c.rng.chance(1, 2) ? c.rng.below(1500) : c.rng.below(n / 3);
            if (s == nsteps || c.rng.chance(1, 4)) adds += rounding(k - st.targets.size() + adds, n / 2);
        }
        for (uint64_t i = 0; i < adds; ++i) st.adds.push_back(gen.fresh(c.rng));
        LOG(c, fmt("large step %d at %llu leaves: +%zu -%zu", s, (unsigned long long)k, st.adds.size(), st.targets.size()));
        BatchProof p = st.targets.empty() ? BatchProof() : prove(st.targets);
        pollards(st, p);
        forest_apply(st, 1);
        after();
        c.hit("big:steps");
        c.state(model_digest(m));
    }
    c.nontrivial = true;
}
// sorted, unique leaf positions, clustered in interesting ways
std::vector<uint64_t> gen_sparse(Rng& r, uint64_t n, int max)
{
    std::set<uint64_t> s;
    int k = 1 + (int)r.below(max);
    int tries = 0;
    while ((int)s.size() < k && ++tries < 4 * max) {
        uint64_t x = r.below(n);
        switch (r.below(7)) {
        case 0: x = n - 1 - r.below(std::min<uint64_t>(n, 4)); break;
        case 1: x = r.below(std::min<uint64_t>(n, 4)); break;
        case 2: if (!s.empty()) x = *s.begin() ^ (1ULL << r.below(mdl::rows_of(n) + 1)); break;
        case 3: if (!s.empty()) x = *s.rbegin() ^ 1; break;
        case 4: { int h = (int)r.below(6); x = (x >> h) << h; for (uint64_t i = x; i < x + (1ULL << h) && i < n; ++i) s.insert(i); break; }
        case 5: { // first or last leaf of a tree
            std::vector<uint64_t> e;
            for (int h = 0; h < 63; ++h) if ((n >> h) & 1) { uint64_t st = (n >> (h + 1)) << (h + 1); e.push_back(st); e.push_back(st + (1ULL << h) - 1); }
            x = e[r.below(e.size())];
            break;
        }
        }
        if (x < n) s.insert(x);
    }
    if (r.chance(1, 12)) while (s.size() > n / 2 + 1) s.erase(s.begin());
    return std::vector<uint64_t>(s.begin(), s.end());
}
static mdl::P sparse_tree(Ctx& c, int h, uint64_t start, const std::set<uint64_t>& want, LeafGen& g)
{
    auto it = want.lower_bound(start);
    bool inside = it != want.end() && *it - start < (1ULL << h);
    if (!inside || h == 0) return mdl::leaf(g.fresh(c.rng));
    auto l = sparse_tree(c, h - 1, start, want, g);
    return mdl::join(l, sparse_tree(c, h - 1, start + (1ULL << (h - 1)), want, g));
}
void World::make_sparse()
{
    Rng& r = c.rng;
    sparse = true;
    int lowbits = (int)r.range(1, 6), high = (int)r.range(lowbits + 1, 61);
    uint64_t n = (1ULL << high) | ((1ULL << lowbits) - 1);
    if (high > lowbits + 1) for (int k = (int)r.below(4); k > 0; --k) n |= 1ULL << r.range(lowbits, high - 1);
    // with nothing in the lowest trees the removal of a single leaf takes a large tree apart
    if (r.chance(1, 3)) n &= ~((1ULL << r.range(lowbits, high - 1)) - 1) | 1ULL << high;
    std::set<uint64_t> want;
    for (uint64_t x : gen_sparse(r, n, 12)) want.insert(x);
    while (want.size() > 24) want.erase(want.begin());
    for (int k = 0; k < 6; ++k) want.insert(n - 1 - r.below(std::min<uint64_t>(n, 1ULL << lowbits)));
    m.n = n;
    for (int h = 62; h >= 0; --h) if ((n >> h) & 1) m.root[h] = sparse_tree(c, h, (n >> (h + 1)) << (h + 1), want, gen);
    LOG(c, fmt("accumulator of %llu leaves, known leaves ", (unsigned long long)n) + list(want));
}
std::vector<uint64_t> World::known() const
{
    std::vector<uint64_t> v;
    m.each_leaf([&](uint64_t i, const Hash&) { v.push_back(i); });
    return v;
}
std::vector<uint64_t> World::some_targets()
{
    if (!sparse) return gen_targets(c.rng, m.n);
    std::vector<uint64_t> k = known(), t;
    for (uint64_t i : gen_targets(c.rng, k.size())) t.push_back(k[i]);
    return t;
}
uint64_t World::a_leaf()
{
    if (!sparse) return c.rng.below(m.n);
    std::vector<uint64_t> k = known();
    return k[c.rng.below(k.size())];
}
void World::sparse_history(int nsteps, const std::function<void(const Step&, const BatchProof&)>& pollards, const std::function<void()>& after)
{
    gen.style = (int)c.rng.below(3);
    make_sparse();
    for (Slot& s : slots) restore_slot(s);
    for (int i = 0; i < nsteps; ++i) {
        Step st;
        st.targets = some_targets();
        while (st.targets.size() > 12) st.targets.erase(st.targets.begin() + c.rng.below(st.targets.size()));
        for (int a = (int)c.rng.below(c.rng.chance(1, 8) ? 40 : 6); a > 0; --a) st.adds.push_back(gen.fresh(c.rng));
        if (!gen.graveyard.empty() && c.rng.chance(1, 5)) { // a deleted leaf comes back
            size_t k = c.rng.below(gen.graveyard.size());
            st.adds.insert(st.adds.begin() + c.rng.below(st.adds.size() + 1), gen.graveyard[k]);
            gen.graveyard.erase(gen.graveyard.begin() + k);
        }
        std::vector<uint64_t> order = st.targets;
        if (c.rng.chance(1, 2)) c.rng.shuffle(order);
        LOG(c, fmt("sparse step at %llu leaves: +%zu -", (unsigned long long)m.n, st.adds.size()) + list(st.targets));
        pollards(st, BatchProof(order, m.proof_hashes(st.targets)));
        for (uint64_t t : st.targets) gen.graveyard.push_back(m.leaf_at(t));
        m.remove(st.targets);
        if (m.max_swap_row > 31) c.hit("sparse:moves-of-2^32");
        for (auto& h : st.adds) m.add(h);
        after();
        c.hit("sparse:steps");
        if (m.n >> 32) c.hit("sparse:steps-2^32");
        c.state(model_digest(m));
        c.mixin(model_digest(m));
        if (st.targets.size()) c.nontrivial = true;
        if (!m.n || known().empty()) break;
    }
    c.hit("sparse:histories");
}
void World::marathon(uint64_t nsteps, const std::function<void(const Step&)>& pollards, const std::function<void(uint64_t, bool)>& after)
{
    if (!f) f = std::make_unique<RamForest>(0);
    nsteps = nsteps * c.weight / 100;
    uint64_t most = c.rng.range(5, 11);
    for (uint64_t s = 0; s < nsteps; ++s) {
        Step st;
        for (uint64_t i = 0; i < m.n; ++i) if (c.rng.chance(1, 4)) st.targets.push_back(i);
        uint64_t left = m.n - st.targets.size(), adds = left < most ? c.rng.below(std::min<uint64_t>(4, most - left + 1)) : 0;
        for (uint64_t i = 0; i < adds; ++i) st.adds.push_back(gen.fresh(c.rng));
        pollards(st);
        forest_apply(st, (int)(s & 1));
        after(s, s % 256 < 2 || s % 256 == 255 || s + 100 > nsteps);
        c.hit("marathon:steps");
    }
    c.nontrivial = true;
}
void World::check_slot(const Slot& s)
{
    check_roots(c, *s.p, m, s.name.c_str());
    CHK(c, s.p->NumCachedLeaves() == s.remembered.size(), "cached-count", "%s reports %llu cached leaves, expected %zu", s.name.c_str(), (unsigned long long)s.p->NumCachedLeaves(), s.remembered.size());
}
void World::pollards_apply(const Step& st, const BatchProof& proof, bool always_verify)
{
    // called before the model moves on
    for (Slot& s : slots) {
        bool all_cached = true;
        for (uint64_t t : st.targets) if (!s.remembered.count(m.leaf_at(t))) { all_cached = false; break; }
        if (!all_cached || always_verify || c.rng.chance(1, 3)) {
            switch (c.rng.below(4)) {
            case 0: must_verify(s, partial(s, st.targets, true), st.targets, "minimal"); break;
            case 1: must_verify(s, partial(s, st.targets, false), st.targets, "partial"); break;
            case 2: {
                // the layout has 32 bits for a position
                if (!st.targets.empty() && st.targets.back() >> 32) { must_verify(s, proof, st.targets, "full"); break; }
                std::vector<uint8_t> bytes;
                proof.Serialize(bytes);
                BatchProof q;
                CHK(c, q.Unserialize(bytes), "unserialize", "a serialized proof does not read back");
                must_verify(s, q, st.targets, "serialized");
                break;
            }
            default: must_verify(s, proof, st.targets, "full");
            }
            if (c.rng.chance(1, 6)) must_verify(s, proof, st.targets, "repeated");
        } else c.hit("op:remove-without-verify");
        modify_slot(s, flag(st.adds, s.remember_den), st.targets);
    }
}

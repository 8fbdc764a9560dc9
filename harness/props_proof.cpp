// Proofs: completeness, soundness, effects of verification, caching, node bounds.
#include "world.h"
#include <algorithm>

namespace {
void setup(World& w) { w.setup(); }
int steps(Ctx& c, int lo, int hi) { return c.steps(lo, hi); }
std::vector<uint64_t> bits(uint64_t mask)
{
    std::vector<uint64_t> t;
    for (int i = 0; i < 64; ++i) if ((mask >> i) & 1) t.push_back(i);
    return t;
}
std::vector<uint64_t> sorted(std::vector<uint64_t> v) { std::sort(v.begin(), v.end()); return v; }

// ---- claims ----
struct Claim {
    BatchProof p;
    std::vector<Hash> th;
    std::string what;
};
// is what the claim says true in the model: hashes (in position order) are the leaves at the targets
bool claim_true(const mdl::Forest& m, const Claim& q)
{
    std::vector<uint64_t> t = sorted(q.p.GetTargets());
    if (t.size() != q.th.size()) return false;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] >= m.n || (i && t[i] == t[i - 1])) return false;
        if (!m.leaf_is(t[i], q.th[i])) return false;
    }
    return true;
}
Claim honest(World& w, std::vector<uint64_t> t)
{
    Claim q;
    q.th = hashes_at(w.m, t);
    std::vector<Hash> ph = w.m.proof_hashes(t);
    w.c.rng.shuffle(t);
    q.p = BatchProof(t, ph);
    return q;
}
// some node of the tree, or another hash with a meaning
Hash some_hash(World& w)
{
    Rng& r = w.c.rng;
    switch (r.below(7)) {
    case 0: { Hash h; h.fill(0); return h; }
    case 1: if (w.m.n) { auto v = w.m.roots(); return v[r.below(v.size())]; }
    // fallthrough
    case 2: if (w.m.n) {
        uint64_t leaf = w.a_leaf();
        int h = w.m.tree_of_leaf(leaf), row = (int)r.below(h + 1);
        return w.m.hash_at({row, leaf >> row});
    }
    // fallthrough
    case 3: if (!w.gen.graveyard.empty()) return w.gen.graveyard[r.below(w.gen.graveyard.size())];
    // fallthrough
    case 4: if (w.m.n) return w.m.leaf_at(w.a_leaf());
    // fallthrough
    default: { Hash h; for (auto& b : h) b = (uint8_t)r.next(); return h; }
    }
}
// turn a claim into another one, usually a lie
Claim mutate(World& w, const Claim& in, const Claim& other)
{
    Rng& r = w.c.rng;
    std::vector<uint64_t> t = in.p.GetTargets();
    std::vector<Hash> ph = in.p.GetHashes(), th = in.th;
    std::string what;
    int n = r.chance(1, 4) ? 2 : 1;
    while (n--) {
        auto flip = [&](std::vector<Hash>& v) {
            size_t i = r.below(v.size());
            if (r.chance(1, 3)) v[i][r.chance(1, 2) ? 0 : 31] ^= (uint8_t)(1 << r.below(8));
            else v[i][r.below(32)] ^= (uint8_t)(1 << r.below(8));
        };
        switch (r.below(24)) {
        case 0: case 1: if (th.empty()) continue; flip(th); what += " flip-leaf-bit"; break;
        case 2: case 3: if (ph.empty()) continue; flip(ph); what += " flip-proof-bit"; break;
        case 4: if (th.size() < 2) continue; { size_t i = r.below(th.size()), j = r.below(th.size()); std::swap(th[i], th[j]); } what += " exchange-leaves"; break;
        case 5: if (ph.size() < 2) continue; { size_t i = r.below(ph.size()), j = r.chance(1, 2) ? r.below(ph.size()) : (i + 1) % ph.size(); std::swap(ph[i], ph[j]); } what += " exchange-proof-hashes"; break;
        case 6: if (ph.empty()) continue; ph.erase(ph.begin() + (r.chance(1, 3) ? ph.size() - 1 : r.below(ph.size()))); what += " drop-proof-hash"; break;
        case 7: ph.insert(ph.begin() + r.below(ph.size() + 1), some_hash(w)); what += " extra-proof-hash"; break;
        case 8: if (ph.empty()) continue; { Hash h = ph[r.below(ph.size())]; ph.insert(ph.begin() + r.below(ph.size() + 1), h); } what += " repeat-proof-hash"; break;
        case 9: if (ph.empty()) continue; ph[r.below(ph.size())] = some_hash(w); what += " replace-proof-hash"; break;
        case 10: case 11: if (th.empty()) continue; th[r.below(th.size())] = some_hash(w); what += " replace-leaf"; break;
        case 12: if (t.empty()) continue; t[r.below(t.size())] ^= 1ULL << r.below(mdl::rows_of(w.m.n) + 2); what += " move-target"; break;
        case 13: if (t.empty()) continue; { size_t i = r.below(t.size()); t[i] = r.chance(1, 2) ? t[i] + 1 : t[i] - 1; } what += " shift-target"; break;
        case 14: if (t.empty()) continue; t[r.below(t.size())] = r.chance(1, 2) ? w.m.n + r.below(w.m.n + 2) : r.next() >> r.below(40); what += " target-out-of-range"; break;
        case 15: if (t.empty()) continue; t[r.below(t.size())] = t[r.below(t.size())]; what += " repeat-target"; break;
        case 16: if (t.empty()) continue; t.pop_back(); what += " drop-target"; break;
        case 17: if (th.empty()) continue; th.erase(th.begin() + r.below(th.size())); what += " drop-leaf"; break;
        case 18: th.insert(th.begin() + r.below(th.size() + 1), some_hash(w)); what += " extra-leaf"; break;
        case 19: t.insert(t.begin() + r.below(t.size() + 1), r.below(w.m.n + 1)); what += " extra-target"; break;
        case 20: ph = other.p.GetHashes(); what += " foreign-proof-hashes"; break;
        case 21: th = other.th; what += " foreign-leaves"; break;
        case 22: ph.clear(); what += " no-proof-hashes"; break;
        default: { // claim leaves which do not exist at true positions with an empty or a partial proof
            std::set<uint64_t> s;
            if (w.m.n == 0) continue;
            int k = 1 + (int)r.below(3);
            while (k--) s.insert(w.a_leaf());
            t.assign(s.begin(), s.end());
            th.clear();
            for (uint64_t x : t) th.push_back(r.chance(1, 3) ? w.m.leaf_at(x) : some_hash(w));
            if (r.chance(1, 2)) ph.clear(); else ph = w.m.proof_hashes(t);
            what += " invented-leaves";
        }
        }
    }
    Claim q;
    q.p = BatchProof(t, ph);
    q.th = th;
    q.what = what.empty() ? " unchanged" : what;
    return q;
}
// the largest run of supplied hashes must be genuine: a subsequence of the canonical proof
bool hashes_genuine(const mdl::Forest& m, const Claim& q) { return subsequence(q.p.GetHashes(), m.proof_hashes(sorted(q.p.GetTargets()))); }

struct Judge {
    World& w;
    std::vector<Claim> pool; // earlier claims, possibly from other states
    explicit Judge(World& wd) : w(wd) {}
    Claim next()
    {
        Rng& r = w.c.rng;
        Claim base;
        if (!pool.empty() && r.chance(1, 3)) base = pool[r.below(pool.size())];
        else base = honest(w, w.some_targets());
        if (r.chance(1, 8)) { base.what = " stale-or-honest"; keep(base); return base; }
        const Claim& o = pool.empty() ? base : pool[r.below(pool.size())];
        Claim q = mutate(w, base, o);
        keep(r.chance(1, 3) ? q : base);
        return q;
    }
    void keep(const Claim& q)
    {
        if (pool.size() < 24) pool.push_back(q);
        else pool[w.c.rng.below(pool.size())] = q;
    }
};
void log_claim(Ctx& c, const char* who, const Claim& q, bool truth)
{
    if (!c.tracing()) return;
    std::string s = std::string(who) + ": claim" + q.what + " targets " + list(q.p.GetTargets()) + fmt(" leaves %zu proof hashes %zu", q.th.size(), q.p.GetHashes().size()) + (truth ? " (true)" : " (false)");
    c.log(s);
}
// decide one claim on one pollard; returns whether it was accepted
bool judge(World& w, Slot& s, const Claim& q, bool bare)
{
    Ctx& c = w.c;
    bool truth = claim_true(w.m, q);
    log_claim(c, s.name.c_str(), q, truth);
    bool acc = s.p->Verify(q.p, q.th);
    c.hit(acc ? "claims:accepted" : truth ? "claims:true-but-unproven" : "claims:false-rejected");
    c.mixin(digest(q.p.GetTargets(), acc * 2 + truth));
    CHK(c, !acc || truth, "false-claim-accepted", "%s accepts a false claim (%s ) about positions %s at %llu leaves", s.name.c_str(), q.what.c_str(), list(q.p.GetTargets()).c_str(), (unsigned long long)w.m.n);
    if (acc) {
        CHK(c, hashes_genuine(w.m, q), "forged-proof-accepted", "%s accepts a proof of %s with hashes that are not those of the forest (%s )", s.name.c_str(), list(q.p.GetTargets()).c_str(), q.what.c_str());
        if (bare) CHK(c, q.th.empty() || q.p.GetHashes() == w.m.proof_hashes(sorted(q.p.GetTargets())), "incomplete-proof-accepted", "%s knows only the roots and accepts an incomplete proof of %s", s.name.c_str(), list(q.p.GetTargets()).c_str());
        for (auto& h : q.th) s.remembered.insert(h);
        if (!q.th.empty()) s.lingering = true;
    }
    return acc;
}
// ---- small scope, systematically: every honest proof of a small forest changed in one place in every way ----
struct Scope { int n; uint64_t mask; int how; };
// how the pollard got to know the leaves of mask: by flag when added, by verification from bare roots, or both
std::vector<Scope> scopes(int nmax)
{
    std::vector<Scope> v;
    for (int n = nmax; n >= 1; --n) for (int how = 0; how < 3; ++how) for (uint64_t m = how ? 1 : 0; m < (1ULL << n); ++m) v.push_back({n, m, how});
    return v;
}
void scope_pollard(World& w, Slot& s, const Scope& sc, const std::vector<Hash>& lv)
{
    s.remembered.clear();
    uint64_t flagged = sc.how == 0 ? sc.mask : sc.how == 2 ? sc.mask & 0x5555555555555555ULL : 0, verified = sc.how == 0 ? 0 : sc.mask;
    if (sc.how == 1) s.p = std::make_unique<Pollard>(w.m.roots(), w.m.n);
    else {
        s.p = std::make_unique<Pollard>(0);
        std::vector<Leaf> adds;
        for (size_t i = 0; i < lv.size(); ++i) { adds.emplace_back(lv[i], (flagged >> i) & 1); if ((flagged >> i) & 1) s.remembered.insert(lv[i]); }
        CHK(w.c, s.p->Modify(adds, {}), "pollard-modify", "%s refuses additions", s.name.c_str());
    }
    if (verified) {
        std::vector<uint64_t> t = bits(verified);
        CHK(w.c, s.p->Verify(BatchProof(t, w.m.proof_hashes(t)), hashes_at(w.m, t)), "honest-verify", "%s rejects an honest proof of %s at %d leaves", s.name.c_str(), list(t).c_str(), sc.n);
        for (uint64_t x : t) s.remembered.insert(lv[x]);
    }
}
std::vector<Hash> all_nodes(const mdl::Forest& m)
{
    std::vector<Hash> v;
    for (int row = 0; row < 64 && (m.n >> row); ++row) for (uint64_t i = 0; i < (m.n >> row); ++i) if (m.get(row, i)) v.push_back(m.hash_at({row, i}));
    Hash z;
    z.fill(0);
    v.push_back(z);
    z.fill(0x5a);
    v.push_back(z);
    return v;
}
void each_claim(World& w, const std::function<void(const Claim&)>& f, bool pairs)
{
    std::vector<Hash> nodes = all_nodes(w.m);
    uint64_t n = w.m.n, top = 2ULL << mdl::rows_of(n);
    for (uint64_t mask = 1; mask < (1ULL << n); ++mask) {
        std::vector<uint64_t> t = bits(mask);
        std::vector<Hash> th = hashes_at(w.m, t), ph = w.m.proof_hashes(t);
        auto go = [&](const std::vector<uint64_t>& ct, const std::vector<Hash>& cp, const std::vector<Hash>& ch, const char* what) {
            Claim q;
            q.p = BatchProof(ct, cp);
            q.th = ch;
            q.what = what;
            f(q);
        };
        go(t, ph, th, " honest");
        for (size_t i = 0; i < th.size(); ++i) {
            auto v = th;
            for (auto& h : nodes) { v[i] = h; go(t, ph, v, " replace-leaf"); if (ph.size()) go(t, {}, v, " replace-leaf no-proof"); }
            v = th; v[i][(mask + i) % 32] ^= 1; go(t, ph, v, " flip-leaf-bit");
            v = th; v.erase(v.begin() + i); go(t, ph, v, " drop-leaf");
            v = th; v.insert(v.begin() + i, th[i]); go(t, ph, v, " repeat-leaf");
            for (size_t j = i + 1; j < th.size(); ++j) { v = th; std::swap(v[i], v[j]); go(t, ph, v, " exchange-leaves"); }
            for (uint64_t x = 0; x <= top; ++x) { auto u = t; u[i] = x; go(u, ph, th, " move-target"); }
            auto u = t; u.erase(u.begin() + i); go(u, ph, th, " drop-target");
            u = t; u.push_back(t[i]); go(u, ph, th, " repeat-target");
            v = th; v.insert(v.begin() + i, th[i]); go(u, ph, v, " repeat-target-and-leaf");
        }
        for (size_t i = 0; i < ph.size(); ++i) {
            auto v = ph;
            for (auto& h : nodes) { v[i] = h; go(t, v, th, " replace-proof-hash"); }
            v = ph; v[i][(mask + i) % 32] ^= 0x80; go(t, v, th, " flip-proof-bit");
            for (size_t j = i + 1; j < ph.size(); ++j) { v = ph; std::swap(v[i], v[j]); go(t, v, th, " exchange-proof-hashes"); }
        }
        for (uint64_t sub = 0; sub + 1 < (1ULL << std::min<size_t>(ph.size(), 6)); ++sub) { // only some of the hashes
            std::vector<Hash> v;
            for (size_t i = 0; i < ph.size(); ++i) if ((sub >> i) & 1) v.push_back(ph[i]);
            go(t, v, th, " partial");
            auto x = th;
            for (auto& h : x) { Hash k = h; h[7] ^= 4; go(t, v, x, " partial flip-leaf-bit"); h = k; }
        }
        for (size_t i = 0; i <= ph.size(); ++i) for (size_t k = 0; k < nodes.size(); ++k) { auto v = ph; v.insert(v.begin() + i, nodes[k]); go(t, v, th, " extra-proof-hash"); }
        if (pairs) for (size_t i = 0; i < th.size(); ++i) for (size_t j = 0; j < ph.size(); ++j) for (auto& a : nodes) for (auto& b : nodes) {
            auto v = th, x = ph;
            v[i] = a;
            x[j] = b;
            go(t, x, v, " replace-leaf replace-proof-hash");
        }
    }
}
} // namespace

// ---------------------------------------------------------------- C03
static void prove_and_check(Ctx& c, World& w, const std::vector<uint64_t>& targets, bool all_slots)
{
    std::vector<uint64_t> order(targets);
    int how = (int)c.rng.below(3);
    if (how == 1) std::reverse(order.begin(), order.end());
    if (how == 2) c.rng.shuffle(order);
    std::vector<Hash> th = hashes_at(w.m, order), sth = hashes_at(w.m, targets);
    LOG(c, "prove " + list(order) + fmt(" of %llu", (unsigned long long)w.m.n));
    BatchProof p;
    if (c.rng.chance(1, 4)) p = BatchProof({1, 2, 3}, {Hash{}}); // what was in the object does not matter
    CHK(c, w.f->Prove(p, th), "prove", "forest refuses to prove existing leaves %s of %llu", list(targets).c_str(), (unsigned long long)w.m.n);
    CHK(c, p.GetTargets() == order, "prove-targets", "proof names positions %s, the leaves are at %s", list(p.GetTargets()).c_str(), list(order).c_str());
    CHK(c, p.GetSortedTargets() == targets, "prove-sorted-targets", "sorted positions of the proof are %s, expected %s", list(p.GetSortedTargets()).c_str(), list(targets).c_str());
    std::vector<Hash> want = w.m.proof_hashes(targets);
    CHK(c, p.GetHashes().size() == want.size(), "proof-size", "proof of %s of %llu leaves has %zu hashes, the minimal proof has %zu", list(targets).c_str(), (unsigned long long)w.m.n, p.GetHashes().size(), want.size());
    CHK(c, p.GetHashes() == want, "proof-hashes", "proof of %s of %llu leaves has other hashes than the canonical one", list(targets).c_str(), (unsigned long long)w.m.n);
    CHK(c, p.CheckSanity(w.m.n), "proof-sanity", "an honest proof of %s fails the sanity check", list(targets).c_str());
    CHK(c, w.f->Verify(p, sth) && w.f->Verify(p, th), "forest-verify", "forest rejects its own proof of %s", list(targets).c_str());
    std::vector<uint8_t> bytes;
    p.Serialize(bytes);
    BatchProof q;
    CHK(c, q.Unserialize(bytes), "unserialize", "serialized proof does not read back");
    Pollard bare(w.m.roots(), w.m.n);
    CHK(c, bare.Verify(p, sth), "restored-rejects", "a pollard restored from the roots rejects the proof of %s of %llu leaves", list(targets).c_str(), (unsigned long long)w.m.n);
    CHK(c, bare.Verify(q, sth), "restored-rejects", "a pollard rejects the proof of %s of %llu leaves after serialization or when repeated", list(targets).c_str(), (unsigned long long)w.m.n);
    check_roots(c, bare, w.m, "pollard");
    for (auto& s : w.slots) if (all_slots || c.rng.chance(1, 3)) w.must_verify(s, c.rng.chance(1, 2) ? p : q, targets, "honest");
    c.hit("proof-sets");
    c.hit("proof-targets", targets.size());
    c.mixin(digest(targets, w.m.n));
    c.state(digest(targets, model_digest(w.m)));
    if (targets.size()) c.nontrivial = true;
}
// accumulators of up to 2^61 leaves: proofs are made by the pollards that cache the leaves
static void c03_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("wallet", 3);
    w.add_slot("hoarder", 8);
    w.add_slot("light", 0);
    auto sets = [&] {
        if (!w.m.n) return;
        for (int k = 1 + (int)c.rng.below(4); k > 0; --k) {
            std::vector<uint64_t> t = w.some_targets(), order(t);
            std::vector<Hash> th = hashes_at(w.m, t), want = w.m.proof_hashes(t);
            c.rng.shuffle(order);
            BatchProof p(order, want);
            CHK(c, p.CheckSanity(w.m.n), "proof-sanity", "an honest proof of %s at %llu leaves fails the sanity check", list(t).c_str(), (unsigned long long)w.m.n);
            Pollard bare(w.m.roots(), w.m.n);
            CHK(c, bare.Verify(p, th), "restored-rejects", "a pollard restored from the roots rejects the proof of %s of %llu leaves", list(t).c_str(), (unsigned long long)w.m.n);
            std::vector<uint8_t> bytes;
            BatchProof q, r;
            p.Serialize(bytes);
            bool reads = q.Unserialize(bytes);
            // the layout has 32 bits for the positions; what does not fit is not promised to come back
            if (t.empty() || t.back() >> 32 == 0) {
                CHK(c, reads && q == p, "unserialize", "serialized proof does not read back");
                CHK(c, bare.Verify(q, th), "restored-rejects", "a pollard rejects the proof of %s of %llu leaves after serialization", list(t).c_str(), (unsigned long long)w.m.n);
            }
            for (auto& s : w.slots) if (c.rng.chance(1, 2)) {
                w.must_verify(s, p, t, "honest");
                std::vector<Hash> asked = hashes_at(w.m, order);
                CHK(c, s.p->Prove(r, asked), "prove", "%s refuses to prove leaves %s of %llu which it has just verified", s.name.c_str(), list(t).c_str(), (unsigned long long)w.m.n);
                CHK(c, r.GetTargets() == order, "prove-targets", "proof names positions %s, the leaves are at %s", list(r.GetTargets()).c_str(), list(order).c_str());
                CHK(c, r.GetHashes() == want, "proof-hashes", "%s proves %s of %llu leaves with other hashes than the canonical ones", s.name.c_str(), list(t).c_str(), (unsigned long long)w.m.n);
            }
            c.hit("proof-sets");
            c.mixin(digest(t, w.m.n));
            c.state(digest(t, model_digest(w.m)));
            c.nontrivial = true;
        }
    };
    w.sparse_history((int)c.rng.range(2, 7), [&](const World::Step& st, const BatchProof& p) { sets(); w.pollards_apply(st, p); }, [&] { for (auto& s : w.slots) w.check_slot(s); });
}
WORKLOAD(C03)
{
    // every subset of every small forest
    int nmax = c.thorough ? 14 : 10;
    std::vector<std::pair<int, uint64_t>> blocks;
    for (int n = nmax; n >= 1; --n) for (uint64_t lo = 0; lo < (1ULL << n); lo += 128) blocks.push_back({n, lo});
    uint64_t k = c.case_no, big = c.big(2, 8);
    World w(c);
    setup(w);
    if (k < big) {
        static const uint64_t sizes[] = {70000, 65536, 131073, 65535};
        uint64_t n = w.scaled(sizes[(k + c.seed) % 4]);
        w.gen.style = (int)(k % 3);
        w.gen.style = w.gen.style == 2 ? 0 : w.gen.style;
        w.add_slot("wallet", 2);
        w.add_slot("hoarder", 8);
        World::Step all;
        for (uint64_t i = 0; i < n; ++i) all.adds.push_back(w.gen.fresh(c.rng));
        for (auto& s : w.slots) w.modify_slot(s, w.flag(all.adds, s.remember_den), {});
        w.forest_apply(all, 1);
        for (int i = 0; i < 6; ++i) {
            std::set<uint64_t> s;
            uint64_t cnt = i == 0 ? 1 : i == 1 ? n / 3 : i == 2 ? n - 2 : 1 + c.rng.below(2000);
            if (cnt > n / 2) { for (uint64_t x = 0; x < n; ++x) s.insert(x); for (uint64_t x = cnt; x < n; ++x) s.erase(c.rng.below(n)); }
            else while (s.size() < cnt) s.insert(c.rng.below(n));
            prove_and_check(c, w, std::vector<uint64_t>(s.begin(), s.end()), true);
            c.hit("big:proofs");
        }
        return;
    }
    k -= big;
    int64_t block = c.block(k, blocks.size());
    if (block >= 0) {
        auto b = blocks[block];
        LOG(c, fmt("every subset from %llu of %d leaves", (unsigned long long)b.second, b.first));
        Slot& s = w.add_slot("hoarder", 8);
        World::Step st;
        for (int i = 0; i < b.first; ++i) st.adds.push_back(w.gen.fresh(c.rng));
        w.modify_slot(s, w.flag(st.adds, 8), {});
        w.forest_apply(st, 1);
        for (uint64_t mask = b.second; mask < b.second + 128 && mask < (1ULL << b.first); ++mask) { prove_and_check(c, w, bits(mask), true); c.hit("exhaustive:proof-subsets"); }
        return;
    }
    if (c.rng.chance(1, 30)) return c03_sparse(c);
    if (c.stretch == 1 && w.cap < 200 && c.rng.chance(1, 30)) w.cap = 1200;
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    w.add_slot("hoarder", 8);
    int n = steps(c, 3, 14);
    for (int i = 0; i < n; ++i) {
        int sets = 1 + (int)c.rng.below(5);
        while (sets--) prove_and_check(c, w, gen_targets(c.rng, w.m.n), c.rng.chance(1, 3));
        World::Step st = w.plan();
        w.pollards_apply(st, w.prove(st.targets));
        w.forest_apply(st, -1);
    }
    prove_and_check(c, w, gen_targets(c.rng, w.m.n), true);
}

// ---------------------------------------------------------------- C04
static void judge_forest(World& w, const Claim& q)
{
    Ctx& c = w.c;
    bool present = true;
    std::vector<Hash> lv = w.m.leaves();
    std::set<Hash> have(lv.begin(), lv.end());
    for (auto& h : q.th) if (!have.count(h)) present = false;
    log_claim(c, "forest", q, claim_true(w.m, q));
    bool acc = w.f->Verify(q.p, q.th);
    CHK(c, !acc || present, "forest-accepts-absent", "the forest accepts leaves it does not contain (%s )", q.what.c_str());
    c.hit(acc ? "forest:accepted" : "forest:rejected");
}
static void c04_big(Ctx& c, uint64_t which)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 2);
    w.add_slot("hoarder", 8);
    Judge j(w);
    w.big_history(which, 2, [&](const World::Step& st, const BatchProof& p) {
        if (w.m.n) for (int i = 0; i < 16; ++i) {
            Claim q = j.next();
            judge(w, w.slots[i % 3], q, false);
            Slot bare;
            bare.name = "restored";
            bare.p = std::make_unique<Pollard>(w.m.roots(), w.m.n);
            judge(w, bare, q, true);
            if (i % 4 == 0) judge_forest(w, q);
            c.hit("big:claims");
        }
        if (!st.targets.empty()) j.keep(honest(w, st.targets));
        w.pollards_apply(st, p);
    }, [&] { for (auto& s : w.slots) w.check_slot(s); });
}
static World::Step scope_forest(Ctx& c, World& w, int n)
{
    World::Step st;
    for (int i = 0; i < n; ++i) st.adds.push_back(w.gen.fresh(c.rng));
    w.f = std::make_unique<RamForest>(0);
    w.forest_apply(st, 1);
    return st;
}
static void c04_scope(Ctx& c, const Scope& sc)
{
    LOG(c, fmt("every proof of %d leaves changed in every way, leaves %llx known (%d)", sc.n, (unsigned long long)sc.mask, sc.how));
    World w(c);
    std::vector<Hash> lv = scope_forest(c, w, sc.n).adds;
    Slot s;
    s.name = "pollard";
    scope_pollard(w, s, sc, lv);
    each_claim(w, [&](const Claim& q) {
        if (judge(w, s, q, s.remembered.empty())) scope_pollard(w, s, sc, lv);
        c.hit("exhaustive:claims");
    }, sc.n <= (c.thorough ? 5 : 4));
    w.check_slot(s);
    c.state(digest({(uint64_t)sc.n, sc.mask}, sc.how));
    c.nontrivial = true;
}
// very many claims judged by the same pollards
static void c04_marathon(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    Judge j(w);
    w.marathon(c.thorough ? 1200 : 400, [&](const World::Step& st) {
        for (int i = 0; i < 190 && w.m.n; ++i) { Claim q = j.next(); for (auto& s : w.slots) judge(w, s, q, false); c.hit("marathon:claims"); }
        if (!st.targets.empty()) j.keep(honest(w, st.targets));
        w.pollards_apply(st, w.prove(st.targets));
    }, [&](uint64_t, bool) { for (auto& s : w.slots) w.check_slot(s); });
}
static void c04_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    Judge j(w);
    w.sparse_history((int)c.rng.range(2, 8), [&](const World::Step& st, const BatchProof& p) {
        for (int k = (int)c.rng.range(4, 24); k > 0; --k) {
            Claim q = j.next();
            int who = (int)c.rng.below(3);
            if (who < 2) judge(w, w.slots[who], q, false);
            else {
                Slot bare;
                bare.name = "restored";
                bare.p = std::make_unique<Pollard>(w.m.roots(), w.m.n);
                judge(w, bare, q, true);
                if (c.rng.chance(1, 3)) judge(w, bare, j.next(), false);
            }
            c.hit("sparse:claims");
        }
        j.keep(honest(w, st.targets));
        w.pollards_apply(st, p);
    }, [&] { for (auto& s : w.slots) w.check_slot(s); });
}
// Two leaves whose parents with a common sibling resemble each other as far as hashes can be made to: a comparison
// that does not look at all of the bytes takes one for the other.
struct Alike { Hash a, x, b; const char* how; };
static const uint64_t ALIKE_FRONT_A = 0x2c3577c6e72683ab, ALIKE_FRONT_X = 0x975c9f657e79ab53, ALIKE_BACK_A = 0x8efcfb8287bf17ea, ALIKE_BACK_X = 0xa91243052149d6f7;
static Alike alike(Ctx& c)
{
    auto pattern = [](uint64_t v, int at) { Hash h; for (int i = 0; i < 32; ++i) h[i] = 0xA0 + i; memcpy(h.data() + at, &v, 8); return h; };
    Alike r;
    int how = (int)c.rng.below(5);
    if (how >= 3) {
        // eight bytes at the front or at the end agree (found by a search through 2^32 hashes)
        for (int i = 0; i < 32; ++i) r.b[i] = 0x5B ^ (7 * i);
        r.a = how == 3 ? pattern(ALIKE_FRONT_A, 16) : pattern(ALIKE_BACK_A, 8);
        r.x = how == 3 ? pattern(ALIKE_FRONT_X, 16) : pattern(ALIKE_BACK_X, 8);
        r.how = how == 3 ? "first-8-bytes" : "last-8-bytes";
        if (c.rng.chance(1, 2)) std::swap(r.a, r.x);
        Hash u = ref::node_hash(r.a, r.b), v = ref::node_hash(r.x, r.b);
        if (u == v || memcmp(u.data() + (how == 3 ? 0 : 24), v.data() + (how == 3 ? 0 : 24), 8)) throw mdl::Bug{"these hashes are not alike"};
        return r;
    }
    for (auto& byte : r.b) byte = (uint8_t)c.rng.next();
    std::vector<std::pair<Hash, Hash>> all;
    for (int i = 0; i < 1500 || (all.size() < 2 && i < 20000); ++i) {
        Hash l;
        for (auto& byte : l) byte = (uint8_t)c.rng.next();
        Hash key = ref::node_hash(l, r.b);
        if (how == 1) std::reverse(key.begin(), key.end());
        if (how < 2 || !key[0]) all.emplace_back(key, l);
    }
    if (all.size() < 2) throw mdl::Bug{"no hash begins with zero"};
    std::sort(all.begin(), all.end());
    size_t best = 0, most = 0;
    for (size_t i = 0; i + 1 < all.size(); ++i) {
        size_t n = 0; // common bits
        while (n < 256 && !(((all[i].first[n / 8] ^ all[i + 1].first[n / 8]) << (n % 8)) & 128)) ++n;
        if (n > most) most = n, best = i;
    }
    r.a = all[best].second;
    r.x = all[best + 1].second;
    r.how = how == 0 ? "first-bits" : how == 1 ? "last-bits" : "zero-byte";
    return r;
}
static void c04_alike(Ctx& c)
{
    Alike z = alike(c);
    World w(c);
    uint64_t n = c.rng.range(2, 24), at = c.rng.chance(1, 2) ? (n & ~1ULL) - 2 : c.rng.below(n / 2) * 2;
    World::Step st;
    while (st.adds.size() < n) st.adds.push_back(st.adds.size() == at ? z.a : st.adds.size() == at + 1 ? z.b : w.gen.fresh(c.rng));
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    w.add_slot("hoarder", 8);
    w.f = std::make_unique<RamForest>(0);
    w.pollards_apply(st, BatchProof());
    w.forest_apply(st, -1);
    for (int round = 0; round < 6; ++round) {
        std::vector<uint64_t> t = {at};
        if (c.rng.chance(1, 2)) t.push_back(at + 1);
        for (uint64_t i = c.rng.below(4); i > 0; --i) t.push_back(c.rng.below(n));
        t = sorted(t);
        t.erase(std::unique(t.begin(), t.end()), t.end());
        Claim q = honest(w, t);
        q.what = std::string(" alike:") + z.how;
        if (c.rng.chance(1, 3)) {
            // the lookalike as a hash of the proof
            t.erase(std::remove(t.begin(), t.end(), at), t.end());
            if (std::find(t.begin(), t.end(), at + 1) == t.end()) t.push_back(at + 1);
            t = sorted(t);
            q = honest(w, t);
            q.what = std::string(" alike-in-proof:") + z.how;
            auto hs = q.p.GetHashes();
            std::replace(hs.begin(), hs.end(), z.a, z.x);
            q.p = BatchProof(q.p.GetTargets(), hs);
        } else std::replace(q.th.begin(), q.th.end(), z.a, z.x);
        std::vector<Slot*> who;
        for (auto& s : w.slots) who.push_back(&s);
        Slot bare;
        bare.name = "restored";
        bare.p = std::make_unique<Pollard>(w.m.roots(), w.m.n);
        for (Slot* s : who) {
            judge(w, *s, q, false);
            // what verification leaves behind decides what the next claim is compared with
            if (c.rng.chance(1, 3)) { auto k = gen_targets(c.rng, n); Claim h = honest(w, k); judge(w, *s, h, false); }
        }
        judge(w, bare, q, true);
        Claim h = honest(w, gen_targets(c.rng, n));
        judge(w, bare, h, false);
        judge(w, bare, q, false);
        c.hit("alike:claims");
    }
    c.state(model_digest(w.m));
    c.nontrivial = true;
}
WORKLOAD(C04)
{
    uint64_t k = c.case_no, big = c.big(4, 12);
    if (k < big) return c04_big(c, k + (c.thorough ? 0 : c.seed));
    k -= big;
    if (c.marathon(k)) return c04_marathon(c);
    auto sc = scopes(c.heavy < 100 ? 5 : c.thorough ? 9 : 7);
    int64_t b = c.block(k, sc.size());
    if (b >= 0) return c04_scope(c, sc[b]);
    if (c.rng.chance(1, 40)) return c04_sparse(c);
    if (c.rng.chance(1, 150)) return c04_alike(c);
    World w(c);
    setup(w);
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    w.add_slot("hoarder", 8);
    Judge j(w);
    int n = steps(c, 3, 14);
    for (int i = 0; i < n; ++i) {
        int claims = (int)c.rng.range(4, 40);
        while (claims--) {
            Claim q = j.next();
            int who = (int)c.rng.below(6);
            if (who < 3) judge(w, w.slots[who], q, false);
            else if (who < 5) {
                Slot bare;
                bare.name = "restored";
                bare.p = std::make_unique<Pollard>(w.m.roots(), w.m.n);
                judge(w, bare, q, true);
                if (c.rng.chance(1, 3)) { // and again with what it may have kept from the first one
                    Claim q2 = j.next();
                    judge(w, bare, q2, false);
                    judge(w, bare, q, false);
                }
            } else judge_forest(w, q);
            c.nontrivial = true;
        }
        World::Step st = w.plan();
        Claim h = honest(w, st.targets);
        j.keep(h); // becomes stale
        w.pollards_apply(st, w.prove(st.targets));
        w.forest_apply(st, -1);
        c.state(model_digest(w.m));
        // what was just proven and deleted is not accepted any more unless it is true again
        if (!h.th.empty()) for (auto& s : w.slots) { h.what = " proof-of-deleted"; judge(w, s, h, false); }
        // the pollards were not talked into other roots
        for (auto& s : w.slots) w.check_slot(s);
    }
}

// ---------------------------------------------------------------- C05
static std::string provable(World& w, Slot& s, const std::vector<Hash>& lv)
{
    std::string r;
    for (auto& h : lv) {
        BatchProof p;
        bool ok = s.p->Prove(p, {h});
        r += ok ? fmt("%llu:%zu;", (unsigned long long)p.GetTargets()[0], p.GetHashes().size()) : "-;";
        if (ok) for (auto& x : p.GetHashes()) r.append((const char*)x.data(), 32);
    }
    return r;
}
// one claim shown to the first of two equal pollards; the second sees it only if the first accepts
static void disturb(Ctx& c, World& w, const Claim& q, const std::vector<Hash>& watched)
{
    Slot &a = w.slots[0], &b = w.slots[1];
    bool truth = claim_true(w.m, q);
    log_claim(c, "disturbed", q, truth);
    std::string before = provable(w, a, watched);
    uint64_t cached = a.p->NumCachedLeaves(), nodes = a.p->CountNodes();
    bool acc = a.p->Verify(q.p, q.th);
    check_roots(c, *a.p, w.m, acc ? "pollard after an accepted proof" : "pollard after a rejected proof");
    if (acc) {
        CHK(c, b.p->Verify(q.p, q.th), "twin-differs", "a proof is accepted by a pollard which saw rejected proofs and rejected by one which did not (%s )", q.what.c_str());
        for (auto& h : q.th) { a.remembered.insert(h); b.remembered.insert(h); }
        c.hit("proofs:accepted");
    } else {
        c.hit("proofs:rejected");
        if (truth) c.hit("proofs:rejected-true-claim");
        CHK(c, a.p->NumCachedLeaves() == cached, "reject-changes-cache", "a rejected proof (%s ) changed the number of cached leaves from %llu to %llu", q.what.c_str(), (unsigned long long)cached, (unsigned long long)a.p->NumCachedLeaves());
        CHK(c, a.p->CountNodes() == nodes, "reject-changes-nodes", "a rejected proof (%s ) changed the number of nodes from %llu to %llu", q.what.c_str(), (unsigned long long)nodes, (unsigned long long)a.p->CountNodes());
        if (!watched.empty()) CHK(c, provable(w, a, watched) == before, "reject-changes-proofs", "a rejected proof (%s ) changed what the pollard can prove", q.what.c_str());
        c.nontrivial = true;
    }
    c.mixin(digest(q.p.GetTargets(), acc));
}
static void compare_twins(Ctx& c, World& w, const std::vector<Hash>& watched)
{
    Slot &a = w.slots[0], &b = w.slots[1];
    CHK(c, a.p->CountNodes() == b.p->CountNodes() && a.p->NumCachedLeaves() == b.p->NumCachedLeaves(), "twin-differs", "after rejected proofs a pollard has %llu nodes and %llu cached leaves, one that saw none %llu and %llu",
        (unsigned long long)a.p->CountNodes(), (unsigned long long)a.p->NumCachedLeaves(), (unsigned long long)b.p->CountNodes(), (unsigned long long)b.p->NumCachedLeaves());
    CHK(c, provable(w, a, watched) == provable(w, b, watched), "twin-differs", "after rejected proofs a pollard proves other things than one that saw none");
}
static void twins_spend(Ctx& c, World& w, const World::Step& st, const BatchProof& p, int dens)
{
    Slot &a = w.slots[0], &b = w.slots[1];
    std::vector<Leaf> adds = w.flag(st.adds, dens);
    w.must_verify(a, p, st.targets, "spend");
    w.must_verify(b, p, st.targets, "spend");
    check_roots(c, *a.p, w.m, "pollard after an accepted proof");
    w.modify_slot(a, adds, st.targets);
    w.modify_slot(b, adds, st.targets);
}
static void c05_big(Ctx& c, uint64_t which)
{
    World w(c);
    w.slots.reserve(8);
    int dens = which % 3 == 0 ? 8 : which % 3 == 1 ? 1 : 0;
    w.add_slot("disturbed", dens);
    w.add_slot("undisturbed", dens);
    Judge j(w);
    w.big_history(which, 2, [&](const World::Step& st, const BatchProof& p) {
        std::vector<Hash> watched;
        for (int i = 0; i < 300 && w.m.n; ++i) watched.push_back(w.m.leaf_at(c.rng.below(w.m.n)));
        if (w.m.n) for (int i = 0; i < 12; ++i) {
            Claim q = j.next();
            if (i % 3 == 0 && st.targets.size() > 4) { // the proof of the whole step, spoilt in one place
                q = honest(w, st.targets);
                std::vector<Hash> ph = q.p.GetHashes();
                if (ph.empty() || c.rng.chance(1, 2)) q.th[c.rng.below(q.th.size())][c.rng.below(32)] ^= 1;
                else { ph[c.rng.below(ph.size())][c.rng.below(32)] ^= 1; q.p = BatchProof(q.p.GetTargets(), ph); }
                q.what = " one bit of a large proof";
            }
            disturb(c, w, q, watched);
            c.hit("big:claims");
        }
        compare_twins(c, w, watched);
        twins_spend(c, w, st, p, dens);
    }, [&] { for (auto& s : w.slots) w.check_slot(s); });
}
static void c05_scope(Ctx& c, const Scope& sc)
{
    LOG(c, fmt("every proof of %d leaves changed in every way, leaves %llx known (%d)", sc.n, (unsigned long long)sc.mask, sc.how));
    World w(c);
    w.slots.reserve(2);
    w.add_slot("disturbed", 0);
    w.add_slot("undisturbed", 0);
    std::vector<Hash> lv = scope_forest(c, w, sc.n).adds;
    for (auto& s : w.slots) scope_pollard(w, s, sc, lv);
    size_t known = w.slots[0].remembered.size();
    uint64_t nodes = w.slots[0].p->CountNodes();
    each_claim(w, [&](const Claim& q) {
        disturb(c, w, q, lv);
        if (w.slots[0].p->CountNodes() != nodes || w.slots[0].remembered.size() != known) { // something was accepted and is remembered now
            compare_twins(c, w, lv);
            for (auto& s : w.slots) scope_pollard(w, s, sc, lv);
        }
        c.hit("exhaustive:claims");
    }, sc.n <= 3);
    compare_twins(c, w, lv);
    for (int i = 0; i < 2; ++i) {
        World::Step st = w.plan();
        twins_spend(c, w, st, w.prove(st.targets), 4);
        w.forest_apply(st, -1);
        for (auto& s : w.slots) w.check_slot(s);
        compare_twins(c, w, w.m.leaves());
    }
    c.state(digest({(uint64_t)sc.n, sc.mask}, sc.how));
    c.nontrivial = true;
}
// very many rejected proofs, few modifications
static void c05_marathon(Ctx& c)
{
    World w(c);
    w.slots.reserve(2);
    int dens = (int)c.rng.below(9);
    w.add_slot("disturbed", dens);
    w.add_slot("undisturbed", dens);
    Judge j(w);
    uint64_t seen = 0;
    w.marathon(c.thorough ? 1200 : 400, [&](const World::Step& st) {
        for (int i = 0; i < 190 && w.m.n; ++i) { disturb(c, w, j.next(), {}); ++seen; }
        compare_twins(c, w, w.m.leaves());
        j.keep(honest(w, st.targets));
        twins_spend(c, w, st, w.prove(st.targets), dens);
    }, [&](uint64_t, bool) { for (auto& s : w.slots) w.check_slot(s); });
    c.hit("marathon:claims", seen);
}
static void c05_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    int dens = (int)c.rng.below(9);
    w.add_slot("disturbed", dens);
    w.add_slot("undisturbed", dens);
    Judge j(w);
    auto watched = [&] {
        std::vector<Hash> v;
        w.m.each_leaf([&](uint64_t, const Hash& h) { v.push_back(h); });
        return v;
    };
    w.sparse_history((int)c.rng.range(2, 8), [&](const World::Step& st, const BatchProof& p) {
        std::vector<Hash> lv = watched();
        for (int k = (int)c.rng.range(2, 12); k > 0; --k) disturb(c, w, j.next(), lv.size() < 40 || c.rng.chance(1, 4) ? lv : std::vector<Hash>());
        compare_twins(c, w, lv);
        j.keep(honest(w, st.targets));
        twins_spend(c, w, st, c.rng.chance(1, 2) ? w.partial(w.slots[0], st.targets, c.rng.chance(1, 2)) : p, dens);
    }, [&] { for (auto& s : w.slots) w.check_slot(s); });
}
WORKLOAD(C05)
{
    uint64_t k = c.case_no, big = c.big(4, 12);
    if (k < big) return c05_big(c, k + (c.thorough ? 0 : c.seed));
    k -= big;
    if (c.marathon(k)) return c05_marathon(c);
    auto sc = scopes(c.heavy < 100 ? 4 : c.thorough ? 8 : 6);
    int64_t b = c.block(k, sc.size());
    if (b >= 0) return c05_scope(c, sc[b]);
    if (c.rng.chance(1, 40)) return c05_sparse(c);
    World w(c);
    setup(w);
    int dens = (int)c.rng.below(9);
    w.add_slot("disturbed", dens);
    w.add_slot("undisturbed", dens);
    Slot& a = w.slots[0];
    Judge j(w);
    int n = steps(c, 4, 18);
    for (int i = 0; i < n; ++i) {
        std::vector<Hash> lv = w.m.leaves();
        int claims = (int)c.rng.range(2, 14);
        while (claims--) disturb(c, w, j.next(), w.m.n <= 60 || c.rng.chance(1, 8) ? lv : std::vector<Hash>());
        compare_twins(c, w, lv);
        // both move on in the same way
        World::Step st = w.plan();
        BatchProof p = c.rng.chance(1, 2) ? w.partial(a, st.targets, c.rng.chance(1, 2)) : w.prove(st.targets);
        j.keep(honest(w, st.targets));
        twins_spend(c, w, st, p, dens);
        w.forest_apply(st, -1);
        for (auto& s : w.slots) w.check_slot(s);
        c.state(model_digest(w.m));
    }
}

// ---------------------------------------------------------------- C07
static void check_cache(Ctx& c, World& w, Slot& s)
{
    w.check_slot(s);
    std::vector<Hash> lv;
    std::vector<uint64_t> at, have;
    w.m.each_leaf([&](uint64_t x, const Hash& h) { at.push_back(x); lv.push_back(h); });
    for (uint64_t k = 0; k < lv.size(); ++k) {
        if (lv.size() > 150 && !c.rng.chance(150, lv.size())) continue;
        uint64_t i = at[k];
        BatchProof p;
        bool ok = s.p->Prove(p, {lv[k]});
        if (s.remembered.count(lv[k])) {
            CHK(c, ok, "cached-unprovable", "%s cannot prove cached leaf %llu of %zu", s.name.c_str(), (unsigned long long)i, lv.size());
            CHK(c, p.GetTargets() == std::vector<uint64_t>{i}, "cached-position", "%s proves cached leaf %llu at position %llu of %zu", s.name.c_str(), (unsigned long long)i, (unsigned long long)(p.GetTargets().empty() ? ~0ULL : p.GetTargets()[0]), lv.size());
            CHK(c, p.GetHashes() == w.m.proof_hashes({i}), "cached-proof", "%s gives a wrong proof of cached leaf %llu of %zu", s.name.c_str(), (unsigned long long)i, lv.size());
            have.push_back(i);
        } else
            CHK(c, !ok, "uncached-provable", "%s proves leaf %llu of %zu which it does not cache", s.name.c_str(), (unsigned long long)i, lv.size());
    }
    // leaves which are gone
    for (auto& h : w.gen.graveyard) if (c.rng.chance(1, 4) && std::find(lv.begin(), lv.end(), h) == lv.end()) {
        BatchProof p;
        CHK(c, !s.p->Prove(p, {h}), "deleted-provable", "%s proves a deleted leaf", s.name.c_str());
    }
    // several at once; the hashes must be readable wherever a batch needs them
    if (have.size() > 1) {
        std::vector<uint64_t> sub;
        for (uint64_t i : have) if (c.rng.chance(1, 2)) sub.push_back(i);
        std::vector<uint64_t> order(sub);
        c.rng.shuffle(order);
        BatchProof p;
        CHK(c, s.p->Prove(p, hashes_at(w.m, order)), "cached-unprovable", "%s cannot prove cached leaves %s together", s.name.c_str(), list(sub).c_str());
        CHK(c, p.GetTargets() == order && p.GetHashes() == w.m.proof_hashes(sub), "cached-proof", "%s gives a wrong proof of cached leaves %s", s.name.c_str(), list(sub).c_str());
        Pollard other(w.m.roots(), w.m.n);
        CHK(c, other.Verify(p, hashes_at(w.m, sub)), "cached-proof", "nobody accepts the proof %s gives of %s", s.name.c_str(), list(sub).c_str());
    }
    c.state(digest(have, model_digest(w.m)));
    if (!have.empty()) c.nontrivial = true;
}
static void cache_exhaustive(Ctx& c, int n, uint64_t lo, uint64_t hi, bool count_nodes)
{
    // every leaf: remembered or not, deleted or not; n leaves, then a second round of additions
    LOG(c, fmt("every choice of remembered and deleted leaves %llu..%llu of %d", (unsigned long long)lo, (unsigned long long)hi, n));
    for (uint64_t code = lo; code < hi; ++code) {
        World w(c);
        w.f = std::make_unique<RamForest>(0);
        w.slots.reserve(2);
        Slot& s = w.add_slot("wallet", 0);
        World::Step st, s2;
        std::vector<Leaf> adds;
        for (int i = 0; i < n; ++i) {
            st.adds.push_back(w.gen.fresh(c.rng));
            adds.emplace_back(st.adds.back(), (code >> (2 * i)) & 1);
            if ((code >> (2 * i + 1)) & 1) s2.targets.push_back(i);
        }
        w.modify_slot(s, adds, {});
        w.forest_apply(st, 1);
        uint64_t more = c.rng.below(3);
        for (uint64_t i = 0; i < more; ++i) s2.adds.push_back(w.gen.fresh(c.rng));
        bool all = true;
        for (uint64_t t : s2.targets) if (!s.remembered.count(w.m.leaf_at(t))) all = false;
        if (!all) w.must_verify(s, w.partial(s, s2.targets, code & 1), s2.targets, "partial");
        w.modify_slot(s, w.flag(s2.adds, 4), s2.targets);
        w.forest_apply(s2, 1);
        if (!count_nodes) check_cache(c, w, s);
        else {
            uint64_t max = w.minimal_nodes(s, false).size(), got = s.p->CountNodes();
            CHK(c, got <= max, "too-many-nodes", "%llu nodes after deleting %s, %llu are enough for %zu cached leaves", (unsigned long long)got, list(s2.targets).c_str(), (unsigned long long)max, s.remembered.size());
            w.check_slot(s);
            c.state(digest(w.remembered_positions(s), model_digest(w.m)));
            c.nontrivial = true;
        }
        c.hit("exhaustive:remember-delete");
    }
}
static bool cache_blocks(Ctx& c, uint64_t k, bool count_nodes)
{
    int nmax = c.thorough ? 8 : 6;
    std::vector<Scope> v;
    for (int n = nmax; n >= 1; --n) for (uint64_t lo = 0; lo < 1ULL << (2 * n); lo += 256) v.push_back({n, lo, 0});
    int64_t b = c.block(k, v.size());
    if (b < 0) return false;
    cache_exhaustive(c, v[b].n, v[b].mask, std::min<uint64_t>(1ULL << (2 * v[b].n), v[b].mask + 256), count_nodes);
    return true;
}
static void c07_big(Ctx& c, uint64_t which)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("wallet", 2);
    w.add_slot("hoarder", 8);
    w.add_slot("late", 0);
    w.big_history(which, 2, [&](const World::Step& st, const BatchProof& p) {
        if (w.m.n) { // the late one caches by verification
            std::set<uint64_t> ts;
            for (uint64_t i = 1 + c.rng.below(4000); i > 0; --i) ts.insert(c.rng.below(w.m.n));
            std::vector<uint64_t> t(ts.begin(), ts.end());
            w.must_verify(w.slots[2], w.partial(w.slots[2], t, c.rng.chance(1, 2)), t, "partial");
            check_cache(c, w, w.slots[2]);
        }
        w.pollards_apply(st, p);
    }, [&] {
        for (auto& s : w.slots) check_cache(c, w, s);
    });
}
static void c07_marathon(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("wallet", 2);
    Slot* s = &w.slots[0];
    w.marathon(c.thorough ? 140000 : 66000, [&](const World::Step& st) {
        w.pollards_apply(st, w.prove(st.targets));
    }, [&](uint64_t, bool look) {
        if (look) check_cache(c, w, *s);
        else w.check_slot(*s);
    });
}
static void c07_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("wallet", 2);
    w.add_slot("hoarder", 8);
    w.add_slot("late", 0);
    w.sparse_history((int)c.rng.range(3, 10), [&](const World::Step& st, const BatchProof& p) {
        Slot& s = w.slots[c.rng.below(3)];
        if (c.rng.chance(1, 2)) {
            auto t = w.some_targets();
            w.must_verify(s, w.partial(s, t, c.rng.chance(1, 2)), t, "partial");
            check_cache(c, w, s);
        }
        if (c.rng.chance(1, 12)) {
            LOG(c, s.name + ": prune");
            s.p->Prune();
            s.remembered.clear();
            s.lingering = false;
            check_cache(c, w, s);
            CHK(c, s.p->CountNodes() == w.m.roots().size(), "prune-keeps-nodes", "after a prune %llu nodes remain for %zu roots", (unsigned long long)s.p->CountNodes(), w.m.roots().size());
        }
        w.pollards_apply(st, p);
    }, [&] { for (auto& s : w.slots) check_cache(c, w, s); });
}
WORKLOAD(C07)
{
    uint64_t k = c.case_no, big = c.big(4, 12);
    if (k < big) return c07_big(c, k + (c.thorough ? 0 : c.seed));
    k -= big;
    if (c.marathon(k)) return c07_marathon(c);
    if (cache_blocks(c, k, false)) return;
    if (c.rng.chance(1, 40)) return c07_sparse(c);
    World w(c);
    setup(w);
    if (c.stretch == 1 && w.cap < 200 && c.rng.chance(1, 40)) w.cap = 700;
    w.add_slot("wallet", 1 + (int)c.rng.below(3));
    w.add_slot("hoarder", 8);
    w.add_slot("late", 0); // starts from roots and caches only by verification
    int n = steps(c, 5, 22);
    for (int i = 0; i < n; ++i) {
        if (c.rng.chance(1, 10)) {
            Slot& s = w.slots[c.rng.below(3)];
            LOG(c, s.name + ": prune");
            s.p->Prune();
            s.remembered.clear();
            s.lingering = false;
            check_cache(c, w, s);
            CHK(c, s.p->CountNodes() == w.m.roots().size(), "prune-keeps-nodes", "after a prune %llu nodes remain for %zu roots", (unsigned long long)s.p->CountNodes(), w.m.roots().size());
            c.hit("op:prune");
        }
        if (c.rng.chance(1, 10)) w.restore_slot(w.slots[2]);
        if (w.m.n && c.rng.chance(1, 2)) { // cache by verification; leaving out what is known
            Slot& s = w.slots[c.rng.below(3)];
            auto t = gen_targets(c.rng, w.m.n);
            if (t.size() > 6 && c.rng.chance(1, 2)) t.resize(1 + c.rng.below(5));
            w.must_verify(s, w.partial(s, t, c.rng.chance(1, 2)), t, "partial");
            check_cache(c, w, s);
        }
        World::Step st = w.plan();
        if (c.rng.chance(1, 4)) { // delete only what one slot has cached
            auto pos = w.remembered_positions(w.slots[0]);
            st.targets.clear();
            for (uint64_t x : pos) if (c.rng.chance(1, 2)) st.targets.push_back(x);
            std::set<Hash> cur;
            for (auto& h : w.m.leaves()) cur.insert(h);
            for (uint64_t t : st.targets) cur.erase(w.m.leaf_at(t));
            st.adds.erase(std::remove_if(st.adds.begin(), st.adds.end(), [&](const Hash& h) { return cur.count(h) != 0; }), st.adds.end());
        }
        w.pollards_apply(st, w.prove(st.targets));
        w.forest_apply(st, -1);
        for (auto& s : w.slots) check_cache(c, w, s);
    }
}

// ---------------------------------------------------------------- C08
static void count_nodes(Ctx& c, World& w, bool linger)
{
    for (auto& s : w.slots) {
        uint64_t max = w.minimal_nodes(s, linger).size(), got = s.p->CountNodes();
        CHK(c, got <= max, "too-many-nodes", "%s has %llu nodes at %llu leaves, %llu are enough for its %zu cached leaves", s.name.c_str(), (unsigned long long)got, (unsigned long long)w.m.n, (unsigned long long)max, s.remembered.size());
        if (s.remembered.empty()) { CHK(c, got == w.m.roots().size(), "nodes-besides-roots", "%s caches nothing and has %llu nodes for %zu roots", s.name.c_str(), (unsigned long long)got, w.m.roots().size()); c.hit("roots-only"); }
        c.hit("nodes-counted", got);
        c.state(digest(w.remembered_positions(s), model_digest(w.m)));
    }
}
static void c08_big(Ctx& c, uint64_t which)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 1);
    w.add_slot("hoarder", 8);
    w.big_history(which, 2, [&](const World::Step& st, const BatchProof& p) {
        Judge j(w);
        if (w.m.n) for (auto& s : w.slots) {
            Claim q = j.next();
            uint64_t nodes = s.p->CountNodes();
            if (claim_true(w.m, q)) continue;
            if (s.p->Verify(q.p, q.th)) continue;
            CHK(c, s.p->CountNodes() == nodes, "too-many-nodes", "%s has %llu nodes instead of %llu after a rejected proof", s.name.c_str(), (unsigned long long)s.p->CountNodes(), (unsigned long long)nodes);
            c.hit("rejected-proofs");
        }
        w.pollards_apply(st, p);
    }, [&] { count_nodes(c, w, false); });
}
static void c08_marathon(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 2);
    w.marathon(c.thorough ? 140000 : 66000, [&](const World::Step& st) {
        w.pollards_apply(st, w.prove(st.targets));
    }, [&](uint64_t, bool) { count_nodes(c, w, false); });
}
static void c08_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 2);
    w.add_slot("hoarder", 8);
    bool linger = c.rng.chance(1, 2);
    w.sparse_history((int)c.rng.range(3, 10), [&](const World::Step& st, const BatchProof& p) {
        Judge j(w);
        for (auto& s : w.slots) {
            Claim q = j.next();
            uint64_t nodes = s.p->CountNodes();
            if (!claim_true(w.m, q) && !s.p->Verify(q.p, q.th)) {
                CHK(c, s.p->CountNodes() == nodes, "too-many-nodes", "%s has %llu nodes instead of %llu after a rejected proof", s.name.c_str(), (unsigned long long)s.p->CountNodes(), (unsigned long long)nodes);
                c.hit("rejected-proofs");
            }
            if (linger && c.rng.chance(1, 3)) {
                auto t = w.some_targets();
                w.must_verify(s, w.partial(s, t, c.rng.chance(1, 2)), t, "kept");
                uint64_t max = w.minimal_nodes(s, true).size(), got = s.p->CountNodes();
                CHK(c, got <= max, "too-many-nodes", "%s has %llu nodes after a verification at %llu leaves, %llu are enough for its %zu cached leaves", s.name.c_str(), (unsigned long long)got, (unsigned long long)w.m.n, (unsigned long long)max, s.remembered.size());
            }
        }
        w.pollards_apply(st, p);
    }, [&] { count_nodes(c, w, linger); });
}
WORKLOAD(C08)
{
    uint64_t k = c.case_no, big = c.big(4, 12);
    if (k < big) return c08_big(c, k + (c.thorough ? 0 : c.seed));
    k -= big;
    if (c.marathon(k)) return c08_marathon(c);
    if (cache_blocks(c, k, true)) return;
    if (c.rng.chance(1, 40)) return c08_sparse(c);
    World w(c);
    setup(w);
    if (c.stretch == 1 && w.cap < 200 && c.rng.chance(1, 25)) w.cap = 600;
    w.add_slot("light", 0);
    w.add_slot("wallet", 1);
    w.add_slot("keeper", 3);
    w.add_slot("hoarder", 8);
    // leaves which are verified and stay: the nodes computed above them may stay as well
    bool linger = c.rng.chance(1, 3);
    int n = steps(c, 5, 24);
    for (int i = 0; i < n; ++i) {
        World::Step st = w.plan();
        BatchProof p = w.prove(st.targets);
        // rejected proofs must not leave anything behind
        if (c.rng.chance(1, 3) && w.m.n) {
            Judge j(w);
            for (auto& s : w.slots) { Claim q = j.next(); if (!claim_true(w.m, q)) { bool acc = s.p->Verify(q.p, q.th); if (acc) return; c.hit("rejected-proofs"); } }
        }
        if (c.rng.chance(1, 12)) { Slot& s = w.slots[1 + c.rng.below(3)]; s.p->Prune(); s.remembered.clear(); LOG(c, s.name + ": prune"); }
        if (linger) for (auto& s : w.slots) if (w.m.n && c.rng.chance(1, 3)) {
            auto t = gen_targets(c.rng, w.m.n);
            w.must_verify(s, w.partial(s, t, c.rng.chance(1, 2)), t, "kept");
            uint64_t max = w.minimal_nodes(s, true).size(), got = s.p->CountNodes();
            CHK(c, got <= max, "too-many-nodes", "%s has %llu nodes after a verification at %llu leaves, %llu are enough for its %zu cached leaves", s.name.c_str(), (unsigned long long)got, (unsigned long long)w.m.n, (unsigned long long)max, s.remembered.size());
        }
        w.pollards_apply(st, p);
        w.forest_apply(st, -1);
        count_nodes(c, w, linger);
        c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- C16
// Every output of the library goes into the digest of the case; builds are compared.
static void c16_sparse(Ctx& c)
{
    World w(c);
    w.slots.reserve(8);
    w.add_slot("light", 0);
    w.add_slot("wallet", 2);
    w.add_slot("hoarder", 8);
    auto out = [&](const std::vector<uint8_t>& b) { c.mixin(b.size()); for (uint8_t x : b) c.mixin(x); };
    w.sparse_history((int)c.rng.range(3, 10), [&](const World::Step& st, const BatchProof& p) {
        Judge j(w);
        for (auto& s : w.slots) {
            Claim q = j.next();
            bool ok = s.p->Verify(q.p, q.th);
            c.mixin(ok);
            c.mixin(q.p.CheckSanity(w.m.n));
            if (ok) for (auto& h : q.th) s.remembered.insert(h);
            auto t = w.some_targets();
            BatchProof mine;
            std::vector<uint8_t> b;
            ok = s.p->Prove(mine, hashes_at(w.m, t));
            c.mixin(ok);
            if (ok) { for (uint64_t x : mine.GetTargets()) c.mixin(x); mine.Serialize(b); out(b); }
            c.hit("claims");
        }
        w.pollards_apply(st, p);
    }, [&] {
        for (auto& s : w.slots) {
            std::vector<Hash> r;
            s.p->Roots(r);
            c.mixin(s.p->NumLeaves());
            for (auto& h : r) out({h.begin(), h.end()});
            c.mixin(s.p->CountNodes());
            c.mixin(s.p->NumCachedLeaves());
            c.hit("observations");
        }
    });
}
WORKLOAD(C16)
{
    if (c.rng.chance(1, 20)) return c16_sparse(c);
    World w(c);
    setup(w);
    std::string file = c.scratch + "/cfg.dat";
    bool disk = c.rng.chance(1, 4);
    remove(file.c_str());
    if (disk) w.f = std::make_unique<RamForest>(file);
    w.add_slot("light", 0);
    w.add_slot("wallet", 3);
    w.add_slot("hoarder", 8);
    Judge j(w);
    auto out_hash = [&](const Hash& h) { for (int i = 0; i < 32; i += 8) { uint64_t v; memcpy(&v, h.data() + i, 8); c.mixin(v); } };
    auto out_bytes = [&](const std::vector<uint8_t>& b) { c.mixin(b.size()); for (uint8_t x : b) c.mixin(x); };
    auto out_acc = [&](const utreexo::Accumulator& a) {
        std::vector<Hash> r;
        a.Roots(r);
        c.mixin(a.NumLeaves());
        for (auto& h : r) out_hash(h);
        c.hit("observations");
    };
    std::vector<UndoBatch> undos;
    std::vector<mdl::Forest> olds;
    int n = steps(c, 3, 16);
    for (int i = 0; i < n; ++i) {
        for (int q = (int)c.rng.below(8); q > 0; --q) {
            Claim k = j.next();
            for (auto& s : w.slots) {
                bool acc = s.p->Verify(k.p, k.th);
                c.mixin(acc);
                c.mixin(s.p->CountNodes());
                c.mixin(s.p->NumCachedLeaves());
                if (acc) for (auto& h : k.th) s.remembered.insert(h);
            }
            c.mixin(w.f->Verify(k.p, k.th));
            c.mixin(k.p.CheckSanity(w.m.n));
            std::vector<uint8_t> b;
            k.p.Serialize(b);
            out_bytes(b);
            c.hit("claims");
        }
        World::Step st = w.plan();
        BatchProof p = w.prove(st.targets);
        std::vector<uint8_t> b;
        p.Serialize(b);
        out_bytes(b);
        w.pollards_apply(st, p);
        UndoBatch u;
        olds.push_back(w.m);
        w.forest_apply(st, 1, &u);
        u.Serialize(b);
        out_bytes(b);
        undos.push_back(u);
        out_acc(*w.f);
        for (auto& s : w.slots) {
            out_acc(*s.p);
            c.mixin(s.p->CountNodes());
            c.mixin(s.p->NumCachedLeaves());
            for (auto& h : w.m.leaves()) { BatchProof q; bool ok = s.p->Prove(q, {h}); c.mixin(ok); if (ok) { q.Serialize(b); out_bytes(b); } }
        }
        for (uint64_t x = 0; x < w.f->NumLeaves(); ++x) out_hash(w.f->GetLeaf(x));
        c.state(c.sig);
    }
    for (int k = (int)c.rng.below(4); k > 0 && !undos.empty(); --k) {
        c.mixin(w.f->Undo(undos.back()));
        w.m = olds.back();
        undos.pop_back();
        olds.pop_back();
        out_acc(*w.f);
        for (uint64_t x = 0; x < w.f->NumLeaves(); ++x) out_hash(w.f->GetLeaf(x));
    }
    w.f.reset();
    if (disk) {
        FILE* h = fopen(file.c_str(), "rb");
        int ch;
        uint64_t len = 0;
        while (h && (ch = fgetc(h)) != EOF) { c.mixin((uint64_t)ch); ++len; }
        if (h) fclose(h);
        c.mixin(len);
        remove(file.c_str());
        c.hit("files");
    }
    c.nontrivial = true;
}

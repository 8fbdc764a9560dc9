// The hash function behind every commitment.
// With PUBLIC_API_ONLY (the hasher has another interface than at the pinned commit) only the commitments are judged.
#include "world.h"
#include "refsha.h"
#include <memory>
#ifndef PUBLIC_API_ONLY
#include "crypto/sha512.h"
using utreexo::CSHA512;
#endif

// parents are SHA-512/256 of the two children, whoever computes them
static void parents(Ctx& c)
{
    mdl::Forest m;
    RamForest f(0);
    Pollard p(0);
    int n = (int)c.rng.range(2, 9);
    std::set<Hash> used;
    std::vector<Leaf> lv;
    while ((int)lv.size() < n) {
        Hash h;
        int style = (int)c.rng.below(4);
        for (auto& b : h) b = style == 0 ? (uint8_t)c.rng.next() : style == 1 ? 0 : style == 2 ? 0xff : (uint8_t)lv.size();
        if (style) h[c.rng.below(32)] ^= (uint8_t)(1 << c.rng.below(8));
        if (!used.insert(h).second) continue;
        lv.emplace_back(h, c.rng.chance(1, 2));
        m.add(h);
    }
    CHK(c, f.Add(lv) && p.Modify(lv, {}), "forest-add", "additions are refused");
    check_roots(c, f, m, "forest");
    check_roots(c, p, m, "pollard");
    std::set<uint64_t> ts;
    for (int i = 0; i < 3; ++i) ts.insert(c.rng.below(n));
    std::vector<uint64_t> t(ts.begin(), ts.end());
    std::vector<Hash> th = hashes_at(m, t);
    BatchProof q;
    CHK(c, f.Prove(q, th) && q.GetHashes() == m.proof_hashes(t), "parents", "a proof does not hold the SHA-512/256 parents of the leaves");
    Pollard bare(m.roots(), n);
    CHK(c, bare.Verify(BatchProof(t, m.proof_hashes(t)), th), "parents", "a proof made of SHA-512/256 hashes is rejected");
    CHK(c, static_cast<utreexo::Accumulator&>(f).Modify({}, t) && bare.Modify({}, t), "forest-modify", "removals are refused");
    m.remove(t);
    check_roots(c, f, m, "forest");
    check_roots(c, bare, m, "pollard");
    c.hit("parents");
    c.mixin(model_digest(m));
    c.nontrivial = true;
}
#ifdef PUBLIC_API_ONLY
WORKLOAD(C15) { for (int i = 0; i < 40; ++i) parents(c); c.hit("public-api-only"); }
#else
static void one(Ctx& c, const std::vector<uint8_t>& d, bool chop)
{
    uint8_t want[64], got[64], want2[32], got2[32];
    ref::sha512(d.data(), d.size(), want);
    ref::sha512_256(d.data(), d.size(), want2);
    auto feed = [&](CSHA512& h) {
        size_t o = 0;
        while (o < d.size()) {
            size_t k = d.size() - o;
            if (chop) {
                switch (c.rng.below(6)) {
                case 0: k = 1; break;
                case 1: k = c.rng.below(5); break; // may be empty
                case 2: k = 128 - o % 128; break;
                case 3: k = 127 + c.rng.below(3); break;
                case 4: k = c.rng.below(400); break;
                default: k = 32;
                }
                k = std::min(k, d.size() - o);
            }
            // exact-size unaligned copies, so that a read past the end is noticed by the sanitizers
            std::unique_ptr<uint8_t[]> b(new uint8_t[k ? k : 1]);
            if (k) memcpy(b.get(), d.data() + o, k);
            h.Write(b.get(), k);
            o += k;
            CHK(c, h.Size() == o, "size", "after %zu bytes the hasher reports %llu", o, (unsigned long long)h.Size());
        }
    };
    CSHA512 a, b(CSHA512::OUTPUT_SIZE_256);
    feed(a);
    a.Finalize(got);
    CHK(c, !memcmp(got, want, 64), "sha512", "SHA-512 of %zu bytes is wrong", d.size());
    feed(b);
    b.Finalize256(got2);
    CHK(c, !memcmp(got2, want2, 32), "sha512-256", "SHA-512/256 of %zu bytes is wrong", d.size());
    // a reset hasher starts over
    a.Reset();
    feed(a);
    a.Finalize(got);
    CHK(c, !memcmp(got, want, 64), "reset", "SHA-512 of %zu bytes after a reset is wrong", d.size());
    CSHA512 e(CSHA512::OUTPUT_SIZE);
    e.Write(d.data(), d.size());
    e.Finalize(got);
    CHK(c, !memcmp(got, want, 64), "sha512", "SHA-512 of %zu bytes in one piece is wrong", d.size());
    // abandoned input does not matter
    a.Reset();
    if (!d.empty()) a.Write(d.data(), 1 + c.rng.below(d.size()));
    a.Reset();
    a.Write(d.data(), d.size());
    a.Finalize(got);
    CHK(c, !memcmp(got, want, 64), "reset", "SHA-512 of %zu bytes after a reset is wrong", d.size());
    b.Reset();
    feed(b);
    b.Finalize256(got2);
    CHK(c, !memcmp(got2, want2, 32), "reset", "SHA-512/256 of %zu bytes after a reset is wrong", d.size());
    {   // a copy goes on by itself
        size_t o = c.rng.below(d.size() + 1);
        CSHA512 x(CSHA512::OUTPUT_SIZE_256);
        x.Write(d.data(), o);
        CSHA512 y(x);
        x.Write((const unsigned char*)"something else", 14);
        y.Write(d.data() + o, d.size() - o);
        y.Finalize256(got2);
        CHK(c, !memcmp(got2, want2, 32), "copied", "a copied hasher gives a wrong digest of %zu bytes", d.size());
    }
    c.hit("messages");
    c.hit("bytes", d.size());
    uint64_t s;
    memcpy(&s, want2, 8);
    c.state(s);
    c.mixin(s);
    c.nontrivial = true;
}
WORKLOAD(C15)
{
    uint64_t k = c.case_no;
    if (k == 0) { // more than 2^32 bits
        uint64_t len = (1ULL << 29) / 100 * std::min(c.weight, 100) + 77;
        LOG(c, fmt("one message of %llu bytes", (unsigned long long)len));
        std::vector<uint8_t> d(len);
        uint64_t s = c.seed;
        for (size_t i = 0; i + 8 <= d.size(); i += 4096) { uint64_t v = Rng::mix(s); memcpy(&d[i], &v, 8); }
        uint8_t want[32], got[32];
        ref::sha512_256(d.data(), d.size(), want);
        CSHA512 h(32);
        size_t o = 0;
        while (o < d.size()) { size_t n = std::min<size_t>(d.size() - o, 1 + c.rng.below(30 << 20)); h.Write(d.data() + o, n); o += n; }
        h.Finalize256(got);
        CHK(c, !memcmp(got, want, 32), "sha512-256", "SHA-512/256 of %llu bytes is wrong", (unsigned long long)len);
        c.hit("bytes", len);
        c.nontrivial = true;
        return;
    }
    if (k <= 33) { // every length up to 1055 with fixed chopping
        for (uint64_t len = (k - 1) * 32; len < k * 32; ++len) {
            std::vector<uint8_t> d(len);
            for (auto& x : d) x = (uint8_t)c.rng.next();
            one(c, d, false);
            one(c, d, true);
            std::vector<uint8_t> ff(len, 0xff), zz(len, 0);
            one(c, ff, true);
            one(c, zz, true);
        }
        LOG(c, fmt("all lengths %llu..%llu", (unsigned long long)(k - 1) * 32, (unsigned long long)k * 32 - 1));
        c.hit("exhaustive:lengths", 32);
        return;
    }
    for (int i = 0; i < 20; ++i) parents(c);
    size_t len = c.rng.chance(1, 20) ? c.rng.below(300000) : c.rng.below(3000);
    std::vector<uint8_t> d(len);
    for (auto& x : d) x = (uint8_t)c.rng.next();
    LOG(c, fmt("message of %zu bytes in pieces", len));
    one(c, d, true);
    // single bit changes reach the output (all state words take part)
    if (len) { d[c.rng.below(len)] ^= 1 << c.rng.below(8); one(c, d, c.rng.chance(1, 2)); }
    // two hashers used in turns do not disturb each other
    std::vector<uint8_t> e(c.rng.below(600));
    for (auto& x : e) x = (uint8_t)c.rng.next();
    CSHA512 a(32), b;
    size_t i = 0, j = 0;
    while (i < d.size() || j < e.size()) {
        size_t x = std::min<size_t>(d.size() - i, c.rng.below(200)), y = std::min<size_t>(e.size() - j, c.rng.below(200));
        a.Write(d.data() + i, x); i += x;
        b.Write(e.data() + j, y); j += y;
    }
    uint8_t wa[32], wb[64], ga[32], gb[64];
    ref::sha512_256(d.data(), d.size(), wa);
    ref::sha512(e.data(), e.size(), wb);
    a.Finalize256(ga);
    b.Finalize(gb);
    CHK(c, !memcmp(ga, wa, 32) && !memcmp(gb, wb, 64), "interleaved", "two hashers used in turns give wrong digests");
}
#endif

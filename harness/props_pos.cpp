// Position arithmetic at every supported forest size, judged on (row, index)
// pairs, and light clients at leaf counts no test can reach.
// With PUBLIC_API_ONLY (the internal position functions have another interface than
// at the pinned commit) only the light clients are judged.
#include "world.h"
#include <algorithm>
#include <tuple>
#ifndef PUBLIC_API_ONLY
#include "state.h"
using utreexo::ForestState;
#endif
using mdl::enc;
using mdl::Key;
typedef unsigned long long ull;

namespace {
#ifndef PUBLIC_API_ONLY
// A forest of which only the shape exists: every node is known by where it was
// at the start, nodes are made when somebody looks at them.
struct VNode;
using VP = std::shared_ptr<VNode>;
struct VNode { int row; uint64_t idx; VP l, r; };
VP vn(int row, uint64_t idx) { return std::make_shared<VNode>(VNode{row, idx, nullptr, nullptr}); }
void expand(const VP& p)
{
    if (!p->l && p->row > 0) { p->l = vn(p->row - 1, p->idx * 2); p->r = vn(p->row - 1, p->idx * 2 + 1); }
}
struct Shape {
    uint64_t n;
    VP root[64];
    explicit Shape(uint64_t k) : n(k) { for (int h = 0; h < 63; ++h) if ((n >> h) & 1) root[h] = vn(h, ridx(h)); }
    bool has(int h) const { return (n >> h) & 1; }
    uint64_t ridx(int h) const { return (n >> h) - 1; }
    int tree(uint64_t leaf) const
    {
        for (int h = 62; h >= 0; --h) if (has(h)) { uint64_t s = (n >> (h + 1)) << (h + 1); if (leaf >= s && leaf - s < (1ULL << h)) return h; }
        return -1;
    }
    // the slot of a node; slots are shared pointers inside their parents, so they can be exchanged
    VP& slot(int row, uint64_t idx)
    {
        int h = tree(idx << row);
        if (h < row) throw mdl::Bug{"shape: no such node"};
        VP* p = &root[h];
        uint64_t rel = idx - (((n >> (h + 1)) << (h + 1)) >> row);
        while (h > row) {
            // subtrees may sit under another height than their own row only by mistake
            expand(*p);
            --h;
            p = ((rel >> (h - row)) & 1) ? &(*p)->r : &(*p)->l;
        }
        return *p;
    }
    // origins of final leaves; holes as specified in model.h
    int top_move = -1;
    void remove(std::vector<uint64_t> holes)
    {
        Shape out(0);
        out.n = n - holes.size();
        for (int row = 0; row < 63; ++row) {
            bool root_here = has(row);
            if (root_here && !holes.empty() && holes.back() == ridx(row)) { holes.pop_back(); root_here = false; }
            std::vector<uint64_t> next, lone;
            for (size_t i = 0; i < holes.size(); ++i) {
                if (i + 1 < holes.size() && (holes[i] ^ 1) == holes[i + 1]) { next.push_back(holes[i] >> 1); ++i; }
                else lone.push_back(holes[i]);
            }
            size_t i = 0;
            for (; i + 1 < lone.size(); i += 2) {
                std::swap(slot(row, lone[i + 1] ^ 1), slot(row, lone[i]));
                next.push_back(lone[i + 1] >> 1);
                top_move = row;
            }
            VP nr = root_here ? root[row] : nullptr;
            if (i < lone.size()) {
                top_move = row;
                if (root_here) { slot(row, lone[i]) = root[row]; nr = nullptr; }
                else { nr = slot(row, lone[i] ^ 1); next.push_back(lone[i] >> 1); }
            }
            out.root[row] = nr;
            if (((out.n >> row) & 1) != (nr ? 1u : 0u)) throw mdl::Bug{"shape: root/bit mismatch"};
            std::sort(next.begin(), next.end());
            holes.swap(next);
        }
        for (int h = 0; h < 63; ++h) root[h] = out.root[h];
        n = out.n;
    }
    uint64_t origin(uint64_t leaf) { VP& p = slot(0, leaf); if (p->row != 0) throw mdl::Bug{"shape: leaf expected"}; return p->idx; }
};
#endif
uint64_t gen_n(Rng& r, int maxbits)
{
    switch (r.below(8)) {
    case 0: return 1 + r.below(40);
    case 1: { int b = (int)r.range(1, maxbits); return 1ULL << b; }
    case 2: { int b = (int)r.range(3, maxbits); return (1ULL << b) - 1 - r.below(4); }
    case 3: { int b = (int)r.range(2, maxbits - 1); return (1ULL << b) + 1 + r.below(5); }
    case 4: { uint64_t n = 0; int k = 1 + (int)r.below(5); while (k--) n |= 1ULL << r.below(maxbits); return n; }
    case 5: { int b = (int)r.range(3, maxbits); return (r.next() >> (64 - b)) | 1; }
    case 6: { int b = (int)r.range(28, 36 < maxbits ? 36 : maxbits); return (1ULL << (b - 1)) + (r.next() >> (65 - b)); }
    default: { int b = (int)r.range(1, maxbits); uint64_t n = r.next() >> (64 - b); return n ? n : 1; }
    }
}
#ifndef PUBLIC_API_ONLY
#define EQ(what, got, want) do { uint64_t g_ = (uint64_t)(got), w_ = (uint64_t)(want); CHK(c, g_ == w_, "position", "%s at %llu leaves, row %d index %llu: %llu, expected %llu", what, (ull)n, row, (ull)idx, (ull)g_, (ull)w_); } while (0)
void nodes(Ctx& c, uint64_t n, int samples)
{
    ForestState s(n);
    int R = mdl::rows_of(n);
    int row = -1;
    uint64_t idx = 0;
    EQ("rows", s.NumRows(), R);
    EQ("roots", s.NumRoots(), __builtin_popcountll(n));
    EQ("max nodes", s.MaxNodes(), (R >= 63 ? ~0ULL : (2ULL << R) - 1));
    std::vector<uint64_t> rp;
    for (int h = 62; h >= 0; --h) if ((n >> h) & 1) rp.push_back(enc(n, h, (n >> h) - 1));
    CHK(c, s.RootPositions() == rp, "root-positions", "roots at %llu leaves are said to be at %s, expected %s", (ull)n, list(s.RootPositions()).c_str(), list(rp).c_str());
    int tree = 0;
    for (int h = R; h >= 0; --h) {
        row = h;
        EQ("has root", s.HasRoot((uint8_t)h), (n >> h) & 1);
        EQ("row offset", s.RowOffset((uint8_t)h), mdl::row_start(n, h));
        if ((n >> h) & 1) {
            EQ("root position", s.RootPosition((uint8_t)h), enc(n, h, (n >> h) - 1));
            EQ("root index", s.RootIndex(enc(n, h, (n >> h) - 1)), tree);
            ++tree;
        }
    }
    Rng& r = c.rng;
    for (int q = 0; q < samples; ++q) {
        row = (int)r.below(R + 1);
        uint64_t cnt = n >> row;
        if (!cnt) { row = 0; cnt = n; }
        idx = r.chance(1, 4) ? cnt - 1 : r.chance(1, 4) ? r.below(std::min<uint64_t>(cnt, 3)) : r.below(cnt);
        uint64_t p = enc(n, row, idx);
        EQ("detected row", s.DetectRow(p), row);
        EQ("row offset of a position", s.RowOffset(p), mdl::row_start(n, row));
        EQ("sibling", s.Sibling(p), enc(n, row, 0) + (idx ^ 1));
        EQ("right sibling", s.RightSibling(p), enc(n, row, 0) + (idx | 1));
        EQ("cousin", s.Cousin(p), row + 1 < R ? enc(n, row, 0) + (idx ^ 2) : s.Cousin(p));
        if (row < R) EQ("parent", s.Parent(p), enc(n, row + 1, idx >> 1));
        int rise = (int)r.below(R - row + 1);
        EQ("ancestor", s.Ancestor(p, (uint8_t)rise), enc(n, row + rise, idx >> rise));
        if (row > 0) {
            EQ("left child", s.LeftChild(p), enc(n, row - 1, idx * 2));
            EQ("child", s.Child(p, 0), enc(n, row - 1, idx * 2));
            EQ("child", s.Child(p, 1), enc(n, row - 1, idx * 2 + 1));
        }
        int drop = (int)r.below(row + 1);
        EQ("left descendant", s.LeftDescendant(p, (uint8_t)drop), enc(n, row - drop, idx << drop));
        // which tree, and how far below its root
        uint64_t leaf = idx << row;
        int t = 0, h = 62;
        for (; h >= 0; --h) if ((n >> h) & 1) { uint64_t st = (n >> (h + 1)) << (h + 1); if (leaf - st < (1ULL << h)) break; ++t; }
        EQ("tree of a position", s.RootIndex(p), t);
        auto path = s.Path(p);
        EQ("tree of a path", std::get<0>(path), t);
        EQ("length of a path", std::get<1>(path), h - row);
        c.hit("positions");
    }
    // roots of a smaller forest in the numbering of this one
    uint64_t m = r.below(n + 1);
    std::vector<uint64_t> want;
    for (int h = 62; h >= 0; --h) if ((m >> h) & 1) want.push_back(enc(n, h, (m >> h) - 1));
    CHK(c, s.RootPositions(m) == want, "root-positions", "roots of %llu leaves in the numbering of %llu are wrong", (ull)m, (ull)n);
    // target checks
    auto t = gen_sparse(r, n, 8);
    CHK(c, s.CheckTargetsSanity(t), "targets", "valid targets %s of %llu are refused", list(t).c_str(), (ull)n);
    auto bad = [&](std::vector<uint64_t> v, const char* why) { CHK(c, !s.CheckTargetsSanity(v), "targets", "targets %s of %llu pass (%s)", list(v).c_str(), (ull)n, why); };
    { auto v = t; v.push_back(n); bad(v, "past the end"); }
    { auto v = t; v.push_back(t.back()); bad(v, "repeated"); }
    { auto v = t; v.push_back(n + r.below(1000)); bad(v, "past the end"); }
    { auto v = t; v.insert(v.begin(), t[0] + 1); bad(v, "descending or repeated"); }
    CHK(c, s.CheckTargetsSanity({}), "targets", "no targets are refused at %llu leaves", (ull)n);
}
std::vector<uint64_t> codes(uint64_t n, const std::vector<Key>& k) { std::vector<uint64_t> v; for (auto& x : k) v.push_back(enc(n, x.row, x.idx)); return v; }
void proofs(Ctx& c, uint64_t n, const std::vector<uint64_t>& t)
{
    mdl::Forest m;
    m.n = n; // proof_keys needs the shape only
    std::vector<Key> comp;
    auto want = codes(n, m.proof_keys(t, &comp));
    // the root of the top row and below: computed positions include the targets and every ancestor
    auto got = ForestState(n).ProofPositions(t);
    CHK(c, got.first == want, "proof-positions", "proof of %s at %llu leaves needs positions %s, got %s", list(t).c_str(), (ull)n, list(want).c_str(), list(got.first).c_str());
    auto cw = codes(n, comp);
    CHK(c, got.second == cw, "computed-positions", "verifying %s at %llu leaves computes positions %s, got %s", list(t).c_str(), (ull)n, list(cw).c_str(), list(got.second).c_str());
    BatchProof fits(t, std::vector<Hash>(want.size())), over(t, std::vector<Hash>(want.size() + 1 + c.rng.below(3)));
    CHK(c, fits.CheckSanity(n) && !over.CheckSanity(n), "sanity", "the sanity check of a proof of %s at %llu leaves does not stop at %zu hashes", list(t).c_str(), (ull)n, want.size());
    c.hit("proof-shapes");
}
// follow a position through swaps of subtrees
struct Mover {
    uint64_t n;
    ForestState s;
    explicit Mover(uint64_t k) : n(k), s(k) {}
    static void decode(uint64_t n, uint64_t pos, int& row, uint64_t& idx)
    {
        row = 0;
        int R = mdl::rows_of(n);
        while (row < R && pos >= mdl::row_start(n, row + 1)) ++row;
        idx = pos - mdl::row_start(n, row);
    }
    // leaf position, one swap of the subtrees below two positions
    uint64_t hop(uint64_t leaf, uint64_t from, uint64_t to, bool range, uint64_t len) const
    {
        if (range) {
            if (leaf >= from && leaf - from < len) return to + (leaf - from);
            if (leaf >= to && leaf - to < len) return from + (leaf - to);
            return leaf;
        }
        int ra, rb;
        uint64_t a, b;
        decode(n, from, ra, a);
        decode(n, to, rb, b);
        if (ra != rb) throw Violation("swap-rows", fmt("a swap of positions %llu and %llu on different rows at %llu leaves", (ull)from, (ull)to, (ull)n));
        uint64_t up = leaf >> ra, low = leaf & ((1ULL << ra) - 1);
        if (up == a) return (b << ra) | low;
        if (up == b) return (a << ra) | low;
        return leaf;
    }
};
void transforms(Ctx& c, uint64_t n, const std::vector<uint64_t>& t, int samples)
{
    ForestState s(n);
    auto swaps = s.Transform(t);
    auto undo = s.UndoTransform(t);
    Mover mv(n);
    Shape sh(n);
    sh.remove(t);
    uint64_t left = n - t.size();
    Rng& r = c.rng;
    std::set<uint64_t> probe;
    auto add = [&](uint64_t x) { if (x < left) probe.insert(x); };
    for (int h = 0; h < 63; ++h) if ((left >> h) & 1) { uint64_t st = (left >> (h + 1)) << (h + 1); add(st); add(st + (1ULL << h) - 1); if (h) add(st + r.below(1ULL << h)); }
    for (uint64_t x : t) for (int h = 0; h < 62 && (1ULL << h) <= n; h += 1 + (int)r.below(5)) { add(x ^ (1ULL << h)); if (r.chance(1, 3)) add((x >> h) << h); }
    for (uint64_t x : t) { add(x); add(x ^ 1); }
    while ((int)probe.size() < samples && probe.size() < left) probe.insert(r.below(left));
    std::vector<uint64_t> pv(probe.begin(), probe.end());
    if ((int)pv.size() > 3 * samples) { r.shuffle(pv); pv.resize(3 * samples); }
    std::set<uint64_t> tset(t.begin(), t.end());
    for (uint64_t q : pv) {
        uint64_t back = q;
        for (auto row = swaps.rbegin(); row != swaps.rend(); ++row)
            for (auto sw = row->rbegin(); sw != row->rend(); ++sw) back = mv.hop(back, sw->m_from, sw->m_to, false, 0);
        uint64_t want = sh.origin(q);
        CHK(c, back == want, "transform", "after deleting %s of %llu leaves position %llu holds former leaf %llu, expected %llu", list(t).c_str(), (ull)n, (ull)q, (ull)back, (ull)want);
        CHK(c, !tset.count(back), "transform", "after deleting %s of %llu leaves position %llu holds a deleted leaf", list(t).c_str(), (ull)n, (ull)q);
        uint64_t u = q; // the undo swaps lead back
        for (auto sw = undo.rbegin(); sw != undo.rend(); ++sw) u = mv.hop(u, sw->m_from, sw->m_to, true, sw->m_is_range_swap ? sw->m_range : 1);
        CHK(c, u == want, "undo-transform", "undoing the deletion of %s of %llu leaves moves %llu to %llu, expected %llu", list(t).c_str(), (ull)n, (ull)q, (ull)u, (ull)want);
        c.hit("traced-leaves");
    }
    // deleted leaves end up behind the last leaf, and the undo brings them back
    size_t lim = 0;
    for (uint64_t x : t) {
        if (++lim > 64) break;
        uint64_t q = x;
        for (auto& row : swaps) for (auto& sw : row) q = mv.hop(q, sw.m_from, sw.m_to, false, 0);
        CHK(c, q >= left && q < n, "transform-deleted", "deleted leaf %llu of %llu is moved to %llu", (ull)x, (ull)n, (ull)q);
        for (auto sw = undo.rbegin(); sw != undo.rend(); ++sw) q = mv.hop(q, sw->m_from, sw->m_to, true, sw->m_is_range_swap ? sw->m_range : 1);
        CHK(c, q == x, "undo-transform", "deleted leaf %llu of %llu comes back at %llu", (ull)x, (ull)n, (ull)q);
    }
    c.hit("transforms");
}
#endif
} // namespace

// a light client at a leaf count far beyond what can be built leaf by leaf
static void sparse_pollard(Ctx& c)
{
    Rng& r = c.rng;
    World w(c);
    w.make_sparse();
    uint64_t n = w.m.n;
    Pollard p(w.m.roots(), n);
    check_roots(c, p, w.m, "pollard");
    std::set<Hash> kept; // leaves the client was told to remember or has verified
    for (int i = 0; i < 6; ++i) {
        std::vector<uint64_t> known = w.known();
        if (known.empty()) break;
        // what was kept in earlier rounds can still be proven, wherever it has been moved
        std::vector<uint64_t> held;
        for (uint64_t x : known) if (kept.count(w.m.leaf_at(x))) held.push_back(x);
        CHK(c, p.NumCachedLeaves() == kept.size(), "cached-count", "light client at %llu leaves has %llu cached leaves, expected %zu", (ull)w.m.n, (ull)p.NumCachedLeaves(), kept.size());
        if (!held.empty()) {
            std::vector<uint64_t> some;
            for (uint64_t x : held) if (r.chance(1, 2)) some.push_back(x);
            if (some.empty()) some = held;
            BatchProof q;
            CHK(c, p.Prove(q, hashes_at(w.m, some)) && q.GetTargets() == some && q.GetHashes() == w.m.proof_hashes(some), "cached-proof", "light client at %llu leaves cannot prove the leaves it keeps at %s", (ull)w.m.n, list(some).c_str());
            c.hit("sparse:kept");
        }
        auto claim = [&](const std::vector<uint64_t>& t, bool lie_first) {
            std::vector<Hash> th = hashes_at(w.m, t), ph = w.m.proof_hashes(t);
            LOG(c, "verify " + list(t));
            if (lie_first) {
                std::vector<Hash> lie = th;
                lie[r.below(lie.size())][r.below(32)] ^= 1;
                CHK(c, !p.Verify(BatchProof(t, ph), lie), "false-claim-accepted", "light client at %llu leaves accepts a false claim", (ull)w.m.n);
            }
            CHK(c, p.Verify(BatchProof(t, ph), th), "honest-verify", "light client at %llu leaves rejects a proof of %s", (ull)w.m.n, list(t).c_str());
            check_roots(c, p, w.m, "pollard");
            BatchProof q;
            CHK(c, p.Prove(q, th) && q.GetTargets() == t && q.GetHashes() == ph, "cached-proof", "light client at %llu leaves cannot prove what it just verified: %s", (ull)w.m.n, list(t).c_str());
            kept.insert(th.begin(), th.end());
            c.hit("sparse:verified");
        };
        auto choose = [&] {
            std::set<uint64_t> ts;
            for (int k = 1 + (int)r.below(4); k > 0; --k) ts.insert(known[r.below(known.size())]);
            return std::vector<uint64_t>(ts.begin(), ts.end());
        };
        if (r.chance(1, 2)) claim(choose(), false);
        std::vector<uint64_t> t = choose();
        claim(t, true);
        mdl::Forest next = w.m;
        next.remove(t);
        std::vector<Leaf> adds;
        for (int a = (int)r.below(6); a > 0; --a) adds.emplace_back(w.gen.fresh(r), r.chance(1, 2));
        LOG(c, "remove " + list(t) + fmt(" add %zu", adds.size()));
        for (const Hash& h : hashes_at(w.m, t)) kept.erase(h);
        CHK(c, p.Modify(adds, t), "pollard-modify", "light client at %llu leaves refuses to remove %s", (ull)w.m.n, list(t).c_str());
        if (next.max_swap_row > 20) c.hit("sparse:large-moves");
        w.m = next;
        for (auto& l : adds) { w.m.add(l.first); if (l.second) kept.insert(l.first); }
        check_roots(c, p, w.m, "pollard");
        c.hit("sparse:removed");
        c.state(model_digest(w.m));
        c.mixin(model_digest(w.m));
        c.nontrivial = true;
    }
}
#ifdef PUBLIC_API_ONLY
WORKLOAD(C14) { sparse_pollard(c); c.hit("public-api-only"); }
#else
WORKLOAD(C14)
{
    uint64_t k = c.case_no;
    uint64_t small = c.thorough ? 2048 : 400;
    int nmax = c.thorough ? 13 : 10;
    int64_t b = c.block(k, small / 8 + nmax);
    k = b < 0 ? ~0ULL / 2 : (uint64_t)b;
    if (k < small / 8) { // every size up to `small`, every node
        for (uint64_t n = k * 8 + 1; n <= k * 8 + 8; ++n) {
            LOG(c, fmt("every node at %llu leaves", (ull)n));
            nodes(c, n, 60);
            for (int i = 0; i < 12; ++i) { auto t = gen_targets(c.rng, n); if (t.empty()) continue; proofs(c, n, t); transforms(c, n, t, 40); }
            c.state(n);
            c.hit("exhaustive:sizes");
        }
        c.mixin(k);
        c.nontrivial = true;
        return;
    }
    k -= small / 8;
    if (k < (uint64_t)nmax) { // every subset of small forests
        uint64_t n = nmax - k;
        LOG(c, fmt("every subset of %llu leaves", (ull)n));
        for (uint64_t mask = 1; mask < (1ULL << n); ++mask) {
            std::vector<uint64_t> t;
            for (uint64_t i = 0; i < n; ++i) if ((mask >> i) & 1) t.push_back(i);
            proofs(c, n, t);
            transforms(c, n, t, (int)n);
            c.hit("exhaustive:subsets");
        }
        c.nontrivial = true;
        c.mixin(n);
        return;
    }
    if (c.rng.chance(1, 5)) return sparse_pollard(c);
    uint64_t n = gen_n(c.rng, 61);
    if (c.rng.chance(1, 16)) n = 1ULL << 62;
    nodes(c, n, 30);
    auto t = gen_sparse(c.rng, n, c.rng.chance(1, 10) ? 200 : 24);
    if (n > 3000 && c.rng.chance(1, 150)) { // very many targets
        std::set<uint64_t> s;
        int k = (int)c.rng.range(1000, 6000), span = (int)c.rng.range(12, 61);
        uint64_t base = c.rng.below(n);
        for (int i = 0; i < k; ++i) { uint64_t x = c.rng.chance(1, 8) ? c.rng.below(n) : base + c.rng.below(1ULL << span); if (x < n) s.insert(x); }
        if (s.size() < n / 2) t.assign(s.begin(), s.end());
        c.hit("many-targets");
    }
    if (t.empty()) t = {0};
    LOG(c, fmt("%llu leaves, targets ", (ull)n) + list(t));
    proofs(c, n, t);
    transforms(c, n, t, 60);
    c.mixin(digest(t, n));
    c.state(digest(t, n));
    c.nontrivial = true;
}
#endif

// Concurrent readers of one accumulator, and independent accumulators in different threads.
#include "world.h"
#include <atomic>
#include <mutex>
#include <thread>

namespace {
struct Job { std::vector<Hash> th, sth, ph; std::vector<uint64_t> order, targets; };
std::vector<Job> jobs(World& w, const std::vector<uint64_t>& allowed, int k)
{
    std::vector<Job> v;
    while (k--) {
        Job j;
        std::set<uint64_t> s;
        int q = 1 + (int)w.c.rng.below(6);
        while (q-- && !allowed.empty()) s.insert(allowed[w.c.rng.below(allowed.size())]);
        j.targets.assign(s.begin(), s.end());
        j.order = j.targets;
        w.c.rng.shuffle(j.order);
        j.th = hashes_at(w.m, j.order);
        j.sth = hashes_at(w.m, j.targets);
        j.ph = w.m.proof_hashes(j.targets);
        v.push_back(j);
    }
    return v;
}
// only relaxed operations: the monitor must not order the threads for the race detector
std::atomic<int> g_in{0};
struct In {
    uint64_t& overlap;
    explicit In(uint64_t& o) : overlap(o) { if (g_in.fetch_add(1, std::memory_order_relaxed) > 0) ++overlap; }
    ~In() { g_in.fetch_sub(1, std::memory_order_relaxed); }
};
// the number of nodes of a pollard nobody changes is the same for everybody who asks
bool nodes_agree(std::atomic<uint64_t>& first, uint64_t now)
{
    uint64_t none = UINT64_MAX;
    return first.compare_exchange_strong(none, now, std::memory_order_relaxed) || none == now;
}
// A history that belongs to one thread: forest in memory or in a file, a pollard, proofs and undo data over the wire.
void private_history(Ctx& own, const std::string& file, int steps, uint64_t cap)
{
    World v(own);
    v.cap = cap;
    if (file.empty()) v.f = std::make_unique<RamForest>(0);
    else { remove(file.c_str()); v.f = std::make_unique<RamForest>(file); }
    v.slots.reserve(2);
    v.add_slot("private", 3);
    for (int s = 0; s < steps; ++s) {
        World::Step st = v.plan();
        UndoBatch u, u2;
        mdl::Forest old = v.m;
        BatchProof p = v.prove(st.targets), q;
        std::vector<uint8_t> b;
        if (!st.targets.empty()) { // a lie first
            std::vector<Hash> th = hashes_at(v.m, st.targets);
            th[own.rng.below(th.size())][own.rng.below(32)] ^= 4;
            CHK(own, !v.slots[0].p->Verify(p, th), "false-claim-accepted", "a false claim is accepted in one thread");
            CHK(own, !v.f->Verify(p, th), "false-claim-accepted", "a false claim is accepted by the forest of one thread");
        }
        p.Serialize(b);
        CHK(own, q.Unserialize(b) && q == p, "concurrent-wire", "a proof does not survive serialization in one thread");
        if (!b.empty()) { b.pop_back(); CHK(own, !q.Unserialize(b), "concurrent-wire", "a truncated proof is decoded in one thread"); }
        v.pollards_apply(st, p);
        v.forest_apply(st, 1, &u);
        u.Serialize(b);
        CHK(own, u2.Unserialize(b) && u2 == u, "concurrent-wire", "undo data does not survive serialization in one thread");
        v.check_slot(v.slots[0]);
        check_forest(own, *v.f, v.m, true);
        if (!file.empty()) {
            if (own.rng.chance(1, 2)) CHK(own, v.f->Commit(), "concurrent-file", "saving fails in one thread");
            else { v.f.reset(); v.f = std::make_unique<RamForest>(file); }
            check_forest(own, *v.f, v.m, true);
            own.hit("private-files");
        }
        if (s + 1 == steps) { CHK(own, v.f->Undo(u2), "undo-refused", "undo fails"); check_forest(own, *v.f, old, true); }
    }
    v.f.reset();
    if (!file.empty()) remove(file.c_str());
}
// What a process does first it does in several threads at once: nothing of the library was used before.
void cold_start(Ctx& c)
{
    const int T = 6;
    std::atomic<int> ready{0};
    std::string kind[T], msg[T];
    uint64_t salt = c.rng.next();
    int first = (int)c.rng.below(6);
    auto body = [&](int t) {
        Ctx own;
        own.begin("C13cold", salt, t);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < T) {}
        try {
            mdl::Forest m;
            std::vector<Leaf> l;
            std::vector<Hash> h;
            LeafGen g;
            uint64_t k = own.rng.range(1, 20);
            for (uint64_t i = 0; i < k; ++i) { h.push_back(g.fresh(own.rng)); l.emplace_back(h.back(), own.rng.chance(1, 2)); }
            switch (first) { // the same call in every thread is the very first one
            case 0: { RamForest f(0); CHK(own, static_cast<utreexo::Accumulator&>(f).Modify(l, {}), "forest-modify", "a modification is refused"); for (auto& x : h) m.add(x); check_forest(own, f, m, true); break; }
            case 1: { Pollard p(0); CHK(own, p.Modify(l, {}), "pollard-modify", "a modification is refused"); for (auto& x : h) m.add(x); check_roots(own, p, m, "pollard"); break; }
            case 2: { BatchProof p({7, 3, 9}, h), q; std::vector<uint8_t> b; p.Serialize(b); CHK(own, q.Unserialize(b) && q == p, "concurrent-wire", "a proof does not survive serialization"); break; }
            case 3: { UndoBatch p(3, {1, 2}, {h[0], h[0]}), q; std::vector<uint8_t> b; p.Serialize(b); CHK(own, q.Unserialize(b) && q == p, "concurrent-wire", "undo data does not survive serialization"); break; }
            case 4: { BatchProof p({3, 5}, {}); CHK(own, p.CheckSanity(1000 + k) && !p.CheckSanity(5), "concurrent-read", "a proof is judged wrongly"); break; }
            default: { RamForest f(c.scratch + fmt("/cold%d", t)); UndoBatch u; CHK(own, f.Modify(u, l, {}) && f.Commit(), "concurrent-file", "saving fails"); for (auto& x : h) m.add(x); check_forest(own, f, m, true); }
            }
            remove((c.scratch + fmt("/cold%d", t)).c_str());
            private_history(own, t & 1 ? c.scratch + fmt("/cold%d", t) : std::string(), 3, 12);
        } catch (const Violation& e) { kind[t] = e.kind; msg[t] = e.what(); }
        catch (const mdl::Bug& b) { kind[t] = "harness"; msg[t] = b.what; }
        catch (const std::exception& e) { kind[t] = "exception-in-thread"; msg[t] = e.what(); }
    };
    LOG(c, fmt("cold start of %d threads, first call %d", T, first));
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back(body, t);
    for (auto& t : th) t.join();
    for (int t = 0; t < T; ++t) {
        if (kind[t] == "harness") throw mdl::Bug{"in a thread"};
        if (!kind[t].empty()) c.fail(kind[t], fmt("thread %d, started cold: ", t) + msg[t]);
    }
    c.hit("cold-starts");
}
} // namespace
WORKLOAD(C13)
{
    static bool cold = true;
    if (cold) { cold = false; cold_start(c); }
    World w(c);
    static const uint64_t caps[] = {8, 20, 60, 150};
    w.cap = caps[c.rng.below(4)];
    w.f = std::make_unique<RamForest>(0);
    w.slots.reserve(4);
    w.add_slot("wallet", 4);
    w.add_slot("hoarder", 8);
    int n = (int)c.rng.range(2, 8);
    for (int i = 0; i < n; ++i) {
        World::Step st = w.plan();
        w.pollards_apply(st, w.prove(st.targets));
        w.forest_apply(st, -1);
    }
    if (w.m.n == 0) w.grow(5), w.restore_slot(w.slots[0]), w.restore_slot(w.slots[1]);
    uint64_t salt = c.rng.next();
    const int episodes = (int)c.rng.range(1, 4);
    for (int e = 0; e < episodes; ++e) {
    // What the threads share has just been made or changed, and nothing has been read from it since.
    std::unique_ptr<RamForest> twin;
    mdl::Forest before = w.m;
    World::Step last = w.plan();
    UndoBatch undo;
    {
        BatchProof q(last.targets, w.m.proof_hashes(last.targets));
        std::vector<Hash> gone = hashes_at(w.m, last.targets);
        for (Slot& sl : w.slots) {
            CHK(c, sl.p->Verify(q, gone), "honest-rejected", "an honest proof is rejected");
            auto adds = w.flag(last.adds, sl.remember_den);
            CHK(c, sl.p->Modify(adds, last.targets), "pollard-modify", "a valid modification is refused");
            for (auto& h : gone) sl.remembered.erase(h);
            for (auto& l : adds) if (l.second) sl.remembered.insert(l.first);
        }
        CHK(c, w.f->Modify(undo, w.flag(last.adds, 4), last.targets), "forest-modify", "a valid modification is refused");
        w.m.remove(last.targets);
        for (auto& h : last.adds) w.m.add(h);
    }
    if (w.m.n == 0) continue;
    twin = std::make_unique<RamForest>(0);
    {
        std::vector<Leaf> l;
        for (auto& h : w.m.leaves()) l.emplace_back(h, false);
        static_cast<utreexo::Accumulator&>(*twin).Modify(l, {});
    }
    std::vector<uint64_t> all;
    for (uint64_t i = 0; i < w.m.n; ++i) all.push_back(i);
    const int T = (int)c.rng.range(3, 8);
    LOG(c, fmt("%d threads on a forest of %llu leaves", T, (unsigned long long)w.m.n));
    std::vector<uint64_t> known[2] = {w.remembered_positions(w.slots[0]), w.remembered_positions(w.slots[1])};
    std::vector<std::vector<Job>> forest_jobs, pollard_jobs;
    std::vector<int> which;
    for (int t = 0; t < T; ++t) {
        forest_jobs.push_back(jobs(w, all, 12));
        which.push_back((int)c.rng.below(2));
        pollard_jobs.push_back(jobs(w, known[which.back()], 12));
    }
    const std::vector<Hash> roots = w.m.roots(), leaves = w.m.leaves();
    // proofs that nobody has looked at yet; their targets are in no order
    std::vector<Job> shared_jobs = jobs(w, all, 4);
    for (auto& j : shared_jobs) {
        std::vector<uint64_t> t = gen_targets(c.rng, w.m.n);
        if (c.rng.chance(1, 2) || t.empty()) continue;
        j.targets = j.order = t;
        c.rng.shuffle(j.order);
        j.th = hashes_at(w.m, j.order);
        j.sth = hashes_at(w.m, j.targets);
        j.ph = w.m.proof_hashes(j.targets);
    }
    std::vector<BatchProof> shared;
    for (auto& j : shared_jobs) shared.emplace_back(j.order, j.ph);
    const RamForest& forest = *w.f;
    const Pollard* pol[2] = {w.slots[0].p.get(), w.slots[1].p.get()};
    std::atomic<uint64_t> nodes[2] = {{UINT64_MAX}, {UINT64_MAX}}; // what the first thread that asked was told
    const std::vector<Hash> old_roots = before.roots();
    std::atomic<int> ready{0};
    std::mutex mu;
    std::string kind, msg;
    std::vector<std::map<std::string, uint64_t>> counts(T);
    std::vector<uint64_t> overlap(T), ops(T);
    const Hash foreign = w.gen.fresh(c.rng);
    auto body = [&](int t) {
        Ctx own;
        own.begin("C13", salt + e, t);
        Rng& r = own.rng;
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
        try {
            int rounds = 40 * c.weight / 100 / episodes + 5;
            for (int i = 0; i < rounds; ++i) {
                if (r.chance(1, 8)) std::this_thread::yield();
                ++ops[t];
                switch (r.below(10)) {
                case 0: case 1: { // proofs from the shared forest
                    const Job& j = forest_jobs[t][r.below(12)];
                    BatchProof p;
                    bool ok;
                    { In in(overlap[t]); ok = forest.Prove(p, j.th); }
                    CHK(own, ok && p.GetTargets() == j.order && p.GetHashes() == j.ph, "concurrent-prove", "a proof made concurrently is wrong");
                    break;
                }
                case 2: {
                    std::vector<Hash> got;
                    uint64_t nl;
                    { In in(overlap[t]); forest.Roots(got); nl = forest.NumLeaves(); }
                    CHK(own, got == roots && nl == leaves.size(), "concurrent-read", "roots read concurrently are wrong");
                    for (int q = 0; q < 10; ++q) {
                        uint64_t i2 = r.below(leaves.size());
                        Hash h;
                        { In in(overlap[t]); h = forest.GetLeaf(i2); }
                        CHK(own, h == leaves[i2], "concurrent-read", "a leaf read concurrently is wrong");
                    }
                    break;
                }
                case 3: { // proofs from a shared pollard
                    const Pollard& p = *pol[which[t]];
                    const Job& j = pollard_jobs[t][r.below(12)];
                    BatchProof q;
                    bool ok;
                    { In in(overlap[t]); ok = p.Prove(q, j.th); }
                    CHK(own, ok && q.GetTargets() == j.order && q.GetHashes() == j.ph, "concurrent-prove", "a proof made concurrently by a pollard is wrong");
                    break;
                }
                case 4: {
                    const Pollard& p = *pol[which[t]];
                    std::vector<Hash> got;
                    uint64_t cn;
                    { In in(overlap[t]); p.Roots(got); cn = p.CountNodes(); }
                    CHK(own, got == roots && p.NumLeaves() == leaves.size() && nodes_agree(nodes[which[t]], cn), "concurrent-read", "a pollard read concurrently is wrong");
                    { In in(overlap[t]); CHK(own, p.ComparePositionMap(*w.f), "concurrent-read", "positions compared concurrently differ"); }
                    break;
                }
                case 5: case 6: { // one proof used by everybody, each with an own pollard
                    Pollard mine(roots, leaves.size());
                    size_t q = r.below(shared.size());
                    const BatchProof& proof = shared[q];
                    const Job& j = shared_jobs[q];
                    BatchProof copy, read;
                    std::vector<uint8_t> b;
                    bool ok = true, sane = true, same = true;
                    In in(overlap[t]);
                    switch (r.below(5)) {
                    case 0: ok = mine.Verify(proof, j.sth); break;
                    case 1: sane = proof.CheckSanity(leaves.size()); break;
                    case 2: same = proof.GetSortedTargets() == j.targets && proof.GetTargets() == j.order && proof.GetHashes() == j.ph; break;
                    case 3: proof.Serialize(b); same = read.Unserialize(b) && read.GetTargets() == j.order && read.GetHashes() == j.ph; break;
                    default: copy = proof; same = copy == proof && copy.GetSortedTargets() == j.targets;
                    }
                    CHK(own, ok && sane && same, "concurrent-verify", "a shared proof is %s in one thread", ok ? sane ? "different" : "not sane" : "rejected");
                    break;
                }
                case 7: { // comparisons, and undo data used by everybody, each with an own forest
                    In in(overlap[t]);
                    switch (r.below(3)) {
                    case 0: CHK(own, const_cast<RamForest&>(forest) == *twin, "concurrent-compare", "equal forests compare unequal in one thread"); break;
                    case 1: CHK(own, forest.ComparePositionMap(*twin) && twin->ComparePositionMap(*w.f), "concurrent-compare", "positions compared concurrently differ"); break;
                    default: {
                        RamForest mine(0);
                        std::vector<Leaf> l;
                        for (auto& h : leaves) l.emplace_back(h, false);
                        std::vector<Hash> got;
                        static_cast<utreexo::Accumulator&>(mine).Modify(l, {});
                        bool ok = mine.Undo(undo);
                        mine.Roots(got);
                        CHK(own, ok && got == old_roots, "concurrent-undo", "undo data used concurrently do not restore the forest");
                    }
                    }
                    break;
                }
                case 8: { // requests that are refused
                    BatchProof p;
                    std::vector<Hash> ask = forest_jobs[t][r.below(12)].th;
                    ask.insert(ask.begin() + r.below(ask.size() + 1), foreign);
                    In in(overlap[t]);
                    CHK(own, !forest.Prove(p, ask), "concurrent-refusal", "a leaf that does not exist is proven in one thread");
                    CHK(own, !pol[which[t]]->Prove(p, {foreign}), "concurrent-refusal", "a leaf that does not exist is proven by a pollard in one thread");
                    CHK(own, !BatchProof({leaves.size()}, {}).CheckSanity(leaves.size()), "concurrent-refusal", "a proof of no leaf is sane in one thread");
                    break;
                }
                default: { // something of its own
                    In in(overlap[t]);
                    private_history(own, r.chance(1, 2) ? c.scratch + fmt("/own%d", t) : std::string(), 4, r.chance(1, 6) ? 70 : 12);
                }
                }
            }
        } catch (const Violation& e) {
            std::lock_guard<std::mutex> g(mu);
            kind = e.kind;
            msg = fmt("thread %d: ", t) + e.what();
        } catch (const mdl::Bug& b) {
            std::lock_guard<std::mutex> g(mu);
            kind = "harness";
            msg = b.what;
        } catch (const std::exception& e) {
            std::lock_guard<std::mutex> g(mu);
            kind = "exception-in-thread";
            msg = e.what();
        }
        counts[t] = own.cnt;
    };
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back(body, t);
    for (auto& t : th) t.join();
    if (kind == "harness") throw mdl::Bug{"in a thread"};
    if (!kind.empty()) c.fail(kind, msg);
    for (int t = 0; t < T; ++t) { c.hit("concurrent-ops", ops[t]); c.hit("overlapping-calls", overlap[t]); for (auto& p : counts[t]) c.hit(p.first.c_str(), p.second); }
    c.hit("threads", T);
    check_forest(c, *w.f, w.m, true);
    for (auto& sl : w.slots) w.check_slot(sl);
    c.hit("episodes");
    }
    c.mixin(salt);
    c.nontrivial = true;
}

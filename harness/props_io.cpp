// Persistence and wire formats.
#include "world.h"
#include <algorithm>
#include <csignal>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
using Bytes = std::vector<uint8_t>;
bool slurp(const std::string& f, Bytes& out)
{
    FILE* h = fopen(f.c_str(), "rb");
    if (!h) return false;
    out.clear();
    uint8_t b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, h)) > 0) out.insert(out.end(), b, b + k);
    fclose(h);
    return true;
}
void spit(const std::string& f, const uint8_t* d, size_t n)
{
    FILE* h = fopen(f.c_str(), "wb");
    if (!h || fwrite(d, 1, n, h) != n || fclose(h)) throw mdl::Bug{"cannot write a scratch file"};
}
void be(Bytes& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t)(v >> (8 * i))); }
// the documented image of a forest: leaf count, then the rows from the bottom up
Bytes image_of(const mdl::Forest& m)
{
    Bytes b;
    be(b, m.n, 8);
    std::vector<Hash> row = m.leaves();
    std::vector<uint8_t>* out = &b;
    for (int r = 0; (m.n >> r) > 0; ++r) {
        // a row holds a hash for every complete pair of the row below
        for (auto& h : row) out->insert(out->end(), h.begin(), h.end());
        std::vector<Hash> up;
        for (size_t i = 0; i + 1 < row.size(); i += 2) up.push_back(ref::node_hash(row[i], row[i + 1]));
        row.swap(up);
    }
    return b;
}
void check_image(Ctx& c, const std::string& file, const mdl::Forest& m, const char* when)
{
    Bytes got, want = image_of(m);
    CHK(c, slurp(file, got), "image-missing", "%s the file cannot be read", when);
    CHK(c, got.size() >= want.size(), "image-short", "%s the file of a forest of %llu leaves has %zu bytes, %zu are needed", when, (unsigned long long)m.n, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) if (got[i] != want[i]) c.fail("image-differs", fmt("%s byte %zu of the file of a forest of %llu leaves differs", when, i, (unsigned long long)m.n));
    c.hit("image-bytes", want.size());
    if (got.size() > want.size()) c.hit("image-with-stale-tail");
}
struct Past { mdl::Forest m; Bytes undo; };
} // namespace

// ---------------------------------------------------------------- C09
static void full_check(Ctx& c, World& w)
{
    check_forest(c, *w.f, w.m, w.m.n < 20000);
    check_positions(c, *w.f, w.m, w.m.n <= 50 ? 50 : w.m.n > 20000 ? 1500 : 15);
}
static void truncations(Ctx& c, World& w, const std::string& dir);
static void c09_big(Ctx& c, uint64_t which)
{
    static const uint64_t sizes[] = {66000, 131072, 40001, 262143};
    World w(c);
    std::string file = c.scratch + "/big.dat";
    remove(file.c_str());
    w.f = std::make_unique<RamForest>(file);
    w.grow(w.scaled(sizes[which % 4]));
    CHK(c, w.f->Commit(), "commit", "saving a large forest fails");
    check_image(c, file, w.m, "after a commit");
    { // no room for the next commit, then there is
        World::Step st;
        for (uint64_t k = c.rng.below(50); k < w.m.n; k += 1 + c.rng.below(50)) st.targets.push_back(k);
        for (int k = 0; k < 9; ++k) st.adds.push_back(w.gen.fresh(c.rng));
        w.forest_apply(st, 1);
        signal(SIGXFSZ, SIG_IGN);
        rlimit old, lim;
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old;
        lim.rlim_cur = c.rng.chance(1, 3) ? c.rng.below(5000) : c.rng.below(w.m.n * 64);
        uint64_t size = image_of(w.m).size();
        setrlimit(RLIMIT_FSIZE, &lim);
        bool ok = w.f->Commit();
        setrlimit(RLIMIT_FSIZE, &old);
        signal(SIGXFSZ, SIG_DFL);
        CHK(c, !ok || lim.rlim_cur >= size, "commit-lies", "Commit of a large forest reports success with room for %llu of %llu bytes", (unsigned long long)lim.rlim_cur, (unsigned long long)size);
        CHK(c, ok || lim.rlim_cur < size, "commit-fails", "Commit of a large forest fails with room for %llu of %llu bytes", (unsigned long long)lim.rlim_cur, (unsigned long long)size);
        c.hit(ok ? "big:commit" : "big:failed-commit");
        if (c.rng.chance(1, 2)) CHK(c, w.f->Commit(), "commit-retry", "Commit of a large forest fails again after there is room");
        else w.f.reset();
        check_image(c, file, w.m, "after a commit that had failed is repeated");
        if (!w.f) w.f = std::make_unique<RamForest>(file);
    }
    for (int i = 0; i < 2; ++i) {
        World::Step st;
        for (uint64_t k = 0; k < w.m.n; ++k) if (c.rng.chance(1, i ? 3 : 40)) st.targets.push_back(k);
        if (i) for (uint64_t k = w.rounding(w.m.n - st.targets.size(), 70000 * c.weight / 100); k > 0; --k) st.adds.push_back(w.gen.fresh(c.rng));
        w.forest_apply(st, 1);
        w.f.reset();
        check_image(c, file, w.m, "after closing");
        w.f = std::make_unique<RamForest>(file);
        full_check(c, w);
        c.hit("big:reopen");
    }
    truncations(c, w, c.scratch);
    w.f.reset();
    remove(file.c_str());
}
static void truncations(Ctx& c, World& w, const std::string& dir)
{
    Bytes img = image_of(w.m);
    std::string t = dir + "/cut.dat";
    std::vector<size_t> lens;
    if (img.size() <= 600) for (size_t i = 0; i < img.size(); ++i) lens.push_back(i);
    else if (img.size() > 1000000) for (size_t l : {img.size() - 1, img.size() - 32, img.size() - 33, img.size() / 2, 8 + 32 * (size_t)w.m.n, (size_t)c.rng.below(img.size()), (size_t)c.rng.below(img.size())}) lens.push_back(l);
    else {
        for (size_t i = 0; i <= 9; ++i) { lens.push_back(i); lens.push_back(img.size() - 1 - i); }
        for (int i = 0; i < 30; ++i) lens.push_back(c.rng.below(img.size()));
        for (int i = 0; i < 10; ++i) lens.push_back(8 + 32 * c.rng.below((img.size() - 8) / 32));
    }
    LOG(c, fmt("%zu truncated images of %zu bytes", lens.size(), img.size()));
    for (size_t len : lens) {
        spit(t, img.data(), len);
        bool refused = false;
        try { RamForest f(t); } catch (const std::exception&) { refused = true; }
        CHK(c, refused, "truncated-accepted", "the first %zu of %zu bytes of a forest file are accepted as a forest (%llu leaves)", len, img.size(), (unsigned long long)w.m.n);
        Bytes after;
        slurp(t, after);
        CHK(c, after.size() == len && (after.empty() || memcmp(after.data(), img.data(), len) == 0), "refused-file-changed", "a refused file of %zu bytes was changed", len);
        c.hit("truncated-images");
    }
    // a leaf count larger than the data
    for (int i = 0; i < 4; ++i) {
        Bytes b = img;
        uint64_t n = i == 0 ? w.m.n + 1 : i == 1 ? w.m.n * 2 + 1 : i == 2 ? w.m.n + (1ULL << c.rng.range(8, 60)) : ~0ULL;
        for (int k = 0; k < 8; ++k) b[k] = (uint8_t)(n >> (8 * (7 - k)));
        spit(t, b.data(), b.size());
        bool refused = false;
        try { RamForest f(t); } catch (const std::exception&) { refused = true; }
        CHK(c, refused, "truncated-accepted", "a file which claims %llu leaves and holds %llu is accepted", (unsigned long long)n, (unsigned long long)w.m.n);
        c.hit("overclaiming-images");
    }
    // a leaf that is there twice
    if (w.m.n >= 2) for (int i = 0; i < 3; ++i) {
        uint64_t a = c.rng.below(w.m.n), d = c.rng.below(w.m.n);
        if (a == d) continue;
        Bytes b = img;
        std::copy(img.begin() + 8 + 32 * a, img.begin() + 40 + 32 * a, b.begin() + 8 + 32 * d);
        spit(t, b.data(), b.size());
        bool refused = false;
        try { RamForest f(t); } catch (const std::exception&) { refused = true; }
        CHK(c, refused, "repeated-leaf-accepted", "a file in which leaf %llu of %llu is listed again as leaf %llu is accepted", (unsigned long long)a, (unsigned long long)w.m.n, (unsigned long long)d);
        Bytes after;
        slurp(t, after);
        CHK(c, after == b, "refused-file-changed", "a refused file of %zu bytes was changed", b.size());
        c.hit("images-with-repeated-leaf");
    }
    remove(t.c_str());
}
// writes which fail: whatever Commit says must be true of the file
static void write_failures(Ctx& c, World& w, const std::string& dir)
{
    std::string t = dir + "/limit.dat";
    remove(t.c_str());
    std::vector<Hash> lv = w.m.leaves();
    Bytes img = image_of(w.m);
    signal(SIGXFSZ, SIG_IGN);
    rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    std::vector<uint64_t> limits = {0, 4, 8, 9, 40, img.size() - 1, img.size(), img.size() + 100};
    for (int i = 0; i < 6; ++i) limits.push_back(c.rng.below(img.size() + 1));
    LOG(c, "file size limits " + list(limits));
    for (uint64_t l : limits) {
        bool ok, ok2, again = true, retry = c.rng.chance(1, 2);
        uint64_t leaves;
        std::vector<Hash> roots;
        {
            RamForest f(t);
            f.Add(w.flag(lv, 0));
            lim = old;
            lim.rlim_cur = l;
            setrlimit(RLIMIT_FSIZE, &lim);
            ok = f.Commit();
            ok2 = f.Commit();
            setrlimit(RLIMIT_FSIZE, &old);
            leaves = f.NumLeaves();
            f.Roots(roots);
            if (ok || ok2) check_image(c, t, w.m, ok2 ? "after a second commit under a file size limit" : "after a commit under a file size limit");
            CHK(c, l >= img.size() || !ok, "commit-lies", "Commit reports success with room for %llu of %zu bytes", (unsigned long long)l, img.size());
            CHK(c, l < img.size() || ok, "commit-fails", "Commit fails although there is room for %llu of %zu bytes", (unsigned long long)l, img.size());
            if (retry) again = f.Commit();
        }
        CHK(c, leaves == w.m.n && roots == w.m.roots(), "commit-changes", "a failed commit changed the forest");
        if (!ok || !ok2) { // there is room again: the next attempt, or else the destructor, saves everything
            if (retry) CHK(c, again, "commit-retry", "Commit fails again after there is room (%llu of %zu bytes before)", (unsigned long long)l, img.size());
            check_image(c, t, w.m, retry ? "after the second attempt" : "after the destruction that follows a failed commit");
            c.hit(retry ? "failed-commits:retried" : "failed-commits:destroyed");
        }
        c.hit(ok ? "limited-commits:succeeded" : "limited-commits:failed");
        remove(t.c_str());
    }
    signal(SIGXFSZ, SIG_DFL);
    // a device which is full, a directory which does not exist
    if (img.size() > 8) {
        RamForest f("/dev/full");
        f.Add(w.flag(lv, 0));
        CHK(c, !f.Commit(), "commit-lies", "Commit to a full device reports success (%zu bytes)", img.size());
        std::vector<Hash> r;
        f.Roots(r);
        CHK(c, r == w.m.roots(), "commit-changes", "a failed commit changed the forest");
        c.hit("full-device");
    }
    {
        RamForest f(dir + "/no/such/dir/forest.dat");
        f.Add(w.flag(lv, 0));
        CHK(c, !f.Commit(), "commit-lies", "Commit to a path that cannot exist reports success");
        c.hit("impossible-path");
    }
}
// a process which commits and is killed before it can do anything else
static void kill_after_commit(Ctx& c, World& w, const std::string& dir)
{
    std::string t = dir + "/killed.dat";
    remove(t.c_str());
    std::vector<Hash> lv = w.m.leaves();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw mdl::Bug{"fork"};
    if (pid == 0) {
        auto* f = new RamForest(t);
        f->Add(w.flag(lv, 0));
        bool ok = f->Commit();
        if (ok) { // further work which is never saved
            std::vector<uint64_t> all;
            for (uint64_t i = 0; i < lv.size(); i += 2) all.push_back(i);
            UndoBatch u;
            f->Modify(u, {}, all);
        }
        if (ok) kill(getpid(), SIGKILL);
        _exit(1);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    CHK(c, WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL, "commit-fails", "Commit fails on a fresh file (status %d)", st);
    auto f = std::make_unique<RamForest>(t);
    check_forest(c, *f, w.m, true);
    check_positions(c, *f, w.m, 8);
    c.hit("killed-after-commit");
    f.reset();
    remove(t.c_str());
}
// one file committed again and again, now and then by closing it
static void c09_marathon(Ctx& c)
{
    World w(c);
    std::string file = c.scratch + "/often.dat";
    remove(file.c_str());
    w.f = std::make_unique<RamForest>(file);
    w.marathon(c.thorough ? 140000 : 66000, [](const World::Step&) {}, [&](uint64_t s, bool look) {
        if (c.rng.chance(1, 4)) CHK(c, w.f->Commit(), "commit-fails", "saving fails after %llu modifications", (unsigned long long)s);
        if (!look) return;
        CHK(c, w.f->Commit(), "commit-fails", "saving fails after %llu modifications", (unsigned long long)s);
        check_image(c, file, w.m, "after a commit");
        if (s % 3) return;
        w.f.reset();
        w.f = std::make_unique<RamForest>(file);
        full_check(c, w);
    });
    w.f.reset();
    check_image(c, file, w.m, "after closing");
    remove(file.c_str());
}
WORKLOAD(C09)
{
    uint64_t k = c.case_no, big = c.big(2, 6);
    if (k < big) return c09_big(c, k + c.seed);
    k -= big;
    if (c.marathon(k)) return c09_marathon(c);
    World w(c);
    static const uint64_t caps[] = {3, 6, 12, 30, 70, 200, 900};
    w.cap = caps[c.rng.below(c.rng.chance(1, 8) ? 7 : 6)];
    w.gen.style = (int)c.rng.below(3);
    std::string dir = c.scratch, file = dir + "/forest.dat", copy = dir + "/copy.dat";
    remove(file.c_str());
    w.f = std::make_unique<RamForest>(file);
    check_image(c, file, w.m, "after creation");
    std::vector<Past> past;
    int n = std::max(4, (int)c.rng.range(6, 26) * c.weight / 100);
    for (int i = 0; i < n; ++i) {
        if (!past.empty() && c.rng.chance(1, 5)) {
            LOG(c, std::string("undo"));
            UndoBatch u;
            CHK(c, u.Unserialize(past.back().undo) && w.f->Undo(u), "undo-refused", "undo fails");
            w.m = past.back().m;
            past.pop_back();
            std::set<Hash> lv;
            for (auto& h : w.m.leaves()) lv.insert(h);
            auto& g = w.gen.graveyard;
            g.erase(std::remove_if(g.begin(), g.end(), [&](const Hash& h) { return lv.count(h) != 0; }), g.end());
            c.hit("op:undo");
        } else {
            UndoBatch u;
            Past p;
            p.m = w.m;
            w.forest_apply(w.plan(), 1, &u);
            u.Serialize(p.undo);
            past.push_back(p);
        }
        switch (c.rng.below(6)) {
        case 0: case 1: // close and open again
            LOG(c, fmt("close and reopen at %llu leaves", (unsigned long long)w.m.n));
            w.f.reset();
            check_image(c, file, w.m, "after closing");
            w.f = std::make_unique<RamForest>(file);
            full_check(c, w);
            c.nontrivial = true;
            c.hit("op:reopen");
            break;
        case 2: { // commit; the file as it is now is what a kill would leave
            LOG(c, fmt("commit at %llu leaves", (unsigned long long)w.m.n));
            CHK(c, w.f->Commit(), "commit-fails", "saving fails");
            check_image(c, file, w.m, "after a commit");
            Bytes b;
            slurp(file, b);
            spit(copy, b.data(), b.size());
            {
                RamForest other(copy);
                check_forest(c, other, w.m, true);
                CHK(c, other == *w.f, "copy-differs", "a forest opened from the committed file differs from the running one");
            }
            full_check(c, w);
            c.nontrivial = true;
            c.hit("op:commit");
            break;
        }
        case 3: // open an image somebody else wrote
            if (c.rng.chance(1, 3)) {
                Bytes b = image_of(w.m);
                if (c.rng.chance(1, 3)) for (int q = (int)c.rng.below(200); q > 0; --q) b.push_back((uint8_t)c.rng.next()); // what an earlier, larger forest left behind
                spit(copy, b.data(), b.size());
                RamForest other(copy);
                check_forest(c, other, w.m, true);
                check_positions(c, other, w.m, 6);
                c.hit("op:open-foreign-image");
            }
            break;
        default: break;
        }
    }
    if (c.rng.chance(1, 3)) truncations(c, w, dir);
    if (c.rng.chance(1, 6)) write_failures(c, w, dir);
    if (c.rng.chance(1, 6)) kill_after_commit(c, w, dir);
    w.f.reset();
    check_image(c, file, w.m, "after closing");
    w.f = std::make_unique<RamForest>(file);
    full_check(c, w);
    w.f.reset();
    check_image(c, file, w.m, "after opening and closing");
    remove(file.c_str());
    remove(copy.c_str());
}

// ---------------------------------------------------------------- C10
namespace {
Bytes enc_proof(const std::vector<uint64_t>& t, const std::vector<Hash>& h)
{
    Bytes b;
    be(b, t.size(), 4);
    be(b, h.size(), 4);
    for (uint64_t x : t) be(b, x, 4);
    for (auto& x : h) b.insert(b.end(), x.begin(), x.end());
    return b;
}
Bytes enc_undo(uint64_t adds, const std::vector<uint64_t>& t, const std::vector<Hash>& h)
{
    Bytes b;
    be(b, adds, 4);
    be(b, t.size(), 4);
    for (uint64_t x : t) be(b, x, 4);
    for (auto& x : h) b.insert(b.end(), x.begin(), x.end());
    return b;
}
uint32_t rd(const Bytes& b, size_t o) { return (uint32_t)b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3]; }
size_t gen_len(Ctx& c)
{
    switch (c.rng.below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return c.rng.range(254, 258);
    case 4: return c.rng.chance(1, 12) ? c.rng.range(65534, 65538) : c.rng.below(100);
    case 5: return c.rng.chance(1, 12) ? c.rng.range(70000, 140000) : c.rng.below(1000);
    default: return c.rng.below(24);
    }
}
std::vector<uint64_t> gen_pos(Ctx& c, size_t n)
{
    std::vector<uint64_t> v;
    int k = (int)c.rng.below(4);
    for (size_t i = 0; i < n; ++i) v.push_back(k == 0 ? i : k == 1 ? (uint32_t)c.rng.next() : k == 2 ? c.rng.below(1000) : (1ULL << c.rng.below(32)) + c.rng.below(2) - 1);
    return v;
}
std::vector<Hash> gen_hashes(Ctx& c, size_t n)
{
    std::vector<Hash> v(n);
    for (auto& h : v) {
        uint64_t s = c.rng.next();
        if (s % 16 == 0) h.fill((uint8_t)(s >> 8));
        else for (int i = 0; i < 32; ++i) h[i] = (uint8_t)(Rng::mix(s));
    }
    return v;
}
template <class T> T stale(Ctx&);
template <> BatchProof stale(Ctx& c) { size_t most = c.rng.chance(1, 20) ? 700 : c.rng.chance(1, 100) ? 4000 : 5; return BatchProof(gen_pos(c, c.rng.below(most)), gen_hashes(c, c.rng.below(most))); }
template <> UndoBatch stale(Ctx& c) { size_t n = c.rng.below(c.rng.chance(1, 20) ? 700 : c.rng.chance(1, 100) ? 4000 : 5); return UndoBatch(c.rng.chance(1, 4) ? (uint32_t)c.rng.next() : c.rng.below(9), gen_pos(c, n), gen_hashes(c, n)); }
bool well_formed(const BatchProof*, const Bytes& b) { return b.size() >= 8 && b.size() == 8 + 4 * (uint64_t)rd(b, 0) + 32 * (uint64_t)rd(b, 4); }
bool well_formed(const UndoBatch*, const Bytes& b) { return b.size() >= 8 && b.size() == 8 + 36 * (uint64_t)rd(b, 4); }
Bytes reser(const BatchProof& p) { Bytes b{1, 2, 3}; p.Serialize(b); return b; }
Bytes reser(const UndoBatch& p) { Bytes b{1, 2, 3}; p.Serialize(b); return b; }
// any byte string is either well formed, and reads to exactly what it says, or refused
bool same(const BatchProof& a, const BatchProof& b) { return a.GetTargets() == b.GetTargets() && a.GetSortedTargets() == b.GetSortedTargets() && a.GetHashes() == b.GetHashes(); }
bool same(const UndoBatch& a, const UndoBatch& b) { return a.GetNumAdds() == b.GetNumAdds() && a.GetDeletedPositions() == b.GetDeletedPositions() && a.GetDeletedHashes() == b.GetDeletedHashes(); }
template <class T> void decode(Ctx& c, const Bytes& b, const char* what)
{
    T o = c.rng.chance(1, 2) ? T() : stale<T>(c), was = o;
    AllocStat a0 = alloc_stat();
    alloc_reset_peak();
    bool ok = o.Unserialize(b);
    AllocStat a1 = alloc_stat();
    bool want = well_formed((T*)nullptr, b);
    CHK(c, ok == want, "malformed", "%s of %zu bytes (counts %u, %u) is %s", what, b.size(), b.size() >= 4 ? rd(b, 0) : 0, b.size() >= 8 ? rd(b, 4) : 0, ok ? "accepted although it is malformed" : "refused although it is well formed");
    if (a0.on) CHK(c, a1.total_bytes - a0.total_bytes <= 64 * (uint64_t)b.size() + 4096 && a1.largest <= 16 * (uint64_t)b.size() + 4096, "decode-memory", "reading %s of %zu bytes allocates %llu bytes", what, b.size(), (unsigned long long)(a1.total_bytes - a0.total_bytes));
    if (ok) CHK(c, reser(o) == b, "not-canonical", "%s of %zu bytes reads and writes back differently", what, b.size());
    else { // the object is what it was and can still be used
        CHK(c, same(o, was), "refusal-changes", "refusing %s of %zu bytes changes the object", what, b.size());
        Bytes good = reser(stale<T>(c));
        CHK(c, o.Unserialize(good) && reser(o) == good, "reuse-after-refusal", "after a refused %s an object does not read a good one", what);
    }
    c.hit(ok ? "decoded:accepted" : "decoded:refused");
    c.state(digest(std::vector<uint64_t>(b.begin(), b.begin() + std::min<size_t>(b.size(), 64)), b.size() * 2 + ok));
}
template <class T> void hostile(Ctx& c, Bytes b, const char* what)
{
    if (b.size() <= 300) for (size_t l = 0; l < b.size(); ++l) decode<T>(c, Bytes(b.begin(), b.begin() + l), what);
    for (int i = 0; i < 12; ++i) {
        Bytes d = b;
        switch (c.rng.below(8)) {
        case 0: d.resize(d.size() + 1 + c.rng.below(40)); break;
        case 1: d[c.rng.below(8)] ^= 1 << c.rng.below(8); break;
        case 2: { // counts whose sizes wrap around
            uint32_t v = (uint32_t)c.rng.next();
            switch (c.rng.below(5)) { case 0: v = 0x40000000u * (uint32_t)c.rng.below(4) + rd(d, 0); break; case 1: v = 0x08000000u * (uint32_t)c.rng.below(32) + rd(d, 4); break; case 2: v = 0xffffffff; break; case 3: v = 0x80000000u; }
            size_t o = 4 * c.rng.below(2);
            for (int k = 0; k < 4; ++k) d[o + k] = (uint8_t)(v >> (24 - 8 * k));
            break;
        }
        case 3: { // trade targets against hashes
            uint32_t t = rd(d, 0), h = rd(d, 4);
            if (h == 0) break;
            h -= 1; t += 8;
            for (int k = 0; k < 4; ++k) { d[k] = (uint8_t)(t >> (24 - 8 * k)); d[4 + k] = (uint8_t)(h >> (24 - 8 * k)); }
            break;
        }
        case 4: d.resize(c.rng.below(d.size() + 1)); break;
        case 5: { d.assign(c.rng.below(200), 0); for (auto& x : d) x = c.rng.chance(1, 2) ? 0 : (uint8_t)c.rng.next(); break; }
        case 6: { // 36 * count mod 2^32 equal to the right size
            uint32_t n = rd(d, 4), v = n + 0x40000000u * (1 + (uint32_t)c.rng.below(3));
            for (int k = 0; k < 4; ++k) d[4 + k] = (uint8_t)(v >> (24 - 8 * k));
            break;
        }
        default: if (d.size() > 8) d[8 + c.rng.below(d.size() - 8)] ^= 1 << c.rng.below(8);
        }
        decode<T>(c, d, what);
    }
    // sizes which only look right in 32 bit arithmetic
    for (uint64_t t = 0; t < 3; ++t) {
        Bytes d;
        be(d, t == 0 ? 0x40000000u : t == 1 ? 0x80000000u : 0, 4);
        be(d, t == 2 ? 0x08000000u : t == 0 ? 0x40000000u : 0x10000000u, 4);
        decode<T>(c, d, what);
    }
}
// encodings of more than 2 GiB: the objects are judged in place, so that one copy of the data suffices
struct Pattern {
    uint64_t x = 42;
    void operator()(uint8_t* p) { uint64_t v[4] = {x, x * 0x9e3779b97f4a7c15ULL, ~x, x << 20}; std::memcpy(p, v, 32); ++x; }
    bool matches(const uint8_t* p) { uint8_t w[32]; (*this)(w); return !std::memcmp(p, w, 32); }
};
void put32(uint8_t* p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
template <class T> const std::vector<Hash>& hashes_of(const T&);
template <> const std::vector<Hash>& hashes_of(const BatchProof& p) { return p.GetHashes(); }
template <> const std::vector<Hash>& hashes_of(const UndoBatch& p) { return p.GetDeletedHashes(); }
const std::vector<uint64_t>& positions_of(const BatchProof& p) { return p.GetTargets(); }
const std::vector<uint64_t>& positions_of(const UndoBatch& p) { return p.GetDeletedPositions(); }
template <class T> void huge(Ctx& c, uint32_t first, uint32_t npos, uint32_t nhash, const char* what)
{
    LOG(c, fmt("%s with %u positions and %u hashes", what, npos, nhash));
    auto fill = [&](Bytes& b) {
        put32(&b[0], first);
        put32(&b[4], std::is_same<T, UndoBatch>::value ? npos : nhash);
        for (uint32_t i = 0; i < npos; ++i) put32(&b[8 + 4ull * i], i * 7);
        Pattern g;
        for (uint64_t i = 0; i < nhash; ++i) g(&b[8 + 4ull * npos + 32 * i]);
    };
    try {
        T o;
        {
            Bytes b(8 + 4ull * npos + 32ull * nhash);
            fill(b);
            CHK(c, o.Unserialize(b), "huge-roundtrip", "%s of %zu bytes is refused", what, b.size());
        }
        bool same = positions_of(o).size() == npos && hashes_of(o).size() == nhash;
        for (uint32_t i = 0; same && i < npos; ++i) same = positions_of(o)[i] == (uint32_t)(i * 7);
        Pattern g;
        for (uint32_t i = 0; same && i < nhash; ++i) same = g.matches(hashes_of(o)[i].data());
        CHK(c, same, "huge-roundtrip", "%s of more than 2 GiB reads differently", what);
        Bytes b;
        o.Serialize(b);
        CHK(c, b.size() == 8 + 4ull * npos + 32ull * nhash && rd(b, 0) == first, "huge-roundtrip", "%s of more than 2 GiB is written with %zu bytes", what, b.size());
        Pattern w;
        for (uint64_t i = 0; same && i < nhash; ++i) same = w.matches(&b[8 + 4ull * npos + 32 * i]);
        CHK(c, same, "huge-roundtrip", "%s of more than 2 GiB is written differently", what);
        c.hit("huge:judged");
    } catch (const std::bad_alloc&) {
        c.hit("huge:no-memory"); // this build needs more than this run may have: not judged
    }
}
} // namespace
WORKLOAD(C10)
{
    if (c.heavy >= 1000 && c.case_no < 2) {
        const uint32_t n = (1u << 31) / 36 + 100;
        if (c.case_no == 0) huge<BatchProof>(c, 5, 5, (1u << 26) + 3, "a proof");
        else huge<UndoBatch>(c, 12345678, n, n, "undo data");
        c.mixin(c.case_no);
        c.nontrivial = true;
        return;
    }
    // proofs
    {
        size_t nt = gen_len(c), nh = gen_len(c);
        std::vector<uint64_t> t = gen_pos(c, nt), st(t);
        std::vector<Hash> h = gen_hashes(c, nh);
        std::sort(st.begin(), st.end());
        LOG(c, fmt("proof with %zu targets and %zu hashes", nt, nh));
        BatchProof p(t, h), q = c.rng.chance(1, 2) ? BatchProof() : stale<BatchProof>(c);
        Bytes want = enc_proof(t, h), got = c.rng.chance(1, 2) ? Bytes() : Bytes(c.rng.below(c.rng.chance(1, 4) ? 60000 : 3000), 0xaa);
        p.Serialize(got);
        CHK(c, got == want, "proof-layout", "a proof with %zu targets and %zu hashes is not written as documented", nt, nh);
        CHK(c, q.Unserialize(got), "proof-roundtrip", "a proof with %zu targets and %zu hashes is not read back", nt, nh);
        CHK(c, q.GetTargets() == t && q.GetHashes() == h && q.GetSortedTargets() == st, "proof-roundtrip", "a proof with %zu targets and %zu hashes reads back differently", nt, nh);
        CHK(c, q == p && p == q, "proof-equality", "a proof and its copy compare unequal");
        if (nt) { auto t2 = t; t2[c.rng.below(nt)] ^= 1u << c.rng.below(32); BatchProof o(t2, h); CHK(c, !(o == p) && !(p == o), "proof-equality", "proofs with different targets compare equal"); }
        if (nh) { auto h2 = h; h2[c.rng.below(nh)][c.rng.below(32)] ^= 1 << c.rng.below(8); BatchProof o(t, h2); CHK(c, !(o == p) && !(p == o), "proof-equality", "proofs with different hashes compare equal"); }
        if (nt > 1 && t.front() != t.back()) { auto t2 = t; std::swap(t2.front(), t2.back()); BatchProof o(t2, h); CHK(c, !(o == p) && !(p == o), "proof-equality", "proofs with targets in different order compare equal"); }
        if (nh > 1 && h.front() != h.back()) { auto h2 = h; std::swap(h2.front(), h2.back()); BatchProof o(t, h2); CHK(c, !(o == p) && !(p == o), "proof-equality", "proofs with hashes in different order compare equal"); }
        { auto h2 = h; h2.push_back(Hash{}); BatchProof o(t, h2); CHK(c, !(o == p) && !(p == o), "proof-equality", "proofs with different numbers of hashes compare equal"); }
        { auto t2 = t; t2.push_back(0); BatchProof o(t2, h); CHK(c, !(o == p) && !(p == o), "proof-equality", "proofs with different numbers of targets compare equal"); }
        if (want.size() < 20000 || (want.size() < 500000 && c.rng.chance(1, 10))) hostile<BatchProof>(c, want, "a proof");
        BatchProof z = p;
        z.SetNull();
        CHK(c, z.GetTargets().empty() && z.GetSortedTargets().empty() && z.GetHashes().empty(), "proof-null", "a cleared proof is not empty");
        c.mixin(digest(t, nh));
        c.state(digest(t, nh));
    }
    // undo data
    {
        size_t n = gen_len(c);
        uint64_t adds = c.rng.chance(1, 3) ? (uint32_t)c.rng.next() : c.rng.below(1000);
        std::vector<uint64_t> t = gen_pos(c, n);
        std::vector<Hash> h = gen_hashes(c, n);
        LOG(c, fmt("undo data with %llu additions and %zu deletions", (unsigned long long)adds, n));
        UndoBatch p(adds, t, h), q = c.rng.chance(1, 2) ? UndoBatch() : stale<UndoBatch>(c);
        Bytes want = enc_undo(adds, t, h), got = c.rng.chance(1, 2) ? Bytes() : Bytes(c.rng.below(c.rng.chance(1, 4) ? 60000 : 3000), 0xaa);
        p.Serialize(got);
        CHK(c, got == want, "undo-layout", "undo data with %zu deletions are not written as documented", n);
        CHK(c, q.Unserialize(got), "undo-roundtrip", "undo data with %zu deletions are not read back", n);
        CHK(c, q.GetNumAdds() == adds && q.GetDeletedPositions() == t && q.GetDeletedHashes() == h, "undo-roundtrip", "undo data with %zu deletions read back differently", n);
        CHK(c, q == p && p == q, "undo-equality", "undo data and their copy compare unequal");
        { UndoBatch o(adds ^ 1, t, h); CHK(c, !(o == p) && !(p == o), "undo-equality", "undo data with different numbers of additions compare equal"); }
        if (n) {
            auto t2 = t; t2[c.rng.below(n)] ^= 1u << c.rng.below(32);
            UndoBatch o(adds, t2, h);
            CHK(c, !(o == p) && !(p == o), "undo-equality", "undo data with different positions compare equal");
            auto h2 = h; h2[c.rng.below(n)][c.rng.below(32)] ^= 1 << c.rng.below(8);
            UndoBatch o2(adds, t, h2);
            if (t.front() != t.back()) { auto t3 = t; std::swap(t3.front(), t3.back()); UndoBatch o3(adds, t3, h); CHK(c, !(o3 == p) && !(p == o3), "undo-equality", "undo data with positions in different order compare equal"); }
            if (h.front() != h.back()) { auto h3 = h; std::swap(h3.front(), h3.back()); UndoBatch o3(adds, t, h3); CHK(c, !(o3 == p) && !(p == o3), "undo-equality", "undo data with hashes in different order compare equal"); }
            CHK(c, !(o2 == p) && !(p == o2), "undo-equality", "undo data with different hashes compare equal");
        }
        if (want.size() < 20000 || (want.size() < 500000 && c.rng.chance(1, 10))) hostile<UndoBatch>(c, want, "undo data");
        c.mixin(digest(t, adds));
    }
    // the shortest encodings
    decode<BatchProof>(c, Bytes(8, 0), "an empty proof");
    decode<UndoBatch>(c, Bytes(8, 0), "empty undo data");
    // what the forest itself produces
    if (c.rng.chance(1, 4)) {
        World w(c);
        w.cap = 40;
        w.f = std::make_unique<RamForest>(0);
        for (int i = 0; i < 4; ++i) {
            auto t = gen_targets(c.rng, w.m.n);
            BatchProof p = w.prove(t);
            Bytes b = reser(p);
            CHK(c, b == enc_proof(p.GetTargets(), w.m.proof_hashes(t)), "proof-layout", "a proof of the forest is not written as documented");
            UndoBatch u;
            World::Step st = w.plan();
            mdl::Forest before = w.m;
            w.forest_apply(st, 1, &u);
            CHK(c, u.GetNumAdds() == st.adds.size() && u.GetDeletedPositions() == st.targets && u.GetDeletedHashes().size() == st.targets.size(), "undo-content", "undo data of the forest do not describe the modification");
            std::multiset<Hash> a(u.GetDeletedHashes().begin(), u.GetDeletedHashes().end()), bb;
            for (uint64_t x : st.targets) bb.insert(before.leaf_at(x));
            CHK(c, a == bb, "undo-content", "undo data of the forest do not hold the deleted leaves");
        }
    }
    c.nontrivial = true;
}

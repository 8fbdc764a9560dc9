// A world = one reference model, one real forest and any number of real pollards
// driven through the public API. Helpers generate workloads and judge results.
#pragma once
#include "core.h"
#include "model.h"
#include "include/utreexo.h"

using utreexo::BatchProof;
using utreexo::Hash;
using utreexo::Leaf;
using utreexo::Pollard;
using utreexo::RamForest;
using utreexo::UndoBatch;

// ---------- workload generation ----------
struct LeafGen {
    uint64_t next_id = 0;
    int style = 0; // 0 digests, 1 counters as in the project's tests, 2 adversarial (shared prefixes/suffixes, extremes)
    std::vector<Hash> graveyard; // deleted leaves which may come back
    std::set<Hash> special_used;
    Hash fresh(Rng& r);
};
std::vector<uint64_t> gen_targets(Rng& r, uint64_t n);
std::vector<uint64_t> gen_sparse(Rng& r, uint64_t n, int max); // sorted, unique leaf positions, clustered in interesting ways
uint64_t gen_count(Rng& r, uint64_t n, uint64_t cap);

inline std::vector<Hash> hashes_at(const mdl::Forest& m, const std::vector<uint64_t>& t)
{
    std::vector<Hash> v;
    v.reserve(t.size());
    for (uint64_t x : t) v.push_back(m.leaf_at(x));
    return v;
}
uint64_t digest(const std::vector<uint64_t>& v, uint64_t salt);
uint64_t model_digest(const mdl::Forest& m);

// is sub a subsequence of full
bool subsequence(const std::vector<Hash>& sub, const std::vector<Hash>& full);

// ---------- forest oracles ----------
void check_forest(Ctx& c, const utreexo::RamForest& f, const mdl::Forest& m, bool all_leaves);
void check_roots(Ctx& c, const utreexo::Accumulator& a, const mdl::Forest& m, const char* who);
// every leaf (or a sample) is found at its position with the canonical proof
void check_positions(Ctx& c, const utreexo::RamForest& f, const mdl::Forest& m, size_t sample);

// ---------- pollards ----------
struct Slot {
    std::unique_ptr<Pollard> p;
    std::set<Hash> remembered; // what the pollard must have cached
    int remember_den = 0;      // probability (of 8) that an added leaf is flagged
    bool lingering = false;    // verified leaves not yet removed: computed nodes may linger
    std::string name;
};

struct World {
    Ctx& c;
    mdl::Forest m;
    std::unique_ptr<RamForest> f;
    std::vector<Slot> slots;
    LeafGen gen;
    uint64_t cap = 64;   // soft bound on the number of leaves
    struct Step { std::vector<Hash> adds; std::vector<uint64_t> targets; };
    explicit World(Ctx& ctx) : c(ctx) {}
    // choose the scale of a random history: usually small, sometimes thousands of leaves, sometimes very long
    void setup();
    // a history of forests of 65 000 leaves and more; each step is given with its honest proof to
    // pollards (which applies it to the pollards), then applied to the forest, then after is called
    void big_history(uint64_t which, int nsteps, const std::function<void(const Step&, const BatchProof&)>& pollards, const std::function<void()>& after);

    // more modifications of a tiny forest than a 16 bit counter of anything can hold; after(step, look closely)
    void marathon(uint64_t nsteps, const std::function<void(const Step&)>& pollards, const std::function<void(uint64_t, bool)>& after);

    // a sparse history: an accumulator of up to 2^61 leaves of which only a few are known. There is no real forest,
    // only pollards made from the roots of the model; proofs come from the model
    bool sparse = false;
    void make_sparse();
    std::vector<uint64_t> known() const;    // positions of all leaves known to the model
    std::vector<uint64_t> some_targets();   // any leaves whose hash is known, possibly none
    uint64_t a_leaf();                      // one of them (there must be one)
    void sparse_history(int nsteps, const std::function<void(const Step&, const BatchProof&)>& pollards, const std::function<void()>& after);

    std::vector<Hash> gen_adds();
    Step plan();   // a random valid modification of the current state; may bring deleted leaves back
    // execute on the real forest and on the model. mode: 0 base, 1 with undo data, 2 removal and
    // addition as two modifications, 3 additions one by one, -1 choose
    void forest_apply(const Step& st, int mode, UndoBatch* undo = nullptr);
    std::vector<Leaf> flag(const std::vector<Hash>& adds, int den8);
    // all pollards: verify the proof of the targets (fully or partially, sometimes serialized) and apply
    void pollards_apply(const Step& st, const BatchProof& proof, bool always_verify = false);
    void check_slot(const Slot& s);
    // how many more leaves make the number of leaves a power of two, a multiple of a large one, or one more or less, if that takes at most so many
    uint64_t rounding(uint64_t n, uint64_t at_most);
    // a size for a large case, reduced for slow builds but still a power of two (or next to one) if it was
    uint64_t scaled(uint64_t n) const;
    void grow(uint64_t n); // fill up with n fresh leaves in one go
    Slot& add_slot(const std::string& name, int remember_den);
    void restore_slot(Slot& s); // rebuild from the model's roots
    // Prove with the real forest in a random request order and give the proof in sorted form
    BatchProof prove(const std::vector<uint64_t>& targets);
    // a proof for targets as a wallet may send it: some of the hashes the pollard must have are left out
    BatchProof partial(const Slot& s, const std::vector<uint64_t>& targets, bool omit_all);
    // verify on the slot, must be accepted
    void must_verify(Slot& s, const BatchProof& p, const std::vector<uint64_t>& targets, const char* what);
    void modify_slot(Slot& s, const std::vector<Leaf>& adds, const std::vector<uint64_t>& targets);
    std::vector<uint64_t> remembered_positions(const Slot& s) const;
    // positions (row, idx) a pollard needs for its cached leaves
    std::set<mdl::Key> minimal_nodes(const Slot& s, bool with_paths) const;
};

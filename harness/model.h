#include <cstring>
// Executable reference model of a Utreexo accumulator: a sequence of perfect
// Merkle trees (tallest first), persistent (snapshots are free), sparse-capable
// (a subtree may be known only by its hash). Independent of /repo.
//
// Deletion is specified row by row on the trees themselves, with no position
// encoding: holes that are siblings become one hole on the next row; the other
// holes of a row are taken in pairs, the sibling of the second filling the
// first; a hole left over takes the row's root if there is one, otherwise its
// sibling becomes the row's root and its parent a hole.
#pragma once
#include "refsha.h"
#include <algorithm>
#include <cassert>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <vector>
namespace mdl {
using ref::Hash;
// a mistake of the harness itself, never a verdict about the code under test
struct Bug { const char* what; };
struct Node;
using P = std::shared_ptr<const Node>;
struct Node {
    mutable Hash h;
    mutable bool known;
    P l, r;
    const Hash& hash() const
    {
        if (!known) {
            h = ref::node_hash(l->hash(), r->hash());
            known = true;
        }
        return h;
    }
};
inline P leaf(const Hash& h) { auto n = std::make_shared<Node>(); n->h = h; n->known = true; return n; }
inline P join(P a, P b) { auto n = std::make_shared<Node>(); n->known = false; n->l = std::move(a); n->r = std::move(b); return n; }

// ---- position encoding (from the published numbering: leaves first, then row by row) ----
inline int rows_of(uint64_t n) { int r = 0; if (n == 0) return 0; while (r < 63 && (1ULL << r) < n) ++r; if ((1ULL << r) < n) ++r; return r; }
inline uint64_t row_start(uint64_t n, int row)
{
    // 2^R + 2^(R-1) + ... (row terms)
    int R = rows_of(n);
    uint64_t s = 0;
    for (int i = 0; i < row; ++i) s += 1ULL << (R - i);
    return s;
}
inline uint64_t enc(uint64_t n, int row, uint64_t idx) { return row_start(n, row) + idx; }

struct Key { int row; uint64_t idx; bool operator<(const Key& o) const { return row != o.row ? row < o.row : idx < o.idx; } bool operator==(const Key& o) const { return row == o.row && idx == o.idx; } };

class Forest
{
public:
    uint64_t n = 0;
    P root[64]; // by height
    int max_swap_row = -1; // highest row moved by the last remove()
    uint64_t moved = 0;    // leaves below the nodes moved by the last remove(); saturates

    bool has_root(int r) const { return (n >> r) & 1; }
    uint64_t root_idx(int r) const { return (n >> r) - 1; }

    void add(const Hash& h)
    {
        P cur = leaf(h);
        int r = 0;
        while (has_root(r)) { cur = join(root[r], cur); root[r] = nullptr; ++r; }
        root[r] = cur;
        ++n;
    }
    // leaf-range start of the tree of height h
    uint64_t tree_start(int h) const { return h >= 63 ? 0 : (n >> (h + 1)) << (h + 1); }
    int tree_of_leaf(uint64_t leafpos) const
    {
        for (int h = 63; h >= 0; --h) if (has_root(h) && leafpos >= tree_start(h) && leafpos - tree_start(h) < (1ULL << h)) return h;
        return -1;
    }
    static P get_in(P t, int h, int row, uint64_t rel)
    {
        while (h > row && t) { --h; t = ((rel >> (h - row)) & 1) ? t->r : t->l; }
        return t;
    }
    static P put_in(const P& t, int h, int row, uint64_t rel, const P& v)
    {
        if (h == row) return v;
        if (!t || !t->l) throw Bug{"model: put below an unknown node"};
        --h;
        if ((rel >> (h - row)) & 1) return join(t->l, put_in(t->r, h, row, rel, v));
        return join(put_in(t->l, h, row, rel, v), t->r);
    }
    // node at (row, idx); nullptr if not known
    P get(int row, uint64_t idx) const
    {
        int h = tree_of_leaf(idx << row);
        if (h < row) return nullptr;
        return get_in(root[h], h, row, idx - (tree_start(h) >> row));
    }
    void put(int row, uint64_t idx, const P& v)
    {
        int h = tree_of_leaf(idx << row);
        root[h] = put_in(root[h], h, row, idx - (tree_start(h) >> row), v);
    }
    Hash leaf_at(uint64_t i) const { return get(0, i)->hash(); }
    std::vector<Hash> roots() const
    {
        std::vector<Hash> v;
        for (int h = 63; h >= 0; --h) if (has_root(h)) v.push_back(root[h]->hash());
        return v;
    }
    static void collect(const P& p, std::vector<Hash>& out) { if (p->l) { collect(p->l, out); collect(p->r, out); } else out.push_back(p->h); }
    std::vector<Hash> leaves() const
    {
        std::vector<Hash> v;
        for (int h = 63; h >= 0; --h) if (has_root(h)) collect(root[h], v);
        return v;
    }
    // every leaf that is known, from left to right
    template <class F> void each_leaf(F f) const
    {
        for (int h = 63; h >= 0; --h) if (has_root(h)) walk(root[h], h, tree_start(h), f);
    }
    template <class F> static void walk(const P& p, int h, uint64_t start, F& f)
    {
        if (h == 0) { f(start, p->h); return; }
        if (!p->l) return;
        walk(p->l, h - 1, start, f);
        walk(p->r, h - 1, start + (1ULL << (h - 1)), f);
    }
    bool leaf_is(uint64_t i, const Hash& h) const
    {
        P p = i < n ? get(0, i) : nullptr;
        return p && p->h == h;
    }
    // targets: sorted, unique, < n
    void remove(const std::vector<uint64_t>& targets)
    {
        max_swap_row = -1;
        moved = 0;
        if (targets.empty()) return;
        Forest out;
        out.n = n - targets.size();
        std::vector<uint64_t> holes(targets);
        for (int row = 0; row < 64; ++row) {
            P rt = has_root(row) ? get(row, root_idx(row)) : nullptr;
            bool root_here = has_root(row);
            if (root_here && !holes.empty() && holes.back() == root_idx(row)) { holes.pop_back(); root_here = false; rt = nullptr; }
            std::vector<uint64_t> next, lone;
            for (size_t i = 0; i < holes.size(); ++i) {
                if (i + 1 < holes.size() && (holes[i] ^ 1) == holes[i + 1]) { next.push_back(holes[i] >> 1); ++i; }
                else lone.push_back(holes[i]);
            }
            size_t i = 0;
            for (; i + 1 < lone.size(); i += 2) {
                P s = get(row, lone[i + 1] ^ 1);
                if (!s) throw Bug{"model: sparse remove of unknown node"};
                put(row, lone[i], s);
                next.push_back(lone[i + 1] >> 1);
                max_swap_row = row;
                moved = std::min(moved + (1ULL << std::min(row, 61)), 1ULL << 62);
            }
            P newroot = root_here ? rt : nullptr;
            if (i < lone.size()) {
                if (root_here) { put(row, lone[i], rt); newroot = nullptr; }
                else { newroot = get(row, lone[i] ^ 1); if (!newroot) throw Bug{"model: sparse"}; next.push_back(lone[i] >> 1); }
                max_swap_row = row;
                moved = std::min(moved + (1ULL << std::min(row, 61)), 1ULL << 62);
            }
            if (newroot) out.root[row] = newroot;
            if (((out.n >> row) & 1) != (newroot ? 1u : 0u)) throw Bug{"model: root/bit mismatch"};
            std::sort(next.begin(), next.end());
            holes.swap(next);
        }
        if (!holes.empty()) throw Bug{"model: holes left"};
        out.max_swap_row = max_swap_row;
        out.moved = moved;
        *this = out;
    }
    // canonical minimal proof for sorted targets: node keys, by row then left to right
    std::vector<Key> proof_keys(const std::vector<uint64_t>& targets, std::vector<Key>* computed = nullptr) const
    {
        std::vector<Key> out;
        std::vector<uint64_t> cur(targets);
        for (int row = 0; row < 64 && !cur.empty(); ++row) {
            if (computed) for (uint64_t c : cur) computed->push_back({row, c});
            if (has_root(row) && cur.back() == root_idx(row)) cur.pop_back();
            std::vector<uint64_t> next;
            for (size_t i = 0; i < cur.size(); ++i) {
                if (i + 1 < cur.size() && (cur[i] ^ 1) == cur[i + 1]) { next.push_back(cur[i] >> 1); ++i; continue; }
                out.push_back({row, cur[i] ^ 1});
                next.push_back(cur[i] >> 1);
            }
            cur.swap(next);
        }
        return out;
    }
    Hash hash_at(const Key& k) const { P p = get(k.row, k.idx); if (!p) throw Bug{"model: unknown hash"}; return p->hash(); }
    std::vector<Hash> proof_hashes(const std::vector<uint64_t>& targets) const
    {
        std::vector<Hash> v;
        for (const Key& k : proof_keys(targets)) v.push_back(hash_at(k));
        return v;
    }
    int tree_height_of(uint64_t leafpos) const { return tree_of_leaf(leafpos); }
    // nodes that authenticate a leaf: siblings on its path
    void path_siblings(uint64_t leafpos, std::set<Key>& out) const
    {
        int h = tree_of_leaf(leafpos);
        uint64_t idx = leafpos;
        for (int r = 0; r < h; ++r) { out.insert({r, idx ^ 1}); idx >>= 1; }
    }
};
} // namespace mdl

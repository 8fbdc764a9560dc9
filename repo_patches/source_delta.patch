From 46e2e1fad2c086600924ea434ae0cf54efc6f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 01/21] fix: keep remembered leaf pairs when rehashing a
 pollard

ReHash pruned the leaf node of a remembered leaf whose sibling was not
remembered. Later swaps and removals then could not update the position map
entry of that leaf, so Prove returned wrong positions or kept proving
deleted leaves.
---
 src/pollard.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..5365f63 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -731,6 +731,15 @@ void Pollard::Node::ReHash()
     }
 
     Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
+
+    // Keep both leaves if at least one of them is remembered (just like MergeRoot does).
+    // The hash of a remembered leaf is needed to keep its entry in the position map up to date.
+    bool has_leaf_children = ForestState(m_num_leaves).DetectRow(m_position) == 1;
+    if (has_leaf_children &&
+        (!m_sibling->m_nieces[0]->DeadEnd() || !m_sibling->m_nieces[1]->DeadEnd())) {
+        return;
+    }
+
     m_sibling->Prune();
 }
 
-- 
2.43.0


From b9aa28b4edc8445fe479bea20e0bb676a00f59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 02/21] fix: do not crash when removing cached leaves from a
 pollard

Nodes on the path to a cached leaf may be pruned when they can be computed
from what is cached below. SwapSubTrees and ReHash dereferenced these missing
nodes unless the leaf had been verified right before the removal.
---
 src/pollard.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 5365f63..0b8cf6e 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -204,6 +204,12 @@ Pollard::InternalSiblings Pollard::ReadSiblings(uint64_t pos, NodePtr<Accumulato
             return {nullptr, nullptr};
         }
 
+        if (record_path && !sibling->m_nieces[lr_sib]) {
+            // The node is not cached because its hash can be computed from what is cached below it.
+            // It has to exist for the swap and the rehash of the path, so we hook it in.
+            sibling->m_nieces[lr_sib] = Accumulator::MakeNodePtr<InternalNode>();
+        }
+
         node = sibling->m_nieces[lr_sib];
         sibling = sibling->m_nieces[lr];
 
-- 
2.43.0


From 177174c05b3504eecee13c173675b6ecd82642e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 03/21] fix: clear the sorted targets in
 BatchProof::Unserialize

Unserializing into a proof that already had targets left the old ones in the
sorted target list.
---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From f85e27886b79ad2e5a8b9958d29d8f4b4034022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 04/21] fix: 32 bit overflow in the size check of
 UndoBatch::Unserialize

The expected size was computed modulo 2^32, so a few bytes claiming 2^30
targets were accepted and read far out of bounds.
---
 src/batchproof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..e789242 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -169,7 +169,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
-- 
2.43.0


From 39223337e18c3c26897c27feb12558a495e1a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 05/21] fix: initialize the number of additions of a default
 UndoBatch

---
 include/batchproof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/batchproof.h b/include/batchproof.h
index 37d4791..7e8415f 100644
--- a/include/batchproof.h
+++ b/include/batchproof.h
@@ -57,7 +57,7 @@ public:
 class UndoBatch
 {
 private:
-    uint64_t m_num_additions;
+    uint64_t m_num_additions{0};
     std::vector<uint64_t> m_deleted_positions;
     std::vector<std::array<uint8_t, 32>> m_deleted_hashes;
 
-- 
2.43.0


From 8016772218b990c274ff1a74cbb83a77435d2ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 06/21] fix: ComparePositionMap dereferenced end() for missing
 leaves

A leaf that is missing from the other position map is a difference.
---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..f1b7fc8 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From 33dd56a820b217eba64cc42902435892f0e35fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 07/21] fix: out of bounds access in RamForest::Undo after a
 restore

A forest restored from disk only has the rows it needs at that size. Undoing a
modification that had lowered the number of rows accessed rows that are not
there.
---
 src/ram_forest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..7c8edf2 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -448,6 +448,12 @@ bool RamForest::Undo(const UndoBatch& undo)
         dirt.push_back(Accumulator::MakeNodePtr<RamForest::Node>(this, m_num_leaves, parent_pos));
     }
 
+    // A forest that was restored from disk might not have as many rows as it had
+    // before the modification.
+    if (m_data.size() <= prev_state.NumRows()) {
+        m_data.resize(prev_state.NumRows() + 1);
+    }
+
     for (uint8_t r = 1; r <= prev_state.NumRows(); ++r) {
         m_data[r].resize(m_num_leaves >> r);
         std::vector<NodePtr<RamForest::Node>> next_dirt;
-- 
2.43.0


From 8c121c67dca13105480296e27c81180594259df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 08/21] fix: clear the position map in Pollard::Prune

The positions of leaves that are not cached are not updated by modifications,
so the entries left behind went stale and Prove used them.
---
 src/pollard.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 0b8cf6e..2952b8c 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -358,6 +358,8 @@ void Pollard::Prune()
     for (NodePtr<Accumulator::Node>& root : m_roots) {
         INTERNAL_NODE(root)->Chop();
     }
+    // None of the leaves are cached anymore.
+    m_posmap.clear();
     assert(m_remember.use_count() == 1);
 }
 
-- 
2.43.0


From a58fb70877a0aa55b1222a1cab5c343ae13ce30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 09/21] fix: do not remember targets of proofs that fail to
 verify

VerifyProofTree marked targets as remembered before the proof was known to be
valid. The marks of targets that were already in the pollard survived the
recovery.
---
 src/pollard.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 2952b8c..0003934 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -607,8 +607,6 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
-
                 ++target_hash;
                 continue;
             }
@@ -709,6 +707,9 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     }
 
     // All targets are now remembered.
+    for (NodePtr<Node>& leaf : proof_tree) {
+        if (leaf->IsTargetOrAncestor()) leaf->m_sibling->m_nieces[0] = m_remember;
+    }
     for (int i = 0; i < target_hashes.size(); i++) {
         m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
     }
-- 
2.43.0


From 0392d56e476db951b1e5a4bebc6de93ded72ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 10/21] fix: do not consume proof hashes past the end of the
 proof

A cached node with an all zero hash matched the placeholder for a missing
proof hash, which moved the iterator past the end and failed the proof.
---
 src/pollard.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 0003934..3663fab 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -516,11 +516,9 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // Populate the proof hashses.
                 bool consume = true;
                 if (node->IsCached()) {
-                    Hash null_hash;
-                    null_hash.fill(0);
-                    const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    consume = proof_hash < proof.GetHashes().crend() &&
+                              node->m_node->m_hash == *proof_hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From 970491c93e18f8dfc943cfa6cb960b62db1fb69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 11/21] fix: RamForest::Commit reported success before the
 forest was saved

The data was still sitting in the stream buffer when Commit returned true, and
write errors were ignored.
---
 src/ram_forest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 7c8edf2..5687f82 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -181,7 +181,9 @@ bool RamForest::Commit()
         num_hashes >>= 1;
     }
 
-    return true;
+    // The forest is only saved if everything has reached the file.
+    m_file.flush();
+    return m_file.good();
 }
 
 std::optional<const Hash> RamForest::Read(ForestState state, uint64_t pos) const
-- 
2.43.0


From 15b8b53a00c7a71eb88b80fc3a7da7bc25ef3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 12/21] fix: do not restore a forest from an incomplete file

Short reads were ignored, so the number of leaves and the hashes of the
restored forest came from uninitialized memory.
---
 src/ram_forest.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 5687f82..c10f55e 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -105,7 +105,9 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
         // We can restore the forest from an existing file.
         m_file = std::fstream(file,
                               std::fstream::in | std::fstream::out | std::fstream::binary);
-        Restore();
+        if (!Restore()) {
+            throw std::runtime_error("RamForest::RamForest failed to restore the forest from file.");
+        }
     } else {
         m_num_leaves = 0;
         m_file = std::fstream(file,
@@ -129,7 +131,7 @@ bool RamForest::Restore()
     m_file.seekg(0);
 
     // restore number of leaves
-    m_file.read(reinterpret_cast<char*>(uint64_buf), 8);
+    if (!m_file.read(reinterpret_cast<char*>(uint64_buf), 8)) return false;
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
     ForestState state(m_num_leaves);
@@ -141,7 +143,7 @@ bool RamForest::Restore()
         pos = state.RowOffset(row);
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
-            m_file.read(reinterpret_cast<char*>(hash.data()), 32);
+            if (!m_file.read(reinterpret_cast<char*>(hash.data()), 32)) return false;
             m_data[row].push_back(hash);
 
             if (num_hashes == m_num_leaves) {
-- 
2.43.0


From aac0aa8322a4049ed3c9f52b7d71d7bd83a0a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 13/21] fix: undefined shift when restoring a file with an
 absurd leaf count

---
 src/ram_forest.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index c10f55e..c5b4564 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -134,13 +134,10 @@ bool RamForest::Restore()
     if (!m_file.read(reinterpret_cast<char*>(uint64_buf), 8)) return false;
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
-    ForestState state(m_num_leaves);
     // restore forest hashes
     uint64_t num_hashes = m_num_leaves;
     uint8_t row = 0;
-    uint64_t pos = 0;
     while (num_hashes > 0) {
-        pos = state.RowOffset(row);
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
             if (!m_file.read(reinterpret_cast<char*>(hash.data()), 32)) return false;
@@ -148,9 +145,8 @@ bool RamForest::Restore()
 
             if (num_hashes == m_num_leaves) {
                 // populate position map
-                m_posmap[hash] = pos;
+                m_posmap[hash] = i;
             }
-            ++pos;
         }
 
         m_data.push_back({});
-- 
2.43.0


From c5ecdc4a9bc3370c409ed2466e405a2c88c0c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 14/21] fix: encodings of 2 GiB and more overflowed the signed
 data offset

BatchProof and UndoBatch kept the offset into the bytes in an int. For a proof
of 2^26 hashes (2 GiB) Unserialize aborted in its final assertion, without
assertions the signed overflow is undefined behaviour and reads out of bounds.
---
 src/batchproof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index e789242..399d6a4 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -32,7 +32,7 @@ void BatchProof::Serialize(std::vector<uint8_t>& bytes) const
     // Proof hashes:           32 bytes each
     bytes.resize(4 + 4 + m_targets.size() * 4 + m_proof.size() * 32);
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_targets.size()));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_proof.size()));
@@ -56,7 +56,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     uint32_t num_targets = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_hashes = ReadBE32(bytes.data() + data_offset);
@@ -139,7 +139,7 @@ void UndoBatch::Serialize(std::vector<uint8_t>& bytes) const
     // del hashes: 32bytes * num dels
     bytes.resize(4 + 4 + 4 * m_deleted_positions.size() + 32 * m_deleted_hashes.size());
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_num_additions));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_deleted_positions.size()));
@@ -163,7 +163,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     m_num_additions = static_cast<uint64_t>(ReadBE32(bytes.data()));
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
-- 
2.43.0


From eaf1fa2c29a62a85934cc267ae7b105a2d09eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 15/21] fix: refused undo data left the object with the number
 of additions of the refused encoding

UndoBatch::Unserialize stored the number of additions before it checked the
size: decoding the 8 bytes 00000227 000000ff into an object returned false and
changed its number of additions to 551. BatchProof::Unserialize leaves the
object alone in that case.
---
 src/batchproof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 399d6a4..382fe45 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -164,7 +164,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     size_t data_offset = 0;
-    m_num_additions = static_cast<uint64_t>(ReadBE32(bytes.data()));
+    uint32_t num_additions = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
@@ -173,6 +173,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
+    m_num_additions = num_additions;
     m_deleted_positions.clear();
     m_deleted_hashes.clear();
     m_deleted_positions.reserve(num_targets);
-- 
2.43.0


From a0f8dea838bb216b0e78f2957a7408c575b078ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 16/21] fix: a file with a repeated leaf was restored and the
 next modification aborted

The position map of such a forest is smaller than the forest, so that Remove and
Add abort in their assertions (or leave deleted leaves behind with NDEBUG). A
file of two leaves of which the second is a copy of the first is an example.
---
 src/ram_forest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index c5b4564..d9e756a 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -154,6 +154,9 @@ bool RamForest::Restore()
         num_hashes >>= 1;
     }
 
+    // A forest does not hold the same leaf twice.
+    if (m_posmap.size() != m_num_leaves) return false;
+
     RestoreRoots();
 
     return true;
-- 
2.43.0


From df62a641f8513719bb9780e4deac84588cdbaffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 17/21] fix: undo data that can not belong to the forest was
 applied

RamForest::Undo used the positions and counts of the undo data unchecked:
positions that are not leaves of the previous forest made it swap out of the
bounds of its rows, more additions than leaves wrapped the leaf count around,
and hashes of leaves that are in the forest were only noticed after the forest
had been changed. For example undo data with 2 additions and the deleted
position 1 applied to a forest of 2 leaves.
---
 src/ram_forest.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index d9e756a..a2857d9 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -382,7 +382,22 @@ bool RamForest::Undo(const UndoBatch& undo)
 {
     if (m_data.size() == 0) return true;
 
+    // Undo data that does not describe a modification which led to this forest is refused.
+    if (undo.GetNumAdds() > m_num_leaves ||
+        undo.GetDeletedHashes().size() != undo.GetDeletedPositions().size()) {
+        return false;
+    }
+
     ForestState prev_state(m_num_leaves + undo.GetDeletedPositions().size() - undo.GetNumAdds());
+    if (!prev_state.CheckTargetsSanity(undo.GetDeletedPositions())) return false;
+
+    // The deleted leaves can not be among those that are left after the additions are undone.
+    std::unordered_set<Hash, LeafHasher> deleted_hashes;
+    for (const Hash& hash : undo.GetDeletedHashes()) {
+        auto it = m_posmap.find(hash);
+        if (it != m_posmap.end() && it->second < m_num_leaves - undo.GetNumAdds()) return false;
+        if (!deleted_hashes.insert(hash).second) return false;
+    }
 
     auto undo_swaps = prev_state.UndoTransform(undo.GetDeletedPositions());
 
-- 
2.43.0


From 517d0c680256a5b9122c742ffedc194c086ce41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 18/21] fix: Reset turned a SHA-512/256 hasher into a SHA-512
 hasher

CSHA512(OUTPUT_SIZE_256), reset and then given "abc", made Finalize256 return
ddaf35a1..., the first half of the SHA-512 digest, instead of 53048e26...
---
 src/crypto/sha512.cpp | 10 +++++++---
 src/crypto/sha512.h   |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/crypto/sha512.cpp b/src/crypto/sha512.cpp
index aad76ca..ab06c65 100644
--- a/src/crypto/sha512.cpp
+++ b/src/crypto/sha512.cpp
@@ -163,12 +163,12 @@ namespace utreexo {
 
 ////// SHA-512
 
-CSHA512::CSHA512() : bytes(0)
+CSHA512::CSHA512() : bytes(0), output_size(OUTPUT_SIZE)
 {
     sha512::Initialize(s);
 }
 
-CSHA512::CSHA512(int output_size) : bytes(0)
+CSHA512::CSHA512(int output_size) : bytes(0), output_size(output_size)
 {
     switch (output_size) {
     case OUTPUT_SIZE_256:
@@ -238,7 +238,11 @@ void CSHA512::Finalize256(unsigned char hash[OUTPUT_SIZE])
 CSHA512& CSHA512::Reset()
 {
     bytes = 0;
-    sha512::Initialize(s);
+    if (output_size == OUTPUT_SIZE_256) {
+        sha512::Initialize256(s);
+    } else {
+        sha512::Initialize(s);
+    }
     return *this;
 }
 
diff --git a/src/crypto/sha512.h b/src/crypto/sha512.h
index 2c94116..a541df8 100644
--- a/src/crypto/sha512.h
+++ b/src/crypto/sha512.h
@@ -17,6 +17,7 @@ private:
     uint64_t s[8];
     unsigned char buf[128];
     uint64_t bytes;
+    int output_size;
 
 public:
     static constexpr size_t OUTPUT_SIZE = 64;
-- 
2.43.0


From 51f0f10d2eaed8c512e912520c18965f22406c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:55 +0000
Subject: [PATCH 19/21] fix: update cached positions of large moves without
 reading every leaf

When a subtree moves, the positions of the cached leaves below it are
updated. Pollard::ReadLeafRange read every position of the moved range for
that, although nearly none of them is cached. A pollard restored from the
roots of a forest with 2^31 + 2^30 leaves, that verifies the proof of leaf 0
and removes it, needs 2^30 reads per moved subtree, and does practically not
return at 2^41 + 2^40 leaves.

If the range has more positions than there are remembered leaves, go through
the remembered leaves instead.
---
 src/pollard.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 3663fab..80d0b6f 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -159,9 +159,18 @@ std::optional<const Hash> Pollard::Read(uint64_t pos) const
 
 std::vector<Hash> Pollard::ReadLeafRange(uint64_t pos, uint64_t range) const
 {
+    std::vector<Hash> hashes;
+    if (range > m_posmap.size()) {
+        // Most positions of a large range are not cached, so look for the
+        // remembered leaves in the range instead of reading every position.
+        for (const auto& [hash, leaf_pos] : m_posmap) {
+            if (leaf_pos >= pos && leaf_pos - pos < range) hashes.push_back(hash);
+        }
+        return hashes;
+    }
+
     // TODO: implement efficient way of reading these hashes from the range,
     // without trying to read every position.
-    std::vector<Hash> hashes;
     for (uint64_t i = pos; i < pos + range; ++i) {
         std::optional<const Hash> hash = Read(i);
         if (hash.has_value()) {
-- 
2.43.0


From c69581b41cd98d86cee6a06b94dd78aef30f13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:23 +0000
Subject: [PATCH 20/21] fix: a commit that failed can be tried again

The stream of a forest file kept the error of a failed write. With a full
disk Commit returns false, but after making room it returned false as well,
for ever, and the destructor did not try to save the forest at all, so that
the modifications were lost.
---
 src/ram_forest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index a2857d9..c30c203 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -118,7 +118,7 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
 
 RamForest::~RamForest()
 {
-    if (m_file.good()) {
+    if (m_file.is_open()) {
         Commit();
         m_file.flush();
         m_file.close();
@@ -165,6 +165,8 @@ bool RamForest::Restore()
 bool RamForest::Commit()
 {
     char uint64_buf[8];
+    // A previous commit may have failed.
+    m_file.clear();
     m_file.seekg(0);
 
     // commit number of leaves
-- 
2.43.0


From b152eec94bb92e8374e8f3f4e45b687e4f068014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:31 +0000
Subject: [PATCH 21/21] fix: refuse to remove leaves that a pollard does not
 know

---
 src/accumulator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index f1b7fc8..d55f014 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -195,6 +195,11 @@ bool Accumulator::Remove(const std::vector<uint64_t>& targets)
         return false;
     }
 
+    // Only leaves that are known can be removed. (A pollard does not hold every leaf.)
+    for (uint64_t target : targets) {
+        if (!Read(target)) return false;
+    }
+
     std::vector<std::vector<ForestState::Swap>> swaps = current_state.Transform(targets);
     // Store the nodes that have to be rehashed because their children changed.
     // These nodes are "dirty".
-- 
2.43.0


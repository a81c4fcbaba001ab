From 31a362281cb75943cc8077e50d6526a178b86fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 01/24] fix: InsertSplit never returns when the new boundary
 equals a neighbouring one

---
 include/diva.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index ff0087e..6218d2b 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -152,6 +152,16 @@ private:
         bool operator==(const InfiniteByteString& rhs) const {
             return length == rhs.length && memcmp(str, rhs.str, std::min(length, rhs.length)) == 0;
         }
+
+        // Equality as infinite strings, i.e., up to trailing zero bytes.
+        bool SameBits(const InfiniteByteString& rhs) const {
+            const uint32_t max_length = std::max(length, rhs.length);
+            for (uint32_t i = 0; i < max_length; i += sizeof(uint64_t)) {
+                if (WordAt(i) != rhs.WordAt(i))
+                    return false;
+            }
+            return true;
+        }
     };
 
     struct InfixStore {
@@ -845,6 +855,11 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         copied_key_len = (zero_pos - 1) / 8 + 1;
     }
     InfiniteByteString edited_key {copied_key_str, copied_key_len};
+    if (edited_key.SameBits(prev_key) || edited_key.SameBits(next_key)) {
+        // The new boundary key would coincide with an existing one
+        InsertSimple(key);
+        return;
+    }
     if (zero_pos != -1)
         extraction = ExtractPartialKey(edited_key, shared, ignore, implicit_size, edited_key.GetBit(shared));
 
-- 
2.43.0


From a354e227073fa8cbf46c82207547bdef2d5a0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 02/24] fix: ShrinkInfixSize loses the size grade of the store
 it rebuilds

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 6218d2b..52108b6 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2702,7 +2702,7 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t infix_count = store.GetElemCount();
     const uint32_t slot_count = scaled_sizes_[size_grade];
 
-    InfixStore new_store(slot_count, new_infix_size);
+    InfixStore new_store(slot_count, new_infix_size, size_grade);
 
     // Copy the occupieds and runends bitmaps
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
-- 
2.43.0


From efa0d6fd2205b11c0404d6e363e0aa0b9d8a5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 03/24] fix: ShrinkInfixSize clears the last runends byte when
 the bitmaps end on a byte

---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 52108b6..8845cde 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2708,7 +2708,8 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
     memcpy(new_store.ptr, store.ptr, (total_bitmap_size + 7) / 8);
     uint8_t *new_store_byte_ptr = reinterpret_cast<uint8_t *>(new_store.ptr);
-    new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
+    if (total_bitmap_size % 8 != 0)
+        new_store_byte_ptr[total_bitmap_size / 8] &= BITMASK(total_bitmap_size % 8);
 
     for (int32_t i = 0; i < slot_count; i++) {
         const uint64_t old_slot = GetSlot(store, i);
-- 
2.43.0


From 7711c886e4cfbac942458cd69bc62dc225202141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 04/24] fix: wormhole drops an address bit of leftmost leaves
 (leaves are 32-byte aligned)

---
 include/wormhole/wh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 36b2036..d893663 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -126,7 +126,7 @@ wormmeta_klen_load(const struct wormmeta * const meta)
   static inline struct wormleaf *
 wormmeta_lmost_load(const struct wormmeta * const meta)
 {
-  return u64_to_ptr(meta->l13.e3 & (~0x3flu));
+  return u64_to_ptr(meta->l13.e3 & (~0x3lu));
 }
 
   static inline u32
-- 
2.43.0


From dedc52880f6002d30ef9d0f0f3ce0aabb59d282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 05/24] fix: wormhole_int lookups ignore the unsorted entries
 of a leaf

---
 include/wormhole/wh_int.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 372131f..75e030e 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1436,8 +1436,12 @@ wormleaf_int_search_eq(const struct wormleaf_int * const leaf, const struct kref
     lo = cmp <= 0 ? lo : i;
     hi = cmp <= 0 ? i : hi;
   }
-  u32 res = (hi < leaf->nr_keys && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0) ? hi : WH_KPN;
-  return res;
+  // the key may also be among the entries that are yet to be sorted
+  for (u32 i = hi; i < leaf->nr_keys; i = (i < leaf->nr_sorted ? leaf->nr_sorted : i + 1)) {
+    if (compare_int_isp(search_key, key->len, leaf->kvs + i) == 0)
+      return i;
+  }
+  return WH_KPN;
 }
 
 
-- 
2.43.0


From 50a99c9dbd58b0680e92dee6e0acee1294303f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 06/24] fix: wormhole_int leaf merges count sorted entries
 twice

---
 include/wormhole/wh_int.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 75e030e..2dd06e1 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1865,12 +1865,10 @@ wormhole_split_leaf(struct wormhole_int * const map, struct wormleaf_int * const
 wormleaf_merge(struct wormleaf_int * const leaf1, struct wormleaf_int * const leaf2)
 {
   debug_assert((leaf1->nr_keys + leaf2->nr_keys) <= WH_KPN);
-  const bool leaf1_sorted = leaf1->nr_keys == leaf1->nr_sorted;
 
+  // insert_isp extends nr_sorted by itself
   for (u32 i = 0; i < leaf2->nr_keys; i++)
     wormleaf_int_insert_isp(leaf1, leaf2->kvs + i);
-  if (leaf1_sorted)
-    leaf1->nr_sorted += leaf2->nr_sorted;
   return true;
 }
 
-- 
2.43.0


From ce479b86fa8f8b99a1e791430cc337ab2a275916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 07/24] fix: Delete merges away a partial boundary key that
 does not cover the deleted key

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 8845cde..98c2928 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1552,7 +1552,7 @@ inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     const uint64_t deletee = ((extraction | 1ULL) - (prev_implicit << infix_size_));
 
-    if (infix_store.IsPartialKey()) {
+    if (infix_store.IsPartialKey() && prev_key.IsPrefixOf(key, infix_store.GetInvalidBits())) {
         const uint32_t longest_match_len = GetLongestMatchingInfixSize(infix_store, deletee);
         if (longest_match_len == 0 || 8 * prev_key.length - infix_store.GetInvalidBits() 
                                         > shared + ignore + implicit_size + longest_match_len - 1) {
-- 
2.43.0


From 43e6e675a7fb76241df6b7847d04786f85f02933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 08/24] fix: InsertSplit shifts infixes out of the 64-bit word

---
 include/diva.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 98c2928..6231a6f 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -890,7 +890,9 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
                                 | (next_key.BitsAt(shared + ignore + implicit_size, shamt_gt) << infix_size_);
     const uint32_t total_implicit_gt = ((next_extraction_gt >> infix_size_) - (extraction_gt >> infix_size_)) + 1;
 
-    if (zero_pos <= std::max(shared_lt, shared_gt)) {
+    if (zero_pos <= std::max(shared_lt, shared_gt)
+            || (split_pos > 0 && implicit_size + infix_size_ + shamt_lt > 64)
+            || (split_pos < infix_list_len && implicit_size + infix_size_ + shamt_gt > 64)) {
         InsertSimple(key);
         return;
     }
-- 
2.43.0


From a0e003dcea6395e10b7b0d025a03fd91e4c8528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 09/24] fix: DeleteMerge concatenates infix lists without
 keeping them sorted

---
 include/diva.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 6231a6f..af1b2dc 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1630,6 +1630,11 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     const uint64_t implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
     for (int32_t i = 0; i < total_elem_count; i++)
         infix_list[i] -= implicit << infix_size_;
+    // A short infix of the right store may start before infixes of the left one
+    std::sort(infix_list, infix_list + total_elem_count, [](uint64_t a, uint64_t b) {
+                    const uint64_t a_lb = a & (-a), b_lb = b & (-b);
+                    return a - a_lb < b - b_lb || (a - a_lb == b - b_lb && a_lb > b_lb);
+                });
 
 #ifdef DEBUG
     for (int32_t i = 1; i < total_elem_count; i++) {
-- 
2.43.0


From 837d469c75cea56bd23b422c00527f31d2bacb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 10/24] fix: repeated merges and splits blow up the infix lists
 exponentially

---
 include/diva.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index af1b2dc..c575ea1 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -93,6 +93,7 @@ private:
     static constexpr uint32_t scale_implicit_shift = 15;
     static constexpr uint32_t size_scalar_count = 500;
     static constexpr uint32_t size_scalar_shrink_grow_sep = 55; // vs. 55 for load_factor_alt_=0.95
+    static constexpr uint32_t max_split_expansion = 16 * infix_store_target_size;
 
     struct InfiniteByteString {
         const uint8_t *str;
@@ -902,17 +903,22 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
                                                                       implicit_size,
                                                                       shamt_lt,
                                                                       left_start, left_end);
-    uint64_t left_infix_list[left_list_len];
-    UpdateInfixList(infix_list, split_pos, shamt_lt,
-                    left_start, left_end,
-                    left_infix_list, left_list_len,
-                    left_exp);
-
     const auto [right_list_len, right_exp] = GetExpandedInfixListLength(infix_list + split_pos,
                                                                         infix_list_len - split_pos,
                                                                         implicit_size,
                                                                         shamt_gt,
                                                                         right_start, right_end);
+    if (left_list_len + right_list_len > infix_list_len + max_split_expansion) {
+        // Splitting would blow up the infix stores
+        InsertSimple(key);
+        return;
+    }
+
+    uint64_t left_infix_list[left_list_len];
+    UpdateInfixList(infix_list, split_pos, shamt_lt,
+                    left_start, left_end,
+                    left_infix_list, left_list_len,
+                    left_exp);
     uint64_t right_infix_list[right_list_len];
     UpdateInfixList(infix_list + split_pos, infix_list_len - split_pos, shamt_gt,
                     right_start, right_end,
-- 
2.43.0


From ace57b1ad9465eb0fbb8b8e1fe39e341faed23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 11/24] fix: false negatives for keys that a longer key extends
 when splitting

---
 include/diva.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index c575ea1..70e4d0a 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -244,6 +244,7 @@ private:
     wormref_int *better_tree_int_;
     std::mt19937 rng_;
     uint32_t rng_seed_;
+    uint32_t min_key_len_ = std::numeric_limits<uint32_t>::max();   // Length of the shortest key added so far
     const float load_factor_ = 0.95;
     const float load_factor_alt_ = 0.95;
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
@@ -453,6 +454,7 @@ inline void Diva<int_optimized>::Insert(std::string_view key) {
 template <bool int_optimized>
 inline void Diva<int_optimized>::Insert(const uint8_t *key, const uint32_t key_len) {
     const InfiniteByteString converted_key {key, static_cast<uint32_t>(key_len)};
+    min_key_len_ = std::min(min_key_len_, key_len);
     if (rng_() % infix_store_target_size == 0)
         InsertSplit(converted_key);
     else 
@@ -856,6 +858,12 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         copied_key_len = (zero_pos - 1) / 8 + 1;
     }
     InfiniteByteString edited_key {copied_key_str, copied_key_len};
+    if (zero_pos != -1 && edited_key.str[edited_key.length - 1] == 0 && min_key_len_ < edited_key.length) {
+        // A shorter key represented by the matching infix may precede the new
+        // boundary key
+        InsertSimple(key);
+        return;
+    }
     if (edited_key.SameBits(prev_key) || edited_key.SameBits(next_key)) {
         // The new boundary key would coincide with an existing one
         InsertSimple(key);
@@ -1308,6 +1316,7 @@ inline Diva<int_optimized>::Diva(char *deser_buf):
         better_tree_ = wh_ref(wh_);
     }
     SetupScaleFactors();
+    min_key_len_ = 0;   // The lengths of the original keys are unknown
 
     const uint32_t max_key_length = 20000;
     char key[max_key_length];
@@ -1754,6 +1763,7 @@ inline void Diva<int_optimized>::UpdateInfixListDelete(const uint32_t shared, co
 template <bool int_optimized>
 template <class t_itr>
 inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_itr end, const uint32_t key_len) {
+    min_key_len_ = std::min(min_key_len_, key_len);
     uint64_t infix_list[infix_store_target_size], int_opt_buf[3];
     t_itr last_key_it = begin, key_it = begin;
     InfiniteByteString left_key {}, right_key {};
@@ -1863,6 +1873,7 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     InfiniteByteString right_key {};
     int32_t cnt = 1;
     uint32_t max_len = sv.size();
+    min_key_len_ = std::min<uint32_t>(min_key_len_, sv.size());
     for (++key_it; key_it != end; ++key_it) {
         if (cnt % infix_store_target_size == 0) {   // New boundary key
             std::string_view sv = *key_it;
@@ -1894,6 +1905,7 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
         }
         sv = *key_it;
         max_len = std::max<uint32_t>(max_len, sv.size());
+        min_key_len_ = std::min<uint32_t>(min_key_len_, sv.size());
         cnt++;
     }
 
@@ -1951,6 +1963,7 @@ inline void Diva<int_optimized>::BulkLoadStreaming(std::string_view key) {
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreaming(const uint8_t *key, const uint32_t key_len) {
+    min_key_len_ = std::min(min_key_len_, key_len);
     uint8_t *key_copy = new uint8_t[key_len];
     memcpy(key_copy, key, key_len);
 
-- 
2.43.0


From 98946d1338c265da606ac160f04e2c9a42869e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 12/24] fix: deletion shifts a run that is already in place
 past an empty slot

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 70e4d0a..f04d2d9 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2500,7 +2500,7 @@ inline void Diva<int_optimized>::DeleteRawFromInfixStore(InfixStore &store, cons
         if (cur_runend < 0) {
             const uint32_t mapped_pos = GetMappedPos(cur_occupied, size_grade, implicit_scalar);
             const int32_t first_empty_slot_before = FindEmptySlotBefore(store, runend_pos);
-            shift_start = (first_empty_slot_before < mapped_pos ? first_empty_slot_before : shift_start);
+            shift_start = (first_empty_slot_before + 1 < mapped_pos ? first_empty_slot_before + 1 : shift_start);
         }
     }
     else {
-- 
2.43.0


From cf396b146f7bdeae133e444c63a2d6742ed6640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 13/24] fix: DeleteMerge uses tree memory after deleting from
 the tree

---
 include/diva.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index f04d2d9..f20f1dd 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1659,13 +1659,6 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     }
 #endif
 
-    delete[] store_l->ptr;
-    delete[] store_r->ptr;
-    if constexpr (int_optimized)
-        wh_int_del(better_tree_int_, middle_key.str, middle_key.length);
-    else
-        wh_del(better_tree_, middle_key.str, middle_key.length);
-
     const uint64_t left_extraction = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0);
     const uint64_t right_extraction = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1);
     const uint32_t total_implicit = ((right_extraction >> infix_size_) - (left_extraction >> infix_size_)) + 1;
@@ -1673,10 +1666,19 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     InfixStore store = AllocateInfixStoreWithList(infix_list, total_elem_count, total_implicit);
     store.SetPartialKey(store_l->IsPartialKey());
     store.SetInvalidBits(store_l->GetInvalidBits());
+    delete[] store_l->ptr;
+    delete[] store_r->ptr;
     if constexpr (int_optimized)
         wh_int_put(better_tree_int_, left_key.str, left_key.length, reinterpret_cast<const void *>(&store), sizeof(InfixStore));
     else
         wh_put(better_tree_, left_key.str, left_key.length, reinterpret_cast<const void *>(&store), sizeof(InfixStore));
+
+    // Deleting from the tree may move or free the memory of the other keys and
+    // stores, so this must come last
+    if constexpr (int_optimized)
+        wh_int_del(better_tree_int_, middle_key.str, middle_key.length);
+    else
+        wh_del(better_tree_, middle_key.str, middle_key.length);
 }
 
 template <bool int_optimized>
-- 
2.43.0


From 65179f3a0ec730615fcc21bf6d1ea0ac90cae33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 14/24] fix: bulk loading hangs when only one key is left for
 the last store

---
 include/diva.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index f20f1dd..44c9dac 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1826,7 +1826,10 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     }
     else
         right_key = {reinterpret_cast<const uint8_t *>(&(*key_it)), key_len};
-    const bool add_last_key = key_it != last_key_it;
+    if (key_it == last_key_it) {    // The only key left is the left boundary key
+        AddTreeKey(left_key.str, left_key.length);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
@@ -1855,8 +1858,7 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     else
         wh_put(better_tree_, left_key.str, left_key.length, &store, sizeof(store));
 
-    if (add_last_key)
-        AddTreeKey(right_key.str, right_key.length);
+    AddTreeKey(right_key.str, right_key.length);
 
     uint8_t max_str[key_len];
     memset(max_str, 0xFF, key_len);
@@ -1916,7 +1918,13 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     sv = *key_it;
     right_key = {reinterpret_cast<const uint8_t *>(sv.data()), 
                  static_cast<uint32_t>(sv.size())};
-    const bool add_last_key = key_it != last_key_it;
+    if (key_it == last_key_it) {    // The only key left is the left boundary key
+        AddTreeKey(left_key.str, left_key.length);
+        uint8_t max_str[max_len];
+        memset(max_str, 0xFF, max_len);
+        AddTreeKey(max_str, max_len);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
@@ -1941,8 +1949,7 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     else
         wh_put(better_tree_, left_key.str, left_key.length, &store, sizeof(store));
 
-    if (add_last_key)
-        AddTreeKey(right_key.str, right_key.length);
+    AddTreeKey(right_key.str, right_key.length);
 
     uint8_t max_str[max_len];
     memset(max_str, 0xFF, max_len);
-- 
2.43.0


From f6939fa3530f6dbc1416d212087bf8d425dcb2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 15/24] fix: streaming bulk loading loses the last key and
 overwrites the store of the zero key

---
 include/diva.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 44c9dac..8f17f40 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -371,13 +371,13 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoadFixedLength(begin, end, key_len);
+
     uint8_t key[key_len];
     memset(key, 0x00, key_len);
     AddTreeKey(key, key_len);
     memset(key, 0xFF, key_len);
     AddTreeKey(key, key_len);
-
-    BulkLoadFixedLength(begin, end, key_len);
 }
 
 
@@ -405,11 +405,11 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoad(begin, end);
+
     uint8_t key[8];
     memset(key, 0x00, 8);
     AddTreeKey(key, 8);
-
-    BulkLoad(begin, end);
 }
 
 
@@ -743,6 +743,9 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::AddTreeKey(const uint8_t *key, const uint32_t key_len) {
+    // Do not overwrite the store of an already existing boundary key
+    if (int_optimized ? wh_int_probe(better_tree_int_, key, key_len) : wh_probe(better_tree_, key, key_len))
+        return;
     InfixStore infix_store(scaled_sizes_[size_scalar_shrink_grow_sep], infix_size_);
     if constexpr (int_optimized)
         wh_int_put(better_tree_int_, key, key_len, &infix_store, sizeof(infix_store));
@@ -2015,12 +2018,6 @@ inline void Diva<int_optimized>::BulkLoadStreaming(const uint8_t *key, const uin
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
-    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
-    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-
     if (bulk_load_streaming_ind_ > 0) {
         InfiniteByteString bulk_load_right_key {bulk_load_key_list_[bulk_load_streaming_ind_ - 1].str,
                                                 bulk_load_key_list_[bulk_load_streaming_ind_ - 1].length};
@@ -2046,6 +2043,15 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
         AddTreeKey(bulk_load_right_key.str, bulk_load_right_key.length);
         delete[] bulk_load_right_key.str;
     }
+    else if (bulk_load_left_key_.str != nullptr)
+        AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
+
+    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
+    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    delete[] key_copy;
 
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
-- 
2.43.0


From c9ab43cfaa42a4da2f572ccee718aca3411c939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 16/24] fix: deserialized filters do not own their stores and
 ignore the load factor

---
 include/diva.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 8f17f40..94cf18c 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -245,7 +245,7 @@ private:
     std::mt19937 rng_;
     uint32_t rng_seed_;
     uint32_t min_key_len_ = std::numeric_limits<uint32_t>::max();   // Length of the shortest key added so far
-    const float load_factor_ = 0.95;
+    float load_factor_ = 0.95;
     const float load_factor_alt_ = 0.95;
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
@@ -1426,8 +1426,7 @@ inline uint32_t Diva<int_optimized>::DeserializeMetadata(char *deser_buf) {
     assert(buf32 == size_scalar_shrink_grow_sep && "Mismatched Diva version");
     res += sizeof(size_scalar_shrink_grow_sep);
 
-    memcpy(&buf_float, deser_buf + res, sizeof(load_factor_));
-    assert(buf_float == load_factor_ && "Mismatched Diva version");
+    memcpy(&load_factor_, deser_buf + res, sizeof(load_factor_));
     res += sizeof(load_factor_);
 
     memcpy(&buf_float, deser_buf + res, sizeof(load_factor_alt_));
@@ -1459,9 +1458,8 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = reinterpret_cast<uint64_t *>(deser_buf + sizeof(store.status));
-    //store.ptr = new uint64_t[word_count];
-    //memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
+    store.ptr = new uint64_t[word_count];
+    memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
 
-- 
2.43.0


From 01eeeddd56e48d8e602a49312b2e64e4f54286b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 17/24] fix: Size() disagrees with Serialize() for int
 optimized filters with partial keys

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 94cf18c..f96e7a9 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1152,7 +1152,7 @@ inline uint32_t Diva<int_optimized>::Size() const {
         for (wh_int_iter_seek(&it_int, nullptr, 0); wh_int_iter_valid(&it_int); wh_int_iter_skip1(&it_int)) {
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&tree_key), &tree_key_len, 
                                           reinterpret_cast<void **>(&store), &dummy);
-            res += sizeof(tree_key_len) + tree_key_len;
+            res += sizeof(tree_key_len) + ((tree_key_len + 7) / 8) * 8;
             const uint32_t word_count = store->GetPtrWordCount(scaled_sizes_[store->GetSizeGrade()], infix_size_);
             res += sizeof(store->status) + word_count * sizeof(uint64_t);
         }
-- 
2.43.0


From 72c552f615c8bcb28900a6a877554414dd214323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 18/24] fix: inserting or deleting the smallest and largest
 keys crashes

---
 include/diva.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index f96e7a9..98c3396 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -482,6 +482,8 @@ inline void Diva<int_optimized>::InsertSimple(const InfiniteByteString key) {
         if (next_key == key) {
             prev_key = next_key;
             wh_int_iter_skip1(&it_int);
+            if (!wh_int_iter_valid(&it_int))     // The last boundary key is always present
+                return;
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                                           reinterpret_cast<void **>(&dummy_infix_store_ptr), &dummy_val);
         }
@@ -506,6 +508,8 @@ inline void Diva<int_optimized>::InsertSimple(const InfiniteByteString key) {
         if (next_key == key) {
             prev_key = next_key;
             wh_iter_skip1(&it);
+            if (!wh_iter_valid(&it))     // The last boundary key is always present
+                return;
             wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                                   reinterpret_cast<void **>(&dummy_infix_store_ptr), &dummy_val);
         }
@@ -775,6 +779,8 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         if (next_key == key) {
             prev_key = next_key;
             wh_int_iter_skip1(&it_int);
+            if (!wh_int_iter_valid(&it_int))     // The last boundary key is always present
+                return;
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                                           reinterpret_cast<void **>(&dummy_infix_store_ptr), &dummy_val);
         }
@@ -799,6 +805,8 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         if (next_key == key) {
             prev_key = next_key;
             wh_iter_skip1(&it);
+            if (!wh_iter_valid(&it))     // The last boundary key is always present
+                return;
             wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&next_key.str), &next_key.length,
                                   reinterpret_cast<void **>(&dummy_infix_store_ptr), &dummy_val);
         }
@@ -1608,10 +1616,14 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
         wh_int_iter_peek_ref(it_int, reinterpret_cast<const void **>(&middle_key.str), &middle_key.length, 
                                      reinterpret_cast<void **>(&store_r), &dummy);
         wh_int_iter_skip1(it_int);
+        if (!wh_int_iter_valid(it_int))   // The last boundary key must remain
+            return;
         wh_int_iter_peek_ref(it_int, reinterpret_cast<const void **>(&right_key.str), &right_key.length, 
                                      reinterpret_cast<void **>(&store_l), &dummy);
         wh_int_iter_skip1_rev(it_int);
         wh_int_iter_skip1_rev(it_int);
+        if (!wh_int_iter_valid(it_int))   // The first boundary key must remain
+            return;
         wh_int_iter_peek_ref(it_int, reinterpret_cast<const void **>(&left_key.str), &left_key.length, 
                                      reinterpret_cast<void **>(&store_l), &dummy);
         if (it_int->leaf)
@@ -1622,10 +1634,14 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
         wh_iter_peek_ref(it, reinterpret_cast<const void **>(&middle_key.str), &middle_key.length, 
                              reinterpret_cast<void **>(&store_r), &dummy);
         wh_iter_skip1(it);
+        if (!wh_iter_valid(it))   // The last boundary key must remain
+            return;
         wh_iter_peek_ref(it, reinterpret_cast<const void **>(&right_key.str), &right_key.length, 
                              reinterpret_cast<void **>(&store_l), &dummy);
         wh_iter_skip1_rev(it);
         wh_iter_skip1_rev(it);
+        if (!wh_iter_valid(it))   // The first boundary key must remain
+            return;
         wh_iter_peek_ref(it, reinterpret_cast<const void **>(&left_key.str), &left_key.length, 
                              reinterpret_cast<void **>(&store_l), &dummy);
         if (it->leaf)
-- 
2.43.0


From 1a3c863e03189579d3e3f67fcfd48bb0b1125f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 19/24] fix: slot accesses at the end of an infix store reach
 past its array

The last slots are read and written as unaligned 8 byte words, which
extends up to 8 bytes past the allocated array (reported by
AddressSanitizer as a heap buffer overflow on plain bulk loading).
Allocate one spare word behind the array.
---
 include/diva.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 98c3396..8cde436 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -175,7 +175,7 @@ private:
         InfixStore(const uint32_t slot_count, const uint32_t slot_size, const uint32_t size_grade=size_scalar_shrink_grow_sep) {
             SetSizeGrade(size_grade);
             const uint32_t word_count = GetPtrWordCount(slot_count, slot_size);
-            ptr = new uint64_t[word_count];
+            ptr = AllocateWords(word_count);
             memset(ptr, 0, sizeof(uint64_t) * word_count);
         }
         InfixStore(const char *deser_buf);
@@ -194,6 +194,14 @@ private:
             return 1 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
         }
 
+        // Slots are read and written a word at a time at byte granularity, so
+        // an access to the last ones extends past the array's last word
+        static uint64_t *AllocateWords(const uint32_t word_count) {
+            uint64_t *res = new uint64_t[word_count + 1];
+            res[word_count] = 0;
+            return res;
+        }
+
         uint32_t GetElemCount() const {
             return status & BITMASK(elem_count_bit_count);
         }
@@ -1466,7 +1474,7 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = new uint64_t[word_count];
+    store.ptr = InfixStore::AllocateWords(word_count);
     memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
@@ -2746,7 +2754,7 @@ inline void Diva<int_optimized>::ResizeInfixStore(InfixStore &store, const bool
     store.SetSizeGrade(size_grade);
     const uint32_t next_size = scaled_sizes_[size_grade];
     const uint32_t word_count = InfixStore::GetPtrWordCount(next_size, infix_size_);
-    store.ptr = new uint64_t[word_count];
+    store.ptr = InfixStore::AllocateWords(word_count);
     LoadListToInfixStore(store, infix_list, infix_count, total_implicit, true);
 }
 
-- 
2.43.0


From 524cfd51ecd2a9a43d4d873f2ccdce525795189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:25 +0000
Subject: [PATCH 20/24] fix: merging stores loses the leading infix bit when
 infixes exceed 21 bits

GetBit returns 32 bits, so shifting it by implicit plus infix size - 1 is
out of range for infix sizes of 22 and more.
---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 8cde436..e6ef598 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1757,7 +1757,7 @@ inline void Diva<int_optimized>::UpdateInfixListDelete(const uint32_t shared, co
                                                              : (infix_list[i] >> (old_infix_size - new_infix_size))
                                                                     | (infix_list[i] & 1ULL));
             uint32_t recovered_bit_cnt = 1, recovery_bits = 1;
-            uint64_t recovered_infix = left_key.GetBit(shared) << (new_infix_size - recovered_bit_cnt);
+            uint64_t recovered_infix = static_cast<uint64_t>(left_key.GetBit(shared)) << (new_infix_size - recovered_bit_cnt);
             
             recovery_bits = std::min(old_shared - shared - ignore - 1, new_infix_size - recovered_bit_cnt);
             recovered_bit_cnt += recovery_bits;
-- 
2.43.0


From ab0bcdb9313d991cb94fa60176513b4a10ef62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:06 +0000
Subject: [PATCH 21/24] fix: release the tree reference when a filter is
 destroyed

---
 include/diva.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index e6ef598..d8c9a7c 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1387,6 +1387,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it_int.leaf)
             wormleaf_int_unlock_read(it_int.leaf);
+        wh_int_unref(better_tree_int_);
         wh_int_destroy(wh_int_);
     }
     else {
@@ -1402,6 +1403,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it.leaf)
             wormleaf_unlock_read(it.leaf);
+        wh_unref(better_tree_);
         wh_destroy(wh_);
     }
 }
-- 
2.43.0


From 8dff5c52453ab5069490c99dba5108161f344055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:06 +0000
Subject: [PATCH 22/24] fix: free the buffered keys of an unfinished streaming
 bulk load

---
 include/diva.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index d8c9a7c..720bb94 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1406,6 +1406,10 @@ inline Diva<int_optimized>::~Diva() {
         wh_unref(better_tree_);
         wh_destroy(wh_);
     }
+
+    delete[] bulk_load_left_key_.str;
+    for (const InfiniteByteString &key : bulk_load_key_list_)
+        delete[] key.str;
 }
 
 
-- 
2.43.0


From 5d5ba2f829868b7848571eca274dede092691357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:54 +0000
Subject: [PATCH 23/24] fix: wormhole_int reads past the end of keys shorter
 than eight bytes

---
 include/wormhole/wh_int.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 2dd06e1..75f125a 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1423,10 +1423,21 @@ wormleaf_kv_at_is1(const struct wormleaf_int * const leaf, const u32 i, const u3
     return k1;
 }
 
+// the bytes of a key as an integer; bytes beyond the end of a short key are zero
+  static inline u64
+wormleaf_int_key_word(const struct kref * const key)
+{
+  if (key->len >= sizeof(u64))
+    return _bswap64(*((u64 *) key->ptr));
+  u64 word = 0;
+  memcpy(&word, key->ptr, key->len);
+  return _bswap64(word);
+}
+
   static u32
 wormleaf_int_search_eq(const struct wormleaf_int * const leaf, const struct kref * const key)
 {
-  const u64 search_key = _bswap64((*((u64 *) key->ptr)) & BITMASK(key->len * 8));
+  const u64 search_key = wormleaf_int_key_word(key);
   u32 lo = -1;
   u32 hi = leaf->nr_sorted;
   while (hi - lo > 1) {
@@ -1452,7 +1463,7 @@ wormleaf_int_search(const struct wormleaf_int * const leaf, const struct kref *
 {
   if (key->ptr == NULL)
     return 0;
-  u64 search_key = _bswap64((*((u64 *) key->ptr)) & BITMASK(key->len * 8));
+  u64 search_key = wormleaf_int_key_word(key);
   int lo = -1;
   int hi = leaf->nr_sorted;
   while (hi - lo > 1) {
@@ -1476,7 +1487,7 @@ wormleaf_int_seek(const struct wormleaf_int * const leaf, const struct kref * co
   static u32
 wormleaf_int_seek_end(const struct wormleaf_int * const leaf, const struct kref * const key)
 {
-  u64 search_key = _bswap64((*((u64 *) key->ptr)) & BITMASK(key->len * 8));
+  u64 search_key = wormleaf_int_key_word(key);
   debug_assert(leaf->nr_keys == leaf->nr_sorted);
   if (leaf->nr_sorted) {
     const int cmp = compare_int_isp(search_key, key->len, leaf->kvs + leaf->nr_sorted - 1);
-- 
2.43.0


From 917e96fb0a383edfab74622a4f87acaa08f9ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 24/24] fix: reloading a filter with keys of 20000 bytes and
 more overruns a buffer on the stack

---
 include/diva.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 720bb94..8af3971 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1337,18 +1337,13 @@ inline Diva<int_optimized>::Diva(char *deser_buf):
     SetupScaleFactors();
     min_key_len_ = 0;   // The lengths of the original keys are unknown
 
-    const uint32_t max_key_length = 20000;
-    char key[max_key_length];
     uint32_t key_length;
     InfixStore store;
 
     memcpy(&key_length, deser_buf + ind, sizeof(key_length));
     ind += sizeof(key_length);
     while (key_length != std::numeric_limits<uint32_t>::max()) {
-#ifdef DEBUG
-        assert(key_length < max_key_length);
-#endif
-        memcpy(key, deser_buf + ind, key_length);
+        const char *key = deser_buf + ind;
         const uint32_t rounded_key_len = ((key_length + 7) / 8) * 8;
         ind += rounded_key_len;
         ind += DeserializeInfixStore(deser_buf + ind, store);
-- 
2.43.0


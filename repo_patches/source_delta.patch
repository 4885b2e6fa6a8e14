From af59cacf4fb14177a84a15922bd5a46434d6095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 01/98] fix: group15_flat_map range insert, hinted insert,
 insert_or_assign and hinted try_emplace

insert(first, last) inserted *first for every position, the hinted insert of a
convertible value passed the hint on as an element, insert_or_assign did not
compile (private member, pair '->first') and moved from lvalue keys, and hinted
try_emplace returned a pair where an iterator is declared.
---
 src/jstd/hashmap/group15_flat_map.hpp   | 26 ++++++++++++-------------
 src/jstd/hashmap/group15_flat_table.hpp |  8 ++++----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..83900d4 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -451,14 +451,14 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
@@ -472,13 +472,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -488,19 +488,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -510,7 +510,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -573,13 +573,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -592,7 +592,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -604,9 +604,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..38c21d0 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -922,25 +922,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From 355fa9da31a3b39369c275e9ae7c276e631cb2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 02/98] fix: group15_flat_map must not move from an lvalue
 element passed to emplace

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 38c21d0..43ab6a5 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2546,7 +2546,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From 6300d7f9b1e5da5707bc349089f539ddb78ef9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 03/98] fix: group15_flat_map erase by iterator, by range and
 erase_if

erase(iterator) used a locator the iterator doesn't have and returned an
iterator as a size, the iterator range forms used members that don't exist or
called themselves forever, and std::erase_if walked backwards from end(), which
is a null iterator.
---
 src/jstd/hashmap/group15_flat_map.hpp   | 34 +++++++++----------------
 src/jstd/hashmap/group15_flat_table.hpp | 10 +++++---
 2 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 83900d4..6e1f0ce 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -618,35 +618,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -655,8 +646,7 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
-        for (; iter != last; ++iter) {
+        for (InputIter iter = first; iter != last; ++iter) {
             num_deleted += static_cast<size_type>(this->erase(*iter));
         }
         return num_deleted;
@@ -722,13 +712,13 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 43ab6a5..64f2264 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1008,10 +1008,12 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        iterator next = pos;
+        ++next;
+        size_type ctrl_index = this->index_of(pos.ctrl());
+        locator_t locator(this->group_by_ctrl_index(ctrl_index), ctrl_index % kGroupWidth, pos.slot());
         this->erase_slot(locator);
-        locator.increment();
-        return { locator };
+        return next;
     }
 
     JSTD_FORCED_INLINE
@@ -1457,7 +1459,7 @@ private:
         assert(ctrl != nullptr);
         assert(ctrl >= this->ctrls());
         size_type ctrl_index = static_cast<size_type>(ctrl - this->ctrls());
-        assert(is_positive(index));
+        assert(is_positive(ctrl_index));
         return ctrl_index;
     }
 
-- 
2.43.0


From 39d71e6b9a3c48f92170629951f5a3099f17d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 04/98] fix: group15_flat_map copy and move construction

Copying or moving a map into a table of the same capacity left size() and the
threshold at 0, and copying trivial elements or any move did not compile.
---
 src/jstd/hashmap/group15_flat_table.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 64f2264..9e692b7 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -366,7 +366,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
@@ -1677,6 +1677,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
@@ -1724,7 +1726,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1824,6 +1826,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
@@ -1878,9 +1882,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From b9d8296f010da33bf44644c8476b2a7cfdab8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 05/98] fix: group15_flat_map assignment must move the
 allocator together with its memory

---
 src/jstd/hashmap/group15_flat_table.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 9e692b7..caa78ed 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -416,7 +416,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->swap_all(tmp);
         return *this;
     }
 
@@ -2823,7 +2823,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2832,7 +2832,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2881,6 +2881,21 @@ private:
         this->swap_content(other);
         this->swap_policy(other);
     }
+
+    // Use in operator = (), the allocators always go along with the memory they own.
+    JSTD_FORCED_INLINE
+    void swap_all(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+#if GROUP15_USE_HASH_POLICY
+        swap(this->hash_policy_, other.hash_policy_ref());
+#endif
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
 };
 
 } // namespace jstd
-- 
2.43.0


From 80c7f7e7e1a34727bf418eed125335c2886ebe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 06/98] fix: group15_flat_map::clear() must not write to the
 shared empty groups, and restores the threshold

---
 src/jstd/hashmap/group15_flat_table.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index caa78ed..2993ae7 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1586,10 +1586,17 @@ private:
     void clear_data() {
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
-        this->clear_groups(this->groups(), this->group_capacity());
 
-        // Set the sentinel mark
-        this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+        // The default empty groups are shared, never write to them.
+        if (this->slots_ != nullptr) {
+            this->clear_groups(this->groups(), this->group_capacity());
+
+            // Set the sentinel mark
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+
+            // There are no overflow marks any more
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 1bbe4df28e25f04ba7b649672b6555a6ae66dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 07/98] fix: group15_flat_map reserve(n) holds n elements,
 reserve(0) keeps them, shrink_to_fit(true) can hold all

reserve(n) ignored the sentinel and the 15/16 slots per ctrl, so a rehash
happened before size() reached n; reserve(0) destroyed a non-empty map;
shrink_to_fit(true) could create fewer slots than elements and loop forever.
---
 src/jstd/hashmap/group15_flat_table.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 2993ae7..d3b9693 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -733,7 +733,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
@@ -763,7 +763,7 @@ public:
         if (JSTD_LIKELY(!read_only))
             new_capacity = this->shrink_to_fit_capacity(this->size());
         else
-            new_capacity = this->size();
+            new_capacity = (this->size() != 0) ? this_type::slot_to_ctrl_capacity(this->size()) : 0;
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
@@ -1297,8 +1297,16 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
-        return new_capacity;
+        if (init_capacity == 0)
+            return 0;
+        // The number of slots needed to hold init_capacity elements without exceeding the threshold.
+        size_type new_slot_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
+        return this_type::slot_to_ctrl_capacity(new_slot_capacity);
+    }
+
+    // The ctrl capacity needed to provide slot_capacity slots, see calc_slot_capacity().
+    static inline constexpr size_type slot_to_ctrl_capacity(size_type slot_capacity) noexcept {
+        return ((slot_capacity + 1) + kGroupSize - 1) / kGroupSize * kGroupWidth;
     }
 
     static inline bool is_positive(size_type value) noexcept {
@@ -2797,8 +2805,8 @@ private:
 #endif
         assert(group->is_used(group_pos));
         group->set_empty(group_pos);
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        // The threshold can be less than the size after shrink_to_fit(true), don't wrap around.
+        this->slot_threshold_ -= (maybe_overflow && (this->slot_threshold_ > 0));
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
-- 
2.43.0


From 83bf5b9deffcf010b78aaa0e36318c74ab2dbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 08/98] fix: group15_flat_map stays valid when constructing an
 element throws

The slot was marked as used before its element was constructed, so a throwing
constructor left a used slot without an element; a throwing copy construction
leaked the new table.
---
 src/jstd/hashmap/group15_flat_table.hpp | 104 +++++++++---------------
 1 file changed, 39 insertions(+), 65 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index d3b9693..7d98ca4 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1671,19 +1671,14 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
-            this->fast_copy_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->ctrl_capacity() == other.ctrl_capacity())
+                this->fast_copy_slots_from(other);
+            else
                 this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
@@ -1747,7 +1742,7 @@ private:
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group15_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
+        ctrl_type * ctrl = this->ctrls();
         const ctrl_type * last_ctrl = this->last_ctrl();
         const slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
@@ -1770,43 +1765,11 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // The remaining slots are not constructed, so they must not be destroyed.
+            for (; ctrl < last_ctrl; ++ctrl) {
+                if ((reinterpret_cast<size_type>(ctrl) % kGroupWidth) < kGroupSize && !ctrl->is_sentinel())
+                    ctrl->set_empty();
             }
             throw;
         }
@@ -2204,6 +2167,18 @@ private:
         SlotPolicyTraits::construct(&this->slot_allocator_, slot);
     }
 
+    // Construct a slot which has been marked as used, if it throws, the mark is removed.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_used_slot(locator_t & locator, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, locator.slot(), std::forward<Args>(args)...);
+        } catch (...) {
+            locator.group()->set_empty(locator.pos());
+            throw;
+        }
+    }
+
     JSTD_FORCED_INLINE
     void construct_slot(size_type slot_index) {
         slot_type * slot = this->slot_at(slot_index);
@@ -2490,10 +2465,9 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
+        assert(locator.slot() != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_used_slot(locator, old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -2536,7 +2510,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
+            this->construct_used_slot(locator, value);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2564,7 +2538,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
+            this->construct_used_slot(locator, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2604,8 +2578,8 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
+            this->construct_used_slot(locator,
+                                      std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
             this->slot_size_++;
         } else {
@@ -2643,8 +2617,8 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(locator,
+                                      std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
@@ -2681,8 +2655,8 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(locator,
+                                      std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
             this->slot_size_++;
@@ -2749,8 +2723,8 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(locator,
+                                      std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
@@ -2769,8 +2743,8 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(locator,
+                                      std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
-- 
2.43.0


From 8f8017586298a759ff504d1f340af82ba6d5a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 09/98] fix: group16_flat_map range insert, hinted insert,
 insert_or_assign and hinted try_emplace

---
 src/jstd/hashmap/group16_flat_map.hpp   | 26 ++++++++++++-------------
 src/jstd/hashmap/group16_flat_table.hpp |  8 ++++----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..73d98c8 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -448,14 +448,14 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
@@ -469,13 +469,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -485,19 +485,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -507,7 +507,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -570,13 +570,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -589,7 +589,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -601,9 +601,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..81606f3 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -870,25 +870,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From 8e14505350581259bd561e7d43107ec2235b25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 10/98] fix: group16_flat_map must not move from an lvalue
 element passed to emplace

---
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 81606f3..8f19907 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2376,7 +2376,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From 4a490f920fb56036113fdb0912368848bc81cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 11/98] fix: group16_flat_map copy and move construction

---
 src/jstd/hashmap/group16_flat_table.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 8f19907..e9565c5 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -355,7 +355,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
@@ -1620,6 +1620,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1665,7 +1667,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1741,6 +1743,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1793,9 +1797,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
@@ -2305,10 +2306,8 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    void unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
-        assert(other != nullptr);
-        assert(other != this);
+    void unique_insert(const_iterator first, const_iterator last) {
+        assert(first.hashmap() != this);
         for (; first != last; ++first) {
             const slot_type * old_slot = first.slot();
             this->no_grow_unique_insert(old_slot);
@@ -2330,7 +2329,7 @@ private:
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_transfer_insert(&other, old_slot);
         }
     }
 
-- 
2.43.0


From 15189623e548bb442d9388f281310b81bfc82f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 12/98] fix: group16_flat_map assignment must move the
 allocator together with its memory

---
 src/jstd/hashmap/group16_flat_table.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index e9565c5..462013f 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -403,7 +403,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->swap_all(tmp);
         return *this;
     }
 
@@ -2631,7 +2631,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2640,7 +2640,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2687,6 +2687,21 @@ private:
         this->swap_content(other);
         this->swap_policy(other);
     }
+
+    // Use in operator = (), the allocators always go along with the memory they own.
+    JSTD_FORCED_INLINE
+    void swap_all(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+#if GROUP16_USE_HASH_POLICY
+        swap(this->hash_policy_, other.hash_policy_ref());
+#endif
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
 };
 
 } // namespace jstd
-- 
2.43.0


From 4d833d4acde4ce7d24e2a35046bf3146840661d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 13/98] fix: group16_flat_map::clear() restores the threshold
 together with the overflow marks

---
 src/jstd/hashmap/group16_flat_table.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 462013f..29016ea 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1544,6 +1544,11 @@ private:
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
         this->clear_groups(this->groups(), this->group_capacity());
+
+        if (this->slots_ != nullptr) {
+            // There are no overflow marks any more
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 61fb8d4b4d41bbda080e6046cf0cdad8604729cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 14/98] fix: group16_flat_map must not raise the threshold
 beyond the capacity (endless insert)

---
 src/jstd/hashmap/group16_flat_table.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 29016ea..9e45c40 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2191,7 +2191,10 @@ private:
                 if (!IsNoCheck) {
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
-                    bool is_deleted_slot = group->is_overflow(ctrl_hash);
+                    // It's not always a deleted slot that lowered the threshold,
+                    // so never go beyond the original threshold.
+                    bool is_deleted_slot = group->is_overflow(ctrl_hash) &&
+                        (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity()));
                     this->slot_threshold_ += is_deleted_slot;
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
-- 
2.43.0


From 6f990c68f237a6a6e477fc15b7b940cc06d249de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 15/98] fix: group16_flat_map reserve(n) holds n elements,
 reserve(0) keeps them

---
 src/jstd/hashmap/group16_flat_table.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9e45c40..accb500 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -669,7 +669,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
@@ -1220,7 +1220,8 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        // Round up, so that the threshold of the new capacity can hold init_capacity elements.
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return new_capacity;
     }
 
@@ -2606,8 +2607,8 @@ private:
         bool maybe_overflow = this->maybe_caused_overflow(ctrl);
         assert(ctrl->is_used());
         ctrl->set_empty();
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        // The threshold can be less than the size after shrink_to_fit(true), don't wrap around.
+        this->slot_threshold_ -= (maybe_overflow && (this->slot_threshold_ > 0));
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
-- 
2.43.0


From 1c22210cd0a4e9e58f7d326ca9703f21a1c0584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 16/98] fix: group16_flat_map stays valid when constructing an
 element or allocating throws

---
 src/jstd/hashmap/group16_flat_table.hpp | 125 ++++++++++--------------
 1 file changed, 50 insertions(+), 75 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index accb500..712b6a9 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1605,19 +1605,14 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
-            this->fast_copy_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->slot_capacity() == other.slot_capacity())
+                this->fast_copy_slots_from(other);
+            else
                 this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
@@ -1679,8 +1674,8 @@ private:
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group16_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
+        ctrl_type * ctrl = this->ctrls();
+        ctrl_type * last_ctrl = this->last_ctrl();
         const slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
         ssize_type index = 0;
@@ -1694,27 +1689,10 @@ private:
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // The remaining slots are not constructed, so they must not be destroyed.
+            for (; ctrl < last_ctrl; ++ctrl) {
+                ctrl->set_empty();
             }
             throw;
         }
@@ -1956,7 +1934,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
@@ -2057,6 +2041,19 @@ private:
         SlotPolicyTraits::construct(&this->slot_allocator_, slot);
     }
 
+    // Construct a slot which has been marked as used, if it throws, the mark is removed.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_used_slot(size_type slot_index, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, this->slot_at(slot_index),
+                                        std::forward<Args>(args)...);
+        } catch (...) {
+            this->ctrl_at(slot_index)->set_empty();
+            throw;
+        }
+    }
+
     JSTD_FORCED_INLINE
     void construct_slot(size_type slot_index) {
         slot_type * slot = this->slot_at(slot_index);
@@ -2306,10 +2303,7 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_used_slot(slot_index, old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -2354,9 +2348,7 @@ private:
         bool need_insert = find_info.second;        
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
+            this->construct_used_slot(slot_index, value);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2381,10 +2373,8 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
+            this->construct_used_slot(slot_index, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2421,11 +2411,8 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
+            this->construct_used_slot(slot_index, std::forward<KeyT>(key),
+                                      std::forward<MappedT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2459,12 +2446,9 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_used_slot(slot_index, std::piecewise_construct,
+                                      std::forward_as_tuple(std::forward<KeyT>(key)),
+                                      std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2496,12 +2480,9 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
+            this->construct_used_slot(slot_index, std::piecewise_construct,
+                                      std::forward<std::tuple<Ts1...>>(first),
+                                      std::forward<std::tuple<Ts2...>>(second));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2563,12 +2544,9 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_used_slot(slot_index, std::piecewise_construct,
+                                      std::forward_as_tuple(key),
+                                      std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         }
         return { this->iterator_at(slot_index), need_insert };
@@ -2582,12 +2560,9 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_used_slot(slot_index, std::piecewise_construct,
+                                      std::forward_as_tuple(std::forward<KeyT>(key)),
+                                      std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         }
         return { this->iterator_at(slot_index), need_insert };
-- 
2.43.0


From 78af17192546a8f94785e53f775068a07fc2221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 17/98] fix: group16_flat_map erase by iterator, by range and
 erase_if

---
 src/jstd/hashmap/flat_map_iterator.hpp  |  4 +--
 src/jstd/hashmap/group16_flat_map.hpp   | 35 +++++++++----------------
 src/jstd/hashmap/group16_flat_table.hpp |  8 +++---
 3 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 63db61a..8a73fde 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -218,7 +218,7 @@ public:
     }
 
     inline hashmap_type * hashmap() noexcept {
-        return this->hashmap_;
+        return const_cast<hashmap_type *>(this->hashmap_);
     }
 
     inline const hashmap_type * hashmap() const noexcept {
@@ -231,7 +231,7 @@ public:
 
     inline ctrl_type * ctrl() noexcept {
         const ctrl_type * _ctrl = this->hashmap_->ctrl_at(this->index_);
-        return const_cast<slot_type *>(_ctrl);
+        return const_cast<ctrl_type *>(_ctrl);
     }
 
     inline const ctrl_type * ctrl() const noexcept {
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 73d98c8..2f0fc2a 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -615,34 +615,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -651,9 +643,8 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        InputIter iter = first;
-        for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*first));
+        for (InputIter iter = first; iter != last; ++iter) {
+            num_deleted += static_cast<size_type>(this->erase(*iter));
         }
         return num_deleted;
     }
@@ -718,13 +709,13 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 712b6a9..f004ce4 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -956,10 +956,10 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        size_type slot_index = pos.index();
-        this->erase_slot(slot_index);
-        ctrl_type * ctrl = this->ctrl_at(slot_index);
-        return this->next_valid_iterator(ctrl, pos);
+        iterator next = pos;
+        ++next;
+        this->erase_slot(static_cast<size_type>(pos.index()));
+        return next;
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 724b4e7cc32b05609d89d46b40d142ce48b1fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 18/98] fix: robin_hash_map initializer_list insert, hinted
 insert and insert_or_assign

---
 src/jstd/hashmap/robin_hash_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7232853..83ba06d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3603,8 +3603,8 @@ public:
     template <typename P, typename std::enable_if<
               (!jstd::is_same_ex<P, value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -3615,7 +3615,7 @@ public:
     }
 
     void insert(std::initializer_list<value_type> ilist) {
-        this->insert(ilist.cbegin(), ilist.cend());
+        this->insert(ilist.begin(), ilist.end());
     }
 
     template <typename KeyType, typename MappedType>
@@ -3625,17 +3625,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 644814d7ee2aa6dae2a36ae48c1aa03b67c3d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 19/98] fix: robin_hash_map move construction and swap keep the
 threshold and the end of slots

---
 src/jstd/hashmap/robin_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 83ba06d..2436be9 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3152,7 +3152,7 @@ public:
         slot_size_(jstd::exchange(other.slot_size_, 0)),
         slot_mask_(jstd::exchange(other.slot_mask_, 0)),
         max_lookups_(jstd::exchange(other.max_lookups_, kMinLookups)),
-        slot_threshold_(jstd::exchange(other.slot_size_, 0)),
+        slot_threshold_(jstd::exchange(other.slot_threshold_, 0)),
         n_mlf_(jstd::exchange(other.n_mlf_, kDefaultLoadFactorInt)),
         n_mlf_rev_(jstd::exchange(other.n_mlf_rev_, kDefaultLoadFactorRevInt)),
 #if ROBIN_USE_HASH_POLICY
@@ -6556,6 +6556,7 @@ Insert_To_Slot:
         using std::swap;
         swap(this->ctrls_, other.ctrls_);
         swap(this->slots_, other.slots_);
+        swap(this->last_slot_, other.last_slot_);
         swap(this->slot_size_, other.slot_size_);
         swap(this->slot_mask_, other.slot_mask_);
         swap(this->max_lookups_, other.max_lookups_);
-- 
2.43.0


From fba6af59ec1f9c8032e0bf58e7104acb8a88d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 20/98] fix: robin_hash_map assignment must move the allocator
 together with its memory

---
 src/jstd/hashmap/robin_hash_map.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 2436be9..e5e5ebd 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3247,7 +3247,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->swap_all(tmp);
         return *this;
     }
 
@@ -6539,7 +6539,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -6547,7 +6547,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -6587,6 +6587,17 @@ Insert_To_Slot:
         this->swap_content(other);
         this->swap_policy(other);
     }
+
+    // Use in operator = (), the allocators always go along with the memory they own.
+    void swap_all(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->ctrl_allocator_, other.get_ctrl_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
 };
 
 /**
-- 
2.43.0


From 84579acea2312fc197f98aa0d1a3a67be7da0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 21/98] fix: robin_hash_map::clear() must not write to the
 shared empty ctrls, clear(true) resets the capacity

---
 src/jstd/hashmap/robin_hash_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e5e5ebd..63c25ca 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3505,7 +3505,7 @@ public:
         if (this->slot_capacity() > kDefaultCapacity) {
             if (need_destroy) {
                 this->destroy_data();
-                this->create_slots<false>(kDefaultCapacity);
+                this->reset<true>();
                 assert(this->slot_size() == 0);
                 return;
             }
@@ -4211,8 +4211,11 @@ private:
         // Note!!: clear_slots() need use this->ctrls()
         this->clear_slots();
 
-        this->clear_ctrls(this->ctrls(), this->slot_capacity(),
-                          this->max_lookups(), this->group_count());
+        // The default empty ctrls are shared, don't need to clear.
+        if (this->ctrls() != this_type::default_empty_ctrls()) {
+            this->clear_ctrls(this->ctrls(), this->slot_capacity(),
+                              this->max_lookups(), this->group_count());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From b44afefdee1eceac90de7df13a9c16adee52cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 22/98] fix: robin_hash_map must respect the lookup limit
 (distance overflow, out of bounds ctrls)

---
 src/jstd/hashmap/robin_hash_map.h | 141 +++++++++++++++++++-----------
 1 file changed, 90 insertions(+), 51 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 63c25ca..1582329 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3296,6 +3296,12 @@ public:
     std::uint16_t max_distance() const {
         return (std::uint16_t)(this->max_lookups() << 8);
     }
+
+    // Whether the distance of the ctrl has exceeded the lookup limit.
+    // Note: the ctrl has no hash byte in the layout without hash, so can't use max_distance() here.
+    bool is_over_distance(const ctrl_type & ctrl) const {
+        return (size_type(ctrl.getDist()) >= this->max_lookups());
+    }
     size_type max_slot_capacity() const {
         return (this->slot_capacity() + this->max_lookups());
     }
@@ -5492,7 +5498,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5517,7 +5523,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5597,7 +5603,7 @@ InsertOrGrow:
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
 
 InsertOrGrow_Start:
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5609,11 +5615,13 @@ InsertOrGrow_Start:
         }
 #endif
 
-        if (ctrl->isEmpty()) {
+        if (this->is_over_distance(dist_and_0)) {
+            return { slot, kNeedGrow };
+        } else if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { slot, kIsNotExists };
         } else {
-            FindResult neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
+            FindResult neednt_grow = this->insert_to_place(ctrl, slot, dist_and_hash);
             return { slot, neednt_grow };
         }
     }
@@ -5645,7 +5653,7 @@ InsertOrGrow_Start:
             assert(ctrl <= last_ctrl);
         }
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5658,11 +5666,13 @@ InsertOrGrow_Start:
 
         slot_type * new_slot = this->slot_at(new_slot_index);
 
-        if (ctrl->isEmpty()) {
+        if (this->is_over_distance(dist_and_0)) {
+            return { new_slot, kNeedGrow };
+        } else if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { new_slot, kIsNotExists };
         } else {
-            FindResult neednt_grow = this->indirect_insert_to_place<false>(ctrl, dist_and_hash);
+            FindResult neednt_grow = this->indirect_insert_to_place(ctrl, dist_and_hash);
             return { new_slot, neednt_grow };
         }
     }
@@ -5704,9 +5714,28 @@ InsertOrGrow_Start:
         return ctrl;
     }
 
-    template <bool isRehashing>
+    // Check whether the displaced ctrls can be placed within the lookup limit, nothing is changed.
+    bool can_insert_to_place(const ctrl_type * insert_ctrl, const ctrl_type & dist_and_hash) const {
+        const ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
+        ctrl_type rich_ctrl(dist_and_hash);
+        for (const ctrl_type * ctrl = insert_ctrl; ctrl < last_ctrl; ctrl++) {
+            if (this->is_over_distance(rich_ctrl))
+                return false;
+            if (ctrl->isEmpty())
+                return true;
+            if (rich_ctrl.dist > ctrl->dist)
+                rich_ctrl.value = ctrl->value;
+            rich_ctrl.incDist();
+        }
+        return false;
+    }
+
     JSTD_FORCED_INLINE
     FindResult insert_to_place(ctrl_type * insert_ctrl, slot_type * insert_slot, const ctrl_type & dist_and_hash) {
+        if (!this->can_insert_to_place(insert_ctrl, dist_and_hash)) {
+            return kNeedGrow;
+        }
+
         ctrl_type * ctrl = insert_ctrl;
         slot_type * target = insert_slot;
         ctrl_type rich_ctrl(dist_and_hash);
@@ -5762,27 +5791,21 @@ InsertOrGrow_Start:
             ctrl++;
             target++;
             rich_ctrl.incDist();
-            assert(rich_ctrl.dist <= kMaxDist);
-
-            if (isRehashing) {
-                assert(rich_ctrl.uvalue < this->max_distance());
-            } else {
-                if (rich_ctrl.uvalue >= this->max_distance()) {
-                    this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-                    this->destroy_empty_slot(empty);
-                    return kNeedGrow;
-                }
-            }
+            assert(!this->is_over_distance(rich_ctrl));
         }
 
-        this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
+        // Can't reach here, see can_insert_to_place().
+        assert(false);
         this->destroy_empty_slot(empty);
         return kNeedGrow;
     }
 
-    template <bool isRehashing>
     JSTD_FORCED_INLINE
     FindResult indirect_insert_to_place(ctrl_type * insert_ctrl, const ctrl_type & dist_and_hash) {
+        if (!this->can_insert_to_place(insert_ctrl, dist_and_hash)) {
+            return kNeedGrow;
+        }
+
         ctrl_type * ctrl = insert_ctrl;
         ctrl_type rich_ctrl(dist_and_hash);
         assert(!ctrl->isEmpty());
@@ -5802,19 +5825,11 @@ InsertOrGrow_Start:
 
             ctrl++;
             rich_ctrl.incDist();
-            assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
-
-            if (isRehashing) {
-                assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
-            } else {
-                if (rich_ctrl.getDist() > static_cast<udist_type>(kMaxDist)) {
-                    insert_ctrl->setValue(rich_ctrl);
-                    return kNeedGrow;
-                }
-            }
+            assert(!this->is_over_distance(rich_ctrl));
         }
 
-        insert_ctrl->setValue(rich_ctrl);
+        // Can't reach here, see can_insert_to_place().
+        assert(false);
         return kNeedGrow;
     }
 
@@ -6164,13 +6179,14 @@ InsertOrGrow_Start:
 
         ctrl_type dist_and_hash(dist_and_0);
 
-        if (ctrl->isEmpty()) {
+        if (this->is_over_distance(dist_and_0)) {
+            return nullptr;
+        } else if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
             return slot;
         } else {
-            FindResult neednt_grow = this->insert_to_place<true>(ctrl, slot, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
+            FindResult neednt_grow = this->insert_to_place(ctrl, slot, dist_and_hash);
+            return ((neednt_grow == kIsNotExists) ? slot : nullptr);
         }
     }
 
@@ -6193,13 +6209,14 @@ InsertOrGrow_Start:
 
         ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
 
-        if (ctrl->isEmpty()) {
+        if (this->is_over_distance(dist_and_0)) {
+            return nullptr;
+        } else if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
             return slot;
         } else {
-            FindResult neednt_grow = this->insert_to_place<true>(ctrl, slot, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
+            FindResult neednt_grow = this->insert_to_place(ctrl, slot, dist_and_hash);
+            return ((neednt_grow == kIsNotExists) ? slot : nullptr);
         }
     }
 
@@ -6225,13 +6242,14 @@ InsertOrGrow_Start:
 
         slot_type * slot = this->slot_at(slot_index);
 
-        if (ctrl->isEmpty()) {
+        if (this->is_over_distance(dist_and_0)) {
+            return nullptr;
+        } else if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
             return slot;
         } else {
-            FindResult neednt_grow = this->indirect_insert_to_place<true>(ctrl, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
+            FindResult neednt_grow = this->indirect_insert_to_place(ctrl, dist_and_hash);
+            return ((neednt_grow == kIsNotExists) ? slot : nullptr);
         }
     }
 
@@ -6258,19 +6276,25 @@ InsertOrGrow_Start:
 
         slot_type * slot = this->slot_at(slot_index);
 
-        if (ctrl->isEmpty()) {
+        if (this->is_over_distance(dist_and_0)) {
+            return nullptr;
+        } else if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
             return slot;
         } else {
-            FindResult neednt_grow = this->indirect_insert_to_place<true>(ctrl, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
+            FindResult neednt_grow = this->indirect_insert_to_place(ctrl, dist_and_hash);
+            return ((neednt_grow == kIsNotExists) ? slot : nullptr);
         }
     }
 
     // Use in rehash_impl()
     void insert_no_grow(slot_type * old_slot) {
         slot_type * new_slot = this->find_and_insert_no_grow(old_slot->value.first);
+        while (new_slot == nullptr) {
+            // The capacity is too small to place all slots within the lookup limit.
+            this->grow_if_necessary();
+            new_slot = this->find_and_insert_no_grow(old_slot->value.first);
+        }
 
         SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
         this->slot_size_++;
@@ -6280,6 +6304,11 @@ InsertOrGrow_Start:
     // Use in rehash_impl()
     void insert_no_grow(slot_type * old_slot, std::uint8_t ctrl_hash) {
         slot_type * new_slot = this->find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
+        while (new_slot == nullptr) {
+            // The capacity is too small to place all slots within the lookup limit.
+            this->grow_if_necessary();
+            new_slot = this->find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
+        }
 
         SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
         this->slot_size_++;
@@ -6289,6 +6318,11 @@ InsertOrGrow_Start:
     // Use in rehash_impl()
     void indirect_insert_no_grow(slot_type * old_slot) {
         slot_type * new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first);
+        while (new_slot == nullptr) {
+            // The capacity is too small to place all slots within the lookup limit.
+            this->grow_if_necessary();
+            new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first);
+        }
 
         SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
         this->slot_size_++;
@@ -6298,6 +6332,11 @@ InsertOrGrow_Start:
     // Use in rehash_impl()
     void indirect_insert_no_grow(slot_type * old_slot, std::uint8_t ctrl_hash) {
         slot_type * new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
+        while (new_slot == nullptr) {
+            // The capacity is too small to place all slots within the lookup limit.
+            this->grow_if_necessary();
+            new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
+        }
 
         SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
         this->slot_size_++;
@@ -6329,7 +6368,7 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -6372,7 +6411,7 @@ Insert_To_Slot:
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { slot, false };
         } else {
-            FindResult neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
+            FindResult neednt_grow = this->insert_to_place(ctrl, slot, dist_and_hash);
             return { slot, (neednt_grow == kNeedGrow) };
         }
     }
-- 
2.43.0


From a2c3de9b855e3d8d119ad40cb51289fa16f7f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 23/98] fix: robin_hash_map copy construction in the indirect
 layout

---
 src/jstd/hashmap/robin_hash_map.h | 110 +-----------------------------
 1 file changed, 1 insertion(+), 109 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 1582329..c636f55 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6345,119 +6345,11 @@ InsertOrGrow_Start:
 
     ////////////////////////////////////////////////////////////////////////////////////////////
 
-    template <typename KeyT>
-    std::pair<slot_type *, bool>
-    unique_find_and_insert(const KeyT & key) {
-        hash_code_t hash_code = this->get_hash(key);
-        return this->unique_find_and_insert(key, hash_code);
-    }
-
-    template <typename KeyT>
-    JSTD_NO_INLINE
-    std::pair<slot_type *, bool>
-    unique_find_and_insert(const KeyT & key, hash_code_t hash_code) {
-        size_type slot_index = this->index_for_hash(hash_code);
-        std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
-
-        ctrl_type * ctrl = this->ctrl_at(slot_index);
-        slot_type * slot = this->slot_at(slot_index);
-        ctrl_type dist_and_0;
-
-        while (dist_and_0.value <= ctrl->value) {
-            dist_and_0.incDist();
-            ctrl++;
-        }
-
-        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
-        } else {
-            slot += dist_and_0.dist;
-        }
-
-        ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
-
-#if 0
-        slot_type * last_slot = this->last_slot();
-
-        // Find the first empty slot and insert
-        while (slot < last_slot) {
-            group_type group(ctrl);
-            std::uint32_t maskEmpty = group.matchEmptyAndDistance(dist_and_hash.dist);
-            if (maskEmpty != 0) {
-                // Found a [EmptyEntry] to insert
-                size_type pos = BitUtils::bsf32(maskEmpty);
-                size_type index = group.index(0, pos);
-                ctrl += index;
-                slot += index;
-                dist_and_hash.dist += std::uint8_t(index);
-                goto Insert_To_Slot;
-            }
-            dist_and_hash.incDist(kGroupWidth);
-            ctrl += kGroupWidth;
-            slot += kGroupWidth;
-            assert(dist_and_hash.value >= 0 && dist_and_hash.uvalue < this->max_distance());
-        }
-
-        return { nullptr, false };
-
-Insert_To_Slot:
-#endif
-        if (ctrl->isEmpty()) {
-            this->setUsedCtrl(ctrl, dist_and_hash);
-            return { slot, false };
-        } else {
-            FindResult neednt_grow = this->insert_to_place(ctrl, slot, dist_and_hash);
-            return { slot, (neednt_grow == kNeedGrow) };
-        }
-    }
-
-    void unique_insert(const value_type & value) {
-        auto find_info = this->unique_find_and_insert(value.first);
-        slot_type * new_slot = find_info.first;
-        bool need_grow = find_info.second;
-
-        if (need_grow) {
-            this->grow_if_necessary();
-            this->unique_insert(value);
-            return;
-        }
-
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, value);
-        this->slot_size_++;
-        assert(this->slot_size() <= this->slot_capacity());
-    }
-
-    void unique_insert(value_type && value) {
-        auto find_info = this->unique_find_and_insert(value.first);
-        slot_type * new_slot = find_info.first;
-        bool need_grow = find_info.second;
-
-        if (need_grow) {
-            this->grow_if_necessary();
-            this->unique_insert(std::forward<value_type>(value));
-            return;
-        }
-
-        if (kIsLayoutCompatible) {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot,
-                                        std::move(*reinterpret_cast<mutable_value_type *>(&value)));
-        } else {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot, std::move(value));
-        }
-        this->slot_size_++;
-        assert(this->slot_size() <= this->slot_capacity());
-    }
-
     // Use in constructor
     template <typename InputIter>
     void unique_insert(InputIter first, InputIter last) {
         for (InputIter iter = first; iter != last; ++iter) {
-            this->unique_insert(static_cast<value_type>(*iter));
+            this->emplace_impl<false>(*iter);
         }
     }
 
-- 
2.43.0


From 9400d098262e8e567efdb28dab4d6d3e4e4e629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 24/98] fix: robin_hash_map erase by iterator, by range and
 erase_if

---
 src/jstd/hashmap/robin_hash_map.h | 64 ++++++++++++++++---------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index c636f55..ace4038 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -2889,7 +2889,7 @@ public:
 
         slot_type * slot() {
             const slot_type * _slot = this->owner_->slot_at(this->index_);
-            return const_cast<this_type *>(_slot);
+            return const_cast<slot_type *>(_slot);
         }
 
         const slot_type * slot() const {
@@ -3733,23 +3733,15 @@ public:
     }
 
     iterator erase(iterator pos) {
-        if (likely(pos->owner() == std::addressof(*this))) {
-            size_type ctrl_index = this->index_of(pos);
+        size_type ctrl_index = this->index_of(pos);
+        if (!kIsIndirectKV) {
+            // The next slots maybe have been moved back to here.
             this->erase_slot(ctrl_index);
-            ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-            return this->next_valid_iterator(ctrl, pos);
+            return this->next_valid_iterator(this->ctrl_at(ctrl_index), this->iterator_at(ctrl_index));
         } else {
-            size_type to_erase_idx = this->find_ctrl_index(pos);
-            if (likely(to_erase_idx != this->max_slot_capacity())) {
-                if (!kIsIndirectKV)
-                    this->erase_slot(to_erase_idx);
-                else
-                    this->indirect_erase_slot(to_erase_idx);
-                ctrl_type * ctrl = this->ctrl_at(to_erase_idx);
-                return this->next_valid_iterator(ctrl, iterator(this, to_erase_idx));
-            } else {
-                return { this, this->max_slot_capacity() };
-            }
+            // The last slot has been moved to here.
+            this->indirect_erase_slot(ctrl_index);
+            return pos;
         }
     }
 
@@ -3757,19 +3749,30 @@ public:
         return this->erase(iterator(pos));
     }
 
-    iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        if (likely(first.owner() == this)) {
-            for (; first != last; ++first) {
-                size_type ctrl_index = this->index_of(first);
-                this->erase_slot(ctrl_index);
+    iterator erase(iterator first, iterator last) {
+        if (!kIsIndirectKV) {
+            // Erasing changes the position of the last, so count the slots first.
+            size_type num_slots = 0;
+            for (iterator iter = first; iter != last; ++iter) {
+                num_slots++;
             }
+            while (num_slots != 0) {
+                first = this->erase(first);
+                num_slots--;
+            }
+            return first;
         } else {
-            for (; first != last; ++first) {
-                this->erase_slot(*first);
+            // It needs to be traversed from the last to the first.
+            while (last != first) {
+                --last;
+                this->erase(last);
             }
+            return first;
         }
-        return { first };
+    }
+
+    iterator erase(const_iterator first, const_iterator last) {
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -6581,13 +6584,12 @@ erase_if(jstd::robin_hash_map<Key, Value, Hash, KeyEqual, LayoutPolicy, Alloc> &
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
-    auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    auto iter = hash_map.begin();
+    while (iter != hash_map.end()) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
-- 
2.43.0


From 96f292720b45e4182cab674a1c53b20994568192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 25/98] fix: robin_hash_map stays valid when constructing an
 element or allocating throws

---
 src/jstd/hashmap/robin_hash_map.h | 150 +++++++++++++++++++-----------
 1 file changed, 97 insertions(+), 53 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index ace4038..7957210 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3092,7 +3092,12 @@ public:
         size_type input_size = jstd::distance(first, last);
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
-        this->insert(first, last);
+        try {
+            this->insert(first, last);
+        } catch (...) {
+            this->destroy();
+            throw;
+        }
     }
 
     template <typename InputIter>
@@ -3222,7 +3227,12 @@ public:
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type reserve_capacity = (init_capacity >= init_list.size()) ? init_capacity : init_list.size();
         this->reserve_for_insert(reserve_capacity);
-        this->insert(init_list.begin(), init_list.end());
+        try {
+            this->insert(init_list.begin(), init_list.end());
+        } catch (...) {
+            this->destroy();
+            throw;
+        }
     }
 
     robin_hash_map(std::initializer_list<value_type> init_list,
@@ -4365,7 +4375,6 @@ private:
             new_max_lookups = (std::max)(new_max_lookups * 2, kMinLookups);
         else
             new_max_lookups = (std::min)(new_max_lookups * 4, size_type(std::uint8_t(kMaxDist) + 1));
-        this->max_lookups_ = new_max_lookups;
 
         size_type new_ctrl_capacity = new_capacity + new_max_lookups;
         size_type new_group_count = (new_ctrl_capacity + (kGroupWidth - 1)) / kGroupWidth;
@@ -4388,7 +4397,13 @@ private:
         this->clear_ctrls(new_ctrls, new_capacity, new_max_lookups, new_group_count);
 
 #if ROBIN_USE_SEPARATE_SLOTS
-        slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        slot_type * new_slots;
+        try {
+            new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        } catch (...) {
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, new_ctrls, ctrl_alloc_size);
+            throw;
+        }
 #else
         slot_type * new_slots = this->AlignedSlots<kSlotAlignment>(new_ctrls, ctrl_alloc_size);
 #endif
@@ -5897,7 +5912,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, value);
+            this->construct_used_slot(slot, value);
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5922,7 +5937,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<actual_value_type>(value));
+            this->construct_used_slot(slot, std::forward<actual_value_type>(value));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5961,8 +5976,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::forward<KeyT>(key),
+            this->construct_used_slot(slot, std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
@@ -6005,8 +6019,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(slot, std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
@@ -6048,8 +6061,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(slot, std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
             this->slot_size_++;
@@ -6088,32 +6100,36 @@ InsertOrGrow_Start:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
-        auto find_info = this->find_and_insert(tmp_slot->value.first);
-        slot_type * slot = find_info.first;
-        FindResult is_exists = find_info.second;
+        slot_type * slot;
+        FindResult is_exists;
+        try {
+            std::pair<slot_type *, FindResult> find_info = this->find_and_insert(tmp_slot->value.first);
+            while (find_info.second == kNeedGrow) {
+                this->grow_if_necessary();
+                find_info = this->find_and_insert(tmp_slot->value.first);
+            }
+            slot = find_info.first;
+            is_exists = find_info.second;
+            if (is_exists == kIsExists) {
+                // The key to be inserted already exists.
+                if (AlwaysUpdate) {
+                    slot->value.second = std::move(tmp_slot->value.second);
+                }
+            }
+        } catch (...) {
+            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+            throw;
+        }
+
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-
             SlotPolicyTraits::transfer(&this->allocator_, slot, tmp_slot);
             this->slot_size_++;
-            return { this->iterator_at(slot), true };
-        } else if (is_exists > kIsNotExists) {
-            // The key to be inserted already exists.
-            assert(is_exists == kIsExists);
-            if (AlwaysUpdate) {
-                slot->value.second = std::move(tmp_slot->value.second);
-            }
-            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
-            return { this->iterator_at(slot), false };
         } else {
-            assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            if (kIsLayoutCompatible)
-                return this->emplace(std::move(tmp_slot->mutable_value));
-            else
-                return this->emplace(std::move(tmp_slot->value));
+            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
         }
+        return { this->iterator_at(slot), (is_exists == kIsNotExists) };
     }
 
     ////////////////////////////////////////////////////////////////////////////////////////////
@@ -6126,8 +6142,7 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(slot, std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
@@ -6147,8 +6162,7 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
+            this->construct_used_slot(slot, std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
@@ -6382,7 +6396,14 @@ InsertOrGrow_Start:
         assert(curr_ctrl->isUsed());
 
         this->destroy_slot(curr_slot);
+        this->release_slot(curr_ctrl, curr_slot);
 
+        assert(this->slot_size_ > 0);
+        this->slot_size_--;
+    }
+
+    // Release a ctrl whose slot is not constructed, the next slots are moved back.
+    void release_slot(ctrl_type * curr_ctrl, slot_type * curr_slot) {
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
         slot_type * next_slot = curr_slot + std::ptrdiff_t(1);
 
@@ -6402,9 +6423,6 @@ InsertOrGrow_Start:
         }
 
         this->setUnusedCtrl(curr_ctrl);
-
-        assert(this->slot_size_ > 0);
-        this->slot_size_--;
     }
 
     template <typename KeyT>
@@ -6437,6 +6455,28 @@ InsertOrGrow_Start:
         size_type erase_slot_index = curr_ctrl->getIndex();
         assert(curr_ctrl->isUsed());
 
+        this->indirect_release_ctrl(curr_ctrl);
+
+        assert(this->slot_size_ > 0);
+        this->slot_size_--;
+
+        size_type last_slot_index = this->slot_size_;
+        slot_type * last_slot = this->slot_at(last_slot_index);
+
+        if (erase_slot_index != last_slot_index) {
+            slot_type * erase_slot = this->slot_at(erase_slot_index);
+
+            ctrl_type * last_key_ctrl = this->find_ctrl(last_slot->key, last_slot_index);
+            assert(last_key_ctrl != nullptr);
+            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
+
+            this->swap_slot(erase_slot, last_slot);
+        }
+        this->destroy_slot(last_slot);
+    }
+
+    // Release a ctrl, the next ctrls are moved back.
+    void indirect_release_ctrl(ctrl_type * curr_ctrl) {
         ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
 
@@ -6453,23 +6493,27 @@ InsertOrGrow_Start:
         }
 
         this->setUnusedCtrl(curr_ctrl);
+    }
 
-        assert(this->slot_size_ > 0);
-        this->slot_size_--;
-
-        size_type last_slot_index = this->slot_size_;
-        slot_type * last_slot = this->slot_at(last_slot_index);
-
-        if (erase_slot_index != last_slot_index) {
-            slot_type * erase_slot = this->slot_at(erase_slot_index);
-
-            ctrl_type * last_key_ctrl = this->find_ctrl(last_slot->key, last_slot_index);
-            assert(last_key_ctrl != nullptr);
-            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
-
-            this->swap_slot(erase_slot, last_slot);
+    // Construct a slot whose ctrl has been marked as used, if it throws, the ctrl is released.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_used_slot(slot_type * slot, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            if (!kIsIndirectKV) {
+                this->release_slot(this->ctrl_at(this->index_of(slot)), slot);
+            } else {
+                size_type slot_index = this->index_of(slot);
+                ctrl_type * ctrl = this->ctrls();
+                while (!ctrl->isUsed() || (ctrl->getIndex() != slot_index)) {
+                    ctrl++;
+                }
+                this->indirect_release_ctrl(ctrl);
+            }
+            throw;
         }
-        this->destroy_slot(last_slot);
     }
 
     // TODO: Optimize this assuming *this and other don't overlap.
-- 
2.43.0


From 04862042af5c04703fe22101f056136e94e134de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 26/98] fix: robin_hash_map end() of an empty table, range
 construction from a single pass range

---
 src/jstd/hashmap/robin_hash_map.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7957210..2b5dee2 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3089,7 +3089,12 @@ public:
         allocator_(alloc),
         ctrl_allocator_(alloc), slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = jstd::distance(first, last);
+        // Note: Counting consumes a single pass range, so only count multi pass iterators.
+        size_type input_size = 0;
+        if (std::is_convertible<typename std::iterator_traits<InputIter>::iterator_category,
+                                std::forward_iterator_tag>::value) {
+            input_size = static_cast<size_type>(jstd::distance(first, last));
+        }
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         try {
@@ -3313,7 +3318,8 @@ public:
         return (size_type(ctrl.getDist()) >= this->max_lookups());
     }
     size_type max_slot_capacity() const {
-        return (this->slot_capacity() + this->max_lookups());
+        // An empty table has no slots at all: end() is the index 0, like last_slot().
+        return ((this->slot_mask_ != 0) ? (this->slot_capacity() + this->max_lookups()) : 0);
     }
 
     constexpr size_type bucket_count() const {
-- 
2.43.0


From ac29edc866d5fd567a673c4475d83803a69d6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 27/98] fix: robin_hash_map::find() of an absent key returns
 end() in the indirect layout

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 2b5dee2..f2292de 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3580,7 +3580,7 @@ public:
         if (!kIsIndirectKV)
             return this->iterator_at(this->index_of(slot));
         else
-            return this->iterator_at(slot);
+            return ((slot != this->last_slot()) ? this->iterator_at(slot) : this->end());
     }
 
     std::pair<iterator, iterator> equal_range(const key_type & key) {
-- 
2.43.0


From 233848b8078dab1ebaf6e098f0aa06f818f6ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 28/98] fix: max_load_factor(mlf) of the flat maps must not
 grow the table with every call, robin applies it at once

---
 src/jstd/hashmap/group15_flat_table.hpp | 9 ++++++++-
 src/jstd/hashmap/group16_flat_table.hpp | 9 ++++++++-
 src/jstd/hashmap/robin_hash_map.h       | 3 ++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 7d98ca4..7d7e8ad 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -626,10 +626,17 @@ public:
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
+        if (this->slots() == nullptr)
+            return;
+
+        // Only grow if the elements need it: the capacity does not depend on the number of calls.
+        size_type new_capacity = this->shrink_to_fit_capacity(this->size());
         size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
         if (new_ctrl_capacity > this->ctrl_capacity()) {
             this->rehash(new_ctrl_capacity);
+        } else {
+            this->slot_threshold_ = (std::min)(this->slot_threshold_,
+                                               this->calc_slot_threshold(this->slot_capacity()));
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index f004ce4..6036525 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -585,10 +585,17 @@ public:
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
+        if (this->slots() == nullptr)
+            return;
+
+        // Only grow if the elements need it: the capacity does not depend on the number of calls.
+        size_type new_capacity = this->shrink_to_fit_capacity(this->size());
         size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
         if (new_ctrl_capacity > this->ctrl_capacity()) {
             this->rehash(new_ctrl_capacity);
+        } else {
+            this->slot_threshold_ = (std::min)(this->slot_threshold_,
+                                               this->calc_slot_threshold(this->slot_capacity()));
         }
     }
 
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f2292de..c021984 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3347,7 +3347,8 @@ public:
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
         size_type now_slot_size = this->slot_size();
-        size_type new_slot_threshold = this->slot_threshold();
+        size_type new_slot_threshold = (this->slot_mask_ != 0) ? this->calc_slot_threshold(this->slot_capacity()) : 0;
+        this->slot_threshold_ = new_slot_threshold;
         if (now_slot_size > new_slot_threshold) {
             size_type min_required_capacity = this->min_require_capacity(now_slot_size);
             if (min_required_capacity > this->slot_capacity()) {
-- 
2.43.0


From e52d974336d2728fbb1f8284a6c5d0b785bf9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 29/98] fix: insert(pair&&) works for mapped types that cannot
 be copied

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 src/jstd/hashmap/robin_hash_map.h       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 7d7e8ad..95d8a52 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2558,7 +2558,7 @@ private:
                     else
                         jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
                 } else {
-                    slot->value.second = value.second;
+                    slot->value.second = std::forward<ValueT>(value).second;
                 }
             }
         }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 6036525..96fb6d3 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2394,7 +2394,7 @@ private:
                     else
                         jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
                 } else {
-                    slot->value.second = value.second;
+                    slot->value.second = std::forward<ValueT>(value).second;
                 }
             }
         }
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index c021984..012525f 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5955,7 +5955,7 @@ InsertOrGrow_Start:
                 if (is_rvalue_ref)
                     slot->value.second = std::move(value.second);
                 else
-                    slot->value.second = value.second;
+                    slot->value.second = std::forward<actual_value_type>(value).second;
             }
             return { this->iterator_at(slot), false };
         } else {
-- 
2.43.0


From 7b19896d59e6222caa59cc984fa04bd94aab9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 30/98] fix: intel_crc32_x86/x64 must not read past the end of
 the string

---
 src/jstd/hasher/hash_crc32.h | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index a3aff9e..caadc57 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -13,6 +13,7 @@
 #include "jstd/hasher/hashes.h"
 
 #include <assert.h>
+#include <string.h>
 
 // Just for coding in msvc or test, please comment it in the release version.
 #ifdef _MSC_VER
@@ -102,7 +103,6 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint32_t);
-    static const uint32_t kMaskOne = 0xFFFFFFFFUL;
     const char * data_end = data + length;
 
     uint32_t crc32 = ~uint32_t(0);
@@ -121,11 +121,8 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint32_t data32 = *(uint32_t *)(data);
-                uint32_t rest = (uint32_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (uint32_t)kStepSize);
-                uint32_t mask = kMaskOne >> (rest * 8U);
-                data32 &= mask;
+                uint32_t data32 = 0;
+                memcpy((void *)&data32, (const void *)data, (size_t)remain);
                 crc32 = _mm_crc32_u32(crc32, data32);
             }
             break;
@@ -142,7 +139,6 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne = 0xFFFFFFFFFFFFFFFFULL;
     const char * data_end = data + length;
 
     uint64_t crc64 = ~uint64_t(0);
@@ -161,11 +157,8 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint64_t data64 = *(uint64_t *)(data);
-                size_t rest = (size_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (size_t)kStepSize);
-                uint64_t mask = kMaskOne >> (rest * 8U);
-                data64 &= mask;
+                uint64_t data64 = 0;
+                memcpy((void *)&data64, (const void *)data, (size_t)remain);
                 crc64 = _mm_crc32_u64(crc64, data64);
             }
             break;
-- 
2.43.0


From 1e3562c9fe6c80de41b6ca3103113f0f7cefb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 31/98] fix: BKDRHash of wide strings must not read past the
 end of the string

---
 src/jstd/hasher/hashes.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index e4eecce..f1e290b 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -309,7 +309,7 @@ static std::uint32_t BKDRHash(const CharTy * key, std::size_t len)
     static const std::uint32_t seed_3 = seed_2 * seed;
     static const std::uint32_t seed_4 = seed_2 * seed_2;
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
@@ -346,7 +346,7 @@ static std::uint32_t BKDRHash_31(const CharTy * key, std::size_t len)
     static const std::uint32_t seed_3 = seed_2 * seed;
     static const std::uint32_t seed_4 = seed_2 * seed_2;
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
@@ -380,7 +380,7 @@ static std::uint32_t BKDRHash_31_std(const CharTy * key, std::size_t len)
 {
     static const std::uint32_t seed = 31U;   // 31, 33, 131, 1313, 13131, 131313, etc ...
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
-- 
2.43.0


From e9ca4a98b3919c2efe012a8fb1c2947439dcc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 32/98] fix: hash_helper<T *> hashes the pointer, it must not
 read what follows the pointee

---
 src/jstd/hasher/hash_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index d27bc78..060054a 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -165,13 +165,13 @@ struct JSTD_DLL hash_helper<T *, ResultType, HashFunc> {
 
     static result_type getHashCode(const key_type * key) {
         if (HashFunc == HashFunc_CRC32C)
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)&key, sizeof(key_type *)));
         else if (HashFunc == HashFunc_Time31)
-            return static_cast<result_type>(hashes::Times31((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31((const char *)&key, sizeof(key_type *)));
         else if (HashFunc == HashFunc_Time31Std)
-            return static_cast<result_type>(hashes::Times31Std((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31Std((const char *)&key, sizeof(key_type *)));
         else
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)&key, sizeof(key_type *)));
     }
 };
 
-- 
2.43.0


From 8682126e739ba258d9d6676da2029b4afd7ea2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 33/98] fix: the default hash_helper must hash the characters
 of a string, not its object representation

---
 src/jstd/hasher/hash_helper.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 060054a..a2437ac 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -206,7 +206,6 @@ struct JSTD_DLL string_hash_helper {
     }
 };
 
-#if JSTD_HAVE_SSE42_CRC32C
 
 /***************************************************************************
 template <>
@@ -293,7 +292,6 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
     }
 };
 
-#endif // JSTD_HAVE_SSE42_CRC32C
 
 /***************************************************************************
 template <>
-- 
2.43.0


From 82d85a63c19db786b4d76271433eac602c6669df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 34/98] fix: an empty string has one hash code, whether it is a
 string, a view or a pointer and length

---
 src/jstd/hasher/hash_helper.h | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index a2437ac..aab323e 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -35,7 +35,7 @@
                 >::type decay_type;                                             \
                                                                                 \
         static ResultType getHashCode(char_type * data, std::size_t length) {   \
-            if (likely(data != nullptr && length != 0))                         \
+            if (likely(data != nullptr || length == 0))                         \
                 return (ResultType)HashFunc((const char *)data,                 \
                                             length * sizeof(char_type));        \
             else                                                                \
@@ -190,7 +190,7 @@ struct JSTD_DLL string_hash_helper {
     typedef typename T::value_type char_type;
 
     static ResultType getHashCode(const key_type & key) {
-        if (key.c_str() != nullptr) {
+        if (key.c_str() != nullptr || key.size() == 0) {
             if (HashFunc == HashFunc_CRC32C)
                 return static_cast<result_type>(hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(char_type)));
             else if (HashFunc == HashFunc_Time31)
@@ -249,10 +249,7 @@ struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_CRC32C> {
     typedef std::uint32_t  result_type;
 
     static std::uint32_t getHashCode(const jstd::string_view & key) {
-        if (likely(key.c_str() != nullptr))
-            return hashes::hash_crc32(key.c_str(), key.size());
-        else
-            return 0;
+        return hashes::hash_crc32(key.c_str(), key.size());
     }
 };
 
@@ -261,10 +258,7 @@ struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_CRC32C>
     typedef std::uint32_t  result_type;
 
     static std::uint32_t getHashCode(const jstd::wstring_view & key) {
-        if (likely(key.c_str() != nullptr))
-            return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
-        else
-            return 0;
+        return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
     }
 };
 
@@ -273,10 +267,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char
     typedef std::uint32_t  result_type;
 
     static std::uint32_t getHashCode(const jstd::basic_string_view<char, jstd::char_traits<char>> & key) {
-        if (likely(key.c_str() != nullptr))
-            return hashes::hash_crc32(key.c_str(), key.size());
-        else
-            return 0;
+        return hashes::hash_crc32(key.c_str(), key.size());
     }
 };
 
@@ -285,10 +276,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
     typedef std::uint32_t  result_type;
 
     static std::uint32_t getHashCode(const jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>> & key) {
-        if (likely(key.c_str() != nullptr))
-            return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
-        else
-            return 0;
+        return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
     }
 };
 
-- 
2.43.0


From 007bead602a14eae24ca53ab1620a50ac496258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 35/98] fix: the portable uint128_mul() lost the carry of the
 middle products

---
 src/jstd/hasher/hashes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index f1e290b..d8c45dc 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -606,9 +606,9 @@ _uint128_t uint128_mul(uint64_t multiplicand, uint64_t multiplier)
     uint64_t product_03 = (uint64_t)high0 * high1;
 
     /* Now add the products together. These will never overflow. */
-    uint64_t middle = product_01 + product_02 + (uint32_t)(product_00 >> 32);
+    uint64_t middle = product_02 + (uint32_t)(product_00 >> 32) + (uint32_t)(product_01 & 0xFFFFFFFFul);
     uint64_t low64  = (uint32_t)(product_00 & 0xFFFFFFFFul) | (middle << 32);
-    uint64_t high64 = product_03 + (uint32_t)(middle >> 32);
+    uint64_t high64 = product_03 + (uint32_t)(product_01 >> 32) + (uint32_t)(middle >> 32);
     return _uint128_t(low64, high64);
 #endif // __i386__
 }
-- 
2.43.0


From 1f4040d3790923ee367509094409eca348fdb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 36/98] fix: libc::StrEqual() and StrCmp() with a length must
 not stop at an embedded NUL

---
 src/jstd/string/string_libc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_libc.h b/src/jstd/string/string_libc.h
index 37f4f81..af1257e 100644
--- a/src/jstd/string/string_libc.h
+++ b/src/jstd/string/string_libc.h
@@ -126,7 +126,7 @@ inline
 bool StrEqual(const char * str1, const char * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::strncmp(str1, str2, count) == 0);
+    return (std::memcmp(str1, str2, count) == 0);
 }
 
 template <>
@@ -134,7 +134,7 @@ inline
 bool StrEqual(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::wcsncmp(str1, str2, count) == 0);
+    return (std::wmemcmp(str1, str2, count) == 0);
 }
 
 template <typename CharTy>
@@ -271,13 +271,13 @@ int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
 template <>
 inline
 int StrCmp(const char * str1, const char * str2, std::size_t count) {
-    return std::strncmp(str1, str2, count);
+    return std::memcmp(str1, str2, count);
 }
 
 template <>
 inline
 int StrCmp(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
-    return std::wcsncmp(str1, str2, count);
+    return std::wmemcmp(str1, str2, count);
 }
 
 template <typename CharTy>
-- 
2.43.0


From c1f152f8912f5fa5f0f6168198beb84e2f7e6370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 37/98] fix: stl::StrEqual() with two lengths did not return
 the result

---
 src/jstd/string/string_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_stl.h b/src/jstd/string/string_stl.h
index ed17d13..2d363be 100644
--- a/src/jstd/string/string_stl.h
+++ b/src/jstd/string/string_stl.h
@@ -71,7 +71,7 @@ bool StrEqual(const CharTy * str1, std::size_t len1, const CharTy * str2, std::s
     }
     else {
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
-            StrEqual(str1, str2, len1);
+            return StrEqual(str1, str2, len1);
         }
         else {
             // The str1 and str2 is a same string.
-- 
2.43.0


From 47ef4687f7f6d06e6a2ad74e8a963e5c6d2ccb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 38/98] fix: stl::StrCmp() must compare wide characters, not
 their bytes

---
 src/jstd/string/string_stl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/string/string_stl.h b/src/jstd/string/string_stl.h
index 2d363be..be6c063 100644
--- a/src/jstd/string/string_stl.h
+++ b/src/jstd/string/string_stl.h
@@ -145,7 +145,10 @@ inline
 int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return std::memcmp((const void *)str1, (const void *)str2, count * sizeof(CharTy));
+    if (sizeof(CharTy) == 1)
+        return std::memcmp((const void *)str1, (const void *)str2, count);
+    else
+        return libc::StrCmp(str1, str2, count);
 }
 
 /*********************************************************************
-- 
2.43.0


From eb70b5f8743957935d9330acdc8a4419790ba338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 39/98] fix: str_utils::compare_safe() of two null strings is
 equal

---
 src/jstd/string/string_utils.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index a550915..5086039 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -597,7 +597,6 @@ template <typename CharTy>
 static inline
 int compare_safe_impl(const CharTy * str1, const CharTy * str2, std::size_t count)
 {
-    assert(str1 != str2);
     if (likely(str1 != nullptr)) {
         if (likely(str2 != nullptr)) {
             return str_utils::compare(str1, str2, count);
@@ -606,8 +605,8 @@ int compare_safe_impl(const CharTy * str1, const CharTy * str2, std::size_t coun
             return CompareResult::IsBigger;
         }
     } else {
-        assert(str1 == nullptr && str2 != nullptr);
-        return CompareResult::IsSmaller;
+        assert(str1 == nullptr);
+        return ((str2 != nullptr) ? CompareResult::IsSmaller : CompareResult::IsEqual);
     }
 }
 
-- 
2.43.0


From 85516117d1c8c90041597bc8a6633ccfa74b70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 40/98] fix: the SSE 4.2 string compare must not read behind
 the strings, cut the length to an int or halve wide characters

---
 src/jstd/string/string_utils.h | 55 ++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index 5086039..4fedc1d 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -137,6 +137,25 @@ wchar_t * str_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 
 ////////////////////////////////// is_equal() //////////////////////////////////////
 
+#if defined(__SSE4_2__)
+
+// Load the first len characters of the str, and nothing behind them.
+template <typename CharTy>
+static inline
+__m128i sse_load(const CharTy * str, int len)
+{
+    if (likely(len >= (int)(sizeof(__m128i) / sizeof(CharTy)))) {
+        return _mm_loadu_si128((const __m128i *)str);
+    }
+    else {
+        __m128i block = _mm_setzero_si128();
+        std::memcpy((void *)&block, (const void *)str, (std::size_t)len * sizeof(CharTy));
+        return block;
+    }
+}
+
+#endif // __SSE4_2__
+
 #if 0
 
 template <typename CharTy>
@@ -189,12 +208,16 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
 
-    int slength = (int)length;
+    // PCMPESTRC can not compare 32 bits characters.
+    if (sizeof(CharTy) != jstd::SSEHelper<CharTy>::kWordSize)
+        return libc::StrEqual(str1, str2, length);
+
+    std::intptr_t slength = (std::intptr_t)length;
     while (likely(slength > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slength >= kMaxSize) ? kMaxSize : slength;
+        int len = (slength >= kMaxSize) ? kMaxSize : (int)slength;
         assert(len > 0);
+        __m128i __str1 = sse_load(str1, len);
+        __m128i __str2 = sse_load(str2, len);
 
         int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
         str1 += kMaxSize;
@@ -429,13 +452,17 @@ int compare(const CharTy * str1, const CharTy * str2, std::size_t count)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    int slen = (int)count;
+    // PCMPESTRI can not compare 32 bits characters.
+    if (sizeof(CharTy) != jstd::SSEHelper<CharTy>::kWordSize)
+        return libc::StrCmp(str1, str2, count);
+
+    std::intptr_t slen = (std::intptr_t)count;
 
     while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
+        int len = (slen >= kMaxSize) ? kMaxSize : (int)slen;
         assert(len > 0);
+        __m128i __str1 = sse_load(str1, len);
+        __m128i __str2 = sse_load(str2, len);
 
         int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
         int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
@@ -493,13 +520,17 @@ int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::siz
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
     std::size_t count = (len1 <= len2) ? len1 : len2;
-    int slen = (int)count;
+    // PCMPESTRI can not compare 32 bits characters.
+    if (sizeof(CharTy) != jstd::SSEHelper<CharTy>::kWordSize)
+        return libc::StrCmp(str1, len1, str2, len2);
+
+    std::intptr_t slen = (std::intptr_t)count;
 
     while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
+        int len = (slen >= kMaxSize) ? kMaxSize : (int)slen;
         assert(len > 0);
+        __m128i __str1 = sse_load(str1, len);
+        __m128i __str2 = sse_load(str2, len);
 
         int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
         int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
-- 
2.43.0


From 9779838219236ee45d282daec49784385f173063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 41/98] fix: the 64 bits string compare must not read behind
 the strings and must cover wide characters

---
 src/jstd/string/string_utils.h | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index 4fedc1d..fb93839 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -246,21 +246,22 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
     assert(str1 != nullptr && str2 != nullptr);
 
     static const std::size_t kMaxSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne64 = 0xFFFFFFFFFFFFFFFFULL;
 
-    uint64_t * __str1 = (uint64_t * )str1;
-    uint64_t * __str2 = (uint64_t * )str2;
+    const char * __str1 = (const char *)str1;
+    const char * __str2 = (const char *)str2;
+    length *= sizeof(CharTy);
 
     while (likely(length > 0)) {
         assert(__str1 != nullptr && __str2 != nullptr);
         if (likely(length >= kMaxSize)) {
             // Compare 8 bytes each time.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
+            uint64_t val64_1, val64_2;
+            std::memcpy(&val64_1, __str1, kMaxSize);
+            std::memcpy(&val64_2, __str2, kMaxSize);
             if (likely(val64_1 == val64_2)) {
                 // Full matched, continue match next kMaxSize bytes.
-                __str1++;
-                __str2++;
+                __str1 += kMaxSize;
+                __str2 += kMaxSize;
                 length -= kMaxSize;
                 continue;
             }
@@ -270,17 +271,12 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
             }
         }
         else {
-            // Get the mask64
             assert(length > 0 && length < kMaxSize);
-            uint32_t rest = (uint32_t)(kMaxSize - length);
-            assert(rest > 0 && rest < (uint32_t)kMaxSize);
-            uint64_t mask64 = kMaskOne64 >> (rest * 8U);
 
             // Compare the remain bytes.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
-            val64_1 &= mask64;
-            val64_2 &= mask64;
+            uint64_t val64_1 = 0, val64_2 = 0;
+            std::memcpy(&val64_1, __str1, length);
+            std::memcpy(&val64_2, __str2, length);
             if (likely(val64_1 == val64_2)) {
                 // Full matched, return true.
                 return true;
-- 
2.43.0


From f0e339bed70a5c49460478f444c32efda2220902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 42/98] fix: string_traits::copy() copies every character and
 returns the count

---
 src/jstd/string/string_traits.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 8adf27f..1143f39 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -28,9 +28,8 @@ struct JSTD_DLL string_traits {
     typedef std::int32_t    state_type;
 
     static size_type copy(char_type * dest, const char_type * src, size_type count) {
-        char_type * result =  str_utils::str_copy(dest, src, count);
-        assert(result >= dest);
-        return size_type(result - dest);
+        str_utils::mem_copy(dest, src, count);
+        return count;
     }
 
     static bool is_equal(const char_type * s1, const char_type * s2) {
-- 
2.43.0


From 083c2d7849e0d593c5877437e0ac1ab5c5c42672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 43/98] fix: mem_copy() of wide strings took the length in
 bytes

---
 src/jstd/string/string_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index fb93839..c8208c4 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -94,7 +94,7 @@ char * mem_copy(char * dest, const char * src, std::size_t count)
 static inline
 wchar_t * mem_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 {
-    return std::wmemcpy(dest, src, count * sizeof(wchar_t));
+    return std::wmemcpy(dest, src, count);
 }
 
 ////////////////////////////////// str_copy() //////////////////////////////////////
-- 
2.43.0


From d177a01f4c18ccfcffc26ecae676fb91dfab3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 44/98] fix: an empty string_view equals any other empty one,
 with a null pointer or without

---
 src/jstd/string/string_traits.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 1143f39..3e30202 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -41,6 +41,9 @@ struct JSTD_DLL string_traits {
     }
 
     static bool is_equal(const char_type * s1, size_type len1, const char_type * s2, size_type len2) {
+        // An empty string may have a null pointer.
+        if (len1 == 0 || len2 == 0)
+            return (len1 == len2);
         return str_utils::is_equal_safe(s1, len1, s2, len2);
     }
 
@@ -53,6 +56,9 @@ struct JSTD_DLL string_traits {
     }
 
     static int compare(const char_type * s1, size_type len1, const char_type * s2, size_type len2) {
+        // An empty string may have a null pointer.
+        if (len1 == 0 || len2 == 0)
+            return (len1 > len2) ? CompareResult::IsBigger : ((len1 < len2) ? CompareResult::IsSmaller : CompareResult::IsEqual);
         return str_utils::compare_safe(s1, len1, s2, len2);
     }
 };
-- 
2.43.0


From ea8ea9434a51ce28b96bea2a3293c5d4940d9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 45/98] fix: the orderings of string_view must use the sign of
 compare(), <= and >= were reversed

---
 src/jstd/string/string_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index f565c38..3e843bd 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -523,19 +523,19 @@ public:
     }
 
     friend inline bool operator < (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) < CompareResult::IsEqual);
     }
 
     friend inline bool operator <= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) <= CompareResult::IsEqual);
     }
 
     friend inline bool operator > (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) > CompareResult::IsEqual);
     }
 
     friend inline bool operator >= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) >= CompareResult::IsEqual);
     }
 
 private:
-- 
2.43.0


From 666b4163a4a9a56af5dd50a771c652912fc92931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 46/98] fix: string_view: pos + count must not overflow

---
 src/jstd/string/string_view.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index 3e843bd..a8e6e5b 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -327,7 +327,7 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "copy(dest, count, pos): pos out_of_range.");
         }
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         return Traits::copy(dest, this->data() + pos, rcount);
     }
 
@@ -339,7 +339,7 @@ public:
         }
         size_type rcount;
         if (likely(count != npos))
-            rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+            rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         else
             rcount = this->size() - pos;
         return this_type(this->data() + pos, rcount);
@@ -384,7 +384,7 @@ public:
                     "is_equal(pos, count, str): pos out_of_range.");
         }
         constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->is_equal(s1, rcount, str, len2);
     }
@@ -399,8 +399,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->is_equal(s1, rcount1, s2, rcount2);
@@ -414,7 +414,7 @@ public:
         }
         constexpr size_type pos2 = 0;
         constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
@@ -462,7 +462,7 @@ public:
                     "compare(pos, count, str): pos out_of_range.");
         }
         constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->compare(s1, rcount, str, len2);
     }
@@ -477,8 +477,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->compare(s1, rcount1, s2, rcount2);
@@ -492,7 +492,7 @@ public:
         }
         constexpr size_type pos2 = 0;
         constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
-- 
2.43.0


From e984bf95306c9b83d6f0b444dc5a26625ebf3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 47/98] fix: string_view::is_equal() and compare(pos, count,
 sv) must use both lengths

---
 src/jstd/string/string_view.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index a8e6e5b..41fee0b 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -373,8 +373,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->is_equal(s1, sv.data(), count);
+        return this->is_equal(s1, rcount, sv.data(), sv.size());
     }
 
     bool is_equal(size_type pos, size_type count,
@@ -452,8 +453,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->compare(s1, sv.data(), count);
+        return this->compare(s1, rcount, sv.data(), sv.size());
     }
 
     int compare(size_type pos, size_type count, const char_type * str) const {
-- 
2.43.0


From a62a89a1aa3ae4e554223f90cf26bee119406c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 48/98] fix: string_view::is_equal() and compare() with a
 character pointer

---
 src/jstd/string/string_view.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index 41fee0b..72ec8e2 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -349,7 +349,7 @@ public:
     // is_equal(rhs)
     //
     bool is_equal(const char_type * str) const {
-        return Traits::is_equal(this->data(), str);
+        return this->is_equal(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     bool is_equal(const char_type * s1, const char_type * s2, size_type count) const noexcept {
@@ -384,7 +384,7 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
+        size_type len2 = libc::StrLen(str);
         size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->is_equal(s1, rcount, str, len2);
@@ -413,20 +413,16 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
-        constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
         size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
-        const char_type * s2 = str + pos2;
-        return this->is_equal(s1, rcount1, s2, rcount2);
+        return this->is_equal(s1, rcount1, str, count2);
     }
 
     //
     // compare(rhs)
     //
     int compare(const char_type * str) const noexcept {
-        return Traits::compare(this->data(), str);
+        return this->compare(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     int compare(const char_type * s1,
@@ -463,7 +459,7 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
+        size_type len2 = libc::StrLen(str);
         size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->compare(s1, rcount, str, len2);
@@ -492,13 +488,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
-        constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
         size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
-        const char_type * s2 = str + pos2;
-        return this->compare(s1, rcount1, s2, rcount2);
+        return this->compare(s1, rcount1, str, count2);
     }
 
     string_type to_string() const {
-- 
2.43.0


From f821aa91c4400617abae923d8092e66bf91c7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 49/98] fix: string_view::at() of a non-const view did not
 compile

---
 src/jstd/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index 72ec8e2..c6e75e7 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -309,7 +309,7 @@ public:
 
     reference at(size_type pos) {
         if (pos < this->size())
-            return this->data_[pos];
+            return const_cast<char_type *>(this->data_)[pos];
         else
             throw std::out_of_range("basic_string_view<T>::at(pos): out of range.");
     }
-- 
2.43.0


From a7d29802f0865a5406d58a6778e3a152a03ec237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 50/98] fix: operator << of string_view must write embedded
 NULs

---
 src/jstd/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index c6e75e7..47dfb90 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -500,7 +500,7 @@ public:
 
     friend inline ostream_type & operator << (ostream_type & out, const this_type & view) {
         string_type text(view.data(), view.size());
-        out << text.c_str();
+        out << text;
         return out;
     }
 
-- 
2.43.0


From 100374094225e8fc75cb748f909197916bd36806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 51/98] fix: post-increment and -decrement of the string
 iterators returned a reference to a local

---
 src/jstd/string/string_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_iterator.h b/src/jstd/string/string_iterator.h
index 2578be9..6e28dce 100644
--- a/src/jstd/string/string_iterator.h
+++ b/src/jstd/string/string_iterator.h
@@ -69,7 +69,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -82,7 +82,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
@@ -223,7 +223,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -236,7 +236,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
-- 
2.43.0


From f18274caa711b044766d9f3a99a36d28069b9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 52/98] fix: string_traits::copy() of nothing must not touch
 the pointers

---
 src/jstd/string/string_traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 3e30202..3e39d5f 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -28,7 +28,8 @@ struct JSTD_DLL string_traits {
     typedef std::int32_t    state_type;
 
     static size_type copy(char_type * dest, const char_type * src, size_type count) {
-        str_utils::mem_copy(dest, src, count);
+        if (likely(count != 0))
+            str_utils::mem_copy(dest, src, count);
         return count;
     }
 
-- 
2.43.0


From 730995a29977c06fe4976c559e4b6062dc98fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 53/98] fix: the portable 64-bit popcount used 32-bit masks

---
 src/jstd/support/BitUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 67480a9..d7d526f 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -86,9 +86,9 @@ namespace BitUtils {
     static inline
     unsigned int __internal_popcnt64(uint64_t x) {
     #if 1
-        x -=  ((x >> 1U) & 0x55555555U);
-        x  = (((x >> 2U) & 0x33333333U) + (x & 0x33333333U));
-        x  = (((x >> 4U) + x) & 0x0F0F0F0FU);
+        x -=  ((x >> 1U) & 0x5555555555555555ULL);
+        x  = (((x >> 2U) & 0x3333333333333333ULL) + (x & 0x3333333333333333ULL));
+        x  = (((x >> 4U) + x) & 0x0F0F0F0F0F0F0F0FULL);
         x +=   (x >> 8U);
         x +=   (x >> 16U);
         x +=   (x >> 32U);
-- 
2.43.0


From 10080df27234be33c251138e88b83cf9d27f0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 54/98] fix: the portable ctz negated INT_MIN

---
 src/jstd/support/BitUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index d7d526f..38f90ac 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -138,12 +138,12 @@ namespace BitUtils {
 
     static inline
     int __internal_ctz(unsigned int x) {
-        return (int)__internal_popcnt((x & -(int)x) - 1);
+        return (int)__internal_popcnt((x & (0U - x)) - 1);
     }
 
     static inline
     int __internal_ctzll(uint64_t x) {
-        return (int)__internal_popcnt64((x & -(int64_t)x) - 1);
+        return (int)__internal_popcnt64((x & (0ULL - x)) - 1);
     }
 
 #if (defined(_MSC_VER) && (_MSC_VER >= 1500)) && !defined(__clang__)
-- 
2.43.0


From 11d794283b1cadee9709f511198d03703d1654d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 55/98] fix: BitUtils::log2_int(1) is 0

---
 src/jstd/support/BitUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 38f90ac..aa42b0e 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -523,11 +523,11 @@ namespace BitUtils {
     // log2_int()
     //
     static inline uint32_t log2_32(uint32_t n) {
-        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : n;
+        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : 0;
     }
 
     static inline uint64_t log2_64(uint64_t n) {
-        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : n;
+        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : 0;
     }
 
     static inline size_t log2_int(size_t n) {
-- 
2.43.0


From 81f62dd0988f2834f0281ef92ea4a9a86415f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 56/98] fix: round_up() and next_pow2() shifted by 64 for large
 64-bit values

---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index bb4acef..67cc844 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -263,7 +263,7 @@ round_up(SizeType N)
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if (n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) {
         if ((n > 1) || (Min_n > 1)) {
             assert(signed_type(n - 1) > 0);
             std::uint32_t ms1b = bitScanReverse(n - 1);
@@ -298,7 +298,7 @@ next_pow2(SizeType N)
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if (n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) {
         if ((n > 0) || (Min_n > 0)) {
             assert(n > 0);
             std::uint32_t ms1b = bitScanReverse(n);
-- 
2.43.0


From f0f471ef644812560df2d7450369d1047d95cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 57/98] fix: log2_int() of a 32-bit value above 2^31 is 32

---
 src/jstd/support/Power2.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index 67cc844..cf6a708 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -336,17 +336,12 @@ log2_int(SizeType N)
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
-        if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
-            std::uint32_t ms1b = bitScanReverse(n - 1);
-            return return_type(ms1b + 1);
-        } else {
-            return return_type(0);
-        }
-    }
-    else {
-        return (return_type)(std::numeric_limits<unsigned_type>::max)();
+    if ((n > 1) || (Min_n > 1)) {
+        assert(signed_type(n - 1) > 0);
+        std::uint32_t ms1b = bitScanReverse(n - 1);
+        return return_type(ms1b + 1);
+    } else {
+        return return_type(0);
     }
 }
 
-- 
2.43.0


From 642839711c3e02eb10da7c3e41a9508753c5b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 58/98] fix: compile-time countTrailingZeros of a number that
 is no power of two

---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index cf6a708..501611a 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -797,8 +797,8 @@ COUNT_TRAILING_ZEROS_IMPL(0);
 
 template <std::size_t N>
 struct countTrailingZeros {
-    static constexpr std::size_t round_up_2 = is_pow2<N>::value ? N : round_up_pow2<N>::value;
-    static constexpr std::size_t value = countTrailingZeros_impl<0, round_up_2>::value;
+    static constexpr std::size_t low_bit = N & (~N + 1);
+    static constexpr std::size_t value = countTrailingZeros_impl<0, low_bit>::value;
 };
 
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4cc5ff74409ddfb0d2c2d815f4c908f65d493a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 59/98] fix: bsf64() on 32-bit words had its halves swapped

---
 src/jstd/support/BitUtils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index aa42b0e..dd46a15 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -171,12 +171,12 @@ namespace BitUtils {
         unsigned int index;
         unsigned int low = (unsigned int)(x & 0xFFFFFFFFU);
         if (low != 0) {
-            index = bsf32(low) + 32;
+            index = bsf32(low);
         }
         else {
             unsigned int high = (unsigned int)(x >> 32U);
             assert(high != 0);
-            index = bsf32(high);
+            index = bsf32(high) + 32;
         }
         return index;
     }
@@ -260,12 +260,12 @@ namespace BitUtils {
         unsigned int index;
         unsigned int low = (unsigned int)(x & 0xFFFFFFFFU);
         if (low != 0) {
-            index = bsf32(low) + 32;
+            index = bsf32(low);
         }
         else {
             unsigned int high = (unsigned int)(x >> 32U);
             assert(high != 0);
-            index = bsf32(high);
+            index = bsf32(high) + 32;
         }
         return index;
     }
-- 
2.43.0


From 88695ac1887db16a005a6080338c4ab76a00883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 60/98] fix: mm256_insert_epi32() stored zero in the odd lanes

---
 src/jstd/support/BitVec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/support/BitVec.h b/src/jstd/support/BitVec.h
index aae2f6d..945ff7f 100644
--- a/src/jstd/support/BitVec.h
+++ b/src/jstd/support/BitVec.h
@@ -680,7 +680,7 @@ __m256i mm256_insert_epi32(__m256i target, int64_t value)
     else if (index >= 1 && index < 8) {
         static const int blend_mask = 0b00000001 << index;
         __m128i low32 = _mm_cvtsi32_si128(value);
-        __m256i repeat256 = _mm256_broadcastq_epi64(low32);
+        __m256i repeat256 = _mm256_broadcastd_epi32(low32);
         result = _mm256_blend_epi32(target, repeat256, blend_mask);
     }
     else {
-- 
2.43.0


From 5a9e928a5580cc4f0fdfe3ccf45e5ccc275ba5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 61/98] fix: mm256_cvtsi256_si32_high() extended the sign

---
 src/jstd/support/BitVec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/support/BitVec.h b/src/jstd/support/BitVec.h
index 945ff7f..05df010 100644
--- a/src/jstd/support/BitVec.h
+++ b/src/jstd/support/BitVec.h
@@ -486,7 +486,7 @@ uint32_t mm256_cvtsi256_si32_low(__m256i src)
 static inline
 uint32_t mm256_cvtsi256_si32_high(__m256i src)
 {
-    return (uint32_t)(_mm256_cvtsi256_si32(src) >> 16U);
+    return ((uint32_t)_mm256_cvtsi256_si32(src) >> 16U);
 }
 
 template <int index>
-- 
2.43.0


From 9dd8ad9db41d7ce90298e5c683062abca98f37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 62/98] fix: MT19937 skipped its last word of the first block
 after srand()

---
 src/jstd/system/MT19937_32.h | 6 +++---
 src/jstd/system/MT19937_64.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 466b3bb..b865f28 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 57256a7..065ee7e 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
-- 
2.43.0


From d80eadea56871e919abb16f1602b56343ce7991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 63/98] fix: a copy of a MT19937 read the state of the original

---
 src/jstd/system/MT19937_32.h | 18 ++++++++++++++++++
 src/jstd/system/MT19937_64.h | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index b865f28..0836398 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -165,6 +165,15 @@ public:
         this->init(init_key, initSeed);
     }
 
+    MT19937_32(const MT19937_32 & src) : next(nullptr), left(1) {
+        this->copy(src);
+    }
+
+    MT19937_32 & operator = (const MT19937_32 & rhs) {
+        this->copy(rhs);
+        return *this;
+    }
+
     ~MT19937_32() {}
 
     value_type rand_max() const {
@@ -172,6 +181,15 @@ public:
     }
 
 private:
+    void copy(const MT19937_32 & src) {
+        for (size_type i = 0; i < N; ++i) {
+            this->state[i] = src.state[i];
+        }
+        this->left = src.left;
+        // It points into the own state.
+        this->next = (src.next != nullptr) ? (&this->state[0] + (src.next - &src.state[0])) : nullptr;
+    }
+
     void init(value_type initSeed = kMTDefaultSeed) {
         if (initSeed == 0) {
             time_t timer;
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 065ee7e..117eed6 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -165,6 +165,15 @@ public:
         this->init(init_key, initSeed);
     }
 
+    MT19937_64(const MT19937_64 & src) : next(nullptr), left(1) {
+        this->copy(src);
+    }
+
+    MT19937_64 & operator = (const MT19937_64 & rhs) {
+        this->copy(rhs);
+        return *this;
+    }
+
     ~MT19937_64() {}
 
     value_type rand_max() const {
@@ -172,6 +181,15 @@ public:
     }
 
 private:
+    void copy(const MT19937_64 & src) {
+        for (size_type i = 0; i < N; ++i) {
+            this->state[i] = src.state[i];
+        }
+        this->left = src.left;
+        // It points into the own state.
+        this->next = (src.next != nullptr) ? (&this->state[0] + (src.next - &src.state[0])) : nullptr;
+    }
+
     void init(value_type initSeed = kMTDefaultSeed) {
         if (initSeed == 0) {
             time_t timer;
-- 
2.43.0


From 55bdef2c5071ac466d3f81f6436dfb19281bdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 64/98] fix: ranged draws over a full or a more than half range
 divided by zero or overflowed

---
 src/jstd/system/RandomGen.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 7101494..1a29ecd 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -239,17 +239,15 @@ private:
 
     template <typename ValueType, typename UnsignedType = ValueType>
     static ValueType nextInteger(ValueType minValue, ValueType maxValue) {
-        ValueType result;
-        if (minValue <= maxValue) {
-            result = minValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(maxValue - minValue + 1));
+        UnsignedType low  = static_cast<UnsignedType>((minValue <= maxValue) ? minValue : maxValue);
+        UnsignedType high = static_cast<UnsignedType>((minValue <= maxValue) ? maxValue : minValue);
+        // The count of values is 0 if the range includes all the values.
+        UnsignedType count = high - low + 1;
+        UnsignedType value = static_cast<UnsignedType>(this_type::template nextInteger<ValueType>());
+        if (count != 0) {
+            value %= count;
         }
-        else {
-            assert(minValue > maxValue);
-            result = maxValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(minValue - maxValue + 1));
-        }
-        return result;
+        return static_cast<ValueType>(low + value);
     }
 
     template <typename ValueType, typename UnsignedType = ValueType>
-- 
2.43.0


From 8f7b7dfa4b91a29c99b6c27c4867ab1448726b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 65/98] fix: nextInt(maxValue) of a negative bound was out of
 range

---
 src/jstd/system/RandomGen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 1a29ecd..05b9335 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -160,7 +160,7 @@ public:
     }
 
     static std::intptr_t nextInt(std::intptr_t maxValue) {
-        return this_type::nextUInt(0, maxValue);
+        return this_type::nextInt(0, maxValue);
     }
 
     static std::size_t nextUInt(std::size_t minValue, std::size_t maxValue) {
-- 
2.43.0


From 26f41db514709d444563225293dea7087ebb203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 66/98] fix: MT19937_64 was seeded with the shifts and
 multipliers of the 32-bit generator

---
 src/jstd/system/MT19937_64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 117eed6..05a5758 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -198,7 +198,7 @@ private:
         }
         this->state[0] = initSeed;
         for (size_type j = 1; j < N; ++j) {
-            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 30)) + (value_type)j);
+            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 62)) + (value_type)j);
             // See Knuth TAOCP Vol2. 3rd Ed. P.106 for multiplier.
             // In the previous versions, MSBs of the seed affect
             // only MSBs of the array state[].
@@ -227,8 +227,8 @@ private:
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1664525ul)) + init_key[j] + (value_type)j;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 3935559000370003845ull)) + init_key[j] + (value_type)j;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             ++j;
@@ -242,8 +242,8 @@ private:
 
         for (k = N - 1; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1566083941ul)) - (value_type)i;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 2862933555777941757ull)) - (value_type)i;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             if (i >= N) {
-- 
2.43.0


From 695cdcd35658c45e4879e4c6b3ce51e555d4c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 67/98] fix: MT19937 generated most of its state from memory
 behind it

---
 src/jstd/system/MT19937_32.h | 4 ++--
 src/jstd/system/MT19937_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 0836398..a21ef89 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -263,10 +263,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 05a5758..33bdb95 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -263,10 +263,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
-- 
2.43.0


From e376742a4909b0ecd233f9cdf6912be8c7dfd225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 68/98] fix: MT19937_64 joined words at bit 63 instead of 31

---
 src/jstd/system/MT19937_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 33bdb95..c7ef856 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -272,7 +272,7 @@ private:
     }
 
     value_type mixbits(value_type u, value_type v) const {
-        return (u & 0x8000000000000000ull) | (v & 0x7FFFFFFFFFFFFFFFull);
+        return (u & 0xFFFFFFFF80000000ull) | (v & 0x000000007FFFFFFFull);
     }
 
     value_type twist(value_type u, value_type v) const {
-- 
2.43.0


From 3e29d98a35626656195925ddbf2f4d660b309e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 69/98] fix: a ranged real draw could be rounded past its upper
 bound

---
 src/jstd/system/RandomGen.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 05b9335..8bfb12e 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -190,9 +190,13 @@ public:
         float result;
         if (minValue < maxValue) {
             result = minValue + (this_type::nextFloat() * (maxValue - minValue));
+            if (result > maxValue)
+                result = maxValue;
         }
         else if (minValue > maxValue) {
             result = maxValue + (this_type::nextFloat() * (minValue - maxValue));
+            if (result > minValue)
+                result = minValue;
         }
         else {
             result = minValue;
@@ -204,9 +208,13 @@ public:
         double result;
         if (minValue < maxValue) {
             result = minValue + (this_type::nextDouble() * (maxValue - minValue));
+            if (result > maxValue)
+                result = maxValue;
         }
         else if (minValue > maxValue) {
             result = maxValue + (this_type::nextDouble() * (minValue - maxValue));
+            if (result > minValue)
+                result = minValue;
         }
         else {
             result = minValue;
@@ -218,9 +226,13 @@ public:
         double result;
         if (minValue < maxValue) {
             result = minValue + (this_type::nextDouble53() * (maxValue - minValue));
+            if (result > maxValue)
+                result = maxValue;
         }
         else if (minValue > maxValue) {
             result = maxValue + (this_type::nextDouble53() * (minValue - maxValue));
+            if (result > minValue)
+                result = minValue;
         }
         else {
             result = minValue;
-- 
2.43.0


From 141dbc6f432cb5929f67a019313537dc2a264d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 70/98] fix: flat16 matchEmptyOrDeleted also matched the end
 mark

---
 src/jstd/hashmap/flat16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index ab9ca88..6db7a23 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -321,7 +321,7 @@ public:
             __m128i tag_bits = _mm_set1_epi8(kEndOfMark);
             __m128i ctrl_bits = _mm_loadu_si128((const __m128i *)data);
             __m128i match_mask = _mm_cmplt_epi8_fixed(ctrl_bits, tag_bits);
-            std::uint32_t mask = (std::uint32_t)_mm_movemask_epi8(ctrl_bits);
+            std::uint32_t mask = (std::uint32_t)_mm_movemask_epi8(match_mask);
             return mask;
         }
 
-- 
2.43.0


From 294dda38db4897925d79b0105fb71e5b78faece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 71/98] fix: flat16 erase() could end a probe that had passed
 over the slot

---
 src/jstd/hashmap/flat16_hash_map.h | 41 ++++++++++++++++--------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 6db7a23..946fa0b 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2745,28 +2745,31 @@ private:
         // Increment the left empties first, and decrement it when is setDeleted().
         this->left_empties_++;
 
-        const group_type & group = this->get_group(start_slot);
-        if (group.hasAnyEmpty()) {
-            control.setEmpty();
-            this->setUnusedMirrorCtrl(index, kEmptyEntry);
-        } else {
-            size_type slot_index = this->slot_next_group(start_slot);
-            if (slot_index != start_slot) {
-                const group_type & group = this->get_group(slot_index);
-                if (!group.isAllEmpty()) {
-                    // Decrement the left empties when is setDeleted().
-                    this->left_empties_--;
-                    control.setDeleted();
-                    this->setUnusedMirrorCtrl(index, kDeletedEntry);
-                } else {
-                    control.setEmpty();
-                    this->setUnusedMirrorCtrl(index, kEmptyEntry);
-                }
+        // A probe window can start at any of the kGroupWidth slots up to and including the index.
+        // If any of these windows may have been full, a probe may have passed over the slot,
+        // and it must not become a [EmptyEntry], which ends a probe.
+        bool maybe_passed = false;
+        if (this->slot_capacity() > kGroupWidth) {
+            size_type prev_slot = this->round_index(start_slot - kGroupWidth);
+            std::uint32_t maskAfter  = this->get_group(start_slot).matchEmpty();
+            std::uint32_t maskBefore = this->get_group(prev_slot).matchEmpty();
+            if (maskAfter == 0 || maskBefore == 0) {
+                maybe_passed = true;
             } else {
-                control.setEmpty();
-                this->setUnusedMirrorCtrl(index, kEmptyEntry);
+                size_type used_after  = BitUtils::bsf32(maskAfter);
+                size_type used_before = (kGroupWidth - 1) - BitUtils::bsr32(maskBefore);
+                maybe_passed = ((used_after + used_before) >= kGroupWidth);
             }
         }
+        if (maybe_passed) {
+            // Decrement the left empties when is setDeleted().
+            this->left_empties_--;
+            control.setDeleted();
+            this->setUnusedMirrorCtrl(index, kDeletedEntry);
+        } else {
+            control.setEmpty();
+            this->setUnusedMirrorCtrl(index, kEmptyEntry);
+        }
 
         // Destroy slot
         this->destroy_slot(index);
-- 
2.43.0


From 7dfbe2b5c71bd82baf25e3caf5a7f3aeb2aa3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 72/98] fix: flat16 clear() left most of the controls as they
 were

---
 src/jstd/hashmap/flat16_hash_map.h | 41 +++++++++++++++---------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 946fa0b..d0c5273 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1733,10 +1733,7 @@ private:
     void destroy_group() noexcept {
         if (this->groups_ != nullptr) {
             if (!finitial) {
-                for (size_type group_index = 0; group_index <= this->group_mask(); group_index++) {
-                    group_type * group = this->group_at(group_index);
-                    group->clear();
-                }
+                this->clear_groups(this->groups_, this->group_count(), this->slot_capacity());
             }
             if (finitial) {
                 delete[] this->groups_;
@@ -1871,22 +1868,7 @@ private:
         this->create_group<true>(new_capacity);
     }
 
-    template <bool initialize = false>
-    void create_group(size_type init_capacity) {
-        size_type new_capacity;
-        if (initialize)
-            new_capacity = calc_capacity(init_capacity);
-        else
-            new_capacity = init_capacity;
-        assert(new_capacity > 0);
-        assert(new_capacity >= kMinCapacity);
-
-        size_type group_count = (new_capacity + (kGroupWidth - 1)) / kGroupWidth;
-        assert(group_count > 0);
-        group_type * new_groups = new group_type[group_count + 1];
-        groups_ = new_groups;
-        group_mask_ = group_count - 1;
-
+    static void clear_groups(group_type * new_groups, size_type group_count, size_type new_capacity) {
 #if 1
         std::memset((void *)new_groups, kEmptyEntry, sizeof(group_type) * group_count);
 #else
@@ -1907,6 +1889,25 @@ private:
         ctrl_type * new_controls = (ctrl_type *)new_groups;
         ctrl_type * endof_ctrl = new_controls + new_capacity;
         endof_ctrl->setEndOf();
+    }
+
+    template <bool initialize = false>
+    void create_group(size_type init_capacity) {
+        size_type new_capacity;
+        if (initialize)
+            new_capacity = calc_capacity(init_capacity);
+        else
+            new_capacity = init_capacity;
+        assert(new_capacity > 0);
+        assert(new_capacity >= kMinCapacity);
+
+        size_type group_count = (new_capacity + (kGroupWidth - 1)) / kGroupWidth;
+        assert(group_count > 0);
+        group_type * new_groups = new group_type[group_count + 1];
+        groups_ = new_groups;
+        group_mask_ = group_count - 1;
+
+        this->clear_groups(new_groups, group_count, new_capacity);
 
         slot_type * slots = slot_allocator_.allocate(new_capacity);
         slots_ = slots;
-- 
2.43.0


From dff338aefb99e7e04d6e6f300b018f7baa2a7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 73/98] fix: flat16 drop_deleted_no_grow() lost the elements

---
 src/jstd/hashmap/flat16_hash_map.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index d0c5273..a6a0fff 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2031,8 +2031,8 @@ private:
             groups[group_index].conventDeletedToEmptyAndUsedToDeleted();
         }
 
-        // Copy and mirror the beginning control bytes.
-        this->template copy_and_mirror_controls<false>();
+        // Copy and mirror the beginning control bytes, and keep the end mark.
+        this->template copy_and_mirror_controls<true>();
     }
 
     JSTD_FORCED_INLINE
@@ -2129,15 +2129,17 @@ private:
 
         for (size_type index = 0; index < this->slot_capacity(); index++) {
             ctrl_type * ctrl = this->control_at(index);
-            if (ctrl->isDeleted()) {
+            if (!ctrl->isDeleted()) {
                 continue;
             }
             slot_type * slot = this->slot_at(index);
             std::uint8_t ctrl_hash;
             size_type target = this->find_first_non_used_slot(slot->value.first, ctrl_hash);
-            intptr_t distance = intptr_t(index - target);
-            if (distance < intptr_t(kGroupWidth) && distance >= 0) {
-                // If the distance of old index and new index is less than kGroupWidth,
+            size_type first_slot = this->index_for(this->get_hash(slot->value.first));
+            size_type old_window = this->round_index(index - first_slot) / kGroupWidth;
+            size_type new_window = this->round_index(target - first_slot) / kGroupWidth;
+            if (old_window == new_window) {
+                // If the old index and new index are in the same window of the probe,
                 // we don't need to move it because it's already in the best position.
                 ctrl->setUsed(ctrl_hash);
                 this->setUsedMirrorCtrl(index, ctrl_hash);
-- 
2.43.0


From c85927f8fc331e7bb967d93c38f278ac396304e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 74/98] fix: flat16 count of left empties went stale or wrapped
 around

---
 src/jstd/hashmap/flat16_hash_map.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index a6a0fff..eeac8f6 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1103,7 +1103,8 @@ public:
         return ((this->slot_capacity() - this->slot_threshold()) + left_empties_);
     }
     size_type slot_deleted() const {
-        return (this->slot_used() - this->slot_size());
+        size_type slot_used = this->slot_used();
+        return ((slot_used > this->slot_size()) ? (slot_used - this->slot_size()) : 0);
     }
     size_type slot_used() const {
         return (this->slot_threshold() - this->left_empties());
@@ -1140,15 +1141,17 @@ public:
         if (old_slot_used > new_slot_threshold) {
             size_type min_required_capacity;
             size_type slot_deleted = old_slot_used - this->slot_size();
+            min_required_capacity = this->min_require_capacity(this->slot_size());
             if ((this->slot_capacity() <= size_type(32)) ||
                 (slot_deleted < (this->slot_capacity() / 8)) ||
-                (min_required_capacity = this->min_require_capacity(this->slot_size()) >
-                 this->slot_capacity())) {
-                this->rehash(this->slot_size());
+                (min_required_capacity > this->slot_capacity())) {
+                this->rehash_impl<true, true>((std::max)(min_required_capacity, this->slot_size()));
             } else {
                 // Reorder slot and no grow
                 this->drop_deleted_no_grow();
             }
+        } else {
+            this->left_empties_ = new_slot_threshold - old_slot_used;
         }
     }
 
@@ -2011,7 +2014,7 @@ private:
             }
 
             assert(this->slot_size() == old_slot_size);
-            left_empties_ -= this->slot_size();
+            this->reset_left_empties();
 
             this->slot_allocator_.deallocate(old_slots, old_slot_capacity);
 
@@ -2100,7 +2103,8 @@ private:
 
     JSTD_FORCED_INLINE
     void reset_left_empties() {
-        this->left_empties_ = this->slot_threshold() - this->slot_size();
+        size_type threshold = this->slot_threshold();
+        this->left_empties_ = (threshold > this->slot_size()) ? (threshold - this->slot_size()) : 0;
     }
 
     void drop_deleted_no_grow() {
-- 
2.43.0


From 85d83eac76e418f7d1db0288cafd09b52ec6aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 75/98] fix: flat16 rehash never ended if only slot 0 was left

---
 src/jstd/hashmap/flat16_hash_map.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index eeac8f6..bd8b7b1 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2261,10 +2261,11 @@ private:
                 return this->round_index(start_index + pos);
             }
             slot_index = this->slot_next_group(slot_index);
-            assert(slot_index != first_slot);
-        } while (1);
+        } while (slot_index != first_slot);
 
-        return npos;
+        // Only the first slot is unused, whose mirror always is the end mark.
+        assert(this->control_at(0)->isEmptyOrDeleted());
+        return 0;
     }
 
     JSTD_FORCED_INLINE
@@ -2287,10 +2288,11 @@ private:
                 return this->round_index(start_index + pos);
             }
             slot_index = this->slot_next_group(slot_index);
-            assert(slot_index != first_slot);
-        } while (1);
+        } while (slot_index != first_slot);
 
-        return npos;
+        // Only the first slot is unused, whose mirror always is the end mark.
+        assert(this->control_at(0)->isEmptyOrDeleted());
+        return 0;
     }
 
     // Use in rehash_impl()
-- 
2.43.0


From 6938ae78e61da9917cfc47e78578eefa19ab6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 76/98] fix: flat16 at() did not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index bd8b7b1..6e1efc1 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1314,7 +1314,7 @@ public:
         size_type index = this->find_impl(key);
         if (index != npos) {
             slot_type * slot = this->slot_at(index);
-            return slot->second;
+            return slot->value.second;
         } else {
             throw std::out_of_range("std::out_of_range exception: jstd::flat16_hash_map<K,V>::at(key), "
                                     "the specified key is not exists.");
@@ -1325,7 +1325,7 @@ public:
         size_type index = this->find_impl(key);
         if (index != npos) {
             slot_type * slot = this->slot_at(index);
-            return slot->second;
+            return slot->value.second;
         } else {
             throw std::out_of_range("std::out_of_range exception: jstd::flat16_hash_map<K,V>::at(key) const, "
                                     "the specified key is not exists.");
-- 
2.43.0


From ef0835821d3db39ad8945fd0f658d11704b179f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 77/98] fix: flat16 insert_or_assign() moved from a lvalue key,
 and with a hint did not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 6e1efc1..e65dab0 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1420,17 +1420,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 78594bea8bb58c5385452f98b5a10afbebeb2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 78/98] fix: flat16 erase(iterator) did not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index e65dab0..f8d251b 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1486,7 +1486,7 @@ public:
 
     iterator erase(iterator pos) {
         size_type index = this->index_of(pos);
-        this->erase_slot(pos);
+        this->erase_slot(index);
         return ++pos;
     }
 
-- 
2.43.0


From 0590d3d519d7f774bcf71966112c78e0f0930ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 79/98] fix: flat16 at() const did not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index f8d251b..9be709c 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1324,7 +1324,7 @@ public:
     const mapped_type & at(const key_type & key) const {
         size_type index = this->find_impl(key);
         if (index != npos) {
-            slot_type * slot = this->slot_at(index);
+            const slot_type * slot = this->slot_at(index);
             return slot->value.second;
         } else {
             throw std::out_of_range("std::out_of_range exception: jstd::flat16_hash_map<K,V>::at(key) const, "
-- 
2.43.0


From 51f1659ddb2d458b662c95d1317ef311cad28560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 80/98] fix: robin16 lookups matched the end marks behind a
 small table

---
 src/jstd/hashmap/robin16_hash_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 1852941..2f1bb75 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -2359,9 +2359,10 @@ private:
         } else {
             assert(new_capacity < kGroupWidth);
             group_type * tail_group = (group_type *)((char *)new_groups + new_capacity * 2 * sizeof(ctrl_type));
-            (*tail_group).template fillAll<kEndOfMark>();
+            // The end mark counts as used, and a lookup would match its hash.
+            (*tail_group).template fillAll<kEmptySlot>();
 
-            new_groups[group_count].template fillAll<kEndOfMark>();
+            new_groups[group_count].template fillAll<kEmptySlot>();
         }
 
         slot_type * slots = slot_allocator_.allocate(new_capacity);
-- 
2.43.0


From f66251ad975706bf0ee6f4dcba2b2f5b68f0c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 81/98] fix: robin16 clear() left the mirrored controls

---
 src/jstd/hashmap/robin16_hash_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 2f1bb75..1df3ce1 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -2191,8 +2191,9 @@ private:
     void destroy_group() noexcept {
         if (this->groups_ != nullptr) {
             if (!finitial) {
-                for (size_type group_index = 0; group_index <= this->group_mask(); group_index++) {
-                    group_type * group = this->physical_group_at(group_index);
+                // Include the last group, which mirrors the beginning of the controls.
+                for (size_type group_index = 0; group_index < this->group_capacity(); group_index++) {
+                    group_type * group = this->groups_ + group_index;
                     group->clear();
                 }
             }
-- 
2.43.0


From 0494bae6015bdedb0708cc9f9769ebacfcbde0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 82/98] fix: robin16 erase() shifted back over the end of the
 table

---
 src/jstd/hashmap/robin16_hash_map.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 1df3ce1..49593bb 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -3562,35 +3562,34 @@ private:
     void erase_slot(size_type to_erase) {
         assert(to_erase < this->slot_capacity());
 
-        ctrl_type * curr_ctrl = this->ctrl_at(to_erase);
+        assert(this->ctrl_at(to_erase)->isUsed());
         slot_type * curr_slot = this->slot_at(to_erase);
-        assert(curr_ctrl->isUsed());
 
         this->destroy_slot(curr_slot);
 
         assert(this->slot_size_ > 0);
         this->slot_size_--;
 
-        size_type curr_index;
-        ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
-        slot_type * next_slot = curr_slot + std::ptrdiff_t(1);
+        size_type curr_index = to_erase;
+        size_type next_index = this->next_index(curr_index);
+        ctrl_type * next_ctrl = this->ctrl_at(next_index);
+        slot_type * next_slot = this->slot_at(next_index);
 
         while (!next_ctrl->isEmptyOrZero()) {
             ctrl_type dist_and_hash(*next_ctrl);
             assert(dist_and_hash.distance > 0);
             dist_and_hash.distance--;
-            curr_index = this->index_of(curr_ctrl);
             this->setUsedCtrl(curr_index, dist_and_hash.value);
             this->transfer_slot(curr_slot, next_slot);
 
-            curr_ctrl++;
-            curr_slot++;
+            curr_index = next_index;
+            curr_slot = next_slot;
 
-            next_ctrl++;
-            next_slot++;
+            next_index = this->next_index(curr_index);
+            next_ctrl = this->ctrl_at(next_index);
+            next_slot = this->slot_at(next_index);
         }
 
-        curr_index = this->index_of(curr_ctrl);
         this->setUnusedCtrl(curr_index, kEmptySlot);
     }
 
-- 
2.43.0


From 74fe9b3a10c6571def0f5d94d1914b17ffa4a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 83/98] fix: robin16 distances overflowed their byte

---
 src/jstd/hashmap/robin16_hash_map.h | 43 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 49593bb..631151b 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -2944,8 +2944,9 @@ private:
             slot_index = this->slot_next_group(slot_index);
         } while (slot_index != first_slot);
 
-        if (this->need_grow() || (last_slot == npos)) {
-            // The size of slot reach the slot threshold or hashmap is full.
+        if (this->need_grow() || (last_slot == npos) ||
+            ((distance + group_type::pos(BitUtils::bsf32(maskEmpty))) > kDistLimit)) {
+            // The size of slot reach the slot threshold, hashmap is full or the distance is too long.
             this->grow_if_necessary();
 
             return this->find_or_prepare_insert(key, o_distance, o_ctrl_hash);
@@ -3004,19 +3005,10 @@ private:
             assert(insert_ctrl.distance < kEmptySlot);
             slot_index = this->next_index(slot_index);
 
-            if (isRehashing) {
-                insert_ctrl.distance++;
-#ifdef _DEBUG
-                if (insert_ctrl.distance >= kEndOfMark)
-                    distance = distance;
-#endif
-                //insert_ctrl.distance = (insert_ctrl.distance < kEndOfMark) ? insert_ctrl.distance : (kEndOfMark - 1);
-            } else {
-                insert_ctrl.distance++;
-                if (insert_ctrl.distance > kDistLimit) {
-                    this->emplace_rich_slot(to_insert, target, insert_ctrl.value);
-                    return true;
-                }
+            insert_ctrl.distance++;
+            if (insert_ctrl.distance > kDistLimit) {
+                this->emplace_rich_slot(to_insert, target, insert_ctrl.value);
+                return true;
             }
         } while (slot_index != target);
 
@@ -3370,7 +3362,7 @@ private:
         }
     }
 
-    JSTD_FORCED_INLINE
+    JSTD_NO_INLINE
     size_type unique_prepare_insert(const key_type & key, std::uint8_t & o_distance,
                                                           std::uint8_t & o_ctrl_hash) {
         hash_code_t hash_code = this->get_hash(key);
@@ -3424,6 +3416,12 @@ private:
                 // Found a [EmptyEntry] to insert
                 size_type pos = BitUtils::bsf32(maskEmpty);
                 size_type index = group.index(slot_index, pos);
+                if ((distance + group_type::pos(pos)) > kDistLimit) {
+                    // The distance is too long.
+                    this->grow_if_necessary();
+
+                    return this->unique_prepare_insert(key, o_distance, o_ctrl_hash);
+                }
                 o_distance = this->round_dist(index, first_slot);
                 assert(o_distance == (distance + group_type::pos(pos)));
                 return this->round_index(index);
@@ -3442,13 +3440,12 @@ private:
     }
 
     // Use in rehash_impl()
-    bool move_insert_unique(slot_type * slot) {
+    void move_insert_unique(slot_type * slot) {
         std::uint8_t distance;
         std::uint8_t ctrl_hash;
         size_type target = this->unique_prepare_insert(slot->value.first,
                                                        distance, ctrl_hash);
         assert(target != npos);
-        bool need_grow = false;
 
         ctrl_type * ctrl = this->ctrl_at(target);
         if (ctrl->isEmpty()) {
@@ -3457,8 +3454,13 @@ private:
             this->setUsedCtrl(target, distance, ctrl_hash);
         } else {
             // Insert to target place
-            need_grow = this->insert_to_place<true>(target, distance, ctrl_hash);
-            assert(need_grow == false);
+            bool need_grow = this->insert_to_place<true>(target, distance, ctrl_hash);
+            if (need_grow) {
+                // The distance is too long, grow again, the slot is not moved yet.
+                this->grow_if_necessary();
+                this->move_insert_unique(slot);
+                return;
+            }
         }
 
         slot_type * new_slot = this->slot_at(target);
@@ -3471,7 +3473,6 @@ private:
         }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
-        return need_grow;
     }
 
     void insert_unique(const value_type & value) {
-- 
2.43.0


From c95e6c31442c5a33cf466e363757b03cb34715a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 84/98] fix: robin16 max_load_factor() had no effect until the
 next rehash

---
 src/jstd/hashmap/robin16_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 631151b..b7d50e0 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1514,7 +1514,8 @@ public:
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
         size_type now_slot_size = this->slot_size();
-        size_type new_slot_threshold = this->slot_threshold();
+        size_type new_slot_threshold = this->slot_threshold(this->slot_capacity());
+        this->slot_threshold_ = new_slot_threshold;
         if (now_slot_size > new_slot_threshold) {
             size_type min_required_capacity = this->min_require_capacity(now_slot_size);
             if (min_required_capacity > this->slot_capacity()) {
-- 
2.43.0


From efa51d894b46f00b9c01f8c4a7754569c8d0abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 85/98] fix: robin16 insert_or_assign() moved from a lvalue
 key, and with a hint did not compile

---
 src/jstd/hashmap/robin16_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index b7d50e0..07838dc 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1821,17 +1821,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 4b547aaf55494e3aeed3b0e87e61ca755f35b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 86/98] fix: robin rehash lost the stored hash in the direct
 layout

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 012525f..e08feaf 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6201,7 +6201,7 @@ InsertOrGrow_Start:
 
         slot += dist_and_0.dist;
 
-        ctrl_type dist_and_hash(dist_and_0);
+        ctrl_type dist_and_hash(dist_and_0, this->get_ctrl_hash(hash_code));
 
         if (this->is_over_distance(dist_and_0)) {
             return nullptr;
-- 
2.43.0


From 8d2f3bb38503b20f21a338f8ed2afdc544c1c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 87/98] fix: robin built and destroyed a spare element that was
 already moved into or out of

---
 src/jstd/hashmap/robin_hash_map.h | 49 ++-----------------------------
 1 file changed, 2 insertions(+), 47 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e08feaf..aa7d3aa 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5792,14 +5792,13 @@ InsertOrGrow_Start:
 #endif
         target++;
 
-        // Initialize the empty slot use default constructor if necessary
-        this->construct_empty_slot(empty);
+        // The empty slot is raw storage: transfer() constructs into it and destroys what it moves out of.
+        this->placement_new_slot(empty);
 
         slot_type * last_slot = this->last_slot();
         while (target < last_slot) {
             if (ctrl->isEmpty()) {
                 this->emplace_rich_slot(ctrl, target, insert, rich_ctrl);
-                this->destroy_empty_slot(empty);
                 return kIsNotExists;
             } else if (rich_ctrl.dist > ctrl->dist) {
                 std::swap(rich_ctrl.value, ctrl->value);
@@ -5821,7 +5820,6 @@ InsertOrGrow_Start:
 
         // Can't reach here, see can_insert_to_place().
         assert(false);
-        this->destroy_empty_slot(empty);
         return kNeedGrow;
     }
 
@@ -5865,49 +5863,6 @@ InsertOrGrow_Start:
         this->transfer_slot(slot, insert);
     }
 
-    JSTD_FORCED_INLINE
-    void construct_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            }
-        }
-
-        // If we don't called construct_slot(empty), then use placement new.
-        this->placement_new_slot(empty);
-    }
-
-    JSTD_FORCED_INLINE
-    void destroy_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            }
-        }
-    }
-
     ////////////////////////////////////////////////////////////////////////////////////////////
 
     template <bool AlwaysUpdate>
-- 
2.43.0


From 5e161eef4465db52fc6794779501615b017fe71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 88/98] fix: sha1_msg2 read up to 15 bytes behind a string
 whose length is no multiple of 16

---
 src/jstd/hasher/sha1.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/sha1.h b/src/jstd/hasher/sha1.h
index 5402bdb..f70d158 100644
--- a/src/jstd/hasher/sha1.h
+++ b/src/jstd/hasher/sha1.h
@@ -11,6 +11,7 @@
 #include "jstd/basic/stdsize.h"
 
 #include <assert.h>
+#include <string.h>
 
 #ifdef _MSC_VER
 #include <nmmintrin.h>  // For SSE 4.2
@@ -59,7 +60,10 @@ static uint32_t sha1_msg2_x86(const char * data, size_t length)
 
         do {
             if (likely(remain <= kMaxSize)) {
-                __m128i __data1 = _mm_loadu_si128((const __m128i *)(data + 0));
+                // Don't read past the end of the data.
+                alignas(16) char tail[16] = { 0 };
+                memcpy((void *)tail, (const void *)data, remain * sizeof(char));
+                __m128i __data1 = _mm_load_si128((const __m128i *)tail);
                 __m128i __mask1 = __ones;
 
                 uint64_t rest = (uint64_t)(kMaxSize - remain);
@@ -82,7 +86,10 @@ static uint32_t sha1_msg2_x86(const char * data, size_t length)
             }
             else if (likely(remain <= kMaxSize * 2)) {
                 __m128i __data1 = _mm_loadu_si128((const __m128i *)(data + 0));
-                __m128i __data2 = _mm_loadu_si128((const __m128i *)(data + kMaxSize));
+                // Don't read past the end of the data.
+                alignas(16) char tail[16] = { 0 };
+                memcpy((void *)tail, (const void *)(data + kMaxSize), (remain - kMaxSize) * sizeof(char));
+                __m128i __data2 = _mm_load_si128((const __m128i *)tail);
 
                 __m128i __mask2 = __ones;
 
@@ -149,7 +156,10 @@ static uint32_t sha1_msg2_x64(const char * data, size_t length)
 
         do {
             if (likely(remain <= kMaxSize)) {
-                __m128i __data1 = _mm_loadu_si128((const __m128i *)(data + 0));
+                // Don't read past the end of the data.
+                alignas(16) char tail[16] = { 0 };
+                memcpy((void *)tail, (const void *)data, remain * sizeof(char));
+                __m128i __data1 = _mm_load_si128((const __m128i *)tail);
 #if 1
                 __m128i __mask1;
 
@@ -195,7 +205,10 @@ static uint32_t sha1_msg2_x64(const char * data, size_t length)
             }
             else if (likely(remain <= kMaxSize * 2)) {
                 __m128i __data1 = _mm_loadu_si128((const __m128i *)(data + 0));
-                __m128i __data2 = _mm_loadu_si128((const __m128i *)(data + kMaxSize));
+                // Don't read past the end of the data.
+                alignas(16) char tail[16] = { 0 };
+                memcpy((void *)tail, (const void *)(data + kMaxSize), (remain - kMaxSize) * sizeof(char));
+                __m128i __data2 = _mm_load_si128((const __m128i *)tail);
 #if 1
                 __m128i __mask2;
 
-- 
2.43.0


From 146025efdfe425c2f4c05a0bcd139d983f9313d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 89/98] fix: group15 max_load_factor() never raised the
 threshold again, which broke a reserve() made later

---
 src/jstd/hashmap/group15_flat_table.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 95d8a52..669b150 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -624,6 +624,7 @@ public:
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
+        size_type old_threshold = this->calc_slot_threshold(this->slot_capacity());
         this->mlf_ = mlf_int;
 
         if (this->slots() == nullptr)
@@ -635,8 +636,10 @@ public:
         if (new_ctrl_capacity > this->ctrl_capacity()) {
             this->rehash(new_ctrl_capacity);
         } else {
-            this->slot_threshold_ = (std::min)(this->slot_threshold_,
-                                               this->calc_slot_threshold(this->slot_capacity()));
+            // Keep what the erasures have taken off the threshold.
+            size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
+            size_type lost = (old_threshold > this->slot_threshold_) ? (old_threshold - this->slot_threshold_) : 0;
+            this->slot_threshold_ = (new_threshold > lost) ? (new_threshold - lost) : 0;
         }
     }
 
-- 
2.43.0


From 36b38995e53b2c23c2d740f7f04ab131d3365cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 90/98] fix: group16 max_load_factor() never raised the
 threshold again, which broke a reserve() made later

---
 src/jstd/hashmap/group16_flat_table.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 96fb6d3..d53e11d 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -583,6 +583,7 @@ public:
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
+        size_type old_threshold = this->calc_slot_threshold(this->slot_capacity());
         this->mlf_ = mlf_int;
 
         if (this->slots() == nullptr)
@@ -594,8 +595,10 @@ public:
         if (new_ctrl_capacity > this->ctrl_capacity()) {
             this->rehash(new_ctrl_capacity);
         } else {
-            this->slot_threshold_ = (std::min)(this->slot_threshold_,
-                                               this->calc_slot_threshold(this->slot_capacity()));
+            // Keep what the erasures have taken off the threshold.
+            size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
+            size_type lost = (old_threshold > this->slot_threshold_) ? (old_threshold - this->slot_threshold_) : 0;
+            this->slot_threshold_ = (new_threshold > lost) ? (new_threshold - lost) : 0;
         }
     }
 
-- 
2.43.0


From ce8ce0e242f1ee4f488b2efd0ab41842f82ad167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 91/98] fix: string_view_array clear(), pop_back() and resize()
 leaked the elements they removed

---
 src/jstd/string/string_view_array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index 3028b55..bc0ed6f 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -127,6 +127,7 @@ public:
     const_reference back() const  { return array_.back();  }
 
     void clear() {
+        this->destroy();
         array_.clear();
     }
 
@@ -135,6 +136,9 @@ public:
     }
 
     void resize(size_type new_size) {
+        for (size_type i = new_size; i < array_.size(); i++) {
+            delete array_[i];
+        }
         array_.resize(new_size);
     }
 
@@ -147,6 +151,7 @@ public:
     }
 
     void pop_back() {
+        delete array_.back();
         array_.pop_back();
     }
 
-- 
2.43.0


From c51e3f47db7a350be14409b373bbb6f46e0d7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 92/98] fix: string_view_array begin() and end() of a const
 array, cbegin() and cend() did not compile

---
 src/jstd/string/string_view_array.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index bc0ed6f..f43a473 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -112,13 +112,11 @@ public:
 
     iterator begin()             { return array_.begin();  }
     iterator end()               { return array_.end();    }
-    const_pointer begin() const  { return array_.begin();  }
-    const_pointer end() const    { return array_.end();    }
+    const_iterator begin() const { return array_.begin();  }
+    const_iterator end() const   { return array_.end();    }
 
-    iterator cbegin()            { return array_.cbegin(); }
-    iterator cend()              { return array_.cend();   }
-    const_pointer cbegin() const { return array_.cbegin(); }
-    const_pointer cend() const   { return array_.cend();   }
+    const_iterator cbegin() const { return array_.cbegin(); }
+    const_iterator cend() const   { return array_.cend();   }
 
     reference front() { return array_.front(); }
     reference back()  { return array_.back();  }
-- 
2.43.0


From 01b958931c084b76a14219b605cdd11cdd5777d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 93/98] fix: string_view_array copying dereferenced the null
 entries resize() leaves

---
 src/jstd/string/string_view_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index f43a473..b831e0d 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -190,7 +190,8 @@ public:
 private:
     void copy_impl(const string_view_array & other) {
         for (size_type i = 0; i < other.size(); i++) {
-            element_type * new_element = new element_type(*other[i]);
+            const element_type * element = other.at(i);
+            element_type * new_element = (element != nullptr) ? new element_type(*element) : nullptr;
             this->array_.push_back(new_element);
         }
     }
-- 
2.43.0


From 29a3022c48622845f05d72895fab23cd64779033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 94/98] fix: group15 max_load_factor(float) of an empty map
 failed an assertion in debug builds

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 669b150..ac03454 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -624,7 +624,7 @@ public:
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
-        size_type old_threshold = this->calc_slot_threshold(this->slot_capacity());
+        size_type old_threshold = this->calc_slot_threshold(this->safe_slot_capacity());
         this->mlf_ = mlf_int;
 
         if (this->slots() == nullptr)
-- 
2.43.0


From 2109696f46897421d3401bc798aaed30f2ad4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 95/98] fix: robin_hash_map find() in an empty map failed an
 assertion in debug builds

---
 src/jstd/hashmap/robin_hash_map.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index aa7d3aa..eb4b0ee 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4155,7 +4155,6 @@ private:
     }
 
     size_type index_of(slot_type * slot) const {
-        assert(slot != nullptr);
         assert(slot >= this->slots());
         size_type index = (size_type)(slot - this->slots());
         assert(is_positive(index));
-- 
2.43.0


From b9dfdddd296ca6908987889abbe123640c8a65c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 96/98] fix: robin16_hash_map begin() failed an assertion in
 debug builds when the first slot is empty

---
 src/jstd/hashmap/robin16_hash_map.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 07838dc..42600be 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1550,7 +1550,6 @@ public:
 
     iterator begin() {
 #if 1
-        assert(!(this->ctrl_at(this->slot_capacity())->isEmptyOnly()));
         group_type * group = this->groups();
         group_type * last_group = this->groups() + this->group_count();
         size_type start_index = 0;
-- 
2.43.0


From 6646b0a59e613e714c19532ae7cb4aa873e6c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 97/98] fix: pow2 functions failed an assertion for large
 numbers in debug builds and did not compile with neither NDEBUG nor _DEBUG

---
 src/jstd/support/Power2.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index 501611a..2e8a6a2 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -196,12 +196,9 @@ round_down(SizeType N)
                   "Error: pow2::round_down(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n > 1) || (Min_n > 1)) {
-        assert(signed_type(n - 1) > 0);
+        assert(n > 1);
         std::uint32_t ms1b = bitScanReverse(n - 1);
         return (return_type(1) << ms1b);
     } else {
@@ -259,13 +256,10 @@ round_up(SizeType N)
                   "Error: pow2::round_up(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if (n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) {
         if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
+            assert(n > 1);
             std::uint32_t ms1b = bitScanReverse(n - 1);
             return (return_type(1) << (ms1b + 1));
         } else {
@@ -332,12 +326,9 @@ log2_int(SizeType N)
                   "Error: pow2::log2_int(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n > 1) || (Min_n > 1)) {
-        assert(signed_type(n - 1) > 0);
+        assert(n > 1);
         std::uint32_t ms1b = bitScanReverse(n - 1);
         return return_type(ms1b + 1);
     } else {
-- 
2.43.0


From be1d456e35ccaad6ef41f91225a93cf1caa646c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 98/98] fix: CRC32 of an empty string without data failed an
 assertion in debug builds

---
 src/jstd/hasher/hash_crc32.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index caadc57..53484c5 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -100,7 +100,7 @@ static uint64_t intel_int_crc32_x64(uint64_t value)
 
 static uint32_t intel_crc32_x86(const char * data, size_t length)
 {
-    assert(data != nullptr);
+    assert((data != nullptr) || (length == 0));
 
     static const ssize_t kStepSize = sizeof(uint32_t);
     const char * data_end = data + length;
@@ -136,7 +136,7 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
 
 static uint32_t intel_crc32_x64(const char * data, size_t length)
 {
-    assert(data != nullptr);
+    assert((data != nullptr) || (length == 0));
 
     static const ssize_t kStepSize = sizeof(uint64_t);
     const char * data_end = data + length;
@@ -172,7 +172,7 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
 
 static uint32_t intel_crc32_simple_x86(const char * data, size_t length)
 {
-    assert(data != nullptr);
+    assert((data != nullptr) || (length == 0));
     uint32_t crc32 = ~uint32_t(0);
 
     static const size_t kStepSize = sizeof(uint32_t);
@@ -199,7 +199,7 @@ static uint32_t intel_crc32_simple_x86(const char * data, size_t length)
 
 static uint32_t intel_crc32_simple_x64(const char * data, size_t length)
 {
-    assert(data != nullptr);
+    assert((data != nullptr) || (length == 0));
     uint64_t crc64 = ~uint64_t(0);
 
     static const size_t kStepSize = sizeof(uint64_t);
-- 
2.43.0


From 551a2896479b3037da8e7347e3a87e7dedcf9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 01/33] fix: keys with zero hash value were lost by the hash
 table

Zero marks an empty slot, an entry stored with zero hash was never found
again and its slot was silently overwritten.
---
 src/cachelot/dict.h       |  2 +-
 src/cachelot/hash_table.h | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..51d64e5 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -102,7 +102,7 @@ namespace cachelot {
             void unsafe_replace_kv(const key_type k, const hash_type h, mapped_type v) noexcept {
                 debug_assert(*this);
                 entry_type new_entry(k, v);
-                debug_assert(m_table->hash_at(m_pos) == h); (void)h;
+                debug_assert(m_table->hash_at(m_pos) == hash_table_type::stored_hash(h)); (void)h;
                 m_table->entry_at(m_pos).swap(new_entry);
             }
 
diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..ad9c9de 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -99,7 +99,6 @@ namespace cachelot {
 
         /// retrieve stored value by its key
         tuple<bool, mapped_type> get(const key_type key, const hash_type hash) const noexcept {
-            debug_assert(hash != 0);
             bool found; size_type pos;
             tie(found, pos) = entry_for(key, hash);
             mapped_type result = found ? entry_at(pos).value() : mapped_type();
@@ -110,7 +109,6 @@ namespace cachelot {
         ///
         /// @return true if new value was inserted, false if existing value was updated
         bool put(key_type key, hash_type hash, mapped_type value) noexcept {
-            debug_assert(hash != 0);
             bool found; size_type pos;
             tie(found, pos) = entry_for(key, hash);
             if (found) {
@@ -160,7 +158,6 @@ namespace cachelot {
 
         /// check if given `key` is in the hash table
         bool contains(key_type key, hash_type hash) const noexcept {
-            debug_assert(hash != 0);
             bool found; size_t __;
             tie(found, __) = entry_for(key, hash);
             return found;
@@ -169,8 +166,8 @@ namespace cachelot {
         /// retrieve position of in table for the given `key`
         ///
         /// @return either `(true, existing_entry_pos)` if key exists, or `(false, position_to_insert_new_entry)` if key wasn't found
-        tuple<bool, size_type> entry_for(const key_type key, const hash_type hash) const noexcept {
-            debug_assert(hash != 0);
+        tuple<bool, size_type> entry_for(const key_type key, hash_type hash) const noexcept {
+            hash = stored_hash(hash);
             size_type pos = desired_position(hash);
             size_type distance = 0;
             // NOTE! we may give up before we find suitable slot, then `insert` will continue search from this point
@@ -188,7 +185,8 @@ namespace cachelot {
 
         /// insert entry starting from given pos that was returned by @ref hash_table::entry_for
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
-            debug_assert(not threshold_reached()); debug_assert(hash != 0);
+            debug_assert(not threshold_reached());
+            hash = stored_hash(hash);
             entry_type entry(key, value);
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
@@ -277,6 +275,9 @@ namespace cachelot {
         /// returns max number of elements that can be stored in table
         constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
 
+        /// return hash value as it is stored in the table (zero is reserved to mark empty slots)
+        static constexpr hash_type stored_hash(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
+
     private:
         /// return position in table which element with given `hash` would occupy
         constexpr size_type desired_position(const hash_type hash) const noexcept { return hash & mask; }
-- 
2.43.0


From 73a1cb671e44bd0437903d0aacca14f33036d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:26 +0000
Subject: [PATCH 02/33] fix: hash_table::insert() returned position of the
 displaced entry

dict::entry_for() uses the returned position while dict is expanding, so it
gave out an iterator to the wrong entry.
---
 src/cachelot/hash_table.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index ad9c9de..f0a9e05 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -184,10 +184,14 @@ namespace cachelot {
         }
 
         /// insert entry starting from given pos that was returned by @ref hash_table::entry_for
+        ///
+        /// @return position of the inserted entry
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
             debug_assert(not threshold_reached());
             hash = stored_hash(hash);
             entry_type entry(key, value);
+            // position of the new entry, unknown until it takes its place
+            size_type new_entry_pos = capacity();
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
             while (not empty_at(pos)) {
@@ -197,6 +201,9 @@ namespace cachelot {
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
                     lookup_distance = existing_entry_distance;
+                    if (new_entry_pos == capacity()) {
+                        new_entry_pos = pos;
+                    }
                 }
                 pos = inc_pos(pos);
                 lookup_distance += 1;
@@ -205,7 +212,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return new_entry_pos != capacity() ? new_entry_pos : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From fee2f6dd688209a240e40834f1f10ce6438ac617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:41 +0000
Subject: [PATCH 03/33] fix: items bigger than the page minus block header
 corrupted memory

create_item() compared item size with the whole page and append/prepend did
not check it at all, such item overlapped the first block of the next page.
---
 src/cachelot/cache.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..db86f8e 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -331,6 +331,11 @@ namespace cachelot {
                 ItemPtr get() noexcept { return m_item; }
             };
 
+            /**
+             * Maximal total size of the single Item: the memory page minus the allocator metadata
+             */
+            size_t max_item_size() const noexcept { return m_allocator.page_size - memalloc::header_size(); }
+
             /**
              * Replace Item at position with another one
              */
@@ -516,6 +521,9 @@ namespace cachelot {
             if (found) {
                 auto old_item = at.value();
                 const size_t new_value_size = old_item->value().length() + piece->value().length();
+                if (Item::CalcSizeRequired(old_item->key(), new_value_size) > max_item_size()) {
+                    throw system_error(error::item_too_big);
+                }
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
@@ -645,7 +653,7 @@ namespace cachelot {
                 throw system_error(error::key_too_long);
             }
             const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (size_required > max_item_size()) {
                 throw system_error(error::item_too_big);
             }
             const auto on_delete = [=](void * ptr) noexcept -> void {
-- 
2.43.0


From c4a8d2f8aab7e01d143c8e0a849fadd2bdfbaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:41 +0000
Subject: [PATCH 04/33] fix: wrong page number for addresses beyond 4GiB of the
 arena

Offset was truncated to 32 bits before the shift.
---
 src/cachelot/memalloc-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..77f7dad 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -145,7 +145,7 @@ namespace cachelot {
         unsigned page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<unsigned>(static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size);
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From 44f74f223c7e983742365ccb60fdf38df7786515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:41 +0000
Subject: [PATCH 05/33] fix: incr/decr updated wrong dict entry after evictions

create_item() may evict items, which moves entries of the dict and invalidates
the iterator obtained before.
---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index db86f8e..4efa405 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -642,6 +642,9 @@ namespace cachelot {
             new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
+            // evictions could relocate dict entries, so obtain the position again
+            tie(found, at) = m_dict.entry_for(new_item->key(), new_item->hash());
+            debug_assert(found && at.value() == old_item);
             replace_item_at(at, _item_uniq_ptr);
             return make_tuple(true, new_int_value);
         }
-- 
2.43.0


From ad110c17fa27302e6ad0250deafcd9f5aee281a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:41 +0000
Subject: [PATCH 06/33] fix: append/prepend/incr/decr could change item
 expiration time

Expiration time was converted to TTL and back by two clock readings: the item
gained a second or became everlasting when clock ticked in between.
---
 src/cachelot/cache.h | 6 ++++--
 src/cachelot/item.h  | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 4efa405..4524e35 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -527,7 +527,8 @@ namespace cachelot {
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
-                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
+                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
@@ -639,7 +640,8 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), Item::infinite_TTL);
+            new_item->set_expiration_time(old_item->expiration_time());
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             // evictions could relocate dict entries, so obtain the position again
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..6e0aaa0 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -109,6 +109,9 @@ namespace cachelot {
             /// set new time to live
             void set_ttl(seconds secs) noexcept;
 
+            /// set new expiration time
+            void set_expiration_time(expiration_time_point when) noexcept { m_expiration_time = when; }
+
             /// check whether Item is expired
             bool is_expired() const noexcept { return m_expiration_time <= clock::now(); }
 
-- 
2.43.0


From 927f4ebf8991589ccde7dad0e868d53e1ce4a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:41 +0000
Subject: [PATCH 07/33] fix: large TTL overflowed the expiration time

Items stored with TTL about UINT32_MAX were immediately expired.
---
 src/cachelot/item.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index 6e0aaa0..dfae87d 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -186,7 +186,9 @@ namespace cachelot {
             if (s == infinite_TTL) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                const auto now = clock::now();
+                // do not let the uint32 time point wrap around
+                m_expiration_time = (s < expiration_time_point::max() - now) ? now + s : expiration_time_point::max();
             }
         }
 
-- 
2.43.0


From f06949e41250b9ba6976808b38fe0a5ae4ce4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 08/33] fix: valid 20-digit numbers were rejected by str_to_int

Digits were compared with the biggest uint64 independently of each other.
---
 src/cachelot/string_conv.h | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..c1f18f1 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -220,6 +220,8 @@ namespace cachelot {
             // returned on error
             static constexpr uint64 NO_RESULT = std::numeric_limits<uint64>::max();
 
+            static constexpr char max_uint64[] = "18446744073709551615";
+
             const auto length = end - str;
 
             // shortcut
@@ -238,26 +240,7 @@ namespace cachelot {
             switch (length) {
                 case 20: // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    if (std::lexicographical_compare(max_uint64, max_uint64 + 20, str, end)) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
-- 
2.43.0


From 166488e6e68a4659ca5d92d5c36c71c6fb778233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 09/33] fix: str_to_int of a signed type read past the end of
 empty string

---
 src/cachelot/string_conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index c1f18f1..a790e39 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -299,7 +299,7 @@ namespace cachelot {
             static constexpr int64 NO_RESULT = std::numeric_limits<int64>::max();
 
             int64 sign;
-            if (*str != '-') {
+            if (str == end || *str != '-') {
                 sign = 1;
             } else {
                 sign = -1;
-- 
2.43.0


From a35d3d7a1338dbcf77c60075068d9cc02cb4eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 10/33] fix: zero initial_dict_size was accepted and crashed
 the cache

---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 4524e35..da778aa 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -377,6 +377,9 @@ namespace cachelot {
             if (memory_limit % mem_page_size != 0) {
                 throw std::invalid_argument("memory_limit must be divisible by mem_page_size");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
-- 
2.43.0


From 3ea1af5108e02cca2e762cb9edffb1d64c41f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 11/33] fix: failed allocation of the bigger hash table left
 dict broken

Exception was thrown after the primary table had been moved away.
---
 src/cachelot/dict.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 51d64e5..8d2815e 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -287,17 +287,15 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            std::unique_ptr<hash_table_type> new_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not new_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_primary_tbl.swap(m_secondary_tbl);
+            m_primary_tbl.swap(new_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0


From 936eaa4ab3b0261eef415cb82d6d0cb0dad3737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:14 +0000
Subject: [PATCH 12/33] fix: overflow in hash_table::max_size() for 2^26 and
 more slots

---
 src/cachelot/hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index f0a9e05..ed70d39 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -280,7 +280,7 @@ namespace cachelot {
         constexpr bool empty() const noexcept { return m_size == 0; }
 
         /// returns max number of elements that can be stored in table
-        constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
+        constexpr size_type max_size() const noexcept { return static_cast<size_type>(static_cast<uint64>(capacity()) * max_load_factor_percent / 100); }
 
         /// return hash value as it is stored in the table (zero is reserved to mark empty slots)
         static constexpr hash_type stored_hash(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
-- 
2.43.0


From d6b6677c5ee664b49d69f6609eec99aa27d2b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:48 +0000
Subject: [PATCH 13/33] fix: enormous value length overflowed the item size
 check

---
 src/cachelot/cache.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index da778aa..a093e76 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -660,10 +660,11 @@ namespace cachelot {
             if (key.length() > Item::max_key_length) {
                 throw system_error(error::key_too_long);
             }
-            const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > max_item_size()) {
+            // check value_length on its own first, the total size could overflow
+            if (value_length > max_item_size() || Item::CalcSizeRequired(key, value_length) > max_item_size()) {
                 throw system_error(error::item_too_big);
             }
+            const size_t size_required = Item::CalcSizeRequired(key, value_length);
             const auto on_delete = [=](void * ptr) noexcept -> void {
                 auto i = reinterpret_cast<Item *>(ptr);
                 debug_only(bool deleted = ) this->m_dict.del(i->key(), i->hash());
-- 
2.43.0


From d774f9741d30ecc8c5c906bb44021a874ffa4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:30 +0000
Subject: [PATCH 14/33] fix: enormous size request overflowed the io_buffer
 capacity check

---
 src/server/io_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..e343ed8 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -160,7 +160,7 @@ namespace cachelot {
             }
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
-            if (new_capacity - size() >= at_least) {
+            if (at_least <= m_max_size - size()) {
                 m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
                 if (m_data != nullptr) {
                     m_capacity = new_capacity;
-- 
2.43.0


From 7894c6fb05f1821011b615c98cb6ba5244c103e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:30 +0000
Subject: [PATCH 15/33] fix: io_buffer lost its contents when it failed to grow

---
 src/server/io_buffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index e343ed8..f150ae2 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,10 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (at_least <= m_max_size - size()) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                // on failure the old block stays valid
+                auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0


From 92d5a67d4195fcf3060380558fde92d2c2c62300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:53 +0000
Subject: [PATCH 16/33] fix: C API calls left stale error after successful call

---
 src/cachelot/c_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..9570b0e 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From 772318357297863307b126f0e2dfddcc989f80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 17/33] fix: noreply commands replied with an error

---
 src/server/memcached/proto_ascii.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 6c145c2..b431445 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -299,9 +299,9 @@ namespace cachelot {
                 throw system_error(error::value_crlf_expected);
             }
             // create new item and execute the cache API
-            auto new_item = cache_api.create_item(key, calc_hash(key), value.length(), flags, keep_alive_duration);
-            new_item->assign_value(value);
             try {
+                auto new_item = cache_api.create_item(key, calc_hash(key), value.length(), flags, keep_alive_duration);
+                new_item->assign_value(value);
                 auto response = Response::NOT_A_RESPONSE;
                 bool found = false; bool stored = false;
                 switch (cmd) {
@@ -339,6 +339,10 @@ namespace cachelot {
                 }
                 return reply_with_response(send_buf, response, noreply);
             } catch (...) {
+                // valid `noreply` command must not produce any output, not even an error
+                if (noreply) {
+                    return net::READ_MORE;
+                }
                 throw;
             }
         }
@@ -360,10 +364,18 @@ namespace cachelot {
             auto delta = str_to_int<uint64>(parsed.begin(), parsed.end());
             bool noreply = maybe_noreply(args);
             bool found; uint64 new_value;
-            if (cmd == Command::INCR) {
-                tie(found, new_value) = cache_api.do_incr(key, calc_hash(key), delta);
-            } else {
-                tie(found, new_value) = cache_api.do_decr(key, calc_hash(key), delta);
+            try {
+                if (cmd == Command::INCR) {
+                    tie(found, new_value) = cache_api.do_incr(key, calc_hash(key), delta);
+                } else {
+                    tie(found, new_value) = cache_api.do_decr(key, calc_hash(key), delta);
+                }
+            } catch (...) {
+                // valid `noreply` command must not produce any output, not even an error
+                if (noreply) {
+                    return net::READ_MORE;
+                }
+                throw;
             }
             if (noreply) {
                 return net::READ_MORE;
-- 
2.43.0


From 38d7f6f82d930ffa6f96c9616277caa890d36d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:30 +0000
Subject: [PATCH 18/33] fix: pipelined commands were not handled and replies
 could be sent concurrently

---
 src/server/socket_stream.h | 42 ++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 3acc8ea..8c99aeb 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -62,9 +62,12 @@ namespace cachelot { namespace net {
         /// start asynchronous receive operation, call the Conversation::handle_data on complete
         void async_receive_some() noexcept;
 
-        /// start asynchronous send of the send buffer
+        /// start asynchronous send of the send buffer, continue with the rest of received data on complete
         void async_send_all() noexcept;
 
+        /// handle received commands one after another, there may be several of them in the receive buffer
+        void process_received_data() noexcept;
+
         /// schedule arbitrary function into IO loop
         template <typename Function>
         void post(Function fun) noexcept { m_socket.get_io_service().post(fun); }
@@ -148,18 +151,7 @@ namespace cachelot { namespace net {
                 slice receive_result;
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-                    ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
-                    self->m_recv_buf.compact();
-                    switch (reply) {
-                    case SEND_REPLY_AND_READ:
-                        self->async_send_all();
-                        // there is no `break` so we'll continue receive
-                    case READ_MORE:
-                        self->async_receive_some();
-                        break;
-                    case CLOSE_IMMEDIATELY:
-                        break;
-                    }
+                    self->process_received_data();
                 } else {
                     if (error == io_error::message_size) {
                         self->m_recv_buf.confirm_write(bytes_received);
@@ -180,11 +172,35 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
+                    self->process_received_data();
                 }
             });
     }
 
 
+    template <class Sock, class Conversation>
+    inline void stream_connection<Sock, Conversation>::process_received_data() noexcept {
+        while (true) {
+            const auto unhandled = m_recv_buf.non_read();
+            switch (handle_data(m_recv_buf, m_send_buf)) {
+            case SEND_REPLY_AND_READ:
+                // only one reply is in flight at a time, continue as soon as it is sent
+                async_send_all();
+                return;
+            case READ_MORE:
+                if (m_recv_buf.non_read() > 0 && m_recv_buf.non_read() < unhandled) {
+                    continue; // command without reply was handled, there may be one more
+                }
+                m_recv_buf.compact();
+                async_receive_some();
+                return;
+            case CLOSE_IMMEDIATELY:
+                return;
+            }
+        }
+    }
+
+
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::close() noexcept {
         if (is_open()) {
-- 
2.43.0


From 2718cdc33224508250038f091ca52ddf2f6bca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:44 +0000
Subject: [PATCH 19/33] fix: over-long request line terminated the whole server

io_buffer throws when request exceeds maximal buffer size; the exception left
noexcept async_receive_some(), close the connection instead.
---
 src/server/socket_stream.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 8c99aeb..35e4769 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -145,20 +145,25 @@ namespace cachelot { namespace net {
 
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
-        auto self = this->shared_from_this();
-        m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
-            [=](const error_code error, const size_t bytes_received) {
-                slice receive_result;
-                if (not error) {
-                    self->m_recv_buf.confirm_write(bytes_received);
-                    self->process_received_data();
-                } else {
-                    if (error == io_error::message_size) {
+        try {
+            auto self = this->shared_from_this();
+            m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
+                [=](const error_code error, const size_t bytes_received) {
+                    slice receive_result;
+                    if (not error) {
                         self->m_recv_buf.confirm_write(bytes_received);
-                        self->async_receive_some();
+                        self->process_received_data();
+                    } else {
+                        if (error == io_error::message_size) {
+                            self->m_recv_buf.confirm_write(bytes_received);
+                            self->async_receive_some();
+                        }
                     }
-                }
-            });
+                });
+        } catch (const std::exception &) {
+            // out of memory or the request exceeds maximal buffer size
+            close();
+        }
     }
 
 
-- 
2.43.0


From 8a8a20cdea98420d498426285d52efcb60ed308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:44 +0000
Subject: [PATCH 20/33] fix: value of the refused storage command was
 interpreted as commands

Storage command was refused by its length before the value was received,
then bytes of the value were handled as commands of the client.
---
 src/server/memcached/proto_ascii.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index b431445..f5964c7 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -276,9 +276,6 @@ namespace cachelot {
             auto keep_alive_duration = cache::seconds(str_to_int<cache::seconds::rep>(parsed.begin(), parsed.end()));
             tie(parsed, args) = args.split(SPACE);
             uint32 datalen = str_to_int<uint32>(parsed.begin(), parsed.end());
-            if (datalen > settings.cache.page_size) {
-                throw system_error(error::value_length);
-            }
             cache::timestamp_type cas_unique = 0;
             if (cmd == Command::CAS) {
                 tie(parsed, args) = args.split(SPACE);
@@ -288,7 +285,12 @@ namespace cachelot {
             // read <value>\r\n
             if (recv_buf.non_read() < datalen + CRLF.length()) {
                 // help buffer to grow up to the necessary size
-                recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                try {
+                    recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                } catch (const std::length_error &) {
+                    // it's impossible to receive such value, nor to skip it
+                    return net::CLOSE_IMMEDIATELY;
+                }
                 throw system_error(error::incomplete_request);
             }
             auto value = slice(recv_buf.begin_read(), datalen + CRLF.length());
-- 
2.43.0


From 2d9eb3a79b2e5da5f0d81d452013180fe0bb7f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:29 +0000
Subject: [PATCH 21/33] fix: UDP server truncated datagrams longer than receive
 buffer

The rest of datagram is lost when the buffer is shorter, such requests were
never answered.
---
 src/server/socket_datagram.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c97af8b..975064f 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -27,12 +27,14 @@ namespace cachelot { namespace net {
     class datagram_server {
         typedef SocketType socket_type;
         typedef typename socket_type::protocol_type protocol_type;
+        /// maximal size of the single datagram
+        static constexpr size_t max_datagram_size = 65536;
     public:
         /// constructor
         explicit datagram_server(io_service & ios)
             : m_ios(ios)
             , m_socket(ios)
-            , m_recv_buf(default_min_buffer_size, default_max_buffer_size)
+            , m_recv_buf(max_datagram_size, default_max_buffer_size)
             , m_send_buf(default_min_buffer_size, default_max_buffer_size) {
         }
 
@@ -84,7 +86,7 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_receive() noexcept {
-        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()), m_remote_endpoint,
+        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(max_datagram_size), m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
                 if (not error) {
@@ -92,7 +94,6 @@ namespace cachelot { namespace net {
                         if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
                             async_send_all(m_remote_endpoint);
                         }
-                        m_recv_buf.compact();
                     } catch (const std::exception &) { /* swallow exception */ }
                 } else {
                     if (error == io_error::operation_aborted) {
@@ -101,7 +102,7 @@ namespace cachelot { namespace net {
                     }
                 }
                 // we expect only one packet per datagram
-                m_recv_buf.read_all();
+                m_recv_buf.reset();
                 this->async_receive();
             });
     }
-- 
2.43.0


From 54ec1d8f61dc6918553fdb14f70dfdbbcf0b5c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:29 +0000
Subject: [PATCH 22/33] fix: header of unanswered UDP request was sent with the
 next reply

---
 src/server/memcached/conversation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/memcached/conversation.h b/src/server/memcached/conversation.h
index 3eecc29..dca5b15 100644
--- a/src/server/memcached/conversation.h
+++ b/src/server/memcached/conversation.h
@@ -85,7 +85,12 @@ namespace cachelot {
                 auto w_savepoint = send_buf.write_savepoint();
                 try {
                     handle_udp_frame_header(recv_buf, send_buf);
-                    return handle_received_data(recv_buf, send_buf, cache_api);
+                    const auto reply = handle_received_data(recv_buf, send_buf, cache_api);
+                    if (reply != net::SEND_REPLY_AND_READ) {
+                        // there is nothing to send, discard the header as well
+                        send_buf.rollback_write_transaction(w_savepoint);
+                    }
+                    return reply;
                 } catch (const std::exception & exc) {
                     send_buf.rollback_write_transaction(w_savepoint);
                     return net::READ_MORE;
-- 
2.43.0


From a0b3b910d21b99fa7f71c874a85e598c1dad39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:29 +0000
Subject: [PATCH 23/33] fix: UDP replies were mixed up when previous reply was
 not sent yet

Reply was appended to the send buffer of the reply being sent, receive next
datagram only when the previous one is answered.
---
 src/server/socket_datagram.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 975064f..16f0ef0 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -89,33 +89,37 @@ namespace cachelot { namespace net {
         m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(max_datagram_size), m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
+                bool reply_pending = false;
                 if (not error) {
                     try {
-                        if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
-                            async_send_all(m_remote_endpoint);
-                        }
+                        reply_pending = handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ;
                     } catch (const std::exception &) { /* swallow exception */ }
-                } else {
-                    if (error == io_error::operation_aborted) {
-                        // we were closed from the outside
-                        return;
-                    }
                 }
                 // we expect only one packet per datagram
                 m_recv_buf.reset();
-                this->async_receive();
+                if (not m_socket.is_open()) {
+                    // we were closed from the outside
+                    return;
+                }
+                if (reply_pending) {
+                    // next datagram will be received when the reply is sent
+                    async_send_all(m_remote_endpoint);
+                } else {
+                    this->async_receive();
+                }
             });
     }
 
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_send_all(const typename protocol_type::endpoint to) noexcept {
-        auto need_to_send = m_send_buf.non_read();
-        m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), need_to_send), to,
-            [=](error_code /*error*/, size_t /*bytes_sent*/) {
+        m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), m_send_buf.non_read()), to,
+            [=](error_code /*error*/, size_t /*bytes_sent*/) noexcept {
                 // even data was not sent completely
-                m_send_buf.confirm_read(need_to_send);
-                m_send_buf.compact();
+                m_send_buf.reset();
+                if (m_socket.is_open()) {
+                    this->async_receive();
+                }
             });
     }
 
-- 
2.43.0


From 297395a24a615375ea23b32989f1f4e26d1ef5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:04 +0000
Subject: [PATCH 24/33] fix: destructor of the moved Cache crashed

---
 src/cachelot/dict.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 8d2815e..e291cb5 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -201,7 +201,9 @@ namespace cachelot {
             if (m_secondary_tbl) {
                 m_secondary_tbl->remove_if(predicate);
             }
-            m_primary_tbl->remove_if(predicate);
+            if (m_primary_tbl) { // nothing left after the move
+                m_primary_tbl->remove_if(predicate);
+            }
         }
 
         /// @copydoc hash_table::contains
-- 
2.43.0


From ec195651f1872b2e787f8ac96866bc9c61c174ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:14 +0000
Subject: [PATCH 25/33] fix: out of memory terminated the server or left
 replies out of step

Exceptions of error reporting itself left noexcept handler. When lack of memory
interrupts the request its rest was handled as a new command.
---
 src/server/memcached/proto_ascii.cpp | 6 +++++-
 src/server/memcached/proto_ascii.h   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index f5964c7..1950c58 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -124,7 +124,7 @@ namespace cachelot {
         #undef __DO_SERIALIZE_INTEGER_ASCII
 
 
-        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) noexcept {
+        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) {
             auto r_savepoint = recv_buf.read_savepoint();
             auto w_savepoint = send_buf.write_savepoint();
             try {
@@ -222,6 +222,10 @@ namespace cachelot {
                         return net::SEND_REPLY_AND_READ;
                     }
                 }
+            } catch (const std::bad_alloc &) {
+                // rest of the request (if any) must not be handled as a new one
+                send_buf.rollback_write_transaction(w_savepoint);
+                return net::CLOSE_IMMEDIATELY;
             } catch (const std::exception & exc) {
                 // discard any written data to write error message instead
                 send_buf.rollback_write_transaction(w_savepoint);
diff --git a/src/server/memcached/proto_ascii.h b/src/server/memcached/proto_ascii.h
index 2f8ad45..9956175 100644
--- a/src/server/memcached/proto_ascii.h
+++ b/src/server/memcached/proto_ascii.h
@@ -18,7 +18,7 @@ namespace cachelot { namespace memcached {
     namespace ascii {
 
         /// Main function that process ascii protocol packets
-        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) noexcept;
+        net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api);
 
     } // namespace ascii
 
-- 
2.43.0


From e68f40a20efa306993f1dcb2b65bd0889b1a4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:30 +0000
Subject: [PATCH 26/33] fix: lack of memory to send the reply terminated the
 server

---
 src/server/socket_stream.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 35e4769..38fffe7 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -170,16 +170,21 @@ namespace cachelot { namespace net {
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
         if (m_killed) { return; }
-        auto self = this->shared_from_this();
-        asio::async_write(m_socket, asio::buffer(m_send_buf.begin_read(), m_send_buf.non_read()), asio::transfer_all(),
-            [=](error_code error, size_t bytes_sent) {
-                if (not error) {
-                    debug_assert(self->m_send_buf.non_read() == bytes_sent);
-                    self->m_send_buf.confirm_read(bytes_sent);
-                    self->m_send_buf.compact();
-                    self->process_received_data();
-                }
-            });
+        try {
+            auto self = this->shared_from_this();
+            asio::async_write(m_socket, asio::buffer(m_send_buf.begin_read(), m_send_buf.non_read()), asio::transfer_all(),
+                [=](error_code error, size_t bytes_sent) {
+                    if (not error) {
+                        debug_assert(self->m_send_buf.non_read() == bytes_sent);
+                        self->m_send_buf.confirm_read(bytes_sent);
+                        self->m_send_buf.compact();
+                        self->process_received_data();
+                    }
+                });
+        } catch (const std::exception &) {
+            // out of memory
+            close();
+        }
     }
 
 
-- 
2.43.0


From 58d8f37712b8742a114f96ed9b07c8fb72ca0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:47 +0000
Subject: [PATCH 27/33] fix: lack of memory to send UDP reply terminated the
 server

---
 src/server/socket_datagram.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 16f0ef0..b6fe51a 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -113,14 +113,20 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_send_all(const typename protocol_type::endpoint to) noexcept {
-        m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), m_send_buf.non_read()), to,
-            [=](error_code /*error*/, size_t /*bytes_sent*/) noexcept {
-                // even data was not sent completely
-                m_send_buf.reset();
-                if (m_socket.is_open()) {
-                    this->async_receive();
-                }
-            });
+        try {
+            m_socket.async_send_to(asio::buffer(m_send_buf.begin_read(), m_send_buf.non_read()), to,
+                [=](error_code /*error*/, size_t /*bytes_sent*/) noexcept {
+                    // even data was not sent completely
+                    m_send_buf.reset();
+                    if (m_socket.is_open()) {
+                        this->async_receive();
+                    }
+                });
+        } catch (const std::exception &) {
+            // out of memory, drop the reply
+            m_send_buf.reset();
+            async_receive();
+        }
     }
 
 }} // namespace cachelot::net
-- 
2.43.0


From 924be46c4bb6c3d945314d47ed595a0909a097f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:03 +0000
Subject: [PATCH 28/33] fix: big items were refused or evicted others although
 whole pages are free

---
 src/cachelot/memalloc-inl.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index 77f7dad..93820b7 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -540,6 +540,9 @@ namespace cachelot {
                         debug_assert(attempt == 1 || size_class.front()->size() >= size);
                         if (size_class.front()->size() >= size) {
                             blk = size_class.pop_front();
+                        } else if (size_class.back()->size() >= size) {
+                            // whole free pages are in the back of their size class
+                            blk = size_class.pop_back();
                         }
                     }
                     if (size_class.empty()) { // Maybe we've just took the last element
@@ -572,7 +575,12 @@ namespace cachelot {
             debug_assert(blk->size_with_header() <= page_size);
             position pos = position_from_size(blk->size());
             auto & size_class = size_classes_table[pos.absolute()];
-            size_class.push_front(blk);
+            if (blk->size_with_header() < page_size) {
+                size_class.push_front(blk);
+            } else {
+                // keep the whole pages for requests that don't fit in the leftovers of the same size class
+                size_class.push_back(blk);
+            }
             // unconditionally update bit index
             bit_index_mark_non_empty(pos);
         }
-- 
2.43.0


From 32568b03d20e91ef3060542429c01b30ba216092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 29/33] fix: incr/decr refused for lack of memory was counted
 as a hit

---
 src/cachelot/cache.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index a093e76..f38f154 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -632,11 +632,9 @@ namespace cachelot {
             if (op == ArithmeticOperation::INCR) {
                 constexpr auto max = std::numeric_limits<uint64>::max();
                 new_int_value = (max - old_int_value >= delta) ? old_int_value + delta : max;
-                STAT_INCR(cache.incr_hits, 1);
             } else {
                 debug_assert(op == ArithmeticOperation::DECR);
                 new_int_value = (old_int_value >= delta) ? old_int_value - delta : 0;
-                STAT_INCR(cache.decr_hits, 1);
             }
             // store new value as an ASCII string
             AsciiIntegerBuffer new_ascii_value;
@@ -651,6 +649,12 @@ namespace cachelot {
             tie(found, at) = m_dict.entry_for(new_item->key(), new_item->hash());
             debug_assert(found && at.value() == old_item);
             replace_item_at(at, _item_uniq_ptr);
+            if (op == ArithmeticOperation::INCR) {
+                STAT_INCR(cache.incr_hits, 1);
+            } else {
+                debug_assert(op == ArithmeticOperation::DECR);
+                STAT_INCR(cache.decr_hits, 1);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From b0c88b1d50664d9dc6afad18e82a9243c8f848f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:42 +0000
Subject: [PATCH 30/33] fix: pipelined value was refused because of already
 handled requests in the buffer

---
 src/server/io_buffer.h               | 3 +++
 src/server/memcached/proto_ascii.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index f150ae2..efdbb40 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -65,6 +65,9 @@ namespace cachelot {
         /// total buffer capacity
         size_t capacity() const noexcept { return m_capacity; }
 
+        /// capacity that buffer never exceeds
+        size_t max_size() const noexcept { return m_max_size; }
+
         /// number of written slice
         size_t size() const noexcept { return m_write_pos; }
 
diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 1950c58..7ea485b 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -292,8 +292,11 @@ namespace cachelot {
                 try {
                     recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
                 } catch (const std::length_error &) {
-                    // it's impossible to receive such value, nor to skip it
-                    return net::CLOSE_IMMEDIATELY;
+                    if (datalen + CRLF.length() > recv_buf.max_size()) {
+                        // it's impossible to receive such value, nor to skip it
+                        return net::CLOSE_IMMEDIATELY;
+                    }
+                    // there will be enough space after the handled requests are discarded
                 }
                 throw system_error(error::incomplete_request);
             }
-- 
2.43.0


From 5614e39c862ebeb78707a5d9ef5408397155ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:15 +0000
Subject: [PATCH 31/33] fix: length of the decimal text was wrong for many
 64-bit numbers

---
 src/cachelot/string_conv.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index a790e39..0807661 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -181,17 +181,23 @@ namespace cachelot {
     template <typename UIntT,
               class = typename std::enable_if<std::is_unsigned<UIntT>::value>::type>
     inline size_t uint_ascii_length(UIntT number) noexcept {
-        if (number == 0) {
-            return 1;
+        size_t length = 1;
+        while (number >= 10) {
+            number /= 10;
+            length += 1;
         }
-        return static_cast<size_t>(log10(number)) + 1;
+        return length;
     }
 
     template <typename IntT,
               class = typename std::enable_if<std::is_signed<IntT>::value>::type>
     inline size_t int_ascii_length(IntT number) noexcept {
         const size_t minus_sign_len = (number < 0) ? 1 : 0;
-        auto unsigned_number = static_cast<typename internal::numeric<IntT>::unsigned_>(abs(number));
+        typedef typename internal::numeric<IntT>::unsigned_ unsigned_type;
+        auto unsigned_number = static_cast<unsigned_type>(number);
+        if (number < 0) {
+            unsigned_number = static_cast<unsigned_type>(0u - unsigned_number);
+        }
         return minus_sign_len + uint_ascii_length(unsigned_number);
     }
 
-- 
2.43.0


From 2e4bb039c5f2ec1b8b3bac6c17291dc645419126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:22 +0000
Subject: [PATCH 32/33] fix: enormous memory amount overflowed and was accepted

---
 src/server/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index e48c7af..d93f978 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -51,10 +51,14 @@ namespace  {
         }
         size_t memory_amount;
         try {
-            memory_amount = boost::lexical_cast<size_t>(s) * units;
+            memory_amount = boost::lexical_cast<size_t>(s);
         } catch (const boost::bad_lexical_cast &) {
             throw po::invalid_option_value(s);
         }
+        if (memory_amount > std::numeric_limits<size_t>::max() / units) {
+            throw invalid_configuration("memory amount is too big");
+        }
+        memory_amount *= units;
         if (memory_amount == 0) {
             throw invalid_configuration("zero memory amount");
         }
-- 
2.43.0


From d9e23b4feab95961a3f9acc5b98c11b317ca3593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:22 +0000
Subject: [PATCH 33/33] fix: signals were ignored after SIGUSR1

---
 src/server/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index d93f978..5d0c7bc 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -10,6 +10,7 @@
 #include <server/settings.h>
 #include <server/memcached/conversation.h>
 
+#include <functional>
 #include <iostream>
 #include <boost/program_options.hpp>
 #include <signal.h>
@@ -191,18 +192,21 @@ int main(int argc, char * argv[]) {
         signals.add(SIGQUIT);
         signals.add(SIGUSR1);
 #endif
-        signals.async_wait([&reactor](const error_code& error, int signal_number) {
+        std::function<void(const error_code &, int)> on_signal = [&](const error_code & error, int signal_number) {
             if (error) { return; }
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
                 PrintStats();
+                // wait for the next signal
+                signals.async_wait(on_signal);
                 break;
 #endif
             default:
                 reactor.stop();
             }
-        });
+        };
+        signals.async_wait(on_signal);
 
         // Run reactor loop
         do {
-- 
2.43.0


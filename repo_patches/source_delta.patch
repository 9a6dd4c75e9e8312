From ec0b428064bdab4039cb2192388f1ac0858e6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 01/71] fix: vector::resize(n, true) releases the blocks it
 removes

The range passed to delete_blocks() started at the old number of blocks and
hence was empty: the external memory of the removed blocks was leaked.
---
 include/stxxl/bits/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d87be88..63415a7 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1149,7 +1149,7 @@ private:
             if (m_from != NULL)
                 m_from->set_size(new_bids_size * block_type::raw_size);
             else
-                m_bm->delete_blocks(m_bids.begin() + old_bids_size, m_bids.end());
+                m_bm->delete_blocks(m_bids.begin() + new_bids_size, m_bids.end());
 
             m_bids.resize(new_bids_size);
 
-- 
2.43.0


From de6878fca5ca77369769874fa2093fa5d3aab8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 02/71] fix: vector::resize(n, true) evicts removed pages from
 the page cache

The removed pages kept their cache slots. A later reserve() then truncated
the page table below these page numbers, and kicking such a slot accessed the
table out of bounds, or growing again revived a slot with stale content.
---
 include/stxxl/bits/containers/vector.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 63415a7..3cef07c 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1153,13 +1153,15 @@ private:
 
             m_bids.resize(new_bids_size);
 
-            // don't resize m_page_to_slot or m_page_status, because it is
-            // still needed to check page status and match the mapping
-            // m_slot_to_page
-
-            // clear dirty flag, so these pages will be never written
-            std::fill(m_page_status.begin() + new_pages_size,
-                      m_page_status.end(), (unsigned char)valid_on_disk);
+            // evict removed pages from the cache, they will never be written
+            for (size_t i = new_pages_size; i < m_page_status.size(); ++i) {
+                if (m_page_to_slot[i] != on_disk) {
+                    m_free_slots.push(m_page_to_slot[i]);
+                    m_page_to_slot[i] = on_disk;
+                }
+            }
+            m_page_status.resize(new_pages_size);
+            m_page_to_slot.resize(new_pages_size);
         }
 
         m_size = n;
-- 
2.43.0


From ce67caf7579f924f91fde62ec195bf6d1ba46120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 03/71] fix: vector_bufwriter marks the last block before
 growing as written

When the vector was enlarged at a block boundary, the block written last was
never announced to the vector. If it was the only one of its page, the page
stayed uninitialized and the elements written were lost.
---
 include/stxxl/bits/containers/vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 3cef07c..0941aa0 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -2485,6 +2485,8 @@ public:
 
                 if (m_iter.block_offset() != 0)
                     m_iter.block_externally_updated();
+                else if (m_prevblk != m_iter)
+                    m_prevblk.block_externally_updated();
             }
 
             vector_type& v = *m_iter.parent_vector();
-- 
2.43.0


From e90b39af9ba1a3a72e03bf944525ded864b009df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 04/71] fix: hash_map: the largest hash values were mapped
 behind the last bucket

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 0759bd2..cc9ccc2 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -939,9 +939,11 @@ protected:
     {
         //! TODO maybe specialize double arithmetic to integer. the old code
         //! was faulty -tb.
-        return (internal_size_type)(
+        internal_size_type i_bucket = (internal_size_type)(
             (double)n * ((double)hash_(key) / (double)std::numeric_limits<internal_size_type>::max())
             );
+        // the largest hash values are rounded up to the maximum
+        return (i_bucket < n || n == 0) ? i_bucket : n - 1;
     }
 
     /*!
-- 
2.43.0


From d5b027903607a459dede275687344b30b213630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 05/71] fix: hash_map: operator[] did not count the elements it
 inserts

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index cc9ccc2..207d3c9 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -771,6 +771,9 @@ public:
                 ? found_value
                 : value_type(key, mapped_type());
 
+            if (!(i_external < bucket.n_external_ && _eq(found_value.first, key)))
+                ++num_total_;
+
             // add a new node to the buffer. this new node's value overwrites
             // the external value if it was found and otherwise is set to (key,
             // mapped_type())
-- 
2.43.0


From 3c8b9cb688149fdc6147f0f833754eea07a4fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 06/71] fix: hash_map: erase_oblivious() of a missing key let
 the number of elements underflow

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 207d3c9..423843c 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -522,8 +522,8 @@ public:
         // not found; ignore external memory and add delete-node
         else
         {
+            // the key may not exist: num_total_ remains an upper bound
             oblivious_ = true;
-            --num_total_;
 
             if (node)
                 node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
-- 
2.43.0


From 3c58c6367dc5edb645b1a019cc0cc244de605a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 07/71] fix: hash_map: lookups, removals and oblivious
 insertions accessed a missing bucket on empty maps

---
 .../stxxl/bits/containers/hash_map/hash_map.h  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 423843c..a6c23f6 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -373,6 +373,9 @@ public:
     //! \return iterator pointing to the inserted value
     iterator insert_oblivious(const value_type& value)
     {
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+
         internal_size_type i_bucket = _bkt_num(value.first);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, value.first);
@@ -451,6 +454,9 @@ public:
     //! \return number of values actually erased (0 or 1)
     external_size_type erase(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return 0;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -505,6 +511,9 @@ public:
     //! \param key key for value to release
     void erase_oblivious(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -624,6 +633,9 @@ public:
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
 
+        if (buckets_.size() == 0)
+            return this->_end<iterator>();
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -678,6 +690,9 @@ public:
     //! \param key key for value to look up
     const_iterator find(const key_type& key) const
     {
+        if (buckets_.size() == 0)
+            return this->_end<const_iterator>();
+
         internal_size_type i_bucket = _bkt_num(key);
         const bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -745,6 +760,9 @@ public:
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
 
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
-- 
2.43.0


From 126a021ce5555657ee87f3d2344035a65fb7f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 08/71] fix: hash_map: bulk insertion dropped elements whose
 hash values collide

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index a6c23f6..fd39649 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -1241,7 +1241,9 @@ protected:
         {
             value_type v_old = *in_;
             ++in_;
-            while (!in_.empty() && v_old.first == (*in_).first)
+            // keys with equal hash values are not necessarily equal
+            while (!in_.empty() && v_old.first == (*in_).first &&
+                   map_._eq(v_old.second.first, (*in_).second.first))
                 ++in_;
         }
     };
-- 
2.43.0


From b67db029af84631217e7c87454421a422d3dc53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 09/71] fix: stable_ksort: the number of input blocks depends
 on the offset of the end of the range

---
 include/stxxl/bits/algo/stable_ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index bd05e8a..b552f0f 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -149,7 +149,7 @@ void distribute(
 
     int_type i = 0;
 
-    buf_istream_type in(first.bid(), last.bid() + ((first.block_offset()) ? 1 : 0),
+    buf_istream_type in(first.bid(), last.bid() + ((last.block_offset()) ? 1 : 0),
                         nread_buffers);
 
     buffered_writer<block_type> out(
-- 
2.43.0


From 36148decab6a4a98c713a401c121962b25d5bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 10/71] fix: stable_ksort: empty buckets underflowed the number
 of blocks

---
 include/stxxl/bits/algo/stable_ksort.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index b552f0f..bd482ef 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -370,21 +370,24 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
             // classify first nbucket_blocks-1 blocks, they are full
             type_key_* ref_ptr = refs1;
             key_type offset1 = offset + (key_type(1) << key_type(shift)) * key_type(k);
-            for (i = 0; i < nbucket_blocks - 1; i++)
+            for (i = 0; i + 1 < nbucket_blocks; i++)
             {
                 reqs1[i]->wait();
                 stable_ksort_local::classify_block(blocks1[i].begin(), blocks1[i].end(),
                                                    ref_ptr, bucket1, offset1, shift1 /*,k1*/);
             }
             // last block might be non-full
-            const unsigned_type last_block_size =
-                (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
-            reqs1[i]->wait();
+            if (nbucket_blocks > 0)
+            {
+                const unsigned_type last_block_size =
+                    (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
+                reqs1[i]->wait();
 
-            //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
+                //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
 
-            classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
-                           ref_ptr, bucket1, offset1, shift1);
+                classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
+                               ref_ptr, bucket1, offset1, shift1);
+            }
 
             exclusive_prefix_sum(bucket1, k1);
             classify(refs1, refs1 + bucket_sizes[k], refs2, bucket1, offset1, shift1);
-- 
2.43.0


From a06e405fe979c365f7b9c9488def735e38fb4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 11/71] fix: stable_ksort: undefined shift amounts for buckets
 with less than two elements

---
 include/stxxl/bits/algo/stable_ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index bd482ef..e6fe989 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -399,7 +399,7 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
                 type_key_* cEnd = refs2 + bucket1[i];
                 type_key_* dEnd = refs1 + bucket1[i];
 
-                const unsigned log_k2 = ilog2_floor(bucket1[i]) - 1;        // adaptive bucket size
+                const unsigned log_k2 = bucket1[i] < 2 ? 0 : ilog2_floor(bucket1[i]) - 1;        // adaptive bucket size
                 const unsigned_type k2 = unsigned_type(1) << log_k2;
                 int_type* bucket2 = new int_type[k2];
                 const unsigned shift2 = shift1 - log_k2;
-- 
2.43.0


From 94f28192f64fc04774374fe5a5c647d866e2b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 12/71] fix: stable_ksort did not keep the order of equal keys

---
 include/stxxl/bits/algo/stable_ksort.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index e6fe989..5c55d3e 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -68,13 +68,14 @@ struct type_key
 template <typename Type>
 bool operator < (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key < b.key;
+    // the elements of a bucket are stored consecutively in input order
+    return a.key < b.key || (a.key == b.key && a.ptr < b.ptr);
 }
 
 template <typename Type>
 bool operator > (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key > b.key;
+    return b < a;
 }
 
 template <typename BIDType, typename AllocStrategy>
-- 
2.43.0


From b99fce464f305d4a4bac2a97c9cb7c7950918d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 13/71] fix: stable_ksort: small buckets were classified with
 the shift of the largest bucket

---
 include/stxxl/bits/algo/stable_ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index 5c55d3e..aacf374 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -353,7 +353,6 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
         int_type* bucket1 = new int_type[k1];
 
         const unsigned int shift = (unsigned int)(sizeof(key_type) * 8 - lognbuckets);
-        const unsigned int shift1 = shift - log_k1;
 
         STXXL_VERBOSE_STABLE_KSORT("Classifying " << nbuckets << " buckets, max size:" << max_bucket_size_rec <<
                                    " block size:" << block_type::size << " log_k1:" << log_k1);
@@ -363,6 +362,7 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
             nbucket_blocks = (unsigned_type)div_ceil(bucket_sizes[k], block_type::size);
             const unsigned log_k1_k = STXXL_MAX<unsigned>(ilog2_ceil(bucket_sizes[k] * sizeof(type_key_) / STXXL_L2_SIZE), 1);
             assert(log_k1_k <= log_k1);
+            const unsigned int shift1 = shift - log_k1_k;
             k1 = (unsigned_type)(1) << log_k1_k;
             std::fill(bucket1, bucket1 + k1, 0);
 
-- 
2.43.0


From 4b8e096d6ae6c9ae79f01e0dc4bb485eba627d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 14/71] fix: onoff_switch: waiting returned on spurious
 wake-ups

---
 include/stxxl/bits/common/onoff_switch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/onoff_switch.h b/include/stxxl/bits/common/onoff_switch.h
index 2d87fa3..df6393f 100644
--- a/include/stxxl/bits/common/onoff_switch.h
+++ b/include/stxxl/bits/common/onoff_switch.h
@@ -61,14 +61,14 @@ public:
     void wait_for_on()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (!m_on)
+        while (!m_on)
             m_cond.wait(lock);
     }
     //! wait for switch to turn OFF
     void wait_for_off()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (m_on)
+        while (m_on)
             m_cond.wait(lock);
     }
     //! return true if switch is ON
-- 
2.43.0


From d341b9994ee0699ae10822c281853412a4dad0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 15/71] fix: request queues dropped pending requests when they
 were destroyed

---
 lib/io/request_queue_impl_worker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/io/request_queue_impl_worker.cpp b/lib/io/request_queue_impl_worker.cpp
index 6566e68..f3f5127 100644
--- a/lib/io/request_queue_impl_worker.cpp
+++ b/lib/io/request_queue_impl_worker.cpp
@@ -48,8 +48,10 @@ void request_queue_impl_worker::start_thread(void* (*worker)(void*), void* arg,
 void request_queue_impl_worker::stop_thread(thread_type& t, state<thread_state>& s, semaphore& sem)
 {
     assert(s() == RUNNING);
-    s.set_to(TERMINATING);
+    // the additional token has to be there before the worker sees TERMINATING,
+    // otherwise it mistakes the token of a pending request for it
     sem++;
+    s.set_to(TERMINATING);
 #if STXXL_STD_THREADS
 #if STXXL_MSVC >= 1700
     // In the Visual C++ Runtime 2012 and 2013, there is a deadlock bug, which
-- 
2.43.0


From 43b688967e301ec70d141a3a43e86de37def83cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 16/71] fix: request_queue_impl_1q: cancelling a request could
 deadlock

---
 lib/io/request_queue_impl_1q.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 554978a..37f5d68 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -96,10 +96,14 @@ bool request_queue_impl_1q::cancel_request(request_ptr& req)
         {
             m_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // may block until the worker gives its token back, for which it needs the
+    // queue mutex
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
-- 
2.43.0


From 0ef9a7a27aa792bd830cb2f51a54b4d961606711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 17/71] fix: request_queue_impl_qwqr: cancelling a request
 could deadlock

---
 lib/io/request_queue_impl_qwqr.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 27e471d..3c8cca3 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -114,7 +114,6 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_read_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
     else
@@ -127,10 +126,14 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_write_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // may block until the worker gives its token back, for which it needs the
+    // queue mutexes
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
-- 
2.43.0


From 06c033c00fc9d4872c22b2ce483c997b2da963ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 18/71] fix: wait_any: a failed request left the switch
 registered with the other requests

---
 include/stxxl/bits/io/request_operations.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 4d04828..d592743 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -111,7 +111,14 @@ RequestIterator wait_any(RequestIterator reqs_begin, RequestIterator reqs_end)
 
     for ( ; cur != reqs_end; cur++)
     {
-        if ((request_ptr(*cur))->add_waiter(&sw))
+        bool finished;
+        try {
+            finished = (request_ptr(*cur))->add_waiter(&sw);
+        }
+        catch (const io_error&) {
+            finished = true; // failed, reported below
+        }
+        if (finished)
         {
             // request is already done, no waiter was added to the request
             result = cur;
@@ -135,6 +142,10 @@ RequestIterator wait_any(RequestIterator reqs_begin, RequestIterator reqs_end)
     for (cur = reqs_begin; cur != reqs_end; cur++)
     {
         (request_ptr(*cur))->delete_waiter(&sw);
+    }
+
+    for (cur = reqs_begin; cur != reqs_end; cur++)
+    {
         if (result == reqs_end && (request_ptr(*cur))->poll())
             result = cur;
     }
-- 
2.43.0


From 8aa14fb6762b96bfe76f89a85f7bcec7dbef6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 19/71] fix: request queues decide on termination by looking at
 the queues

---
 lib/io/request_queue_impl_1q.cpp     | 7 +++----
 lib/io/request_queue_impl_qwqr.cpp   | 6 +++---
 lib/io/request_queue_impl_worker.cpp | 4 +---
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 37f5d68..8e82cfc 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -140,12 +140,11 @@ void* request_queue_impl_1q::worker(void* arg)
             }
         }
 
-        // terminate if it has been requested and queues are empty
+        // terminate if it has been requested and the queue is empty
         if (pthis->m_thread_state() == TERMINATING) {
-            if ((pthis->m_sem--) == 0)
+            scoped_mutex_lock Lock(pthis->m_queue_mutex);
+            if (pthis->m_queue.empty())
                 break;
-            else
-                pthis->m_sem++;
         }
     }
 
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 3c8cca3..3383fcf 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -209,10 +209,10 @@ void* request_queue_impl_qwqr::worker(void* arg)
 
         // terminate if it has been requested and queues are empty
         if (pthis->m_thread_state() == TERMINATING) {
-            if ((pthis->m_sem--) == 0)
+            scoped_mutex_lock WriteLock(pthis->m_write_mutex);
+            scoped_mutex_lock ReadLock(pthis->m_read_mutex);
+            if (pthis->m_write_queue.empty() && pthis->m_read_queue.empty())
                 break;
-            else
-                pthis->m_sem++;
         }
     }
 
diff --git a/lib/io/request_queue_impl_worker.cpp b/lib/io/request_queue_impl_worker.cpp
index f3f5127..6566e68 100644
--- a/lib/io/request_queue_impl_worker.cpp
+++ b/lib/io/request_queue_impl_worker.cpp
@@ -48,10 +48,8 @@ void request_queue_impl_worker::start_thread(void* (*worker)(void*), void* arg,
 void request_queue_impl_worker::stop_thread(thread_type& t, state<thread_state>& s, semaphore& sem)
 {
     assert(s() == RUNNING);
-    // the additional token has to be there before the worker sees TERMINATING,
-    // otherwise it mistakes the token of a pending request for it
-    sem++;
     s.set_to(TERMINATING);
+    sem++;
 #if STXXL_STD_THREADS
 #if STXXL_MSVC >= 1700
     // In the Visual C++ Runtime 2012 and 2013, there is a deadlock bug, which
-- 
2.43.0


From 916305698105f61e574713820bf36945d1558e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 20/71] fix: linuxaio_queue doubled instead of halved the
 number of events

---
 lib/io/linuxaio_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 08bc72d..1c46fa3 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -50,7 +50,7 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
     while ((result = syscall(SYS_io_setup, max_events, &context)) == -1 &&
            errno == EAGAIN && max_events > 1)
     {
-        max_events <<= 1;               // try with half as many events
+        max_events >>= 1;               // try with half as many events
     }
     if (result != 0) {
         STXXL_THROW_ERRNO(io_error, "linuxaio_queue::linuxaio_queue"
-- 
2.43.0


From 300877ab987579c38ea9454294f9f89e7f822a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 21/71] fix: linuxaio_queue: cancelling a request could
 deadlock

---
 lib/io/linuxaio_queue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 1c46fa3..1d136cb 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -111,7 +111,11 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
             // request is canceled, but was not yet posted.
             dynamic_cast<linuxaio_request*>(req.get())->completed(false, true);
 
-            num_waiting_requests--; // will never block
+            lock.unlock();
+
+            // may block until the posting thread gives its token back, for
+            // which it needs waiting_mtx
+            num_waiting_requests--;
             return true;
         }
     }
-- 
2.43.0


From 4b71574ba704cc9d9b89555b16026a580e1fa3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 22/71] fix: linuxaio_queue dropped pending requests when it
 was destroyed

---
 lib/io/linuxaio_queue.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 1d136cb..cdb0041 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -69,6 +69,9 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
 linuxaio_queue::~linuxaio_queue()
 {
     stop_thread(post_thread, post_thread_state, num_waiting_requests);
+    // wait until all posted requests have been handled
+    for (int e = 0; e < max_events; ++e)
+        num_free_events--;
     stop_thread(wait_thread, wait_thread_state, num_posted_requests);
     syscall(SYS_io_destroy, context);
 }
@@ -134,13 +137,14 @@ void linuxaio_queue::post_requests()
     for ( ; ; ) // as long as thread is running
     {
         // might block until next request or message comes in
-        int num_currently_waiting_requests = num_waiting_requests--;
+        num_waiting_requests--;
+
+        scoped_mutex_lock lock(waiting_mtx);
 
         // terminate if termination has been requested
-        if (post_thread_state() == TERMINATING && num_currently_waiting_requests == 0)
+        if (post_thread_state() == TERMINATING && waiting_requests.empty())
             break;
 
-        scoped_mutex_lock lock(waiting_mtx);
         if (!waiting_requests.empty())
         {
             req = waiting_requests.front();
-- 
2.43.0


From 12dc347d2245b1d1d0ab24bda11dc08b800500f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 23/71] fix: linuxaio: failed and incomplete transfers were
 reported as successful, failed submissions leaked a reference

---
 lib/io/linuxaio_queue.cpp   | 25 +++++++++++++++++++++++++
 lib/io/linuxaio_request.cpp |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index cdb0041..0d6dea2 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -25,6 +25,8 @@
 #include <stxxl/bits/io/linuxaio_queue.h>
 
 #include <algorithm>
+#include <cstring>
+#include <string>
 
 #ifndef STXXL_CHECK_FOR_PENDING_REQUESTS_ON_SUBMISSION
 #define STXXL_CHECK_FOR_PENDING_REQUESTS_ON_SUBMISSION 1
@@ -184,12 +186,35 @@ void linuxaio_queue::post_requests()
     delete[] events;
 }
 
+// detect failed and incomplete transfers
+static void check_result(request* r, long long res)
+{
+    if (res < 0)
+    {
+        r->error_occured(std::string("linuxaio transfer failed: ") + strerror((int)-res));
+    }
+    else if ((request::size_type)res < r->get_size())
+    {
+        if (r->get_type() == request::READ && res > 0 &&
+            r->get_offset() + res == r->get_file()->size())
+        {
+            // read request extends past end-of-file
+            // fill reminder with zeroes
+            memset((char*)r->get_buffer() + res, 0, (size_t)(r->get_size() - res));
+        }
+        else
+            r->error_occured("linuxaio transfer is incomplete");
+    }
+}
+
 void linuxaio_queue::handle_events(io_event* events, long num_events, bool canceled)
 {
     for (int e = 0; e < num_events; ++e)
     {
         // unsigned_type is as long as a pointer, and like this, we avoid an icpc warning
         request_ptr* r = reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(events[e].data));
+        if (!canceled)
+            check_result(r->get(), events[e].res);
         r->get()->completed(canceled);
         delete r;              // release auto_ptr reference
         num_free_events++;
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 464acc6..e167cb8 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -76,6 +76,8 @@ bool linuxaio_request::post()
         disk_queues::get_instance()->get_queue(m_file->get_queue_id())
         );
     long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
+    if (success != 1) // the I/O system does not hold a reference
+        delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
     if (success == 1)
     {
         if (m_type == READ)
-- 
2.43.0


From 43bb7772cbac30b6cf4ad624983e7956849b22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 24/71] fix: linuxaio: requests pending at program exit used
 the disk queues during their destruction

---
 include/stxxl/bits/io/linuxaio_request.h | 2 +-
 lib/io/linuxaio_queue.cpp                | 2 +-
 lib/io/linuxaio_request.cpp              | 5 +----
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index 6ee20e5..5bede90 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -57,7 +57,7 @@ public:
                                " type=" << type << ")");
     }
 
-    bool post();
+    bool post(linuxaio_queue* queue);
     bool cancel();
     bool cancel_aio();
     void completed(bool posted, bool canceled);
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 0d6dea2..ebc7cd4 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -156,7 +156,7 @@ void linuxaio_queue::post_requests()
             num_free_events--; // might block because too many requests are posted
 
             // polymorphic_downcast
-            while (!dynamic_cast<linuxaio_request*>(req.get())->post())
+            while (!dynamic_cast<linuxaio_request*>(req.get())->post(this))
             {
                 // post failed, so first handle events to make queues (more)
                 // empty, then try again.
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index e167cb8..581d1c7 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -63,7 +63,7 @@ void linuxaio_request::fill_control_block()
 
 //! Submits an I/O request to the OS
 //! \returns false if submission fails
-bool linuxaio_request::post()
+bool linuxaio_request::post(linuxaio_queue* queue)
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] post()");
 
@@ -72,9 +72,6 @@ bool linuxaio_request::post()
     // io_submit might considerable time, so we have to remember the current
     // time before the call.
     double now = timestamp();
-    linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
-        );
     long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
     if (success != 1) // the I/O system does not hold a reference
         delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
-- 
2.43.0


From ae44b244632cba068ad626c457bd4c723c0f12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 25/71] fix: cancelling a request accessed its file while it is
 reset by the completion

---
 include/stxxl/bits/io/request_with_state.h |  9 +++---
 lib/io/linuxaio_request.cpp                |  8 ++----
 lib/io/request_with_state.cpp              | 33 ++++++++++++++--------
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/include/stxxl/bits/io/request_with_state.h b/include/stxxl/bits/io/request_with_state.h
index 0b6f78f..37fdf47 100644
--- a/include/stxxl/bits/io/request_with_state.h
+++ b/include/stxxl/bits/io/request_with_state.h
@@ -34,6 +34,10 @@ protected:
 
     state<request_state> m_state;
 
+    //! queue serving the request, cancel() cannot ask m_file as it is reset
+    //! concurrently when the request completes.
+    const int m_queue_id;
+
 protected:
     request_with_state(
         const completion_handler& on_cmpl,
@@ -41,10 +45,7 @@ protected:
         void* buf,
         offset_type off,
         size_type b,
-        request_type t)
-        : request_with_waiters(on_cmpl, f, buf, off, b, t),
-          m_state(OP)
-    { }
+        request_type t);
 
 public:
     virtual ~request_with_state();
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 581d1c7..6bb4dca 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -96,11 +96,9 @@ bool linuxaio_request::cancel()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] cancel()");
 
-    if (!m_file) return false;
-
     request_ptr req(this);
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
+        disk_queues::get_instance()->get_queue(m_queue_id)
         );
     return queue->cancel_request(req);
 }
@@ -110,11 +108,9 @@ bool linuxaio_request::cancel_aio()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] cancel_aio()");
 
-    if (!m_file) return false;
-
     io_event event;
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
+        disk_queues::get_instance()->get_queue(m_queue_id)
         );
     long result = syscall(SYS_io_cancel, queue->get_io_context(), &cb, &event);
     if (result == 0)    //successfully canceled
diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 4560286..a166519 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -25,6 +25,18 @@
 
 STXXL_BEGIN_NAMESPACE
 
+request_with_state::request_with_state(
+    const completion_handler& on_cmpl,
+    file* f,
+    void* buf,
+    offset_type off,
+    size_type b,
+    request_type t)
+    : request_with_waiters(on_cmpl, f, buf, off, b, t),
+      m_state(OP),
+      m_queue_id(f->get_queue_id())
+{ }
+
 request_with_state::~request_with_state()
 {
     STXXL_VERBOSE3_THIS("request_with_state::~(), ref_cnt: " << get_reference_count());
@@ -51,20 +63,17 @@ void request_with_state::wait(bool measure_time)
 
 bool request_with_state::cancel()
 {
-    STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_file << " " << m_buffer << " " << m_offset);
+    STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_buffer << " " << m_offset);
 
-    if (m_file)
+    request_ptr rp(this);
+    if (disk_queues::get_instance()->cancel_request(rp, m_queue_id))
     {
-        request_ptr rp(this);
-        if (disk_queues::get_instance()->cancel_request(rp, m_file->get_queue_id()))
-        {
-            m_state.set_to(DONE);
-            notify_waiters();
-            m_file->delete_request_ref();
-            m_file = 0;
-            m_state.set_to(READY2DIE);
-            return true;
-        }
+        m_state.set_to(DONE);
+        notify_waiters();
+        m_file->delete_request_ref();
+        m_file = 0;
+        m_state.set_to(READY2DIE);
+        return true;
     }
     return false;
 }
-- 
2.43.0


From 376243f0705a39b34f5033a7aa2050346144247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 26/71] fix: polling a request read the error while it is being
 set

---
 lib/io/request_with_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index a166519..5bc6fb3 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -82,6 +82,10 @@ bool request_with_state::poll()
 {
     const request_state s = m_state();
 
+    // the error is being set concurrently until the request is done
+    if (s == OP)
+        return false;
+
     check_errors();
 
     return s == DONE || s == READY2DIE;
-- 
2.43.0


From 0cc849668d7fcdec67249c0f928a75238a7c53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 27/71] fix: wbtl_file was destroyed while its last write
 request was in progress

---
 lib/io/wbtl_file.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 310d76a..deb90ff 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -49,6 +49,15 @@ wbtl_file::wbtl_file(
 
 wbtl_file::~wbtl_file()
 {
+    // the last write request still uses the buffer and the storage
+    if (backend_request.get()) {
+        try {
+            backend_request->wait(false);
+        }
+        catch (const io_error& ex) {
+            STXXL_ERRMSG("wbtl: write error: " << ex.what());
+        }
+    }
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[1]);
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[0]);
     delete storage;
-- 
2.43.0


From 450f69ad960b106a37ab28a53c679fae7916fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 28/71] fix: wbtl_file: writing modified the list of free
 regions without holding its lock

---
 lib/io/wbtl_file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index deb90ff..467e0d1 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -280,8 +280,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
             STXXL_VERBOSE_WBTL("wbtl:w2disk  p" << FMT_A_S(buffer_address[curbuf], write_block_size));
 
             // mark remaining part as free
-            if (curpos < write_block_size)
+            if (curpos < write_block_size) {
+                scoped_mutex_lock mapping_lock(mapping_mutex);
                 _add_free_region(buffer_address[curbuf] + curpos, write_block_size - curpos);
+            }
 
             if (backend_request.get()) {
                 backend_request->wait(false);
@@ -292,7 +294,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
 
         curbuf = 1 - curbuf;
 
-        buffer_address[curbuf] = get_next_write_block();
+        {
+            scoped_mutex_lock mapping_lock(mapping_mutex);
+            buffer_address[curbuf] = get_next_write_block();
+        }
         curpos = 0;
     }
     assert(bytes <= write_block_size - curpos);
-- 
2.43.0


From cad69e27e1b991ce6aad319a5ec7971e8dc95ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 29/71] fix: config: disks added by add_disk() left the ranges
 of disks and flash devices undefined

first_flash was only set when a configuration file was loaded, so
regular_disk_range() and flash_range(), and hence the allocation strategies
RC_disk and RC_flash, used an uninitialised value. The device id counter was
also used uninitialised by files opened before the block manager, and reset
afterwards.
---
 include/stxxl/bits/mng/config.h | 8 ++++++--
 lib/mng/config.cpp              | 2 --
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/mng/config.h b/include/stxxl/bits/mng/config.h
index ea6a1a0..0fa547b 100644
--- a/include/stxxl/bits/mng/config.h
+++ b/include/stxxl/bits/mng/config.h
@@ -128,7 +128,7 @@ class config : public singleton<config>
     //! Constructor: this must be inlined to print the header version
     //! string.
     inline config()
-        : is_initialized(false)
+        : first_flash(0), is_initialized(false), m_max_device_id(0)
     {
         logger::get_instance();
         STXXL_MSG(get_version_string_long());
@@ -169,7 +169,11 @@ public:
     //! has no effect after construction of block_manager.
     inline config & add_disk(const disk_config& cfg)
     {
-        disks_list.push_back(cfg);
+        // put flash devices after regular disks
+        if (cfg.flash)
+            disks_list.push_back(cfg);
+        else
+            disks_list.insert(disks_list.begin() + first_flash++, cfg);
         return *this;
     }
 
diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 66e92d9..d0dd025 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -60,8 +60,6 @@ void config::initialize()
         find_config();
     }
 
-    m_max_device_id = 0;
-
     is_initialized = true;
 }
 
-- 
2.43.0


From f431aa963fdd0bccb71e702beba584ed99d518b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 30/71] fix: blocks leaked when an allocation of several blocks
 failed halfway

---
 include/stxxl/bits/mng/block_manager.h  | 22 ++++++++++++++++++----
 include/stxxl/bits/mng/disk_allocator.h | 12 +++++++++++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 4e1514a..5d45385 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -208,14 +208,28 @@ void block_manager::new_blocks_int(
 
     // allocate blocks on disks
 
-    for (unsigned_type i = 0; i < ndisks; ++i)
+    unsigned_type d = 0;
+    try
     {
-        if (bl[i])
+        for ( ; d < ndisks; ++d)
         {
-            disk_bids[i].resize(bl[i]);
-            disk_allocators[i]->new_blocks(disk_bids[i]);
+            if (bl[d])
+            {
+                disk_bids[d].resize(bl[d]);
+                disk_allocators[d]->new_blocks(disk_bids[d]);
+            }
         }
     }
+    catch (...)
+    {
+        // give back the blocks on the preceding disks
+        while (d-- > 0)
+        {
+            for (int_type i = 0; i < bl[d]; ++i)
+                disk_allocators[d]->delete_block(disk_bids[d][i]);
+        }
+        throw;
+    }
 
     bl.memzero();
 
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 59ad085..3f95f13 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -240,7 +240,17 @@ void disk_allocator::new_blocks(BID<BlockSize>* begin, BID<BlockSize>* end)
 
     BID<BlockSize>* middle = begin + ((end - begin) / 2);
     new_blocks(begin, middle);
-    new_blocks(middle, end);
+    try
+    {
+        new_blocks(middle, end);
+    }
+    catch (...)
+    {
+        // give back the first half
+        for (BID<BlockSize>* cur = begin; cur != middle; ++cur)
+            delete_block(*cur);
+        throw;
+    }
 }
 
 //! \}
-- 
2.43.0


From 1536b645c61257848f0788e2dacfd7744050e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 31/71] fix: delete_block discarded a region that another
 thread may already use again

---
 include/stxxl/bits/mng/block_manager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 5d45385..5b7cb07 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -260,8 +260,10 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
         return;  // self managed disk
     STXXL_VERBOSE_BLOCK_LIFE_CYCLE("BLC:delete " << FMT_BID(bid));
     assert(bid.storage->get_allocator_id() >= 0);
-    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
+    // discard first: once it is free, the region may be allocated and written
+    // by another thread
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
+    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
     m_current_allocation -= BlockSize;
-- 
2.43.0


From 56ca69e5c7f6eb2ea29756aa2838aa7e6c8c1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 32/71] fix: block manager: concurrent allocations updated the
 allocation counters without a lock

---
 include/stxxl/bits/mng/block_manager.h  | 21 ++++++++++++++++++---
 include/stxxl/bits/mng/disk_allocator.h |  5 ++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 5b7cb07..c714a0a 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -42,6 +42,7 @@
 #include <stxxl/bits/mng/disk_allocator.h>
 #include <stxxl/bits/mng/block_alloc.h>
 #include <stxxl/bits/mng/config.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/common/simple_vector.h>
 
@@ -77,6 +78,9 @@ class block_manager : public singleton<block_manager>
 
     //! maximum number of bytes allocated during program run.
     uint64 m_maximum_allocation;
+
+    //! protects the counters
+    mutable mutex m_allocation_mutex;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 
 protected:
@@ -170,15 +174,24 @@ public:
 #if STXXL_MNG_COUNT_ALLOCATION
     //! return total requested allocation in bytes
     uint64 get_total_allocation() const
-    { return m_total_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_total_allocation;
+    }
 
     //! return currently allocated bytes
     uint64 get_current_allocation() const
-    { return m_current_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_current_allocation;
+    }
 
     //! return maximum number of bytes allocated during program run.
     uint64 get_maximum_allocation() const
-    { return m_maximum_allocation; }
+    {
+        scoped_mutex_lock lock(m_allocation_mutex);
+        return m_maximum_allocation;
+    }
 #endif // STXXL_MNG_COUNT_ALLOCATION
 };
 
@@ -243,6 +256,7 @@ void block_manager::new_blocks_int(
     }
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_total_allocation += nblocks * BIDType::size;
     m_current_allocation += nblocks * BIDType::size;
     m_maximum_allocation = STXXL_MAX(m_maximum_allocation, m_current_allocation);
@@ -266,6 +280,7 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
     disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_current_allocation -= BlockSize;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 }
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 3f95f13..8cb96d7 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -56,7 +56,7 @@ class disk_allocator : private noncopyable
 
     typedef std::map<stxxl::int64, stxxl::int64> sortseq;
 
-    stxxl::mutex mutex;
+    mutable stxxl::mutex mutex;
     sortseq free_space;
     stxxl::int64 free_bytes;
     stxxl::int64 disk_bytes;
@@ -105,16 +105,19 @@ public:
 
     inline int64 get_free_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return free_bytes;
     }
 
     inline int64 get_used_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes - free_bytes;
     }
 
     inline int64 get_total_bytes() const
     {
+        scoped_mutex_lock lock(mutex);
         return disk_bytes;
     }
 
-- 
2.43.0


From d2fae35a54fa7efab95bc7d1697a488b8899c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 33/71] fix: disk_queues: the map of queues was modified
 without a lock

Two threads that first used different disks at the same time corrupted it.
---
 include/stxxl/bits/io/disk_queues.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/io/disk_queues.h b/include/stxxl/bits/io/disk_queues.h
index 9aa2312..d5c3039 100644
--- a/include/stxxl/bits/io/disk_queues.h
+++ b/include/stxxl/bits/io/disk_queues.h
@@ -19,6 +19,7 @@
 #include <map>
 
 #include <stxxl/bits/namespace.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/singleton.h>
 #include <stxxl/bits/io/iostats.h>
 #include <stxxl/bits/io/request.h>
@@ -43,6 +44,10 @@ class disk_queues : public singleton<disk_queues>
 
 protected:
     request_queue_map queues;
+
+    //! protects the map of queues, but not the queues themselves
+    mutex m_queues_mutex;
+
     disk_queues()
     {
         stxxl::stats::get_instance(); // initialize stats before ourselves
@@ -54,8 +59,9 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        request_queue_map::iterator qi = queues.find(disk);
         request_queue* q;
+        scoped_mutex_lock lock(m_queues_mutex);
+        request_queue_map::iterator qi = queues.find(disk);
         if (qi == queues.end())
         {
             // create new request queue
@@ -71,6 +77,7 @@ public:
         else
             q = qi->second;
 
+        lock.unlock();
         q->add_request(req);
     }
 
@@ -87,16 +94,19 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        if (queues.find(disk) != queues.end())
-            return queues[disk]->cancel_request(req);
+        request_queue* q = get_queue(disk);
+        if (q)
+            return q->cancel_request(req);
         else
             return false;
     }
 
     request_queue * get_queue(DISKID disk)
     {
-        if (queues.find(disk) != queues.end())
-            return queues[disk];
+        scoped_mutex_lock lock(m_queues_mutex);
+        request_queue_map::iterator qi = queues.find(disk);
+        if (qi != queues.end())
+            return qi->second;
         else
             return NULL;
     }
@@ -115,6 +125,7 @@ public:
     //!                 - NONE, read and write requests are served by turns, alternately
     void set_priority_op(request_queue::priority_op op)
     {
+        scoped_mutex_lock lock(m_queues_mutex);
         for (request_queue_map::iterator i = queues.begin(); i != queues.end(); i++)
             i->second->set_priority_op(op);
     }
-- 
2.43.0


From 0b4765d24d2c75d6237baf6f3d971b5a90fd8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 34/71] fix: random_shuffle of an empty range created a
 prefetcher without blocks

---
 include/stxxl/bits/algo/random_shuffle.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/algo/random_shuffle.h b/include/stxxl/bits/algo/random_shuffle.h
index 531f6ce..7c781c7 100644
--- a/include/stxxl/bits/algo/random_shuffle.h
+++ b/include/stxxl/bits/algo/random_shuffle.h
@@ -206,6 +206,9 @@ void random_shuffle(
 
     STXXL_VERBOSE1("random_shuffle: Vector Version");
 
+    if (first == last)
+        return;
+
     // make sure we have at least 6 blocks + 1 page
     if (M < 6 * BlockSize + PageSize * BlockSize) {
         STXXL_ERRMSG("random_shuffle: insufficient memory, " << M << " bytes supplied,");
-- 
2.43.0


From a233acd1e82730979a789f3fec731e97abacf9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 35/71] fix: multiseq_partition: equal elements were not taken
 from the sequences with smaller numbers first

---
 include/stxxl/bits/parallel/multiseq_selection.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiseq_selection.h b/include/stxxl/bits/parallel/multiseq_selection.h
index 57e7599..f13e6fe 100644
--- a/include/stxxl/bits/parallel/multiseq_selection.h
+++ b/include/stxxl/bits/parallel/multiseq_selection.h
@@ -204,17 +204,16 @@ void multiseq_partition(
         n /= 2;
 
         const value_type* lmax = NULL; // impossible to avoid the warning?
+        diff_type lmax_seq = -1;
         for (diff_type i = 0; i < m; ++i)
         {
             if (a[i] > 0)
             {
-                if (!lmax)
-                    lmax = &(S(i)[a[i] - 1]);
-                else
+                // max, favor rear sequences
+                if (!lmax || !comp(S(i)[a[i] - 1], *lmax))
                 {
-                    // max, favor rear sequences
-                    if (!comp(S(i)[a[i] - 1], *lmax))
-                        lmax = &(S(i)[a[i] - 1]);
+                    lmax = &(S(i)[a[i] - 1]);
+                    lmax_seq = i;
                 }
             }
         }
@@ -222,7 +221,8 @@ void multiseq_partition(
         for (diff_type i = 0; i < m; ++i)
         {
             diff_type middle = (b[i] + a[i]) / 2;
-            if (lmax && middle < seqlen[i] && comp(S(i)[middle], *lmax))
+            if (lmax && middle < seqlen[i] &&
+                lcomp(sample_pair(S(i)[middle], i), sample_pair(*lmax, lmax_seq)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0


From a1306941e358d78bb988920fd7b9233642d50458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 36/71] fix: winner_tree: doubling the number of slots ran
 below index 0

---
 include/stxxl/bits/common/winner_tree.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/winner_tree.h b/include/stxxl/bits/common/winner_tree.h
index 598cd1e..8d0414a 100644
--- a/include/stxxl/bits/common/winner_tree.h
+++ b/include/stxxl/bits/common/winner_tree.h
@@ -251,8 +251,7 @@ public:
         size_t tree_size = (m_num_slots << 1) - 1;
         m_tree.resize(tree_size, invalid_key);
 
-        for (unsigned_type i = old_tree_size - 1; i >= 0; --i) {
-            size_t old_index = i;
+        for (size_t old_index = old_tree_size; old_index-- > 0; ) {
             size_t old_level = ilog2_floor(old_index + 1);
             size_t new_index = old_index + (1 << old_level);
             m_tree[new_index] = m_tree[old_index];
-- 
2.43.0


From 3d8b52c45f07aed3b336ca82aaf0fee651ecdee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 37/71] fix: parallel multiway merge with sampling wrote out of
 bounds and skipped elements when not everything is merged

---
 include/stxxl/bits/parallel/multiway_merge.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 0608554..c3c14d4 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1605,7 +1605,8 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
         sequential_multiway_merge<Stable, false>(
             chunks[iam].begin(), chunks[iam].end(),
             target + target_position,
-            std::min(local_length, length - target_position),
+            // with sampling, slabs may begin beyond the requested length
+            std::max(DiffType(0), std::min(local_length, length - target_position)),
             comp);
 
         t[iam].tic();
@@ -1621,8 +1622,14 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
     for (RandomAccessIteratorIterator raii = seqs_begin; raii != seqs_end; ++raii)
     {
         DiffType length = iterpair_size(*raii);
-        if (length > 0)
-            raii->first = chunks[num_threads - 1][count_seqs++].second;
+        if (length > 0) {
+            // continue at the first slab that was not merged completely
+            thread_index_t slab = 0;
+            while (slab + 1 < num_threads &&
+                   chunks[slab][count_seqs].first == chunks[slab][count_seqs].second)
+                ++slab;
+            raii->first = chunks[slab][count_seqs++].first;
+        }
     }
     STXXL_DEBUG_ASSERT(count_seqs == num_seqs);
 
-- 
2.43.0


From a815d10b31173dfb6e51feb868a2f07a6e973400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 38/71] fix: parallel multiway merge with a single thread read
 missing splitters when not everything is merged

---
 include/stxxl/bits/parallel/multiway_merge.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index c3c14d4..951b47c 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1470,13 +1470,13 @@ parallel_multiway_merge_exact_splitting(
         offsets[s].resize(num_seqs);
         multiseq_partition(seqs_begin, seqs_end,
                            ranks[s + 1], offsets[s].begin(), comp);
+    }
 
-        if (!tight) // last one also needed and available
-        {
-            offsets[num_threads - 1].resize(num_seqs);
-            multiseq_partition(seqs_begin, seqs_end,
-                               length, offsets[num_threads - 1].begin(), comp);
-        }
+    if (!tight) // last one also needed and available
+    {
+        offsets[num_threads - 1].resize(num_seqs);
+        multiseq_partition(seqs_begin, seqs_end,
+                           length, offsets[num_threads - 1].begin(), comp);
     }
 
     // for each processor
-- 
2.43.0


From 979b68737074b98481e0093df458aec56d50c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 39/71] fix: swap_vector::erase(first, last) lost the last
 element if exactly one element followed the range

---
 include/stxxl/bits/common/swap_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/swap_vector.h b/include/stxxl/bits/common/swap_vector.h
index 7bf7e03..2caab17 100644
--- a/include/stxxl/bits/common/swap_vector.h
+++ b/include/stxxl/bits/common/swap_vector.h
@@ -237,7 +237,7 @@ public:
     {
         assert(first >= begin());
         assert(last <= end());
-        if (last < m_array + m_size - 1)
+        if (last < end())
         {
             // iteratively swap forward the elements behind last
             iterator f = first;
-- 
2.43.0


From b39d94ba015ddcc4a1e35c56568ec26470e08bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 40/71] fix: binary_reader bounds check overflowed for huge
 lengths in corrupt input

---
 include/stxxl/bits/common/binary_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/binary_buffer.h b/include/stxxl/bits/common/binary_buffer.h
index 9cc2289..1a3a465 100644
--- a/include/stxxl/bits/common/binary_buffer.h
+++ b/include/stxxl/bits/common/binary_buffer.h
@@ -515,7 +515,7 @@ public:
     //! Check that n bytes are available at the cursor.
     inline bool cursor_available(size_t n) const
     {
-        return (m_curr + n <= m_size);
+        return (n <= m_size - m_curr);
     }
 
     //! Throws a std::underflow_error unless n bytes are available at the
-- 
2.43.0


From 3abd482dc06b19f1927fc789f119cbadb2cac188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 41/71] fix: parse_SI_IEC_size accepted text without any number

---
 lib/common/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/common/utils.cpp b/lib/common/utils.cpp
index c0b66f0..d3fcf01 100644
--- a/lib/common/utils.cpp
+++ b/lib/common/utils.cpp
@@ -25,7 +25,7 @@ bool parse_SI_IEC_size(const std::string& str, uint64& size, char def_unit)
 {
     char* endptr;
     size = strtoul(str.c_str(), &endptr, 10);
-    if (!endptr) return false;          // parse failed, no number
+    if (endptr == str.c_str()) return false; // parse failed, no number
 
     while (endptr[0] == ' ') ++endptr;  // skip over spaces
 
-- 
2.43.0


From 0ef16fa7b4b03c3c926aeba01b1e638edc7abd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 42/71] fix: parallel_priority_queue: internal_array asserted
 on the vector it had just emptied

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 558396f..7bc2e0b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -308,7 +308,7 @@ public:
           m_block_pointers(1)
     {
         std::swap(m_values, values);
-        STXXL_ASSERT(values.size() > 0);
+        STXXL_ASSERT(m_values.size() > 0);
         m_block_pointers[0] = std::make_pair(&(*m_values.begin()), &(*m_values.begin()) + m_values.size());
     }
 
-- 
2.43.0


From a4bde507ca2bd858639d79a2880c24dbd6a81b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 43/71] fix: parallel_priority_queue::limit_pop left an
 exhausted extract buffer in the minima tree

---
 .../stxxl/bits/containers/parallel_priority_queue.h  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 7bc2e0b..816893c 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3241,7 +3241,15 @@ public:
         assert(m_extract_buffer_size > 0);
         --m_extract_buffer_size;
 
-        if (extract_buffer_empty() && !m_limit_has_full_range)
+        if (!extract_buffer_empty())
+        {
+            m_minima.update_extract_buffer();
+            return;
+        }
+
+        m_minima.deactivate_extract_buffer();
+
+        if (!m_limit_has_full_range)
         {
             // extract more items
             std::vector<value_type> new_extract_buffer;
@@ -3255,8 +3263,6 @@ public:
             m_extract_buffer_size = m_extract_buffer.size();
             if (m_extract_buffer_size)
                 m_minima.update_extract_buffer();
-            else
-                m_minima.deactivate_extract_buffer();
         }
     }
 
-- 
2.43.0


From f0e91cc75f2743dd98b9bf9f1e7241ddb6beb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 44/71] fix: parallel_priority_queue: removing all internal
 arrays left stale players in the minima tree

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 816893c..1d81c20 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -1800,7 +1800,7 @@ public:
         }
         else
         {
-            m_head.deactivate_player(IA);
+            clear_internal_arrays();
         }
     }
 
-- 
2.43.0


From f15d64ac7b16db39cce5585bc5542cbbcf2b03b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 45/71] fix: parallel_priority_queue made no progress if equal
 items cross a block border

---
 .../bits/containers/parallel_priority_queue.h   | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 1d81c20..3d0f401 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2871,8 +2871,8 @@ public:
             const value_type& ea_limit =
                 m_external_arrays[limiting_ea_index].get_next_block_min();
 
-            if (m_compare(ea_limit, this_limit)) {
-                // No more EM data smaller or equal to limit
+            if (!m_inv_compare(ea_limit, this_limit)) {
+                // No more EM data smaller than limit
                 break;
             }
 
@@ -2906,7 +2906,12 @@ public:
                 end = m_internal_arrays[j].end();
             }
 
-            end = std::lower_bound(begin, end, this_limit, m_inv_compare);
+            // below the limit itself, items equal to the smallest unavailable
+            // one can be extracted, which is needed to make progress.
+            if (has_full_range)
+                end = std::lower_bound(begin, end, this_limit, m_inv_compare);
+            else
+                end = std::upper_bound(begin, end, this_limit, m_inv_compare);
 
             sizes[i] = std::distance(begin, end);
             sequences[i] = std::make_pair(begin, end);
@@ -3687,12 +3692,12 @@ protected:
                 if (reuse_previous_lower_bounds) {
                     // Be careful that sequences[i].second is really valid and
                     // set by a previous calculate_merge_sequences() run!
-                    end = std::lower_bound(sequences[i].second, end,
+                    end = std::upper_bound(sequences[i].second, end,
                                            gmin_value, m_inv_compare);
                 }
                 else
                 {
-                    end = std::lower_bound(begin, end,
+                    end = std::upper_bound(begin, end,
                                            gmin_value, m_inv_compare);
                 }
                 //stats.refill_lower_bound_time.stop();
@@ -4331,7 +4336,7 @@ protected:
                         const value_type& gmin_value =
                             m_external_arrays[gmin_index].get_next_block_min();
 
-                        end = std::lower_bound(begin, end,
+                        end = std::upper_bound(begin, end,
                                                gmin_value, m_inv_compare);
                     }
 
-- 
2.43.0


From b34892bf677f4a946957a528ebd9f325680f81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 46/71] fix: parallel_priority_queue: limit extraction with new
 unhinted arrays or emptied internal arrays

---
 .../bits/containers/parallel_priority_queue.h    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 3d0f401..185262b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2259,6 +2259,10 @@ protected:
         STXXL_DEBUG("Removed " << m_external_arrays.end() - swap_end <<
                     " empty external arrays.");
 
+        // the indices of the remaining arrays changed
+        if (m_in_bulk_push && swap_end != last)
+            m_bulk_first_delayed_external_array = 0;
+
         m_external_arrays.erase(swap_end, m_external_arrays.end());
 
         resize_read_pool(); // shrinks read/prefetch pool
@@ -2853,6 +2857,18 @@ public:
                 flush_insertion_heaps_with_limit(limit);
         }
 
+        // arrays may have been emptied by pop()
+        cleanup_internal_arrays();
+
+        // external arrays created by pushes of a limit session are not hinted
+        // yet, but their items may be needed now.
+        if (m_in_bulk_push &&
+            m_bulk_first_delayed_external_array != m_external_arrays.size())
+        {
+            rebuild_hint_tree();
+            m_bulk_first_delayed_external_array = m_external_arrays.size();
+        }
+
         size_type ias = m_internal_arrays.size();
         size_type eas = m_external_arrays.size();
         std::vector<size_type> sizes(eas + ias);
-- 
2.43.0


From 5858d2f0df92e1a243506b56b99cca970a978ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 47/71] fix: parallel_priority_queue: memory accounting of new
 internal arrays used the wrong size

---
 include/stxxl/bits/containers/parallel_priority_queue.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 185262b..2b0f76e 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3349,7 +3349,7 @@ protected:
         if (back_sum)
         {
             // test that enough RAM is available for remaining items
-            flush_ia_ea_until_memory_free(back_sum * sizeof(value_type));
+            flush_ia_ea_until_memory_free(internal_array_type::int_memory(back_sum));
 
             std::vector<value_type> values(back_sum);
 
@@ -3755,7 +3755,7 @@ protected:
         // counted
         if (!do_not_flush)
             flush_ia_ea_until_memory_free(
-                internal_array_type::int_memory(m_extract_buffer.size())
+                internal_array_type::int_memory(m_extract_buffer.capacity())
                 );
 
         if (m_extract_buffer_size == 0) return;
@@ -3994,10 +3994,11 @@ protected:
         size_type max_mem_needed;
 
         if (c_merge_sorted_heaps) {
-            max_mem_needed = m_mem_for_heaps;
+            max_mem_needed = internal_array_type::int_memory(m_heaps_size);
         }
         else {
-            max_mem_needed = insertion_heap_int_memory();
+            max_mem_needed = m_num_insertion_heaps *
+                             internal_array_type::int_memory(m_insertion_heap_capacity);
         }
 
         // test that enough RAM is available for merged internal array:
-- 
2.43.0


From 4d09efed64f090d2165a6b3c617bc607adc13533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 48/71] fix: disk_config::parse_line kept raw_device and
 queue_length of an earlier line

---
 lib/mng/config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index d0dd025..b5e3fc7 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -278,7 +278,9 @@ void disk_config::parse_line(const std::string& line)
     // flash is already set
     queue = file::DEFAULT_QUEUE;
     device_id = file::DEFAULT_DEVICE_ID;
+    raw_device = false;
     unlink_on_open = false;
+    queue_length = 0;
 
     // *** Save Basic Options ***
 
-- 
2.43.0


From 82ed9bcdd13cea92b6d4802fbbd7a47536ccd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 49/71] fix: cmdline_parser usage never ended if names are as
 wide as the line

---
 lib/common/cmdline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/common/cmdline.cpp b/lib/common/cmdline.cpp
index 7c1999d..df8ae32 100644
--- a/lib/common/cmdline.cpp
+++ b/lib/common/cmdline.cpp
@@ -42,6 +42,9 @@ void cmdline_parser::output_wrap(std::ostream& os, const std::string& text, size
         if (to != text.size() && text[to] != '\n' &&
             lspace != t) to = lspace + 1;
 
+        // always advance, even if the indent leaves no room in this line
+        if (to == t && current == 0 && text[to] != '\n') ++to;
+
         // output line
         os << std::string(indent, ' ')
            << text.substr(t, to - t) << std::endl;
-- 
2.43.0


From 1fe252a9facda2abdb946991e4e45641190b0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 50/71] fix: sort and ksort overwrote the block id behind a
 range that starts inside a block and ends at a block border

---
 include/stxxl/bits/algo/ksort.h | 2 --
 include/stxxl/bits/algo/sort.h  | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 33ec8cf..1f229e3 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -922,8 +922,6 @@ void ksort(ExtIterator first, ExtIterator last, KeyExtractor keyobj, unsigned_ty
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index 2a14fb4..e4c4873 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -879,8 +879,6 @@ void sort(ExtIterator first, ExtIterator last, StrictWeakOrdering cmp, unsigned_
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
-- 
2.43.0


From 4a6f35789fe7e4a7fd9abc8b36238ad783525a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 51/71] fix: sort and ksort moved a file-bound vector out of
 its file if the range starts inside a block

---
 include/stxxl/bits/algo/ksort.h | 6 +++++-
 include/stxxl/bits/algo/sort.h  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 1f229e3..ba7cde3 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -630,7 +630,11 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
             runs_left -= runs2merge;
         }
         // allocate blocks in the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        // (the first and the last block may be temporary ones made by the caller)
+        bool input_in_file = false;
+        for (unsigned_type j = 0; j < _n && !input_in_file; ++j)
+            input_in_file = !(input_bids + j)->is_managed();
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && input_in_file)
         {
             // if we sort a file we can reuse the input bids for the output
             InputBidIterator cur = input_bids;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index e4c4873..fa8394a 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -587,7 +587,11 @@ sort_blocks(InputBidIterator input_bids,
             runs_left -= runs2merge;
         }
         // allocate blocks for the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        // (the first and the last block may be temporary ones made by the caller)
+        bool input_in_file = false;
+        for (unsigned_type j = 0; j < _n && !input_in_file; ++j)
+            input_in_file = !(input_bids + j)->is_managed();
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && input_in_file)
         {
             // if we sort a file we can reuse the input bids for the output
             input_bid_iterator cur = input_bids;
-- 
2.43.0


From ba688bc8cbb54be783db69eeac3a04b4f31d8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 52/71] fix: ksort shifted by the key width if the references
 of a run take between one and two L2 caches

---
 include/stxxl/bits/algo/ksort.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index ba7cde3..2c7abba 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -205,9 +205,8 @@ create_runs(
     run = *runs;
     int_type run_size = (*runs)->size();
     key_type offset = 0;
-    const int log_k1 = ilog2_ceil((m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) ?
-                                  (m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) : 2);
-    const int log_k2 = ilog2_floor(m2 * Blocks1->size) - log_k1 - 1;
+    const int log_k1 = STXXL_MAX<int>(ilog2_ceil(m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE), 1);
+    const int log_k2 = STXXL_MAX<int>(ilog2_floor(m2 * Blocks1->size) - log_k1 - 1, 0);
     STXXL_VERBOSE("log_k1: " << log_k1 << " log_k2:" << log_k2);
     const int_type k1 = int_type(1) << log_k1;
     const int_type k2 = int_type(1) << log_k2;
-- 
2.43.0


From 3567b5470d7bb52b5526be88aa3c522c99d29ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:00 +0000
Subject: [PATCH 53/71] fix: ksort divided by zero if M holds two blocks only

---
 include/stxxl/bits/algo/ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 2c7abba..e8acf24 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -547,7 +547,7 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
                                 (block_type::raw_size + block_type::size * sizeof(type_key<type, key_type>));
     STXXL_VERBOSE("Reducing number of blocks in a run from " << m2 << " to " <<
                   m2_rf << " due to key size: " << sizeof(typename KeyExtractor::key_type) << " bytes");
-    m2 = m2_rf;
+    m2 = STXXL_MAX<unsigned_type>(m2_rf, 1);
     unsigned_type full_runs = _n / m2;
     unsigned_type partial_runs = ((_n % m2) ? 1 : 0);
     unsigned_type nruns = full_runs + partial_runs;
-- 
2.43.0


From 506a11f18d6e147f0c5ff3c573adad7361235eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 54/71] fix: offline_lru_prefetching failed to extract the
 external block of a swappable block that is still in memory

---
 include/stxxl/bits/mng/block_scheduler.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 091d9d8..3887f55 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1834,6 +1834,21 @@ public:
 
         SwappableBlockType& sblock = swappable_blocks[sbid];
         wait_on_write(sbid);
+        if (sblock.is_internal())
+        {
+            if (! scheduled_evictable_blocks.erase(sbid))
+                free_evictable_blocks.erase(sbid);
+            internal_block_type* iblock = sblock.detach_internal_block();
+            if (shall_keep_internal_block(schedule_meta))
+                // => internal_block shall be kept for a later acquire
+                schedule_meta->second.reserved_iblock = iblock;
+            else
+            {
+                return_free_internal_block(iblock);
+                if (next_op_to_schedule != prediction_sequence.end())
+                    schedule_next_operations();
+            }
+        }
         operation_done(schedule_meta);
         return sblock.extract_external_block();
     }
-- 
2.43.0


From e909ce404bc36efd271cfb450a2a83cfb26c6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 55/71] fix: offline_lru_prefetching synchronises with the
 completion handler of the write it follows

---
 include/stxxl/bits/mng/block_scheduler.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 3887f55..8af62bf 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -20,6 +20,7 @@
 #include <stxxl/bits/mng/block_manager.h>
 #include <stxxl/bits/mng/typed_block.h>
 #include <stxxl/bits/common/addressable_queues.h>
+#include <stxxl/bits/common/mutex.h>
 
 STXXL_BEGIN_NAMESPACE
 
@@ -144,7 +145,9 @@ public:
         #ifdef RW_VERBOSE
         STXXL_MSG("reading block");
         #endif
-        dirty = false;
+        // may run in a completion handler while the block (not dirty) is looked at
+        if (dirty)
+            dirty = false;
         return internal_data->read(external_data, on_cmpl);
     }
 
@@ -1151,6 +1154,7 @@ protected:
 
     struct write_read_request
     {
+        mutex m_mutex;                                 // protects write_done_soon and shall_read with what belongs to it
         bool write_done_soon;                          // set by read_after_write, checked by schedule_read()
         bool shall_read;                               // checked by read_after_write, set by schedule_read()
         swappable_blocks_iterator block_to_start_read; // used by read_after_write, set by schedule_read()
@@ -1170,6 +1174,7 @@ protected:
 
         void operator () (request*)
         {
+            scoped_mutex_lock lock(wrr->m_mutex);
             wrr->write_done_soon = true;
             if (wrr->shall_read)
                 wrr->taker->second.read_req = wrr->block_to_start_read->read_async();
@@ -1232,10 +1237,13 @@ protected:
     bool try_interrupt_read(const write_scheduled_blocks_iterator& writing_block)
     {
         // stop read
-        writing_block->second->shall_read = false;
-        // check if stopped
-        if (! writing_block->second->write_done_soon)
-            return true;
+        {
+            scoped_mutex_lock lock(writing_block->second->m_mutex);
+            writing_block->second->shall_read = false;
+            // check if stopped
+            if (! writing_block->second->write_done_soon)
+                return true;
+        }
         // => possibly to late
         scheduled_blocks_reference taker = *writing_block->second->taker;
         // wait
@@ -1334,11 +1342,14 @@ protected:
             {
                 // => there is a write scheduled
                 // tell the completion handler that we want a read
+                scoped_mutex_lock lock(writing_block->second->m_mutex);
                 writing_block->second->block_to_start_read = swappable_blocks.begin() + block_to_read->first;
                 writing_block->second->taker = block_to_read;
                 writing_block->second->shall_read = true;
+                const bool write_done_soon = writing_block->second->write_done_soon;
+                lock.unlock();
                 // and check if it is not to late
-                if (writing_block->second->write_done_soon)
+                if (write_done_soon)
                 {
                     // => the completion handler may have missed our wish to read
                     // so wait for it to finish and check
-- 
2.43.0


From 31a1dd3080f36dd97f2954aa776273c86318e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 56/71] fix: assigning a matrix iterator kept the block of the
 matrix it pointed into before

---
 include/stxxl/bits/containers/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stxxl/bits/containers/matrix.h b/include/stxxl/bits/containers/matrix.h
index ae6ae1b..427c9ec 100644
--- a/include/stxxl/bits/containers/matrix.h
+++ b/include/stxxl/bits/containers/matrix.h
@@ -503,6 +503,8 @@ public:
 
     matrix_iterator& operator = (const matrix_iterator& other)
     {
+        if (m != other.m)
+            release_current_iblock(); // belongs to another matrix
         set_pos(other.current_row, other.current_col);
         m = other.m;
         if (other.current_iblock)
@@ -806,6 +808,8 @@ public:
 
     const_matrix_iterator& operator = (const const_matrix_iterator& other)
     {
+        if (m != other.m)
+            release_current_iblock(); // belongs to another matrix
         set_pos(other.current_row, other.current_col);
         m = other.m;
         if (other.current_iblock)
-- 
2.43.0


From 0b905f7150413fbe010c5bafb8200bb2d6866f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 57/71] fix: the block-grained multi-level Strassen-Winograd
 multiplication multiplied the left matrix with itself

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 0ae6ffc..1528b28 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1441,22 +1441,22 @@ struct matrix_operations
             {
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 5 && 5 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 5:
-                use_feedable_sw_block_grained<5>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<5>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 4 && 4 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 4:
-                use_feedable_sw_block_grained<4>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<4>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 3 && 3 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 3:
-                use_feedable_sw_block_grained<3>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<3>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 2 && 2 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 2:
-                use_feedable_sw_block_grained<2>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<2>(padded_a, padded_b, padded_c);
                 break;
             #endif
             default:  // only here in case of wrong bounds
-- 
2.43.0


From 4d8fac8df91a3c04fa99a879d4c1ad28bb9e654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 58/71] fix: the matrix constructed from two vectors was
 computed in a copy and stayed zero

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 1528b28..e394124 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1993,7 +1993,7 @@ struct matrix_operations
 
     // +-+-+-+ vector-vector multiplication +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
 
-    static void recursive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void recursive_matrix_from_vectors(swappable_block_matrix_type& A, const column_vector_type& l,
                                               const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         // catch empty intervals
@@ -2016,7 +2016,7 @@ struct matrix_operations
         recursive_matrix_from_vectors(qa.dl, l, r, offset_l + qa.ul.get_height(), offset_r                    );
     }
 
-    static void naive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void naive_matrix_from_vectors(swappable_block_matrix_type& A, const column_vector_type& l,
                                           const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         for (size_type row = 0; row < A.get_height(); ++row)
-- 
2.43.0


From 9228287aeb6d1bbdb8f05f4e680f12aeff1036fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 59/71] fix: the padding of a matrix constructed from two
 vectors was not set to zero

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index e394124..d592b5d 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -2031,7 +2031,7 @@ struct matrix_operations
                                                     vector_size_type offset_l, vector_size_type offset_r)
     {
         // acquire
-        internal_block_type& ia = bs_a.acquire(a, true);
+        internal_block_type& ia = bs_a.acquire(a);
         // multiply
         if (! bs_a.is_simulating())
         {
-- 
2.43.0


From abfde5a1d7fba9cccb3b8a1918e23fec5be5ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 60/71] fix: multi_level_strassen_winograd_multiply_and_add
 ignored that a factor is transposed

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index d592b5d..93eba74 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1576,7 +1576,7 @@ struct matrix_operations
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
                         fsw.feed_a_element(element_row_in_block * BlockSideLength + element_col_in_block,
-                                           mtq_a.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
+                                           mtq_a.read_element(A.elem_index_in_block_from_elem(element_row_in_block, element_col_in_block)));
                 fsw.end_feeding_a_block(block_row, block_col,
                                         mtq_a.end_reading_block(block_row, block_col));
             }
@@ -1594,7 +1594,7 @@ struct matrix_operations
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
                         fsw.feed_b_element(element_row_in_block * BlockSideLength + element_col_in_block,
-                                           mtq_b.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
+                                           mtq_b.read_element(B.elem_index_in_block_from_elem(element_row_in_block, element_col_in_block)));
                 fsw.end_feeding_b_block(block_row, block_col,
                                         mtq_b.end_reading_block(block_row, block_col));
             }
@@ -1613,7 +1613,7 @@ struct matrix_operations
                 #endif
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
-                        mtq_c.feed_and_add_element(element_row_in_block * BlockSideLength + element_col_in_block,
+                        mtq_c.feed_and_add_element(C.elem_index_in_block_from_elem(element_row_in_block, element_col_in_block),
                                                    fsw.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
                 mtq_c.end_feeding_block(block_row, block_col,
                                         fsw.end_reading_block(block_row, block_col));
-- 
2.43.0


From 49ada6d9643f55225cf69f35f90f49ed2e7a1b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:21 +0000
Subject: [PATCH 61/71] fix: linuxaio_queue's posting thread took an event from
 the waiting thread and blocked for ever

When io_submit() failed with EAGAIN, the posting thread fetched an event and
took back its token of num_posted_requests, which the waiting thread had
already taken before it went to sleep in io_getevents().
---
 lib/io/linuxaio_queue.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index ebc7cd4..0696e83 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -134,7 +134,6 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
 void linuxaio_queue::post_requests()
 {
     request_ptr req;
-    io_event* events = new io_event[max_events];
 
     for ( ; ; ) // as long as thread is running
     {
@@ -158,17 +157,11 @@ void linuxaio_queue::post_requests()
             // polymorphic_downcast
             while (!dynamic_cast<linuxaio_request*>(req.get())->post(this))
             {
-                // post failed, so first handle events to make queues (more)
-                // empty, then try again.
-
-                // wait for at least one event to complete, no time limit
-                long num_events = syscall(SYS_io_getevents, context, 1, max_events, events, NULL);
-                if (num_events < 0) {
-                    STXXL_THROW_ERRNO(io_error, "linuxaio_queue::post_requests"
-                                      " io_getevents() nr_events=" << num_events);
-                }
-
-                handle_events(events, num_events, false);
+                // post failed because too many events have not been fetched yet,
+                // so let the waiting thread do that, then try again. Fetching
+                // them here could take the event the waiting thread already
+                // took the token of num_posted_requests for.
+                usleep(100);
             }
 
             // request is finally posted
@@ -182,8 +175,6 @@ void linuxaio_queue::post_requests()
             num_waiting_requests++;
         }
     }
-
-    delete[] events;
 }
 
 // detect failed and incomplete transfers
-- 
2.43.0


From 547da1f2914fab71c2e700206d3cc76afb011984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 62/71] fix: queue::push of one of the queue's own elements
 stored a wrong value when the elements were moved

---
 include/stxxl/bits/containers/queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/queue.h b/include/stxxl/bits/containers/queue.h
index c164c6b..b15536a 100644
--- a/include/stxxl/bits/containers/queue.h
+++ b/include/stxxl/bits/containers/queue.h
@@ -244,6 +244,7 @@ public:
                 assert(bids.empty());
                 size_t gap = front_element - front_block->begin();
                 assert(gap > 0);
+                const value_type new_element = val; // val may be one of the elements moved here
                 std::copy(front_element, front_block->end(), front_block->begin());
                 std::copy(back_block->begin(), back_block->begin() + gap, front_block->begin() + (block_type::size - gap));
                 std::copy(back_block->begin() + gap, back_block->end(), back_block->begin());
@@ -251,7 +252,7 @@ public:
                 back_element -= gap;
 
                 ++back_element;
-                *back_element = val;
+                *back_element = new_element;
                 ++m_size;
                 return;
             }
-- 
2.43.0


From 7aa3ed2b7a2b1d8411650a9ace5903fce6b3157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 63/71] fix: sequence::push_front/push_back of one of the
 sequence's own elements stored a wrong value when the elements were moved

---
 include/stxxl/bits/containers/sequence.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/sequence.h b/include/stxxl/bits/containers/sequence.h
index 2d1717f..4714135 100644
--- a/include/stxxl/bits/containers/sequence.h
+++ b/include/stxxl/bits/containers/sequence.h
@@ -270,6 +270,7 @@ public:
                 assert(m_bids.empty());
                 size_t gap = m_back_block->end() - (m_back_element + 1);
                 assert(gap > 0);
+                const value_type new_element = val; // val may be one of the elements moved here
                 std::copy_backward(m_back_block->begin(), m_back_element + 1, m_back_block->end());
                 std::copy_backward(m_front_block->end() - gap, m_front_block->end(), m_back_block->begin() + gap);
                 std::copy_backward(m_front_block->begin(), m_front_block->end() - gap, m_front_block->end());
@@ -277,7 +278,7 @@ public:
                 m_back_element += gap;
 
                 --m_front_element;
-                *m_front_element = val;
+                *m_front_element = new_element;
                 ++m_size;
                 return;
             }
@@ -331,6 +332,7 @@ public:
                 assert(m_bids.empty());
                 size_t gap = m_front_element - m_front_block->begin();
                 assert(gap > 0);
+                const value_type new_element = val; // val may be one of the elements moved here
                 std::copy(m_front_element, m_front_block->end(), m_front_block->begin());
                 std::copy(m_back_block->begin(), m_back_block->begin() + gap, m_front_block->begin() + (block_type::size - gap));
                 std::copy(m_back_block->begin() + gap, m_back_block->end(), m_back_block->begin());
@@ -338,7 +340,7 @@ public:
                 m_back_element -= gap;
 
                 ++m_back_element;
-                *m_back_element = val;
+                *m_back_element = new_element;
                 ++m_size;
                 return;
             }
-- 
2.43.0


From 6ed535e32a2e09c8da0e815d390e0518675f972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:02 +0000
Subject: [PATCH 64/71] fix: priority_queue::push of the queue's top element
 stored the sentinel when the insertion heap was full

---
 include/stxxl/bits/containers/priority_queue.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/stxxl/bits/containers/priority_queue.h b/include/stxxl/bits/containers/priority_queue.h
index 9bead59..79e9249 100644
--- a/include/stxxl/bits/containers/priority_queue.h
+++ b/include/stxxl/bits/containers/priority_queue.h
@@ -364,8 +364,16 @@ inline void priority_queue<ConfigType>::push(const value_type& obj)
     //STXXL_VERBOSE3("priority_queue::push("<< obj <<")");
     assert(!int_mergers->is_sentinel(obj));
     if (insert_heap.size() == N + 1)
+    {
+        const value_type new_element = obj; // obj may be the top, which is moved
         empty_insert_heap();
 
+        assert(!insert_heap.empty());
+
+        insert_heap.push(new_element);
+        return;
+    }
+
     assert(!insert_heap.empty());
 
     insert_heap.push(obj);
-- 
2.43.0


From 5405cbd8dc9159b41a16ec62aded22ff9e005874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:07 +0000
Subject: [PATCH 65/71] fix: load_config_file after flash disks were configured
 numbered its regular disks behind them

---
 lib/mng/config.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index b5e3fc7..22deb5c 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -131,15 +131,11 @@ void config::load_default_config()
     entry1.path += "stxxl.tmp";
     delete[] tmpstr;
 #endif
-    disks_list.push_back(entry1);
-
-    // no flash disks
-    first_flash = (unsigned int)disks_list.size();
+    add_disk(entry1); // a regular disk
 }
 
 void config::load_config_file(const std::string& config_path)
 {
-    std::vector<disk_config> flash_list;
     std::ifstream cfg_file(config_path.c_str());
 
     if (!cfg_file)
@@ -155,17 +151,11 @@ void config::load_config_file(const std::string& config_path)
         disk_config entry;
         entry.parse_line(line); // throws on errors
 
-        if (!entry.flash)
-            disks_list.push_back(entry);
-        else
-            flash_list.push_back(entry);
+        // puts flash devices after regular disks, also after those of other sources
+        add_disk(entry);
     }
     cfg_file.close();
 
-    // put flash devices after regular disks
-    first_flash = (unsigned int)disks_list.size();
-    disks_list.insert(disks_list.end(), flash_list.begin(), flash_list.end());
-
     if (disks_list.empty()) {
         STXXL_THROW(std::runtime_error,
                     "No disks found in '" << config_path << "'.");
-- 
2.43.0


From c6b17dc483c0886d15784f897110a1d18b61c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 66/71] fix: deque iterators moved by a negative distance with
 += or + across the start of the ring

The distance arrives as a size_type; reducing it modulo the ring size is only right when the ring size is a power of two.  Add the ring size first, as operator - does.
---
 include/stxxl/bits/containers/deque.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 93dc654..90a26f5 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -88,7 +88,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -99,7 +99,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -125,12 +125,12 @@ public:
 
     reference operator [] (size_type op)
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
@@ -287,7 +287,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -298,7 +298,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -314,7 +314,7 @@ public:
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
-- 
2.43.0


From abf51ec00e131c03d658e83c80dfb484779b512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 67/71] fix: deques of different sizes compared equal if one is
 a prefix of the other

---
 include/stxxl/bits/containers/deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 90a26f5..f83f6d0 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -696,7 +696,7 @@ public:
 template <class ValueType, class VectorType>
 bool operator == (const deque<ValueType, VectorType>& a, const deque<ValueType, VectorType>& b)
 {
-    return std::equal(a.begin(), a.end(), b.begin());
+    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
 }
 
 template <class ValueType, class VectorType>
-- 
2.43.0


From 5f9a88c5b0f9ae4f8b7f57ba752da20054498706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 68/71] fix: swapping two maps left the dirty flags of the
 cached nodes behind

Modified nodes of one map were evicted without being written after swap(), so that updates were lost.  The counters of cache misses were mixed up, too.
---
 include/stxxl/bits/containers/btree/node_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/btree/node_cache.h b/include/stxxl/bits/containers/btree/node_cache.h
index 69cbfd3..4377eae 100644
--- a/include/stxxl/bits/containers/btree/node_cache.h
+++ b/include/stxxl/bits/containers/btree/node_cache.h
@@ -565,12 +565,13 @@ public:
         change_btree_pointers(m_btree);
         obj.change_btree_pointers(obj.m_btree);
         std::swap(m_fixed, obj.m_fixed);
+        std::swap(m_dirty, obj.m_dirty);
         std::swap(m_free_nodes, obj.m_free_nodes);
         std::swap(m_bid2node, obj.m_bid2node);
         std::swap(m_pager, obj.m_pager);
         std::swap(m_alloc_strategy, obj.m_alloc_strategy);
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_created, obj.n_created);
         std::swap(n_deleted, obj.n_deleted);
         std::swap(n_read, obj.n_read);
-- 
2.43.0


From e6909067ad34968b84fc330e56024726bdb3b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:25 +0000
Subject: [PATCH 69/71] fix: iterators of swapped unordered_maps were attached
 to the wrong map

iterator_map::swap() exchanged the back pointers together with the iterators, so that every iterator still named the map which had lost its contents; advancing or destroying it failed or read the other map's block cache.  Open readers are closed, since they refer to the block cache of the previous map.
---
 include/stxxl/bits/containers/hash_map/block_cache.h  | 2 +-
 include/stxxl/bits/containers/hash_map/iterator_map.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 03663d9..539f420 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -544,7 +544,7 @@ public:
         std::swap(pager_, obj.pager_);
 
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_read, obj.n_read);
         std::swap(n_written, obj.n_written);
         std::swap(n_clean_forced, obj.n_clean_forced);
diff --git a/include/stxxl/bits/containers/hash_map/iterator_map.h b/include/stxxl/bits/containers/hash_map/iterator_map.h
index 57555b3..d343f2b 100644
--- a/include/stxxl/bits/containers/hash_map/iterator_map.h
+++ b/include/stxxl/bits/containers/hash_map/iterator_map.h
@@ -230,14 +230,17 @@ private:
     void change_hash_map_pointers(hash_map_type* map)
     {
         for (mmiterator_type it = it_map_.begin(); it != it_map_.end(); ++it)
+        {
+            // readers refer to the block cache of the previous map
+            ((*it).second)->reset_reader();
             ((*it).second)->map_ = map;
+        }
     }
 
 public:
     void swap(iterator_map<HashMap>& obj)
     {
         std::swap(it_map_, obj.it_map_);
-        std::swap(map_, obj.map_);
 
         change_hash_map_pointers(map_);
         obj.change_hash_map_pointers(obj.map_);
-- 
2.43.0


From 33eae0419a981aad9cc176fa1acde1d227d4f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:22 +0000
Subject: [PATCH 70/71] fix: sorter and runs_creator destroyed or cleared
 during input: runs still being written used freed buffers and blocks

---
 include/stxxl/bits/stream/sort_stream.h | 34 ++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 062ea87..a01c062 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -494,6 +494,29 @@ protected:
                                    m_cmp);
     }
 
+    //! Stop writing runs that are not needed any more: afterwards neither the
+    //! buffers nor the external blocks are in use.
+    void cancel_writes()
+    {
+        if (!m_write_reqs)
+            return;
+
+        for (unsigned_type i = 0; i < m_m2; ++i)
+        {
+            if (!m_write_reqs[i].get())
+                continue;
+
+            m_write_reqs[i]->cancel();
+            try
+            {
+                m_write_reqs[i]->wait();
+            }
+            catch (const io_error&)
+            { } // the data is discarded anyway
+            m_write_reqs[i] = request_ptr();
+        }
+    }
+
     void compute_result()
     {
         if (m_cur_el == 0)
@@ -564,6 +587,8 @@ public:
 
     ~runs_creator()
     {
+        if (!m_result_computed)
+            cancel_writes();
         m_result_computed = 1;
         deallocate();
     }
@@ -571,6 +596,9 @@ public:
     //! Clear current state and remove all items.
     void clear()
     {
+        // the writes use the blocks of the result
+        cancel_writes();
+
         if (!m_result)
             m_result = new sorted_runs_data_type;
         else
@@ -578,12 +606,6 @@ public:
 
         m_result_computed = false;
         m_cur_el = 0;
-
-        for (unsigned_type i = 0; i < m_m2; ++i)
-        {
-            if (m_write_reqs[i].get())
-                m_write_reqs[i]->cancel();
-        }
     }
 
     //! Allocates input buffers and clears result.
-- 
2.43.0


From bce376ae01b1d7c78e6e7ddae41467d14542cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:14 +0000
Subject: [PATCH 71/71] fix: runs_creator::size() counted the last run twice
 after result() (sorter::size() after finish())

---
 include/stxxl/bits/stream/sort_stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index a01c062..07f613a 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -530,6 +530,7 @@ protected:
             STXXL_VERBOSE1("runs_creator(use_push): Small input optimization, input length: " << m_cur_el);
             m_result->small_run.assign(m_blocks1[0].begin(), m_blocks1[0].begin() + m_cur_el);
             m_result->elements = m_cur_el;
+            m_cur_el = 0; // counted in the result now
             return;
         }
 
@@ -553,6 +554,7 @@ protected:
             m_write_reqs[i] = m_blocks1[i].write(run[i].bid);
         }
         m_result->add_run(run, m_cur_el);
+        m_cur_el = 0; // counted in the result now
 
         for (i = 0; i < m_m2; ++i)
         {
-- 
2.43.0


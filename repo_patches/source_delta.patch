From 20b7ecdf15085e92b03a69222148a1a47ee45267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 01/38] fix: size the data free list for data buffers, values
 over 8K crashed the writer

---
 src/drm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drm_base.h b/src/drm_base.h
index 4deb27f..0552e3c 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -259,7 +259,7 @@ public:
                 if (index) {
                     free_lists = new FreeList(mbdir + "_ibfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
                 } else {
-                    free_lists = new FreeList(mbdir + "_dbfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
+                    free_lists = new FreeList(mbdir + "_dbfl", DATA_BUFFER_ALIGNMENT, NUM_DATA_BUFFER_RESERVE);
                 }
             }
         }
-- 
2.43.0


From 8534b40b4487cf5341758cfc55f6a7f55b90e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 02/38] fix: prefix iterator returned keys shorter than the
 prefix

---
 src/iterator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iterator.cpp b/src/iterator.cpp
index c9ddd94..d93a0e1 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -267,7 +267,8 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
                 }
             }
 
-            if (match != MATCH_NONE) {
+            // An ancestor of the prefix must be traversed but is not an entry of it.
+            if (match != MATCH_NONE && match_str.size() >= prefix.size()) {
                 inode = new_iterator_node(match_str, &value);
                 if (inode != NULL) {
                     rval = kv_per_node->AddToTail(inode);
-- 
2.43.0


From 73eb9830357afc2fc5b59cd68266622fc3d764b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 03/38] fix: zero recycled node memory in jemalloc mode

---
 src/dict_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 5c363ee..d63950d 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -776,6 +776,8 @@ bool DictMem::ReserveNode(int nt, size_t& offset, uint8_t*& ptr)
                 MBError::get_error_str(rval));
             throw rval;
         }
+        // jemalloc does not clear recycled memory; callers rely on a zeroed node.
+        memset(ptr, 0, buf_size);
         ret = false;
         size_t rel_size = ((size_t)buf_size + JEMALLOC_ALIGNMENT - 1) & ~(JEMALLOC_ALIGNMENT - 1);
         header->pending_index_buff_size += (int64_t)rel_size;
-- 
2.43.0


From 7814d733f99d55969ea8aa93ac0e4017e70190bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 04/38] fix: accept data offset 0 for internal nodes in
 jemalloc mode

---
 src/dict.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 0833d48..c29471a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -729,7 +729,8 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
 int Dict::ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const
 {
     size_t data_off = Get6BInteger(node_ptr + 2);
-    if (data_off == 0)
+    // Offset 0 is a valid allocation in jemalloc mode.
+    if (data_off == 0 && !(options & CONSTS::OPTION_JEMALLOC))
         return MBError::NOT_EXIST;
 
     data.data_offset = data_off;
-- 
2.43.0


From 17e2c7ecc912a704cf7746dad67bd8129643686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 05/38] fix: edge label longer than the remaining key, and
 match_len of a failed prefix step

---
 src/detail/search_engine.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c7e2d65..5b36dba 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -285,8 +285,9 @@ namespace detail {
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                data.match_len = len;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = len;
             }
         }
 
@@ -468,6 +469,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            if (edge_len > len) {
+                // The edge label extends beyond the end of the key.
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
             if (rval == MBError::READ_ERROR)
                 break;
@@ -552,6 +558,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            if (edge_len > len) {
+                // The edge label extends beyond the end of the key.
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             // match edge string
             if (edge_len > LOCAL_EDGE_LEN) {
                 size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
@@ -573,8 +584,9 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                data.match_len = key_cursor - key_base;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key_base;
                 break;
             }
 #ifdef __LOCK_FREE__
-- 
2.43.0


From 8c60c4f5c4e13d057ba5c776d61c33ddaee33b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 06/38] fix: lower bound with leaf root edges, long edge labels
 and reused output

---
 src/db.cpp                   |  8 +++++-
 src/detail/search_engine.cpp | 52 +++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ac47816..b4b2d89 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -934,9 +934,15 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
     if (options & CONSTS::ASYNC_WRITER_MODE)
         return MBError::NOT_ALLOWED;
 
+    if (len <= 0)
+        return MBError::NOT_EXIST;
+
     data.options = 0;
-    if (bound_key != nullptr)
+    data.match_len = 0;
+    if (bound_key != nullptr) {
+        bound_key->clear();
         bound_key->reserve(CONSTS::MAX_KEY_LENGHTH);
+    }
     detail::SearchEngine engine(*dict);
     return engine.lowerBound(reinterpret_cast<const uint8_t*>(key), len, data, bound_key);
 }
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 5b36dba..108e1aa 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -168,17 +168,28 @@ namespace detail {
             edge_label_ptr = edge_ptrs.ptr;
         }
 
-        if (edge_len < len) {
-            int label_cmp = memcmp(edge_label_ptr, key_cursor + 1, edge_label_len);
-            if (label_cmp != 0) {
-                if (label_cmp < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->push_back(static_cast<char>(key[0]));
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                    }
+        // Compare only the bytes available on both sides; a label extending
+        // beyond the key is greater than the key when the common part is equal.
+        int cmp_len = edge_label_len < len - 1 ? edge_label_len : len - 1;
+        int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key_cursor + 1, cmp_len) : 0;
+        if (label_cmp != 0) {
+            if (label_cmp < 0) {
+                // Everything below this root edge is less than the key.
+                bound_state.use_curr_edge = true;
+                if (bound_key) {
+                    bound_key->push_back(static_cast<char>(key[0]));
+                    bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
                 }
-                return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
+            }
+            return MBError::NOT_EXIST;
+        }
+
+        if (edge_len < len) {
+            if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
+                rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len += edge_len;
+                return rval;
             }
 
             len -= edge_len;
@@ -186,19 +197,9 @@ namespace detail {
             data.match_len += edge_len;
             rval = traverseToLowerBound(key_cursor, len, edge_ptrs, data, bound_edge_ptrs, bound_state);
         } else if (edge_len == len) {
-            if (len > 1 && memcmp(edge_label_ptr, key + 1, len - 1) != 0) {
-                if (memcmp(edge_label_ptr, key + 1, len - 1) < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->append(reinterpret_cast<const char*>(key), data.match_len + 1);
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), len - 1);
-                    }
-                }
-            } else {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (rval == MBError::SUCCESS)
-                    data.match_len += edge_len;
-            }
+            rval = dict.ReadDataFromEdge(data, edge_ptrs);
+            if (rval == MBError::SUCCESS)
+                data.match_len += edge_len;
         }
 
         return rval;
@@ -732,7 +733,10 @@ namespace detail {
             // Any divergence returns NOT_EXIST to the caller, carrying the best
             // candidate captured so far in bound_edge_ptrs.
             if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, edge_label_len);
+                int cmp_len = edge_label_len < len - 1 ? edge_label_len : len - 1;
+                int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key + 1, cmp_len) : 0;
+                if (label_cmp == 0 && edge_len > len)
+                    label_cmp = 1; // label extends beyond the key
                 if (label_cmp != 0) {
                     // If the edge label is strictly less than the key suffix, signal
                     // that the current subtree itself is a valid lower-bound pivot.
-- 
2.43.0


From c4a85ee948bf1f1753aa0627d6c29e7055dfed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 07/38] fix: keys of 256 bytes were lost, edge length does not
 fit one byte

---
 src/dict_mem.cpp | 31 ++++++++++++++++++++++++++++---
 src/drm_base.h   |  1 +
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index d63950d..f7cc13c 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -278,6 +278,34 @@ bool DictMem::IsValid() const
 void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
     int len, size_t data_offset)
 {
+    edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
+    Write6BInteger(edge_ptrs.offset_ptr, data_offset);
+
+    if (len > MAX_EDGE_LEN) {
+        // The edge length is stored in one byte. Put the rest of the key on
+        // an edge of a new node below the root edge.
+        NodePtrs node_ptrs;
+        EdgePtrs tail_edge;
+        uint8_t* node;
+        bool node_move = ReserveNode(0, node_ptrs.offset, node);
+        InitNodePtrs(node, 0, node_ptrs);
+        node[0] = FLAG_NODE_NONE | FLAG_NODE_SORTED;
+        node[1] = 0;
+        InitEdgePtrs(node_ptrs, 0, tail_edge);
+        tail_edge.len_ptr[0] = len - MAX_EDGE_LEN;
+        memcpy(tail_edge.ptr, key + MAX_EDGE_LEN + 1, len - MAX_EDGE_LEN - 1);
+        tail_edge.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
+        Write6BInteger(tail_edge.offset_ptr, data_offset);
+        node_ptrs.edge_key_ptr[0] = key[MAX_EDGE_LEN];
+        if (node_move)
+            WriteData(node, node_size[0], node_ptrs.offset);
+        header->n_edges++;
+
+        len = MAX_EDGE_LEN;
+        edge_ptrs.flag_ptr[0] = 0;
+        Write6BInteger(edge_ptrs.offset_ptr, node_ptrs.offset);
+    }
+
     edge_ptrs.len_ptr[0] = len;
     if (len > LOCAL_EDGE_LEN) {
         size_t edge_str_off;
@@ -287,9 +315,6 @@ void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
         memcpy(edge_ptrs.ptr, key + 1, len - 1);
     }
 
-    edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
-    Write6BInteger(edge_ptrs.offset_ptr, data_offset);
-
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
diff --git a/src/drm_base.h b/src/drm_base.h
index 0552e3c..3e7fc25 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -38,6 +38,7 @@
 #define FLAG_NODE_NONE 0x0
 #define BUFFER_ALIGNMENT 1
 #define LOCAL_EDGE_LEN 6
+#define MAX_EDGE_LEN 255 // edge length is stored in one byte
 #define LOCAL_EDGE_LEN_M1 5
 #define EDGE_NODE_LEADING_POS 7
 #define EXCEP_STATUS_NONE 0
-- 
2.43.0


From 2c604aa3caaba47e7199f1d37698290aad022b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 08/38] fix: backup of a DB with its own queue directory
 crashed

---
 src/mb_backup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a6a5525..a863f38 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -149,7 +149,9 @@ int DBBackup::Backup(const char* bk_dir)
 
     // reset number readers/writers in backed up DB.
     int rval;
-    DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
+    // the copied header names the queue of the source DB, which is not needed here
+    // and may not be in the default directory
+    DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER | CONSTS::READ_ONLY_DB, 0, 0);
     rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_WRITER, -1);
     if (rval != MBError::SUCCESS)
         Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-- 
2.43.0


From 77088f4b2a063c2a6ff990c60f680f48a3d327c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 09/38] fix: backup of a DB whose last block file does not
 exist yet failed

---
 src/mb_backup.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a863f38..c25fe94 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -53,12 +53,12 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
 
     if ((fp_read = fopen(src_path.c_str(), "rb")) == NULL) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", src_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
     if ((fp_write = fopen(dest_path.c_str(), "wb")) == NULL) {
         fclose(fp_read);
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
 
     int rval = MBError::SUCCESS;
@@ -128,6 +128,9 @@ int DBBackup::Backup(const char* bk_dir)
 
     for (int i = 0; i < num_data_files; i++) {
         read_file_path = read_file_path_base + std::to_string(i);
+        // the last file is not created until a buffer in it is reserved
+        if (i == num_data_files - 1 && access(read_file_path.c_str(), F_OK) != 0)
+            continue;
         write_file_path = write_file_path_base + std::to_string(i);
         copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
     }
@@ -136,6 +139,9 @@ int DBBackup::Backup(const char* bk_dir)
     write_file_path_base = std::string(bk_dir) + "/_mabain_i";
     for (int i = 0; i < num_index_files; i++) {
         read_file_path = read_file_path_base + std::to_string(i);
+        // the last file is not created until a buffer in it is reserved
+        if (i == num_index_files - 1 && access(read_file_path.c_str(), F_OK) != 0)
+            continue;
         write_file_path = write_file_path_base + std::to_string(i);
         copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
     }
-- 
2.43.0


From 89777cc4e458ba58b6354a568efb3380dac6a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 10/38] fix: prefix cache answered from edges that had since
 been updated or removed

---
 src/detail/search_engine.cpp | 34 +++++++++++++----
 src/detail/search_engine.h   | 11 ++++--
 src/dict.cpp                 | 32 +++++++++++++++-
 src/mb_rc.cpp                |  3 ++
 src/util/prefix_cache.cpp    | 71 ++++++++++++++++++++++++++++--------
 src/util/prefix_cache.h      | 12 +++++-
 6 files changed, 133 insertions(+), 30 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 108e1aa..3fb9467 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -315,9 +315,23 @@ namespace detail {
         bool use_cache = true
             && !(dict.reader_rc_off != 0 && root_off == dict.reader_rc_off)
             && !(data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT);
-        bool used_cache = use_cache ? seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed) : false;
+        if (use_cache) {
+            PrefixCacheEntry entry;
+            int depth = 0;
+            if (seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed, entry, depth)) {
+                rval = findFromCache(key, orig_len, edge_ptrs, data, key_cursor, len, consumed);
+                // The result counts only if the entry was not invalidated meanwhile.
+                PrefixCache* pc = dict.ActivePrefixCache();
+                if (rval != MBError::TRY_AGAIN && pc->IsCurrent(key, depth, entry))
+                    return rval;
+                data.options &= ~CONSTS::OPTION_READ_SAVED_EDGE;
+                key_cursor = key;
+                len = orig_len;
+                consumed = 0;
+            }
+        }
 
-        if (!used_cache) {
+        {
 #ifdef __LOCK_FREE__
             ReaderLFGuard lf_guard(dict.lfree, data);
 #endif
@@ -412,12 +426,16 @@ namespace detail {
 #endif
         }
 
-        if (used_cache) {
-            if (len <= 0)
-                return resolveMatchOrInDict(data, edge_ptrs, false);
-            if (isLeaf(edge_ptrs))
-                return MBError::NOT_EXIST;
-        }
+        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+    }
+
+    int SearchEngine::findFromCache(const uint8_t* key, int orig_len, EdgePtrs& edge_ptrs, MBData& data,
+        const uint8_t* key_cursor, int len, int consumed)
+    {
+        if (len <= 0)
+            return resolveMatchOrInDict(data, edge_ptrs, false);
+        if (isLeaf(edge_ptrs))
+            return MBError::NOT_EXIST;
         return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
     }
 
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 08b5e25..3d96d99 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -77,7 +77,11 @@ namespace detail {
         // key_cursor/len_remaining/consumed accordingly. For very short keys
         // (len < 2) it returns false without making a virtual call.
         inline bool seedFromCache(const uint8_t* key, int len, EdgePtrs& edge_ptrs,
-            MBData& data, const uint8_t*& key_cursor, int& len_remaining, int& consumed) const;
+            MBData& data, const uint8_t*& key_cursor, int& len_remaining, int& consumed,
+            PrefixCacheEntry& entry, int& depth) const;
+        // Finish an exact lookup from the state set up by seedFromCache
+        int findFromCache(const uint8_t* key, int orig_len, EdgePtrs& edge_ptrs, MBData& data,
+            const uint8_t* key_cursor, int len, int consumed);
         // declared once above
 
         // Lower-bound internals
@@ -184,7 +188,8 @@ namespace detail {
     }
 
     inline bool SearchEngine::seedFromCache(const uint8_t* key, int len, EdgePtrs& edge_ptrs,
-        MBData& data, const uint8_t*& key_cursor, int& len_remaining, int& consumed) const
+        MBData& data, const uint8_t*& key_cursor, int& len_remaining, int& consumed,
+        PrefixCacheEntry& entry, int& depth) const
     {
         // Keys shorter than 2 bytes cannot hit the cache; avoid virtual call.
         if (len < 2 || key == nullptr)
@@ -194,7 +199,6 @@ namespace detail {
         if (!pc)
             return false;
 
-        PrefixCacheEntry entry;
         int n = pc->GetDepth(key, len, entry);
         if (n == 0)
             return false;
@@ -244,6 +248,7 @@ namespace detail {
         key_cursor = kcur;
         len_remaining = lrem;
         consumed = cons;
+        depth = n;
         return true;
     }
 
diff --git a/src/dict.cpp b/src/dict.cpp
index c29471a..ad55244 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -145,6 +145,19 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
             }
         }
     }
+    // Drop what the cache holds if this writer does not maintain it (async writer, option
+    // not set) or will relocate the index (jemalloc).
+    if (!init_header && header->pfxcache_size > 0 && (options & CONSTS::ACCESS_MODE_WRITER)
+        && (!prefix_cache || (options & CONSTS::OPTION_JEMALLOC))) {
+        try {
+            if (prefix_cache)
+                prefix_cache->Clear();
+            else
+                PrefixCache(mbdir_, header).Clear();
+        } catch (...) {
+            Logger::Log(LOG_LEVEL_ERROR, "failed to clear prefix cache");
+        }
+    }
     if (mm.IsValid())
         status = MBError::SUCCESS;
 }
@@ -290,6 +303,9 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
     if (len > CONSTS::MAX_KEY_LENGHTH || data.data_len > CONSTS::MAX_DATA_SIZE || len <= 0 || data.data_len <= 0)
         return MBError::OUT_OF_BOUND;
 
+    if (prefix_cache)
+        prefix_cache->Invalidate(key, len);
+
     EdgePtrs edge_ptrs;
     int rval;
 
@@ -437,7 +453,9 @@ void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool fro
     if (edge_len < remain) {
         if (edge_len_m1 <= 0 || memcmp(key_buff, key_cursor + 1, edge_len_m1) == 0) {
             // If 4-byte boundary falls inside this edge and prefix matches, seed a mid-edge entry.
-            if (from_add && len >= 4 && consumed < 4 && consumed + edge_len >= 4) {
+            // The string of a long edge is released when the edge is split by another prefix.
+            if (from_add && len >= 4 && consumed < 4
+                && (consumed + edge_len == 4 || (consumed + edge_len > 4 && edge_len <= LOCAL_EDGE_LEN))) {
                 uint8_t skip = static_cast<uint8_t>(4 - consumed);
                 PrefixCacheEntry e {};
                 e.edge_offset = edge_ptrs.offset;
@@ -541,7 +559,9 @@ void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool fro
             break;
         }
         // If 4-byte boundary falls inside this edge and prefix matches, seed mid-edge entry.
-        if (from_add && len >= 4 && consumed < 4 && consumed + edge_len >= 4) {
+        // The string of a long edge is released when the edge is split by another prefix.
+        if (from_add && len >= 4 && consumed < 4
+            && (consumed + edge_len == 4 || (consumed + edge_len > 4 && edge_len <= LOCAL_EDGE_LEN))) {
             uint8_t skip = static_cast<uint8_t>(4 - consumed);
             PrefixCacheEntry e {};
             e.edge_offset = edge_ptrs.offset;
@@ -951,6 +971,9 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
     if (!(data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT))
         return MBError::INVALID_ARG;
 
+    if (prefix_cache)
+        prefix_cache->Invalidate(key, len);
+
     int rval;
     {
         detail::SearchEngine engine(*this);
@@ -985,10 +1008,15 @@ int Dict::RemoveAll()
 {
     int rval = MBError::SUCCESS;
 
+    if (prefix_cache)
+        prefix_cache->Clear();
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
         kv_file->ResetJemalloc();
+        // keep the embedded prefix-cache region out of the new arena
+        if (header->pfxcache_size > 0)
+            (void)kv_file->PreAlloc(GetStartDataOffset());
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e6b2597..c2c096f 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -193,6 +193,9 @@ void ResourceCollection::ReclaimResource(int64_t min_index_size,
 
     if (min_index_size > 0 || min_data_size > 0) {
         Prepare(min_index_size, min_data_size);
+        // The buffers referred to by the prefix cache are about to be moved.
+        if (dict->ActivePrefixCache() != NULL)
+            dict->ActivePrefixCache()->Clear();
         Logger::Log(LOG_LEVEL_INFO, "defragmentation started for [index - %s] [data - %s]",
             rc_type & RESOURCE_COLLECTION_TYPE_INDEX ? "yes" : "no",
             rc_type & RESOURCE_COLLECTION_TYPE_DATA ? " yes" : "no");
diff --git a/src/util/prefix_cache.cpp b/src/util/prefix_cache.cpp
index 8df7c6f..d7286a1 100644
--- a/src/util/prefix_cache.cpp
+++ b/src/util/prefix_cache.cpp
@@ -418,6 +418,7 @@ void PrefixCache::Put(const uint8_t* key, int len, const PrefixCacheEntry& in)
         // Clear valid first to prevent readers from observing partial update
         valid4[idx4].store(0, std::memory_order_release);
         PrefixCacheEntry e = in;
+        e.lf_counter = tab4[idx4].lf_counter + 1;
         tab4[idx4] = e;
         tag4[idx4].store(p4, std::memory_order_release);
         valid4[idx4].store(1, std::memory_order_release);
@@ -427,12 +428,8 @@ void PrefixCache::Put(const uint8_t* key, int len, const PrefixCacheEntry& in)
     uint32_t p3;
     if (cap3 > 0 && build3(key, len, p3)) {
         size_t idx3 = static_cast<size_t>(p3) & mask3;
-        uint32_t old_tag = tag3[idx3].load(std::memory_order_relaxed);
         PrefixCacheEntry e = in;
-        if (old_tag != 0) {
-            // Preserve prior origin bits on overwrite
-            e.lf_counter |= tab3[idx3].lf_counter;
-        }
+        e.lf_counter = tab3[idx3].lf_counter + 1;
         // Clear tag to prevent readers from observing partial update
         tag3[idx3].store(0, std::memory_order_release);
         tab3[idx3] = e; // write body
@@ -443,11 +440,8 @@ void PrefixCache::Put(const uint8_t* key, int len, const PrefixCacheEntry& in)
     uint16_t p2;
     if (build2(key, len, p2)) {
         size_t idx2 = static_cast<size_t>(p2) & mask2;
-        uint32_t old_tag = tag2[idx2].load(std::memory_order_relaxed);
         PrefixCacheEntry e = in;
-        if (old_tag != 0) {
-            e.lf_counter |= tab2[idx2].lf_counter;
-        }
+        e.lf_counter = tab2[idx2].lf_counter + 1;
         tag2[idx2].store(0, std::memory_order_release);
         tab2[idx2] = e;
         tag2[idx2].store(static_cast<uint32_t>(p2) + 1, std::memory_order_release);
@@ -465,6 +459,7 @@ void PrefixCache::PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEnt
             size_t idx4 = static_cast<size_t>(p4) & mask4;
             valid4[idx4].store(0, std::memory_order_release);
             PrefixCacheEntry e = in;
+            e.lf_counter = tab4[idx4].lf_counter + 1;
             tab4[idx4] = e;
             tag4[idx4].store(p4, std::memory_order_release);
             valid4[idx4].store(1, std::memory_order_release);
@@ -476,10 +471,8 @@ void PrefixCache::PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEnt
         uint32_t p3;
         if (build3(key, 3, p3)) {
             size_t idx3 = static_cast<size_t>(p3) & mask3;
-            uint32_t old_tag = tag3[idx3].load(std::memory_order_relaxed);
             PrefixCacheEntry e = in;
-            if (old_tag != 0)
-                e.lf_counter |= tab3[idx3].lf_counter;
+            e.lf_counter = tab3[idx3].lf_counter + 1;
             tag3[idx3].store(0, std::memory_order_release);
             tab3[idx3] = e;
             tag3[idx3].store(p3 + 1, std::memory_order_release);
@@ -491,10 +484,8 @@ void PrefixCache::PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEnt
         uint16_t p2;
         if (build2(key, 2, p2)) {
             size_t idx2 = static_cast<size_t>(p2) & mask2;
-            uint32_t old_tag = tag2[idx2].load(std::memory_order_relaxed);
             PrefixCacheEntry e = in;
-            if (old_tag != 0)
-                e.lf_counter |= tab2[idx2].lf_counter;
+            e.lf_counter = tab2[idx2].lf_counter + 1;
             tag2[idx2].store(0, std::memory_order_release);
             tab2[idx2] = e;
             tag2[idx2].store(static_cast<uint32_t>(p2) + 1, std::memory_order_release);
@@ -504,6 +495,56 @@ void PrefixCache::PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEnt
     }
 }
 
+// Drop the entries for the 2/3/4-byte prefixes of the key. The writer must call
+// this before it starts modifying the path of the key.
+void PrefixCache::Invalidate(const uint8_t* key, int len)
+{
+    uint32_t p4;
+    if (cap4 > 0 && build4(key, len, p4)) {
+        size_t idx4 = static_cast<size_t>(p4) & mask4;
+        if (valid4[idx4].load(std::memory_order_relaxed) && tag4[idx4].load(std::memory_order_relaxed) == p4)
+            valid4[idx4].store(0, std::memory_order_release);
+    }
+    uint32_t p3;
+    if (cap3 > 0 && build3(key, len, p3)) {
+        size_t idx3 = static_cast<size_t>(p3) & mask3;
+        if (tag3[idx3].load(std::memory_order_relaxed) == p3 + 1)
+            tag3[idx3].store(0, std::memory_order_release);
+    }
+    uint16_t p2;
+    if (build2(key, len, p2)) {
+        size_t idx2 = static_cast<size_t>(p2) & mask2;
+        if (tag2[idx2].load(std::memory_order_relaxed) == static_cast<uint32_t>(p2) + 1)
+            tag2[idx2].store(0, std::memory_order_release);
+    }
+    // The entries must be gone before anything they refer to is modified.
+    std::atomic_thread_fence(std::memory_order_seq_cst);
+}
+
+// Check if an entry returned by GetDepth at the given depth is still in its slot.
+bool PrefixCache::IsCurrent(const uint8_t* key, int depth, const PrefixCacheEntry& entry) const
+{
+    // Everything read through the entry must have been read before the check.
+    std::atomic_thread_fence(std::memory_order_acquire);
+    const PrefixCacheEntry* curr = nullptr;
+    uint32_t p4, p3;
+    uint16_t p2;
+    if (depth == 4 && cap4 > 0 && build4(key, 4, p4)) {
+        size_t idx4 = static_cast<size_t>(p4) & mask4;
+        if (valid4[idx4].load(std::memory_order_acquire) && tag4[idx4].load(std::memory_order_acquire) == p4)
+            curr = &tab4[idx4];
+    } else if (depth == 3 && cap3 > 0 && build3(key, 3, p3)) {
+        size_t idx3 = static_cast<size_t>(p3) & mask3;
+        if (tag3[idx3].load(std::memory_order_acquire) == p3 + 1)
+            curr = &tab3[idx3];
+    } else if (depth == 2 && build2(key, 2, p2)) {
+        size_t idx2 = static_cast<size_t>(p2) & mask2;
+        if (tag2[idx2].load(std::memory_order_acquire) == static_cast<uint32_t>(p2) + 1)
+            curr = &tab2[idx2];
+    }
+    return curr != nullptr && memcmp(curr, &entry, sizeof(entry)) == 0;
+}
+
 // Total number of populated entries across all tables (best-effort, no locking).
 size_t PrefixCache::Size() const { return Size2() + Size3() + Size4(); }
 
diff --git a/src/util/prefix_cache.h b/src/util/prefix_cache.h
index 520da8e..23cf0d9 100644
--- a/src/util/prefix_cache.h
+++ b/src/util/prefix_cache.h
@@ -55,8 +55,12 @@ namespace mabain {
 //   the body directly.
 //
 // Notes
-// - `lf_counter` is carried over on overwrites to preserve origin bits when the
-//   same slot is reused (e.g., due to aliasing).
+// - `lf_counter` counts how many times the slot has been filled, so that a reader
+//   can tell that the entry it used was replaced meanwhile.
+// - An entry is a copy of an edge. It remains usable as long as no key starting
+//   with the cached prefix is added or removed: the writer invalidates the entries
+//   of the prefixes of a key before updating it, and readers check that the entry
+//   is still in its slot after they have finished the lookup.
 // - All pointers reference a single shared-memory mapping; there is no
 //   process-local fallback.
 
@@ -79,6 +83,10 @@ public:
     void Put(const uint8_t* key, int len, const PrefixCacheEntry& in);
     void PutAtDepth(const uint8_t* key, int depth, const PrefixCacheEntry& in);
     int GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) const;
+    // Drop the entries for the prefixes of the key. Used by writer before an update.
+    void Invalidate(const uint8_t* key, int len);
+    // Check if the entry obtained from GetDepth is still the one in the cache.
+    bool IsCurrent(const uint8_t* key, int depth, const PrefixCacheEntry& entry) const;
     // Report the maximum prefix length this cache can seed from (3 bytes reported for compatibility)
     int PrefixLen() const { return 3; }
     bool IsShared() const { return true; }
-- 
2.43.0


From 030809d1a20b6ef772a0b007aec01a504a869b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 11/38] fix: status of an RC move was set after the reader
 could use it

---
 src/mb_rc.cpp | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index c2c096f..0d86cbb 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -847,16 +847,17 @@ void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
         if (dbt_node.buffer_type & BUFFER_TYPE_NODE) {
             if (MoveIndexBufferEvacuate(dbt_node.node_offset, dbt_node.node_size)) {
                 Write6BInteger(header->excep_buff, dbt_node.node_offset);
+                header->excep_lf_offset = dbt_node.edge_offset;
+                header->excep_offset = dbt_node.node_link_offset;
+                header->excep_updating_status = EXCEP_STATUS_RC_NODE;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStart(dbt_node.edge_offset);
 #endif
-                header->excep_offset = dbt_node.node_link_offset;
-                header->excep_updating_status = EXCEP_STATUS_RC_NODE;
                 dmm->WriteData(header->excep_buff, OFFSET_SIZE, dbt_node.node_link_offset);
-                header->excep_updating_status = 0;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStop();
 #endif
+                header->excep_updating_status = 0;
                 if (dbt_node.buffer_type & BUFFER_TYPE_DATA)
                     dbt_node.data_link_offset = dbt_node.node_offset + 2;
             }
@@ -865,16 +866,17 @@ void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
         if (dbt_node.buffer_type & BUFFER_TYPE_EDGE_STR) {
             if (MoveIndexBufferEvacuate(dbt_node.edgestr_offset, dbt_node.edgestr_size)) {
                 Write5BInteger(header->excep_buff, dbt_node.edgestr_offset);
+                header->excep_lf_offset = dbt_node.edge_offset;
+                header->excep_offset = dbt_node.edgestr_link_offset;
+                header->excep_updating_status = EXCEP_STATUS_RC_EDGE_STR;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStart(dbt_node.edge_offset);
 #endif
-                header->excep_offset = dbt_node.edgestr_link_offset;
-                header->excep_updating_status = EXCEP_STATUS_RC_EDGE_STR;
                 dmm->WriteData(header->excep_buff, OFFSET_SIZE - 1, dbt_node.edgestr_link_offset);
-                header->excep_updating_status = 0;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStop();
 #endif
+                header->excep_updating_status = 0;
             }
         }
         return;
@@ -885,16 +887,17 @@ void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
         if (dbt_node.buffer_type & BUFFER_TYPE_DATA) {
             if (MoveDataBufferEvacuate(dbt_node.data_offset, dbt_node.data_size)) {
                 Write6BInteger(header->excep_buff, dbt_node.data_offset);
+                header->excep_lf_offset = dbt_node.edge_offset;
+                header->excep_offset = dbt_node.data_link_offset;
+                header->excep_updating_status = EXCEP_STATUS_RC_DATA;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStart(dbt_node.edge_offset);
 #endif
-                header->excep_offset = dbt_node.data_link_offset;
-                header->excep_updating_status = EXCEP_STATUS_RC_DATA;
                 dmm->WriteData(header->excep_buff, OFFSET_SIZE, dbt_node.data_link_offset);
-                header->excep_updating_status = 0;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStop();
 #endif
+                header->excep_updating_status = 0;
             }
         }
         return;
@@ -915,16 +918,17 @@ void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
         if (dbt_node.buffer_type & BUFFER_TYPE_NODE) {
             if (MoveIndexBuffer(phase, dbt_node.node_offset, dbt_node.node_size)) {
                 Write6BInteger(header->excep_buff, dbt_node.node_offset);
+                header->excep_lf_offset = dbt_node.edge_offset;
+                header->excep_offset = dbt_node.node_link_offset;
+                header->excep_updating_status = EXCEP_STATUS_RC_NODE;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStart(dbt_node.edge_offset);
 #endif
-                header->excep_offset = dbt_node.node_link_offset;
-                header->excep_updating_status = EXCEP_STATUS_RC_NODE;
                 dmm->WriteData(header->excep_buff, OFFSET_SIZE, dbt_node.node_link_offset);
-                header->excep_updating_status = 0;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStop();
 #endif
+                header->excep_updating_status = 0;
                 // Update data_link_offset since node may have been moved.
                 if (dbt_node.buffer_type & BUFFER_TYPE_DATA)
                     dbt_node.data_link_offset = dbt_node.node_offset + 2;
@@ -935,16 +939,17 @@ void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
         if (dbt_node.buffer_type & BUFFER_TYPE_EDGE_STR) {
             if (MoveIndexBuffer(phase, dbt_node.edgestr_offset, dbt_node.edgestr_size)) {
                 Write5BInteger(header->excep_buff, dbt_node.edgestr_offset);
+                header->excep_lf_offset = dbt_node.edge_offset;
+                header->excep_offset = dbt_node.edgestr_link_offset;
+                header->excep_updating_status = EXCEP_STATUS_RC_EDGE_STR;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStart(dbt_node.edge_offset);
 #endif
-                header->excep_offset = dbt_node.edgestr_link_offset;
-                header->excep_updating_status = EXCEP_STATUS_RC_EDGE_STR;
                 dmm->WriteData(header->excep_buff, OFFSET_SIZE - 1, dbt_node.edgestr_link_offset);
-                header->excep_updating_status = 0;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStop();
 #endif
+                header->excep_updating_status = 0;
             }
             index_size += dbt_node.edgestr_size;
         }
@@ -954,17 +959,17 @@ void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
         if (dbt_node.buffer_type & BUFFER_TYPE_DATA) {
             if (MoveDataBuffer(phase, dbt_node.data_offset, dbt_node.data_size)) {
                 Write6BInteger(header->excep_buff, dbt_node.data_offset);
+                header->excep_lf_offset = dbt_node.edge_offset;
+                header->excep_offset = dbt_node.data_link_offset;
+                header->excep_updating_status = EXCEP_STATUS_RC_DATA;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStart(dbt_node.edge_offset);
 #endif
-                header->excep_offset = dbt_node.data_link_offset;
-                ;
-                header->excep_updating_status = EXCEP_STATUS_RC_DATA;
                 dmm->WriteData(header->excep_buff, OFFSET_SIZE, dbt_node.data_link_offset);
-                header->excep_updating_status = 0;
 #ifdef __LOCK_FREE__
                 lfree->WriterLockFreeStop();
 #endif
+                header->excep_updating_status = 0;
             }
             data_size += dbt_node.data_size;
         }
-- 
2.43.0


From a022a11ce5fdad0a60aaca129b61770766e7963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 12/38] fix: buffers were released before the index stopped
 using them, recovery images incomplete

---
 src/dict.cpp     | 150 ++++++++++++++++++++++++-----------------------
 src/dict.h       |   4 +-
 src/dict_mem.cpp | 101 +++++++++++++++++++------------
 src/dict_mem.h   |  14 ++++-
 4 files changed, 156 insertions(+), 113 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index ad55244..8290e52 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -689,61 +689,65 @@ int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const
 // Delete operations:
 //   If this is a leaf node, need to remove the edge. Otherwise, unset the match flag.
 //   Also need to set the delete flag in the data block so that it can be reclaimed later.
-int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
+// The data buffer (data_off, rel_size) must be released by the caller when the entry
+// is removed from the index.
+int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs,
+    std::vector<RemovedNode>& removed_nodes, size_t& data_off, int& rel_size)
 {
-    int rval = MBError::SUCCESS;
-    size_t data_off;
+    uint8_t node_buff[NODE_EDGE_KEY_FIRST];
+    size_t node_off = 0;
     uint16_t data_len;
-    int rel_size;
 
     // Check if this is a leaf node first by using the EDGE_FLAG_DATA_OFF bit
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
         data_off = Get6BInteger(edge_ptrs.offset_ptr);
-        if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
-            != DATA_SIZE_BYTE)
-            return MBError::READ_ERROR;
-        if (options & CONSTS::OPTION_JEMALLOC) {
-            rel_size = data_len + DATA_HDR_BYTE;
-        } else {
-            rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
-        }
-        ReleaseBuffer(data_off, rel_size);
-        rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
     } else {
-        // No exception handling in this case
-        header->excep_lf_offset = 0;
-        header->excep_offset = 0;
-
-        uint8_t node_buff[NODE_EDGE_KEY_FIRST];
-        size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
-
+        node_off = Get6BInteger(edge_ptrs.offset_ptr);
         // Read node header
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
+        if (!(node_buff[0] & FLAG_NODE_MATCH))
+            return MBError::NOT_EXIST;
+        data_off = Get6BInteger(node_buff + 2);
+    }
 
-        if (node_buff[0] & FLAG_NODE_MATCH) {
-            // Unset the match flag
-            node_buff[0] &= ~FLAG_NODE_MATCH;
-            mm.WriteData(&node_buff[0], 1, node_off);
-
-            // Release data buffer
-            data_off = Get6BInteger(node_buff + 2);
-            if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
-                != DATA_SIZE_BYTE)
-                return MBError::READ_ERROR;
-
-            if (options & CONSTS::OPTION_JEMALLOC) {
-                rel_size = data_len + DATA_HDR_BYTE;
-            } else {
-                rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
-            }
-            ReleaseBuffer(data_off, rel_size);
-        } else {
-            rval = MBError::NOT_EXIST;
-        }
+    if (ReadData(reinterpret_cast<uint8_t*>(&data_len), DATA_SIZE_BYTE, data_off)
+        != DATA_SIZE_BYTE)
+        return MBError::READ_ERROR;
+    if (options & CONSTS::OPTION_JEMALLOC) {
+        rel_size = data_len + DATA_HDR_BYTE;
+    } else {
+        rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
     }
 
-    return rval;
+    if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)
+        return mm.RemoveEdgeByIndex(edge_ptrs, data, removed_nodes);
+
+    // Unset the match flag
+    node_buff[0] &= ~FLAG_NODE_MATCH;
+    memcpy(header->excep_buff, node_buff, NODE_EDGE_KEY_FIRST);
+    header->excep_buff[NODE_EDGE_KEY_FIRST] = 0;
+    UpdateNodeHeader(edge_ptrs.offset, node_off);
+    // Nothing to recover for this edge any more
+    header->excep_lf_offset = 0;
+    header->excep_offset = 0;
+    return MBError::SUCCESS;
+}
+
+// Write the node header in header->excep_buff.
+void Dict::UpdateNodeHeader(size_t edge_off, size_t node_off)
+{
+    header->excep_offset = node_off;
+    header->excep_lf_offset = edge_off;
+    header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
+#ifdef __LOCK_FREE__
+    lfree.WriterLockFreeStart(edge_off);
+#endif
+    mm.WriteData(header->excep_buff, NODE_EDGE_KEY_FIRST, node_off);
+#ifdef __LOCK_FREE__
+    lfree.WriterLockFreeStop();
+#endif
+    header->excep_updating_status = EXCEP_STATUS_NONE;
 }
 
 int Dict::ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const
@@ -980,7 +984,10 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         rval = engine.find(key, len, data);
     }
     if (rval == MBError::IN_DICT) {
-        rval = DeleteDataFromEdge(data, data.edge_ptrs);
+        std::vector<RemovedNode> removed_nodes;
+        size_t data_off = 0;
+        int rel_size = 0;
+        rval = DeleteDataFromEdge(data, data.edge_ptrs, removed_nodes, data_off, rel_size);
         while (rval == MBError::TRY_AGAIN) {
             data.Clear();
             len -= data.edge_ptrs.len_ptr[0];
@@ -992,9 +999,11 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
                 rval = engine.find(key, len, data);
             }
             if (MBError::IN_DICT == rval) {
-                rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data);
+                rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data, removed_nodes);
             }
         }
+        if (rval == MBError::SUCCESS)
+            ReleaseBuffer(data_off, rel_size);
     }
 
     if (rval == MBError::SUCCESS) {
@@ -1010,6 +1019,12 @@ int Dict::RemoveAll()
 
     if (prefix_cache)
         prefix_cache->Clear();
+    // The buffers can be reused only after they are removed from the index.
+    for (int c = 0; c < NUM_ALPHABET; c++) {
+        rval = mm.ClearRootEdge(c);
+        if (rval != MBError::SUCCESS)
+            return rval;
+    }
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
@@ -1023,11 +1038,6 @@ int Dict::RemoveAll()
                 break;
         }
     } else {
-        for (int c = 0; c < NUM_ALPHABET; c++) {
-            rval = mm.ClearRootEdge(c);
-            if (rval != MBError::SUCCESS)
-                break;
-        }
         header->m_data_offset = GetStartDataOffset();
         free_lists->Empty();
     }
@@ -1212,24 +1222,27 @@ int Dict::ReleaseBuffer(size_t offset)
 
 int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count)
 {
+    // The old data buffer can be reused only after the link to it is replaced.
+    size_t old_data_off;
+    bool release_old = true;
+
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
         inc_count = false;
         // leaf node
-        mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
+        old_data_off = Get6BInteger(edge_ptrs.offset_ptr);
+        mbd.data_offset = old_data_off;
         if (!overwrite)
             return MBError::IN_DICT;
-        if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", mbd.data_offset);
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
         memcpy(header->excep_buff, edge_ptrs.offset_ptr, OFFSET_SIZE);
-#ifdef __LOCK_FREE__
         header->excep_lf_offset = edge_ptrs.offset;
+        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
+#ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(edge_ptrs.offset);
 #endif
-        header->excep_updating_status = EXCEP_STATUS_ADD_DATA_OFF;
-        mm.WriteData(edge_ptrs.offset_ptr, OFFSET_SIZE, edge_ptrs.offset + EDGE_NODE_LEADING_POS);
+        mm.WriteData(header->excep_buff, OFFSET_SIZE, edge_ptrs.offset + EDGE_NODE_LEADING_POS);
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStop();
 #endif
@@ -1243,35 +1256,27 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
 
         if (node_buff[0] & FLAG_NODE_MATCH) {
             inc_count = false;
-            mbd.data_offset = Get6BInteger(node_buff + 2);
+            old_data_off = Get6BInteger(node_buff + 2);
+            mbd.data_offset = old_data_off;
             if (!overwrite)
                 return MBError::IN_DICT;
-            if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-                Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
             node_buff[NODE_EDGE_KEY_FIRST] = 0;
         } else {
             // set the match flag
             node_buff[0] |= FLAG_NODE_MATCH;
 
             node_buff[NODE_EDGE_KEY_FIRST] = 1;
+            release_old = false;
         }
 
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(node_buff + 2, mbd.data_offset);
-
-        header->excep_offset = node_off;
-#ifdef __LOCK_FREE__
-        header->excep_lf_offset = edge_ptrs.offset;
-        lfree.WriterLockFreeStart(edge_ptrs.offset);
-#endif
-        header->excep_updating_status = EXCEP_STATUS_ADD_NODE;
-        mm.WriteData(node_buff, NODE_EDGE_KEY_FIRST, node_off);
-#ifdef __LOCK_FREE__
-        lfree.WriterLockFreeStop();
-#endif
-        header->excep_updating_status = EXCEP_STATUS_NONE;
+        UpdateNodeHeader(edge_ptrs.offset, node_off);
     }
 
+    if (release_old && ReleaseBuffer(old_data_off) != MBError::SUCCESS)
+        Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", old_data_off);
+
     return MBError::SUCCESS;
 }
 
@@ -1461,9 +1466,8 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        Write6BInteger(header->excep_buff, header->excep_offset);
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
-            header->excep_lf_offset + EDGE_NODE_LEADING_POS);
+        mm.WriteData(header->excep_buff, OFFSET_SIZE + 1,
+            header->excep_lf_offset + EDGE_FLAG_POS);
         break;
     case EXCEP_STATUS_CLEAR_EDGE:
 #ifdef __LOCK_FREE__
diff --git a/src/dict.h b/src/dict.h
index a7bdfba..692ec1f 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -145,7 +145,9 @@ private:
     int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
-    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
+    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs,
+        std::vector<RemovedNode>& removed_nodes, size_t& data_off, int& rel_size);
+    void UpdateNodeHeader(size_t edge_off, size_t node_off);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index f7cc13c..3f746d8 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -456,8 +456,6 @@ int DictMem::InsertNode(EdgePtrs& edge_ptrs, int match_len,
     if (node_move)
         WriteData(node, node_size[0], node_ptrs.offset);
 
-    if (release_buffer_size > 0)
-        ReleaseBuffer(edge_str_off, release_buffer_size);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -468,6 +466,9 @@ int DictMem::InsertNode(EdgePtrs& edge_ptrs, int match_len,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // The old edge string can be reused only after the edge is replaced.
+    if (release_buffer_size > 0)
+        ReleaseBuffer(edge_str_off, release_buffer_size);
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -561,8 +562,6 @@ int DictMem::AddLink(EdgePtrs& edge_ptrs, int match_len, const uint8_t* key,
         WriteData(node, node_size[1], node_ptrs.offset);
 
     // Update the parent edge
-    if (release_buffer_size > 0)
-        ReleaseBuffer(edge_str_off, release_buffer_size);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -573,6 +572,9 @@ int DictMem::AddLink(EdgePtrs& edge_ptrs, int match_len, const uint8_t* key,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // The old edge string can be reused only after the edge is replaced.
+    if (release_buffer_size > 0)
+        ReleaseBuffer(edge_str_off, release_buffer_size);
 
     header->n_edges += 2;
     return MBError::SUCCESS;
@@ -693,8 +695,6 @@ int DictMem::UpdateNode(EdgePtrs& edge_ptrs, const uint8_t* key, int key_len,
     if (node_move)
         WriteData(node, node_size[nt], node_ptrs.offset);
 
-    if (release_node_index >= 0)
-        ReleaseNode(old_node_off, release_node_index);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -705,6 +705,9 @@ int DictMem::UpdateNode(EdgePtrs& edge_ptrs, const uint8_t* key, int key_len,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // The old node can be reused only after the edge is replaced.
+    if (release_node_index >= 0)
+        ReleaseNode(old_node_off, release_node_index);
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -1318,8 +1321,6 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
 {
     // Clear the edge
     // Root node needs special handling.
-    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN)
-        ReleaseBuffer(Get5BInteger(edge_ptrs.ptr), edge_ptrs.len_ptr[0] - 1);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
@@ -1330,6 +1331,24 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN)
+        ReleaseBuffer(Get5BInteger(edge_ptrs.ptr), edge_ptrs.len_ptr[0] - 1);
+}
+
+// Write the one-byte flag and the 6-byte offset in header->excep_buff to the
+// parent edge of a node from which an edge is removed.
+void DictMem::WriteRemovedLink(size_t parent_edge_offset)
+{
+    header->excep_lf_offset = parent_edge_offset;
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStart(parent_edge_offset);
+#endif
+    WriteData(header->excep_buff, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
+#ifdef __LOCK_FREE__
+    lfree->WriterLockFreeStop();
+#endif
+    header->excep_updating_status = EXCEP_STATUS_NONE;
 }
 
 int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
@@ -1381,14 +1400,9 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
         WriteData(node, node_size[nt - 2], new_node_offset);
 
     // Update the link from parent edge to the new node offset
-    Write6BInteger(header->excep_buff, new_node_offset);
-#ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStart(parent_edge_offset);
-#endif
-    WriteData(header->excep_buff, OFFSET_SIZE, parent_edge_offset + EDGE_NODE_LEADING_POS);
-#ifdef __LOCK_FREE__
-    lfree->WriterLockFreeStop();
-#endif
+    header->excep_buff[0] = 0;
+    Write6BInteger(header->excep_buff + 1, new_node_offset);
+    WriteRemovedLink(parent_edge_offset);
 
     return MBError::SUCCESS;
 }
@@ -1407,14 +1421,7 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
         size_t data_offset = Get6BInteger(old_node_buffer + 2);
         parent_edge_buff[0] = EDGE_FLAG_DATA_OFF;
         Write6BInteger(parent_edge_buff + 1, data_offset);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStart(parent_edge_offset);
-#endif
-        // Write the one-byte flag and 6-byte offset
-        WriteData(parent_edge_buff, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStop();
-#endif
+        WriteRemovedLink(parent_edge_offset);
     } else {
         // This is an internal node.
         rval = MBError::TRY_AGAIN;
@@ -1432,12 +1439,18 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
     return rval;
 }
 
-int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
+// Remove an edge from its node. TRY_AGAIN is returned without any change if it
+// is the last edge of a node holding no data: the edge leading to that node must
+// be removed instead, and the node is added to removed_nodes. The nodes removed
+// are released when the removal is completed.
+int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data,
+    std::vector<RemovedNode>& removed_nodes)
 {
     header->excep_offset = edge_ptrs.curr_node_offset;
 
     if (header->excep_offset == root_offset) {
         RemoveRootEdge(edge_ptrs);
+        ReleaseRemovedNodes(removed_nodes);
         return MBError::SUCCESS;
     }
 
@@ -1452,24 +1465,25 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
         return MBError::READ_ERROR;
 
     int rval = MBError::SUCCESS;
-    size_t str_off_rel;
-    int str_size_rel = 0;
+    RemovedNode node;
+    node.offset = edge_ptrs.curr_node_offset;
+    node.nt = nt - 1;
+    node.str_off = 0;
+    node.str_size = 0;
 
-    header->excep_lf_offset = edge_ptrs.parent_offset;
-    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
     if (nt > 1) {
-        rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
-            str_off_rel, str_size_rel, header->excep_lf_offset);
+        rval = RemoveEdgeSizeN(edge_ptrs, nt, node.offset, old_node_buffer,
+            node.str_off, node.str_size, edge_ptrs.parent_offset);
     } else {
-        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, header->excep_lf_offset,
-            header->excep_offset, nt, str_off_rel, str_size_rel);
+        rval = RemoveEdgeSizeOne(old_node_buffer, edge_ptrs.parent_offset,
+            node.offset, nt, node.str_off, node.str_size);
     }
-    header->excep_updating_status = EXCEP_STATUS_NONE;
+    if (rval != MBError::SUCCESS && rval != MBError::TRY_AGAIN)
+        return rval;
 
-    header->n_edges--;
-    ReleaseNode(header->excep_offset, nt - 1);
-    if (str_size_rel > 0)
-        ReleaseBuffer(str_off_rel, str_size_rel);
+    removed_nodes.push_back(node);
+    if (rval == MBError::TRY_AGAIN)
+        return rval;
 
         // Clear the edge
 #ifdef __LOCK_FREE__
@@ -1483,9 +1497,20 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
 
+    ReleaseRemovedNodes(removed_nodes);
     return rval;
 }
 
+void DictMem::ReleaseRemovedNodes(const std::vector<RemovedNode>& removed_nodes)
+{
+    for (size_t i = 0; i < removed_nodes.size(); i++) {
+        header->n_edges--;
+        ReleaseNode(removed_nodes[i].offset, removed_nodes[i].nt);
+        if (removed_nodes[i].str_size > 0)
+            ReleaseBuffer(removed_nodes[i].str_off, removed_nodes[i].str_size);
+    }
+}
+
 // Should only be called by writer
 void DictMem::PrintStats(std::ostream& out_stream) const
 {
diff --git a/src/dict_mem.h b/src/dict_mem.h
index bcb9374..0cd288d 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -25,6 +25,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <string>
+#include <vector>
 
 #include "db.h"
 #include "drm_base.h"
@@ -46,6 +47,14 @@ typedef struct _NodePtrs {
     uint8_t* edge_ptr;
 } NodePtrs;
 
+// Node replaced or emptied by a removal, with the string of the removed edge
+typedef struct _RemovedNode {
+    size_t offset;
+    int nt;
+    size_t str_off;
+    int str_size;
+} RemovedNode;
+
 // Memory management class for the dictionary
 class DictMem : public DRMBase {
 public:
@@ -84,7 +93,8 @@ public:
     int NextLowerBoundEdge(const uint8_t* key, int len, EdgePtrs& edge_ptrs,
         uint8_t* node_buff, MBData& mbdata, EdgePtrs& less_edge_ptrs, int& le_edge_key) const;
     int NextMaxEdge(EdgePtrs& edge_ptrs, uint8_t* node_buff, MBData& mbdata, int& max_key) const;
-    int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
+    int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data,
+        std::vector<RemovedNode>& removed_nodes);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     void WriteData(const uint8_t* buff, unsigned len, size_t offset) const;
@@ -116,6 +126,8 @@ private:
         MBData& data, int& release_buffer_size,
         size_t& edge_str_off, bool& map_new_sliding);
     void RemoveRootEdge(const EdgePtrs& edge_ptrs);
+    void WriteRemovedLink(size_t parent_edge_offset);
+    void ReleaseRemovedNodes(const std::vector<RemovedNode>& removed_nodes);
     int RemoveEdgeSizeN(const EdgePtrs& edge_ptrs, int nt, size_t node_offset,
         uint8_t* old_node_buffer, size_t& str_off_rel,
         int& str_size_rel, size_t parent_edge_offset);
-- 
2.43.0


From ea666bd4af0a5db471200fd22a8b2d5a30fa8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 13/38] fix: the update in which a writer died was never
 recovered at the next open

---
 src/db.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index b4b2d89..1371e8c 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -498,6 +498,14 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
         }
     }
 
+    if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !(config.options & CONSTS::OPTION_JEMALLOC)
+        && !init_header) {
+        // Complete the update in which the previous writer was terminated.
+        int rval = dict->ExceptionRecovery();
+        if (rval != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "exception recovery failed: %s", MBError::get_error_str(rval));
+    }
+
     lock.Init(dict->GetShmLockPtr());
     UpdateNumHandlers(config.options, 1);
 
-- 
2.43.0


From 78c259c1dc8a20aceeb698cb5a2bd2d985f8c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 14/38] fix: lookups checked only the last edge for concurrent
 updates and could block on a dead writer

---
 src/db.h                     |  10 +-
 src/detail/lf_guard.h        |  67 ++++++-
 src/detail/search_engine.cpp | 342 ++++++++++-------------------------
 src/detail/search_engine.h   |  33 +++-
 src/dict.cpp                 |  24 ++-
 src/dict.h                   |   9 +-
 src/iterator.cpp             |  98 ++++------
 src/lock_free.cpp            |  98 +++++++++-
 src/lock_free.h              |  29 ++-
 9 files changed, 368 insertions(+), 342 deletions(-)

diff --git a/src/db.h b/src/db.h
index 37bf8b3..98c6211 100644
--- a/src/db.h
+++ b/src/db.h
@@ -41,6 +41,7 @@ class AsyncWriter;
 class ResourceCollection;
 class MmapFileIO;
 struct _DBTraverseNode;
+struct ReaderLFGuard;
 
 typedef struct _MBConfig {
     const char* mbdir;
@@ -93,11 +94,12 @@ public:
 
     private:
         bool match_prefix(const std::string& key);
-        int get_node_offset(const std::string& node_key, size_t& parent_edge_off,
-            size_t& node_offset);
-        int load_node(const std::string& curr_node_key, size_t& parent_edge_off);
+        int get_node_offset(const std::string& node_key, size_t& node_offset,
+            ReaderLFGuard* lf_guard);
+        int load_node(const std::string& curr_node_key, ReaderLFGuard* lf_guard);
         int load_kv_for_node(const std::string& curr_node_key);
-        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list);
+        int load_kvs(const std::string& curr_node_key, MBlsq* chid_node_list,
+            ReaderLFGuard* lf_guard);
         void iter_obj_init();
         bool next_dbt_buffer(struct _DBTraverseNode* dbt_n);
         void add_node_offset(size_t node_offset);
diff --git a/src/detail/lf_guard.h b/src/detail/lf_guard.h
index e543803..ddc6fdb 100644
--- a/src/detail/lf_guard.h
+++ b/src/detail/lf_guard.h
@@ -4,25 +4,76 @@
  */
 #pragma once
 
+#include "drm_base.h"
+#include "error.h"
+#include "integer_4b_5b.h"
+#include "mb_data.h"
 #ifdef __LOCK_FREE__
 #include "lock_free.h"
-#include "mb_data.h"
+#endif
 
 namespace mabain {
 
+#ifdef __LOCK_FREE__
+// All edges a lookup goes through must be unchanged from start to stop. The
+// same guard is used for the retries so that an edge saved by stop is used
+// the next time.
 struct ReaderLFGuard {
-    LockFree& lf;
-    MBData& data;
+    // at most one edge per key byte and all edges of a node
+    static const int MAX_PATH_LEN = 2 * NUM_ALPHABET;
+
+    const LockFree& lf;
     LockFreeData snap;
-    explicit ReaderLFGuard(LockFree& l, MBData& d)
+    LockFreeSavedEdge saved;
+    int path_len;
+    size_t path[MAX_PATH_LEN];
+
+    explicit ReaderLFGuard(LockFree& l)
         : lf(l)
-        , data(d)
+    {
+        saved.offset = MAX_6B_OFFSET;
+        path_len = 0;
+        snap.counter = 0;
+    }
+    inline void start()
     {
         lf.ReaderLockFreeStart(snap);
+        path_len = 0;
+        if (saved.counter != snap.counter)
+            saved.offset = MAX_6B_OFFSET;
+    }
+    inline void visit(size_t edge_off)
+    {
+        if (path_len < MAX_PATH_LEN)
+            path[path_len] = edge_off;
+        path_len++;
+    }
+    inline void visit(size_t edge_off, uint8_t* edge_buff)
+    {
+        visit(edge_off);
+        if (edge_off == saved.offset)
+            lf.ReadSavedEdge(saved, edge_buff);
+    }
+    inline void visitNode(size_t node_off, uint8_t* node_buff) const
+    {
+        if (saved.offset != MAX_6B_OFFSET)
+            lf.ReadSavedNode(saved, node_off, node_buff);
+    }
+    inline int stop()
+    {
+        if (path_len > MAX_PATH_LEN)
+            return MBError::TRY_AGAIN;
+        return lf.ReaderLockFreeStop(snap, path, path_len, saved);
     }
-    inline int stop(size_t edge_off) { return lf.ReaderLockFreeStop(snap, edge_off, data); }
 };
+#else
+struct ReaderLFGuard {
+    inline void start() { }
+    inline void visit(size_t) { }
+    inline void visit(size_t, uint8_t*) { }
+    inline void visitNode(size_t, uint8_t*) const { }
+    inline int stop() { return MBError::SUCCESS; }
+};
+#endif // __LOCK_FREE__
 
 } // namespace mabain
-
-#endif // __LOCK_FREE__
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 3fb9467..03bdc95 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -48,17 +48,22 @@ namespace detail {
     {
         int rval;
         MBData data_rc;
+#ifdef __LOCK_FREE__
+        ReaderLFGuard lf_guard(dict.lfree);
+#else
+        ReaderLFGuard lf_guard;
+#endif
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
         if (rc_root_offset != 0) {
             dict.reader_rc_off = rc_root_offset;
-            rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
+            rval = findPrefixInternal(rc_root_offset, key, len, data_rc, lf_guard);
 #ifdef __LOCK_FREE__
             {
                 int attempts = 0;
                 while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
                     nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
                     data_rc.Clear();
-                    rval = findPrefixInternal(rc_root_offset, key, len, data_rc);
+                    rval = findPrefixInternal(rc_root_offset, key, len, data_rc, lf_guard);
                 }
             }
 #endif
@@ -73,14 +78,14 @@ namespace detail {
             }
         }
 
-        rval = findPrefixInternal(0, key, len, data);
+        rval = findPrefixInternal(0, key, len, data, lf_guard);
 #ifdef __LOCK_FREE__
         {
             int attempts = 0;
             while (rval == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
                 nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
                 data.Clear();
-                rval = findPrefixInternal(0, key, len, data);
+                rval = findPrefixInternal(0, key, len, data, lf_guard);
             }
         }
 #endif
@@ -205,29 +210,29 @@ namespace detail {
         return rval;
     }
 
-    int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
+    {
+        lf_guard.start();
+        int rval = findPrefixFromRoot(root_off, key, len, data, lf_guard);
+        int lf_rval = lf_guard.stop();
+        return lf_rval == MBError::SUCCESS ? rval : lf_rval;
+    }
+
+    int SearchEngine::findPrefixFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
     {
         int rval;
         EdgePtrs& edge_ptrs = data.edge_ptrs;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
 
         rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
         if (rval != MBError::SUCCESS) {
             return MBError::READ_ERROR;
         }
+        lf_guard.visit(edge_ptrs.offset, edge_ptrs.edge_buff);
 
-        if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+        if (edge_ptrs.len_ptr[0] == 0)
             return MBError::NOT_EXIST;
-        }
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
@@ -236,16 +241,8 @@ namespace detail {
         int edge_len_m1 = edge_len - 1;
         if (edge_len > LOCAL_EDGE_LEN) {
             if (dict.mm.ReadData(node_buff, edge_len_m1, Get5BInteger(edge_ptrs.ptr))
-                != edge_len_m1) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+                != edge_len_m1)
                 return MBError::READ_ERROR;
-            }
             key_buff = node_buff;
         } else {
             key_buff = edge_ptrs.ptr;
@@ -253,63 +250,39 @@ namespace detail {
 
         rval = MBError::NOT_EXIST;
         if (edge_len < len) {
-            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)
                 return MBError::NOT_EXIST;
-            }
 
             len -= edge_len;
             key_cursor += edge_len;
 
             if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 data.match_len = key_cursor - key;
                 return dict.ReadDataFromEdge(data, edge_ptrs);
             }
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
             int last_prefix_rval = MBError::NOT_EXIST;
-            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer);
+            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer,
+                lf_guard);
             if (rval == MBError::NOT_EXIST && last_prefix_rval != rval)
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                rval = dict.ReadDataFromEdge(data, edge_ptrs, &lf_guard);
                 if (rval == MBError::SUCCESS)
                     data.match_len = len;
             }
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
-    int SearchEngine::findInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    int SearchEngine::findInternal(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
     {
         EdgePtrs& edge_ptrs = data.edge_ptrs;
         int rval;
-        const uint8_t* key_cursor = key;
-        int orig_len = len;
-        int consumed = 0;
-        const uint8_t* key_buff;
         // Do not seed from prefix cache for operations that require
         // precise parent/edge bookkeeping (e.g., remove) or during rc view.
         bool use_cache = true
@@ -318,152 +291,86 @@ namespace detail {
         if (use_cache) {
             PrefixCacheEntry entry;
             int depth = 0;
-            if (seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed, entry, depth)) {
-                rval = findFromCache(key, orig_len, edge_ptrs, data, key_cursor, len, consumed);
+            int rem_len = len;
+            int consumed = 0;
+            const uint8_t* key_cursor = key;
+            lf_guard.start();
+            if (seedFromCache(key, len, edge_ptrs, data, key_cursor, rem_len, consumed, entry, depth)) {
+                lf_guard.visit(edge_ptrs.offset);
+                rval = findFromCache(key, len, edge_ptrs, data, key_cursor, rem_len, consumed, lf_guard);
                 // The result counts only if the entry was not invalidated meanwhile.
                 PrefixCache* pc = dict.ActivePrefixCache();
-                if (rval != MBError::TRY_AGAIN && pc->IsCurrent(key, depth, entry))
+                if (lf_guard.stop() == MBError::SUCCESS && pc->IsCurrent(key, depth, entry))
                     return rval;
-                data.options &= ~CONSTS::OPTION_READ_SAVED_EDGE;
-                key_cursor = key;
-                len = orig_len;
-                consumed = 0;
             }
         }
 
-        {
-#ifdef __LOCK_FREE__
-            ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
+        lf_guard.start();
+        rval = findFromRoot(root_off, key, len, data, lf_guard);
+        int lf_rval = lf_guard.stop();
+        return lf_rval == MBError::SUCCESS ? rval : lf_rval;
+    }
 
-            rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
-            if (rval != MBError::SUCCESS) {
-                return MBError::READ_ERROR;
-            }
-            if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            }
+    int SearchEngine::findEdge(const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard)
+    {
+        return findFromRoot(0, key, len, data, lf_guard);
+    }
 
-            int edge_len = edge_ptrs.len_ptr[0];
-            int edge_len_m1 = edge_len - 1;
-            rval = MBError::NOT_EXIST;
-            if ((rval = loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1)) != MBError::SUCCESS) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::READ_ERROR;
-            }
+    int SearchEngine::findFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
+    {
+        EdgePtrs& edge_ptrs = data.edge_ptrs;
+        const uint8_t* key_cursor = key;
+        int orig_len = len;
+        int consumed = 0;
+        const uint8_t* key_buff;
 
-            if (edge_len < len) {
-                if (!remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                key_cursor += edge_len;
-                consumed += edge_len;
-                len -= edge_len;
-                if (len <= 0) {
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-                if (isLeaf(edge_ptrs)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                // Find does not update prefix cache; writer seeds during Add
-            } else if (edge_len == len) {
-                if (remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-                    // Find does not update prefix cache; writer seeds during Add
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            } else {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            }
+        if (dict.mm.GetRootEdge(root_off, key[0], edge_ptrs) != MBError::SUCCESS)
+            return MBError::READ_ERROR;
+        lf_guard.visit(edge_ptrs.offset, edge_ptrs.edge_buff);
+        if (edge_ptrs.len_ptr[0] == 0)
+            return MBError::NOT_EXIST;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
-        }
+        int edge_len = edge_ptrs.len_ptr[0];
+        int edge_len_m1 = edge_len - 1;
+        if (loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1) != MBError::SUCCESS)
+            return MBError::READ_ERROR;
+
+        if (edge_len > len || !remainderMatches(key_buff, key_cursor, edge_len_m1))
+            return MBError::NOT_EXIST;
+        // Find does not update prefix cache; writer seeds during Add
+        if (edge_len == len)
+            return resolveMatchOrInDict(data, edge_ptrs, true, lf_guard);
+        if (isLeaf(edge_ptrs))
+            return MBError::NOT_EXIST;
 
-        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+        key_cursor += edge_len;
+        consumed += edge_len;
+        len -= edge_len;
+        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data, lf_guard);
     }
 
     int SearchEngine::findFromCache(const uint8_t* key, int orig_len, EdgePtrs& edge_ptrs, MBData& data,
-        const uint8_t* key_cursor, int len, int consumed)
+        const uint8_t* key_cursor, int len, int consumed, ReaderLFGuard& lf_guard)
     {
         if (len <= 0)
-            return resolveMatchOrInDict(data, edge_ptrs, false);
+            return resolveMatchOrInDict(data, edge_ptrs, false, lf_guard);
         if (isLeaf(edge_ptrs))
             return MBError::NOT_EXIST;
-        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data, lf_guard);
     }
 
     int SearchEngine::traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data)
+        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data, ReaderLFGuard& lf_guard)
     {
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
         int rval = MBError::SUCCESS;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         int steps = 0;
         while (true) {
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
                 return MBError::UNKNOWN_ERROR;
-            }
             if (data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT) {
                 rval = dict.mm.NextEdge(key_cursor, edge_ptrs, node_buff, data);
             } else {
@@ -477,87 +384,48 @@ namespace detail {
                 }
             }
             if (rval != MBError::SUCCESS)
-                break;
+                return rval;
+            lf_guard.visit(edge_ptrs.offset, edge_ptrs.edge_buff);
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
-            if (edge_len > len) {
-                // The edge label extends beyond the end of the key.
-                rval = MBError::NOT_EXIST;
-                break;
-            }
+            // The edge label must not extend beyond the end of the key.
+            if (edge_len > len)
+                return MBError::NOT_EXIST;
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
-            if (rval == MBError::READ_ERROR)
-                break;
-            if (rval == MBError::NOT_EXIST)
-                break;
+            if (rval != MBError::SUCCESS)
+                return rval;
 
             len -= edge_len;
-            if (len <= 0) {
-                int _ret = resolveMatchOrInDict(data, edge_ptrs, false);
-                return _ret;
-            }
-            if (isLeaf(edge_ptrs)) {
+            if (len <= 0)
+                return resolveMatchOrInDict(data, edge_ptrs, false, lf_guard);
+            if (isLeaf(edge_ptrs))
                 return MBError::NOT_EXIST;
-            }
 
             key_cursor += edge_len;
             consumed += edge_len;
             // Find does not update prefix cache; writer seeds during Add
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#else
-            edge_offset_prev = edge_ptrs.offset;
-#endif
         }
-
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
-
-        return rval;
     }
 
     int SearchEngine::traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
-        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const
+        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST],
+        ReaderLFGuard& lf_guard) const
     {
         int rval;
         uint8_t* node_buff = data.node_buff;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         const uint8_t* key_buff;
         int steps = 0;
         while (true) {
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
                 return MBError::UNKNOWN_ERROR;
-            }
             // For prefix traversal we must read the node header into node_buff
             // to detect FLAG_NODE_MATCH at internal nodes. NextEdgeFast does not
             // populate node_buff and would miss recording the last matching node.
+            size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
             rval = dict.mm.NextEdge(key_cursor, edge_ptrs, node_buff, data);
             if (rval != MBError::READ_ERROR) {
+                lf_guard.visitNode(node_off, node_buff);
                 if (node_buff[0] & FLAG_NODE_MATCH) {
                     data.match_len = key_cursor - key_base;
                     memcpy(last_node_buffer, node_buff, NODE_EDGE_KEY_FIRST);
@@ -568,13 +436,7 @@ namespace detail {
             if (rval != MBError::SUCCESS)
                 break;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+            lf_guard.visit(edge_ptrs.offset, edge_ptrs.edge_buff);
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             if (edge_len > len) {
@@ -603,23 +465,13 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                rval = dict.ReadDataFromEdge(data, edge_ptrs, &lf_guard);
                 if (rval == MBError::SUCCESS)
                     data.match_len = key_cursor - key_base;
                 break;
             }
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#endif
         }
 
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 3d96d99..2953239 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -45,6 +45,10 @@ namespace detail {
         // Longest prefix match
         int findPrefix(const uint8_t* key, int len, MBData& data);
 
+        // Find the edge at which key ends in the main tree. The caller is responsible
+        // for starting and stopping lf_guard.
+        int findEdge(const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
+
         // Lower bound (largest entry not greater than key)
         int lowerBound(const uint8_t* key, int len, MBData& data, std::string* bound_key);
 
@@ -53,15 +57,17 @@ namespace detail {
 
         // Exact-find internals
         inline int tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
-        int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
+        int findFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
         int traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data);
+            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data, ReaderLFGuard& lf_guard);
 
         // Prefix internals
-        int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
+        int findPrefixFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
         int traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
             EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval,
-            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const;
+            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST], ReaderLFGuard& lf_guard) const;
 
         // Small helpers
         // Exact-match path helper: always copy edge tail into node_buff
@@ -70,7 +76,8 @@ namespace detail {
         inline bool isLeaf(const EdgePtrs& edge_ptrs) const;
         inline int compareCurrEdgeTail(const EdgePtrs& edge_ptrs, MBData& data, const uint8_t* p,
             const uint8_t*& key_buff, int& edge_len, int& edge_len_m1) const;
-        inline int resolveMatchOrInDict(MBData& data, EdgePtrs& edge_ptrs, bool at_root) const;
+        inline int resolveMatchOrInDict(MBData& data, EdgePtrs& edge_ptrs, bool at_root,
+            const ReaderLFGuard& lf_guard) const;
         // Root-edge accessor (reads directly from DictMem)
         // Fast-path: try to seed traversal state from the prefix cache.
         // Returns true when an entry is found (depth 2 or 3), and advances
@@ -81,7 +88,7 @@ namespace detail {
             PrefixCacheEntry& entry, int& depth) const;
         // Finish an exact lookup from the state set up by seedFromCache
         int findFromCache(const uint8_t* key, int orig_len, EdgePtrs& edge_ptrs, MBData& data,
-            const uint8_t* key_cursor, int len, int consumed);
+            const uint8_t* key_cursor, int len, int consumed, ReaderLFGuard& lf_guard);
         // declared once above
 
         // Lower-bound internals
@@ -106,12 +113,17 @@ namespace detail {
 
     inline int SearchEngine::tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data)
     {
-        int r = findInternal(root_off, key, len, data);
+#ifdef __LOCK_FREE__
+        ReaderLFGuard lf_guard(dict.lfree);
+#else
+        ReaderLFGuard lf_guard;
+#endif
+        int r = findInternal(root_off, key, len, data, lf_guard);
 #ifdef __LOCK_FREE__
         int attempts = 0;
         while (r == MBError::TRY_AGAIN && attempts++ < CONSTS::LOCK_FREE_RETRY_LIMIT) {
             nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
-            r = findInternal(root_off, key, len, data);
+            r = findInternal(root_off, key, len, data, lf_guard);
         }
 #endif
         return r;
@@ -147,7 +159,8 @@ namespace detail {
         return remainderMatches(key_buff, p, edge_len_m1) ? MBError::SUCCESS : MBError::NOT_EXIST;
     }
 
-    inline int SearchEngine::resolveMatchOrInDict(MBData& data, EdgePtrs& edge_ptrs, bool at_root) const
+    inline int SearchEngine::resolveMatchOrInDict(MBData& data, EdgePtrs& edge_ptrs, bool at_root,
+            const ReaderLFGuard& lf_guard) const
     {
         if (data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT) {
             if (at_root) {
@@ -161,7 +174,7 @@ namespace detail {
         if (data.options & CONSTS::OPTION_KEY_ONLY) {
             return MBError::SUCCESS;
         }
-        return dict.ReadDataFromEdge(data, edge_ptrs);
+        return dict.ReadDataFromEdge(data, edge_ptrs, &lf_guard);
     }
 
     // Reads root edges via DictMem; no per-thread root cache.
diff --git a/src/dict.cpp b/src/dict.cpp
index 8290e52..7ad89fa 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -72,7 +72,9 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
         slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
         queue = slaq->queue;
     }
-    lfree.LockFreeInit(&header->lock_free, header, db_options);
+    // Readers must not use the edge in an unfinished update before it is recovered.
+    lfree.LockFreeInit(&header->lock_free, header,
+        header->excep_updating_status == EXCEP_STATUS_NONE ? db_options : 0);
     mm.InitLockFreePtr(&lfree);
     mbp = MBPipe(mbdir, 0);
     mbdir_ = mbdir;
@@ -651,16 +653,19 @@ void Dict::SeedCanonicalBoundariesAfterAdd(const uint8_t* key, int len, bool fro
     }
 }
 
-int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const
+int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs,
+    const ReaderLFGuard* lf_guard) const
 {
     size_t data_off;
     if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
         data_off = Get6BInteger(edge_ptrs.offset_ptr);
     } else {
         uint8_t node_buff[NODE_EDGE_KEY_FIRST];
-        if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, Get6BInteger(edge_ptrs.offset_ptr))
-            != NODE_EDGE_KEY_FIRST)
+        size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
+        if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
+        if (lf_guard != NULL)
+            lf_guard->visitNode(node_off, node_buff);
         if (!(node_buff[0] & FLAG_NODE_MATCH))
             return MBError::NOT_EXIST;
         data_off = Get6BInteger(node_buff + 2);
@@ -831,13 +836,15 @@ int64_t Dict::Count() const
 // For DB iterator
 int Dict::ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs,
     int& match, MBData& data, std::string& match_str,
-    size_t& node_off, bool rd_kv) const
+    size_t& node_off, bool rd_kv, ReaderLFGuard* lf_guard) const
 {
     if (edge_ptrs.curr_nt > static_cast<int>(node_buff[1]))
         return MBError::OUT_OF_BOUND;
 
     if (mm.ReadData(edge_ptrs.edge_buff, EDGE_SIZE, edge_ptrs.offset) != EDGE_SIZE)
         return MBError::READ_ERROR;
+    if (lf_guard != NULL)
+        lf_guard->visit(edge_ptrs.offset, edge_ptrs.edge_buff);
 
     node_off = 0;
     match_str = "";
@@ -857,7 +864,7 @@ int Dict::ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs,
         if (edge_ptrs.len_ptr[0] > 0) {
             node_off = Get6BInteger(edge_ptrs.offset_ptr);
             if (rd_kv)
-                rval = ReadNodeMatch(node_off, match, data);
+                rval = ReadNodeMatch(node_off, match, data, lf_guard);
         }
     }
 
@@ -921,11 +928,14 @@ void Dict::ReadNodeHeader(size_t node_off, int& node_size, int& match,
     }
 }
 
-int Dict::ReadNodeMatch(size_t node_off, int& match, MBData& data) const
+int Dict::ReadNodeMatch(size_t node_off, int& match, MBData& data,
+    const ReaderLFGuard* lf_guard) const
 {
     uint8_t node_buff[NODE_EDGE_KEY_FIRST];
     if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
         return MBError::READ_ERROR;
+    if (lf_guard != NULL)
+        lf_guard->visitNode(node_off, node_buff);
 
     int rval = MBError::SUCCESS;
     if (node_buff[0] & FLAG_NODE_MATCH) {
diff --git a/src/dict.h b/src/dict.h
index 692ec1f..d954f39 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -46,6 +46,7 @@ namespace mabain {
 struct _AsyncNode;
 typedef struct _AsyncNode AsyncNode;
 struct _shm_lock_and_queue;
+struct ReaderLFGuard;
 typedef struct _shm_lock_and_queue shm_lock_and_queue;
 
 // dictionary class
@@ -105,7 +106,7 @@ public:
     // Used for DB iterator
     int ReadNextEdge(const uint8_t* node_buff, EdgePtrs& edge_ptrs, int& match,
         MBData& data, std::string& match_str, size_t& node_off,
-        bool rd_kv = true) const;
+        bool rd_kv = true, ReaderLFGuard* lf_guard = NULL) const;
     int ReadNode(size_t node_off, uint8_t* node_buff, EdgePtrs& edge_ptrs,
         int& match, MBData& data, bool rd_kv = true) const;
     void ReadNodeHeader(size_t node_off, int& node_size, int& match,
@@ -143,12 +144,14 @@ private:
     // Traversal helpers are owned by SearchEngine.
     int ReleaseBuffer(size_t offset);
     int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count);
-    int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
+    int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs,
+        const ReaderLFGuard* lf_guard = NULL) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
     int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs,
         std::vector<RemovedNode>& removed_nodes, size_t& data_off, int& rel_size);
     void UpdateNodeHeader(size_t edge_off, size_t node_off);
-    int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
+    int ReadNodeMatch(size_t node_off, int& match, MBData& data,
+        const ReaderLFGuard* lf_guard = NULL) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
 
diff --git a/src/iterator.cpp b/src/iterator.cpp
index d93a0e1..40c9c30 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -17,6 +17,7 @@
 // @author Changxue Deng <chadeng@cisco.com>
 
 #include "db.h"
+#include "detail/lf_guard.h"
 #include "detail/search_engine.h"
 #include "dict.h"
 #include "integer_4b_5b.h"
@@ -199,24 +200,30 @@ bool DB::iterator::match_prefix(const std::string& key)
 }
 
 int DB::iterator::get_node_offset(const std::string& node_key,
-    size_t& parent_edge_off,
-    size_t& node_offset)
+    size_t& node_offset, ReaderLFGuard* lf_guard)
 {
     int rval;
 
     node_offset = 0;
     value.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
     detail::SearchEngine engine(*db_ref.dict);
-    while (true) {
-        rval = engine.find(reinterpret_cast<const uint8_t*>(node_key.data()),
-            static_cast<int>(node_key.size()), value);
-        if (rval != MBError::TRY_AGAIN)
-            break;
-        nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
+    if (lf_guard != NULL) {
+        rval = engine.findEdge(reinterpret_cast<const uint8_t*>(node_key.data()),
+            static_cast<int>(node_key.size()), value, *lf_guard);
+    } else {
+        while (true) {
+            rval = engine.find(reinterpret_cast<const uint8_t*>(node_key.data()),
+                static_cast<int>(node_key.size()), value);
+            if (rval != MBError::TRY_AGAIN)
+                break;
+            nanosleep((const struct timespec[]) { { 0, 10L } }, NULL);
+        }
     }
 
     if (rval == MBError::IN_DICT) {
-        parent_edge_off = edge_ptrs.parent_offset;
+        // All child edges may have been removed from the node.
+        if (value.edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)
+            return MBError::NOT_EXIST;
         node_offset = Get6BInteger(value.edge_ptrs.offset_ptr);
         rval = MBError::SUCCESS;
     }
@@ -224,7 +231,7 @@ int DB::iterator::get_node_offset(const std::string& node_key,
 }
 
 int DB::iterator::load_kvs(const std::string& curr_node_key,
-    MBlsq* child_node_list)
+    MBlsq* child_node_list, ReaderLFGuard* lf_guard)
 {
     int rval;
     size_t child_node_off;
@@ -232,25 +239,8 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
     iterator_node* inode;
 
     while (true) {
-        if (lfree == NULL) {
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-        } else {
-#ifdef __LOCK_FREE__
-            LockFreeData snapshot;
-            int lf_ret;
-            size_t edge_off_prev = edge_ptrs.offset;
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
-                match_str, child_node_off);
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, edge_off_prev, value);
-            if (lf_ret == MBError::TRY_AGAIN)
-                return lf_ret;
-#endif
-        }
-
+        rval = db_ref.dict->ReadNextEdge(node_buff, edge_ptrs, match, value,
+            match_str, child_node_off, true, lf_guard);
         if (rval != MBError::SUCCESS)
             break;
 
@@ -287,7 +277,7 @@ int DB::iterator::load_kvs(const std::string& curr_node_key,
 }
 
 int DB::iterator::load_node(const std::string& curr_node_key,
-    size_t& parent_edge_off)
+    ReaderLFGuard* lf_guard)
 {
     int rval;
 
@@ -295,7 +285,7 @@ int DB::iterator::load_node(const std::string& curr_node_key,
         rval = db_ref.dict->ReadRootNode(node_buff, edge_ptrs, match, value);
     } else {
         size_t node_offset;
-        rval = get_node_offset(curr_node_key, parent_edge_off, node_offset);
+        rval = get_node_offset(curr_node_key, node_offset, lf_guard);
         if (rval != MBError::SUCCESS)
             return rval;
         rval = db_ref.dict->ReadNode(node_offset, node_buff, edge_ptrs, match,
@@ -309,42 +299,25 @@ int DB::iterator::load_kv_for_node(const std::string& curr_node_key)
 {
     int rval;
     MBlsq child_node_list(free_iterator_node);
-    size_t parent_edge_off;
 
     if (lfree == NULL) {
-        rval = load_node(curr_node_key, parent_edge_off);
+        rval = load_node(curr_node_key, NULL);
         if (rval == MBError::SUCCESS)
-            rval = load_kvs(curr_node_key, &child_node_list);
+            rval = load_kvs(curr_node_key, &child_node_list, NULL);
     } else {
 #ifdef __LOCK_FREE__
-        LockFreeData snapshot;
-        int lf_ret;
-#endif
+        ReaderLFGuard lf_guard(*lfree);
         while (true) {
-#ifdef __LOCK_FREE__
-            lfree->ReaderLockFreeStart(snapshot);
-#endif
-            rval = load_node(curr_node_key, parent_edge_off);
-            if (rval == MBError::SUCCESS) {
-                rval = load_kvs(curr_node_key, &child_node_list);
-#ifdef __LOCK_FREE__
-                if (rval == MBError::TRY_AGAIN) {
-                    kv_per_node->Clear();
-                    child_node_list.Clear();
-                    continue;
-                }
-#endif
-            }
-#ifdef __LOCK_FREE__
-            lf_ret = lfree->ReaderLockFreeStop(snapshot, parent_edge_off, value);
-            if (lf_ret == MBError::TRY_AGAIN) {
-                kv_per_node->Clear();
-                child_node_list.Clear();
-                continue;
-            }
-#endif
-            break;
+            lf_guard.start();
+            rval = load_node(curr_node_key, &lf_guard);
+            if (rval == MBError::SUCCESS)
+                rval = load_kvs(curr_node_key, &child_node_list, &lf_guard);
+            if (lf_guard.stop() != MBError::TRY_AGAIN)
+                break;
+            kv_per_node->Clear();
+            child_node_list.Clear();
         }
+#endif
     }
 
     if (rval == MBError::SUCCESS) {
@@ -352,6 +325,11 @@ int DB::iterator::load_kv_for_node(const std::string& curr_node_key)
         while ((inode = (iterator_node*)child_node_list.RemoveFromHead())) {
             node_stack->AddToHead(inode);
         }
+    } else if (rval == MBError::NOT_EXIST) {
+        // All entries below this node were removed after the node was found.
+        kv_per_node->Clear();
+        child_node_list.Clear();
+        rval = MBError::SUCCESS;
     } else {
         std::cerr << "failed to run ietrator: " << MBError::get_error_str(rval) << "\n";
         kv_per_node->Clear();
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index 0323324..ec23189 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -53,7 +53,7 @@ void LockFree::LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, in
 void LockFree::WriterLockFreeStop()
 {
     int index = shm_data_ptr->counter % MAX_OFFSET_CACHE;
-    shm_data_ptr->offset_cache[index].store(shm_data_ptr->offset, MEMORY_ORDER_WRITER);
+    shm_data_ptr->offset_cache[index].store(shm_data_ptr->offset & LOCK_FREE_OFFSET_MASK, MEMORY_ORDER_WRITER);
 
     shm_data_ptr->counter.fetch_add(1, MEMORY_ORDER_WRITER);
     shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
@@ -68,7 +68,7 @@ void LockFree::WriterLockFreeStop()
 int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
     MBData& mbdata)
 {
-    size_t curr_offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+    size_t curr_offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER) & LOCK_FREE_OFFSET_MASK;
     uint32_t curr_counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
 
     if (curr_offset == reader_offset) {
@@ -133,4 +133,98 @@ int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_off
     return MBError::SUCCESS;
 }
 
+//////////////////////////////////////////////////
+// DO NOT CHANGE THE LOAD ORDER IN THIS FUNCTION.
+//////////////////////////////////////////////////
+int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, const size_t* path, int path_len,
+    LockFreeSavedEdge& saved) const
+{
+    size_t shm_offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+    uint32_t curr_counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
+    uint32_t count_diff = curr_counter - snapshot.counter;
+    size_t curr_offset = shm_offset & LOCK_FREE_OFFSET_MASK;
+    // The update may have been completed if the offset is not cleared yet.
+    bool updating = (shm_offset >> LOCK_FREE_TAG_SHIFT) == (curr_counter & 0xFFFF);
+
+    for (int i = 0; updating && i < path_len; i++) {
+        if (path[i] != curr_offset)
+            continue;
+        // The writer is updating this edge.
+        if (count_diff == 0 && saved.offset == curr_offset && saved.counter == curr_counter)
+            return MBError::SUCCESS; // The lookup was running on the saved edge.
+        LockFreeSavedEdge edge;
+        edge.offset = curr_offset;
+        edge.counter = curr_counter;
+        edge.status = header->excep_updating_status;
+        edge.excep_offset = header->excep_offset;
+        memcpy(edge.buff, header->excep_buff, EDGE_SIZE);
+        std::atomic_thread_fence(MEMORY_ORDER_READER);
+        // The copy is valid only if the writer is still in the same update.
+        if (shm_data_ptr->offset.load(MEMORY_ORDER_READER) == shm_offset
+            && shm_data_ptr->counter.load(MEMORY_ORDER_READER) == curr_counter)
+            saved = edge;
+        return MBError::TRY_AGAIN;
+    }
+
+    // Note it is expected that count_diff can overflow.
+    if (count_diff == 0)
+        return MBError::SUCCESS; // Writer was doing nothing. Reader can proceed.
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN; // Cache is overwritten. Have to retry.
+
+    for (uint32_t n = 0; n < count_diff; n++) {
+        size_t offset = shm_data_ptr->offset_cache[(snapshot.counter + n) % MAX_OFFSET_CACHE].load(MEMORY_ORDER_READER);
+        for (int i = 0; i < path_len; i++) {
+            if (path[i] == offset)
+                return MBError::TRY_AGAIN;
+        }
+    }
+
+    // Need to recheck the counter difference
+    count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN;
+
+    // Writer was modifying different edges. It is safe to for the reader to proceed.
+    return MBError::SUCCESS;
+}
+
+void LockFree::ReadSavedEdge(const LockFreeSavedEdge& saved, uint8_t* edge_buff) const
+{
+    switch (saved.status) {
+    case EXCEP_STATUS_ADD_EDGE:
+        memcpy(edge_buff, saved.buff, EDGE_SIZE);
+        break;
+    case EXCEP_STATUS_ADD_DATA_OFF:
+        memcpy(edge_buff + EDGE_NODE_LEADING_POS, saved.buff, OFFSET_SIZE);
+        break;
+    case EXCEP_STATUS_REMOVE_EDGE:
+        memcpy(edge_buff + EDGE_FLAG_POS, saved.buff, OFFSET_SIZE + 1);
+        break;
+    case EXCEP_STATUS_CLEAR_EDGE:
+        memset(edge_buff, 0, EDGE_SIZE);
+        break;
+    case EXCEP_STATUS_RC_NODE:
+    case EXCEP_STATUS_RC_DATA:
+        if (saved.excep_offset == saved.offset + EDGE_NODE_LEADING_POS)
+            memcpy(edge_buff + EDGE_NODE_LEADING_POS, saved.buff, OFFSET_SIZE);
+        break;
+    case EXCEP_STATUS_RC_EDGE_STR:
+        memcpy(edge_buff, saved.buff, OFFSET_SIZE - 1);
+        break;
+    default:
+        // The edge itself is not modified.
+        break;
+    }
+}
+
+void LockFree::ReadSavedNode(const LockFreeSavedEdge& saved, size_t node_offset,
+    uint8_t* node_buff) const
+{
+    if (saved.status == EXCEP_STATUS_ADD_NODE && saved.excep_offset == node_offset)
+        memcpy(node_buff, saved.buff, NODE_EDGE_KEY_FIRST);
+    else if (saved.status == EXCEP_STATUS_RC_DATA && saved.excep_offset == node_offset + 2)
+        memcpy(node_buff + 2, saved.buff, OFFSET_SIZE);
+}
+
 }
diff --git a/src/lock_free.h b/src/lock_free.h
index 7549508..51cac14 100644
--- a/src/lock_free.h
+++ b/src/lock_free.h
@@ -31,6 +31,10 @@ namespace mabain {
 // reader/writer concurrency.
 
 #define MAX_OFFSET_CACHE 4
+// The upper two bytes of the shared offset hold the lower two bytes of the counter
+// so that the end of an update can be told from the next update of the same edge.
+#define LOCK_FREE_TAG_SHIFT 48
+#define LOCK_FREE_OFFSET_MASK ((static_cast<size_t>(1) << LOCK_FREE_TAG_SHIFT) - 1)
 #define MEMORY_ORDER_WRITER std::memory_order_release
 #define MEMORY_ORDER_READER std::memory_order_acquire
 
@@ -41,6 +45,16 @@ typedef struct _LockFreeData {
     uint32_t counter;
 } LockFreeData;
 
+// Image of the edge which the writer was updating, saved from shared memory so
+// that a lookup can proceed while the writer is still in the middle of it.
+typedef struct _LockFreeSavedEdge {
+    size_t offset; // MAX_6B_OFFSET if no edge is saved
+    uint32_t counter;
+    int status;
+    size_t excep_offset;
+    uint8_t buff[16];
+} LockFreeSavedEdge;
+
 typedef struct _LockFreeShmData {
     std::atomic<uint32_t> counter;
     std::atomic<size_t> offset;
@@ -55,10 +69,18 @@ public:
     void LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, int mode = 0);
     inline void WriterLockFreeStart(size_t offset);
     void WriterLockFreeStop();
-    inline void ReaderLockFreeStart(LockFreeData& snapshot);
+    inline void ReaderLockFreeStart(LockFreeData& snapshot) const;
     // If there was race condition, this function returns MBError::TRY_AGAIN.
     int ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
         MBData& mbdata);
+    // Check all the edges a lookup depends on. If one of them is being updated,
+    // its new content is saved for the next try and TRY_AGAIN is returned.
+    int ReaderLockFreeStop(const LockFreeData& snapshot, const size_t* path, int path_len,
+        LockFreeSavedEdge& saved) const;
+    // Replace the content of an edge read from memory by the saved content.
+    void ReadSavedEdge(const LockFreeSavedEdge& saved, uint8_t* edge_buff) const;
+    // Same for the header of the node the saved edge leads to.
+    void ReadSavedNode(const LockFreeSavedEdge& saved, size_t node_offset, uint8_t* node_buff) const;
 
 private:
     LockFreeShmData* shm_data_ptr;
@@ -67,10 +89,11 @@ private:
 
 inline void LockFree::WriterLockFreeStart(size_t offset)
 {
-    shm_data_ptr->offset.store(offset, MEMORY_ORDER_WRITER);
+    size_t tag = shm_data_ptr->counter.load(MEMORY_ORDER_READER) & 0xFFFF;
+    shm_data_ptr->offset.store(offset | (tag << LOCK_FREE_TAG_SHIFT), MEMORY_ORDER_WRITER);
 }
 
-inline void LockFree::ReaderLockFreeStart(LockFreeData& snapshot)
+inline void LockFree::ReaderLockFreeStart(LockFreeData& snapshot) const
 {
     snapshot.counter = shm_data_ptr->counter.load(MEMORY_ORDER_READER);
 }
-- 
2.43.0


From 7cadfbec76bfe5f9774455f53ec9c6ca3bfdc204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 15/38] fix: a lookup that overlaps an update could throw out
 of DB::Find in jemalloc mode

---
 src/rollable_file.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 41ed77c..4e7ec07 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -202,10 +202,11 @@ int RollableFile::CheckAndOpenFile(size_t order, bool create_file)
 {
     int rval = MBError::SUCCESS;
 
-    if (order >= static_cast<size_t>(files.size()))
+    // order can be anything when it is taken from an edge a writer is updating
+    if (order >= static_cast<size_t>(files.size()) && order < max_num_block)
         files.resize(order + 3, NULL);
 
-    if (files[order] == NULL)
+    if (order >= static_cast<size_t>(files.size()) || files[order] == NULL)
         rval = OpenAndMapBlockFile(order, create_file);
 
     return rval;
@@ -637,13 +638,14 @@ size_t RollableFile::MemWrite(const void* src, size_t size, size_t offset)
 
 size_t RollableFile::MemRead(void* dst, size_t size, size_t offset)
 {
-    int block_order = offset / block_size;
+    size_t block_order = offset / block_size;
     size_t relative_offset = offset % block_size;
     if (relative_offset + size > block_size) {
-        throw (int)MBError::OUT_OF_BOUND;
+        // Not an exception: a reader gets here with an offset a writer is just changing
+        return 0; // signal read error to caller
     }
     // Ensure the source block is opened/mapped in jemalloc mode
-    if (block_order >= (int)files.size() || files[block_order] == nullptr) {
+    if (block_order >= files.size() || files[block_order] == nullptr) {
         int rval = CheckAndOpenFile(block_order, false);
         if (rval != MBError::SUCCESS || files[block_order] == nullptr) {
             return 0; // signal read error to caller
-- 
2.43.0


From ae3838cd695b5dad5015749b79f18cfcd16dc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 16/38] fix: accepted async updates could be lost, run twice or
 run out of order

---
 src/async_writer.cpp | 67 ++++++++++++++++++++++++--------------------
 src/async_writer.h   |  3 +-
 src/shm_queue_mgr.h  | 12 ++++++--
 src/shmq_update.cpp  | 49 +++++++++++++++++++++-----------
 4 files changed, 81 insertions(+), 50 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index a02514c..7b89a3c 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -104,7 +104,7 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
     while (count < ntasks) {
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
-        if (node_ptr->in_use.load(std::memory_order_consume)) {
+        if (node_ptr->state.load(std::memory_order_acquire) == MABAIN_SLOT_READY) {
             switch (node_ptr->type) {
             case MABAIN_ASYNC_TYPE_ADD:
                 if (rc_mode)
@@ -164,10 +164,7 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 break;
             }
 
-            header->writer_index++;
-            node_ptr->num_reader.store(0, std::memory_order_release);
-            node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-            node_ptr->in_use.store(false, std::memory_order_release);
+            ReleaseSlot(node_ptr);
             mbd.Clear();
             count++;
         } else {
@@ -186,21 +183,39 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
     return MBError::SUCCESS;
 }
 
-uint32_t AsyncWriter::NextShmSlot(uint32_t windex, uint32_t qindex)
+// The slot must be free before it can be claimed again, i.e. before writer_index passes it.
+void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
 {
-    int cnt = 0;
-    while (windex != qindex) {
-        if (queue[windex % header->async_queue_size].in_use.load(std::memory_order_consume))
-            break;
-        if (++cnt > header->async_queue_size) {
-            windex = qindex;
-            break;
-        }
+    node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
+    node_ptr->state.store(MABAIN_SLOT_FREE, std::memory_order_release);
+    header->writer_index++;
+}
 
-        windex++;
+// Pass over slots no update will come from. A slot that stays owned for too long is given up
+// since its owner may have exited unexpectedly.
+bool AsyncWriter::SkipShmSlot(AsyncNode* node_ptr, time_t& wait_start)
+{
+    if (header->writer_index == header->queue_index.load(std::memory_order_acquire)) {
+        wait_start = 0;
+        return false;
     }
 
-    return windex;
+    uint16_t state = node_ptr->state.load(std::memory_order_acquire);
+    if (state == MABAIN_SLOT_OWNED) {
+        time_t now = time(NULL);
+        if (wait_start == 0)
+            wait_start = now;
+        if (now - wait_start <= MB_ASYNC_SHM_LOCK_TMOUT
+            || !node_ptr->state.compare_exchange_strong(state, MABAIN_SLOT_ABANDONED))
+            return false;
+        Logger::Log(LOG_LEVEL_WARN, "async queue slot %u was abandoned", header->writer_index);
+    } else if (state == MABAIN_SLOT_READY) {
+        return false;
+    }
+
+    wait_start = 0;
+    header->writer_index++;
+    return true;
 }
 
 void* AsyncWriter::async_writer_thread()
@@ -213,6 +228,7 @@ void* AsyncWriter::async_writer_thread()
     int64_t max_dbsize = MAX_6B_OFFSET;
     int64_t max_dbcount = MAX_6B_OFFSET;
     bool skip;
+    time_t wait_start = 0;
     MBPipe mbp(db->GetDBDir(), CONSTS::ACCESS_MODE_WRITER);
 
     Logger::Log(LOG_LEVEL_DEBUG, "async writer started");
@@ -227,27 +243,19 @@ void* AsyncWriter::async_writer_thread()
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
         skip = false;
-        while (!node_ptr->in_use.load(std::memory_order_consume)) {
-            if (stop_processing) {
+        while (node_ptr->state.load(std::memory_order_acquire) != MABAIN_SLOT_READY) {
+            if (stop_processing || SkipShmSlot(node_ptr, wait_start)) {
                 skip = true;
                 break;
             }
 
 #define __ASYNC_THREAD_SLEEP_TIME 1000
             mbp.Wait(__ASYNC_THREAD_SLEEP_TIME);
-
-            auto windex = header->writer_index;
-            auto qindex = header->queue_index.load(std::memory_order_consume);
-            if (windex != qindex) {
-                // Reader process may have exited unexpectedly. Recover index.
-                skip = true;
-                header->writer_index = NextShmSlot(windex, qindex);
-                break;
-            }
         }
 
         if (skip)
             continue;
+        wait_start = 0;
 
         // process the node
         switch (node_ptr->type) {
@@ -316,10 +324,7 @@ void* AsyncWriter::async_writer_thread()
             break;
         }
 
-        header->writer_index++;
-        node_ptr->num_reader.store(0, std::memory_order_release);
-        node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-        node_ptr->in_use.store(false, std::memory_order_release);
+        ReleaseSlot(node_ptr);
 
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
diff --git a/src/async_writer.h b/src/async_writer.h
index 56f6db9..803426b 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -48,7 +48,8 @@ private:
     AsyncNode* AcquireSlot();
     int PrepareSlot(AsyncNode* node_ptr) const;
     void* async_writer_thread();
-    uint32_t NextShmSlot(uint32_t windex, uint32_t qindex);
+    void ReleaseSlot(AsyncNode* node_ptr);
+    bool SkipShmSlot(AsyncNode* node_ptr, time_t& wait_start);
 
     // db pointer
     DB* db;
diff --git a/src/shm_queue_mgr.h b/src/shm_queue_mgr.h
index 4cae61f..cd73c58 100644
--- a/src/shm_queue_mgr.h
+++ b/src/shm_queue_mgr.h
@@ -38,9 +38,17 @@ namespace mabain {
 #define MB_ASYNC_SHM_DATA_SIZE 0x7FFF
 #define MB_ASYNC_SHM_LOCK_TMOUT 5
 
+// Slot states. A slot is claimed (free->owned) before its ticket is taken from queue_index.
+// Only the claimer fills it and makes it ready, only the async writer frees it again or
+// gives up on an owner that does not come to an end (owned->abandoned).
+#define MABAIN_SLOT_FREE 0
+#define MABAIN_SLOT_READY 1
+#define MABAIN_SLOT_OWNED 2
+#define MABAIN_SLOT_ABANDONED 3
+
 typedef struct _AsyncNode {
-    std::atomic<bool> in_use;
-    std::atomic<uint16_t> num_reader;
+    std::atomic<uint16_t> state;
+    uint16_t reserved;
 
     char key[MB_ASYNC_SHM_KEY_SIZE];
     char data[MB_ASYNC_SHM_DATA_SIZE];
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 6bd1cdb..827a561 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -114,28 +114,45 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
-    uint32_t index = header->queue_index.fetch_add(1, std::memory_order_release);
-    AsyncNode* node_ptr = queue + (index % header->async_queue_size);
-
-    if (node_ptr->in_use.load(std::memory_order_consume)) {
-        // This slot is being processed by writer.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
-    }
-
-    uint16_t nreader = node_ptr->num_reader.fetch_add(1, std::memory_order_release);
-    if (nreader != 0) {
-        // This slot is being processed by another reader.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
+    const uint32_t queue_size = header->async_queue_size;
+    err = MBError::TRY_AGAIN;
+
+    // The ticket is taken only together with a free slot, so that tickets, and with them the
+    // order in which the updates are run, follow the order in which they are accepted.
+    for (uint32_t count = 0; count <= queue_size; count++) {
+        uint32_t index = header->queue_index.load(std::memory_order_acquire);
+        if (index - header->writer_index >= queue_size)
+            return nullptr; // queue is full
+
+        AsyncNode* node_ptr = queue + (index % queue_size);
+        uint16_t state = MABAIN_SLOT_FREE;
+        if (!node_ptr->state.compare_exchange_strong(state, MABAIN_SLOT_OWNED)) {
+            if (state != MABAIN_SLOT_ABANDONED)
+                return nullptr; // This slot is being processed by writer or another reader.
+            // The owner died while filling the slot. Continue with the next one.
+            header->queue_index.compare_exchange_strong(index, index + 1);
+            continue;
+        }
+
+        if (header->queue_index.compare_exchange_strong(index, index + 1)) {
+            err = MBError::SUCCESS;
+            return node_ptr;
+        }
+        // The ticket is gone already.
+        node_ptr->state.store(MABAIN_SLOT_FREE, std::memory_order_release);
     }
 
-    return node_ptr;
+    return nullptr;
 }
 
 int Dict::SHMQ_PrepareSlot(AsyncNode* node_ptr)
 {
-    node_ptr->in_use.store(true, std::memory_order_release);
+    uint16_t state = MABAIN_SLOT_OWNED;
+    if (!node_ptr->state.compare_exchange_strong(state, MABAIN_SLOT_READY)) {
+        // Writer has given up on this slot.
+        node_ptr->state.store(MABAIN_SLOT_FREE, std::memory_order_release);
+        return MBError::TRY_AGAIN;
+    }
 
     mbp.Signal();
     return MBError::SUCCESS;
-- 
2.43.0


From a4ecc21115e21688c4c5aa8ad91200c9744f9fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 17/38] fix: Add on a non-writer handle could go to another
 database, a closed writer, or overtake queued updates

---
 src/async_writer.cpp | 12 +++++++++++-
 src/async_writer.h   |  3 ++-
 src/db.cpp           |  2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 7b89a3c..942afcf 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -38,8 +38,11 @@ AsyncWriter* AsyncWriter::CreateInstance(DB* db_ptr)
     return writer_instance;
 }
 
-AsyncWriter* AsyncWriter::GetInstance()
+// Returns the writer of the given DB if it is running in this process.
+AsyncWriter* AsyncWriter::GetInstance(const std::string& db_dir)
 {
+    if (writer_instance != NULL && writer_instance->db->GetDBDir() != db_dir)
+        return NULL;
     return writer_instance;
 }
 
@@ -77,6 +80,8 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
 
 AsyncWriter::~AsyncWriter()
 {
+    if (writer_instance == this)
+        writer_instance = NULL;
 }
 
 int AsyncWriter::StopAsyncThread()
@@ -377,6 +382,11 @@ int AsyncWriter::AddWithLock(const char* key, int len, MBData& mbdata, bool over
     using Ms = std::chrono::milliseconds;
     if (writer_lock.try_lock_for(Ms(1000))) {
         int rval;
+        // Do not overtake updates which are still in the queue.
+        if (header->queue_index.load(std::memory_order_acquire) != header->writer_index) {
+            writer_lock.unlock();
+            return MBError::TRY_AGAIN;
+        }
         try {
             rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
         } catch (int error) {
diff --git a/src/async_writer.h b/src/async_writer.h
index 803426b..df7bb2f 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -21,6 +21,7 @@
 
 #include <mutex>
 #include <pthread.h>
+#include <string>
 
 #include "db.h"
 #include "dict.h"
@@ -40,7 +41,7 @@ public:
     int AddWithLock(const char* key, int len, MBData& mbdata, bool overwrite);
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
-    static AsyncWriter* GetInstance();
+    static AsyncWriter* GetInstance(const std::string& db_dir);
 
 private:
     AsyncWriter(DB* db_ptr);
diff --git a/src/db.cpp b/src/db.cpp
index 1371e8c..5196508 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1019,7 +1019,7 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
         rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
     } else {
-        AsyncWriter* awr = AsyncWriter::GetInstance();
+        AsyncWriter* awr = AsyncWriter::GetInstance(mb_dir);
         if (awr) {
             try {
                 rval = awr->AddWithLock(key, len, mbdata, overwrite);
-- 
2.43.0


From 1c9d6d8932a0b41f00df4bef47f027281f9a9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 18/38] fix: removals queued during resource collection or
 pruning were dropped, Add ignored existing entries, a dead rc lost updates

---
 src/async_writer.cpp       | 42 +++++++++++++++-----------------------
 src/detail/search_engine.h |  3 +++
 src/dict.cpp               |  7 +++++++
 src/dict.h                 |  3 +++
 src/dict_mem.h             |  1 +
 src/mb_rc.cpp              | 21 ++++++++++++++-----
 6 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 942afcf..34a07ae 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -110,6 +110,18 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
         node_ptr = &queue[header->writer_index % header->async_queue_size];
 
         if (node_ptr->state.load(std::memory_order_acquire) == MABAIN_SLOT_READY) {
+            // Removing entries during rc or pruning is currently not supported. It is left in the
+            // queue until rc is done.
+            // The index or data index could have been reset in fucntion ResourceColletion::Finish.
+            // However, the deletion may be run for some entry which still exist in the rc root tree.
+            // This requires modifying buffer in high end, where the offset for writing is greather than
+            // header->m_index_offset. This causes exception thrown from DictMem::WriteData.
+            // Note this is not a problem for Dict::Add since Add does not modify buffers in high end.
+            // This problem will be fixed when resolving issue: https://github.com/chxdeng/mabain/issues/21
+            if (node_ptr->type == MABAIN_ASYNC_TYPE_REMOVE || node_ptr->type == MABAIN_ASYNC_TYPE_REMOVE_ALL)
+                break;
+
+            rval = MBError::SUCCESS;
             switch (node_ptr->type) {
             case MABAIN_ASYNC_TYPE_ADD:
                 if (rc_mode)
@@ -117,37 +129,17 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 mbd.buff = (uint8_t*)node_ptr->data;
                 mbd.data_len = node_ptr->data_len;
                 try {
-                    rval = dict->Add((uint8_t*)node_ptr->key, node_ptr->key_len, mbd, node_ptr->overwrite);
+                    // The rc tree takes precedence, and it does not have the entries of the main tree.
+                    if (rc_mode && !node_ptr->overwrite && dict->InMainTree((uint8_t*)node_ptr->key, node_ptr->key_len))
+                        rval = MBError::IN_DICT;
+                    else
+                        rval = dict->Add((uint8_t*)node_ptr->key, node_ptr->key_len, mbd, node_ptr->overwrite);
                 } catch (int err) {
                     rval = err;
                     Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
                         MBError::get_error_str(err));
                 }
                 break;
-            case MABAIN_ASYNC_TYPE_REMOVE:
-                // FIXME
-                // Removing entries during rc is currently not supported.
-                // The index or data index could have been reset in fucntion ResourceColletion::Finish.
-                // However, the deletion may be run for some entry which still exist in the rc root tree.
-                // This requires modifying buffer in high end, where the offset for writing is greather than
-                // header->m_index_offset. This causes exception thrown from DictMem::WriteData.
-                // Note this is not a problem for Dict::Add since Add does not modify buffers in high end.
-                // This problem will be fixed when resolving issue: https://github.com/chxdeng/mabain/issues/21
-                rval = MBError::SUCCESS;
-                break;
-            case MABAIN_ASYNC_TYPE_REMOVE_ALL:
-                if (!rc_mode) {
-                    try {
-                        rval = dict->RemoveAll();
-                    } catch (int err) {
-                        Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
-                            MBError::get_error_str(err));
-                        rval = err;
-                    }
-                } else {
-                    rval = MBError::SUCCESS;
-                }
-                break;
             case MABAIN_ASYNC_TYPE_RC:
                 // ignore rc task since it is running already.
                 rval = MBError::RC_SKIPPED;
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 2953239..367b8db 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -42,6 +42,9 @@ namespace detail {
         // Exact match
         int find(const uint8_t* key, int len, MBData& data);
 
+        // Exact match in the main tree only
+        int findMain(const uint8_t* key, int len, MBData& data) { return tryFindAtRoot(0, key, len, data); }
+
         // Longest prefix match
         int findPrefix(const uint8_t* key, int len, MBData& data);
 
diff --git a/src/dict.cpp b/src/dict.cpp
index 7ad89fa..273e254 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -965,6 +965,13 @@ int Dict::ReadRootNode(uint8_t* node_buff, EdgePtrs& edge_ptrs, int& match,
     return ReadNode(root_off, node_buff, edge_ptrs, match, data);
 }
 
+bool Dict::InMainTree(const uint8_t* key, int len)
+{
+    MBData data(0, CONSTS::OPTION_KEY_ONLY);
+    detail::SearchEngine engine(*this);
+    return engine.findMain(key, len, data) == MBError::SUCCESS;
+}
+
 int Dict::Remove(const uint8_t* key, int len)
 {
     MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
diff --git a/src/dict.h b/src/dict.h
index d954f39..7407dee 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -69,6 +69,9 @@ public:
     // Bound search implemented internally in SearchEngine (DB uses SearchEngine directly).
     int ReadDataByOffset(size_t offset, MBData& data) const;
 
+    // Check if the entry exists, not considering the rc tree
+    bool InMainTree(const uint8_t* key, int len);
+
     // Delete entry by key
     int Remove(const uint8_t* key, int len);
     // Delete entry by key
diff --git a/src/dict_mem.h b/src/dict_mem.h
index 0cd288d..44be49a 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -109,6 +109,7 @@ public:
 
     // Updates in RC mode
     size_t InitRootNode_RC();
+    void SetRootNode_RC(size_t offset) { root_offset_rc = offset; }
     int ClearRootEdges_RC() const;
 
     // empty edge, used for clearing edges
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 0d86cbb..aa0659f 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1024,7 +1024,7 @@ void ResourceCollection::ProcessRCTree()
 {
     Logger::Log(LOG_LEVEL_INFO, "resource collection done, traversing the rc tree %llu entries", header->rc_count);
 
-    int count = 0;
+    // New tasks must wait: updates in the rc tree are older than the ones in the queue.
     int rval;
     DB db_itr(db_ref);
     for (DB::iterator iter = db_itr.begin(false, true); iter != db_itr.end(); ++iter) {
@@ -1032,10 +1032,6 @@ void ResourceCollection::ProcessRCTree()
         rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
-        if (count++ > RC_TASK_CHECK) {
-            count = 0;
-            async_writer_ptr->ProcessTask(NUM_ASYNC_TASK, false);
-        }
 
         if (header->m_index_offset > rc_index_offset || header->m_data_offset > rc_data_offset) {
             Logger::Log(LOG_LEVEL_ERROR, "not enough space for insertion: %llu, %llu",
@@ -1061,6 +1057,21 @@ int ResourceCollection::ExceptionRecovery()
         return db_ref.Status();
 
     int rval = MBError::SUCCESS;
+    size_t rc_root = header->rc_root_offset.load(MEMORY_ORDER_READER);
+    if (rc_root != 0) {
+        // Keep the updates that were added to the rc tree. New buffers are allocated either above
+        // the rc tree or, if rc was finished already, below it.
+        Logger::Log(LOG_LEVEL_WARN, "previous rc was not completed, recovering the rc tree");
+        try {
+            bool below = header->m_index_offset <= rc_root;
+            rc_index_offset = below ? rc_root : MAX_6B_OFFSET;
+            rc_data_offset = below ? dict->GetResourceCollectionOffset() : MAX_6B_OFFSET;
+            dmm->SetRootNode_RC(rc_root);
+            ProcessRCTree();
+        } catch (int err) {
+            Logger::Log(LOG_LEVEL_ERROR, "failed to recover the rc tree: %s", MBError::get_error_str(err));
+        }
+    }
     if (header->rc_m_index_off_pre != 0 && header->rc_m_data_off_pre != 0) {
         Logger::Log(LOG_LEVEL_WARN, "previous rc was not completed successfully, retrying...");
         try {
-- 
2.43.0


From 651845341da31fcedca9af5dd37366543dc5e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 19/38] fix: DB::Backup of a synchronous writer was queued and
 never done, a backup requested during rc used a stale path length

---
 src/async_writer.cpp | 4 +---
 src/db.cpp           | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 34a07ae..291a73c 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -151,9 +151,7 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 // clean up existing backup dir varibale buffer.
                 if (rc_backup_dir != NULL)
                     free(rc_backup_dir);
-                rc_backup_dir = (char*)malloc(node_ptr->data_len + 1);
-                memcpy(rc_backup_dir, node_ptr->data, node_ptr->data_len);
-                rc_backup_dir[node_ptr->data_len] = '\0';
+                rc_backup_dir = strdup(node_ptr->data);
                 rval = MBError::SUCCESS;
                 break;
             default:
diff --git a/src/db.cpp b/src/db.cpp
index 5196508..8c1269a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1158,7 +1158,7 @@ int DB::Backup(const char* bk_dir)
         return MBError::NOT_ALLOWED;
 
     try {
-        if (async_writer == NULL && (options & CONSTS::ASYNC_WRITER_MODE)) {
+        if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
             DBBackup bk(*this);
             rval = bk.Backup(bk_dir);
         } else {
-- 
2.43.0


From 8cdfc5cac88611d6a81fb64d7a79aeaec113d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 20/38] fix: prefix lookup during resource collection preferred
 the old value of an overwritten entry

---
 src/detail/search_engine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 03bdc95..4d82bc5 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -91,7 +91,8 @@ namespace detail {
 #endif
 
         // Prefer the longer match: copy value and match_len when rc-path wins.
-        if (data_rc.match_len > data.match_len) {
+        // The value in the rc tree is the newer one if both trees have the same entry.
+        if (data_rc.match_len > 0 && data_rc.match_len >= data.match_len) {
             data_rc.TransferValueTo(data.buff, data.data_len);
             // Preserve the longer match length from rc-path.
             data.match_len = data_rc.match_len;
-- 
2.43.0


From 4ea897574b016983e6ee68231941da976e944390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 21/38] fix: FindLowerBound dropped long edge labels outside of
 the memory-mapped region from the bound key

---
 src/detail/search_engine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 4d82bc5..1cbd4ae 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -482,8 +482,9 @@ namespace detail {
         int edge_len_m1 = edge_ptrs.len_ptr[0] - 1;
         if (edge_len_m1 + 1 > LOCAL_EDGE_LEN) {
             size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
-            uint8_t* edge_str_buff = dict.mm.GetShmPtr(edge_str_off, edge_len_m1);
-            if (edge_str_buff != nullptr) {
+            // The label is not necessarily in memory-mapped storage.
+            uint8_t edge_str_buff[256];
+            if (dict.mm.ReadData(edge_str_buff, edge_len_m1, edge_str_off) == edge_len_m1) {
                 key->append((const char*)edge_str_buff, edge_len_m1);
             }
         } else if (edge_len_m1 > 0) {
-- 
2.43.0


From da2aca24b5aff03247f60e2c8d0ee4bb295c1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 22/38] fix: a DB kept the caller's queue_dir pointer, which
 resource collection of an async writer used after it was gone

---
 src/db.cpp | 4 ++++
 src/db.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 8c1269a..9a4f5d1 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -784,6 +784,10 @@ void DB::InitDBEx(MBConfig& config)
     // save the configuration
     memcpy(&dbConfig, &config, sizeof(MBConfig));
     dbConfig.mbdir = NULL;
+    if (config.queue_dir != NULL) {
+        queue_dir = config.queue_dir;
+        dbConfig.queue_dir = queue_dir.c_str();
+    }
 
     // If id not given, use thread ID
     if (config.connect_id == 0) {
diff --git a/src/db.h b/src/db.h
index 98c6211..8762ca3 100644
--- a/src/db.h
+++ b/src/db.h
@@ -266,6 +266,7 @@ private:
     // db lock
     MBLock lock;
     MBConfig dbConfig;
+    std::string queue_dir; // dbConfig.queue_dir refers to it
 
     AsyncWriter* async_writer;
 
-- 
2.43.0


From 5504424af98ec76d03069b906a120fb9f48ec8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 23/38] fix: a submitter that died between claiming a queue
 slot and taking its ticket blocked the queue for good

---
 src/async_writer.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 291a73c..2eb90fa 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -187,14 +187,10 @@ void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
 }
 
 // Pass over slots no update will come from. A slot that stays owned for too long is given up
-// since its owner may have exited unexpectedly.
+// since its owner may have exited unexpectedly, possibly before it took its ticket.
 bool AsyncWriter::SkipShmSlot(AsyncNode* node_ptr, time_t& wait_start)
 {
-    if (header->writer_index == header->queue_index.load(std::memory_order_acquire)) {
-        wait_start = 0;
-        return false;
-    }
-
+    bool empty = header->writer_index == header->queue_index.load(std::memory_order_acquire);
     uint16_t state = node_ptr->state.load(std::memory_order_acquire);
     if (state == MABAIN_SLOT_OWNED) {
         time_t now = time(NULL);
@@ -209,6 +205,9 @@ bool AsyncWriter::SkipShmSlot(AsyncNode* node_ptr, time_t& wait_start)
     }
 
     wait_start = 0;
+    // Without a ticket taken there is nothing to pass over.
+    if (empty)
+        return false;
     header->writer_index++;
     return true;
 }
-- 
2.43.0


From 6a94070a0f2296d643face56f1039b5fdd11c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 24/38] fix: entries below inner nodes of the rc tree were
 looked up in the main tree when rc finished, losing updates

---
 src/db.h                     | 1 +
 src/detail/search_engine.cpp | 4 ++--
 src/detail/search_engine.h   | 4 ++--
 src/iterator.cpp             | 6 +++++-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/db.h b/src/db.h
index 8762ca3..856dbfb 100644
--- a/src/db.h
+++ b/src/db.h
@@ -113,6 +113,7 @@ public:
         MBlsq* node_stack;
         MBlsq* kv_per_node;
         LockFree* lfree;
+        bool rc_mode;
     };
 
     // db_path: database directory
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 1cbd4ae..8ec718e 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -312,9 +312,9 @@ namespace detail {
         return lf_rval == MBError::SUCCESS ? rval : lf_rval;
     }
 
-    int SearchEngine::findEdge(const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard)
+    int SearchEngine::findEdge(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard)
     {
-        return findFromRoot(0, key, len, data, lf_guard);
+        return findFromRoot(root_off, key, len, data, lf_guard);
     }
 
     int SearchEngine::findFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 367b8db..e26d602 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -48,9 +48,9 @@ namespace detail {
         // Longest prefix match
         int findPrefix(const uint8_t* key, int len, MBData& data);
 
-        // Find the edge at which key ends in the main tree. The caller is responsible
+        // Find the edge at which key ends in the tree at root_off. The caller is responsible
         // for starting and stopping lf_guard.
-        int findEdge(const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
+        int findEdge(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
 
         // Lower bound (largest entry not greater than key)
         int lowerBound(const uint8_t* key, int len, MBData& data, std::string* bound_key);
diff --git a/src/iterator.cpp b/src/iterator.cpp
index 40c9c30..0685956 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -110,6 +110,7 @@ void DB::iterator::iter_obj_init()
     node_stack = NULL;
     kv_per_node = NULL;
     lfree = NULL;
+    rc_mode = false;
 
     if (!(db_ref.GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) {
 #ifdef __LOCK_FREE__
@@ -155,6 +156,7 @@ void DB::iterator::init(bool check_async_mode)
     node_stack = new MBlsq(free_iterator_node);
     kv_per_node = new MBlsq(free_iterator_node);
 
+    rc_mode = value.options & CONSTS::OPTION_RC_MODE;
     load_kv_for_node("");
     if (next() == NULL)
         state = DB_ITER_STATE_DONE;
@@ -208,7 +210,9 @@ int DB::iterator::get_node_offset(const std::string& node_key,
     value.options |= CONSTS::OPTION_FIND_AND_STORE_PARENT;
     detail::SearchEngine engine(*db_ref.dict);
     if (lf_guard != NULL) {
-        rval = engine.findEdge(reinterpret_cast<const uint8_t*>(node_key.data()),
+        // Stay in the tree that is being iterated.
+        size_t root_off = rc_mode ? db_ref.dict->GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER) : 0;
+        rval = engine.findEdge(root_off, reinterpret_cast<const uint8_t*>(node_key.data()),
             static_cast<int>(node_key.size()), value, *lf_guard);
     } else {
         while (true) {
-- 
2.43.0


From eb8f5024e82da756da035de2aea49287483c10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 25/38] fix: closing a writer handle that failed to open
 released the lock of the writer in the same process

---
 src/db.cpp | 9 +++++++--
 src/db.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 9a4f5d1..d5f6d48 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -155,10 +155,12 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
-    if (options & CONSTS::ACCESS_MODE_WRITER) {
+    // The lock file may belong to another writer if this handle failed to open.
+    if (writer_lock_owner) {
         release_file_lock(writer_lock_fd);
         std::string lock_file = mb_dir + "_lock";
         ResourcePool::getInstance().RemoveResourceByPath(lock_file);
+        writer_lock_owner = false;
     }
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
     return rval;
@@ -406,9 +408,12 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
             if (!(config.options & CONSTS::MEMORY_ONLY_MODE)) {
                 // process check by file lock
                 writer_lock_fd = acquire_file_lock_wait_n(lock_file, 1);
-                if (writer_lock_fd < 0)
+                if (writer_lock_fd < 0) {
                     status = MBError::WRITER_EXIST;
+                    ResourcePool::getInstance().RemoveResourceByPath(lock_file);
+                }
             }
+            writer_lock_owner = status != MBError::WRITER_EXIST;
         } else {
             status = MBError::WRITER_EXIST;
         }
diff --git a/src/db.h b/src/db.h
index 856dbfb..f6458a7 100644
--- a/src/db.h
+++ b/src/db.h
@@ -272,6 +272,7 @@ private:
     AsyncWriter* async_writer;
 
     int writer_lock_fd;
+    bool writer_lock_owner = false; // this handle has registered the lock file
 };
 
 }
-- 
2.43.0


From f452fd9d5d1b7a5315602b07604eebe55a4c995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 26/38] fix: a writer open with an invalid configuration erased
 the database

---
 src/db.cpp | 3 +++
 src/db.h   | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index d5f6d48..1cbae3d 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -771,7 +771,10 @@ void DB::InitDB(MBConfig& config)
 
     int fd = acquire_file_lock_wait_n(lock_file, 5000);
     InitDBEx(config);
+    // The status is still NOT_INITIALIZED if the configuration was rejected. The DB
+    // has not been looked at in this case and must not be erased.
     if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open()
+        && status != MBError::NOT_INITIALIZED
         && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED) {
         ReInit(config);
     }
diff --git a/src/db.h b/src/db.h
index f6458a7..32a4d76 100644
--- a/src/db.h
+++ b/src/db.h
@@ -251,8 +251,8 @@ private:
 
     // DB directory
     std::string mb_dir;
-    int options;
-    Dict* dict;
+    int options = 0;
+    Dict* dict = nullptr;
     int status;
 
     // DB connector ID
@@ -269,7 +269,7 @@ private:
     MBConfig dbConfig;
     std::string queue_dir; // dbConfig.queue_dir refers to it
 
-    AsyncWriter* async_writer;
+    AsyncWriter* async_writer = nullptr;
 
     int writer_lock_fd;
     bool writer_lock_owner = false; // this handle has registered the lock file
-- 
2.43.0


From f2aabcb05ad4c1d4df30e9cc14c3caa3c8cb029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 27/38] fix: re-initializing a database removed the shared
 queues of all databases

---
 src/db.cpp         |  2 +-
 src/util/utils.cpp | 11 +++++++++--
 src/util/utils.h   |  2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 1cbae3d..2d8b3d4 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -754,7 +754,7 @@ void DB::ReInit(MBConfig& config)
     std::cout << "erase corrupted DB and retry\n";
     Close();
     std::string db_dir = std::string(config.mbdir);
-    remove_db_files(db_dir);
+    remove_db_files(db_dir, config.queue_dir != NULL ? config.queue_dir : "/dev/shm");
     status = MBError::NOT_INITIALIZED;
     InitDBEx(config);
 }
diff --git a/src/util/utils.cpp b/src/util/utils.cpp
index c67497a..341370c 100644
--- a/src/util/utils.cpp
+++ b/src/util/utils.cpp
@@ -119,9 +119,16 @@ static int remove_matched_files(const std::string& dpath, const std::string& pat
     return MBError::SUCCESS;
 }
 
-int remove_db_files(const std::string& db_dir)
+int remove_db_files(const std::string& db_dir, const std::string& queue_dir)
 {
-    remove_matched_files("/dev/shm", "_mabain_q");
+    // Only the queue of this DB can be removed. Queue files are named after the
+    // inode of the header file.
+    uint64_t qid = get_file_inode(db_dir + "/_mabain_h");
+    if (qid != 0) {
+        std::string qfile = queue_dir + "/_mabain_q" + std::to_string(qid);
+        if (unlink(qfile.c_str()) != 0 && errno != ENOENT)
+            std::cerr << "failed to remove " << qfile << std::endl;
+    }
     remove_matched_files(db_dir, "_mabain_");
     return 0;
 }
diff --git a/src/util/utils.h b/src/util/utils.h
index 7a5ac84..350c6ed 100644
--- a/src/util/utils.h
+++ b/src/util/utils.h
@@ -28,7 +28,7 @@ int acquire_file_lock_wait_n(const std::string& lock_file_path, int ntry);
 void release_file_lock(int& fd);
 uint64_t get_file_inode(const std::string& path);
 bool directory_exists(const std::string& path);
-int remove_db_files(const std::string& db_dir);
+int remove_db_files(const std::string& db_dir, const std::string& queue_dir);
 
 }
 
-- 
2.43.0


From 243dd81613cd6d2e4f7608a3698899a7d1e81fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 28/38] fix: mapped files of a removed database were used for
 the one created in their place

---
 src/file_io.cpp       | 11 +++++++++++
 src/file_io.h         |  3 +++
 src/resource_pool.cpp |  7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/src/file_io.cpp b/src/file_io.cpp
index 62e0abd..f710eee 100644
--- a/src/file_io.cpp
+++ b/src/file_io.cpp
@@ -33,6 +33,7 @@ FileIO::FileIO(const std::string& fpath, int oflags, int fmode, bool sync)
     , mode(fmode)
 {
     fd = -1;
+    inode = 0;
 }
 
 FileIO::~FileIO()
@@ -47,6 +48,10 @@ int FileIO::Open()
     fd = open(path.c_str(), options, mode);
     umask(prev_mask);
 
+    struct stat sb;
+    if (fd >= 0 && fstat(fd, &sb) == 0)
+        inode = sb.st_ino;
+
     return fd;
 }
 
@@ -141,6 +146,12 @@ bool FileIO::IsOpen() const
     return fd >= 0;
 }
 
+// inode number of the file opened last
+uint64_t FileIO::GetInode() const
+{
+    return inode;
+}
+
 int FileIO::GetFD() const
 {
     return fd;
diff --git a/src/file_io.h b/src/file_io.h
index 120bd1b..232ac5e 100644
--- a/src/file_io.h
+++ b/src/file_io.h
@@ -23,6 +23,7 @@
 #include <string>
 
 #include <fcntl.h>
+#include <stdint.h>
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
@@ -42,6 +43,7 @@ public:
     int AllocateFile(off_t filesize);
     bool IsOpen() const;
     int GetFD() const;
+    uint64_t GetInode() const;
     void Close();
 
     size_t Write(const void* data, size_t bytes);
@@ -65,6 +67,7 @@ private:
     int mode;
 
     int fd;
+    uint64_t inode;
 };
 
 }
diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index c2f8233..513fd08 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -23,6 +23,7 @@
 #include "mabain_consts.h"
 #include "mmap_file.h"
 #include "resource_pool.h"
+#include "util/utils.h"
 
 namespace mabain {
 
@@ -87,6 +88,12 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
     pthread_mutex_lock(&pool_mutex);
 
     auto search = file_pool.find(pool_key);
+    if (search != file_pool.end() && !(mode & CONSTS::MEMORY_ONLY_MODE)
+        && search->second->GetInode() != get_file_inode(fpath)) {
+        // The file was removed or replaced.
+        file_pool.erase(search);
+        search = file_pool.end();
+    }
     if (search == file_pool.end()) {
         Logger::Log(LOG_LEVEL_DEBUG, "create resource %s", fpath.c_str());
         int flags = O_RDWR;
-- 
2.43.0


From 6d42a62f78e68d414441186c56d490b83ce585cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 29/38] fix: a new database used the stale shared queue of a
 deleted one

---
 src/dict.cpp          | 3 ++-
 src/shm_queue_mgr.cpp | 8 +++++++-
 src/shm_queue_mgr.h   | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 273e254..520dc60 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -69,7 +69,8 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
 
     if (!(db_options & CONSTS::READ_ONLY_DB)) {
         // initialize shared memory queue
-        slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
+        slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options,
+            init_header && !(db_options & CONSTS::MEMORY_ONLY_MODE));
         queue = slaq->queue;
     }
     // Readers must not use the edge in an unfinished update before it is recovered.
diff --git a/src/shm_queue_mgr.cpp b/src/shm_queue_mgr.cpp
index b607efe..12bb654 100644
--- a/src/shm_queue_mgr.cpp
+++ b/src/shm_queue_mgr.cpp
@@ -18,6 +18,7 @@
 
 #include <iostream>
 #include <sys/stat.h>
+#include <unistd.h>
 
 #include "error.h"
 #include "logger.h"
@@ -43,7 +44,7 @@ void ShmQueueMgr::InitShmObjects(shm_lock_and_queue* slaq, int queue_size)
 }
 
 shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
-    const char* queue_dir, int options)
+    const char* queue_dir, int options, bool new_db)
 {
     if (qsize > MB_MAX_NUM_SHM_QUEUE_NODE)
         throw (int)MBError::INVALID_SIZE;
@@ -53,6 +54,11 @@ shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
     else
         qfile_path = "/dev/shm/_mabain_q" + std::to_string(qid);
 
+    // A queue file left by a deleted DB whose header file had the same inode number
+    // must not be used by a new DB.
+    if (new_db && (options & CONSTS::ACCESS_MODE_WRITER))
+        unlink(qfile_path.c_str());
+
     bool init_queue = false;
     if (access(qfile_path.c_str(), F_OK))
         init_queue = true;
diff --git a/src/shm_queue_mgr.h b/src/shm_queue_mgr.h
index cd73c58..08d26ef 100644
--- a/src/shm_queue_mgr.h
+++ b/src/shm_queue_mgr.h
@@ -68,7 +68,7 @@ class ShmQueueMgr {
 public:
     ShmQueueMgr();
     ~ShmQueueMgr();
-    shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options);
+    shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options, bool new_db);
     void PrintStats(std::ostream& out_stream, const IndexHeader* hdr) const;
 
 private:
-- 
2.43.0


From f4ea1259ec5302b5e016454d0c909d7217f4287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 30/38] fix: the copy made by a backup shared the async queue
 of its source

---
 src/mb_backup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index c25fe94..f8f8ce2 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -24,6 +24,7 @@
 #include "integer_4b_5b.h"
 #include "mb_backup.h"
 #include "mb_data.h"
+#include "util/utils.h"
 
 namespace mabain {
 
@@ -165,6 +166,10 @@ int DBBackup::Backup(const char* bk_dir)
     rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_READER, INT_MIN);
     if (rval != MBError::SUCCESS)
         Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
+    // The copy must not share the queue of the source DB.
+    Dict* bk_dict = db.GetDictPtr();
+    if (bk_dict != NULL)
+        bk_dict->GetHeaderPtr()->shm_queue_id = get_file_inode(bk_header_path);
     db.Close();
     return MBError::SUCCESS;
 }
-- 
2.43.0


From 95aa7d006907f5d553553b6f7b676011655481e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 31/38] fix: restrict the recovery of the rc tree to what an
 async writer left behind

---
 src/async_writer.cpp | 6 ++++--
 src/mb_rc.cpp        | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 2eb90fa..629161d 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -67,7 +67,6 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
     if (header == NULL)
         throw (int)MBError::NOT_INITIALIZED;
     queue = dict->GetAsyncQueuePtr();
-    header->rc_flag.store(0, std::memory_order_release);
 
     rc_backup_dir = NULL;
     // start the thread
@@ -232,6 +231,7 @@ void* AsyncWriter::async_writer_thread()
         rc.ExceptionRecovery();
         writer_lock.unlock();
     }
+    header->rc_flag.store(0, std::memory_order_release);
 
     while (!stop_processing) {
         node_ptr = &queue[header->writer_index % header->async_queue_size];
@@ -341,7 +341,9 @@ void* AsyncWriter::async_writer_thread()
             }
             writer_lock.unlock();
 
-            header->rc_flag.store(0, std::memory_order_release);
+            // The flag tells that the rc tree holds updates if rc was interrupted.
+            if (!stop_processing || header->rc_root_offset.load(std::memory_order_relaxed) == 0)
+                header->rc_flag.store(0, std::memory_order_release);
             if (rc_backup_dir != NULL) {
                 if (rval == MBError::SUCCESS) {
                     dict->SHMQ_Backup(rc_backup_dir);
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index aa0659f..ce835ea 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1058,9 +1058,9 @@ int ResourceCollection::ExceptionRecovery()
 
     int rval = MBError::SUCCESS;
     size_t rc_root = header->rc_root_offset.load(MEMORY_ORDER_READER);
-    if (rc_root != 0) {
-        // Keep the updates that were added to the rc tree. New buffers are allocated either above
-        // the rc tree or, if rc was finished already, below it.
+    if (rc_root != 0 && header->rc_flag.load(std::memory_order_acquire) == 1) {
+        // The async writer was terminated during rc. Keep the updates that it added to the rc tree.
+        // New buffers are allocated either above the rc tree or, if rc was finished already, below it.
         Logger::Log(LOG_LEVEL_WARN, "previous rc was not completed, recovering the rc tree");
         try {
             bool below = header->m_index_offset <= rc_root;
@@ -1090,6 +1090,7 @@ int ResourceCollection::ExceptionRecovery()
 
     header->rc_root_offset = 0;
     header->rc_count = 0;
+    header->rc_flag.store(0, std::memory_order_release);
 
     return rval;
 }
-- 
2.43.0


From 134973f698340481caefa5a859ba3d21280f7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 32/38] fix: a key-only lookup found keys that are only a
 prefix of other entries

---
 src/detail/search_engine.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index e26d602..1abe7e4 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -175,7 +175,15 @@ namespace detail {
             return MBError::IN_DICT;
         }
         if (data.options & CONSTS::OPTION_KEY_ONLY) {
-            return MBError::SUCCESS;
+            if (isLeaf(edge_ptrs))
+                return MBError::SUCCESS;
+            // The key may end at a node which is only a prefix of other entries.
+            uint8_t node_hdr[NODE_EDGE_KEY_FIRST];
+            size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
+            if (dict.mm.ReadData(node_hdr, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
+                return MBError::READ_ERROR;
+            lf_guard.visitNode(node_off, node_hdr);
+            return (node_hdr[0] & FLAG_NODE_MATCH) ? MBError::SUCCESS : MBError::NOT_EXIST;
         }
         return dict.ReadDataFromEdge(data, edge_ptrs, &lf_guard);
     }
-- 
2.43.0


From 842ec40f4530fcfb2ca64d44ae206084cef0d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 33/38] fix: a DB whose creation or removal was interrupted was
 used as a valid DB

---
 src/dict.cpp       | 13 ++++++++++++-
 src/dict_mem.cpp   |  8 +-------
 src/util/utils.cpp |  5 +++++
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 520dc60..3fbf326 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -29,6 +29,7 @@
 #include "integer_4b_5b.h"
 #include "mabain_consts.h"
 #include "util/prefix_cache.h"
+#include "version.h"
 
 #define DATA_HEADER_SIZE 32
 
@@ -271,8 +272,18 @@ int Dict::Init(uint32_t id)
         return status;
     }
 
-    if (mm.IsValid())
+    if (mm.IsValid()) {
+        // A DB without its version is not valid. This must be the last step so that a DB is
+        // not used if the writer was terminated while creating it.
+        std::atomic_thread_fence(std::memory_order_release);
+        header->version[0] = version[0];
+        header->version[1] = version[1];
+        header->version[2] = version[2];
+        header->version[3] = 0;
+        Logger::Log(LOG_LEVEL_DEBUG, "set mabain db version to %u.%u.%u",
+            header->version[0], header->version[1], header->version[2]);
         status = MBError::SUCCESS;
+    }
 
     return status;
 }
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 3f746d8..eff8274 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -199,11 +199,7 @@ DictMem::DictMem(const std::string& mbdir, bool init_header, size_t memsize,
     if (init_header) {
         // set writer options
         header->writer_options = options;
-        // Set up DB version
-        header->version[0] = version[0];
-        header->version[1] = version[1];
-        header->version[2] = version[2];
-        header->version[3] = 0;
+        // The DB version is set in Dict::Init when everything else is in place.
         // Step 2: make rebuild metadata initialization explicit for new-format DBs.
         header->ClearRebuildMetadata();
         header->ResetReaderEpochState();
@@ -216,8 +212,6 @@ DictMem::DictMem(const std::string& mbdir, bool init_header, size_t memsize,
     } else {
         is_valid = true;
     }
-    Logger::Log(LOG_LEVEL_DEBUG, "set mabain db version to %u.%u.%u",
-        header->version[0], header->version[1], header->version[2]);
 }
 
 // The whole edge is initialized to zero.
diff --git a/src/util/utils.cpp b/src/util/utils.cpp
index 341370c..90fe4bd 100644
--- a/src/util/utils.cpp
+++ b/src/util/utils.cpp
@@ -129,6 +129,11 @@ int remove_db_files(const std::string& db_dir, const std::string& queue_dir)
         if (unlink(qfile.c_str()) != 0 && errno != ENOENT)
             std::cerr << "failed to remove " << qfile << std::endl;
     }
+    // The other files are worthless without the header. Remove it first so that they are
+    // not used with it if this is not finished.
+    std::string hfile = db_dir + "/_mabain_h";
+    if (unlink(hfile.c_str()) != 0 && errno != ENOENT)
+        std::cerr << "failed to remove " << hfile << std::endl;
     remove_matched_files(db_dir, "_mabain_");
     return 0;
 }
-- 
2.43.0


From 7bc58cad177597be0490cac763b1284b1ac76b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 34/38] fix: a root node in a leftover block file was not
 cleared in jemalloc mode

---
 src/dict_mem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index eff8274..bd56189 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -226,6 +226,9 @@ void DictMem::InitRootNode()
         // Initialize the memory manager and set the initial offset to account for the root node.
         // This will guarantee that the root node is always at offset 0.
         root_node = (uint8_t*)kv_file->PreAlloc(node_size[NUM_ALPHABET - 1]);
+        // The block file may have been left by a deleted DB.
+        if (root_node != NULL)
+            memset(root_node, 0, node_size[NUM_ALPHABET - 1]);
     } else {
         header->m_index_offset = 0;
         node_move = ReserveNode(NUM_ALPHABET - 1, root_offset, root_node);
-- 
2.43.0


From 54d662c53294ebd5e4ed1f65cbb7bd9cce4ed4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 35/38] fix: the copy made by a backup kept the queue of its
 source and could not be read

---
 src/mb_backup.cpp | 43 ++++++++++++++++++++++++++++++++++++++-----
 src/mb_backup.h   |  2 ++
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index f8f8ce2..5a49b99 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -24,6 +24,7 @@
 #include "integer_4b_5b.h"
 #include "mb_backup.h"
 #include "mb_data.h"
+#include "shm_queue_mgr.h"
 #include "util/utils.h"
 
 namespace mabain {
@@ -90,6 +91,30 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
     }
 }
 
+// The copy must not share the queue of the source DB.
+void DBBackup::copy_header(const std::string& src_path, const std::string& dest_path,
+    char* buffer, int header_size)
+{
+    FILE* fp_read = fopen(src_path.c_str(), "rb");
+    if (fp_read == NULL)
+        throw (int)MBError::OPEN_FAILURE;
+    int rval = fread(buffer, header_size, 1, fp_read) == 1 ? MBError::SUCCESS : MBError::READ_ERROR;
+    fclose(fp_read);
+    if (rval != MBError::SUCCESS)
+        throw rval;
+
+    FILE* fp_write = fopen(dest_path.c_str(), "wb");
+    if (fp_write == NULL)
+        throw (int)MBError::OPEN_FAILURE;
+    reinterpret_cast<IndexHeader*>(buffer)->shm_queue_id = get_file_inode(dest_path);
+    if (fwrite(buffer, header_size, 1, fp_write) != 1)
+        rval = MBError::WRITE_ERROR;
+    if (fclose(fp_write) != 0)
+        rval = MBError::WRITE_ERROR;
+    if (rval != MBError::SUCCESS)
+        throw rval;
+}
+
 int DBBackup::Backup(const char* bk_dir)
 {
     if (bk_dir == NULL)
@@ -150,7 +175,7 @@ int DBBackup::Backup(const char* bk_dir)
     read_file_path = orig_dir + "/_mabain_h";
     write_file_path = std::string(bk_dir) + "/_mabain_h";
     // header is size of page_size
-    copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
+    copy_header(read_file_path, write_file_path, buffer, RollableFile::page_size);
 
     free(buffer);
 
@@ -166,11 +191,19 @@ int DBBackup::Backup(const char* bk_dir)
     rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_READER, INT_MIN);
     if (rval != MBError::SUCCESS)
         Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-    // The copy must not share the queue of the source DB.
-    Dict* bk_dict = db.GetDictPtr();
-    if (bk_dict != NULL)
-        bk_dict->GetHeaderPtr()->shm_queue_id = get_file_inode(bk_header_path);
     db.Close();
+
+    try {
+        // so that readers can open the copy
+        MBConfig config;
+        db_ref.GetDBConfig(config);
+        ShmQueueMgr qmgr;
+        qmgr.CreateFile(get_file_inode(bk_header_path), header->async_queue_size, config.queue_dir,
+            CONSTS::ACCESS_MODE_WRITER, true);
+    } catch (int err) {
+        Logger::Log(LOG_LEVEL_WARN, "failed to create queue for DB %s: %s", bk_dir,
+            MBError::get_error_str(err));
+    }
     return MBError::SUCCESS;
 }
 
diff --git a/src/mb_backup.h b/src/mb_backup.h
index 1030196..887e5d0 100644
--- a/src/mb_backup.h
+++ b/src/mb_backup.h
@@ -36,6 +36,8 @@ public:
 private:
     static void copy_file(const std::string& src_path,
         const std::string& dest_path, char* buffer, int buffer_size);
+    static void copy_header(const std::string& src_path,
+        const std::string& dest_path, char* buffer, int header_size);
 
     const DB& db_ref;
     const IndexHeader* header;
-- 
2.43.0


From 36823974e88c45ae1dcdbcbae2656559235e44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 36/38] fix: InDB did not find keys that have a match only in
 the rc tree or end inside an edge

---
 src/db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 2d8b3d4..eec800b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -907,10 +907,10 @@ bool DB::InDB(const char* key, int len, int& err)
         err = MBError::NOT_ALLOWED;
         return false;
     }
-    MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
+    MBData data(0, CONSTS::OPTION_KEY_ONLY);
     detail::SearchEngine engine(*dict);
     int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, data);
-    if (rval == MBError::IN_DICT) {
+    if (rval == MBError::SUCCESS) {
         return true; // found it
     } else if (rval != MBError::NOT_EXIST) {
         err = rval; // error
-- 
2.43.0


From d9c53247d1bb3a580638f2a37400cb5bcbd6fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 37/38] fix: every restart that keeps a jemalloc DB used one
 more block

---
 src/mb_rc.cpp | 33 +++++++++++++++++++++++++--------
 src/mb_rc.h   |  4 ++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index ce835ea..254e162 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -87,6 +87,8 @@ ResourceCollection::ResourceCollection(const DB& db, int rct)
     evacuate_index_block_end = 0;
     evacuate_data_block_start = 0;
     evacuate_data_block_end = 0;
+    index_live_end = 0;
+    data_live_end = 0;
     async_writer_ptr = NULL;
     startup_rebuild_.Clear();
 }
@@ -238,26 +240,31 @@ int ResourceCollection::StartupShrink()
 
     const size_t index_block_end = dmm->GetExistingBlockEnd();
     const size_t data_block_end = dict->GetExistingBlockEnd();
-    size_t index_tail = std::max(dmm->GetJemallocAllocSize(), index_block_end);
-    size_t data_tail = std::max(dict->GetJemallocAllocSize(), data_block_end);
-    if (index_tail == 0 || data_tail == 0)
+    if (index_block_end == 0 || data_block_end == 0)
         return MBError::NOT_INITIALIZED;
-    if (index_tail < header->m_index_offset || data_tail < header->m_data_offset) {
+    if (index_block_end < header->m_index_offset || data_block_end < header->m_data_offset) {
         Logger::Log(LOG_LEVEL_WARN,
             "startup shrink live offsets exceed reopen tails index=%llu/%llu data=%llu/%llu",
             static_cast<unsigned long long>(header->m_index_offset),
-            static_cast<unsigned long long>(index_tail),
+            static_cast<unsigned long long>(index_block_end),
             static_cast<unsigned long long>(header->m_data_offset),
-            static_cast<unsigned long long>(data_tail));
+            static_cast<unsigned long long>(data_block_end));
         return MBError::INVALID_SIZE;
     }
 
+    // In jemalloc mode, normal live offsets are not reliable reopen tails.
+    // Reorder must use a non-overlapping workspace beyond all live buffers. It must not start
+    // at the end of the existing blocks, since then one more block is used on every restart.
+    index_live_end = header->m_index_offset;
+    data_live_end = header->m_data_offset;
+    TraverseDB(RESOURCE_COLLECTION_PHASE_MEASURE);
+    const size_t index_tail = std::max(dmm->GetJemallocAllocSize(), index_live_end);
+    const size_t data_tail = std::max(dict->GetJemallocAllocSize(), data_live_end);
+
     startup_rebuild_.Reset(REBUILD_STATE_COPY);
     startup_rebuild_.rebuild_index_alloc_end = index_tail;
     startup_rebuild_.rebuild_data_alloc_end = data_tail;
 
-    // In jemalloc mode, normal live offsets are not reliable reopen tails.
-    // Reorder must use a non-overlapping workspace beyond the existing block end.
     header->m_index_offset = index_tail;
     header->m_data_offset = data_tail;
     header->rc_m_index_off_pre = index_tail;
@@ -842,6 +849,16 @@ bool ResourceCollection::MoveDataBuffer(int phase, size_t& offset_src, int size)
 
 void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
 {
+    if (phase == RESOURCE_COLLECTION_PHASE_MEASURE) {
+        if (dbt_node.buffer_type & BUFFER_TYPE_NODE)
+            index_live_end = std::max(index_live_end, dbt_node.node_offset + dbt_node.node_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_EDGE_STR)
+            index_live_end = std::max(index_live_end, dbt_node.edgestr_offset + dbt_node.edgestr_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_DATA)
+            data_live_end = std::max(data_live_end, dbt_node.data_offset + dbt_node.data_size);
+        return;
+    }
+
     if (phase == RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX) {
         header->excep_lf_offset = dbt_node.edge_offset;
         if (dbt_node.buffer_type & BUFFER_TYPE_NODE) {
diff --git a/src/mb_rc.h b/src/mb_rc.h
index a8667b3..94315cb 100644
--- a/src/mb_rc.h
+++ b/src/mb_rc.h
@@ -31,6 +31,7 @@
 #define RESOURCE_COLLECTION_PHASE_COLLECT 0x02
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX 0x04
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_DATA 0x08
+#define RESOURCE_COLLECTION_PHASE_MEASURE 0x10
 
 namespace mabain {
 
@@ -149,6 +150,9 @@ private:
     size_t evacuate_index_block_end;
     size_t evacuate_data_block_start;
     size_t evacuate_data_block_end;
+    // end of the live buffers found at startup
+    size_t index_live_end;
+    size_t data_live_end;
     StartupRebuildRuntimeState startup_rebuild_;
 };
 
-- 
2.43.0


From 1760d7f97e3af8366011b4da26c17ff6080a17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 38/38] fix: interrupted RemoveAll could be preserved partially
 in jemalloc mode

---
 src/dict.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 3fbf326..fc9c96f 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1048,6 +1048,9 @@ int Dict::RemoveAll()
 
     if (prefix_cache)
         prefix_cache->Clear();
+    // What is left if the writer is terminated here must not be preserved by the next startup.
+    if (options & CONSTS::OPTION_JEMALLOC)
+        header->SetRebuildActive();
     // The buffers can be reused only after they are removed from the index.
     for (int c = 0; c < NUM_ALPHABET; c++) {
         rval = mm.ClearRootEdge(c);
@@ -1074,6 +1077,8 @@ int Dict::RemoveAll()
     header->count = 0;
     header->eviction_bucket_index = 0;
     header->num_update = 0;
+    if ((options & CONSTS::OPTION_JEMALLOC) && rval == MBError::SUCCESS)
+        header->ClearRebuildMetadata();
     return rval;
 }
 
-- 
2.43.0


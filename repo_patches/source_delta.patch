From e8f19fc5a0c7682f41e2e9f8302a55de03349b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 01/24] fix: let long transactions judge existence by their
 snapshot

Insert, update and delete of a long transaction looked at the latest version of
the record although the transaction reads an older snapshot. The same operations
and empty parts of scanned ranges were also missing from the read area published
at commit, so a later long transaction could be ordered before them. After
cancelling an own upsert, delete used the write set entry it had just erased.
---
 src/concurrency_control/include/session.h     | 13 ++++++++
 src/concurrency_control/interface/delete.cpp  | 28 +++++++++++++---
 src/concurrency_control/interface/insert.cpp  | 33 ++++++++++++++++---
 .../interface/scan/open_scan.cpp              |  2 ++
 src/concurrency_control/interface/update.cpp  | 26 ++++++++++++---
 5 files changed, 88 insertions(+), 14 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..0080f7f 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -518,6 +518,19 @@ public:
     void push_to_read_set_for_stx(read_set_obj&& elem) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
+    void insert_to_ltx_storage_read_set(Storage const st,
+                                        std::string const& l_key,
+                                        scan_endpoint const l_end,
+                                        std::string const& r_key,
+                                        scan_endpoint const r_end) {
+        insert_to_ltx_storage_read_set(st, l_key);
+        insert_to_ltx_storage_read_set(st, r_key);
+        std::lock_guard<std::shared_mutex> lk{get_mtx_ltx_storage_read_set()};
+        auto& range = get_ltx_storage_read_set()[st];
+        if (l_end == scan_endpoint::INF) { std::get<1>(range) = l_end; }
+        if (r_end == scan_endpoint::INF) { std::get<3>(range) = r_end; }
+    }
+
         read_set_for_stx_.emplace_back(std::move(elem));
     }
 
diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..ee6940a 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -46,9 +46,13 @@ static inline bool cancel_insert_if_tomb_stone(write_set_obj* wso) {
     return false;
 }
 
-static void register_read_if_ltx(session* const ti, Record* const rec_ptr) {
+static void register_read_if_ltx(session* const ti, Storage const storage,
+                                 Record* const rec_ptr) {
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         ti->read_set_for_ltx().push(rec_ptr);
+        std::string key{};
+        rec_ptr->get_key(key);
+        ti->insert_to_ltx_storage_read_set(storage, key);
     }
 }
 
@@ -83,7 +87,7 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         if (!rc) {
             // if this was update
             ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+            register_read_if_ltx(ti, st, rec_ptr);
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
@@ -92,6 +96,20 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
     return Status::ERR_FATAL;
 }
 
+/**
+ * @brief check whether the record is absent from the view of this tx.
+ * @details ltx has to see its own snapshot, not the latest version.
+ */
+static bool check_absent(session* const ti, Record* const rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        std::string dummy{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+               Status::WARN_NOT_FOUND;
+    }
+    tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+    return ctid.get_absent();
+}
+
 static void process_before_return_not_found(session* const ti,
                                             Storage const storage,
                                             std::string_view const key) {
@@ -116,6 +134,7 @@ static void process_before_return_not_found(session* const ti,
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(key), scan_endpoint::INCLUSIVE,
                 std::string(key), scan_endpoint::INCLUSIVE));
+        ti->insert_to_ltx_storage_read_set(storage, std::string(key));
     }
 }
 
@@ -143,14 +162,13 @@ static Status delete_record_body(Token token, Storage storage,
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
         if (in_ws != nullptr) { return process_after_write(ti, in_ws); }
         // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
+        if (check_absent(ti, rec_ptr)) {
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
         // prepare write
         ti->push_to_write_set({storage, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-        register_read_if_ltx(ti, rec_ptr);
+        register_read_if_ltx(ti, storage, rec_ptr);
         return Status::OK;
     }
     if (rc == Status::WARN_NOT_FOUND) {
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 719fc38..b0a887c 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -77,12 +77,28 @@ static inline Status insert_process(session* const ti, Storage st,
     return Status::WARN_CONCURRENT_INSERT;
 }
 
-static void register_read_if_ltx(session* const ti, Record* const rec_ptr) {
+static void register_read_if_ltx(session* const ti, Storage const storage,
+                                 Record* const rec_ptr) {
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         ti->read_set_for_ltx().push(rec_ptr);
+        std::string key{};
+        rec_ptr->get_key(key);
+        ti->insert_to_ltx_storage_read_set(storage, key);
     }
 }
 
+/**
+ * @brief check whether ltx sees the record in its snapshot.
+ */
+static bool exist_for_ltx(session* const ti, Record* const rec_ptr) {
+    if (ti->get_tx_type() != transaction_options::transaction_type::LONG) {
+        return false;
+    }
+    std::string dummy{};
+    return long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+           Status::OK;
+}
+
 static Status insert_body(
         Token const token, Storage const storage, // NOLINT
         const std::string_view key, const std::string_view val,
@@ -124,11 +140,16 @@ static Status insert_body(
                 }
             }
 
+            if (exist_for_ltx(ti, rec_ptr)) {
+                register_read_if_ltx(ti, storage, rec_ptr);
+                return Status::WARN_ALREADY_EXISTS;
+            }
+
             tid_word found_tid{};
             rc = try_deleted_to_inserting(storage, key, rec_ptr, found_tid);
             if (rc == Status::OK) { // ok already count up tombstone count
                 ti->push_to_write_set({storage, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
-                register_read_if_ltx(ti, rec_ptr);
+                register_read_if_ltx(ti, storage, rec_ptr);
                 return Status::OK;
             }
             if (rc == Status::WARN_CONCURRENT_INSERT) { continue; }
@@ -144,8 +165,10 @@ static Status insert_body(
                     ti->push_to_read_set_for_stx({storage, rec_ptr, found_tid});
                 } else if (ti->get_tx_type() ==
                            transaction_options::transaction_type::LONG) {
-                    // register read_by_set
-                    register_read_if_ltx(ti, rec_ptr);
+                    // it exists only after the snapshot of this tx
+                    ti->push_to_write_set({storage, OP_TYPE::INSERT, rec_ptr, val, false, std::move(lobs)});
+                    register_read_if_ltx(ti, storage, rec_ptr);
+                    return Status::OK;
                 } else {
                     LOG_FIRST_N(ERROR, 1) << log_location_prefix
                                           << "library programming error";
@@ -160,7 +183,7 @@ static Status insert_body(
     INSERT_PROCESS: // NOLINT
         auto rc{insert_process(ti, storage, key, val, rec_ptr, lobs)};
         if (rc == Status::OK) {
-            register_read_if_ltx(ti, rec_ptr);
+            register_read_if_ltx(ti, storage, rec_ptr);
             return Status::OK;
         }
         if (rc == Status::ERR_CC) { return rc; }
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..d252c14 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -220,6 +220,8 @@ static Status open_scan_precheck(
         return Status::WARN_STORAGE_NOT_FOUND;
     }
 
+        ti->insert_to_ltx_storage_read_set(storage, std::string(l_key), l_end,
+                                           std::string(r_key), r_end);
     // ==========
     // wp verify section
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index cb4c6b7..2381c54 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -12,12 +12,30 @@
 
 namespace shirakami {
 
-static void register_read_if_ltx(session* const ti, Record* const rec_ptr) {
+static void register_read_if_ltx(session* const ti, Storage const storage,
+                                 Record* const rec_ptr) {
     if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
         ti->read_set_for_ltx().push(rec_ptr);
+        std::string key{};
+        rec_ptr->get_key(key);
+        ti->insert_to_ltx_storage_read_set(storage, key);
     }
 }
 
+/**
+ * @brief check whether the record is absent from the view of this tx.
+ * @details ltx has to see its own snapshot, not the latest version.
+ */
+static bool check_absent(session* const ti, Record* const rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        std::string dummy{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+               Status::WARN_NOT_FOUND;
+    }
+    tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+    return ctid.get_absent();
+}
+
 static void process_before_return_not_found(session* const ti,
                                             Storage const storage,
                                             std::string_view const key) {
@@ -42,6 +60,7 @@ static void process_before_return_not_found(session* const ti,
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(key), scan_endpoint::INCLUSIVE,
                 std::string(key), scan_endpoint::INCLUSIVE));
+        ti->insert_to_ltx_storage_read_set(storage, std::string(key));
     }
 }
 
@@ -83,15 +102,14 @@ static Status update_body(
         }
 
         // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
+        if (check_absent(ti, rec_ptr)) {
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
 
         // prepare write
         ti->push_to_write_set({storage, OP_TYPE::UPDATE, rec_ptr, val, false, std::move(lobs)});
-        register_read_if_ltx(ti, rec_ptr);
+        register_read_if_ltx(ti, storage, rec_ptr);
         return Status::OK;
     }
     process_before_return_not_found(ti, storage, key);
-- 
2.43.0


From 1c5ec80d0410ac4d9a5b79b0bfe73f4198973308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 02/24] fix: let the first step of a scan see the own write of
 an existing record

Opening a scan skipped a record which is deleted in the index but written by the
scanning transaction.
---
 .../interface/scan/open_scan.cpp              | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index d252c14..5c6b147 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -68,6 +68,14 @@ static Status fin_process(session* const ti, Status const this_result) {
 }
 
 static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
+    // check read own write
+    if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
+        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
+        if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
+            return Status::OK;
+        }
+    }
+
     tid_word tid{loadAcquire(rec_ptr->get_tidw().get_obj())};
     if (!tid.get_absent()) {
         // normal page.
@@ -100,15 +108,6 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             return Status::OK;
         }
 
-        // check read own write
-        write_set_obj* inws = ti->get_write_set().search(rec_ptr);
-        if (inws != nullptr) {
-            if (inws->get_op() == OP_TYPE::INSERT ||
-                inws->get_op() == OP_TYPE::UPSERT) {
-                return Status::OK;
-            }
-        }
-
         /**
          * first version must be inserting page or deleted page
          */
@@ -220,9 +219,9 @@ static Status open_scan_precheck(
         return Status::WARN_STORAGE_NOT_FOUND;
     }
 
+    // ==========
         ti->insert_to_ltx_storage_read_set(storage, std::string(l_key), l_end,
                                            std::string(r_key), r_end);
-    // ==========
     // wp verify section
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
         /**
-- 
2.43.0


From 15d93a8a986d04fb8bc9e1c8e14856141ba03c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 03/24] fix: bound order forwarding by the tombstones skipped
 in a scan

A long transaction which saw a deletion must not be ordered before it.
---
 src/concurrency_control/interface/scan/next.cpp      |  8 ++++++++
 src/concurrency_control/interface/scan/open_scan.cpp | 12 ++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..127197f 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -242,6 +242,14 @@ static void check_ltx_scan_range_rp_and_log(session* ti, Storage st, std::string
         // todo special case. interrupt DDL
         return;
     }
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // reading the tombstone bounds forwarding like any other read version
+        std::string dummy{};
+        if (long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+            Status::OK) {
+            return Status::OK;
+        }
+    }
     {
         std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 5c6b147..d74e7be 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -145,6 +145,14 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             }
         }
     }
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // reading the tombstone bounds forwarding like any other read version
+        std::string dummy{};
+        if (long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+            Status::OK) {
+            return Status::OK;
+        }
+    }
     return Status::INTERNAL_WARN_NOT_FOUND;
 }
 
@@ -212,6 +220,8 @@ static Status open_scan_precheck(
             ti->set_result(reason_code::CC_LTX_READ_AREA_VIOLATION);
             return rs;
         }
+        ti->insert_to_ltx_storage_read_set(storage, std::string(l_key), l_end,
+                                           std::string(r_key), r_end);
     }
 
     // check storage existence
@@ -220,8 +230,6 @@ static Status open_scan_precheck(
     }
 
     // ==========
-        ti->insert_to_ltx_storage_read_set(storage, std::string(l_key), l_end,
-                                           std::string(r_key), r_end);
     // wp verify section
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
         /**
-- 
2.43.0


From cb917e7013f063c4e1204b32dd36df7b92b847ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 04/24] fix: verify write preserve for reads which found no
 record

A short transaction which searched a missing key, scanned an empty range, or
relied on the existence check of insert, update or delete was not checked at
commit against long transactions which reserved the storage.
---
 src/concurrency_control/include/session.h     | 15 +++++++-----
 .../interface/scan/open_scan.cpp              |  2 +-
 .../interface/short_tx/search.cpp             |  2 +-
 .../interface/short_tx/termination.cpp        | 23 ++++++++++++++++++-
 4 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 0080f7f..48c768f 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -7,6 +7,7 @@
 #include <array>
 #include <atomic>
 #include <mutex>
+#include <map>
 #include <set>
 
 #include "cpu.h"
@@ -37,7 +38,8 @@ namespace shirakami {
 
 class alignas(CACHE_LINE_SIZE) session {
 public:
-    using range_read_by_short_set_type = std::set<range_read_by_short*>;
+    using range_read_by_short_set_type =
+            std::map<range_read_by_short*, Storage>;
     using read_set_for_stx_type = std::vector<read_set_obj>;
     using wp_set_type = std::vector<std::pair<Storage, wp::wp_meta*>>;
     /**
@@ -441,11 +443,12 @@ public:
         get_range_read_by_short_set().clear();
     }
 
-    void push_to_range_read_by_short_set(range_read_by_short* rrbs) {
+    void push_to_range_read_by_short_set(range_read_by_short* rrbs,
+                                         Storage storage) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
-        get_range_read_by_short_set().insert(rrbs);
+        get_range_read_by_short_set().emplace(rrbs, storage);
     }
 
     void clear_read_set_for_stx() {
@@ -515,9 +518,6 @@ public:
         }
     }
 
-    void push_to_read_set_for_stx(read_set_obj&& elem) {
-        // take write lock
-        std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
     void insert_to_ltx_storage_read_set(Storage const st,
                                         std::string const& l_key,
                                         scan_endpoint const l_end,
@@ -531,6 +531,9 @@ public:
         if (r_end == scan_endpoint::INF) { std::get<3>(range) = r_end; }
     }
 
+    void push_to_read_set_for_stx(read_set_obj&& elem) {
+        // take write lock
+        std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
         read_set_for_stx_.emplace_back(std::move(elem));
     }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index d74e7be..d81babe 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -282,7 +282,7 @@ static Status open_scan_precheck(
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
     } else if (ti->get_tx_type() !=
                transaction_options::transaction_type::READ_ONLY) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 04018d6..58f0d92 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -63,7 +63,7 @@ Status search_key(session* ti, Storage const storage,
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..1f0fe43 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -266,6 +266,25 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         commit_tid = std::max(check, commit_tid);
     }
 
+    // the reads which found no record
+    {
+        std::shared_lock<std::shared_mutex> lk{
+                ti->get_mtx_range_read_by_short_set()};
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            accessed_st.emplace_back(itr.second);
+        }
+    }
+
+    // the existence check by insert, update and delete is read, too
+    {
+        std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+        for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+            if (itr.get_op() != OP_TYPE::UPSERT) {
+                accessed_st.emplace_back(itr.get_storage());
+            }
+        }
+    }
+
     // wp verify
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
@@ -699,7 +718,9 @@ static void register_range_read_by_short(session* const ti) {
         //take read lock
         std::shared_lock<std::shared_mutex> lk{
                 ti->get_mtx_range_read_by_short_set()};
-        for (auto&& itr : ti->get_range_read_by_short_set()) { itr->push(ce); }
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            itr.first->push(ce);
+        }
     }
 }
 
-- 
2.43.0


From fe050eb04b0fda640c9d1d69b0bf26e53f8188d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 05/24] fix: let the commit tid exceed the tid of the
 overwritten tombstone

An insert over a tombstone could reuse its tid, so readers of the tombstone
passed read verify.
---
 src/concurrency_control/interface/short_tx/termination.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 1f0fe43..92d3d7b 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -418,9 +418,7 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                     }
                 }
                 // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
-- 
2.43.0


From 260e6c3c94528457a2d3390361b6de82e0b3f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 06/24] fix: keep the tombstone when a long transaction
 overwrites it

Older snapshots read a live empty value instead of the deletion.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..46f13f3 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -173,7 +173,6 @@ static inline void expose_local_write(
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
                     // prepare tid for old version
-                    pre_tid.set_absent(false);
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From c63fd5a91baacef15b137fd1fd09f698d32f5e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 07/24] fix: guard the nodes of skipped and own written records
 from phantom

---
 .../interface/scan/next.cpp                   | 33 ++++++++++++++-----
 .../interface/scan/open_scan.cpp              | 11 +++++++
 .../interface/scan/read_kv_from_scan.cpp      |  9 +++++
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 127197f..81c03e1 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -57,7 +57,22 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
 
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
-        if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
+        if (rc == Status::INTERNAL_WARN_NOT_FOUND) {
+            if (ti->get_tx_type() ==
+                transaction_options::transaction_type::SHORT) {
+                // the skipped record is read, too. Guard its node from phantom
+                if (ti->get_node_set().emplace_back(
+                            {std::get<1>(*itr), std::get<2>(*itr)}) ==
+                    Status::ERR_CC) {
+                    short_tx::abort(ti);
+                    std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                    ti->get_result_info().set_storage_name(st);
+                    ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                    return Status::ERR_CC;
+                }
+            }
+            continue;
+        }
         return rc;
     }
 
@@ -227,6 +242,14 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
             }
         }
     }
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // reading the tombstone bounds forwarding like any other read version
+        std::string dummy{};
+        if (long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
+            Status::OK) {
+            return Status::OK;
+        }
+    }
     return Status::INTERNAL_WARN_NOT_FOUND;
 }
 
@@ -242,14 +265,6 @@ static void check_ltx_scan_range_rp_and_log(session* ti, Storage st, std::string
         // todo special case. interrupt DDL
         return;
     }
-    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
-        // reading the tombstone bounds forwarding like any other read version
-        std::string dummy{};
-        if (long_tx::version_traverse_and_read(ti, rec_ptr, dummy, false) ==
-            Status::OK) {
-            return Status::OK;
-        }
-    }
     {
         std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index d81babe..4688cf8 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -396,6 +396,17 @@ static Status open_scan_body(
                 if (rc == Status::ERR_CC) { return rc; }
             }
         }
+        // the skipped records are read, too. Guard their nodes from phantom
+        for (std::size_t i = 0; i < head_skip_rec_n; ++i) {
+            if (ti->get_node_set().emplace_back(nvec.at(i + nvec_delta)) ==
+                Status::ERR_CC) {
+                short_tx::abort(ti);
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(storage);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                return Status::ERR_CC;
+            }
+        }
     }
 
     // for hit, register left end point info as already read
diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..cbc7bd0 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -95,6 +95,15 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
     if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         const write_set_obj* inws = ti->get_write_set().search(rec_ptr);
         if (inws != nullptr) {
+            if (ti->get_tx_type() ==
+                        transaction_options::transaction_type::SHORT &&
+                node_check() == Status::ERR_CC) {
+                short_tx::abort(ti);
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(st);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                return Status::ERR_CC;
+            }
             if (inws->get_op() == OP_TYPE::DELETE) {
                 read_register_if_ltx(rec_ptr);
                 return Status::WARN_NOT_FOUND;
-- 
2.43.0


From b4e11400d6744edd83d6b4a642b4cb9453e4f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 08/24] fix: find the reads of long transactions committed out
 of order

The read information is in order of commit, not in order of epoch or priority.
---
 src/concurrency_control/read_by.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..44b9640 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -25,10 +25,9 @@ bool point_read_by_long::is_exist(Token token) {
         } else if (elem.second == ltx_id) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
             return true;
-        } else {
-            // elem is low priori than this.
-            break;
         }
+        // else: elem is low priori than this. The elements are in order of
+        // commit, so high priori one may follow.
     }
 
     return false;
@@ -89,7 +88,8 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            // they come after ep, or their order at ep is undefined
+            if (std::get<range_read_by_long::index_epoch>(elem) >= ep) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +113,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From e67172b66bfd35f48159626c88bd290fd1f354a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 09/24] fix: keep the record upserted by a long transaction
 from gc

A higher priority long transaction may delete the record with its old epoch
before the commit, then gc removed it from the index and the upsert was lost.
---
 src/concurrency_control/interface/upsert.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..96f2785 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -134,6 +134,22 @@ static Status upsert_body(
                 return Status::OK;
             }
             if (rc == Status::WARN_ALREADY_EXISTS) {
+                if (ti->get_tx_type() ==
+                    transaction_options::transaction_type::LONG) {
+                    /**
+                     * High priori ltx may delete the record with its old epoch
+                     * before this tx commits. Block gc by tombstone count.
+                     */
+                    rec_ptr->get_tidw_ref().lock();
+                    if (rec_ptr->get_tidw_ref().get_absent()) {
+                        rec_ptr->get_tidw_ref().unlock();
+                        continue; // deleted concurrently
+                    }
+                    ++rec_ptr->get_shared_tombstone_count();
+                    rec_ptr->get_tidw_ref().unlock();
+                    ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
+                    return Status::OK;
+                }
                 // prepare update
                 ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, false, std::move(lobs)});
                 return Status::OK;
-- 
2.43.0


From 8d82fd44f64631d2f9ba144b46c66594bc2922f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 10/24] fix: extend both ends of the read range of long
 transactions

When the range was empty, one key has to update the left and the right end.
---
 src/concurrency_control/interface/long_tx/helper.cpp | 4 +++-
 src/concurrency_control/wp.cpp                       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..758d133 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -272,7 +272,9 @@ void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
                 std::get<1>(read_range) = scan_endpoint::INCLUSIVE;
             }
             std::get<0>(read_range) = key;
-        } else if (key > std::get<2>(read_range)) {
+        }
+        // the left and the right are independent, the range may be empty yet
+        if (key > std::get<2>(read_range)) {
             if (std::get<3>(read_range) == scan_endpoint::EXCLUSIVE) {
                 std::get<3>(read_range) = scan_endpoint::INCLUSIVE;
             }
diff --git a/src/concurrency_control/wp.cpp b/src/concurrency_control/wp.cpp
index 37c8c05..fb655b7 100644
--- a/src/concurrency_control/wp.cpp
+++ b/src/concurrency_control/wp.cpp
@@ -47,7 +47,8 @@ void extract_higher_priori_ltx_info(session* const ti,
             // already initialize, update read range
             if (key < std::get<0>(read_range)) {
                 std::get<0>(read_range) = key;
-            } else if (key > std::get<2>(read_range)) {
+            }
+            if (key > std::get<2>(read_range)) {
                 std::get<2>(read_range) = key;
             }
         }
-- 
2.43.0


From 6ceb5ddd0b291748e9b65f7ab229370da709494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:48 +0000
Subject: [PATCH 11/24] fix: let scans find committed long transactions of the
 same epoch

The scan looked only for living write preserves, unlike the point read.
---
 src/concurrency_control/interface/long_tx/helper.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 758d133..c1b1797 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -242,14 +242,8 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    // it also finds the ltx which has the same epoch and was committed
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From d005bfb1af07b4d462b71c5ac78ae5a172cad49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:02 +0000
Subject: [PATCH 12/24] fix: close_scan checks the handle before it closes an
 iterator-based scan

The iterator of another session's scan was closed although the call was rejected.
---
 src/concurrency_control/interface/scan/close_scan.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/close_scan.cpp b/src/concurrency_control/interface/scan/close_scan.cpp
index 569ae31..dd0db4d 100644
--- a/src/concurrency_control/interface/scan/close_scan.cpp
+++ b/src/concurrency_control/interface/scan/close_scan.cpp
@@ -28,9 +28,8 @@ static Status close_scan_body(Token const token, ScanHandle const handle) { // N
 static Status close_scan_body_iscan(Token const token, ScanHandle const handle) { // NOLINT
     auto* ti = static_cast<session*>(token);
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
-    auto* sc = static_cast<scan_context*>(handle);
-    if (sc->get_ycontext_ref()) { yakushima::iscan_close(sc->get_ycontext_ref()); }
-    return ti->get_scan_handle().delete_scan_context(sc);
+    // the destructor of scan_context closes the yakushima's scan
+    return ti->get_scan_handle().delete_scan_context(static_cast<scan_context*>(handle));
 }
 
 Status close_scan(Token const token, ScanHandle const handle) { // NOLINT
-- 
2.43.0


From b6624a9ce92f9afabc884feb7cecbda37e0355b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:02 +0000
Subject: [PATCH 13/24] fix: abort after a failed phantom check takes back the
 inserted placeholder

Insert and upsert aborted before the new record was known to the write set,
so the placeholder stayed in the index for ever.
---
 src/concurrency_control/interface/insert.cpp | 2 ++
 src/concurrency_control/interface/upsert.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index b0a887c..0c3baf5 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -55,6 +55,8 @@ static inline Status insert_process(session* const ti, Storage st,
                  * because the previous scan was destroyed by an insert
                  * by another transaction.
                  */
+                // abort has to take back the placeholder, too
+                ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
                 abort_insert(ti);
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_reason_code(
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 96f2785..ef77a21 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -56,6 +56,8 @@ static inline Status insert_process(session* const ti, Storage st,
                  * because the previous scan was destroyed by an insert
                  * by another transaction.
                  */
+                // abort has to take back the placeholder, too
+                ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 abort_update(ti);
                 std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
                 ti->get_result_info().set_reason_code(
-- 
2.43.0


From a2e2e4e2ce138abceb8eab82a2fff3dfc6e65f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:05 +0000
Subject: [PATCH 14/24] fix: order sequence updates by the epoch of their
 commit

A long transaction has an old epoch. Its sequence update was recorded
and logged with that epoch, below updates committed in the meantime with
smaller versions, and was lost.
---
 src/concurrency_control/session.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index dba69d4..24505d1 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -50,6 +50,10 @@ void session::commit_sequence(tid_word ctid) {
     // gc after write lock
     sequence::gc_sequence_map();
 
+    // updates are ordered by this lock. ctid of a long tx is older than the
+    // updates which were committed while it was running.
+    auto epoch = std::max(ctid.get_epoch(), epoch::get_global_epoch());
+
 #ifdef PWAL
     std::vector<shirakami::lpwal::log_record> log_recs{};
 #endif
@@ -58,8 +62,7 @@ void session::commit_sequence(tid_word ctid) {
         SequenceVersion version = std::get<0>(itr->second);
         SequenceValue value = std::get<1>(itr->second);
         // check update sequence object
-        auto ret = sequence::sequence_map_find_and_verify(ctid.get_epoch(), id,
-                                                          version);
+        auto ret = sequence::sequence_map_find_and_verify(epoch, id, version);
         if (ret == Status::WARN_ILLEGAL_OPERATION ||
             ret == Status::WARN_NOT_FOUND) {
             // fail
@@ -87,12 +90,11 @@ void session::commit_sequence(tid_word ctid) {
         log_operation lo{log_operation::UPSERT};
         // log to local to reduce contention for locks
         log_recs.emplace_back(shirakami::lpwal::log_record(
-                lo, lpwal::write_version_type(ctid.get_epoch(), version),
+                lo, lpwal::write_version_type(epoch, version),
                 storage::sequence_storage, key, new_value, {}));
 #endif
 
         // update sequence object
-        auto epoch = ctid.get_epoch();
         ret = sequence::sequence_map_update(id, epoch, version, value);
         if (ret != Status::OK) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
-- 
2.43.0


From c86f3d49bc376596197d966639455d05ad2bc845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:05 +0000
Subject: [PATCH 15/24] fix: delete_storage rejects internal storages

The storage was physically deleted before the missing name was noticed.
---
 src/concurrency_control/interface/storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 7858f2d..edfef99 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -135,6 +135,11 @@ Status create_storage(std::string_view key, Storage& storage,
 }
 
 static Status delete_storage_body(Storage const storage) {
+    if (storage == storage::meta_storage ||
+        storage == storage::sequence_storage) {
+        // internal storages are not for users
+        return Status::WARN_INVALID_HANDLE;
+    }
     std::lock_guard<std::shared_mutex> lk{storage::get_mtx_key_handle_map()};
     auto ret = storage::delete_storage(storage);
     if (ret != Status::OK) { return ret; }
-- 
2.43.0


From 12dcbd3248e56d92e4305d2846b21c2c692053d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:05 +0000
Subject: [PATCH 16/24] fix: write operations of one transaction exclude its
 other operations

Entries of the local write set are changed in place. Threads which share
a transaction read torn values or entries that were moved by the growth
of the set. upsert did not exclude commit and abort either.
---
 src/concurrency_control/interface/delete.cpp | 4 ++--
 src/concurrency_control/interface/insert.cpp | 4 ++--
 src/concurrency_control/interface/update.cpp | 4 ++--
 src/concurrency_control/interface/upsert.cpp | 8 +++++++-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index ee6940a..7446e21 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -189,8 +189,8 @@ Status delete_record(Token token, Storage storage, const std::string_view key) {
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
     Status ret{};
-    { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+    { // for strand: exclude other data accesses to the local write set
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // delete record body check warn not begin for strand
         ret = delete_record_body(token, storage, key);
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 0c3baf5..fc8d5be 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -204,8 +204,8 @@ Status insert(Token const token, Storage const storage, // NOLINT
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
     Status ret{};
-    { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+    { // for strand: exclude other data accesses to the local write set
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // insert_body check warn not begin
         ret = insert_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index 2381c54..b44b1b1 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -128,8 +128,8 @@ Status update(Token token, Storage storage,
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
     Status ret{};
-    { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+    { // for strand: exclude other data accesses to the local write set
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // update_body check termation by concurrent strand
         ret = update_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ef77a21..dfd5e8d 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -177,7 +177,13 @@ Status upsert(Token token, Storage storage, std::string_view const key,
                         << " " << span_printer(blobs_data, blobs_size);
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
-    auto ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    Status ret{};
+    { // for strand: exclude other data accesses to the local write set
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+
+        // upsert_body check warn not begin
+        ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    }
     ti->process_before_finish_step();
     shirakami_log_exit << "upsert, Status: " << ret;
     return ret;
-- 
2.43.0


From 1d07c4534eeaee0ba6c7b853f90ed2e60a3c2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:05 +0000
Subject: [PATCH 17/24] fix: keep the state of a transaction terminated before
 its start

check_tx_state reported an aborted long transaction as waiting start.
---
 src/concurrency_control/transaction_state.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..7fe09ee 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -138,11 +138,8 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
             return Status::ERR_FATAL;
 #endif
         }
-    } else {
-        ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
-        out.set_kind(TxState::StateKind::WAITING_START); // for external
     }
-
+    // else: it is still waiting start, or was terminated before its start
 
     return Status::OK;
 }
-- 
2.43.0


From 2c83684b43ed2c80343a8ce2c0613fd073a67414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:19 +0000
Subject: [PATCH 18/24] fix: keep gc away from records a short transaction
 upserts

A long transaction with an old epoch may delete such a record before the
short transaction commits. The record was unhooked in the meantime, and
the commit reached the paths marked unreachable: it released a lock it did
not hold, or locked one record twice and never ended.
---
 src/concurrency_control/interface/upsert.cpp | 25 ++++++++------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index dfd5e8d..c28e636 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -136,24 +136,19 @@ static Status upsert_body(
                 return Status::OK;
             }
             if (rc == Status::WARN_ALREADY_EXISTS) {
-                if (ti->get_tx_type() ==
-                    transaction_options::transaction_type::LONG) {
-                    /**
-                     * High priori ltx may delete the record with its old epoch
-                     * before this tx commits. Block gc by tombstone count.
-                     */
-                    rec_ptr->get_tidw_ref().lock();
-                    if (rec_ptr->get_tidw_ref().get_absent()) {
-                        rec_ptr->get_tidw_ref().unlock();
-                        continue; // deleted concurrently
-                    }
-                    ++rec_ptr->get_shared_tombstone_count();
+                /**
+                 * Concurrent ltx may delete the record with its old epoch
+                 * before this tx commits. Block gc by tombstone count.
+                 */
+                rec_ptr->get_tidw_ref().lock();
+                if (rec_ptr->get_tidw_ref().get_absent()) {
                     rec_ptr->get_tidw_ref().unlock();
-                    ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
-                    return Status::OK;
+                    continue; // deleted concurrently
                 }
+                ++rec_ptr->get_shared_tombstone_count();
+                rec_ptr->get_tidw_ref().unlock();
                 // prepare update
-                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, false, std::move(lobs)});
+                ti->push_to_write_set({storage, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
                 return Status::OK;
             }
             if (rc == Status::WARN_CONCURRENT_INSERT) { continue; } // else
-- 
2.43.0


From a8038f878f3179d90df629da210643970e2c4532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:52 +0000
Subject: [PATCH 19/24] fix: serialize storage and sequence registration in
 parallel recovery

Recovery threads changed the sequence map without a lock, and two threads
which registered the same storage at the same time ended in a fatal error.
---
 src/datastore/limestone/datastore.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..7b2fa0e 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -49,7 +49,8 @@ static void recovery_storage_meta(std::vector<Storage>& st_list) {
     }
 }
 
-static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor) {
+static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor,
+                                 std::mutex& mtx_meta) {
     /**
      * The cursor point the first entry at calling first next().
      */
@@ -101,6 +102,7 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
         };
         // check storage
         if (st == storage::meta_storage) {
+            std::lock_guard lk_meta{mtx_meta};
             // recovery storage. The storage may have not been operated.
             Storage st2{};
             if (val.size() < (sizeof(st2) + sizeof(storage_option::id_t))) {
@@ -170,12 +172,14 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            std::lock_guard lk_meta{mtx_meta};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
             }
         } else {
             if (st != prev_st) {
+                std::lock_guard lk_meta{mtx_meta};
                 shirakami::storage::register_storage(st); // maybe already exist
                 st_list.emplace_back(st);
             }
@@ -195,12 +199,13 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
 void recovery_from_datastore(std::size_t thread_num) {
     auto ss = get_snapshot(get_datastore());
 
+    std::mutex mtx_meta; // for storage and sequence information
     std::mutex mtx; // for following two variables
     std::vector<Storage> st_list{};
     SequenceId max_id{0};
 
-    auto recovery_work = [&mtx, &st_list, &max_id](std::unique_ptr<limestone::api::cursor> cursor){
-        auto [max_id_1, st_list_1] = recovery_from_cursor(std::move(cursor));
+    auto recovery_work = [&mtx, &mtx_meta, &st_list, &max_id](std::unique_ptr<limestone::api::cursor> cursor){
+        auto [max_id_1, st_list_1] = recovery_from_cursor(std::move(cursor), mtx_meta);
         std::lock_guard lk{mtx};
         max_id = std::max(max_id, max_id_1);
         st_list.insert(st_list.end(), st_list_1.begin(), st_list_1.end());
-- 
2.43.0


From be5e4ab9f0e9da97426acaa15a872c62cb742fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:06 +0000
Subject: [PATCH 20/24] fix: detect a concurrent commit which replaced a
 collected record

A short transaction read a deleted record, gc unhooked it, and another
transaction inserted the key again. The verification let the new record
pass while its writer held the lock, though the writer may have exposed
its other writes already.
---
 .../interface/short_tx/termination.cpp         | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 92d3d7b..b2a7917 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -201,11 +201,19 @@ static Status read_verify(session* ti, tid_word read_tid, tid_word check,
         if (rc == Status::OK && rec_ptr2 != rec_ptr) {
             // another record is inserted at the same location (key) on yakushima
 
-            // allow if rec_ptr2 is inserting record
-            tid_word check2{};
-            std::string unused{};
-            auto rr = read_record(rec_ptr2, check2, unused, false);
-            if (rr == Status::WARN_CONCURRENT_INSERT) { return Status::OK; }
+            tid_word check2{loadAcquire(rec_ptr2->get_tidw_ref().get_obj())};
+            while (check2.get_lock_by_gc()) {
+                _mm_pause();
+                check2.get_obj() =
+                        loadAcquire(rec_ptr2->get_tidw_ref().get_obj());
+            }
+            // allow if rec_ptr2 is inserting record, but the owner of the lock
+            // may have exposed a part of its writes already
+            if (check2.get_latest() && check2.get_absent() &&
+                (!check2.get_lock() ||
+                 ti->get_write_set().search(rec_ptr2) != nullptr)) {
+                return Status::OK;
+            }
 
             // the record is modified
             return Status::ERR_CC;
-- 
2.43.0


From 358ef8843cde58526ac9739c5968263864ad8296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:02:26 +0000
Subject: [PATCH 21/24] fix: versions of aborted insertions do not repeat
 earlier ones

Aborting an insertion into a deleted record dropped parts of the version
of the deletion. A later commit in the same epoch could produce that
version again, so that a transaction which had read the deletion did not
notice the insertion and overwrote it. Long and short transactions may use
equal numbers, too, so compare also the kind of the writer.
---
 src/concurrency_control/interface/long_tx/termination.cpp  | 2 ++
 src/concurrency_control/interface/short_tx/termination.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 46f13f3..af297e9 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -65,6 +65,8 @@ static inline void cancel_flag_inserted_records(session* const ti) {
                     tid.set_latest(false);
                     tid.set_lock(false);
                     tid.set_epoch(check.get_epoch());
+                    tid.set_tid(check.get_tid());
+                    tid.set_by_short(check.get_by_short());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso.get_storage());
                 } else {
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b2a7917..56e1474 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -139,6 +139,7 @@ static void change_inserting_records_state(session* const ti) {
                     tid.set_lock(false);
                     tid.set_epoch(check.get_epoch());
                     tid.set_tid(check.get_tid());
+                    tid.set_by_short(check.get_by_short());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso_ptr->get_storage());
                 } else {
@@ -186,6 +187,8 @@ static Status read_verify(session* ti, tid_word read_tid, tid_word check,
             read_tid.get_tid() != check.get_tid() ||
             // different epoch
             read_tid.get_epoch() != check.get_epoch() ||
+            // different kind of writer
+            read_tid.get_by_short() != check.get_by_short() ||
             // locked and it's not own.
             (check.get_lock() &&
              ti->get_write_set().search(rec_ptr) == nullptr)) {
-- 
2.43.0


From 4a287a3fe524498f8d769436a0c4962c62615ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:56 +0000
Subject: [PATCH 22/24] fix: gc respects read only transactions in the middle
 of begin

A read only transaction which had got its epoch but had not finished begin
was invisible to the computation of the collectable epoch, and the safe
snapshot epoch was read after looking for transactions. Versions it had to
read were collected.
---
 src/concurrency_control/garbage.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index ccb7e6b..1b16397 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -7,6 +7,7 @@
 
 #include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/garbage.h"
+#include "concurrency_control/include/ongoing_tx.h"
 #include "concurrency_control/include/session.h"
 #include "concurrency_control/include/wp.h"
 
@@ -88,6 +89,9 @@ void work_manager() {
         epoch::epoch_t min_begin_epoch{epoch::max_epoch}; // for occ
         // computing about short
         epoch::epoch_t before_loop{epoch::get_global_epoch()};
+        // read before looking for living ltx and rtx: who comes later does not
+        // read below this.
+        auto csse = epoch::get_cc_safe_ss_epoch();
         epoch::epoch_t valid_epoch{0};
         for (auto&& se : session_table::get_session_table()) {
             if (se.get_visible() && se.get_tx_began()) {
@@ -126,12 +130,19 @@ void work_manager() {
             VLOG(log_debug) << log_location_prefix << "min_begin_epoch back from " << old << " to " << min_begin_epoch << " (ignored)";
         }
         // computing about ltx
+        {
+            // ltx and rtx in the middle of begin have their epoch already
+            std::shared_lock<std::shared_mutex> lk{ongoing_tx::get_mtx()};
+            for (auto&& elem : ongoing_tx::get_tx_info()) {
+                auto ve = std::get<ongoing_tx::index_epoch>(elem);
+                if (valid_epoch == 0 || ve < valid_epoch) { valid_epoch = ve; }
+            }
+        }
         if (valid_epoch != 0) {
             // exist some ltx
-            auto csse = epoch::get_cc_safe_ss_epoch();
             set_min_batch_epoch(std::min(csse, valid_epoch));
         } else {
-            set_min_batch_epoch(epoch::get_cc_safe_ss_epoch());
+            set_min_batch_epoch(csse);
         }
 #ifdef PWAL
         switch_available_boundary_version(shirakami::datastore::get_datastore(), std::min(get_min_begin_epoch(), get_min_batch_epoch()));
-- 
2.43.0


From 83f4bb3911bc06c658e18da15f48da031bc03f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:46:18 +0000
Subject: [PATCH 23/24] fix: register overtaken ltx before the safe snapshot
 epoch can pass them

---
 src/concurrency_control/include/wp.h                 | 2 ++
 src/concurrency_control/interface/long_tx/helper.cpp | 7 +++++++
 src/concurrency_control/wp.cpp                       | 6 ------
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/concurrency_control/include/wp.h b/src/concurrency_control/include/wp.h
index 15e9a55..be62955 100644
--- a/src/concurrency_control/include/wp.h
+++ b/src/concurrency_control/include/wp.h
@@ -85,6 +85,8 @@ inline Storage page_set_meta_storage{initial_page_set_meta_storage};
  * @param[in] wp_meta_ptr wp information.
  * @param[in] wps wp information.
  * @param[in] key key information.
+ * @pre the caller holds the mutex of the overtaken ltx set of @a ti from before
+ * it got @a wps.
  */
 void extract_higher_priori_ltx_info(session* ti, wp_meta* wp_meta_ptr,
                                     wp_meta::wped_type const& wps,
diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index c1b1797..1e68bc4 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -236,11 +236,18 @@ Status version_function_with_optimistic_check(Record* rec, epoch::epoch_t ep,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
                               const std::string_view read_key) {
+    /**
+     * The epoch manager must not see the state in which a ltx found here has
+     * finished and it is not registered as overtaken ltx yet.
+     */
+    std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
     auto wps = wp_meta_ptr->get_wped();
     wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps, read_key);
 }
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
+    // same as above
+    std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
     auto wps = wp_meta_ptr->get_wped();
     // it also finds the ltx which has the same epoch and was committed
     wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
diff --git a/src/concurrency_control/wp.cpp b/src/concurrency_control/wp.cpp
index fb655b7..363894c 100644
--- a/src/concurrency_control/wp.cpp
+++ b/src/concurrency_control/wp.cpp
@@ -27,9 +27,6 @@ void extract_higher_priori_ltx_info(session* const ti,
     // undefined hit process
     auto undefined_hit_process = [ti, wp_meta_ptr,
                                   key](std::size_t against_id) {
-        // get mutex for strand
-        std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
-
         /**
          * If this is the first forwarding against this table,
          * initialize read range.
@@ -98,9 +95,6 @@ void extract_higher_priori_ltx_info(session* const ti,
                                     wp_meta::wped_type const& wps) {
     // undefined hit process
     auto undefined_hit_process = [ti, wp_meta_ptr](std::size_t against_id) {
-        // get mutex
-        std::lock_guard<std::shared_mutex> lk{ti->get_mtx_overtaken_ltx_set()};
-
         /**
          * If this is the first forwarding against this table,
          * initialize read range.
-- 
2.43.0


From 0d477b7763c9bf4b2f67b6da450521af996501f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:46 +0000
Subject: [PATCH 24/24] fix: keep the callback of a pending commit when commit
 is called again

---
 .../interface/termination.cpp                    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..1bec327 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -69,6 +69,15 @@ static Status commit_body(Token const token,                    // NOLINT
         return Status::WARN_NOT_BEGIN;
     }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested. The callback of that request must be kept.
+         * So user must use check_commit function to check result.
+         */
+        return Status::WARN_WAITING_FOR_OTHER_TX;
+    }
+
     // log callback
     ti->set_commit_callback(std::move(callback)); // NOLINT
 
@@ -86,13 +95,6 @@ static Status commit_body(Token const token,                    // NOLINT
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
         // for long tx
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_WAITING_FOR_OTHER_TX;
-        }
         rc = long_tx::commit(ti);
 
         // set about diagnostics
-- 
2.43.0


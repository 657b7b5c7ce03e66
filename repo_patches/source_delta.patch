From 0018fda4c2f1a2aafd85c94c5b36c9651a5e9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 01/28] fix: verify what short tx observed against write
 preserve

A short tx verified write preserve only for the storages in its read set.
Absent keys, ranges and the existence observed by insert, update and
delete were not verified, so it could commit across a long tx.
---
 src/concurrency_control/include/session.h     |  9 ++--
 .../interface/scan/open_scan.cpp              |  2 +-
 .../interface/short_tx/include/short_tx.h     | 11 +++++
 .../interface/short_tx/search.cpp             | 47 +++++++++++--------
 .../interface/short_tx/termination.cpp        | 40 +++++++++++++++-
 5 files changed, 85 insertions(+), 24 deletions(-)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 4bc46ed..855796e 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -37,7 +37,9 @@ namespace shirakami {
 
 class alignas(CACHE_LINE_SIZE) session {
 public:
-    using range_read_by_short_set_type = std::set<range_read_by_short*>;
+    // map <key, value>: key is range read information, value is its storage
+    using range_read_by_short_set_type =
+            std::map<range_read_by_short*, Storage>;
     using read_set_for_stx_type = std::vector<read_set_obj>;
     using wp_set_type = std::vector<std::pair<Storage, wp::wp_meta*>>;
     /**
@@ -441,11 +443,12 @@ public:
         get_range_read_by_short_set().clear();
     }
 
-    void push_to_range_read_by_short_set(range_read_by_short* rrbs) {
+    void push_to_range_read_by_short_set(range_read_by_short* rrbs,
+                                         Storage const st) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{
                 get_mtx_range_read_by_short_set()};
-        get_range_read_by_short_set().insert(rrbs);
+        get_range_read_by_short_set().emplace(rrbs, st);
     }
 
     void clear_read_set_for_stx() {
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 8f4363a..84ddfc3 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -273,7 +273,7 @@ static Status open_scan_precheck(
             return Status::ERR_FATAL;
         }
         range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        ti->push_to_range_read_by_short_set(rrbs, storage);
     } else if (ti->get_tx_type() !=
                transaction_options::transaction_type::READ_ONLY) {
         LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/concurrency_control/interface/short_tx/include/short_tx.h b/src/concurrency_control/interface/short_tx/include/short_tx.h
index fd0c032..ad21b95 100644
--- a/src/concurrency_control/interface/short_tx/include/short_tx.h
+++ b/src/concurrency_control/interface/short_tx/include/short_tx.h
@@ -13,6 +13,17 @@ extern Status abort(session* ti);
 
 extern Status commit(session* ti);
 
+/**
+ * @brief register the read which finds no entry at index.
+ * @return Status::OK success.
+ * @return Status::ERR_CC phantom was detected, and the tx was aborted.
+ * @return Status::ERR_FATAL programming error.
+ */
+extern Status
+register_not_found(session* ti, Storage storage,
+                   std::pair<yakushima::node_version64_body,
+                             yakushima::node_version64*> const& checked_version);
+
 extern Status search_key(session* ti, Storage storage, std::string_view key,
                          std::string& value, bool read_value = true); // NOLINT
 
diff --git a/src/concurrency_control/interface/short_tx/search.cpp b/src/concurrency_control/interface/short_tx/search.cpp
index 04018d6..0bf6f87 100644
--- a/src/concurrency_control/interface/short_tx/search.cpp
+++ b/src/concurrency_control/interface/short_tx/search.cpp
@@ -32,6 +32,32 @@ static inline Status wp_verify(session* const ti, Storage const st) {
     return Status::OK;
 }
 
+Status register_not_found(
+        session* ti, Storage const storage,
+        std::pair<yakushima::node_version64_body,
+                  yakushima::node_version64*> const& checked_version) {
+    // read protection for concurrent occ
+    auto rc_ns = ti->get_node_set().emplace_back(checked_version);
+    if (rc_ns == Status::ERR_CC) {
+        short_tx::abort(ti);
+        std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+        ti->get_result_info().set_storage_name(storage);
+        ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+        return Status::ERR_CC;
+    }
+
+    // read protection for low priori ltx
+    wp::page_set_meta* psm{};
+    auto rc_fpsm{wp::find_page_set_meta(storage, psm)};
+    if (rc_fpsm == Status::WARN_NOT_FOUND) {
+        LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
+        return Status::ERR_FATAL;
+    }
+    range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
+    ti->push_to_range_read_by_short_set(rrbs, storage);
+    return Status::OK;
+}
+
 Status search_key(session* ti, Storage const storage,
                   std::string_view const key, std::string& value,
                   bool const read_value) {
@@ -45,25 +71,8 @@ Status search_key(session* ti, Storage const storage,
             checked_version{};
     rc = get<Record>(storage, key, rec_ptr, &checked_version);
     if (rc != Status::OK) {
-        // read protection for concurrent occ
-        auto rc_ns = ti->get_node_set().emplace_back(checked_version);
-        if (rc_ns == Status::ERR_CC) {
-            short_tx::abort(ti);
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_storage_name(storage);
-            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-            return Status::ERR_CC;
-        }
-
-        // read protection for low priori ltx
-        wp::page_set_meta* psm{};
-        auto rc_fpsm{wp::find_page_set_meta(storage, psm)};
-        if (rc_fpsm == Status::WARN_NOT_FOUND) {
-            LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
-            return Status::ERR_FATAL;
-        }
-        range_read_by_short* rrbs{psm->get_range_read_by_short_ptr()};
-        ti->push_to_range_read_by_short_set(rrbs);
+        auto rc_reg = register_not_found(ti, storage, checked_version);
+        if (rc_reg != Status::OK) { return rc_reg; }
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index b033e04..a149d2b 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -231,6 +231,24 @@ static Status wp_verify(Storage const st, epoch::epoch_t const commit_epoch) {
     return Status::OK;
 }
 
+/**
+ * @brief apply @a process to the writes whose operation observed the existence
+ * of the entry. i.e. insert, update, delete. Upsert doesn't depend on it.
+ */
+template<class F>
+static void process_existence_observed_writes(session* const ti, F&& process) {
+    std::shared_lock<std::shared_mutex> lk{ti->get_write_set().get_mtx()};
+    if (ti->get_write_set().get_for_batch()) {
+        for (auto&& itr : ti->get_write_set().get_ref_cont_for_bt()) {
+            if (itr.second.get_op() != OP_TYPE::UPSERT) { process(itr.second); }
+        }
+    } else {
+        for (auto&& itr : ti->get_write_set().get_ref_cont_for_occ()) {
+            if (itr.get_op() != OP_TYPE::UPSERT) { process(itr); }
+        }
+    }
+}
+
 static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
                              tid_word& commit_tid) {
     tid_word check{};
@@ -266,6 +284,21 @@ static Status read_wp_verify(session* const ti, epoch::epoch_t ce,
         commit_tid = std::max(check, commit_tid);
     }
 
+    // log storage whose range or absent key was read. It may have no element in
+    // the read set.
+    {
+        std::shared_lock<std::shared_mutex> lk{
+                ti->get_mtx_range_read_by_short_set()};
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            accessed_st.emplace_back(itr.second);
+        }
+    }
+
+    // log storage whose entry existence was observed by write operation.
+    process_existence_observed_writes(ti, [&accessed_st](write_set_obj& wso) {
+        accessed_st.emplace_back(wso.get_storage());
+    });
+
     // wp verify
     // reduce redundat
     std::sort(accessed_st.begin(), accessed_st.end());
@@ -685,6 +718,9 @@ static void register_point_read_by_short(session* const ti) {
     for (auto&& itr : ti->get_read_set_for_stx()) {
         recs.insert(itr.get_rec_ptr());
     }
+    process_existence_observed_writes(ti, [&recs](write_set_obj& wso) {
+        recs.insert(wso.get_rec_ptr());
+    });
 
     for (auto&& itr : recs) {
         auto& ro{itr->get_read_by()};
@@ -699,7 +735,9 @@ static void register_range_read_by_short(session* const ti) {
         //take read lock
         std::shared_lock<std::shared_mutex> lk{
                 ti->get_mtx_range_read_by_short_set()};
-        for (auto&& itr : ti->get_range_read_by_short_set()) { itr->push(ce); }
+        for (auto&& itr : ti->get_range_read_by_short_set()) {
+            itr.first->push(ce);
+        }
     }
 }
 
-- 
2.43.0


From 7334cd599d78264700a16c384bd3a3d8af0f9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 02/28] fix: register the existence observed by write
 operations

A long tx decided the existence by the latest version instead of the
version of its order. A short tx did not register update and delete which
found no entry as a read.
---
 src/concurrency_control/interface/delete.cpp      | 13 ++++++++++---
 src/concurrency_control/interface/helper.cpp      | 13 +++++++++++++
 .../interface/include/helper.h                    |  9 +++++++++
 src/concurrency_control/interface/insert.cpp      | 15 ++++++++++++---
 src/concurrency_control/interface/update.cpp      | 13 ++++++++++---
 5 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 783e75e..3c861a2 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -8,6 +8,7 @@
 #include "concurrency_control/include/wp.h"
 #include "concurrency_control/interface/include/helper.h"
 #include "concurrency_control/interface/long_tx/include/long_tx.h"
+#include "concurrency_control/interface/short_tx/include/short_tx.h"
 #include "database/include/logging.h"
 #include "index/yakushima/include/interface.h"
 
@@ -137,23 +138,29 @@ static Status delete_record_body(Token token, Storage storage,
 
     // index access to check local write set
     Record* rec_ptr{};
-    rc = get<Record>(storage, key, rec_ptr);
+    std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+            checked_version{};
+    rc = get<Record>(storage, key, rec_ptr, &checked_version);
     if (Status::OK == rc) {
         // check local write
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
         if (in_ws != nullptr) { return process_after_write(ti, in_ws); }
         // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
+        if (!exists_for_write(ti, storage, rec_ptr)) {
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
+
         // prepare write
         ti->push_to_write_set({storage, OP_TYPE::DELETE, rec_ptr}); // NOLINT
         register_read_if_ltx(ti, rec_ptr);
         return Status::OK;
     }
     if (rc == Status::WARN_NOT_FOUND) {
+        if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+            rc = short_tx::register_not_found(ti, storage, checked_version);
+            if (rc != Status::OK) { return rc; }
+        }
         process_before_return_not_found(ti, storage, key);
         return Status::WARN_NOT_FOUND;
     }
diff --git a/src/concurrency_control/interface/helper.cpp b/src/concurrency_control/interface/helper.cpp
index e10881f..4a87b8e 100644
--- a/src/concurrency_control/interface/helper.cpp
+++ b/src/concurrency_control/interface/helper.cpp
@@ -235,6 +235,19 @@ Status try_deleted_to_inserting(Storage st, std::string_view key,
     return Status::OK;
 }
 
+bool exists_for_write(session* const ti, Storage const st,
+                      Record* const rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        std::string unused{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, unused, false) ==
+               Status::OK;
+    }
+    tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+    if (!tid.get_absent()) { return true; }
+    ti->push_to_read_set_for_stx({st, rec_ptr, tid});
+    return false;
+}
+
 #ifndef PWAL
 void* get_datastore() { return nullptr; }
 #endif
diff --git a/src/concurrency_control/interface/include/helper.h b/src/concurrency_control/interface/include/helper.h
index 5d7e937..c9c3d50 100644
--- a/src/concurrency_control/interface/include/helper.h
+++ b/src/concurrency_control/interface/include/helper.h
@@ -49,4 +49,13 @@ check_constraint_key_length(std::string_view key);
                                                         Record* rec_ptr,
                                                         tid_word& found_tid);
 
+/**
+ * @brief check whether the entry exists from the view of the tx which is going
+ * to write it.
+ * @details Ltx looks at the version of its order. If stx finds that the entry
+ * is absent, it is registered as read for commit verify.
+ */
+[[maybe_unused]] extern bool exists_for_write(session* ti, Storage st,
+                                              Record* rec_ptr);
+
 } // namespace shirakami
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index 719fc38..efcab8d 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -124,6 +124,14 @@ static Status insert_body(
                 }
             }
 
+            // ltx looks at the version of its order
+            const bool is_ltx{ti->get_tx_type() ==
+                              transaction_options::transaction_type::LONG};
+            if (is_ltx && exists_for_write(ti, storage, rec_ptr)) {
+                register_read_if_ltx(ti, rec_ptr);
+                return Status::WARN_ALREADY_EXISTS;
+            }
+
             tid_word found_tid{};
             rc = try_deleted_to_inserting(storage, key, rec_ptr, found_tid);
             if (rc == Status::OK) { // ok already count up tombstone count
@@ -142,10 +150,11 @@ static Status insert_body(
                 if (ti->get_tx_type() ==
                     transaction_options::transaction_type::SHORT) {
                     ti->push_to_read_set_for_stx({storage, rec_ptr, found_tid});
-                } else if (ti->get_tx_type() ==
-                           transaction_options::transaction_type::LONG) {
-                    // register read_by_set
+                } else if (is_ltx) {
+                    // the entry was written by tx ordered after this tx.
+                    ti->push_to_write_set({storage, OP_TYPE::INSERT, rec_ptr, val, false, std::move(lobs)});
                     register_read_if_ltx(ti, rec_ptr);
+                    return Status::OK;
                 } else {
                     LOG_FIRST_N(ERROR, 1) << log_location_prefix
                                           << "library programming error";
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index cb4c6b7..d7c31b7 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -70,7 +70,10 @@ static Status update_body(
 
     // index access to check local write set
     Record* rec_ptr{};
-    if (Status::OK == get<Record>(storage, key, rec_ptr)) {
+    std::pair<yakushima::node_version64_body, yakushima::node_version64*>
+            checked_version{};
+    rc = get<Record>(storage, key, rec_ptr, &checked_version);
+    if (Status::OK == rc) {
         // check local write
         write_set_obj* in_ws{ti->get_write_set().search(rec_ptr)}; // NOLINT
         if (in_ws != nullptr) {
@@ -83,8 +86,7 @@ static Status update_body(
         }
 
         // check absent
-        tid_word ctid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
-        if (ctid.get_absent()) {
+        if (!exists_for_write(ti, storage, rec_ptr)) {
             process_before_return_not_found(ti, storage, key);
             return Status::WARN_NOT_FOUND;
         }
@@ -94,6 +96,11 @@ static Status update_body(
         register_read_if_ltx(ti, rec_ptr);
         return Status::OK;
     }
+    if (rc == Status::WARN_NOT_FOUND &&
+        ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        rc = short_tx::register_not_found(ti, storage, checked_version);
+        if (rc != Status::OK) { return rc; }
+    }
     process_before_return_not_found(ti, storage, key);
     return Status::WARN_NOT_FOUND;
 }
-- 
2.43.0


From 110a6fe7c1009eda6a96deb8b6416bb17415a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 03/28] fix: verify canceled insert and upsert at commit

Deleting an own insert dropped the write set element, and nobody verified
that the key was absent. It also used the element after erasing it.
---
 src/concurrency_control/interface/delete.cpp | 25 +++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index 3c861a2..b72fbe9 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -53,11 +53,29 @@ static void register_read_if_ltx(session* const ti, Record* const rec_ptr) {
     }
 }
 
+/**
+ * @brief The write set doesn't have the canceled write, so the observed
+ * non-existence must be verified by read set.
+ */
+static void register_canceled_write_if_stx(session* const ti, Storage const st,
+                                           Record* const rec_ptr) {
+    if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
+        tid_word tid{loadAcquire(rec_ptr->get_tidw_ref().get_obj())};
+        if (!tid.get_absent()) {
+            // someone already inserted. verify must fail
+            tid.reset();
+        }
+        ti->push_to_read_set_for_stx({st, rec_ptr, tid});
+    }
+}
+
 static inline Status process_after_write(session* ti, write_set_obj* wso) {
     if (wso->get_op() == OP_TYPE::INSERT) {
         cancel_insert_if_tomb_stone(wso);
         Storage st = wso->get_storage();
+        Record* rec_ptr = wso->get_rec_ptr();
         ti->get_write_set().erase(wso);
+        register_canceled_write_if_stx(ti, st, rec_ptr);
         garbage::set_dirty(st);
         // insert operation already registered read non-existence for ltx
         return Status::WARN_CANCEL_PREVIOUS_INSERT;
@@ -84,7 +102,12 @@ static inline Status process_after_write(session* ti, write_set_obj* wso) {
         if (!rc) {
             // if this was update
             ti->push_to_write_set({st, OP_TYPE::DELETE, rec_ptr}); // NOLINT
-            register_read_if_ltx(ti, wso->get_rec_ptr());
+        } else {
+            register_canceled_write_if_stx(ti, st, rec_ptr);
+        }
+        if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+            exists_for_write(ti, st, rec_ptr);
+            register_read_if_ltx(ti, rec_ptr);
         }
         garbage::set_dirty(st);
         return Status::WARN_CANCEL_PREVIOUS_UPSERT;
-- 
2.43.0


From 615ad71f54700368bebdcc5598c672ce47312c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 04/28] fix: protect the nodes of own and skipped records in
 scan

The node of a record which was written by the scanning tx, deleted, or
skipped at the head was not in the node set, so a phantom was missed.
---
 .../interface/scan/next.cpp                   | 17 +++++++-
 .../interface/scan/open_scan.cpp              | 39 +++++++------------
 .../interface/scan/read_kv_from_scan.cpp      | 26 ++++++++++---
 3 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index 66b17ff..e7632a0 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -57,7 +57,22 @@ static Status next_body(Token const token, ScanHandle const handle) { // NOLINT
 
         auto rc = next_check_not_found(ti, st, rec_ptr);
         if (rc == Status::OK) { break; }
-        if (rc == Status::INTERNAL_WARN_NOT_FOUND) { continue; }
+        if (rc == Status::INTERNAL_WARN_NOT_FOUND) {
+            // the record is skipped, but the scanned node must be protected
+            if (ti->get_tx_type() ==
+                transaction_options::transaction_type::SHORT) {
+                auto rc_ns = ti->get_node_set().emplace_back(
+                        {std::get<1>(*itr), std::get<2>(*itr)});
+                if (rc_ns == Status::ERR_CC) {
+                    std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                    ti->get_result_info().set_storage_name(st);
+                    ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                    short_tx::abort(ti);
+                    return Status::ERR_CC;
+                }
+            }
+            continue;
+        }
         return rc;
     }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 84ddfc3..5c7f133 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -360,31 +360,20 @@ static Status open_scan_body(
      */
     std::size_t nvec_delta{0};
     if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
-        if (scan_res.size() < nvec.size()) {
-            auto add_ns = [&ti, &nvec, storage](std::size_t n) {
-                for (std::size_t i = 0; i < n; ++i) {
-                    auto rc = ti->get_node_set().emplace_back(nvec.at(i));
-                    if (rc == Status::ERR_CC) {
-                        short_tx::abort(ti);
-                        std::unique_lock<std::mutex> lk{
-                                ti->get_mtx_result_info()};
-                        ti->get_result_info().set_storage_name(storage);
-                        ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-                        return Status::ERR_CC;
-                    }
-                }
-                return Status::OK;
-            };
-            if (scan_res.size() + 1 == nvec.size()) {
-                nvec_delta = 1;
-                rc = add_ns(1);
-                if (rc == Status::ERR_CC) { return rc; }
-
-
-            } else if (scan_res.size() + 2 == nvec.size()) {
-                nvec_delta = 2;
-                rc = add_ns(2);
-                if (rc == Status::ERR_CC) { return rc; }
+        if (scan_res.size() + 1 == nvec.size()) {
+            nvec_delta = 1;
+        } else if (scan_res.size() + 2 == nvec.size()) {
+            nvec_delta = 2;
+        }
+        // including the nodes of the leading unreadable records
+        for (std::size_t i = 0; i < nvec_delta + head_skip_rec_n; ++i) {
+            rc = ti->get_node_set().emplace_back(nvec.at(i));
+            if (rc == Status::ERR_CC) {
+                short_tx::abort(ti);
+                std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+                ti->get_result_info().set_storage_name(storage);
+                ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+                return Status::ERR_CC;
             }
         }
     }
diff --git a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
index 156fda2..16911b4 100644
--- a/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
+++ b/src/concurrency_control/interface/scan/read_kv_from_scan.cpp
@@ -89,12 +89,31 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         long_tx::update_local_read_range(ti, wp_meta_ptr, key_buf);
     }
 
+    // create node set info, maybe phantom (Status::ERR_CC)
+    auto node_check_and_abort_if_phantom = [ti, st, &node_check]() {
+        auto rc = node_check();
+        if (rc == Status::ERR_CC) {
+            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
+            ti->get_result_info().set_storage_name(st);
+            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
+            short_tx::abort(ti);
+        }
+        return rc;
+    };
+
     /**
      * Check read-own-write
      */
     if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
         const write_set_obj* inws = ti->get_write_set().search(rec_ptr);
         if (inws != nullptr) {
+            // the value is own write, but the scanned node must be protected
+            if (ti->get_tx_type() ==
+                transaction_options::transaction_type::SHORT) {
+                if (node_check_and_abort_if_phantom() == Status::ERR_CC) {
+                    return Status::ERR_CC;
+                }
+            }
             if (inws->get_op() == OP_TYPE::DELETE) {
                 read_register_if_ltx(rec_ptr);
                 return Status::WARN_NOT_FOUND;
@@ -129,12 +148,7 @@ static Status read_from_scan(Token token, ScanHandle handle, bool key_read,
         ti->push_to_read_set_for_stx({st, rec_ptr, tidb});
 
         // create node set info, maybe phantom (Status::ERR_CC)
-        auto rc = node_check();
-        if (rc == Status::ERR_CC) {
-            std::unique_lock<std::mutex> lk{ti->get_mtx_result_info()};
-            ti->get_result_info().set_storage_name(st);
-            ti->set_result(reason_code::CC_OCC_PHANTOM_AVOIDANCE);
-            short_tx::abort(ti);
+        if (node_check_and_abort_if_phantom() == Status::ERR_CC) {
             return Status::ERR_CC;
         } // else: return result about read (rr: read result)
         return rr;
-- 
2.43.0


From 0f83d20e32f6ea3dcae8b204f594c2fa32e475d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 05/28] fix: count tombstones skipped by scan of long tx as
 read versions

A forwarded long tx could be ordered before the deletion it observed.
---
 src/concurrency_control/interface/scan/next.cpp      | 8 ++++++++
 src/concurrency_control/interface/scan/open_scan.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/concurrency_control/interface/scan/next.cpp b/src/concurrency_control/interface/scan/next.cpp
index e7632a0..e099d92 100644
--- a/src/concurrency_control/interface/scan/next.cpp
+++ b/src/concurrency_control/interface/scan/next.cpp
@@ -242,6 +242,14 @@ static Status next_check_not_found(session* ti, Storage st, Record* rec_ptr) {
             }
         }
     }
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // skipping tombstone is also read of the version
+        std::string unused{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, unused, false) ==
+                               Status::OK
+                       ? Status::OK
+                       : Status::INTERNAL_WARN_NOT_FOUND;
+    }
     return Status::INTERNAL_WARN_NOT_FOUND;
 }
 
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 5c7f133..e16d7bc 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -146,6 +146,14 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
             }
         }
     }
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG) {
+        // skipping tombstone is also read of the version
+        std::string unused{};
+        return long_tx::version_traverse_and_read(ti, rec_ptr, unused, false) ==
+                               Status::OK
+                       ? Status::OK
+                       : Status::INTERNAL_WARN_NOT_FOUND;
+    }
     return Status::INTERNAL_WARN_NOT_FOUND;
 }
 
-- 
2.43.0


From 436f8b36cb0d77c29ca154f1d9315c02fc912ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 06/28] fix: keep absent bit of the old version written over by
 long tx

A tombstone in the middle of the version list became an empty value for
older readers.
---
 src/concurrency_control/interface/long_tx/termination.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index a2bd6ce..8f44fe6 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -172,8 +172,7 @@ static inline void expose_local_write(
                     if (wso.get_op() != OP_TYPE::DELETE) { wso.get_value(vb); }
                     version* new_v{new version( // NOLINT
                             vb, rec_ptr->get_latest())};
-                    // prepare tid for old version
-                    pre_tid.set_absent(false);
+                    // prepare tid for old version. keep entry status (existing, deleted)
                     pre_tid.set_latest(false);
                     pre_tid.set_lock(false);
                     // set old version tid
-- 
2.43.0


From 025630c266c43101e8004e1b6169d8794fb20487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 07/28] fix: check all range reads of long tx ordered after the
 writer

Only the reads of just the same epoch were checked, so a forwarded long
tx could insert into the range which a committed long tx had read.
---
 src/concurrency_control/read_by.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index ddac1f5..7ad472d 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -89,7 +89,7 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
     for (auto&& elem : body_) {
         if (ltx_id > std::get<range_read_by_long::index_tx_id>(elem)) {
             // check against higher priori ltxs
-            if (std::get<range_read_by_long::index_epoch>(elem) == ep) {
+            if (ep <= std::get<range_read_by_long::index_epoch>(elem)) {
                 // check the key is right from left point
                 if (std::get<range_read_by_long::index_l_ep>(elem) ==
                             scan_endpoint::INF || // inf
@@ -113,10 +113,6 @@ bool range_read_by_long::is_exist(epoch::epoch_t const ep,
                     }
                 }
             }
-            if (std::get<range_read_by_long::index_epoch>(elem) > ep) {
-                // no more due to invariant
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 996a80c8fd3eceac854cbd216bdb1af4a8e903ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 08/28] fix: finish inserting state when long tx write is not
 the latest

The tombstone stayed inserting forever. Readers always got a concurrent
insert warning and the record was never collected.
---
 .../interface/long_tx/termination.cpp         | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 8f44fe6..f93c145 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -100,8 +100,16 @@ static inline void expose_local_write(
     //bool should_backward{ti->is_write_only_ltx_now()};
     bool should_backward{!ti->get_is_forwarding()};
 
+    // The write which is not the latest doesn't change the latest version. If
+    // that is a tombstone made inserting by this tx and nobody else uses it, it
+    // must go back to deleted.
+    auto is_unused_inserting = [](Record* rec_ptr, tid_word const& tid) {
+        return tid.get_latest() && tid.get_absent() &&
+               rec_ptr->get_shared_tombstone_count() == 0;
+    };
+
     std::unordered_set<Storage> dirty{};
-    auto process = [ti, should_backward, &dirty](
+    auto process = [ti, should_backward, &dirty, &is_unused_inserting](
                            std::pair<Record* const, write_set_obj>& wse,
                            tid_word ctid) {
         auto* rec_ptr = std::get<0>(wse);
@@ -203,6 +211,9 @@ static inline void expose_local_write(
                         // keep entry status (existing, deleted)
                         ctid.set_latest(pre_tid.get_latest());
                         ctid.set_absent(pre_tid.get_absent());
+                        if (is_unused_inserting(rec_ptr, pre_tid)) {
+                            ctid.set_latest(false);
+                        }
                     }
                     // unlock and set ctid
                     rec_ptr->set_tid(ctid);
@@ -251,7 +262,12 @@ static inline void expose_local_write(
                         pre_ver = ver;
                         ver = ver->get_next();
                     }
-                    rec_ptr->get_tidw_ref().unlock();
+                    // unlock
+                    if (is_unused_inserting(rec_ptr, pre_tid)) {
+                        pre_tid.set_latest(false);
+                    }
+                    pre_tid.set_lock(false);
+                    rec_ptr->set_tid(pre_tid);
                 }
                 break;
             }
-- 
2.43.0


From 1e37e2c58fe326ca2fbd8c60a3060b6d2cf75479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 09/28] fix: keep version of tombstone when insert is aborted

The by_short bit was dropped, and a long tx of the same epoch overwrote
the newer deletion.
---
 src/concurrency_control/interface/long_tx/termination.cpp  | 4 ++--
 src/concurrency_control/interface/short_tx/termination.cpp | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index f93c145..cbc16d7 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -60,11 +60,11 @@ static inline void cancel_flag_inserted_records(session* const ti) {
                 check = loadAcquire(
                         rec_ptr->get_tidw_ref().get_obj()); // reload
                 if (check_cd()) {                           // main-check
-                    tid_word tid{};
+                    // keep epoch, tid and by_short bit of the tombstone
+                    tid_word tid{check};
                     tid.set_absent(true);
                     tid.set_latest(false);
                     tid.set_lock(false);
-                    tid.set_epoch(check.get_epoch());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso.get_storage());
                 } else {
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index a149d2b..dd9e9d0 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -133,12 +133,11 @@ static void change_inserting_records_state(session* const ti) {
                 // main-check
                 if (check_cd()) {
                     // inserting yet
-                    tid_word tid{};
+                    // keep epoch, tid and by_short bit of the tombstone
+                    tid_word tid{check};
                     tid.set_absent(true);
                     tid.set_latest(false);
                     tid.set_lock(false);
-                    tid.set_epoch(check.get_epoch());
-                    tid.set_tid(check.get_tid());
                     rec_ptr->set_tid(tid); // and unlock
                     dirty.insert(wso_ptr->get_storage());
                 } else {
-- 
2.43.0


From c85c489b6618f33c420d9b0798288dd2393a3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 10/28] fix: make commit version newer than the overwritten
 tombstone

Re-insert in the same epoch could get the same version as the deletion.
A reader of the tombstone passed its verify, and the log had two entries
of one version.
---
 src/concurrency_control/interface/short_tx/termination.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index dd9e9d0..75ba593 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -430,10 +430,8 @@ static Status write_lock(session* ti, tid_word& commit_tid) {
                         return Status::ERR_KVS;
                     }
                 }
-                // check Record version to update
-                if (!rec_ptr->get_tidw_ref().get_absent()) {
-                    commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
-                }
+                // check Record version to update, including tombstone
+                commit_tid = std::max(commit_tid, rec_ptr->get_tidw_ref());
                 return Status::OK;
             }
             if (rc == Status::ERR_CC) {
-- 
2.43.0


From d33d0a664fd78aba1da3866e1bcff61b0efe9fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:22 +0000
Subject: [PATCH 11/28] fix: do not unhook a record while a tx may write to it

The epoch of a tombstone made by long tx is older than the time when it
was deleted. A tx begun in between lost its write to the unhooked record.
---
 src/concurrency_control/garbage.cpp              |  9 ++++++---
 src/concurrency_control/include/record.h         | 16 ++++++++++++++++
 .../interface/long_tx/termination.cpp            |  3 +++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/garbage.cpp b/src/concurrency_control/garbage.cpp
index ccb7e6b..ebc602e 100644
--- a/src/concurrency_control/garbage.cpp
+++ b/src/concurrency_control/garbage.cpp
@@ -185,15 +185,18 @@ static Status check_unhooking_key_state(tid_word check) {
 /**
  * @brief check timestamp of the key whether it can unhook.
  *
+ * @param[in] rec_ptr
  * @param[in] check
  * @return Status::OK it can unhook from the point of view of timestamp.
  * @return Status::INTERNAL_WARN_PREMATURE it can't unhook from the point of
  * view of timestamp.
  */
-static inline Status check_unhooking_key_ts(tid_word check) {
+static inline Status check_unhooking_key_ts(Record* rec_ptr, tid_word check) {
     if (
             // threshold for stx.
             check.get_epoch() < garbage::get_min_begin_epoch() &&
+            // threshold for tx which may have this record in local write set.
+            rec_ptr->get_ltx_delete_epoch() < garbage::get_min_begin_epoch() &&
             // this records version is not needed by current and future long tx.
             check.get_epoch() < garbage::get_min_batch_epoch()) {
         return Status::OK;
@@ -224,7 +227,7 @@ static inline Status unhooking_key(yakushima::Token ytk, Storage st, Record* rec
     if (rc != Status::OK) { return rc; } // not absent record
 
     // check timestamp whether it can unhook.
-    rc = check_unhooking_key_ts(check);
+    rc = check_unhooking_key_ts(rec_ptr, check);
     if (rc != Status::OK) { absent_still_exists = true; return rc; } // not old enough
     // ====================
 
@@ -242,7 +245,7 @@ static inline Status unhooking_key(yakushima::Token ytk, Storage st, Record* rec
         return rc;
     }
 
-    rc = check_unhooking_key_ts(check);
+    rc = check_unhooking_key_ts(rec_ptr, check);
     if (rc != Status::OK) { // not old enough
         rec_ptr->get_tidw_ref().unlock();
         absent_still_exists = true;
diff --git a/src/concurrency_control/include/record.h b/src/concurrency_control/include/record.h
index 5073931..1cd75f3 100644
--- a/src/concurrency_control/include/record.h
+++ b/src/concurrency_control/include/record.h
@@ -13,6 +13,7 @@
 #include <string>
 #include <string_view>
 
+#include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/read_by.h"
 #include "concurrency_control/include/tid.h"
 
@@ -74,6 +75,10 @@ public:
         return shared_tombstone_count_;
     }
 
+    [[nodiscard]] epoch::epoch_t get_ltx_delete_epoch() const {
+        return ltx_delete_epoch_.load(std::memory_order_acquire);
+    }
+
     // end: getter
     void lock() { tidw_.lock(); }
 
@@ -83,6 +88,10 @@ public:
         latest_.store(ver, std::memory_order_release);
     }
 
+    void set_ltx_delete_epoch(epoch::epoch_t const ep) {
+        ltx_delete_epoch_.store(ep, std::memory_order_release);
+    }
+
     void set_tid(tid_word const& tid) {
         storeRelease(tidw_.get_obj(), tid.get_obj());
     }
@@ -123,6 +132,13 @@ private:
      * @brief The count about shared tombstone.
      */
     std::atomic<std::size_t> shared_tombstone_count_{0};
+
+    /**
+     * @brief The global epoch when ltx deleted this record.
+     * @details The epoch of tidw_ is the order of the ltx, and that is older
+     * than this. Tx which began between the two may refer this record.
+     */
+    std::atomic<epoch::epoch_t> ltx_delete_epoch_{0};
 };
 
 } // namespace shirakami
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index cbc16d7..5342ced 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -173,6 +173,9 @@ static inline void expose_local_write(
                 // lock record
                 rec_ptr->get_tidw_ref().lock();
                 tid_word pre_tid{rec_ptr->get_tidw_ref().get_obj()};
+                if (wso.get_op() == OP_TYPE::DELETE) {
+                    rec_ptr->set_ltx_delete_epoch(epoch::get_global_epoch());
+                }
 
                 if (ti->get_valid_epoch() > pre_tid.get_epoch()) {
                     // case: first of list
-- 
2.43.0


From 77ae4350df48857345b9c8c021da0f2650a2c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:03 +0000
Subject: [PATCH 12/28] fix: check committed write preserve of the same epoch
 at scan of long tx

---
 .../interface/long_tx/helper.cpp                    | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 7eb5ea8..0cd86cf 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -242,14 +242,11 @@ void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr,
 
 void wp_verify_and_forwarding(session* ti, wp::wp_meta* wp_meta_ptr) {
     auto wps = wp_meta_ptr->get_wped();
-    if (!wp::wp_meta::empty(wps)) {
-        // exist wp
-        auto ep_id{wp::wp_meta::find_min_ep_id(wps)};
-        if (ep_id.second < ti->get_long_tx_id()) {
-            // the wp is higher priority long tx than this.
-            wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
-        }
-    }
+    /**
+     * note: even if there is no living wp, it must check committed wp whose
+     * epoch is the same to this tx.
+     */
+    wp::extract_higher_priori_ltx_info(ti, wp_meta_ptr, wps);
 }
 
 void update_local_read_range(session* ti, wp::wp_meta* wp_meta_ptr,
-- 
2.43.0


From 33e09055fab1cf02e6b2dd5466ed5220084b061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:03 +0000
Subject: [PATCH 13/28] fix: finish inserting state when insert or upsert finds
 phantom

---
 src/concurrency_control/interface/insert.cpp | 3 ++-
 src/concurrency_control/interface/upsert.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index efcab8d..dce4118 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -41,6 +41,8 @@ static inline Status insert_process(session* const ti, Storage st,
     yakushima::inserted_node_info ii{};
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // register first so that abort can finish the inserting state
+        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -67,7 +69,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::INSERT, rec_ptr, val, true, std::move(lobs)});
         out_rec_ptr = rec_ptr;
         return Status::OK;
     }
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index ca86e04..3d70ca5 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -42,6 +42,8 @@ static inline Status insert_process(session* const ti, Storage st,
     // create tombstone
     if (yakushima::status::OK ==
         put<Record>(ti->get_yakushima_token(), st, key, rec_ptr, ii)) {
+        // register first so that abort can finish the inserting state
+        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             // detail info
             if (logging::get_enable_logging_detail_info()) {
@@ -68,7 +70,6 @@ static inline Status insert_process(session* const ti, Storage st,
                 ti->push_to_read_set_for_stx({st, rec_ptr, tid});
             }
         }
-        ti->push_to_write_set({st, OP_TYPE::UPSERT, rec_ptr, val, true, std::move(lobs)});
         return Status::OK;
     }
     // fail insert rec_ptr
-- 
2.43.0


From 3b9e050caec079a430f723deb57fbb6c370380a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:13 +0000
Subject: [PATCH 14/28] fix: return own write of a concurrently deleted record
 at head of scan

---
 src/concurrency_control/interface/scan/open_scan.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index e16d7bc..951c208 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -123,6 +123,14 @@ static Status check_not_found(session* ti, Storage st, Record* rec_ptr) {
         }
     } else {
         // absent && not latest == deleted
+        // check read own write
+        if (ti->get_tx_type() != transaction_options::transaction_type::READ_ONLY) {
+            write_set_obj* inws = ti->get_write_set().search(rec_ptr);
+            if (inws != nullptr && inws->get_op() != OP_TYPE::DELETE) {
+                // written before the record was deleted by other tx
+                return Status::OK;
+            }
+        }
         if (ti->get_tx_type() == transaction_options::transaction_type::SHORT) {
             /**
              * short mode must read deleted record and verify, so add read set
-- 
2.43.0


From 2ba20f792fc462b97fbdc253186252af69cbe0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:29:24 +0000
Subject: [PATCH 15/28] fix: report missing storage at point read of read only
 tx

---
 src/concurrency_control/interface/read_only_tx/search.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/read_only_tx/search.cpp b/src/concurrency_control/interface/read_only_tx/search.cpp
index 95e93f8..cd53cf6 100644
--- a/src/concurrency_control/interface/read_only_tx/search.cpp
+++ b/src/concurrency_control/interface/read_only_tx/search.cpp
@@ -18,9 +18,8 @@ Status search_key(session* const ti, Storage const storage,
 
     // index access
     Record* rec_ptr{};
-    if (Status::WARN_NOT_FOUND == get<Record>(storage, key, rec_ptr)) {
-        return Status::WARN_NOT_FOUND;
-    }
+    auto rc = get<Record>(storage, key, rec_ptr);
+    if (rc != Status::OK) { return rc; }
 
     return long_tx::version_traverse_and_read(ti, rec_ptr, value, read_value);
 }
-- 
2.43.0


From 288e9778cf2c2af85365a02dbe5314c8063de1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:22 +0000
Subject: [PATCH 16/28] fix: keep sequence updates of long tx newer than later
 applied smaller versions

---
 src/concurrency_control/sequence.cpp | 9 ++-------
 src/concurrency_control/session.cpp  | 7 +++----
 src/include/sequence.h               | 9 ++++++++-
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/concurrency_control/sequence.cpp b/src/concurrency_control/sequence.cpp
index ab3bc82..95f8100 100644
--- a/src/concurrency_control/sequence.cpp
+++ b/src/concurrency_control/sequence.cpp
@@ -187,7 +187,7 @@ sequence::sequence_map_find(SequenceId const id,
 }
 
 // for update sequence function
-Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
+Status sequence::sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                               SequenceId const id,
                                               SequenceVersion const version) {
     // check the sequence object whose id is the arguments of this function.
@@ -208,12 +208,7 @@ Status sequence::sequence_map_find_and_verify(epoch::epoch_t epoch,
     }
 
     if (std::get<0>(last_itr->second) < version) {
-        if (last_itr->first > epoch) {
-            // fix sequence map
-            auto erased_itr = found_id_itr->second.end();
-            erased_itr--;
-            found_id_itr->second.erase(erased_itr);
-        }
+        epoch = std::max(epoch, last_itr->first);
         return Status::OK;
     }
     return Status::WARN_ILLEGAL_OPERATION;
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index dba69d4..efe18c3 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -58,8 +58,8 @@ void session::commit_sequence(tid_word ctid) {
         SequenceVersion version = std::get<0>(itr->second);
         SequenceValue value = std::get<1>(itr->second);
         // check update sequence object
-        auto ret = sequence::sequence_map_find_and_verify(ctid.get_epoch(), id,
-                                                          version);
+        epoch::epoch_t epoch{ctid.get_epoch()};
+        auto ret = sequence::sequence_map_find_and_verify(epoch, id, version);
         if (ret == Status::WARN_ILLEGAL_OPERATION ||
             ret == Status::WARN_NOT_FOUND) {
             // fail
@@ -87,12 +87,11 @@ void session::commit_sequence(tid_word ctid) {
         log_operation lo{log_operation::UPSERT};
         // log to local to reduce contention for locks
         log_recs.emplace_back(shirakami::lpwal::log_record(
-                lo, lpwal::write_version_type(ctid.get_epoch(), version),
+                lo, lpwal::write_version_type(epoch, version),
                 storage::sequence_storage, key, new_value, {}));
 #endif
 
         // update sequence object
-        auto epoch = ctid.get_epoch();
         ret = sequence::sequence_map_update(id, epoch, version, value);
         if (ret != Status::OK) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
diff --git a/src/include/sequence.h b/src/include/sequence.h
index 196a260..8f99a96 100644
--- a/src/include/sequence.h
+++ b/src/include/sequence.h
@@ -55,7 +55,14 @@ public:
     sequence_map_find(SequenceId id,
                       std::tuple<SequenceVersion, SequenceValue>& out);
 
-    static Status sequence_map_find_and_verify(epoch::epoch_t epoch,
+    /**
+     * @brief check whether the update can be applied.
+     * @param[in,out] epoch The epoch of the updating transaction. A long
+     * transaction may belong to an older epoch than already applied updates. In
+     * that case, this is raised to the epoch of the last applied one so that
+     * the larger version is always the last one in the map and in the log.
+     */
+    static Status sequence_map_find_and_verify(epoch::epoch_t& epoch,
                                                SequenceId id,
                                                SequenceVersion version);
 
-- 
2.43.0


From 4a1072227cf1e5e08649a448c0d89b6b4fed5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:52 +0000
Subject: [PATCH 17/28] fix: removed storage covers all former writes of the
 epoch in the log

---
 src/concurrency_control/interface/storage.cpp | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 7858f2d..4806a1e 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -2,10 +2,13 @@
  * @file wp/storage.cpp
  */
 
+#include <atomic>
+#include <cstdint>
 #include <cstdlib>
 
 #include "storage.h"
 
+#include "concurrency_control/include/epoch.h"
 #include "concurrency_control/include/garbage.h"
 #include "concurrency_control/include/record.h"
 #include "concurrency_control/include/wp.h"
@@ -25,6 +28,12 @@
 
 namespace shirakami {
 
+/**
+ * @brief The epoch of the last logged storage removal. The logs of the storage
+ * which belong to this epoch are covered by the removal.
+ */
+static std::atomic<epoch::epoch_t> last_removal_epoch{0}; // NOLINT
+
 static void write_storage_metadata(std::string_view key, Storage st,
                                    storage_option const& options) {
     Token s{};
@@ -84,9 +93,10 @@ static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Stora
 #ifdef PWAL
         auto* ti = static_cast<session*>(s);
         // reuse mrc_tid of previous commit to calculate the write-version
-        lpwal::write_version_type wv{ti->get_mrc_tid().get_epoch(), ti->get_mrc_tid().get_tid() | (1UL << 63)};  // NOLINT
         // note: this write-version is calculated without reading any Records in this storage,
-        // so it may be smaller than that of concurrent transactions writing this storage.
+        // so the minor version is the largest one to cover all writes of the epoch.
+        lpwal::write_version_type wv{ti->get_mrc_tid().get_epoch(), UINT64_MAX};
+        last_removal_epoch.store(ti->get_mrc_tid().get_epoch(), std::memory_order_release);
         {
             std::unique_lock<std::mutex> lk{ti->get_lpwal_handle().get_mtx_logs()};
             ti->get_lpwal_handle().push_log(lpwal::log_record(log_operation::REMOVE_STORAGE, wv, st, {}, {}, {}));
@@ -363,6 +373,12 @@ Status storage::create_storage(Storage& storage,
                                "implement re-using storage id.";
             return Status::WARN_STORAGE_ID_DEPLETION;
         }
+        // the id may be used by the storage removed just before. Its removal must
+        // not cover the writes for the new storage.
+        while (epoch::get_global_epoch() <=
+               last_removal_epoch.load(std::memory_order_acquire)) {
+            _mm_pause();
+        }
     }
 
     // create storage using id computed.
@@ -507,7 +523,10 @@ void storage::get_new_storage_num(Storage& storage) {
     storage = strg_ctr_.fetch_add(1);
 }
 
-void storage::init() { storage::set_strg_ctr(storage::initial_strg_ctr); }
+void storage::init() {
+    storage::set_strg_ctr(storage::initial_strg_ctr);
+    last_removal_epoch.store(0, std::memory_order_release);
+}
 
 void storage::init_meta_storage() {
     auto ret = storage::register_storage(storage::meta_storage);
-- 
2.43.0


From 0f80e1bcc71514603ca81ccc1024011ffecd521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:29 +0000
Subject: [PATCH 18/28] fix: keep the logs of one commit in one log session
 begun before its writes are visible

The metadata record and the ADD_STORAGE/REMOVE_STORAGE record of a table were
written in different log sessions, as were the data and the sequence updates of
one transaction when the log daemon flushed in between. Logs left in the buffer
let a later transaction be logged under an older epoch, so it could survive a
crash without the transactions it depends on. The log session was also begun
only after the first written record had become visible.

Group the logs of one commit: begin the log session before the write phase,
write out older buffered logs first, and do not flush until the group ends.
---
 src/concurrency_control/include/lpwal.h       | 47 ++++++++++++++++++-
 src/concurrency_control/include/session.h     |  5 ++
 .../interface/long_tx/termination.cpp         |  6 +++
 .../interface/short_tx/termination.cpp        |  6 +++
 src/concurrency_control/interface/storage.cpp | 16 ++++++-
 src/concurrency_control/session.cpp           |  7 +++
 src/datastore/limestone/lpwal.cpp             | 20 +++++++-
 7 files changed, 102 insertions(+), 5 deletions(-)

diff --git a/src/concurrency_control/include/lpwal.h b/src/concurrency_control/include/lpwal.h
index 067eae5..b51112b 100644
--- a/src/concurrency_control/include/lpwal.h
+++ b/src/concurrency_control/include/lpwal.h
@@ -188,16 +188,35 @@ public:
     void push_log(log_record const& log) {
         if (logs_.empty()) {
             set_min_log_epoch(log.get_wv().get_major_write_version());
-            begin_session();
+            if (!begun_session_) { begin_session(); }
         }
         logs_.emplace_back(log);
     }
 
+    /**
+     * @brief begin a group of logs which must not be divided into some log
+     * sessions.
+     * @details The log session is begun here if it is not begun yet. The logs are
+     * not flushed until the corresponding end_group().
+     */
+    void begin_group();
+
+    /**
+     * @brief end a group of logs.
+     */
+    void end_group();
+
+    /**
+     * @pre take mtx of logs
+     */
+    [[nodiscard]] bool in_group() const { return group_depth_ != 0; }
+
     void init() {
         worker_number_ = 0;
         min_log_epoch_ = 0;
         logs_.clear();
         begun_session_ = false;
+        group_depth_ = 0;
         // this can't due to concurrent programming
         // log_channel_ptr_ = nullptr;
     }
@@ -243,8 +262,9 @@ private:
      */
     logs_type logs_{};
 
-    // invariant: logs_.empty() == !begun_session_
+    // invariant: logs_.empty() == !begun_session_ (except in log group)
     bool begun_session_{false};
+    std::size_t group_depth_{0};
     epoch::epoch_t durable_epoch_{};
 
     /**
@@ -253,6 +273,29 @@ private:
     limestone::api::log_channel* log_channel_ptr_{};
 };
 
+/**
+ * @brief RAII of handler::begin_group() and handler::end_group().
+ */
+class log_group {
+public:
+    log_group(handler& handle, bool enable) : handle_(enable ? &handle : nullptr) {
+        if (handle_ != nullptr) { handle_->begin_group(); }
+    }
+
+    log_group(log_group const&) = delete;
+    log_group& operator=(log_group const&) = delete;
+
+    ~log_group() { end(); }
+
+    void end() {
+        if (handle_ != nullptr) { handle_->end_group(); }
+        handle_ = nullptr;
+    }
+
+private:
+    handler* handle_;
+};
+
 /**
  * @brief flushing log. 1: begin log_channel, 2: add_entry,
  * 3: end log_channel
diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 855796e..7799ab7 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -173,6 +173,11 @@ public:
      */
     void commit_sequence(tid_word ctid);
 
+    /**
+     * @brief whether this tx has some writes including sequence updates.
+     */
+    [[nodiscard]] bool has_write();
+
     /**
      * @brief extract wait_for from overtaken_ltx_set_.
      *
diff --git a/src/concurrency_control/interface/long_tx/termination.cpp b/src/concurrency_control/interface/long_tx/termination.cpp
index 5342ced..c0c38d2 100644
--- a/src/concurrency_control/interface/long_tx/termination.cpp
+++ b/src/concurrency_control/interface/long_tx/termination.cpp
@@ -807,6 +807,11 @@ extern Status commit(session* const ti) {
 
         register_read_by(ti);
 
+#if defined(PWAL)
+        // begin the log session before this tx's writes become visible.
+        lpwal::log_group log_group{ti->get_lpwal_handle(), ti->has_write()};
+#endif
+
         // log debug timing event
         VLOG(log_debug_timing_event)
                 << log_location_prefix_timing_event
@@ -844,6 +849,7 @@ extern Status commit(session* const ti) {
             std::unique_lock lk{handle.get_mtx_logs()};
             if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
         }
+        log_group.end();
 #endif
 
         // about transaction state
diff --git a/src/concurrency_control/interface/short_tx/termination.cpp b/src/concurrency_control/interface/short_tx/termination.cpp
index 75ba593..3485f1b 100644
--- a/src/concurrency_control/interface/short_tx/termination.cpp
+++ b/src/concurrency_control/interface/short_tx/termination.cpp
@@ -793,6 +793,11 @@ extern Status commit(session* const ti) {
 
     compute_commit_tid(ti, ce, commit_tid);
 
+#if defined(PWAL)
+    // begin the log session before this tx's writes become visible.
+    lpwal::log_group log_group{ti->get_lpwal_handle(), ti->has_write()};
+#endif
+
     // write phase
     rc = write_phase(ti, ce);
     if (rc != Status::OK) {
@@ -818,6 +823,7 @@ extern Status commit(session* const ti) {
         std::unique_lock lk{handle.get_mtx_logs()};
         if (handle.get_begun_session()) { this_dm = handle.get_durable_epoch(); }
     }
+    log_group.end();
 #endif
 
     // about tx state
diff --git a/src/concurrency_control/interface/storage.cpp b/src/concurrency_control/interface/storage.cpp
index 4806a1e..5107d5e 100644
--- a/src/concurrency_control/interface/storage.cpp
+++ b/src/concurrency_control/interface/storage.cpp
@@ -56,15 +56,21 @@ static void write_storage_metadata(std::string_view key, Storage st,
                 << log_location_prefix << "library programming error.";
         return;
     }
+#ifdef PWAL
+    // the log of the storage must be durable together with the metadata
+    auto* ti = static_cast<session*>(s);
+    lpwal::log_group log_group{ti->get_lpwal_handle(), true};
+#endif
     if (commit(s) == Status::OK) {
 #ifdef PWAL
-        auto* ti = static_cast<session*>(s);
         // reuse mrc_tid of previous commit to calculate the write-version
         lpwal::write_version_type wv{ti->get_mrc_tid().get_epoch(), ti->get_mrc_tid().get_tid() | (1UL << 63)};  // NOLINT
         {
             std::unique_lock<std::mutex> lk{ti->get_lpwal_handle().get_mtx_logs()};
             ti->get_lpwal_handle().push_log(lpwal::log_record(log_operation::ADD_STORAGE, wv, st, {}, {}, {}));
         }
+        log_group.end();
+        lpwal::flush_log(s);
 #endif
         leave(s);
         return;
@@ -89,9 +95,13 @@ static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Stora
                 << s << ", " << storage::meta_storage << ", " << key;
         return;
     }
+#ifdef PWAL
+    // the log of the storage must be durable together with the metadata
+    auto* ti = static_cast<session*>(s);
+    lpwal::log_group log_group{ti->get_lpwal_handle(), true};
+#endif
     if (commit(s) == Status::OK) {
 #ifdef PWAL
-        auto* ti = static_cast<session*>(s);
         // reuse mrc_tid of previous commit to calculate the write-version
         // note: this write-version is calculated without reading any Records in this storage,
         // so the minor version is the largest one to cover all writes of the epoch.
@@ -101,6 +111,8 @@ static void remove_storage_metadata(std::string_view key, [[maybe_unused]] Stora
             std::unique_lock<std::mutex> lk{ti->get_lpwal_handle().get_mtx_logs()};
             ti->get_lpwal_handle().push_log(lpwal::log_record(log_operation::REMOVE_STORAGE, wv, st, {}, {}, {}));
         }
+        log_group.end();
+        lpwal::flush_log(s);
 #endif
         leave(s);
         return;
diff --git a/src/concurrency_control/session.cpp b/src/concurrency_control/session.cpp
index efe18c3..ec7e9c4 100644
--- a/src/concurrency_control/session.cpp
+++ b/src/concurrency_control/session.cpp
@@ -108,6 +108,13 @@ void session::commit_sequence(tid_word ctid) {
 #endif
 }
 
+bool session::has_write() {
+    std::shared_lock<std::shared_mutex> lk{get_write_set().get_mtx()};
+    return !get_write_set().get_ref_cont_for_bt().empty() ||
+           !get_write_set().get_ref_cont_for_occ().empty() ||
+           !sequence_set().set().empty();
+}
+
 std::set<std::size_t> session::extract_wait_for() {
     // extract wait for
     std::set<std::size_t> wait_for;
diff --git a/src/datastore/limestone/lpwal.cpp b/src/datastore/limestone/lpwal.cpp
index 22d5a74..0786e00 100644
--- a/src/datastore/limestone/lpwal.cpp
+++ b/src/datastore/limestone/lpwal.cpp
@@ -152,12 +152,30 @@ static void flush_log_and_end_session_if_exists(lpwal::handler& handle) {
     }
 }
 
+void handler::begin_group() {
+    std::unique_lock lk{mtx_logs_};
+    if (group_depth_++ != 0) { return; }
+    // the log session of the logs which were already buffered may belong to the
+    // older epoch than the epoch of the transactions this group depends on.
+    if (begun_session_ && (!session::optflag_occ_epoch_buffering ||
+                           durable_epoch_ != epoch::get_global_epoch())) {
+        flush_log_and_end_session_if_exists(*this);
+    }
+    if (!begun_session_) { begin_session(); }
+}
+
+void handler::end_group() {
+    std::unique_lock lk{mtx_logs_};
+    if (--group_depth_ != 0) { return; }
+    if (logs_.empty() && begun_session_) { end_session(); }
+}
+
 void flush_log(Token token) {
     auto* ti = static_cast<session*>(token);
     auto& handle = ti->get_lpwal_handle();
     // this is called worker or daemon, so use try_lock
     if (handle.get_mtx_logs().try_lock()) {
-        flush_log_and_end_session_if_exists(handle);
+        if (!handle.in_group()) { flush_log_and_end_session_if_exists(handle); }
         handle.get_mtx_logs().unlock();
     }
 }
-- 
2.43.0


From 4f8955ffec6865a3c7e2c45a6641b0cb36a8add1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Mon, 16 Nov 2026 22:47:06 +0000
Subject: [PATCH 19/28] fix: check_tx_state moved the state of a transaction
 back

A transaction aborted before its start epoch was reported as waiting for its
start again. A transaction that ended while its state was being checked was
reported as started forever, since the check overwrote the final state.
---
 src/concurrency_control/transaction_state.cpp | 43 ++++++++-----------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/concurrency_control/transaction_state.cpp b/src/concurrency_control/transaction_state.cpp
index f4097cb..7c88258 100644
--- a/src/concurrency_control/transaction_state.cpp
+++ b/src/concurrency_control/transaction_state.cpp
@@ -95,9 +95,9 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
     auto& ts{TxState::get_tx_state(handle)};
     // short tx
     if (out.get_serial_epoch() == 0) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+        if (out.state_kind() == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
-            if (ts.get_durable_epoch() <=
+            if (out.get_durable_epoch() <=
                 epoch::get_datastore_durable_epoch()) {
                 ts.set_kind(TxState::StateKind::DURABLE);  // for internal
                 out.set_kind(TxState::StateKind::DURABLE); // for external
@@ -112,38 +112,31 @@ static Status check_tx_state_body(TxStateHandle handle, TxState& out) {
         return Status::OK;
     }
 
-    // long tx
-    if (out.get_serial_epoch() <= epoch::get_global_epoch()) {
-        if (ts.state_kind() == TxState::StateKind::WAITING_START) {
+    // long tx or read only tx
+    if (out.state_kind() == TxState::StateKind::WAITING_START) {
+        // the internal state is not changed here because the tx may be terminated
+        // concurrently.
+        if (out.get_serial_epoch() <= epoch::get_global_epoch()) {
             // check high priori stx
-            auto* ti = static_cast<session*>(ts.get_token());
+            auto* ti = static_cast<session*>(out.get_token());
             if (ti->find_high_priority_short(true) != Status::WARN_PREMATURE) {
-                ts.set_kind(TxState::StateKind::STARTED);  // for internal
                 out.set_kind(TxState::StateKind::STARTED); // for external
             }                                              // else : premature
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_CC_COMMIT) {
-            // waiting for commit by background worker.
-            out.set_kind(TxState::StateKind::WAITING_CC_COMMIT); // for external
-        } else if (ts.state_kind() == TxState::StateKind::WAITING_DURABLE) {
+        }
+    } else if (out.state_kind() == TxState::StateKind::WAITING_DURABLE) {
 #ifdef PWAL
-            if (ts.get_durable_epoch() <=
-                epoch::get_datastore_durable_epoch()) {
-                ts.set_kind(TxState::StateKind::DURABLE);  // for internal
-                out.set_kind(TxState::StateKind::DURABLE); // for external
-            }
+        if (out.get_durable_epoch() <= epoch::get_datastore_durable_epoch()) {
+            ts.set_kind(TxState::StateKind::DURABLE);  // for internal
+            out.set_kind(TxState::StateKind::DURABLE); // for external
+        }
 #else
-            LOG_FIRST_N(ERROR, 1)
-                    << log_location_prefix
-                    << "if no logging, it must not be waiting_durable status";
-            return Status::ERR_FATAL;
+        LOG_FIRST_N(ERROR, 1)
+                << log_location_prefix
+                << "if no logging, it must not be waiting_durable status";
+        return Status::ERR_FATAL;
 #endif
-        }
-    } else {
-        ts.set_kind(TxState::StateKind::WAITING_START);  // for internal
-        out.set_kind(TxState::StateKind::WAITING_START); // for external
     }
 
-
     return Status::OK;
 }
 
-- 
2.43.0


From 844c9f8e9ac9b81169afc012281d3d7d1e089de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:58 +0000
Subject: [PATCH 20/28] fix: make writes of one tx by several threads exclusive

---
 src/concurrency_control/interface/delete.cpp | 3 ++-
 src/concurrency_control/interface/insert.cpp | 3 ++-
 src/concurrency_control/interface/update.cpp | 3 ++-
 src/concurrency_control/interface/upsert.cpp | 9 ++++++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/concurrency_control/interface/delete.cpp b/src/concurrency_control/interface/delete.cpp
index b72fbe9..383c909 100644
--- a/src/concurrency_control/interface/delete.cpp
+++ b/src/concurrency_control/interface/delete.cpp
@@ -202,7 +202,8 @@ Status delete_record(Token token, Storage storage, const std::string_view key) {
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        // exclusive: looking into the local write set and changing it is one step
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // delete record body check warn not begin for strand
         ret = delete_record_body(token, storage, key);
diff --git a/src/concurrency_control/interface/insert.cpp b/src/concurrency_control/interface/insert.cpp
index dce4118..37389ba 100644
--- a/src/concurrency_control/interface/insert.cpp
+++ b/src/concurrency_control/interface/insert.cpp
@@ -190,7 +190,8 @@ Status insert(Token const token, Storage const storage, // NOLINT
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        // exclusive: looking into the local write set and changing it is one step
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // insert_body check warn not begin
         ret = insert_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/update.cpp b/src/concurrency_control/interface/update.cpp
index d7c31b7..df09308 100644
--- a/src/concurrency_control/interface/update.cpp
+++ b/src/concurrency_control/interface/update.cpp
@@ -118,7 +118,8 @@ Status update(Token token, Storage storage,
     ti->process_before_start_step();
     Status ret{};
     { // for strand
-        std::shared_lock<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+        // exclusive: looking into the local write set and changing it is one step
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
 
         // update_body check termation by concurrent strand
         ret = update_body(token, storage, key, val, blobs_data, blobs_size);
diff --git a/src/concurrency_control/interface/upsert.cpp b/src/concurrency_control/interface/upsert.cpp
index 3d70ca5..77c7268 100644
--- a/src/concurrency_control/interface/upsert.cpp
+++ b/src/concurrency_control/interface/upsert.cpp
@@ -160,7 +160,14 @@ Status upsert(Token token, Storage storage, std::string_view const key,
                         << " " << span_printer(blobs_data, blobs_size);
     auto* ti = static_cast<session*>(token);
     ti->process_before_start_step();
-    auto ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    Status ret{};
+    { // for strand
+        // exclusive: looking into the local write set and changing it is one step
+        std::lock_guard<std::shared_mutex> lock{ti->get_mtx_state_da_term()};
+
+        // upsert_body check warn not begin
+        ret = upsert_body(token, storage, key, val, blobs_data, blobs_size);
+    }
     ti->process_before_finish_step();
     shirakami_log_exit << "upsert, Status: " << ret;
     return ret;
-- 
2.43.0


From 87579148d01ada3badabd505cfbd1b8917996d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:58 +0000
Subject: [PATCH 21/28] fix: keep the callback of the accepted commit request

---
 .../interface/termination.cpp                 | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/concurrency_control/interface/termination.cpp b/src/concurrency_control/interface/termination.cpp
index 8681ae0..8dee4d1 100644
--- a/src/concurrency_control/interface/termination.cpp
+++ b/src/concurrency_control/interface/termination.cpp
@@ -69,6 +69,19 @@ static Status commit_body(Token const token,                    // NOLINT
         return Status::WARN_NOT_BEGIN;
     }
 
+    if (ti->get_tx_type() == transaction_options::transaction_type::LONG &&
+        ti->get_requested_commit()) {
+        /**
+         * It was already requested.
+         * The callback of that request receives the result, so keep it.
+         */
+        if (callback) {
+            callback(Status::WARN_ILLEGAL_OPERATION, {}, 0);
+            return Status::WARN_ILLEGAL_OPERATION;
+        }
+        return Status::WARN_WAITING_FOR_OTHER_TX;
+    }
+
     // log callback
     ti->set_commit_callback(std::move(callback)); // NOLINT
 
@@ -86,13 +99,6 @@ static Status commit_body(Token const token,                    // NOLINT
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::LONG) {
         // for long tx
-        if (ti->get_requested_commit()) {
-            /**
-             * It was already requested.
-             * So user must use check_commit function to check result.
-             */
-            return Status::WARN_WAITING_FOR_OTHER_TX;
-        }
         rc = long_tx::commit(ti);
 
         // set about diagnostics
-- 
2.43.0


From d42468497b58ea7f02a0f8ffba5b69f2187cdf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:58 +0000
Subject: [PATCH 22/28] fix: read area whose positive list is covered by the
 negative list allows nothing

---
 src/concurrency_control/interface/long_tx/helper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/concurrency_control/interface/long_tx/helper.cpp b/src/concurrency_control/interface/long_tx/helper.cpp
index 0cd86cf..b9cff68 100644
--- a/src/concurrency_control/interface/long_tx/helper.cpp
+++ b/src/concurrency_control/interface/long_tx/helper.cpp
@@ -33,7 +33,7 @@ static Status check_read_area_body(session* ti, Storage const st) {
     // it can read from only plist
     // plist is not empty
     auto itr = plist.find(st);
-    if (itr != plist.end()) { // found
+    if (itr != plist.end() && nlist.find(st) == nlist.end()) { // found
         return Status::OK;
     }
     return Status::ERR_READ_AREA_VIOLATION;
@@ -53,6 +53,8 @@ static void preprocess_read_area(transaction_options::read_area& ra) {
         // if you set positive and negative, you can read positive erased by negative
         for (auto elem : ra.get_negative_list()) {
             auto pset = ra.get_positive_list();
+            // the empty positive list would mean no limit, so keep the last one
+            if (pset.size() == 1) { break; }
             for (auto itr = pset.begin(); itr != pset.end(); ++itr) { // NOLINT
                 if (elem == *itr) {
                     ra.erase_from_positive_list(elem);
-- 
2.43.0


From e53876e1dbee7b571e82b43d4750c51d1c199837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:57:05 +0000
Subject: [PATCH 23/28] fix: report invalid handle at close_scan of iterator
 based scan

---
 src/concurrency_control/interface/scan/close_scan.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/interface/scan/close_scan.cpp b/src/concurrency_control/interface/scan/close_scan.cpp
index 569ae31..3eef4dc 100644
--- a/src/concurrency_control/interface/scan/close_scan.cpp
+++ b/src/concurrency_control/interface/scan/close_scan.cpp
@@ -28,9 +28,8 @@ static Status close_scan_body(Token const token, ScanHandle const handle) { // N
 static Status close_scan_body_iscan(Token const token, ScanHandle const handle) { // NOLINT
     auto* ti = static_cast<session*>(token);
     if (!ti->get_tx_began()) { return Status::WARN_NOT_BEGIN; }
-    auto* sc = static_cast<scan_context*>(handle);
-    if (sc->get_ycontext_ref()) { yakushima::iscan_close(sc->get_ycontext_ref()); }
-    return ti->get_scan_handle().delete_scan_context(sc);
+    // scan_context closes the index scan when it is destructed
+    return ti->get_scan_handle().delete_scan_context(static_cast<scan_context*>(handle));
 }
 
 Status close_scan(Token const token, ScanHandle const handle) { // NOLINT
-- 
2.43.0


From a0753abeeebbe14741b855f018f91530807c70ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 00:24:10 +0000
Subject: [PATCH 24/28] fix: parallel recovery failed when two threads
 registered a table at the same time

One recovery thread handling the meta entry of a table found it missing,
another one handling a normal entry registered it, and the first one then
took the failing registration for a fatal error.
---
 src/datastore/limestone/datastore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 8e6b7c4..047904c 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -140,11 +140,12 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
                 // not exist, so create.
                 auto ret = shirakami::storage::register_storage(st2,
                                                                 {id, payload});
-                if (ret != Status::OK) {
+                if (ret != Status::OK && ret != Status::WARN_ALREADY_EXISTS) {
                     /**
                      * This process was done because
                      * shirakami::storage::exist_storage(st2) said not exist,
-                     * but it can't register_storage.
+                     * but it can't register_storage. Another recovery thread
+                     * may have registered it for a normal entry meanwhile.
                      */
                     LOG(FATAL) << log_location_prefix << "library programming error.";
                 }
-- 
2.43.0


From c7c54a2fa3ff018e4b6b1923a73b12f90f0eda38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 00:24:10 +0000
Subject: [PATCH 25/28] fix: parallel recovery inserted into the sequence map
 without lock

Recovery threads pushed sequences at the same time, which damaged the map.
---
 src/datastore/limestone/datastore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datastore/limestone/datastore.cpp b/src/datastore/limestone/datastore.cpp
index 047904c..5ed6680 100644
--- a/src/datastore/limestone/datastore.cpp
+++ b/src/datastore/limestone/datastore.cpp
@@ -171,6 +171,9 @@ static auto recovery_from_cursor(std::unique_ptr<limestone::api::cursor> cursor)
             SequenceValue value{};
             memcpy(&value, val.data() + sizeof(version), // NOLINT
                    sizeof(version));
+            // other recovery threads may push too
+            std::lock_guard<std::shared_mutex> lk{
+                    sequence::sequence_map_smtx()};
             auto ret = sequence::sequence_map_push(id, 0, version, value);
             if (ret != Status::OK) {
                 LOG(FATAL) << log_location_prefix << "library programming error.";
-- 
2.43.0


From b8f6a38cad7dc23882a91b8c03ef56cce55b28d0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 02:01:14 +0000
Subject: [PATCH 26/28] fix: scan of long tx was not in the read plan of the
 waiting commit

---
 src/concurrency_control/include/session.h     | 50 +++++++++++++++++++
 .../interface/scan/open_scan.cpp              |  2 +
 2 files changed, 52 insertions(+)

diff --git a/src/concurrency_control/include/session.h b/src/concurrency_control/include/session.h
index 7799ab7..b021095 100644
--- a/src/concurrency_control/include/session.h
+++ b/src/concurrency_control/include/session.h
@@ -523,6 +523,56 @@ public:
         }
     }
 
+    void insert_to_ltx_storage_read_set(Storage const st,
+                                        std::string_view const l_key,
+                                        scan_endpoint const l_end,
+                                        std::string_view const r_key,
+                                        scan_endpoint const r_end) {
+        std::lock_guard<std::shared_mutex> lk{get_mtx_ltx_storage_read_set()};
+        // find entry
+        auto itr = get_ltx_storage_read_set().find(st);
+        if (itr == get_ltx_storage_read_set().end()) {
+            // no hit
+            get_ltx_storage_read_set().emplace(
+                    st, std::make_tuple(std::string(l_key), l_end,
+                                        std::string(r_key), r_end));
+            return;
+        }
+        std::string& now_lkey = std::get<0>(itr->second);
+        scan_endpoint& now_lpoint = std::get<1>(itr->second);
+        std::string& now_rkey = std::get<2>(itr->second);
+        scan_endpoint& now_rpoint = std::get<3>(itr->second);
+
+        // check initialize
+        if (now_lkey.empty() && now_lpoint == scan_endpoint::EXCLUSIVE &&
+            now_rkey.empty() && now_rpoint == scan_endpoint::EXCLUSIVE) {
+            now_lkey = l_key;
+            now_lpoint = l_end;
+            now_rkey = r_key;
+            now_rpoint = r_end;
+            return;
+        }
+
+        // hit, check left end
+        if (l_end == scan_endpoint::INF) {
+            now_lpoint = l_end;
+        } else if (now_lpoint != scan_endpoint::INF &&
+                   (l_key < now_lkey ||
+                    (l_key == now_lkey && l_end == scan_endpoint::INCLUSIVE))) {
+            now_lkey = l_key;
+            now_lpoint = l_end;
+        }
+        // check right end
+        if (r_end == scan_endpoint::INF) {
+            now_rpoint = r_end;
+        } else if (now_rpoint != scan_endpoint::INF &&
+                   (now_rkey < r_key ||
+                    (r_key == now_rkey && r_end == scan_endpoint::INCLUSIVE))) {
+            now_rkey = r_key;
+            now_rpoint = r_end;
+        }
+    }
+
     void push_to_read_set_for_stx(read_set_obj&& elem) {
         // take write lock
         std::lock_guard<std::shared_mutex> lk{mtx_read_set_for_stx_};
diff --git a/src/concurrency_control/interface/scan/open_scan.cpp b/src/concurrency_control/interface/scan/open_scan.cpp
index 951c208..7076533 100644
--- a/src/concurrency_control/interface/scan/open_scan.cpp
+++ b/src/concurrency_control/interface/scan/open_scan.cpp
@@ -280,6 +280,8 @@ static Status open_scan_precheck(
          */
         ti->get_range_read_set_for_ltx().insert(std::make_tuple(
                 rrbp, std::string(l_key), l_end, std::string(r_key), r_end));
+        // low priori ltx must know the range while this tx waits at commit
+        ti->insert_to_ltx_storage_read_set(storage, l_key, l_end, r_key, r_end);
     } else if (ti->get_tx_type() ==
                transaction_options::transaction_type::SHORT) {
         wp::page_set_meta* psm{};
-- 
2.43.0


From 9e626aabe2862957e59f031b5f8efbe5d7e7781a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 02:01:38 +0000
Subject: [PATCH 27/28] fix: waiting bypass lost the infinite ends of the read
 range it takes over

---
 src/concurrency_control/ongoing_tx.cpp | 39 +++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/concurrency_control/ongoing_tx.cpp b/src/concurrency_control/ongoing_tx.cpp
index 6a639d8..2cc3a65 100644
--- a/src/concurrency_control/ongoing_tx.cpp
+++ b/src/concurrency_control/ongoing_tx.cpp
@@ -134,21 +134,34 @@ Status ongoing_tx::waiting_bypass(session* ti) {
                             for (auto id : merge_source_ids) {
                                 ols_ids.insert(id);
                             }
-                            // merge read range, about left endpoint
-                            std::string left_end_source =
-                                    std::get<0>(std::get<1>(ols_elem.second));
-                            std::string& left_end_base = std::get<0>(
-                                    std::get<1>(local_ols_itr->second));
-                            if (left_end_source < left_end_base) {
-                                left_end_base = left_end_source;
+                            // merge read range
+                            auto& source_range = std::get<1>(ols_elem.second);
+                            auto& base_range =
+                                    std::get<1>(local_ols_itr->second);
+                            if (!std::get<4>(source_range)) { continue; }
+                            if (!std::get<4>(base_range)) {
+                                base_range = source_range;
+                                continue;
+                            }
+                            // about left endpoint
+                            if (std::get<0>(source_range) <
+                                std::get<0>(base_range)) {
+                                std::get<0>(base_range) =
+                                        std::get<0>(source_range);
+                            }
+                            if (std::get<1>(source_range) ==
+                                scan_endpoint::INF) {
+                                std::get<1>(base_range) = scan_endpoint::INF;
                             }
                             // about right endpoint
-                            std::string right_end_source =
-                                    std::get<2>(std::get<1>(ols_elem.second));
-                            std::string& right_end_base = std::get<2>(
-                                    std::get<1>(local_ols_itr->second));
-                            if (right_end_base < right_end_source) {
-                                right_end_base = right_end_source;
+                            if (std::get<2>(base_range) <
+                                std::get<2>(source_range)) {
+                                std::get<2>(base_range) =
+                                        std::get<2>(source_range);
+                            }
+                            if (std::get<3>(source_range) ==
+                                scan_endpoint::INF) {
+                                std::get<3>(base_range) = scan_endpoint::INF;
                             }
                         } else {
                             // not hit and create(copy) element
-- 
2.43.0


From 30eeb2fd0e8bd66511994ad97a04a92fc665fb91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 02:03:28 +0000
Subject: [PATCH 28/28] fix: read of high priority long tx was missed behind a
 read of low priority one

---
 src/concurrency_control/read_by.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/concurrency_control/read_by.cpp b/src/concurrency_control/read_by.cpp
index 7ad472d..6004653 100644
--- a/src/concurrency_control/read_by.cpp
+++ b/src/concurrency_control/read_by.cpp
@@ -25,10 +25,9 @@ bool point_read_by_long::is_exist(Token token) {
         } else if (elem.second == ltx_id) {
             LOG_FIRST_N(ERROR, 1) << log_location_prefix << "unreachable path";
             return true;
-        } else {
-            // elem is low priori than this.
-            break;
         }
+        // else: elem is low priori than this. The elements are in commit order,
+        // so high priori one may follow.
     }
 
     return false;
-- 
2.43.0


From 86c49d0e478b285eee20be03278b0e46b62a1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:46 +0000
Subject: [PATCH 01/89] fix: iterator seek with SMALLER must not land on a key
 greater than the sought one

---
 src/db_internal.h     |  2 +-
 src/iterator.cc       | 10 ++++++++--
 src/log_iterator.cc   | 10 ++++++++--
 src/log_mgr.h         |  2 +-
 src/table_iterator.cc | 10 ++++++++--
 src/table_mgr.h       |  2 +-
 6 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 70742da..95df691 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -264,7 +264,7 @@ public:
         Record lastRec;
     };
 
-    Status moveToLastValid();
+    Status moveToLastValid(bool skip_unreachable = false);
 
     Status seekInternal(const SizedBuf& key,
                         const uint64_t seqnum,
diff --git a/src/iterator.cc b/src/iterator.cc
index d54a883..4f1fef7 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -401,8 +401,14 @@ Status Iterator::gotoEnd() {
     return p->seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status Iterator::IteratorInternal::moveToLastValid() {
+Status Iterator::IteratorInternal::moveToLastValid(bool skip_unreachable) {
     windowCursor = avl_last(&curWindow);
+    while (skip_unreachable && windowCursor) {
+        // Skip items that could not move to (or below) the sought position.
+        ItrInt::ItrItem* item = _get_entry(windowCursor, ItrInt::ItrItem, an);
+        if (item->flags == ItrItem::none) break;
+        windowCursor = avl_prev(windowCursor);
+    }
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
         //
@@ -534,7 +540,7 @@ Status Iterator::IteratorInternal::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 0a65b40..f25ff4d 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -409,8 +409,14 @@ Status LogMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status LogMgr::Iterator::moveToLastValid() {
+Status LogMgr::Iterator::moveToLastValid(bool skip_unreachable) {
     windowCursor = avl_last(&curWindow);
+    while (skip_unreachable && windowCursor) {
+        // Skip items that could not move to (or below) the sought position.
+        ItrItem* item = _get_entry(windowCursor, ItrItem, an);
+        if (item->flags == ItrItem::none) break;
+        windowCursor = avl_prev(windowCursor);
+    }
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
         //
@@ -524,7 +530,7 @@ Status LogMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b08a888..a0e74f7 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -356,7 +356,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_unreachable = false);
 
         void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f6d2ebe..f007766 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -369,8 +369,14 @@ Status TableMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status TableMgr::Iterator::moveToLastValid() {
+Status TableMgr::Iterator::moveToLastValid(bool skip_unreachable) {
     windowCursor = avl_last(&curWindow);
+    while (skip_unreachable && windowCursor) {
+        // Skip items that could not move to (or below) the sought position.
+        ItrItem* item = _get_entry(windowCursor, ItrItem, an);
+        if (item->flags == ItrItem::none) break;
+        windowCursor = avl_prev(windowCursor);
+    }
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
         //
@@ -487,7 +493,7 @@ Status TableMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e951111..4d8801a 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -427,7 +427,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_unreachable = false);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         bool checkValidBySeq(ItrItem* item,
                              const uint64_t cur_seq,
-- 
2.43.0


From 9a25314641c48eced8d51a9ff04d5c2d27df4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:01 +0000
Subject: [PATCH 02/89] fix: a batch must not be written into a log file that
 is not writable

---
 src/log_mgr.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b881730..ca8d369 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -811,6 +811,12 @@ Status LogMgr::setMultiInternal(const std::list<Record>& batch,
     } while (!lf_info || lf_info->isRemoved());
     LogFileInfoGuard g_li(lf_info);
 
+    // If this file is not writable (e.g., it was loaded from disk),
+    // the batch should go to a new log file.
+    if (!g_li->file->isValidToWrite()) {
+        addNewLogFile(g_li, g_li);
+    }
+
     for (auto& entry: batch) {
         const Record& rr = entry;
         EP( g_li->file->setSN(rr) );
-- 
2.43.0


From 0463d0b73365633799d8624e89fad4b0fb2caac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:09 +0000
Subject: [PATCH 03/89] fix: memtable iterator seek must stay within the key
 range of the iterator

---
 src/memtable_iterator.cc | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e2aee3d..188cd13 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -253,19 +253,19 @@ Status MemTable::Iterator::seek
     skiplist_node* seek_node = nullptr;
 
     const SizedBuf* query_key_ptr = &key;
-    if (opt == GREATER && key.empty() && !startKey.empty()) {
-        // gotoBegin, and start key is given.
-        query_key_ptr = &startKey;
-    }
-    RecNode query(query_key_ptr);
-
-    bool fwd_search = true;
 
     if (opt == GREATER) {
-        fwd_search = true; // Foward search.
+        if ( !startKey.empty() &&
+             ( key.empty() || SizedBuf::cmp(key, startKey) < 0 ) ) {
+            // gotoBegin or out of range, and start key is given.
+            query_key_ptr = &startKey;
+        }
+        RecNode query(query_key_ptr);
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, true);
         if (!seek_node) {
+            // If not found, backward search from the end.
             if (endKey.empty()) {
                 // End key is not given.
                 seek_node = skiplist_end(mTable->idxByKey);
@@ -275,33 +275,36 @@ Status MemTable::Iterator::seek
                 seek_node = skiplist_find_smaller_or_equal
                             ( mTable->idxByKey, &end_query.snode );
             }
-            // If not found, backward search from the end.
-            fwd_search = false;
+            seek_node = findFirstValidNode(seek_node, false);
         }
 
     } else if (opt == SMALLER) {
-        fwd_search = false;
+        if ( !endKey.empty() && SizedBuf::cmp(key, endKey) > 0 ) {
+            // Out of range, and end key is given.
+            query_key_ptr = &endKey;
+        }
+        RecNode query(query_key_ptr);
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, false);
         if (!seek_node) {
+            // If not found, forward search from the beginning.
             if (startKey.empty()) {
                 // Start key is not given.
                 seek_node = skiplist_begin(mTable->idxByKey);
             } else {
-                // End key is given.
+                // Start key is given.
                 RecNode start_query(&startKey);
                 seek_node = skiplist_find_greater_or_equal
                             ( mTable->idxByKey, &start_query.snode );
             }
-            // If not found, forward search from the beginning.
-            fwd_search = true;
+            seek_node = findFirstValidNode(seek_node, true);
         }
 
     } else {
         assert(0);
     }
 
-    seek_node = findFirstValidNode(seek_node, fwd_search);
     if (!seek_node) return Status::OUT_OF_RANGE;
 
     cursor = seek_node;
-- 
2.43.0


From 9ec1e5e86044949fb525402bf99b08c06069d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:58 +0000
Subject: [PATCH 04/89] fix: iterator seek beyond the last key must not land on
 a superseded record

---
 src/iterator.cc       | 2 +-
 src/log_iterator.cc   | 2 +-
 src/table_iterator.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index 4f1fef7..b215cd6 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -545,7 +545,7 @@ Status Iterator::IteratorInternal::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index f25ff4d..68c05b0 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -535,7 +535,7 @@ Status LogMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f007766..177d6b8 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -498,7 +498,7 @@ Status TableMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
     return Status();
-- 
2.43.0


From 7b2af185f8b458a9bd5e802ee852c808248842c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:34 +0000
Subject: [PATCH 05/89] fix: iterator items left behind at one end must stay
 reachable in the other direction

---
 src/iterator.cc       | 4 ++--
 src/log_iterator.cc   | 4 ++--
 src/table_iterator.cc | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index b215cd6..30e8773 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -230,7 +230,7 @@ Status Iterator::prev() {
             (void)avl_ret;
             cursor = avl_last(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_prev;
+            item->flags = ItrInt::ItrItem::no_more_prev;
             cursor = avl_prev(&item->an);
         }
     }
@@ -338,7 +338,7 @@ Status Iterator::next() {
             (void)avl_ret;
             cursor = avl_first(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_next;
+            item->flags = ItrInt::ItrItem::no_more_next;
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 68c05b0..d7edd94 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -278,7 +278,7 @@ Status LogMgr::Iterator::prev() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_last(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            item->flags = ItrItem::no_more_prev;
             cursor = avl_prev(&item->an);
         }
     }
@@ -354,7 +354,7 @@ Status LogMgr::Iterator::next() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_first(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_next;
+            item->flags = ItrItem::no_more_next;
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 177d6b8..db87c3a 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -232,7 +232,7 @@ Status TableMgr::Iterator::prev() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            item->flags = ItrItem::no_more_prev;
             cursor = avl_prev(&item->an);
         }
     }
@@ -317,7 +317,7 @@ Status TableMgr::Iterator::next() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_next;
+            item->flags = ItrItem::no_more_next;
             cursor = avl_next(&item->an);
         }
     }
-- 
2.43.0


From c9c5b0c7fed55e27c7e68a97dc012d7df50e7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:01 +0000
Subject: [PATCH 06/89] fix: sequence number iterator must not return records
 outside the given range

---
 src/memtable_iterator.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 188cd13..fdf5d74 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -102,8 +102,8 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
          min_local < mTable->flushedSeqNum )
         min_local = mTable->flushedSeqNum;
 
-    if (min_local > mTable->maxSeqNum)
-        min_local = mTable->maxSeqNum;
+    // All records in this table are smaller than the given range.
+    if (min_local > mTable->maxSeqNum) return Status::OUT_OF_RANGE;
 
     minSeq = min_local;
 
@@ -127,6 +127,14 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
 
     maxSeq = max_local;
 
+    RecNodeSeq* rn = _get_entry(cursor, RecNodeSeq, snode);
+    if (rn->rec->seqNum > maxSeq) {
+        // No record belongs to the given range.
+        skiplist_release_node(cursor);
+        cursor = nullptr;
+        return Status::OUT_OF_RANGE;
+    }
+
     return Status();
 }
 
-- 
2.43.0


From 054b6b3758d1bfa6b00c7b04b62be36e7cec5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:23 +0000
Subject: [PATCH 07/89] fix: sequence number iterator on a snapshot must
 include records flushed later

---
 src/log_iterator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index d7edd94..a40d5d9 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -143,7 +143,9 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
                 }
                 l_info->grab(true);
             }
-            addLogFileItr(l_info, lMgr->getDbConfig()->logSectionOnly);
+            // NOTE: Logs that were flushed after the snapshot was taken
+            //       still belong to the snapshot.
+            addLogFileItr(l_info, true);
         }
         snapLogList = snap_handle->sn->logList;
     }
-- 
2.43.0


From 3eea4b7d0441da270b5ed4553a74e04d943621c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:33 +0000
Subject: [PATCH 08/89] fix: seeking a sequence number iterator at or below a
 number must not jump to the end

---
 src/memtable_iterator.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index fdf5d74..5c26425 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -380,25 +380,36 @@ Status MemTable::Iterator::seekSN
     RecNodeSeq query(&rec);
     query.rec->seqNum = seqnum;
 
+    // Returns `nullptr` (after releasing the node) if out of range.
+    auto check_range = [&](skiplist_node* node) -> skiplist_node* {
+        if (!node) return nullptr;
+        uint64_t node_seq = _get_entry(node, RecNodeSeq, snode)->rec->seqNum;
+        if (node_seq < minSeq || node_seq > maxSeq) {
+            skiplist_release_node(node);
+            return nullptr;
+        }
+        return node;
+    };
+
     if (opt == GREATER) {
         if (seqnum < minSeq) query.rec->seqNum = minSeq;
 
-        seek_node = skiplist_find_greater_or_equal
-                    ( mTable->idxBySeq, &query.snode );
+        seek_node = check_range( skiplist_find_greater_or_equal
+                                 ( mTable->idxBySeq, &query.snode ) );
         if (!seek_node) {
             query.rec->seqNum = maxSeq;
-            seek_node = skiplist_find_smaller_or_equal
-                        ( mTable->idxBySeq, &query.snode );
+            seek_node = check_range( skiplist_find_smaller_or_equal
+                                     ( mTable->idxBySeq, &query.snode ) );
         }
     } else if (opt == SMALLER) {
-        if (seqnum < maxSeq) query.rec->seqNum = maxSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
-        seek_node = skiplist_find_smaller_or_equal
-                    ( mTable->idxBySeq, &query.snode );
+        seek_node = check_range( skiplist_find_smaller_or_equal
+                                 ( mTable->idxBySeq, &query.snode ) );
         if (!seek_node) {
             query.rec->seqNum = minSeq;
-            seek_node = skiplist_find_greater_or_equal
-                        ( mTable->idxBySeq, &query.snode );
+            seek_node = check_range( skiplist_find_greater_or_equal
+                                     ( mTable->idxBySeq, &query.snode ) );
         }
     } else {
         assert(0);
-- 
2.43.0


From b2690cf301d382c91bf99269a63397727d1621e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:19 +0000
Subject: [PATCH 09/89] fix: lookups on a snapshot must search the tables of
 that snapshot

Point and nearest lookups on a snapshot walked the current manifest, so that
they failed (SNAPSHOT_NOT_FOUND) or returned data outside the snapshot once
compaction replaced the tables.  An older version found after the newer one
was also mistaken for an error, making get return OK with an empty record.
---
 src/table_mgr.cc | 48 +++++++++++++++++++++++++++++++++++++++---------
 src/table_mgr.h  |  3 +++
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 22e0f59..e2d5d33 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -556,6 +556,21 @@ Status TableMgr::storeManifest() {
     return Status();
 }
 
+void TableMgr::getTablesOfSnapshot(DB* snap_handle,
+                                   std::list<TableInfo*>& tables_out)
+{
+    // WARNING:
+    //   Tables in the current manifest may be different from those at the
+    //   time the snapshot was created (e.g., replaced by compaction).
+    //   The snapshot should search its own tables only.
+    if (!snap_handle->sn->tableList) return;
+    for (TableInfo* t_info: *snap_handle->sn->tableList) {
+        // The snapshot itself holds a reference, so that it is safe to grab.
+        t_info->grab();
+        tables_out.push_back(t_info);
+    }
+}
+
 Status TableMgr::get(DB* snap_handle,
                      Record& rec_inout,
                      bool meta_only)
@@ -567,18 +582,23 @@ Status TableMgr::get(DB* snap_handle,
 
     Status s;
     Record latest_rec;
-    size_t num_levels = mani->getNumLevels();
+    // If snapshot: search all tables of the snapshot at once.
+    size_t num_levels = (snap_handle) ? 1 : mani->getNumLevels();
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
-        if (!s) continue;
+        if (snap_handle) {
+            getTablesOfSnapshot(snap_handle, tables);
+        } else {
+            s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
+            if (!s) continue;
+        }
 
         TableInfo* sm_table = nullptr;
         // [Only for L0]
         // Search smallest normal table first and then the others,
         // as it always has the newest data for the same key.
-        if (ii == 0) {
+        if (ii == 0 && !snap_handle) {
             sm_table = getSmallestNormalTable(tables);
             if (sm_table) {
                 Record new_rec;
@@ -629,7 +649,11 @@ Status TableMgr::get(DB* snap_handle,
                 new_rec.kv.key.clear();
                 new_rec.free();
 
-                if (s != Status::KEY_NOT_FOUND) {
+                // `SNAPSHOT_NOT_FOUND`: the table has no data that belongs
+                //                       to the given snapshot.
+                if ( !s.ok() &&
+                     s != Status::KEY_NOT_FOUND &&
+                     s != Status::SNAPSHOT_NOT_FOUND ) {
                     // This is intolerable error.
                     found_intolerable_error = true;
                 }
@@ -704,15 +728,20 @@ Status TableMgr::getNearest(DB* snap_handle,
     };
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
+    // If snapshot: search all tables of the snapshot at once.
+    size_t num_levels = (snap_handle) ? 1 : mani->getNumLevels();
 
     // NOTE:
     //   Unlike point query, nearest search should check the all level,
     //   as closer key may exist in lower levels.
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesNearest(ii, key, tables, s_opt);
-        if (!s) continue;
+        if (snap_handle) {
+            getTablesOfSnapshot(snap_handle, tables);
+        } else {
+            s = mani->getTablesNearest(ii, key, tables, s_opt);
+            if (!s) continue;
+        }
 
         bool found_intolerable_error = false;
         for (TableInfo* table: tables) {
@@ -731,7 +760,8 @@ Status TableMgr::getNearest(DB* snap_handle,
                                          meta_only );
             if (s) {
                 update_cur_nearest(returned_rec);
-            } else if (s != Status::KEY_NOT_FOUND) {
+            } else if ( s != Status::KEY_NOT_FOUND &&
+                        s != Status::SNAPSHOT_NOT_FOUND ) {
                 // This is intolerable error.
                 found_intolerable_error = true;
             }
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 4d8801a..918363e 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -497,6 +497,9 @@ protected:
                               TableFile*& table_file_out,
                               const TableFileOptions& t_opt);
 
+    void getTablesOfSnapshot(DB* snap_handle,
+                             std::list<TableInfo*>& tables_out);
+
     TableInfo* getSmallestSrcTable(const std::list<TableInfo*>& tables,
                                    uint32_t target_hash_num = _SCU32(-1));
 
-- 
2.43.0


From 5368c3632653a77955528feb9757596abcbfc8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:52 +0000
Subject: [PATCH 10/89] fix: prefix search on a snapshot must search the tables
 of that snapshot

---
 src/table_mgr.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index e2d5d33..0a9a394 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -787,18 +787,25 @@ Status TableMgr::getPrefix(DB* snap_handle,
     if (db_config->logSectionOnly) return Status::KEY_NOT_FOUND;
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
+    // If snapshot: search all tables of the snapshot at once.
+    size_t num_levels = (snap_handle) ? 1 : mani->getNumLevels();
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPrefix(ii, prefix, tables);
-        if (!s) continue;
+        if (snap_handle) {
+            getTablesOfSnapshot(snap_handle, tables);
+        } else {
+            s = mani->getTablesPrefix(ii, prefix, tables);
+            if (!s) continue;
+        }
 
         bool stopped = false;
         bool found_intolerable_error = false;
         for (TableInfo* table: tables) {
             if (!stopped && !found_intolerable_error) {
                 s = table->file->getPrefix(snap_handle, prefix, cb_func);
+                // No data that belongs to the given snapshot.
+                if (s == Status::SNAPSHOT_NOT_FOUND) s = Status::KEY_NOT_FOUND;
             }
             table->done();
             if (s == Status::OPERATION_STOPPED) stopped = true;
-- 
2.43.0


From b172796d0f20e6f4e4d02838362b3b18d159cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:07 +0000
Subject: [PATCH 11/89] fix: prefix search on a snapshot must not return
 records outside the snapshot

---
 src/jungle.cc  | 6 ++----
 src/log_mgr.cc | 5 ++---
 src/log_mgr.h  | 3 +--
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index 36427be..a15ff04 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -846,9 +846,8 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     };
 
     Record rec_local;
-    uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
-    std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    s = p->logMgr->getPrefix(chknum, l_list, prefix, cb_wrapper);
+    DB* snap_handle = (this->sn)?(this):(nullptr);
+    s = p->logMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if (s == Status::OPERATION_STOPPED) {
         // User wants to stop, return OK.
         return Status::OK;
@@ -858,7 +857,6 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     }
 
     // Key not found or user wants to continue, search tables.
-    DB* snap_handle = (this->sn)?(this):(nullptr);
     s = p->tableMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if ( !s.ok() &&
          s != Status::OPERATION_STOPPED &&
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ca8d369..1051827 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1160,8 +1160,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
 
 #else
 // Iterator based implementation, which provides snapshot and key ordering.
-Status LogMgr::getPrefix(const uint64_t chk,
-                         std::list<LogFileInfo*>* l_list,
+Status LogMgr::getPrefix(DB* snap_handle,
                          const SizedBuf& prefix,
                          SearchCbFunc cb_func)
 {
@@ -1176,7 +1175,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
     };
 
     // Create an iterator, starting from prefix.
-    s = itr.init(nullptr, this, prefix, dummy);
+    s = itr.init(snap_handle, this, prefix, dummy);
     do {
         Record rec;
         s = itr.get(rec);
diff --git a/src/log_mgr.h b/src/log_mgr.h
index a0e74f7..9f7c78d 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -196,8 +196,7 @@ public:
                       Record& rec_out,
                       SearchOptions s_opt);
 
-    Status getPrefix(const uint64_t chk,
-                     std::list<LogFileInfo*>* l_list,
+    Status getPrefix(DB* snap_handle,
                      const SizedBuf& prefix,
                      SearchCbFunc cb_func);
 
-- 
2.43.0


From d5a29ac71932397544a9629d3dedaf7afcf96c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:57 +0000
Subject: [PATCH 12/89] fix: nearest search must skip records that are not
 visible or already flushed

When the closest key in a memtable has no record visible to the snapshot (or
only flushed ones), the search gave up on that memtable although the next
closest key may qualify.
---
 src/memtable.cc | 81 ++++++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..b6b1e2d 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -640,48 +640,59 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
         cursor = skiplist_find_smaller_or_equal(idxByKey, &query.snode);
         break;
     }
-    if (!cursor) return Status::KEY_NOT_FOUND;
 
-    RecNode* node = _get_entry(cursor, RecNode, snode);
-    if (!s_opt.isExactMatchAllowed()) {
-        // Exact match is not allowed. Move the cursor if the current
-        // cursor is pointing to the same key.
-        while (SizedBuf::cmp(key, node->key) == 0) {
-            skiplist_node* prev_cursor = cursor;
-            if (s_opt == SearchOptions::GREATER) {
-                cursor = skiplist_next(idxByKey, prev_cursor);
-            } else {
-                cursor = skiplist_prev(idxByKey, prev_cursor);
-            }
-            skiplist_release_node(prev_cursor);
-            if (!cursor) return Status::KEY_NOT_FOUND;
+    while (cursor) {
+        RecNode* node = _get_entry(cursor, RecNode, snode);
 
-            node = _get_entry(cursor, RecNode, snode);
+        // If exact match is not allowed, skip the node pointing to the same key.
+        Record* rec_ret = nullptr;
+        if ( s_opt.isExactMatchAllowed() ||
+             cmpKey(&query.snode, &node->snode, idxByKey->aux) != 0 ) {
+            rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
         }
-    }
 
-    Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-    if (!rec_ret) {
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
-    }
-    if ( valid_number(flushedSeqNum) &&
-         rec_ret->seqNum <= flushedSeqNum ) {
-        // Already purged KV pair, go to table.
-        if (!allow_flushed_log) {
+        if ( rec_ret &&
+             !allow_flushed_log &&
+             valid_number(flushedSeqNum) &&
+             rec_ret->seqNum <= flushedSeqNum ) {
+            // Already purged KV pair, go to table.
+            // Tolerate if this is snapshot.
+            rec_ret = nullptr;
+        }
+
+        if (rec_ret && !allow_tombstone && rec_ret->isDel()) {
+            // Last operation is deletion.
+            rec_ret = nullptr;
+        }
+
+        if (rec_ret) {
+            rec_out = *rec_ret;
             skiplist_release_node(&node->snode);
-            return Status::KEY_NOT_FOUND;
-        } // Tolerate if this is snapshot.
-    }
+            return Status();
+        }
 
-    if ( !allow_tombstone && rec_ret->isDel() ) {
-        // Last operation is deletion.
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
+        // The record of this node is not available. Other than exact match
+        // query, the next closest node should be examined.
+        skiplist_node* cur_cursor = cursor;
+        switch (s_opt) {
+        default:
+        case SearchOptions::EQUAL:
+            cursor = nullptr;
+            break;
+
+        case SearchOptions::GREATER:
+        case SearchOptions::GREATER_OR_EQUAL:
+            cursor = skiplist_next(idxByKey, cur_cursor);
+            break;
+
+        case SearchOptions::SMALLER:
+        case SearchOptions::SMALLER_OR_EQUAL:
+            cursor = skiplist_prev(idxByKey, cur_cursor);
+            break;
+        }
+        skiplist_release_node(cur_cursor);
     }
-    rec_out = *rec_ret;
-    skiplist_release_node(&node->snode);
-    return Status();
+    return Status::KEY_NOT_FOUND;
 }
 
 Status MemTable::getRecordsByPrefix(const uint64_t chk,
-- 
2.43.0


From 61e2d6d13d0ca500c45af2352e36a8be3e3cbd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:38 +0000
Subject: [PATCH 13/89] fix: prefix search must visit every table whose keys
 may match the prefix

---
 src/table_manifest.cc | 56 ++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e52cc1b..d283c11 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -801,40 +801,46 @@ Status TableManifest::getTablesPrefix(const size_t level,
         return getTablesByHash(l_info, target_hash, tables_out);
 
     } else {
-        // Other levels: return 1 or 2 tables
-        //   If next table's min key has matched prefix,
-        //   return the next table as well.
+        // Other levels: return the table that may contain the prefix itself,
+        //   and all following tables whose min key has matched prefix.
         TableInfo query(level, 0, 0, true);
         query.minKey.referTo(prefix);
         skiplist_node* cursor = skiplist_find_smaller_or_equal
                                 ( l_info->tables, &query.snode );
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
-        if (cursor) {
-            skiplist_node* cur_next = skiplist_next(l_info->tables, cursor);
-            if (cur_next) {
-                TableInfo* t_info = _get_entry(cur_next, TableInfo, snode);
-                // Check if prefix matches.
-                if ( t_info->minKey.size < prefix.size ||
-                     SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
-                                    prefix ) != 0 ) {
-                    // Prefix doesn't match, don't need to search next table.
-                    // SHOULD RELEASE SKIPLIST NODE.
-                    skiplist_release_node(cur_next);
-                    cur_next = nullptr;
+        auto add_table = [&](skiplist_node* node) {
+            TableInfo* t_info = _get_entry(node, TableInfo, snode);
+            t_info->grab();
+            pushTablesInStack(t_info, tables_out);
+            tables_out.push_back(t_info);
+        };
+
+        bool is_first_table = true;
+        while (cursor) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            if (is_first_table) {
+                if (t_info->prevTableSearchRequired) {
+                    skiplist_node* cur_prev = skiplist_prev(l_info->tables, cursor);
+                    if (cur_prev) {
+                        add_table(cur_prev);
+                        skiplist_release_node(cur_prev);
+                    }
                 }
+            } else if ( t_info->minKey.size < prefix.size ||
+                        SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
+                                       prefix ) != 0 ) {
+                // Prefix doesn't match, don't need to search more tables.
+                // SHOULD RELEASE SKIPLIST NODE.
+                skiplist_release_node(cursor);
+                break;
             }
+            add_table(cursor);
 
-            for (skiplist_node* cc: {cursor, cur_next}) {
-                if (!cc) continue;
-
-                TableInfo* t_info = _get_entry(cc, TableInfo, snode);
-                t_info->grab();
-                pushTablesInStack(t_info, tables_out);
-                tables_out.push_back(t_info);
-
-                skiplist_release_node(cc);
-            }
+            skiplist_node* cur_next = skiplist_next(l_info->tables, cursor);
+            skiplist_release_node(cursor);
+            cursor = cur_next;
+            is_first_table = false;
         }
     }
 
-- 
2.43.0


From 0f5ac2055932fec1e89b14fc83031001f72af385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:09 +0000
Subject: [PATCH 14/89] fix: nearest search must look beyond adjacent tables
 without matching records

---
 src/table_mgr.cc | 90 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 30 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 0a9a394..ac4e53b 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -735,42 +735,72 @@ Status TableMgr::getNearest(DB* snap_handle,
     //   Unlike point query, nearest search should check the all level,
     //   as closer key may exist in lower levels.
     for (size_t ii=0; ii<num_levels; ++ii) {
-        std::list<TableInfo*> tables;
-        if (snap_handle) {
-            getTablesOfSnapshot(snap_handle, tables);
-        } else {
-            s = mani->getTablesNearest(ii, key, tables, s_opt);
-            if (!s) continue;
-        }
+        // Position to find the tables to search. It moves on if the tables
+        // found so far do not contain any matching record.
+        SizedBuf table_pos;
+        SizedBuf::Holder h_table_pos(table_pos);
+        key.copyTo(table_pos);
+
+        bool need_more_tables = true;
+        while (need_more_tables) {
+            need_more_tables = false;
+
+            std::list<TableInfo*> tables;
+            if (snap_handle) {
+                getTablesOfSnapshot(snap_handle, tables);
+            } else {
+                s = mani->getTablesNearest(ii, table_pos, tables, s_opt);
+                if (!s) break;
+            }
 
-        bool found_intolerable_error = false;
-        for (TableInfo* table: tables) {
-            if (found_intolerable_error) {
+            bool found_record = false;
+            bool found_intolerable_error = false;
+            SizedBuf edge_key;
+            SizedBuf::Holder h_edge_key(edge_key);
+            for (TableInfo* table: tables) {
+                if (table->baseTable && (edge_key.empty() || s_opt.isGreater())) {
+                    edge_key.free();
+                    table->minKey.copyTo(edge_key);
+                }
+
+                if (found_intolerable_error) {
+                    table->done();
+                    continue;
+                }
+
+                Record returned_rec;
+                // WARNING: SHOULD NOT free `key` here
+                //          as it is given by caller.
+                s = table->file->getNearest( snap_handle,
+                                             key,
+                                             returned_rec,
+                                             s_opt,
+                                             meta_only );
+                if (s) {
+                    found_record = true;
+                    update_cur_nearest(returned_rec);
+                } else if ( s != Status::KEY_NOT_FOUND &&
+                            s != Status::SNAPSHOT_NOT_FOUND ) {
+                    // This is intolerable error.
+                    found_intolerable_error = true;
+                }
                 table->done();
-                continue;
             }
 
-            Record returned_rec;
-            // WARNING: SHOULD NOT free `key` here
-            //          as it is given by caller.
-            s = table->file->getNearest( snap_handle,
-                                         key,
-                                         returned_rec,
-                                         s_opt,
-                                         meta_only );
-            if (s) {
-                update_cur_nearest(returned_rec);
-            } else if ( s != Status::KEY_NOT_FOUND &&
-                        s != Status::SNAPSHOT_NOT_FOUND ) {
-                // This is intolerable error.
-                found_intolerable_error = true;
+            if (found_intolerable_error) {
+                cur_nearest.free();
+                return s;
             }
-            table->done();
-        }
 
-        if (found_intolerable_error) {
-            cur_nearest.free();
-            return s;
+            if ( !snap_handle && ii > 0 && !found_record &&
+                 !edge_key.empty() && edge_key != table_pos ) {
+                // All tables adjacent to the current position do not have
+                // any matching record (e.g., all of them were removed).
+                // Should go further.
+                table_pos.free();
+                edge_key.moveTo(table_pos);
+                need_more_tables = true;
+            }
         }
     }
     if (cur_nearest.empty()) return Status::KEY_NOT_FOUND;
-- 
2.43.0


From 75ae9ae70267ecb1340bc5bcc82a3ab9be9a8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:43 +0000
Subject: [PATCH 15/89] fix: opening a checkpoint whose logs are already purged
 must not leave a null log list

---
 src/log_mgr.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 1051827..c08d5be 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -391,6 +391,11 @@ Status LogMgr::openSnapshot(DB* snap_handle,
     {   mGuard l(sMapLock);
         sMap.insert( std::make_pair(snap_handle, l_list) );
     }
+    // NOTE:
+    //   The list should be given to the handle even though this function
+    //   fails. If all logs corresponding to the given checkpoint are already
+    //   purged, the list is empty and the snapshot consists of tables only.
+    log_file_list_out = l_list;
 
     uint64_t l_num_min;
     uint64_t l_num_max;
@@ -435,6 +440,7 @@ Status LogMgr::openSnapshot(DB* snap_handle,
                     l_info->done();
                 }
             }
+            l_list->clear();
 
             retry_init = true;
             break;
@@ -445,7 +451,6 @@ Status LogMgr::openSnapshot(DB* snap_handle,
     break;
    }
 
-    log_file_list_out = l_list;
     return Status();
 }
 
-- 
2.43.0


From 1b8e64965105ff19603f5acc19c958bea5de6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:49 +0000
Subject: [PATCH 16/89] fix: table bloom filter must include deleted keys

Otherwise a deletion in a newer table is skipped by the filter, and the
overwritten value in an older table becomes visible again.
---
 src/table_file.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4742da0..acfe0cc 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -919,13 +919,13 @@ Status TableFile::setSingle(uint32_t key_hash_val,
 
     offset_out = doc.offset;
 
-    if (rec.isIns()) {
-        // Set bloom filter if exists.
-        if (bfByKey) {
-            uint64_t hash_pair[2];
-            get_hash_pair(db_config, rec.kv.key, false, hash_pair);
-            bfByKey->set(hash_pair);
-        }
+    // Set bloom filter if exists.
+    // NOTE: Tombstones should be included as well, otherwise older versions
+    //       in the other tables become visible again.
+    if (bfByKey) {
+        uint64_t hash_pair[2];
+        get_hash_pair(db_config, rec.kv.key, false, hash_pair);
+        bfByKey->set(hash_pair);
     }
     // Put into booster if exists.
     if (tlbByKey) {
-- 
2.43.0


From 89e1cbe09ae69cd86922e30a71ec842d275e14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:41 +0000
Subject: [PATCH 17/89] fix: direct-IO fsync after a truncation must not be
 skipped

---
 src/fileops_directio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..5a8a508 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -575,6 +575,9 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         phandle->flushedFilePos = length;
         phandle->bufPos = need_align;
     }
+    // Data written beyond this point is not durable yet.
+    phandle->fsyncedFilePos = std::min(phandle->fsyncedFilePos,
+                                       phandle->flushedFilePos);
 
     // Double check file size
     file_size_tmp = eof(fhandle);
-- 
2.43.0


From fbafcd87735989934f072f9c9216434f9d06efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:54 +0000
Subject: [PATCH 18/89] fix: direct-IO fsync must cover data written before
 reopening the file

---
 src/fileops_directio.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 5a8a508..73cad68 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -208,11 +208,12 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
     if (file_size_tmp < 0) return Status::ERROR;
     auto file_size = static_cast<size_t>(file_size_tmp);
 
+    // Existing data is not necessarily durable yet,
+    // `fsyncedFilePos` should start from 0.
     size_t need_align = file_size % alignSize;
     if (need_align == 0) {
         fhandle->filePos = file_size;
         fhandle->flushedFilePos = file_size;
-        fhandle->fsyncedFilePos = file_size;
         fhandle->bufPos = 0;
     } else {
         // Read the last un-aligned data
@@ -223,7 +224,6 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
                         file_size - need_align));
         fhandle->filePos = file_size - need_align;
         fhandle->flushedFilePos = file_size;
-        fhandle->fsyncedFilePos = file_size;
         fhandle->bufPos = need_align;
     }
 
-- 
2.43.0


From 3889271ffa5d69e3af6a27e0e76c4b8816037106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:12 +0000
Subject: [PATCH 19/89] fix: direct-IO padding spilled to the next block must
 stay recognizable

---
 src/fileops_directio.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 73cad68..92d3473 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -463,8 +463,18 @@ Status FileOpsDirectIO::flush(FileHandle* fhandle) {
                       PADDING_HEADER_FLAG,
                       0,
                       offset);
+        if (padding > alignSize) {
+            // The padding spills over to the next block. If following data
+            // exactly fill the current block, that next block will remain
+            // after them, so that it should begin with the flag as well.
+            offset = 0;
+            append_mem_64(phandle->bufCharPtr + aligned_pos - alignSize,
+                          PADDING_HEADER_FLAG,
+                          0,
+                          offset);
+        }
     }
-    assert(aligned_pos > 0 && aligned_pos <= bufferSize);
+    assert(aligned_pos > 0 && aligned_pos <= bufferSize + alignSize);
 
     size_t num_tries = 0;
     size_t sleep_time_us = 1;
-- 
2.43.0


From 2c17387b8e2e9dfdafe53936086cccad8e28931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:12 +0000
Subject: [PATCH 20/89] fix: direct-IO read buffer must fit every instance of
 the thread

---
 src/fileops_directio.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 92d3473..4a53beb 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -288,13 +288,24 @@ Status FileOpsDirectIO::pread(FileHandle* fhandle,
     if (offset + count > file_size) return Status::FILE_SIZE_MISMATCH;
 
     // Aligned buffer to direct read
-    thread_local void* aligned_buf = nullptr;
-    thread_local Status aligned_buf_status = allocAlignedBuf(&aligned_buf);
-    thread_local auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
-    if (!aligned_buf_status) return aligned_buf_status;
-    assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
-    thread_local AlignedMemoryHolder buf_holder(aligned_buf);
-    (void) buf_holder;
+    // NOTE: It is shared by all instances having different buffer size
+    //       or alignment, so that need to check if it fits this instance.
+    thread_local AlignedMemoryHolder buf_holder(nullptr);
+    thread_local size_t aligned_buf_size = 0;
+    thread_local size_t aligned_buf_align = 0;
+    if ( !buf_holder.bufPtr ||
+         aligned_buf_size < bufferSize + alignSize ||
+         aligned_buf_align < alignSize ) {
+        void* new_buf = nullptr;
+        Status as = allocAlignedBuf(&new_buf);
+        if (!as) return as;
+        free(buf_holder.bufPtr);
+        buf_holder.bufPtr = new_buf;
+        aligned_buf_size = bufferSize + alignSize;
+        aligned_buf_align = alignSize;
+    }
+    void* aligned_buf = buf_holder.bufPtr;
+    auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
 
     Status s;
     size_t aligned_file_offset = offset;
-- 
2.43.0


From aea47e72b1952d179700e7a2d60edede44b8de21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:21 +0000
Subject: [PATCH 21/89] fix: serializer must not read or write beyond its
 buffer

---
 src/internal_helper.cc | 49 +++++++++++++++++++++++++-----------------
 src/internal_helper.h  |  2 +-
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 56157af..3ffafd2 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -51,29 +51,36 @@ size_t RwSerializer::pos(size_t new_pos) {
     return curPos;
 }
 
-void RwSerializer::chkResize(size_t new_data_size) {
-    // Not resizable mode.
-    if (!rBuf) return;
+Status RwSerializer::chkResize(size_t new_data_size) {
+    // File mode.
+    if (fOps) return Status();
+
+    if (rBuf) {
+        // Resizable mode.
+        if (rBuf->empty()) {
+            // Allocate 32 bytes if empty.
+            rBuf->alloc(32);
+        }
 
-    if (rBuf->empty()) {
-        // Allocate 32 bytes if empty.
-        rBuf->alloc(32);
+        size_t new_buf_size = rBuf->size;
+        while (curPos + new_data_size > new_buf_size) {
+            // Double the size.
+            new_buf_size *= 2;
+        }
+        rBuf->resize(new_buf_size);
+        dstPtr = rBuf->data;
+        len = rBuf->size;
     }
 
-    size_t new_buf_size = rBuf->size;
-    while (curPos + new_data_size > new_buf_size) {
-        // Double the size.
-        new_buf_size *= 2;
-    }
-    rBuf->resize(new_buf_size);
-    dstPtr = rBuf->data;
-    len = rBuf->size;
+    // Should not write beyond the end of the buffer.
+    if (curPos + new_data_size > len) return Status::WRITE_VIOLATION;
+    return Status();
 }
 
 Status RwSerializer::put(const void* data, size_t size) {
     uint64_t off = pos();
     Status s;
-    chkResize(size);
+    EP( chkResize(size) );
     if (dstPtr) {
         append_mem(dstPtr, data, size, 0, off);
     } else if (supportAppend) {
@@ -101,7 +108,7 @@ Status RwSerializer::putSb(const SizedBuf& s_buf) {
 Status RwSerializer::putU64(uint64_t val) {
     uint64_t off = pos();
     Status s;
-    chkResize( sizeof(val) );
+    EP( chkResize( sizeof(val) ) );
     if (dstPtr) {
         append_mem_64(dstPtr, val, 0, off);
     } else if (supportAppend) {
@@ -116,7 +123,7 @@ Status RwSerializer::putU64(uint64_t val) {
 Status RwSerializer::putU32(uint32_t val) {
     uint64_t off = pos();
     Status s;
-    chkResize( sizeof(val) );
+    EP( chkResize( sizeof(val) ) );
     if (dstPtr) {
         append_mem_32(dstPtr, val, 0, off);
     } else if (supportAppend) {
@@ -131,7 +138,7 @@ Status RwSerializer::putU32(uint32_t val) {
 Status RwSerializer::putU16(uint16_t val) {
     uint64_t off = pos();
     Status s;
-    chkResize( sizeof(val) );
+    EP( chkResize( sizeof(val) ) );
     if (dstPtr) {
         append_mem_16(dstPtr, val, 0, off);
     } else if (supportAppend) {
@@ -146,7 +153,7 @@ Status RwSerializer::putU16(uint16_t val) {
 Status RwSerializer::putU8(uint8_t val) {
     uint64_t off = pos();
     Status s;
-    chkResize( sizeof(val) );
+    EP( chkResize( sizeof(val) ) );
     if (dstPtr) {
         append_mem_8(dstPtr, val, 0, off);
     } else if (supportAppend) {
@@ -178,7 +185,9 @@ Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
     Status s;
     uint32_t len = getU32(s);
     s_buf_out.clear();
-    if (len) {
+    if (s && len) {
+        // Should not read beyond the end of the buffer.
+        if (dstPtr && !available(len)) return Status::READ_VIOLATION;
         if (clone) {
             s_buf_out.alloc(len);
             s = get(s_buf_out.data, len);
diff --git a/src/internal_helper.h b/src/internal_helper.h
index 295da48..021629f 100644
--- a/src/internal_helper.h
+++ b/src/internal_helper.h
@@ -91,7 +91,7 @@ public:
     size_t size();
     size_t pos() const;
     size_t pos(size_t new_pos);
-    void chkResize(size_t new_data_size);
+    Status chkResize(size_t new_data_size);
     Status put(const void* data, size_t size);
     Status putSb(const SizedBuf& s_buf);
     Status putU64(uint64_t val);
-- 
2.43.0


From c93d7430bdf23f5d8d2709ae5e16aed46a5b69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:21 +0000
Subject: [PATCH 22/89] fix: name of status SEQINDEX_UNAVAILABLE is missing

---
 include/libjungle/status.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libjungle/status.h b/include/libjungle/status.h
index 3ebf0f1..43eb905 100644
--- a/include/libjungle/status.h
+++ b/include/libjungle/status.h
@@ -175,7 +175,8 @@ public:
                 "INVALID_CONFIG",
                 "DECOMPRESSION_FAILED",
                 "OPERATION_STOPPED",
-                "MANIFEST_NOT_EXIST"
+                "MANIFEST_NOT_EXIST",
+                "SEQINDEX_UNAVAILABLE"
                 } );
         uint32_t index = -val;
         if (index < names.size()) {
-- 
2.43.0


From 3348cbc3baca6874e49df4092f0c44e6ebf9da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:18 +0000
Subject: [PATCH 23/89] fix: sequence numbers must not be reused after a crash
 between log files

If crash happened while syncing multiple log files, manifest file did not
know the last sequence number of the former log files, so that the next
(empty) log file started to assign sequence numbers from 1 again.
---
 src/log_manifest.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2d0708e..76119f2 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -446,6 +446,17 @@ Status LogManifest::load(const std::string& path,
         }
         first_file_read = true;
 
+        // The log file may contain more records than what manifest file knows,
+        // if crash happened before storing manifest file. They should be taken
+        // into account by the next log files, otherwise sequence numbers will
+        // be reused.
+        uint64_t loaded_max_seq = l_file->getMaxSeqNum();
+        if ( valid_number(loaded_max_seq) &&
+             ( !valid_number(last_synced_seq) ||
+               loaded_max_seq > last_synced_seq ) ) {
+            last_synced_seq = loaded_max_seq;
+        }
+
         _log_info( myLog,
                    "log %ld, min seq %s, last flush %s, last sync %s",
                    l_file_num,
-- 
2.43.0


From c3ec1915ab5a28da793b62a8a3fc199982bdbb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:10 +0000
Subject: [PATCH 24/89] fix: database without any valid log file must be
 writable

The new log file created at opening always got number 0, without updating
the max log file number, so that following writes failed or referred to a
non-existing log file.
---
 src/log_mgr.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c08d5be..c54dd2c 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -170,9 +170,13 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
 
     if (mani->getNumLogFiles() == 0) {
         // No valid log file exists. Start from zero.
-        _log_warn(myLog, "no valid log file exists, start from 0");
+        // NOTE: Log file number should be issued by manifest, otherwise
+        //       max log file number doesn't point to the new log file.
+        uint64_t log_num = 0;
+        TC(mani->issueLogFileNumber(log_num));
+        _log_warn(myLog, "no valid log file exists, start from %zu", log_num);
         std::string l_filename =
-                LogFile::getLogFileName(opt.path, opt.prefixNum, 0);
+                LogFile::getLogFileName(opt.path, opt.prefixNum, log_num);
         LogFile* l_file = new LogFile(this);
         l_file->setLogger(myLog);
 
@@ -181,9 +185,9 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
                           opt.dbConfig->directIoOpt.enabled
                               && FileOps::supportDirectIO()
                           ? opt.fDirectOps : opt.fOps,
-                          0,
+                          log_num,
                           0));
-        TC(mani->addNewLogFile(0, l_file, 1));
+        TC(mani->addNewLogFile(log_num, l_file, 1));
 
        } catch (Status s) {
         delete l_file;
-- 
2.43.0


From d236ae295548cad4e45490366560cb9b1ae06472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:28 +0000
Subject: [PATCH 25/89] fix: failed table initialization must return an error
 instead of crashing

---
 src/table_mgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index ac4e53b..383ff30 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -1014,7 +1014,8 @@ Status TableMgr::close() {
     do {
         wait_more = false;
         // non-LSM mode compaction.
-        for (size_t ii=0; ii<numL0Partitions; ++ii) {
+        // NOTE: It can be empty if initialization failed.
+        for (size_t ii=0; ii<compactStatus.size(); ++ii) {
             if (compactStatus[ii]->load()) {
                 wait_more = true;
                 break;
-- 
2.43.0


From 59b92a2c4d448ab2da6b32dcf324ac8399a3ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:31 +0000
Subject: [PATCH 26/89] fix: log manifest with garbage after its end must be
 loadable

A crash between writing a shorter manifest and truncating the file caused
restoring the backup, which may not have log files that were synced
without fsync.
---
 src/log_manifest.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 76119f2..d721eb4 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -262,6 +262,18 @@ Status LogManifest::load(const std::string& path,
 
     // Footer check
     RwSerializer ss(fOps, mFile);
+
+    // If crash happened in the middle of `storeInternal()`, after writing
+    // shorter data but before truncating the file, there can be garbage bytes
+    // at the end. The actual size is determined by the number of log files.
+    const size_t HEADER_SIZE = 28, ENTRY_SIZE = 32, FOOTER_SIZE = 16;
+    if (file_size >= HEADER_SIZE + FOOTER_SIZE) {
+        ss.pos(HEADER_SIZE - sizeof(uint32_t));
+        size_t num_entries = ss.getU32(s);
+        size_t actual_size = HEADER_SIZE + num_entries * ENTRY_SIZE + FOOTER_SIZE;
+        if (actual_size < file_size) file_size = actual_size;
+    }
+
     uint8_t chk_footer[8];
     ss.pos(file_size - 16);
     ss.get(chk_footer, 8);
-- 
2.43.0


From f4a910678f5b493246c1002fdbfadf2b9dd1289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:03 +0000
Subject: [PATCH 27/89] fix: sync with fsync must cover log files synced
 without fsync before

---
 src/log_mgr.cc | 14 ++++++++++++++
 src/log_mgr.h  |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c54dd2c..28d6f81 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -44,6 +44,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
     , needSkippedManiSync(false)
+    , fsyncPendingFrom(NOT_INITIALIZED)
     , myLog(nullptr)
     , vlSync(VERBOSE_LOG_SUPPRESS_MS)
     {}
@@ -1271,6 +1272,17 @@ Status LogMgr::syncInternal(bool call_fsync) {
           ln_from, ln_to, call_fsync ? "true" : "false",
           num_suppressed);
 
+    if (call_fsync) {
+        // Log files written by previous sync operations without `fsync`.
+        for (uint64_t ii=fsyncPendingFrom; ii<ln_from; ++ii) {
+            LogFileInfoGuard li(mani->getLogFileInfoP(ii));
+            if (li.empty() || li.ptr->isRemoved()) continue;
+            EP( li->file->sync() );
+        }
+    } else if (!valid_number(fsyncPendingFrom)) {
+        fsyncPendingFrom = ln_from;
+    }
+
     uint64_t last_synced_log = ln_from;
     uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
@@ -1311,6 +1323,8 @@ Status LogMgr::syncInternal(bool call_fsync) {
         }
     }
 
+    if (call_fsync) fsyncPendingFrom = NOT_INITIALIZED;
+
     // Sync up manifest file next
     mani->setLastSyncedLog(last_synced_log);
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 9f7c78d..65a0544 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -465,6 +465,11 @@ protected:
      */
     std::atomic<bool> needSkippedManiSync;
 
+    // The first log file written by a sync operation without `fsync`,
+    // protected by `syncSema`. All log files from it should be fsynced
+    // by the next sync operation with `fsync`.
+    uint64_t fsyncPendingFrom;
+
     /**
      * Logger.
      */
-- 
2.43.0


From bd9394497a53f4c4a5243247174877fe861402d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:58 +0000
Subject: [PATCH 28/89] fix: iterator must report damaged tables instead of
 using freed records

---
 src/iterator.cc       | 48 +++++++++++++++++++++++++++++++++----------
 src/table_iterator.cc |  6 +++++-
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index 30e8773..38539a7 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -139,6 +139,14 @@ Status Iterator::initSN(DB* db,
                                      p->db->p->tableMgr,
                                      min_seq,
                                      max_seq );
+    if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
+        // Intolerable error.
+        DELETE(ctx_table->tableItr);
+        DELETE(ctx_table);
+        close();
+        return s;
+    }
+
     if (s) s = ctx_table->tableItr->get(ctx_table->lastRec);
     if (s) {
         avl_node* ret =
@@ -211,13 +219,10 @@ Status Iterator::prev() {
                 s = item->tableItr->get(item->lastRec);
             }
 
-            avl_cmp_func* cmp_func = (p->type == ItrInt::BY_SEQ)
-                                     ? (ItrInt::ItrItem::cmpSeq)
-                                     : (ItrInt::ItrItem::cmpKey);
-            avl_node* avl_ret = avl_insert(&p->curWindow, &item->an, cmp_func);
-
             if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
                 // Intolerable error.
+                // NOTE: `lastRec` is not valid anymore,
+                //       do not put this item back to the window.
                 p->fatalError = s;
                 cur_key.free();
 
@@ -226,6 +231,11 @@ Status Iterator::prev() {
                 return Status();
             }
 
+            avl_cmp_func* cmp_func = (p->type == ItrInt::BY_SEQ)
+                                     ? (ItrInt::ItrItem::cmpSeq)
+                                     : (ItrInt::ItrItem::cmpKey);
+            avl_node* avl_ret = avl_insert(&p->curWindow, &item->an, cmp_func);
+
             assert(avl_ret == &item->an);
             (void)avl_ret;
             cursor = avl_last(&p->curWindow);
@@ -319,13 +329,10 @@ Status Iterator::next() {
                 s = item->tableItr->get(item->lastRec);
             }
 
-            avl_cmp_func* cmp_func = (p->type == ItrInt::BY_SEQ)
-                                     ? (ItrInt::ItrItem::cmpSeq)
-                                     : (ItrInt::ItrItem::cmpKey);
-            avl_node* avl_ret = avl_insert(&p->curWindow, &item->an, cmp_func);
-
             if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
                 // Intolerable error.
+                // NOTE: `lastRec` is not valid anymore,
+                //       do not put this item back to the window.
                 p->fatalError = s;
                 cur_key.free();
 
@@ -334,6 +341,11 @@ Status Iterator::next() {
                 return Status();
             }
 
+            avl_cmp_func* cmp_func = (p->type == ItrInt::BY_SEQ)
+                                     ? (ItrInt::ItrItem::cmpSeq)
+                                     : (ItrInt::ItrItem::cmpKey);
+            avl_node* avl_ret = avl_insert(&p->curWindow, &item->an, cmp_func);
+
             assert(avl_ret == &item->an);
             (void)avl_ret;
             cursor = avl_first(&p->curWindow);
@@ -495,8 +507,17 @@ Status Iterator::IteratorInternal::seekInternal
             if (item->tableItr) {
                 s = item->tableItr->get(item->lastRec);
             }
-            assert(s);
+        }
+
+        if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
+            // Intolerable error.
+            // NOTE: `lastRec` is not valid anymore,
+            //       do not put this item back to the window.
+            fatalError = s;
+            continue;
+        }
 
+        if (s) {
             int cmp = 0;
             if (goto_end) {
                 // Goto end: special case.
@@ -530,6 +551,11 @@ Status Iterator::IteratorInternal::seekInternal
         (void)avl_ret;
     }
 
+    if (!fatalError.ok()) {
+        windowCursor = nullptr;
+        return fatalError;
+    }
+
     if (opt == GREATER) {
         windowCursor = avl_first(&curWindow);
         while (windowCursor) {
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index db87c3a..e38cad0 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -471,6 +471,10 @@ Status TableMgr::Iterator::seekInternal
                 item->flags |= ItrItem::no_more_prev;
             }
         } else {
+            if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
+                // Intolerable error.
+                fatalError = s;
+            }
             item->flags = ItrItem::no_more_prev |
                           ItrItem::no_more_next;
         }
@@ -501,7 +505,7 @@ Status TableMgr::Iterator::seekInternal
         if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
-    return Status();
+    return fatalError;
 }
 
 
-- 
2.43.0


From c71e34f495643d94ec01ca6d4ad8132f9e57baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:49 +0000
Subject: [PATCH 29/89] fix: errors while reading or writing tables must not be
 ignored

---
 src/table_compaction.cc      | 25 ++++++++----
 src/table_file.cc            | 24 +++++++-----
 src/table_file_compaction.cc | 50 +++++++++++++++++++-----
 src/table_file_iterator.cc   |  4 ++
 src/table_mgr.h              | 36 +++++++++---------
 src/table_set_batch.cc       | 73 ++++++++++++++++++++----------------
 src/table_split.cc           | 52 +++++++++++++++----------
 src/table_writer.cc          |  7 +++-
 src/table_writer.h           | 30 ++++++++++++++-
 9 files changed, 201 insertions(+), 100 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 3f16ab5..c5c362f 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -81,7 +81,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     SizedBuf min_key_victim = local_victim->minKey;
     SizedBuf max_key_victim;
     SizedBuf::Holder h_max_key_victim(max_key_victim);
-    local_victim->file->getMaxKey(max_key_victim);
+    s = local_victim->file->getMaxKey(max_key_victim);
+    if (!s && s != Status::KEY_NOT_FOUND) throw s;
 
     {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
         std::lock_guard<std::mutex> l(mani->getLock());
@@ -117,7 +118,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     SizedBuf max_key_table;
     SizedBuf::Holder h_max_key_table(max_key_table);
     if (max_table) {
-        max_table->file->getMaxKey(max_key_table);
+        s = max_table->file->getMaxKey(max_key_table);
+        if (!s && s != Status::KEY_NOT_FOUND) throw s;
         if (max_key_table.empty()) {
             _log_info(myLog, "Table is empty, setting table's min key as the max key");
             max_table->minKey.copyTo(max_key_table);
@@ -384,7 +386,9 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             size_t value_size_out = 0;
             uint64_t offset_out = 0;
             s = itr->getMeta(rec_out, value_size_out, offset_out);
-            if (!s) break;
+            // Table is empty.
+            if (s == Status::KEY_NOT_FOUND) break;
+            if (!s) throw s;
 
             update_next_table_info(rec_out, offset_out, value_size_out);
 
@@ -406,6 +410,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     size_t max_writers = getDbConfig()->getMaxParallelWriters();
     std::list<uint64_t> dummy_chk;
     std::list<LsmFlushResult> results;
+    TableWriteResult write_result;
 
     if (num_new_tables) {
         // Extend new level if needed.
@@ -432,7 +437,10 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             if (!new_tables[jj]->table) {
                 TableFileOptions t_opt;
                 s = createNewTableFile(level + 1, cur_file, t_opt);
-                if (!s) continue;
+                if (!s) {
+                    write_result.set(s);
+                    continue;
+                }
             } else {
                 cur_file = new_tables[jj]->table->file;
             }
@@ -454,7 +462,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
                                                  count,
                                                  &dummy_chk,
                                                  local_victim->file,
-                                                 cur_file );
+                                                 cur_file,
+                                                 &write_result );
             if (!new_tables[jj]->table) {
                 // Newly created table, put into the list.
                 putLsmFlushResultWithKey( cur_file,
@@ -481,10 +490,12 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             }
         }
 
-        if (!isCompactionAllowed()) {
+        s = write_result.get();
+        if (s && !isCompactionAllowed()) s = Status::COMPACTION_CANCELLED;
+        if (!s) {
             // NOTE: keys will be freed below.
             for (LsmFlushResult& rr: results) delete rr.tFile;
-            throw Status(Status::COMPACTION_CANCELLED);
+            throw s;
         }
 
         ii += leased_writers + 1;
diff --git a/src/table_file.cc b/src/table_file.cc
index acfe0cc..7533e07 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -393,7 +393,7 @@ Status TableFile::create(size_t level,
         bfByKey = new BloomFilter(bf_bitmap_size, 3);
 
         // Initial save.
-        saveBloomFilter(filename + ".bf", bfByKey, true);
+        EP( saveBloomFilter(filename + ".bf", bfByKey, true) );
     }
 
     // Lookup booster.
@@ -513,16 +513,18 @@ Status TableFile::saveBloomFilter(const std::string& filename,
     ss.putU32(data_size);
     TC( fOps->pwrite(b_file, buf.data, buf.size, 0) );
     TC( fOps->pwrite(b_file, bf->getPtr(), data_size, buf.size) );
-    if (call_fsync) fOps->fsync(b_file);
+    if (call_fsync) {
+        TC( fOps->fsync(b_file) );
+    }
 
     EP( fOps->close(b_file) );
     DELETE(b_file);
     return Status::OK;
 
    } catch (Status s) {
-    EP( fOps->close(b_file) );
+    fOps->close(b_file);
     DELETE(b_file);
-    return Status::OK;
+    return s;
    }
 }
 
@@ -946,6 +948,7 @@ Status TableFile::setBatch(std::list<Record*>& batch,
     Timer tt;
     const DBConfig* db_config = tableMgr->getDbConfig();
 
+    Status s;
     uint64_t prev_seqnum = 0;
     size_t num_l0 = tableMgr->getNumL0Partitions();
     size_t set_count = 0;
@@ -972,13 +975,12 @@ Status TableFile::setBatch(std::list<Record*>& batch,
 
         // Append all checkpoints that
         //  `record[n-1] seqnum <= chk < record[n] seqnum`
-        setCheckpoint(rec, prev_seqnum, checkpoints);
+        EP( setCheckpoint(rec, prev_seqnum, checkpoints) );
 
         if (rec->isCmd()) continue;
 
         uint64_t offset_out = 0;
-        Status s = setSingle(hash_val, *rec, offset_out);
-        if (!s) return s;
+        EP( setSingle(hash_val, *rec, offset_out) );
 
         if (rec->isDel()) del_count++;
         else set_count++;
@@ -996,17 +998,19 @@ Status TableFile::setBatch(std::list<Record*>& batch,
     }
 
     // Set all remaining (record[n] <= chk) checkpoints.
-    setCheckpoint(nullptr, prev_seqnum, checkpoints, true);
+    EP( setCheckpoint(nullptr, prev_seqnum, checkpoints, true) );
 
     // Save bloom filter.
     // WARNING: Writing bloom filter SHOULD BE DONE BEFORE COMMIT.
     Timer tt_bf;
-    if (bfByKey) saveBloomFilter(filename + ".bf", bfByKey, true);
+    if (bfByKey) {
+        EP( saveBloomFilter(filename + ".bf", bfByKey, true) );
+    }
     uint64_t bf_elapsed = tt_bf.getUs();
 
     if (!bulk_load_mode) {
         // Commit and update index node (not in bulk load mode).
-        writer->commit();
+        EP( writer->commit() );
 
         // Pre-load & keep the snapshot of latest table file data.
         updateSnapshot();
diff --git a/src/table_file_compaction.cc b/src/table_file_compaction.cc
index d204cc0..184f380 100644
--- a/src/table_file_compaction.cc
+++ b/src/table_file_compaction.cc
@@ -205,7 +205,8 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
         } else {
             // WARNING: SHOULD KEEP THE SAME SEQUENCE NUMBER!
             ret_doc->flags = FDB_CUSTOM_SEQNUM;
-            fdb_set(dst_handle->db, ret_doc);
+            fdb_status set_fs = fdb_set(dst_handle->db, ret_doc);
+            if (set_fs != FDB_RESULT_SUCCESS) s = Status::FDB_SET_FAIL;
             cnt++;
             total_dirty += ret_doc->keylen + ret_doc->metalen + ret_doc->bodylen;
 
@@ -221,6 +222,8 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
         free(ret_doc->meta);
         free(ret_doc->body);
 
+        if (!s) return false;
+
         if (!tableMgr->isCompactionAllowed()) {
             s = Status::COMPACTION_CANCELLED;
             return false;
@@ -288,7 +291,10 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
             tmp_doc.offset = cur_offset;
 
             fs = fdb_get_byoffset_raw(compact_handle->db, &tmp_doc);
-            if (fs != FDB_RESULT_SUCCESS) break;
+            if (fs != FDB_RESULT_SUCCESS) {
+                s = toJungleStatus(fs);
+                break;
+            }
 
             if (!write_to_new_file(&tmp_doc)) {
                 break;
@@ -309,7 +315,11 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
 
             fdb_doc *ret_doc = &tmp_doc;
             fs = fdb_iterator_get(itr, &ret_doc);
-            if (fs != FDB_RESULT_SUCCESS) break;
+            // NOTE: `ITERATOR_FAIL` means that there is no record.
+            if (fs != FDB_RESULT_SUCCESS) {
+                if (fs != FDB_RESULT_ITERATOR_FAIL) s = toJungleStatus(fs);
+                break;
+            }
 
             if (!write_to_new_file(ret_doc)) {
                 break;
@@ -317,6 +327,7 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
 
         } while (fdb_iterator_next(itr) == FDB_RESULT_SUCCESS);
     }
+    if (!s) _log_err(myLog, "in-place compaction failed: %d", (int)s);
 
     uint64_t elapsed_us = std::max( tt.getUs(), (uint64_t)1 );
     uint64_t bf_size = (dst_bf) ? dst_bf->size() : 0;
@@ -330,11 +341,14 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
                time_for_flush_us );
 
     // WARNING: Should be done before commit.
+    Status fin_s;
     if (dst_bf) {
-        saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        fin_s = saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        if (s && !fin_s) s = fin_s;
         DELETE(dst_bf);
     }
-    dst_handle->commit();
+    fin_s = dst_handle->commit();
+    if (s && !fin_s) s = fin_s;
 
     if (itr) {
         fs = fdb_iterator_close(itr);
@@ -429,6 +443,17 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
         if ( my_fs    != FDB_RESULT_SUCCESS &&
              merge_fs != FDB_RESULT_SUCCESS ) break;
 
+        // NOTE: `ITERATOR_FAIL` means that there is no more record.
+        for (fdb_status cur_fs: {my_fs, merge_fs}) {
+            if ( cur_fs != FDB_RESULT_SUCCESS &&
+                 cur_fs != FDB_RESULT_ITERATOR_FAIL ) s = toJungleStatus(cur_fs);
+        }
+        if (!s) {
+            if (my_doc) fdb_doc_free(my_doc);
+            if (merge_doc) fdb_doc_free(merge_doc);
+            break;
+        }
+
         int cmp = 0;
         if ( my_doc && !merge_doc) cmp = -1;
         if (!my_doc &&  merge_doc) cmp = 1;
@@ -495,7 +520,9 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
         } else {
             // WARNING: SHOULD KEEP THE SAME SEQUENCE NUMBER!
             doc_chosen->flags = FDB_CUSTOM_SEQNUM;
-            fdb_set(dst_handle->db, doc_chosen);
+            if (fdb_set(dst_handle->db, doc_chosen) != FDB_RESULT_SUCCESS) {
+                s = Status::FDB_SET_FAIL;
+            }
             (*cnt)++;
             final_cnt++;
 
@@ -518,8 +545,8 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
             if (merge_fs != FDB_RESULT_SUCCESS) merge_itr_ended = true;
         }
 
-        if (!tableMgr->isCompactionAllowed()) {
-            s = Status::COMPACTION_CANCELLED;
+        if (!s || !tableMgr->isCompactionAllowed()) {
+            if (s) s = Status::COMPACTION_CANCELLED;
             if (my_doc) fdb_doc_free(my_doc);
             if (merge_doc) fdb_doc_free(merge_doc);
             break;
@@ -539,11 +566,14 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
     } while ( !my_itr_ended || !merge_itr_ended );
 
     // WARNING: Should be done before commit.
+    Status fin_s;
     if (dst_bf) {
-        saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        fin_s = saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        if (s && !fin_s) s = fin_s;
         DELETE(dst_bf);
     }
-    dst_handle->commit();
+    fin_s = dst_handle->commit();
+    if (s && !fin_s) s = fin_s;
 
     // Close iterator first.
     gc_my_itr.gcNow();
diff --git a/src/table_file_iterator.cc b/src/table_file_iterator.cc
index 1fc9799..79a8e10 100644
--- a/src/table_file_iterator.cc
+++ b/src/table_file_iterator.cc
@@ -185,6 +185,8 @@ Status TableFile::Iterator::get(Record& rec_out) {
         //       Tolerate this case.
         if (prevNextHappened) {
             _log_err(tFile->myLog, "fdb_iterator_get failed: %d", fs);
+        } else if (fs == FDB_RESULT_ITERATOR_FAIL) {
+            return Status::KEY_NOT_FOUND;
         }
         return toJungleStatus(fs);
     }
@@ -254,6 +256,8 @@ Status TableFile::Iterator::getMeta(Record& rec_out,
         // NOTE: Same as `get()`.
         if (prevNextHappened) {
             _log_err(tFile->myLog, "fdb_iterator_get_metaonly failed: %d", fs);
+        } else if (fs == FDB_RESULT_ITERATOR_FAIL) {
+            return Status::KEY_NOT_FOUND;
         }
         return toJungleStatus(fs);
     }
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 918363e..40e7241 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -291,24 +291,24 @@ public:
         return allowCompaction || tableAdjInProgress;
     }
 
-    void setTableFile(std::list<Record*>& batch,
-                      std::list<uint64_t>& checkpoints,
-                      bool bulk_load_mode,
-                      TableFile* table_file,
-                      uint32_t target_hash,
-                      const SizedBuf& min_key,
-                      const SizedBuf& next_min_key);
-
-    void setTableFileOffset(std::list<uint64_t>& checkpoints,
-                            TableFile* src_file,
-                            TableFile* dst_file,
-                            std::vector<uint64_t>& offsets,
-                            uint64_t start_index,
-                            uint64_t count);
-
-    void setTableFileItrFlush(TableFile* dst_file,
-                              std::list<Record*>& recs_batch,
-                              bool without_commit);
+    Status setTableFile(std::list<Record*>& batch,
+                        std::list<uint64_t>& checkpoints,
+                        bool bulk_load_mode,
+                        TableFile* table_file,
+                        uint32_t target_hash,
+                        const SizedBuf& min_key,
+                        const SizedBuf& next_min_key);
+
+    Status setTableFileOffset(std::list<uint64_t>& checkpoints,
+                              TableFile* src_file,
+                              TableFile* dst_file,
+                              std::vector<uint64_t>& offsets,
+                              uint64_t start_index,
+                              uint64_t count);
+
+    Status setTableFileItrFlush(TableFile* dst_file,
+                                std::list<Record*>& recs_batch,
+                                bool without_commit);
 
     uint64_t getNumWrittenRecords() const { return numWrittenRecords; }
 
diff --git a/src/table_set_batch.cc b/src/table_set_batch.cc
index b8686aa..501616f 100644
--- a/src/table_set_batch.cc
+++ b/src/table_set_batch.cc
@@ -24,20 +24,24 @@ limitations under the License.
 namespace jungle {
 
 // Used for log -> L0 flush.
-void TableMgr::setTableFile( std::list<Record*>& batch,
-                             std::list<uint64_t>& checkpoints,
-                             bool bulk_load_mode,
-                             TableFile* table_file,
-                             uint32_t target_hash,
-                             const SizedBuf& min_key,
-                             const SizedBuf& next_min_key )
+Status TableMgr::setTableFile( std::list<Record*>& batch,
+                               std::list<uint64_t>& checkpoints,
+                               bool bulk_load_mode,
+                               TableFile* table_file,
+                               uint32_t target_hash,
+                               const SizedBuf& min_key,
+                               const SizedBuf& next_min_key )
 {
-    table_file->setBatch( batch,
-                          checkpoints,
-                          min_key,
-                          next_min_key,
-                          target_hash,
-                          bulk_load_mode );
+    Status s = table_file->setBatch( batch,
+                                     checkpoints,
+                                     min_key,
+                                     next_min_key,
+                                     target_hash,
+                                     bulk_load_mode );
+    if (!s) {
+        _log_err( myLog, "failed to set batch, table num %zu, hash %zu: %d",
+                  table_file->getNumber(), target_hash, (int)s );
+    }
 
     if (myLog->debugAllowed()) {
         _log_debug( myLog,
@@ -47,15 +51,16 @@ void TableMgr::setTableFile( std::list<Record*>& batch,
                     min_key.toReadableString().c_str(),
                     next_min_key.toReadableString().c_str() );
     }
+    return s;
 }
 
 // Used for in-place/inter-level compaction, split/merge.
-void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
-                                   TableFile* src_file,
-                                   TableFile* dst_file,
-                                   std::vector<uint64_t>& offsets,
-                                   uint64_t start_index,
-                                   uint64_t count) {
+Status TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
+                                     TableFile* src_file,
+                                     TableFile* dst_file,
+                                     std::vector<uint64_t>& offsets,
+                                     uint64_t start_index,
+                                     uint64_t count) {
     const DBConfig* db_config = getDbConfig();
     (void)db_config;
 
@@ -99,8 +104,7 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         s = src_file->getByOffset(nullptr, offsets[ii], rec_out);
         if (!s) {
             _log_fatal(myLog, "failed to read record at %zu", offsets[ii]);
-            assert(0);
-            continue;
+            throw s;
         }
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
@@ -109,8 +113,8 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         //   Since `rec_out` from `getByOffset` contains raw meta and
         //   compressed value (if enabled), we should skip processing
         //   meta and compression.
-        dst_file->setSingle(key_hash_val, rec_out, offset_out,
-                            true, dst_level + 1 == num_levels);
+        TC( dst_file->setSingle(key_hash_val, rec_out, offset_out,
+                                true, dst_level + 1 == num_levels) );
         total_dirty += rec_out.size();
 
         if (d_params.compactionItrScanDelayUs) {
@@ -138,7 +142,7 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
     }
 
     // Final commit, and generate snapshot on it.
-    setTableFileItrFlush(dst_file, recs_batch, false);
+    TC( setTableFileItrFlush(dst_file, recs_batch, false) );
     _log_info(myLog, "(end of batch) set total %zu records, %zu us, %zu us for flush",
               count, elapsed_timer.getUs(), time_for_flush_us);
 
@@ -150,24 +154,27 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         rr->free();
         delete rr;
     }
+    return s;
    }
+    return Status();
 }
 
-void TableMgr::setTableFileItrFlush(TableFile* dst_file,
-                                    std::list<Record*>& recs_batch,
-                                    bool without_commit)
+Status TableMgr::setTableFileItrFlush(TableFile* dst_file,
+                                      std::list<Record*>& recs_batch,
+                                      bool without_commit)
 {
     SizedBuf empty_key;
     std::list<uint64_t> dummy_chk;
 
-    dst_file->setBatch( recs_batch, dummy_chk,
-                        empty_key, empty_key, _SCU32(-1),
-                        without_commit );
+    Status s = dst_file->setBatch( recs_batch, dummy_chk,
+                                   empty_key, empty_key, _SCU32(-1),
+                                   without_commit );
     for (Record* rr: recs_batch) {
         rr->free();
         delete rr;
     }
     recs_batch.clear();
+    return s;
 }
 
 Status TableMgr::setBatch(std::list<Record*>& batch,
@@ -202,6 +209,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
 {
     Status s;
     std::list<TableInfo*> target_tables;
+    TableWriteResult write_result;
 
     DBMgr* db_mgr = DBMgr::getWithoutInit();
     DebugParams d_params = db_mgr->getDebugParams();
@@ -253,7 +261,8 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
                                                  &checkpoints,
                                                  target_table->file,
                                                  jj,
-                                                 bulk_load_mode );
+                                                 bulk_load_mode,
+                                                 &write_result );
             // Release all tables except for the target.
             for (TableInfo*& entry: tables) {
                 if (entry != target_table) entry->done();
@@ -292,7 +301,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
     // Release all target tables.
     for (TableInfo*& entry: target_tables) entry->done();
 
-    return Status();
+    return write_result.get();
 }
 
 } // namespace jungle
diff --git a/src/table_split.cc b/src/table_split.cc
index 903bb87..c852056 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -145,7 +145,9 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             size_t value_size_out = 0;
             uint64_t offset_out = 0;
             s = itr->getMeta(rec_out, value_size_out, offset_out);
-            if (!s) break;
+            // Table is empty.
+            if (s == Status::KEY_NOT_FOUND) break;
+            if (!s) throw s;
 
             offsets.push_back(offset_out);
             uint64_t cur_index = offsets.size() - 1;
@@ -250,6 +252,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
 
     size_t max_writers = db_config->getMaxParallelWriters();
     std::list<uint64_t> dummy_chk;
+    TableWriteResult write_result;
 
     for (size_t ii=0; ii<num_new_tables; ) {
         size_t upto_orig = std::min(ii + max_writers, num_new_tables);
@@ -270,7 +273,10 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             TableFile* cur_file = nullptr;
             TableFileOptions t_opt;
             s = createNewTableFile(level, cur_file, t_opt);
-            if (!s) continue;
+            if (!s) {
+                write_result.set(s);
+                continue;
+            }
 
             TableWriterArgs local_args;
             local_args.myLog = myLog;
@@ -289,7 +295,8 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
                                                  count,
                                                  &dummy_chk,
                                                  victim_table->file,
-                                                 cur_file );
+                                                 cur_file,
+                                                 &write_result );
             putLsmFlushResultWithKey(cur_file, min_keys[jj], results);
 
             if (leased_thread) {
@@ -311,6 +318,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             }
         }
 
+        TC( write_result.get() );
         if (!isCompactionAllowed()) throw Status(Status::COMPACTION_CANCELLED);
 
         ii += leased_writers + 1;
@@ -459,23 +467,25 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
         Record rec_out;
         Record::Holder h(rec_out);
         s = itr->get(rec_out);
-        if (!s) break;
+        // Table is empty.
+        if (s == Status::KEY_NOT_FOUND) break;
+        if (!s) throw s;
 
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
-        target_table->file->setSingle(key_hash_val, rec_out, offset_out,
-                                      false, level + 1 == num_levels);
+        TC( target_table->file->setSingle(key_hash_val, rec_out, offset_out,
+                                          false, level + 1 == num_levels) );
         total_count++;
     } while (itr->next().ok());
     itr->close();
-    delete itr;
+    DELETE(itr);
 
     // Set a dummy batch to trigger commit.
     std::list<Record*> dummy_batch;
     std::list<uint64_t> dummy_chk;
     SizedBuf empty_key;
-    target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
+    TC( target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
 
     {   // Grab lock, add first, and then remove next.
         std::lock_guard<std::mutex> l(mani->getLock());
@@ -611,7 +621,9 @@ Status TableMgr::fixTable(const CompactOptions& options,
         Record rec_out;
         Record::Holder h(rec_out);
         s = itr->get(rec_out);
-        if (!s) break;
+        // No record in the range.
+        if (s == Status::KEY_NOT_FOUND) break;
+        if (!s) throw s;
 
         // Search the same key in victim table,
         // compare the sequence number if exists.
@@ -621,6 +633,8 @@ Status TableMgr::fixTable(const CompactOptions& options,
         s = local_victim->file->get(nullptr, rec_victim);
         rec_victim.kv.key.clear();
 
+        if (!s && s != Status::KEY_NOT_FOUND) throw s;
+
         bool skip_record = false;
         if (s) {
             // Proceed only when `rec_out` is newer.
@@ -633,28 +647,28 @@ Status TableMgr::fixTable(const CompactOptions& options,
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
         if (!skip_record) {
-            local_victim->file->setSingle(key_hash_val, rec_out, offset_out,
-                                          false, level + 1 == num_levels);
+            TC( local_victim->file->setSingle(key_hash_val, rec_out, offset_out,
+                                              false, level + 1 == num_levels) );
             total_moved_count++;
         }
         total_count++;
 
         // Should remove the key from target table.
-        target_table->file->setSingle(key_hash_val, rec_out, offset_out,
-                                      false, level + 1 == num_levels, true);
+        TC( target_table->file->setSingle(key_hash_val, rec_out, offset_out,
+                                          false, level + 1 == num_levels, true) );
 
     } while (itr->next().ok());
     itr->close();
-    delete itr;
+    DELETE(itr);
 
     // Set a dummy batch to trigger commit (for both).
     std::list<Record*> dummy_batch;
     std::list<uint64_t> dummy_chk;
     SizedBuf empty_key;
-    target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
-    local_victim->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
+    TC( local_victim->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
+    TC( target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
 
     // There is no manifest change. Just remove the flag.
     local_victim->prevTableSearchRequired = false;
diff --git a/src/table_writer.cc b/src/table_writer.cc
index e3d3187..6e22e58 100644
--- a/src/table_writer.cc
+++ b/src/table_writer.cc
@@ -151,10 +151,11 @@ void TableWriterMgr::tableWriterLoop(TableWriterArgs* args) {
 }
 
 void TableWriterMgr::doTableWrite(TableWriterArgs* args) {
+    Status s;
     if (args->payload.batch) {
         // Batch is given.
         SizedBuf empty_key;
-        args->payload.targetTableMgr->setTableFile
+        s = args->payload.targetTableMgr->setTableFile
             ( *args->payload.batch,
               *args->payload.checkpoints,
               args->payload.bulkLoadMode,
@@ -164,7 +165,7 @@ void TableWriterMgr::doTableWrite(TableWriterArgs* args) {
 
     } else if (args->payload.sourceTableFile) {
         // Offset is given.
-        args->payload.targetTableMgr->setTableFileOffset
+        s = args->payload.targetTableMgr->setTableFileOffset
             ( *args->payload.checkpoints,
               args->payload.sourceTableFile,
               args->payload.targetTableFile,
@@ -172,6 +173,8 @@ void TableWriterMgr::doTableWrite(TableWriterArgs* args) {
               args->payload.startIdx,
               args->payload.count );
     }
+
+    if (!s && args->payload.result) args->payload.result->set(s);
 }
 
 
diff --git a/src/table_writer.h b/src/table_writer.h
index 34a0699..4f119b3 100644
--- a/src/table_writer.h
+++ b/src/table_writer.h
@@ -35,6 +35,22 @@ class TableMgr;
 class TableWriterGroup;
 class TableWriterMgr;
 
+// Result of a group of table writes, keeps the first error.
+struct TableWriteResult {
+    void set(const Status& s) {
+        std::lock_guard<std::mutex> l(lock);
+        if (result.ok()) result = s;
+    }
+
+    Status get() {
+        std::lock_guard<std::mutex> l(lock);
+        return result;
+    }
+
+    std::mutex lock;
+    Status result;
+};
+
 struct TableWritePayload {
     TableWritePayload()
         : payloadReady(false)
@@ -48,6 +64,7 @@ struct TableWritePayload {
         , targetTableFile(nullptr)
         , targetHash(_SCU32(-1))
         , bulkLoadMode(false)
+        , result(nullptr)
         {}
 
     // When records are given in advance.
@@ -56,7 +73,8 @@ struct TableWritePayload {
                       std::list<uint64_t>* _checkpoints,
                       TableFile* _target_table_file,
                       uint32_t _target_hash,
-                      bool _bulk_load_mode)
+                      bool _bulk_load_mode,
+                      TableWriteResult* _result)
         : payloadReady(false)
         , targetTableMgr(_table_mgr)
         , batch(_batch)
@@ -68,6 +86,7 @@ struct TableWritePayload {
         , targetTableFile(_target_table_file)
         , targetHash(_target_hash)
         , bulkLoadMode(_bulk_load_mode)
+        , result(_result)
     {
         payloadReady = true;
     }
@@ -79,7 +98,8 @@ struct TableWritePayload {
                       uint64_t c,
                       std::list<uint64_t>* _checkpoints,
                       TableFile* _source_table_file,
-                      TableFile* _target_table_file)
+                      TableFile* _target_table_file,
+                      TableWriteResult* _result)
         : payloadReady(false)
         , targetTableMgr(_table_mgr)
         , batch(nullptr)
@@ -91,6 +111,7 @@ struct TableWritePayload {
         , targetTableFile(_target_table_file)
         , targetHash(_SCU32(-1))
         , bulkLoadMode(false)
+        , result(_result)
     {
         payloadReady = true;
     }
@@ -109,6 +130,7 @@ struct TableWritePayload {
         targetTableFile = src.targetTableFile;
         targetHash = src.targetHash;
         bulkLoadMode = src.bulkLoadMode;
+        result = src.result;
 
         payloadReady = true;
         return *this;
@@ -127,6 +149,7 @@ struct TableWritePayload {
         targetTableFile = nullptr;
         targetHash = _SCU32(-1);
         bulkLoadMode = false;
+        result = nullptr;
 
         // WARNING:
         //   There are many threads monitoring
@@ -149,6 +172,9 @@ struct TableWritePayload {
     TableFile* targetTableFile;
     uint32_t targetHash;
     bool bulkLoadMode;
+
+    // If given, the first error will be stored here.
+    TableWriteResult* result;
 };
 
 struct TableWriterArgs {
-- 
2.43.0


From e8bc7bd65e432c945c889d1b49111401fee83781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:29:53 +0000
Subject: [PATCH 30/89] fix: used sequence number must be refused also when the
 log file is new

---
 src/log_mgr.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 28d6f81..518456d 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -625,6 +625,15 @@ Status LogMgr::setSN(const Record& rec) {
     // All writes will be serialized, except for throttling part.
     std::unique_lock<std::recursive_mutex> wm(writeMutex);
 
+    if ( valid_number(rec.seqNum) &&
+         !getDbConfig()->allowOverwriteSeqNum ) {
+        // The number should not have been used,
+        // including by the records in the previous log files.
+        uint64_t max_seq = 0;
+        s = getMaxSeqNum(max_seq);
+        if (s && rec.seqNum <= max_seq) return Status::INVALID_SEQNUM;
+    }
+
     // Get latest log file.
     LogFileInfo* lf_info = nullptr;
     do {
-- 
2.43.0


From e1d4382514897b25dc550f0b8c1b4831387af0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:57:51 +0000
Subject: [PATCH 31/89] fix: skiplist: erasing an unlinked node cleared its
 removed flag

A thread that lost the race for erasing a node reset `removed`, so that the
winner waited in skiplist_wait_for_free() forever.
---
 src/skiplist.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..1934d29 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -717,19 +717,18 @@ int skiplist_erase_node_passive(skiplist_raw *slist,
         return -2;
     }
 
-    // set removed flag first, so that reader cannot read this node.
-    ATM_STORE(node->removed, bool_true);
-
     __SLD_P("%02x rmv %p begin\n", (int)tid_hash, node);
 
 erase_node_retry:
     ATM_LOAD(node->is_fully_linked, is_fully_linked);
     if (!is_fully_linked) {
         // already unlinked .. remove is done by other thread
-        ATM_STORE(node->removed, bool_false);
+        // (`removed` should be kept, other thread may wait for it).
         ATM_STORE(node->being_modified, bool_false);
         return -3;
     }
+    // set removed flag first, so that reader cannot read this node.
+    ATM_STORE(node->removed, bool_true);
 
     int cmp = 0;
     bool found_node_to_erase = false;
-- 
2.43.0


From 4048402d3d8fd828893f9339a4accd4ede4cc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:57:51 +0000
Subject: [PATCH 32/89] fix: skiplist: searching for a greater node returned an
 equal one

skiplist_next() falls back to that search when the next node is being erased,
and then returned the same node again.
---
 src/skiplist.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 1934d29..9ff3e5a 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -629,8 +629,9 @@ find_retry:
                 goto find_retry;
             }
             cmp = _sl_cmp(slist, query, next_node);
-            if (cmp > 0) {
+            if (cmp > 0 || (cmp == 0 && mode == GT)) {
                 // cur_node < next_node < query
+                // (or `next_node == query` if greater one is wanted)
                 // => move to next node
                 skiplist_node* temp = cur_node;
                 cur_node = next_node;
-- 
2.43.0


From ce29666b8553de3c98a9c36d0470b3fc4f0afc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:57:51 +0000
Subject: [PATCH 33/89] fix: skiplist: erase used uninitialized pointers of
 upper layers

If the top layer of the list is lower than that of the node (the inserter has
not updated it yet), the predecessors of the upper layers were never searched.
---
 src/skiplist.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 9ff3e5a..cd9a70f 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -741,6 +741,8 @@ erase_node_retry:
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
     int cur_layer = slist->top_layer;
+    // `top_layer` of the list may not be updated yet by the inserter of `node`.
+    if (top_layer > cur_layer) cur_layer = top_layer;
     for (; cur_layer >= 0; --cur_layer) {
         do {
             __SLD_( history[nh++] = cur_node );
-- 
2.43.0


From 2f4dc1c0a90046061a32341442d8e414233ef83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:57:51 +0000
Subject: [PATCH 34/89] fix: skiplist: next node was accessed after releasing
 it

Insert and erase dropped the reference to the next node before validating it,
so that it could be freed by another thread in between.
---
 src/skiplist.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index cd9a70f..3d8336e 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -455,14 +455,14 @@ insert_retry:
                 cur_node = next_node;
                 ATM_FETCH_SUB(temp->ref_count, 1);
                 continue;
-            } else {
-                // otherwise: cur_node < node <= next_node
-                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
+            // otherwise: cur_node < node <= next_node
+            // `next_node` is kept from being freed until it is validated.
 
             if (no_dup && cmp == 0) {
                 // Duplicate key is not allowed.
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
+                ATM_FETCH_SUB(next_node->ref_count, 1);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
                 return -1;
             }
@@ -501,6 +501,7 @@ insert_retry:
                 if (error_code != 0) {
                     __SLD_RT_INS(error_code, node, top_layer, cur_layer);
                     _sl_clr_flags(prevs, locked_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto insert_retry;
@@ -518,12 +519,15 @@ insert_retry:
                     // clear including the current layer
                     // as we already set modification flag above.
                     _sl_clr_flags(prevs, cur_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto insert_retry;
                 }
             }
 
+            ATM_FETCH_SUB(next_node->ref_count, 1);
+
             if (cur_layer) {
                 // non-bottom layer => go down
                 break;
@@ -776,10 +780,9 @@ erase_node_retry:
                 } )
                 ATM_FETCH_SUB(temp->ref_count, 1);
                 continue;
-            } else {
-                // otherwise: cur_node <= node <= next_node
-                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
+            // otherwise: cur_node <= node <= next_node
+            // `next_node` is kept from being freed until it is validated.
 
             if (cur_layer <= top_layer) {
                 prevs[cur_layer] = cur_node;
@@ -814,6 +817,7 @@ erase_node_retry:
                 if (error_code != 0) {
                     __SLD_RT_RMV(error_code, node, top_layer, cur_layer);
                     _sl_clr_flags(prevs, locked_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto erase_node_retry;
@@ -826,11 +830,13 @@ erase_node_retry:
                     // `next` pointer has been changed, retry.
                     __SLD_NC_RMV(cur_node, nexts[cur_layer], top_layer, cur_layer);
                     _sl_clr_flags(prevs, cur_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto erase_node_retry;
                 }
             }
+            ATM_FETCH_SUB(next_node->ref_count, 1);
             if (cur_layer == 0) found_node_to_erase = true;
             // go down
             break;
-- 
2.43.0


From 440930337ee5fd516c60246c069052fc3b654009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:29 +0000
Subject: [PATCH 35/89] fix: new level was visible to other threads before it
 was assigned

A concurrent TableManifest::store() (by flush) dereferenced the null level.
---
 src/table_manifest.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index d283c11..d946828 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -426,8 +426,9 @@ Status TableManifest::extendLevel() {
     size_t new_level = 0;
     {   std::lock_guard<std::mutex> l(levelsLock);
         new_level = levels.size();
-        levels.resize(new_level + 1);
-        levels[new_level] = new LevelInfo();
+        // Other threads may read it without lock,
+        // should not be visible before it is assigned.
+        levels.push_back(new LevelInfo());
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
-- 
2.43.0


From 84cb282dafef9ed063701ea3b3e9cdeb55e8a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:40 +0000
Subject: [PATCH 36/89] fix: L0 compaction used a table list that was obtained
 before taking the lock

Another compaction of the same partition could finish in between, then the
list contains removed tables only (null dereference). An invalid partition
number accessed the status array out of range.
---
 src/table_compaction.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index c5c362f..f7f3a12 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -778,12 +778,7 @@ Status TableMgr::compactL0(const CompactOptions& options,
     Status s;
     const DBConfig* db_config = getDbConfig();
 
-    std::list<TableInfo*> tables;
-    s = mani->getL0Tables(hash_num, tables);
-    if (!s) {
-        _log_warn(myLog, "tables of hash %zu not found", hash_num);
-        return s;
-    }
+    if (hash_num >= compactStatus.size()) return Status::TABLE_NOT_FOUND;
 
     bool exp = false;
     bool val = true;
@@ -793,6 +788,16 @@ Status TableMgr::compactL0(const CompactOptions& options,
         return Status::OPERATION_IN_PROGRESS;
     }
 
+    // WARNING: Should get the list after acquiring the compaction status,
+    //          as other compaction may change it.
+    std::list<TableInfo*> tables;
+    s = mani->getL0Tables(hash_num, tables);
+    if (!s) {
+        _log_warn(myLog, "tables of hash %zu not found", hash_num);
+        compactStatus[hash_num]->store(false);
+        return s;
+    }
+
     std::stringstream s_log_msg_prefix;
     DBMgr* db_mgr = DBMgr::getWithoutInit();
     SimpleLogger* global_log = db_mgr->getLogger();
-- 
2.43.0


From a7b46a7fabe8859bb66ce71bf6cc8dd80e16c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:23 +0000
Subject: [PATCH 37/89] fix: readers missed tables that a concurrent compaction
 moved to a new level

---
 src/table_iterator.cc |  9 +++++----
 src/table_mgr.cc      | 31 ++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index e38cad0..2fcc51e 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -47,6 +47,7 @@ Status TableMgr::Iterator::addTableItr(DB* snap_handle, TableInfo* t_info) {
     ItrItem* ctx = new ItrItem();
     ctx->tInfo = t_info;
     ctx->tItr = t_itr;
+    if (tables.size() <= t_info->level) tables.resize(t_info->level + 1);
     tables[t_info->level].push_back(ctx);
 
     // If this iterator is out-of-range, `lastRec` will be empty.
@@ -118,9 +119,6 @@ Status TableMgr::Iterator::initInternal(DB* snap_handle,
 
    try {
     Status s;
-    size_t n_levels = tMgr->mani->getNumLevels();
-    tables.resize(n_levels);
-
     if (snap_handle) {
         // Snapshot
         assert(snap_handle->sn->tableList);
@@ -141,7 +139,10 @@ Status TableMgr::Iterator::initInternal(DB* snap_handle,
 
     } else {
         // Normal
-        for (size_t ii=0; ii<n_levels; ++ii) {
+        // WARNING:
+        //   The number of levels should be checked every time, as a concurrent
+        //   compaction may add a new level and move tables to there.
+        for (size_t ii=0; ii<tMgr->mani->getNumLevels(); ++ii) {
             std::list<TableInfo*> t_info_ret;
             SizedBuf empty_key;
             if (ii == 0) {
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 383ff30..0dfc8d5 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -513,9 +513,10 @@ Status TableMgr::openSnapshot(DB* snap_handle,
     }
 
     SizedBuf empty_key;
-    size_t num_levels = mani->getNumLevels();
-
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as a concurrent
+    //   compaction may add a new level and move tables to there.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         s = mani->getTablesRange(ii, empty_key, empty_key, *t_list);
         if (!s) continue;
     }
@@ -583,9 +584,13 @@ Status TableMgr::get(DB* snap_handle,
     Status s;
     Record latest_rec;
     // If snapshot: search all tables of the snapshot at once.
-    size_t num_levels = (snap_handle) ? 1 : mani->getNumLevels();
+    // Otherwise: the number of levels should be checked every time, as a
+    // concurrent compaction may add a new level and move tables to there.
+    auto num_levels = [&]() -> size_t {
+        return (snap_handle) ? 1 : mani->getNumLevels();
+    };
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    for (size_t ii=0; ii<num_levels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getTablesOfSnapshot(snap_handle, tables);
@@ -729,12 +734,16 @@ Status TableMgr::getNearest(DB* snap_handle,
 
     Status s;
     // If snapshot: search all tables of the snapshot at once.
-    size_t num_levels = (snap_handle) ? 1 : mani->getNumLevels();
+    // Otherwise: the number of levels should be checked every time, as a
+    // concurrent compaction may add a new level and move tables to there.
+    auto num_levels = [&]() -> size_t {
+        return (snap_handle) ? 1 : mani->getNumLevels();
+    };
 
     // NOTE:
     //   Unlike point query, nearest search should check the all level,
     //   as closer key may exist in lower levels.
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    for (size_t ii=0; ii<num_levels(); ++ii) {
         // Position to find the tables to search. It moves on if the tables
         // found so far do not contain any matching record.
         SizedBuf table_pos;
@@ -818,9 +827,13 @@ Status TableMgr::getPrefix(DB* snap_handle,
 
     Status s;
     // If snapshot: search all tables of the snapshot at once.
-    size_t num_levels = (snap_handle) ? 1 : mani->getNumLevels();
+    // Otherwise: the number of levels should be checked every time, as a
+    // concurrent compaction may add a new level and move tables to there.
+    auto num_levels = [&]() -> size_t {
+        return (snap_handle) ? 1 : mani->getNumLevels();
+    };
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    for (size_t ii=0; ii<num_levels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getTablesOfSnapshot(snap_handle, tables);
-- 
2.43.0


From 384ab8668aae283b7d1bfaaf1f738ae2ea074d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:29 +0000
Subject: [PATCH 38/89] fix: compaction, split and merge used tables chosen
 before taking their locks

Another task could replace them in between: records were written to removed
tables, or the same file was registered twice.
---
 src/table_compaction.cc | 26 ++++++++++++++++++++++++++
 src/table_mgr.h         |  9 +++++++++
 src/table_split.cc      | 31 +++++++++++++++++++++++++++++++
 3 files changed, 66 insertions(+)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index f7f3a12..250b9cc 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -76,6 +76,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     // The other tables will be locked below (in `setBatchLsm()`).
     TableLockHolder tl_src_holder(this, {local_victim->number});
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING: Other task might have replaced it before we get the lock.
+    if (local_victim->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
 
     // Get overlapping tables.
     SizedBuf min_key_victim = local_victim->minKey;
@@ -104,6 +106,9 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     // Lock destination tables.
     TableLockHolder tl_dst_holder( this, table_list_to_number(tables) );
     if (!tl_dst_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    if (!isTableRangeUnchanged(level+1, min_key_victim, max_key_victim, tables)) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     TableStats victim_stats;
     local_victim->file->getStats(victim_stats);
@@ -589,6 +594,21 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
    }
 }
 
+bool TableMgr::isTableRangeUnchanged(size_t level,
+                                     const SizedBuf& min_key,
+                                     const SizedBuf& max_key,
+                                     const std::list<TableInfo*>& tables)
+{
+    std::list<TableInfo*> cur_tables;
+    {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
+        std::lock_guard<std::mutex> l(mani->getLock());
+        mani->getTablesRange(level, min_key, max_key, cur_tables);
+    }
+    bool unchanged = (cur_tables == tables);
+    for (TableInfo*& entry: cur_tables) entry->done();
+    return unchanged;
+}
+
 Status TableMgr::migrateLevel(const CompactOptions& options,
                               size_t level)
 {
@@ -622,6 +642,10 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
     // The other tables will be locked below (in `setBatchLsm()`).
     TableLockHolder tl_src_holder(this, table_list_to_number(tables));
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    if ( level + 1 != mani->getNumLevels() ||
+         !isTableRangeUnchanged(level, empty_key, empty_key, tables) ) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     mani->extendLevel();
 
@@ -695,6 +719,8 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
     // Lock victim table.
     TableLockHolder tl_holder(this, {local_victim->number});
     if (!tl_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING: Other task might have replaced it before we get the lock.
+    if (local_victim->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
 
     uint64_t dst_table_num = 0;
     std::string dst_filename;
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 40e7241..d646b4b 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -243,6 +243,15 @@ public:
     Status migrateLevel(const CompactOptions& options,
                         size_t level);
 
+    bool isTableRangeUnchanged(size_t level,
+                               const SizedBuf& min_key,
+                               const SizedBuf& max_key,
+                               const std::list<TableInfo*>& tables);
+
+    bool areAdjacentTables(size_t level,
+                           TableInfo* prev_table,
+                           TableInfo* next_table);
+
     Status compactInPlace(const CompactOptions& options,
                           TableInfo* victim_table,
                           size_t level,
diff --git a/src/table_split.cc b/src/table_split.cc
index c852056..2651f2e 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -77,6 +77,8 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
     // Lock victim table only, all the others will be newly created.
     TableLockHolder tl_holder(this, {victim_table->number});
     if (!tl_holder.ownsLock()) return Status::OPERATION_IN_PROGRESS;
+    // WARNING: Other task might have replaced it before we get the lock.
+    if (victim_table->isRemoved()) return Status::OPERATION_IN_PROGRESS;
 
     _log_info( myLog, "split table %zu_%zu, level %zu, min key %s begins",
                opt.prefixNum, victim_table->number, level,
@@ -375,6 +377,27 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
    }
 }
 
+bool TableMgr::areAdjacentTables(size_t level,
+                                 TableInfo* prev_table,
+                                 TableInfo* next_table)
+{
+    std::list<TableInfo*> tables;
+    SizedBuf empty_key;
+    {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
+        std::lock_guard<std::mutex> l(mani->getLock());
+        mani->getTablesRange(level, empty_key, empty_key, tables);
+    }
+
+    bool adjacent = false;
+    TableInfo* prev = nullptr;
+    for (TableInfo* tt: tables) {
+        if (prev && prev == prev_table && tt == next_table) adjacent = true;
+        prev = tt;
+    }
+    for (TableInfo* tt: tables) tt->done();
+    return adjacent;
+}
+
 Status TableMgr::mergeLevel(const CompactOptions& options,
                             TableInfo* victim_table,
                             size_t level)
@@ -448,6 +471,10 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
 
     TableLockHolder tl_gt_holder(this, {num_gt});
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING: Other task might have replaced them before we get the lock.
+    if (!areAdjacentTables(level, target_table, local_victim)) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     // Read all records from the victim table.
     itr = new TableFile::Iterator();
@@ -600,6 +627,10 @@ Status TableMgr::fixTable(const CompactOptions& options,
 
     TableLockHolder tl_gt_holder( this, {num_gt} );
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    // WARNING: Other task might have replaced them before we get the lock.
+    if (!areAdjacentTables(level, target_table, local_victim)) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
 
     // Read records in target table, starting from min-key of victim table.
     itr = new TableFile::Iterator();
-- 
2.43.0


From 667bf07eff727d201964b6228990acffa410ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:20:34 +0000
Subject: [PATCH 39/89] fix: skiplist scan skipped a node whose insertion was
 completed while waiting for it

---
 src/skiplist.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 3d8336e..d6e3c39 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -347,6 +347,13 @@ static inline skiplist_node* _sl_next(skiplist_raw* slist,
                 next_node = NULL;
                 break;
             }
+            if (temp != node_to_find) {
+                // The insertion of this node has been done in the meantime.
+                // It should not be skipped: the node that it replaces may be
+                // already gone.
+                _sl_read_unlock_an(temp);
+                break;
+            }
             ATM_LOAD(temp->next[layer], next_node);
             ATM_FETCH_ADD(next_node->ref_count, 1);
             nodes[num_nodes++] = temp;
-- 
2.43.0


From ff4e744bdc02d72d9692b2788dddc89bd64186ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:20:34 +0000
Subject: [PATCH 40/89] fix: tables with the same min key had no defined order,
 so that scans could miss them

The first level contains tables with an empty min key only.
---
 src/table_manifest.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0606f57..a832813 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -83,7 +83,18 @@ struct TableInfo {
         TableInfo *aa, *bb;
         aa = _get_entry(a, TableInfo, snode);
         bb = _get_entry(b, TableInfo, snode);
-        return SizedBuf::cmp(aa->minKey, bb->minKey);
+        int cmp = SizedBuf::cmp(aa->minKey, bb->minKey);
+        if (cmp) return cmp;
+
+        // WARNING:
+        //   All tables in level 0 have the same (empty) min key, and so do
+        //   an old table and its replacement for a moment. They should be
+        //   ordered strictly, otherwise a scan concurrent with removal may
+        //   miss some of them. Newer table first: query (whose table number
+        //   is 0) comes after all tables with the same min key.
+        if (aa->number > bb->number) return -1;
+        if (aa->number < bb->number) return 1;
+        return 0;
     }
 
     void grab() { refCount.fetch_add(1); }
-- 
2.43.0


From 03ac44af5e62259727d5c4f35aa64ef540b7ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:02 +0000
Subject: [PATCH 41/89] fix: snapshot opened during a concurrent flush missed
 records replaced by newer ones

---
 src/jungle.cc  | 60 +++++++++++++++++++++++++++++++++++---------------
 src/log_mgr.cc | 14 ++++++++++++
 src/log_mgr.h  |  9 ++++++++
 3 files changed, 65 insertions(+), 18 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index a15ff04..68dc95a 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -284,7 +284,6 @@ Status DB::openSnapshot(DB** snap_out,
     Status s;
     EP( p->checkHandleValidity() );
 
-    uint64_t chk_local = checkpoint;
     if (checkpoint) {
         // If checkpoint is given, find exact match.
         std::list<uint64_t> chk_nums;
@@ -298,19 +297,35 @@ Status DB::openSnapshot(DB** snap_out,
             }
         }
         if (!found) return Status::INVALID_CHECKPOINT;
-    } else {
-        // If 0, take the latest snapshot.
-        // NOTE: Should tolerate error for empty DB.
-        p->logMgr->getMaxSeqNum(chk_local);
     }
-    uint64_t last_flush_seq = 0;
-    p->logMgr->getLastFlushedSeqNum(last_flush_seq);
 
-    DB* snap = new DB(this, last_flush_seq, chk_local);
+    DB* snap = nullptr;
+    for (;;) {
+        const uint64_t flushing_seq = p->logMgr->getMaxFlushingSeqNum();
+        uint64_t chk_local = checkpoint;
+        if (!checkpoint) {
+            // If 0, take the latest snapshot.
+            // NOTE: Should tolerate error for empty DB.
+            p->logMgr->getMaxSeqNum(chk_local);
+        }
+        uint64_t last_flush_seq = 0;
+        p->logMgr->getLastFlushedSeqNum(last_flush_seq);
+
+        snap = new DB(this, last_flush_seq, chk_local);
+
+        p->logMgr->openSnapshot(snap, chk_local, snap->sn->logList);
+        // Maybe need same parameter to logList above.
+        p->tableMgr->openSnapshot(snap, chk_local, snap->sn->tableList);
 
-    p->logMgr->openSnapshot(snap, chk_local, snap->sn->logList);
-    // Maybe need same parameter to logList above.
-    p->tableMgr->openSnapshot(snap, chk_local, snap->sn->tableList);
+        // WARNING:
+        //   If there was a concurrent flush, tables may contain records newer
+        //   than `chk_local`, replacing records that this snapshot should
+        //   return. Do it again in such a case.
+        if ( checkpoint ||
+             p->logMgr->getMaxFlushingSeqNum() <= chk_local ||
+             p->logMgr->getMaxFlushingSeqNum() == flushing_seq ) break;
+        close(snap);
+    }
     *snap_out = snap;
 
     return Status();
@@ -322,16 +337,25 @@ Status DB::cloneManifest(const std::string& target_path,
     Status s;
     EP( p->checkHandleValidity() );
 
-    uint64_t chk_local = 0;
-    p->logMgr->getMaxSeqNum(chk_local);
+    DB* snap = nullptr;
+    for (;;) {
+        const uint64_t flushing_seq = p->logMgr->getMaxFlushingSeqNum();
+        uint64_t chk_local = 0;
+        p->logMgr->getMaxSeqNum(chk_local);
 
-    uint64_t last_flush_seq = 0;
-    p->logMgr->getLastFlushedSeqNum(last_flush_seq);
+        uint64_t last_flush_seq = 0;
+        p->logMgr->getLastFlushedSeqNum(last_flush_seq);
 
-    DB* snap = new DB(this, last_flush_seq, chk_local);
+        snap = new DB(this, last_flush_seq, chk_local);
 
-    p->logMgr->cloneManifest(snap, chk_local, target_path, snap->sn->logList);
-    p->tableMgr->cloneManifest(snap, chk_local, target_path, snap->sn->tableList);
+        p->logMgr->cloneManifest(snap, chk_local, target_path, snap->sn->logList);
+        p->tableMgr->cloneManifest(snap, chk_local, target_path, snap->sn->tableList);
+
+        // WARNING: See the comment in `openSnapshot`.
+        if ( p->logMgr->getMaxFlushingSeqNum() <= chk_local ||
+             p->logMgr->getMaxFlushingSeqNum() == flushing_seq ) break;
+        close(snap);
+    }
     *snap_out = snap;
 
     return s;
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 518456d..dbd1b57 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -40,6 +40,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
     , visibleSeqBarrier(0)
+    , maxFlushingSeqNum(0)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -1542,6 +1543,19 @@ Status LogMgr::flush(const FlushOptions& options,
                 checkpoints.clear();
             }
 #endif
+            // WARNING:
+            //   Should be updated before tables are,
+            //   see the comment in `DB::openSnapshot`.
+            uint64_t max_seq = 0;
+            for (Record* rec: records) {
+                if (valid_number(rec->seqNum)) {
+                    max_seq = std::max(max_seq, rec->seqNum);
+                }
+            }
+            uint64_t exp = maxFlushingSeqNum;
+            while ( exp < max_seq &&
+                    !maxFlushingSeqNum.compare_exchange_weak(exp, max_seq) );
+
             EP( table_mgr->setBatch(records, checkpoints) );
             EP( table_mgr->storeManifest() );
             _log_debug(myLog, "Updated table files.");
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 65a0544..6454978 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -174,6 +174,12 @@ public:
 
     uint64_t getVisibleSeqBarrier();
 
+    /**
+     * Get the max sequence number among records that have been flushed
+     * (or are being flushed) to tables since this instance was opened.
+     */
+    uint64_t getMaxFlushingSeqNum() const { return maxFlushingSeqNum; }
+
     Status checkBatchValidity(const std::list<Record>& batch);
 
     Status setMultiInternal(const std::list<Record>& batch,
@@ -438,6 +444,9 @@ protected:
      */
     std::atomic<uint64_t> visibleSeqBarrier;
 
+    // Max sequence number among records passed to table manager.
+    std::atomic<uint64_t> maxFlushingSeqNum;
+
     /**
      * Global batch.
      */
-- 
2.43.0


From 93ebb55c554a0a88e3aafbeef771a49ac1f25c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:14 +0000
Subject: [PATCH 42/89] fix: a part of on-going atomic batch could be synced,
 flushed, or seen by snapshots

---
 src/global_batch.cc |  2 +-
 src/log_iterator.cc |  8 +++-
 src/log_mgr.cc      | 90 +++++++++++++++++++++++----------------------
 src/log_mgr.h       | 12 ++++++
 src/memtable.cc     |  5 +++
 5 files changed, 70 insertions(+), 47 deletions(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index ba8492f..e9201cb 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -86,7 +86,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
             const GlobalBatch::BatchPair& pair = entry;
             // WARNING:
             //   Should clean-up visible seq barrier first.
-            pair.db->p->logMgr->setVisibleSeqBarrier(0);
+            pair.db->p->logMgr->setVisibleSeqBarrier(NOT_INITIALIZED);
             pair.db->p->logMgr->setGlobalBatch(0, nullptr);
             // Unlock should be done at the end.
             pair.db->p->logMgr->unlockWriteMutex();
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index a40d5d9..9e9365b 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -92,6 +92,11 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     s = log_mgr->getAvailSeqRange(minSeqSnap, maxSeqSnap);
     // No log yet.
     if (!s) return s;
+    if (!valid_number(maxSeqSnap)) {
+        // The last log file is empty, get the number from the previous one.
+        s = log_mgr->getMaxSeqNum(maxSeqSnap);
+        if (!s) return Status::OUT_OF_RANGE;
+    }
 
     if (snap_handle) {
         assert(snap_handle->sn);
@@ -110,8 +115,7 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     //   fetching `visibleSeqBarrier` should be done AFTER
     //   fetching max seq number (`getAvailSeqRange` above).
     uint64_t visible_seq_barrier = log_mgr->getVisibleSeqBarrier();
-    if ( visible_seq_barrier &&
-         maxSeqSnap > visible_seq_barrier ) {
+    if (maxSeqSnap > visible_seq_barrier) {
         maxSeqSnap = visible_seq_barrier;
     }
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index dbd1b57..0d3ee24 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -39,7 +39,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , throttlingRate(0)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
-    , visibleSeqBarrier(0)
+    , visibleSeqBarrier(NOT_INITIALIZED)
     , maxFlushingSeqNum(0)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
@@ -728,7 +728,7 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
     getMaxSeqNum(max_seq); // empty log should be tolerated.
     setVisibleSeqBarrier(max_seq);
     GcFunc gc_vs( [&]{
-        setVisibleSeqBarrier(0);
+        setVisibleSeqBarrier(NOT_INITIALIZED);
     } );
 
     EP( checkBatchValidity(batch) );
@@ -779,6 +779,16 @@ uint64_t LogMgr::getVisibleSeqBarrier() {
     return visibleSeqBarrier.load(MOR);
 }
 
+uint64_t LogMgr::getVisibleMaxSeqNum(LogFile* file) {
+    uint64_t max_seq = file->getMaxSeqNum();
+    // Nothing is visible in an empty file.
+    if (!valid_number(max_seq)) max_seq = 0;
+
+    // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
+    //          fetching max seq number.
+    return std::min(max_seq, getVisibleSeqBarrier());
+}
+
 Status LogMgr::checkBatchValidity(const std::list<Record>& batch)
 {
     Status s;
@@ -871,8 +881,7 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
     uint64_t max_seq = gg->file->getMaxSeqNum();
     uint64_t visible_seq_barrier = getVisibleSeqBarrier();
     if ( seq_num > max_seq ||
-         ( visible_seq_barrier &&
-           seq_num > visible_seq_barrier ) ) {
+         seq_num > visible_seq_barrier ) {
         return Status::KEY_NOT_FOUND;
     }
 
@@ -939,14 +948,7 @@ Status LogMgr::get(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeqNum(l_info->file);
 
                 s = l_info->file->get(chk_local, key, rec_out_local, false, true);
                 if (s) {
@@ -1058,14 +1060,7 @@ Status LogMgr::getNearest(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeqNum(l_info->file);
 
                 s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                              false, true, s_opt);
@@ -1154,14 +1149,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeqNum(l_info->file);
 
                 s = l_info->file->getPrefix(chk_local, prefix, cb_func, false, true);
                 if (s == Status::OPERATION_STOPPED) {
@@ -1294,7 +1282,6 @@ Status LogMgr::syncInternal(bool call_fsync) {
     }
 
     uint64_t last_synced_log = ln_from;
-    uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
         LogFileInfoGuard li(mani->getLogFileInfoP(ii));
@@ -1302,7 +1289,10 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
         uint64_t before_sync = li->file->getSyncedSeqNum();
         uint64_t after_sync = NOT_INITIALIZED;
-        EP( li->file->flushMemTable( (seq_barrier ? seq_barrier : NOT_INITIALIZED),
+        // WARNING:
+        //   Should not go beyond what is visible at this moment. Otherwise,
+        //   a part of on-going atomic batch can be synced and then flushed.
+        EP( li->file->flushMemTable( getVisibleMaxSeqNum(li->file),
                                      after_sync ) );
         if (call_fsync) {
             EP( li->file->sync() );
@@ -1314,7 +1304,9 @@ Status LogMgr::syncInternal(bool call_fsync) {
         //   risk that the manifest might write an incorrect syncedSeqNum in
         //   another call stack (e.g., addNewLogFile()). This could lead to
         //   data loss in the event of a crash.
-        li->file->setSyncedSeqNum(after_sync);
+        if (valid_number(after_sync)) {
+            li->file->setSyncedSeqNum(after_sync);
+        }
         _log_( log_level, myLog, "synced log file %zu, min seq %s, "
                "flush seq %s, sync seq %s -> %s, max seq %s",
                ii,
@@ -1445,11 +1437,6 @@ Status LogMgr::flush(const FlushOptions& options,
     }
 
     uint64_t seq_num_local = seq_num;
-    uint64_t seq_barrier = getVisibleSeqBarrier();
-    if (seq_barrier && seq_barrier < seq_num_local) {
-        seq_num_local = seq_barrier;
-    }
-
     if (seq_num_local == NOT_INITIALIZED) {
         // Purge all synced (checkpointed) logs.
 
@@ -1461,6 +1448,15 @@ Status LogMgr::flush(const FlushOptions& options,
             LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
             if (options.beyondLastSync) {
                 seq_num_local = ll->file->getMaxSeqNum();
+                // WARNING:
+                //   Should not flush a part of on-going atomic batch.
+                //   Fetching the barrier should be done AFTER
+                //   fetching max seq number.
+                uint64_t seq_barrier = getVisibleSeqBarrier();
+                if ( valid_number(seq_num_local) &&
+                     seq_num_local > seq_barrier ) {
+                    seq_num_local = seq_barrier ? seq_barrier : NOT_INITIALIZED;
+                }
             } else {
                 seq_num_local = ll->file->getSyncedSeqNum();
             }
@@ -1481,7 +1477,12 @@ Status LogMgr::flush(const FlushOptions& options,
 
     } else {
         // Not all logs, need to adjust `ln_to`.
-        seq_num_local = seq_num;
+        // WARNING: Should not flush a part of on-going atomic batch.
+        uint64_t visible_max_seq = 0;
+        if (getMaxSeqNum(visible_max_seq) && visible_max_seq < seq_num_local) {
+            if (!visible_max_seq) return Status::LOG_NOT_SYNCED;
+            seq_num_local = visible_max_seq;
+        }
         // If in purge only mode, don't need to load mem table.
         mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
     }
@@ -1808,6 +1809,11 @@ Status LogMgr::checkpoint(uint64_t& seq_num_out, bool call_fsync) {
     uint64_t log_file_num = 0;
 
    for(;;) {
+    // WARNING:
+    //   Should not race with writes, otherwise the checkpoint
+    //   can point to the middle of an atomic batch.
+    std::lock_guard<std::recursive_mutex> wm(writeMutex);
+
     // Get latest log file.
     EP(mani->getMaxLogFileNum(log_file_num));
     LogFileInfoGuard g_li(mani->getLogFileInfoP(log_file_num));
@@ -1890,12 +1896,6 @@ Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
     uint64_t max_seq = NOT_INITIALIZED;
     const size_t MAX_TRY = 16;
 
-    uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-    if (visible_seq_barrier) {
-        seq_num_out = visible_seq_barrier;
-        return Status();
-    }
-
    for (size_t num_tries = 0; num_tries < MAX_TRY; num_tries++) {
     EP( mani->getMaxLogFileNum(ln_max) );
 
@@ -1917,7 +1917,9 @@ Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
     if (max_seq == NOT_INITIALIZED) {
         return Status::LOG_NOT_EXIST;
     }
-    seq_num_out = max_seq;
+    // WARNING: Fetching the barrier should be done AFTER
+    //          fetching max seq number.
+    seq_num_out = std::min(max_seq, getVisibleSeqBarrier());
     return Status();
 }
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 6454978..1149719 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -172,8 +172,20 @@ public:
     void setGlobalBatch(uint64_t fwd_barrier,
                         std::shared_ptr<GlobalBatchStatus> status);
 
+    /**
+     * Get the max sequence number that is allowed to be visible.
+     *
+     * @return `NOT_INITIALIZED` if there is no limit.
+     */
     uint64_t getVisibleSeqBarrier();
 
+    /**
+     * Get the max visible sequence number of the given file.
+     *
+     * @return 0 if nothing is visible.
+     */
+    uint64_t getVisibleMaxSeqNum(LogFile* file);
+
     /**
      * Get the max sequence number among records that have been flushed
      * (or are being flushed) to tables since this instance was opened.
diff --git a/src/memtable.cc b/src/memtable.cc
index b6b1e2d..de27a09 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1260,6 +1260,11 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
         seqnum_upto = upto;
     }
 
+    if (seqnum_upto < minSeqNum) {
+        // Nothing to write yet.
+        return Status();
+    }
+
     // Flush never happened: start from min seq num
     // Otherwise: start from last sync seq num + 1
     uint64_t ii = (syncedSeqNum.load() != NOT_INITIALIZED)
-- 
2.43.0


From 5932769d48374f71e13e90b0544313acc68ea0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:47:56 +0000
Subject: [PATCH 43/89] fix: iterator opened during a concurrent flush could
 show a part of newer records

---
 src/iterator.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/iterator.cc b/src/iterator.cc
index 38539a7..db9de7b 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -40,6 +40,8 @@ Status Iterator::init(DB* dd,
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
 
+    const uint64_t flushing_seq = dd->p->logMgr->getMaxFlushingSeqNum();
+
     // LogMgr iterator
     ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
     ctx_log->logItr = new LogMgr::Iterator();
@@ -80,6 +82,15 @@ Status Iterator::init(DB* dd,
     }
     p->itrs.push_back(ctx_table);
 
+    // WARNING:
+    //   If there was a concurrent flush, tables may contain a part of records
+    //   newer than what the log iterator shows. Do it again in such a case.
+    if ( !dd->sn &&
+         dd->p->logMgr->getMaxFlushingSeqNum() != flushing_seq ) {
+        close();
+        return init(dd, start_key, end_key);
+    }
+
     p->windowCursor = avl_first(&p->curWindow);
 
     // NOTE:
@@ -116,6 +127,8 @@ Status Iterator::initSN(DB* db,
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
 
+    const uint64_t flushing_seq = db->p->logMgr->getMaxFlushingSeqNum();
+
     // LogMgr iterator
     ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
     ctx_log->logItr = new LogMgr::Iterator();
@@ -156,6 +169,13 @@ Status Iterator::initSN(DB* db,
     }
     p->itrs.push_back(ctx_table);
 
+    // WARNING: See the comment in `init`.
+    if ( !db->sn &&
+         db->p->logMgr->getMaxFlushingSeqNum() != flushing_seq ) {
+        close();
+        return initSN(db, min_seq, max_seq);
+    }
+
     p->windowCursor = avl_first(&p->curWindow);
 
     // NOTE:
-- 
2.43.0


From 351f948cd2f8bc5201ea46f3c9a271cfbfa5b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:42 +0000
Subject: [PATCH 44/89] fix: table manifest stored during a concurrent
 compaction contained only a part of the change

---
 src/table_compaction.cc | 11 +++++++----
 src/table_manifest.cc   |  7 +++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 250b9cc..ad42ea6 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -754,8 +754,6 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         delete newly_compacted_file;
         throw s;
     }
-    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
-
     // Add special checkpoint 0, for base snapshot.
     uint64_t new_file_last_seqnum = 0;
     newly_compacted_file->getLatestSnapMarker(new_file_last_seqnum);
@@ -764,8 +762,10 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
     // Close the destination handle.
     local_victim->file->releaseDstHandle(dst_handle);
 
-    {   // Remove source table file.
+    {   // Grab lock, add the new table file first, and then
+        // remove the source table file.
         std::lock_guard<std::mutex> l(mani->getLock());
+        mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
         mani->removeTableFile(level, local_victim);
     }
 
@@ -890,7 +890,10 @@ Status TableMgr::compactL0(const CompactOptions& options,
                 }
             }
             createNewTableFile(0, new_normal_file, t_opt);
-            EP( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
+            {   // WARNING: Should not race with storing manifest file.
+                std::lock_guard<std::mutex> l(mani->getLock());
+                EP( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
+            }
             new_normal_table_num = new_normal_file->getNumber();
         }
 
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index d946828..284dd82 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -288,6 +288,11 @@ Status TableManifest::store(bool call_fsync) {
 
     RwSerializer ss(fOps, mFile);
 
+    // WARNING:
+    //   Adding and removing tables by another thread should not happen in the
+    //   middle, otherwise the manifest will contain only a part of it.
+    std::unique_lock<std::mutex> ll(tableUpdateLock);
+
     //   << Table manifest file format >>
     // Latest table file number,        8 bytes
     // Current number of levels (N),    4 bytes
@@ -367,6 +372,8 @@ Status TableManifest::store(bool call_fsync) {
         }
     }
 
+    ll.unlock();
+
     // Footer.
     ss.put(TABMANI_FOOTER, 8);
 
-- 
2.43.0


From 5e635c9eced4168cab7396e40ddc067d6883875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:03 +0000
Subject: [PATCH 45/89] fix: log manifest stored while log files were being
 added or removed was inconsistent

---
 src/log_manifest.cc | 76 +++++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index d721eb4..16d9c31 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -537,21 +537,26 @@ Status LogManifest::storeInternal(bool call_fsync) {
     // Resizable serializer.
     RwSerializer ss(&mani_buf);
 
+    for (;;) {
+    // WARNING:
+    //   Other threads may add or remove log files at the same time.
+    //   If anything is changed in the middle, do it again.
+    const uint64_t max_log_file_num = maxLogFileNum;
+    const uint64_t last_flushed_log = lastFlushedLog;
+    const uint64_t last_synced_log = lastSyncedLog;
+    uint32_t num_log_files = 0;
+    ss.pos(0);
+
     //   << Log manifest file format >>
     // Latest log file number,       8 bytes
     // Last flushed log file number, 8 bytes
     // Last synced log file number,  8 bytes
     // Number of log files,          4 bytes
-    uint32_t num_log_files = skiplist_get_size(&logFiles);
-    ss.putU64(maxLogFileNum);
-    ss.putU64(lastFlushedLog);
-    ss.putU64(lastSyncedLog);
+    ss.putU64(max_log_file_num);
+    ss.putU64(last_flushed_log);
+    ss.putU64(last_synced_log);
+    const size_t pos_num_log_files = ss.pos();
     ss.putU32(num_log_files);
-    _log_debug(myLog,
-               "max log file num %ld, last flush %ld, last sync %ld, "
-               "num log files %zu",
-               maxLogFileNum.load(), lastFlushedLog.load(),
-               lastSyncedLog.load(), num_log_files);
 
     skiplist_node* cursor = skiplist_begin(&logFiles);
     while (cursor) {
@@ -563,27 +568,50 @@ Status LogManifest::storeInternal(bool call_fsync) {
         LogFileInfo* info = _get_entry(cursor, LogFileInfo, snode);
         LogFile* l_file = info->file;
 
-        // WARNING: We should grab `info` due to below
-        //          seq number retrievals. Otherwise, there can
-        //          be a possibility of heap-use-after-free if
-        //          this file is being evicted by the reclaimer.
-        info->grab(false);
-
-        ss.putU64(info->logFileNum);
-        ss.putU64(l_file->getMinSeqNum());
-        ss.putU64(l_file->getFlushedSeqNum());
-        ss.putU64(l_file->getSyncedSeqNum());
-        _log_trace(myLog,
-                   "log %ld, min seq %ld, last flush %ld, last sync %ld",
-                   info->logFileNum, l_file->getMinSeqNum(),
-                   l_file->getFlushedSeqNum(), l_file->getSyncedSeqNum());
-        info->done();
+        // NOTE: If the number is bigger than `max_log_file_num`,
+        //       it is being added and does not contain any data yet.
+        if ( !valid_number(max_log_file_num) ||
+             info->logFileNum <= max_log_file_num ) {
+            // WARNING: We should grab `info` due to below
+            //          seq number retrievals. Otherwise, there can
+            //          be a possibility of heap-use-after-free if
+            //          this file is being evicted by the reclaimer.
+            info->grab(false);
+
+            ss.putU64(info->logFileNum);
+            ss.putU64(l_file->getMinSeqNum());
+            ss.putU64(l_file->getFlushedSeqNum());
+            ss.putU64(l_file->getSyncedSeqNum());
+            _log_trace(myLog,
+                       "log %ld, min seq %ld, last flush %ld, last sync %ld",
+                       info->logFileNum, l_file->getMinSeqNum(),
+                       l_file->getFlushedSeqNum(), l_file->getSyncedSeqNum());
+            info->done();
+            num_log_files++;
+        }
 
         cursor = skiplist_next(&logFiles, cursor);
         skiplist_release_node(&info->snode);
     }
     if (cursor) skiplist_release_node(cursor);
 
+    if ( max_log_file_num != maxLogFileNum ||
+         last_flushed_log != lastFlushedLog ||
+         last_synced_log != lastSyncedLog ) continue;
+
+    const size_t cur_pos = ss.pos();
+    ss.pos(pos_num_log_files);
+    ss.putU32(num_log_files);
+    ss.pos(cur_pos);
+
+    _log_debug(myLog,
+               "max log file num %ld, last flush %ld, last sync %ld, "
+               "num log files %zu",
+               max_log_file_num, last_flushed_log,
+               last_synced_log, num_log_files);
+    break;
+    }
+
     ss.put(LOGMANI_FOOTER, 8);
 
     // Version
-- 
2.43.0


From b51414272fea4351d159d9d2c3cab50b50ddf950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:21:29 +0000
Subject: [PATCH 46/89] fix: sequence numbers existing in tables were issued
 again after a crash

---
 src/log_manifest.cc | 13 +++++++++++++
 src/log_mgr.cc      | 23 +++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 16d9c31..c8a5f2b 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -447,6 +447,11 @@ Status LogManifest::load(const std::string& path,
                 //       after table loading is done. So it is safe to
                 //       set it to 0 here.
                 l_file->create(l_filename, fLogOps, l_file_num, 0);
+                if (valid_number(last_synced_seq)) {
+                    // The lost records may exist in tables, their sequence
+                    // numbers should not be issued again.
+                    l_file->forceSeqnum(last_synced_seq);
+                }
 
                 _log_warn(myLog, "no log file is found due to previous crash, "
                           "created new log file %zu", l_file_num);
@@ -458,6 +463,14 @@ Status LogManifest::load(const std::string& path,
         }
         first_file_read = true;
 
+        // The log file may contain less records than what was flushed, if it
+        // was not fsynced before crash. Sequence numbers of flushed records
+        // should not be issued again.
+        if ( valid_number(purged_seq) &&
+             l_file->getMaxSeqNum() < purged_seq ) {
+            l_file->updateMaxSeqNum(purged_seq);
+        }
+
         // The log file may contain more records than what manifest file knows,
         // if crash happened before storing manifest file. They should be taken
         // into account by the next log files, otherwise sequence numbers will
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 0d3ee24..c04e9b9 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -2221,6 +2221,29 @@ Status LogMgr::syncSeqnum(TableMgr* t_mgr) {
         //ll.file()->forceSeqnum(last_seqnum);
     }
 
+    // WARNING:
+    //   If the last log is lagging behind tables, the next sequence number
+    //   should be based on tables. Otherwise, sequence numbers existing in
+    //   tables will be issued again, so that tables' old records can win
+    //   over new records with smaller sequence numbers.
+    LogFileInfoGuard g_max( mani->getLogFileInfoP(max_log_file) );
+    if (g_max.empty() || g_max.ptr->isRemoved()) return s;
+
+    uint64_t max_seq = g_max.file()->getMaxSeqNum();
+    if (!valid_number(max_seq) || max_seq < last_seqnum) {
+        if (g_max.file()->isImmutable()) {
+            g_max.file()->updateMaxSeqNum(last_seqnum);
+        } else {
+            // New empty log file: there is nothing to flush.
+            g_max.file()->forceSeqnum(last_seqnum);
+        }
+        _log_warn(myLog, "log file %zu is lagging behind tables, "
+                  "adjust max seq %s -> %s",
+                  max_log_file,
+                  _seq_str(max_seq).c_str(),
+                  _seq_str(last_seqnum).c_str());
+    }
+
     return s;
 }
 
-- 
2.43.0


From a7c116c1c3e9f9873f3ccd58a748dbfb715dbea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:21:29 +0000
Subject: [PATCH 47/89] fix: logs should be durable before their records are
 written to tables

---
 src/log_mgr.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c04e9b9..541b8f2 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1557,6 +1557,14 @@ Status LogMgr::flush(const FlushOptions& options,
             while ( exp < max_seq &&
                     !maxFlushingSeqNum.compare_exchange_weak(exp, max_seq) );
 
+            if (!options.beyondLastSync) {
+                // WARNING:
+                //   Logs should be durable before tables are. There can be
+                //   log files unknown to the durable log manifest, if other
+                //   thread is in the middle of sync or if they were synced
+                //   without `fsync`.
+                EP( mani->store(true) );
+            }
             EP( table_mgr->setBatch(records, checkpoints) );
             EP( table_mgr->storeManifest() );
             _log_debug(myLog, "Updated table files.");
-- 
2.43.0


From f313170b139812d91037d8a9c579ab10ea6df0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:35:17 +0000
Subject: [PATCH 48/89] fix: snapshot in log store mode should load purged
 mem-tables

---
 src/log_mgr.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 541b8f2..f6cd795 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -910,6 +910,9 @@ Status LogMgr::get(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // NOTE: Mem-table may have been purged in log store mode.
+            l_info->grab(true);
+            LogFileInfoGuard li(l_info);
             s = l_info->file->get(chk_local, key, rec_out_local, true, true);
             if (s) {
                 rec_out_local.copyTo(rec_out);
@@ -1014,6 +1017,9 @@ Status LogMgr::getNearest(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // NOTE: Mem-table may have been purged in log store mode.
+            l_info->grab(true);
+            LogFileInfoGuard li(l_info);
             s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                          true, true, s_opt);
             if (s) {
@@ -1117,6 +1123,9 @@ Status LogMgr::getPrefix(const uint64_t chk,
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
+            // NOTE: Mem-table may have been purged in log store mode.
+            l_info->grab(true);
+            LogFileInfoGuard li(l_info);
             s = l_info->file->getPrefix(chk_local, prefix, cb_func, true, true);
             if (s == Status::OPERATION_STOPPED) return s;
             entry++;
-- 
2.43.0


From 517412768ebfe0662d43dee017a0ffe94da5083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:37:26 +0000
Subject: [PATCH 49/89] fix: destroying an evicted log file should not hang

---
 src/log_manifest.h | 49 +++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/log_manifest.h b/src/log_manifest.h
index 82a247b..32798ff 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -143,32 +143,29 @@ struct LogFileInfo {
             uint64_t snap_count = 0;
             uint64_t ref_count = 0;
             bool destroy_file = false;
-            if (snapshot) {
-                snap_count = snapCount.fetch_sub(1);
-                ref_count = refCount;
-                destroy_file = (snap_count == 1 && ref_count == 0);
-            } else {
-                snap_count = snapCount;
-                ref_count = refCount.fetch_sub(1);
-                destroy_file = (snap_count == 0 && ref_count == 1);
-            }
-
-            if (destroy_file) {
+            {
                 // WARNING:
-                //   While reclaimer is evicting memtable below (in that case
-                //   refCount == 0 already), LogMgr::flush() may grab a file,
-                //   remove it, and then release, which will get into here.
-                //   In this case this file will not be protected and causes crash.
-                //   We should do busy-waiting for eviction here.
+                //   Other thread may be evicting memtable below (in that case
+                //   refCount == 0 already). We should wait for it before
+                //   destroying this file.
                 //
                 // * Note that opposite CANNOT happen, because
                 //   1) This node is already detached from skiplist, and
                 //   2) once `removed` flag is set, reclaimer cannot handle this file.
                 //
-                if (evicted) {
-                    while (!file->isMemTablePurged()) std::this_thread::yield();
-                    // Wait for other job done.
+                std::lock_guard<std::mutex> l(evictionLock);
+                if (snapshot) {
+                    snap_count = snapCount.fetch_sub(1);
+                    ref_count = refCount;
+                    destroy_file = (snap_count == 1 && ref_count == 0);
+                } else {
+                    snap_count = snapCount;
+                    ref_count = refCount.fetch_sub(1);
+                    destroy_file = (snap_count == 0 && ref_count == 1);
                 }
+            }
+
+            if (destroy_file) {
                 file->destroySelf();
                 delete file;
                 delete this;
@@ -177,15 +174,13 @@ struct LogFileInfo {
         }
 
         if (snapshot == false && evicted) {
+            // WARNING:
+            //   Reference counter should be decreased while holding the lock,
+            //   otherwise this file can be destroyed by other thread in the middle.
+            std::lock_guard<std::mutex> l(evictionLock);
             uint64_t count = refCount.fetch_sub(1);
-            if (count == 1) {
-                std::lock_guard<std::mutex> l(evictionLock);
-                // WARNING:
-                //   There shouldn't be another thread that called grab() before this.
-                uint64_t count_protected = refCount.load();
-                if (count_protected == 0 && !file->isMemTablePurged()) {
-                    file->purgeMemTable();
-                }
+            if (count == 1 && !file->isMemTablePurged()) {
+                file->purgeMemTable();
             }
             return;
         }
-- 
2.43.0


From 18d9abd73103f42b1b57fa2ca53c727e71ecc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:22 +0000
Subject: [PATCH 50/89] fix: the last synced log should exist after removing an
 empty log

---
 src/log_mgr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index f6cd795..6af14c9 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -176,6 +176,9 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
         //       max log file number doesn't point to the new log file.
         uint64_t log_num = 0;
         TC(mani->issueLogFileNumber(log_num));
+        // The last synced and flushed log files do not exist any more.
+        mani->setLastSyncedLog(NOT_INITIALIZED);
+        mani->setLastFlushedLog(NOT_INITIALIZED);
         _log_warn(myLog, "no valid log file exists, start from %zu", log_num);
         std::string l_filename =
                 LogFile::getLogFileName(opt.path, opt.prefixNum, log_num);
-- 
2.43.0


From b87b42c8f25255aecf21a307beb52843ff79d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:47 +0000
Subject: [PATCH 51/89] fix: empty log file loaded lazily should not crash

---
 src/log_file.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index e41e98b..6015159 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -221,16 +221,19 @@ Status LogFile::loadMemTable() {
 
     // Check footer and version.
     fileSize = fOps->eof(fHandle);
-    if (!fileSize) {
+    if (!fileSize && !memtablePurged) {
         // If file is empty, treat it as a non-exist file.
+        // NOTE: If mem-table is being loaded lazily (`memtablePurged` is set),
+        //       it is too late to do that. Treat it as a file that contains
+        //       footer and version only.
         closeFHandle();
         return Status::FILE_NOT_EXIST;
     }
 
-    SizedBuf read_buf(fileSize);
+    SizedBuf read_buf(fileSize ? fileSize : 8 + 4);
     SizedBuf::Holder h_read_buf(read_buf);
 
-    fOps->pread(fHandle, read_buf.data, read_buf.size, 0);
+    if (fileSize) fOps->pread(fHandle, read_buf.data, read_buf.size, 0);
 
     uint8_t footer_file[8];
     RwSerializer ss(read_buf);
-- 
2.43.0


From 6d9dee56b10ee62c4c469e823bde4db3f2b13dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:31 +0000
Subject: [PATCH 52/89] fix: log files with unknown contents should not be
 loaded lazily

---
 src/log_manifest.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index c8a5f2b..b0bdefa 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -379,7 +379,8 @@ Status LogManifest::load(const std::string& path,
             break;
         }
 
-        if (valid_number(synced_seq)) {
+        const bool synced_before = valid_number(synced_seq);
+        if (synced_before) {
             last_synced_seq = synced_seq;
         }
         if (!valid_number(min_seq) && valid_number(last_synced_seq)) {
@@ -401,6 +402,11 @@ Status LogManifest::load(const std::string& path,
 
         s = l_file->load(l_filename, fLogOps, l_file_num,
                          min_seq, purged_seq, synced_seq);
+        if (s && l_file->isMemTablePurged() && !synced_before) {
+            // Manifest file does not know what this file contains,
+            // it should not be loaded lazily.
+            s = l_file->loadMemTable();
+        }
         if (!s) {
             _s_warn(myLog) << "log file " << l_file_num << " read error: " << s;
             if ( s == Status::FILE_NOT_EXIST ||
@@ -496,6 +502,14 @@ Status LogManifest::load(const std::string& path,
         }
     }
 
+    if (logMgr->isLogStoreMode()) {
+        // The last log file may contain more records than what manifest file
+        // knows, if crash happened before storing manifest file.
+        // Same as above, it should not be loaded lazily.
+        LogFileInfo* last_info = nullptr;
+        if (getLogFileInfo(maxLogFileNum, last_info)) last_info->done();
+    }
+
     _log_info(myLog, "loading manifest & log files done: %lu us, "
               "flushed %s synced %s max %s",
               tt.getUs(),
-- 
2.43.0


From 0f10206a5262e910a9f9cf5ccfa12e41b3c15331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:43:48 +0000
Subject: [PATCH 53/89] fix: flush up to a sequence number beyond the last sync
 should not lose records

---
 src/log_mgr.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 6af14c9..38d227f 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1449,7 +1449,16 @@ Status LogMgr::flush(const FlushOptions& options,
     }
 
     uint64_t seq_num_local = seq_num;
-    if (seq_num_local == NOT_INITIALIZED) {
+    bool upto_last = (seq_num_local == NOT_INITIALIZED);
+    if (!upto_last && !options.beyondLastSync && !options.purgeOnly) {
+        // WARNING:
+        //   Logs beyond the last sync are not flushed, so that
+        //   the files containing them should not be removed either.
+        uint64_t last_synced_seq = NOT_INITIALIZED;
+        s = getLastSyncedSeqNum(last_synced_seq);
+        upto_last = (!s || seq_num_local > last_synced_seq);
+    }
+    if (upto_last) {
         // Purge all synced (checkpointed) logs.
 
         // WARNING:
-- 
2.43.0


From 7b8cf39af721df2f09ef62dcfd16ef70e463cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:31 +0000
Subject: [PATCH 54/89] fix: evicted log file should be reloaded even without
 log reclaimer

---
 src/log_manifest.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index b0bdefa..b8f6577 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -765,7 +765,7 @@ Status LogManifest::getLogFileInfo(const uint64_t log_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(true);
     }
     skiplist_release_node(cursor);
     return Status();
@@ -803,7 +803,7 @@ Status LogManifest::getLogFileInfoRange(const uint64_t s_log_inc,
         if (force_not_load_memtable) {
             l_info->grab();
         } else {
-            l_info->grab(isLogReclaimerActive());
+            l_info->grab(true);
         }
         info_out.push_back(l_info);
 
@@ -871,7 +871,7 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(true);
     }
     skiplist_release_node(cursor);
     return Status();
-- 
2.43.0


From 0fe5b860612b91e14fa20e1a628e418d544757f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:31 +0000
Subject: [PATCH 55/89] fix: discarding dirty records should not break open
 iterators

---
 src/memtable.cc          | 20 ++++++++++++++++----
 src/memtable.h           |  1 +
 src/memtable_iterator.cc |  3 ++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index de27a09..cdf9962 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -106,8 +106,8 @@ uint64_t MemTable::RecNode::getMinSeq() {
     mGuard l(recListLock);
     auto entry = recList->begin();
     if (entry == recList->end()) {
-        // Shouldn't happen.
-        assert(0);
+        // All records of this key have been discarded.
+        return NOT_INITIALIZED;
     }
     Record* rec = *entry;
     return rec->seqNum;
@@ -297,6 +297,13 @@ MemTable::~MemTable() {
         }
         skiplist_free(idxBySeq);
         delete idxBySeq;
+
+        {   mGuard l(staleLogsLock);
+            for (auto& entry: staleSeqNodes) {
+                skiplist_wait_for_free(&entry->snode);
+                delete entry;
+            }
+        }
     }
 
     if (bfByKey) {
@@ -551,8 +558,13 @@ Status MemTable::discardDirty(uint64_t seq_begin,
         cursor = skiplist_next(idxBySeq, &rec_seq->snode);
         skiplist_erase_node(idxBySeq, &rec_seq->snode);
         skiplist_release_node(&rec_seq->snode);
-        skiplist_wait_for_free(&rec_seq->snode);
-        delete rec_seq;
+
+        // NOTE:
+        //   There can be iterators pointing to this node, hence do not wait
+        //   for them but let it be freed along with this mem-table.
+        {   mGuard l(staleLogsLock);
+            staleSeqNodes.push_back(rec_seq);
+        }
     }
     if (cursor) {
         skiplist_release_node(cursor);
diff --git a/src/memtable.h b/src/memtable.h
index bf975f4..693e6b8 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -251,6 +251,7 @@ private:
     // Temporary store for stale (overwritten using the same seq num) logs.
     std::mutex staleLogsLock;
     std::list<Record*> staleLogs;
+    std::list<RecNodeSeq*> staleSeqNodes;
 
     // Checkpoints.
     std::mutex checkpointsLock;
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 5c26425..2131290 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -144,7 +144,8 @@ Status MemTable::Iterator::get(Record& rec_out) {
     if (type == BY_KEY) {
         RecNode* node = _get_entry(cursor, RecNode, snode);
         Record* rec = node->getLatestRecord(seqFrom, seqUpto);
-        assert(rec);
+        // All records can be discarded in the meantime.
+        if (!rec) return Status::KEY_NOT_FOUND;
         rec_out = *rec;
 
     } else { // BY_SEQ
-- 
2.43.0


From 9616c0e07376888a1cb66164290308570311c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:31 +0000
Subject: [PATCH 56/89] fix: rolled-back records should not be visible while
 there is a reader

---
 src/log_file.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/log_file.cc b/src/log_file.cc
index 6015159..5372e0f 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -296,6 +296,8 @@ Status LogFile::truncate(uint64_t seq_upto) {
         MemTable::findOffsetOfSeq(myLog, ss, seq_upto, offset_to_truncate);
 
         if (mTable) {
+            // The mem-table will be alive if there are readers.
+            mTable->discardDirty(seq_upto + 1);
             mTable->maxSeqNum = seq_upto;
             mTable->syncedSeqNum = seq_upto;
             mTable->seqNumAlloc = seq_upto;
-- 
2.43.0


From 9b068b1989f19ef2e24445dd6a0dd79fcb5dbabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:31 +0000
Subject: [PATCH 57/89] fix: crash in the middle of rollback should not leave a
 hole in logs

---
 src/log_mgr.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 38d227f..644c798 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -288,7 +288,8 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     this->parentDb->p->flags.rollbackInProgress = true;
 
     // Should sync first.
-    EP( syncInternal(false) );
+    // NOTE: Log files should be durable before manifest file is.
+    EP( syncInternal(true) );
 
     // Find corresponding log file.
     LogFileInfo* linfo;
@@ -297,16 +298,10 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     LogFileInfoGuard gg(linfo);
     if (gg.empty() || gg.ptr->isRemoved()) return Status::SEQNUM_NOT_FOUND;
 
-    // Truncate that file.
-    EP( gg.file()->truncate(seq_upto) );
-
-    if (d_params.rollbackDelayUs) {
-        // If debug parameter is given, sleep here.
-        Timer::sleepUs(d_params.rollbackDelayUs);
-    }
-
-    gg.file()->setImmutable();
-    _log_info(myLog, "[ROLLBACK] truncated log file %zu", linfo->logFileNum);
+    // WARNING:
+    //   Log files after that should be removed (and the manifest file should
+    //   be updated) first. If crash happens after truncating the file first,
+    //   there will be a hole in the middle.
 
     // Remove all log files after that.
     uint64_t lf_max = 0;
@@ -328,6 +323,19 @@ Status LogMgr::rollback(uint64_t seq_upto) {
 
     // Adjust manifest, and store.
     mani->setLastSyncedLog(linfo->logFileNum);
+    EP( mani->store(true) );
+
+    // Truncate that file.
+    EP( gg.file()->truncate(seq_upto) );
+
+    if (d_params.rollbackDelayUs) {
+        // If debug parameter is given, sleep here.
+        Timer::sleepUs(d_params.rollbackDelayUs);
+    }
+
+    gg.file()->setImmutable();
+    _log_info(myLog, "[ROLLBACK] truncated log file %zu", linfo->logFileNum);
+
     mani->store(true);
     _log_info(myLog, "[ROLLBACK] now %zu is the last seqnum", seq_upto);
 
-- 
2.43.0


From 5c313546c285496bf47a04f7a6bd3a757d1ff1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:05:31 +0000
Subject: [PATCH 58/89] fix: log file removed by rollback should not remove the
 new file with the same number

---
 src/log_file.cc |  8 +++++++-
 src/log_file.h  |  5 +++++
 src/log_mgr.cc  | 10 +++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 5372e0f..a96f1fe 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -35,6 +35,7 @@ LogFile::LogFile(LogMgr* log_mgr)
     , coldChk(false)
     , integrity(IntegrityTypes::UNKNOWN)
     , memtablePurged(false)
+    , fileRemoved(false)
     , logMgr(log_mgr)
     , fileSize(0)
     , myLog(nullptr)
@@ -683,6 +684,11 @@ Status LogFile::updateSeqNumByBulkLoader(const uint64_t seq_num) {
     return Status();
 }
 
+Status LogFile::removeFile() {
+    fileRemoved = true;
+    return fOps->remove(filename.c_str());
+}
+
 Status LogFile::destroySelf() {
     if (fHandle) {
         if (fHandle->isOpened()) {
@@ -692,7 +698,7 @@ Status LogFile::destroySelf() {
         fHandle = nullptr;
     }
 
-    if (fOps->exist(filename.c_str())) {
+    if (!fileRemoved && fOps->exist(filename.c_str())) {
         // Instead removing it immediately,
         // put it into remove list.
         DBMgr* dbm = DBMgr::getWithoutInit();
diff --git a/src/log_file.h b/src/log_file.h
index 7386ee5..fa95dcc 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -118,6 +118,7 @@ public:
     Status setSyncedSeqNum(const uint64_t seq_num);
     Status setFlushedSeqNum(const uint64_t seq_num);
     Status updateSeqNumByBulkLoader(const uint64_t seq_num);
+    Status removeFile();
     Status destroySelf();
 
     uint64_t getMinSeqNum() const;
@@ -236,6 +237,10 @@ private:
     // Memtable has been purged.
     std::atomic<bool> memtablePurged;
 
+    // If true, the file has been removed already,
+    // and its name may be re-used by another log file.
+    std::atomic<bool> fileRemoved;
+
     // Memtable metadata if it is purged.
     PurgedMemTableMeta memTableOnFileMeta;
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 644c798..f2c96b9 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -306,9 +306,13 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     // Remove all log files after that.
     uint64_t lf_max = 0;
     mani->getMaxLogFileNum(lf_max);
+    std::list<LogFileInfo*> removed_files;
+    GcFunc gc_removed_files( [&removed_files]() -> void
+                             {for (auto& entry: removed_files) entry->done();} );
     for (uint64_t ii = linfo->logFileNum + 1; ii <= lf_max; ++ii) {
         // Avoid loading memtable because of this call.
-        LogFileInfoGuard ll(mani->getLogFileInfoP(ii, true));
+        LogFileInfo* removed_file = mani->getLogFileInfoP(ii, true);
+        if (removed_file) removed_files.push_back(removed_file);
 
         // Remove file from manifest.
         mani->removeLogFile(ii);
@@ -339,6 +343,10 @@ Status LogMgr::rollback(uint64_t seq_upto) {
     mani->store(true);
     _log_info(myLog, "[ROLLBACK] now %zu is the last seqnum", seq_upto);
 
+    // WARNING:
+    //   Log file numbers will be re-used, so that files should be removed
+    //   now, even though there are readers still using them.
+    for (auto& entry: removed_files) entry->file->removeFile();
     DBMgr::get()->forceRemoveFiles();
 
     // Reload the entire memtable, to purge rolled-back records.
-- 
2.43.0


From ca2cef0ebfb1269c835251267c67db936e64ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:18:38 +0000
Subject: [PATCH 59/89] fix: table migrated to the next level should stay until
 its readers are done

---
 src/table_compaction.cc |  2 +-
 src/table_manifest.h    | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index ad42ea6..bf816be 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -660,8 +660,8 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
         auto eer = tables.rbegin();
         while (eer != tables.rend()) {
             TableInfo* ti = *eer;
-            ti->setMigration();
             TC( mani->addTableFile( level + 1, 0, ti->minKey, ti->file ) );
+            ti->setMigration( ti->file->getTableInfo() );
             eer++;
         }
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index a832813..2681ac8 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -59,6 +59,7 @@ struct TableInfo {
         , refCount(0)
         , removed(false)
         , migration(false)
+        , migratedTo(nullptr)
         , status( query_purpose ? QUERY_PURPOSE : NORMAL )
         , stack(nullptr)
         , baseTable(true)
@@ -116,7 +117,9 @@ struct TableInfo {
                     file->destroySelf();
                     delete file;
                 }
+                TableInfo* next_info = migratedTo;
                 delete this;
+                if (next_info) next_info->done();
             }
             return;
         }
@@ -128,7 +131,14 @@ struct TableInfo {
     void setRemoved()   { removed.store(true, MOR); }
     bool isRemoved()    { return removed.load(MOR); }
 
-    void setMigration()   { migration.store(true, MOR); }
+    void setMigration(TableInfo* next_info) {
+        // NOTE: This table info can be still used by iterators or snapshots.
+        //       The file should be alive until they are done, even though
+        //       the table info in the next level is removed.
+        next_info->grab();
+        migratedTo = next_info;
+        migration.store(true, MOR);
+    }
     bool isMigrating()    { return migration.load(MOR); }
 
     void setCompactSrc()    { return status.store(COMPACT_SRC, MOR); }
@@ -164,6 +174,9 @@ struct TableInfo {
     // Flag indicating that this table is being migrated.
     std::atomic<bool> migration;
 
+    // Table info in the next level, if this table is being migrated.
+    TableInfo* migratedTo;
+
     // Current table status.
     std::atomic<Status> status;
 
-- 
2.43.0


From 2029db37e578ab9ce0a7c66f537bb13106e581e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:32:58 +0000
Subject: [PATCH 60/89] fix: memtable iterator should follow the custom
 comparison function

---
 src/memtable.cc          | 11 +++++++++++
 src/memtable.h           |  3 +++
 src/memtable_iterator.cc | 16 ++++++++--------
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index cdf9962..ce6ac11 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -332,6 +332,17 @@ int MemTable::cmpKey(skiplist_node *a, skiplist_node *b, void *aux) {
     return SizedBuf::cmp(aa->key, bb->key);
 }
 
+int MemTable::cmpKeys(const SizedBuf& a, const SizedBuf& b) const {
+    CMP_NULL_CHK(a.data, b.data);
+
+    CustomCmpFunc func = logFile->logMgr->getDbConfig()->cmpFunc;
+    if (func) {
+        return func(a.data, a.size, b.data, b.size,
+                    logFile->logMgr->getDbConfig()->cmpFuncParam);
+    }
+    return SizedBuf::cmp(a, b);
+}
+
 Status MemTable::getReady() {
     // Set custom cmp function if given.
     if (logFile->logMgr->getDbConfig()->cmpFunc) {
diff --git a/src/memtable.h b/src/memtable.h
index 693e6b8..c4978d0 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -43,6 +43,9 @@ public:
 
     static int cmpKey(skiplist_node *a, skiplist_node *b, void *aux);
 
+    // Compare two keys, using custom cmp function if given.
+    int cmpKeys(const SizedBuf& a, const SizedBuf& b) const;
+
     Status init(const uint64_t start_seq_num = 0);
 
     Status assignSeqNum(Record& rec_local);
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 2131290..4d09295 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -45,7 +45,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
 
     RecNode* rn = _get_entry(cursor, RecNode, snode);
-    if (!end_key.empty() && SizedBuf::cmp(rn->key, end_key) > 0) {
+    if (!end_key.empty() && mTable->cmpKeys(rn->key, end_key) > 0) {
         skiplist_release_node(cursor);
         cursor = nullptr;
         return Status::OUT_OF_RANGE;
@@ -59,7 +59,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     // Skip invalid keys.
     for (; cursor ;) {
         RecNode* rn = _get_entry(cursor, RecNode, snode);
-        if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+        if (!endKey.empty() && mTable->cmpKeys(rn->key, endKey) > 0) {
             // Greater than end key.
             skiplist_release_node(cursor);
             cursor = nullptr;
@@ -169,7 +169,7 @@ Status MemTable::Iterator::prev(bool allow_tombstone) {
             if (!prev_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(prev_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(prev_node);
                 return Status::OUT_OF_RANGE;
@@ -215,7 +215,7 @@ Status MemTable::Iterator::next(bool allow_tombstone) {
             if (!next_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(next_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(next_node);
                 return Status::OUT_OF_RANGE;
@@ -265,7 +265,7 @@ Status MemTable::Iterator::seek
 
     if (opt == GREATER) {
         if ( !startKey.empty() &&
-             ( key.empty() || SizedBuf::cmp(key, startKey) < 0 ) ) {
+             ( key.empty() || mTable->cmpKeys(key, startKey) < 0 ) ) {
             // gotoBegin or out of range, and start key is given.
             query_key_ptr = &startKey;
         }
@@ -288,7 +288,7 @@ Status MemTable::Iterator::seek
         }
 
     } else if (opt == SMALLER) {
-        if ( !endKey.empty() && SizedBuf::cmp(key, endKey) > 0 ) {
+        if ( !endKey.empty() && mTable->cmpKeys(key, endKey) > 0 ) {
             // Out of range, and end key is given.
             query_key_ptr = &endKey;
         }
@@ -329,7 +329,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go forward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(seek_node);
                 return nullptr;
@@ -349,7 +349,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go backward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(seek_node);
                 return nullptr;
-- 
2.43.0


From b4cb90566276d7186eac8a12c915da1c15505104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:33:42 +0000
Subject: [PATCH 61/89] fix: tables in level 1 and above should be ordered by
 the custom comparison function

---
 src/table_compaction.cc | 11 ++++++-----
 src/table_file.cc       |  4 ++--
 src/table_helper.cc     | 11 +++++++++++
 src/table_helper.h      |  6 ++++++
 src/table_manifest.cc   | 20 +++++++++++++-------
 src/table_manifest.h    |  3 ++-
 6 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index bf816be..71cecff 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -135,7 +135,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
 
     uint64_t acc_size = 0;
     uint64_t acc_records = 0;
-    if ( !min_table || min_key_victim < min_table->minKey ) {
+    if ( !min_table ||
+         cmp_keys(db_config, min_key_victim, min_table->minKey) < 0 ) {
         // Should create a new table for min key.
         cur_group = new RecGroupItr(SizedBuf(), 0, nullptr);
         new_tables.push_back(cur_group);
@@ -147,7 +148,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         new_tables.push_back(cur_group);
         while (t_itr != tables.end()) {
             TableInfo* tt = *t_itr;
-            if (tt->minKey <= min_key_victim) {
+            if (cmp_keys(db_config, tt->minKey, min_key_victim) <= 0) {
                 cur_group->table = tt;
             } else {
                 break;
@@ -237,7 +238,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         uint64_t cur_index = offsets.size() - 1;
 
         if ( next_table &&
-             cur_rec.kv.key >= next_table->minKey ) {
+             cmp_keys(db_config, cur_rec.kv.key, next_table->minKey) >= 0 ) {
             // New table.
             cur_group = new RecGroupItr( next_table->minKey,
                                          cur_index,
@@ -249,7 +250,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             // Skip tables whose range is not overlapping.
             while (t_itr != tables.end()) {
                 TableInfo* tt = *t_itr;
-                if (tt->minKey <= cur_rec.kv.key) {
+                if (cmp_keys(db_config, tt->minKey, cur_rec.kv.key) <= 0) {
                     cur_group->table = tt;
                 } else {
                     break;
@@ -286,7 +287,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             // move to a new table that is not in `tables`.
             //
             // BUT, ONLY WHEN THE KEY IS BIGGER THAN THE LAST TABLE'S MAX KEY.
-            if (cur_rec.kv.key > max_key_table) {
+            if (cmp_keys(db_config, cur_rec.kv.key, max_key_table) > 0) {
                 _log_info( myLog, "rec key %s is greater than max table key %s, "
                            "urgent split at level %zu, acc size %zu, "
                            "acc records %zu, limit %zu",
diff --git a/src/table_file.cc b/src/table_file.cc
index 7533e07..df9a89d 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -969,9 +969,9 @@ Status TableFile::setBatch(std::list<Record*>& batch,
         // If range is given, check range:
         //  [min_key, min_key_next_table)
         if ( !min_key.empty() &&
-             rec->kv.key < min_key) continue;
+             cmp_keys(db_config, rec->kv.key, min_key) < 0 ) continue;
         if ( !min_key_next_table.empty() &&
-             rec->kv.key >= min_key_next_table ) continue;
+             cmp_keys(db_config, rec->kv.key, min_key_next_table) >= 0 ) continue;
 
         // Append all checkpoints that
         //  `record[n-1] seqnum <= chk < record[n] seqnum`
diff --git a/src/table_helper.cc b/src/table_helper.cc
index 0e2c506..ae1ead1 100644
--- a/src/table_helper.cc
+++ b/src/table_helper.cc
@@ -44,6 +44,17 @@ std::string hex_dump_to_string(const SizedBuf& key, size_t max_len) {
     return ret;
 }
 
+int cmp_keys(const DBConfig* db_config,
+             const SizedBuf& l,
+             const SizedBuf& r)
+{
+    if (db_config && db_config->cmpFunc && !l.empty() && !r.empty()) {
+        return db_config->cmpFunc( l.data, l.size, r.data, r.size,
+                                   db_config->cmpFuncParam );
+    }
+    return SizedBuf::cmp(l, r);
+}
+
 int cmp_records(const DBConfig* db_config,
                 const Record* l,
                 const Record* r)
diff --git a/src/table_helper.h b/src/table_helper.h
index 3945e47..fbc7840 100644
--- a/src/table_helper.h
+++ b/src/table_helper.h
@@ -37,6 +37,12 @@ void hex_dump_key(const SizedBuf& key, size_t maxlen, char** bp, size_t* len);
 
 std::string hex_dump_to_string(const SizedBuf& key, size_t max_len = 256);
 
+// Compare two keys using custom cmp function if given.
+// An empty key is smaller than any other keys.
+int cmp_keys(const DBConfig* db_config,
+             const SizedBuf& l,
+             const SizedBuf& r);
+
 int cmp_records(const DBConfig* db_config,
                 const Record* l,
                 const Record* r);
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 284dd82..65664cc 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -29,11 +29,14 @@ static uint32_t TABMANI_VERSION = 0x1;
 
 
 struct TableManifest::LevelInfo {
-    LevelInfo()
+    LevelInfo(const DBConfig* db_config)
         : numTables(0)
     {
         tables = new skiplist_raw();
         skiplist_init(tables, TableInfo::cmp);
+        skiplist_raw_config s_config = skiplist_get_config(tables);
+        s_config.aux = (void*)db_config;
+        skiplist_set_config(tables, s_config);
     }
 
     ~LevelInfo() {
@@ -104,7 +107,7 @@ Status TableManifest::create(const std::string& path,
 
     // Initially there is only one level (level-0).
     levels.resize(1);
-    levels[0] = new LevelInfo();
+    levels[0] = new LevelInfo(tableMgr->getDbConfig());
 
     // Store initial data.
     EP( store(false) );
@@ -164,7 +167,7 @@ Status TableManifest::load(const std::string& path,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         // For each level
-        LevelInfo* l_info = new LevelInfo();
+        LevelInfo* l_info = new LevelInfo(tableMgr->getDbConfig());
         levels[ii] = l_info;
 
         uint32_t num_tables = ss.getU32(s);
@@ -223,7 +226,8 @@ Status TableManifest::load(const std::string& path,
                 s = t_file->getMinKey(table_min_key);
                 if ( s &&
                      !t_info->minKey.empty() &&
-                     table_min_key < t_info->minKey ) {
+                     cmp_keys( tableMgr->getDbConfig(),
+                               table_min_key, t_info->minKey ) < 0 ) {
                     _log_warn( myLog, "detected min key mismatch, table %zu, manifest %s, "
                                "table %s",
                                table_number,
@@ -236,7 +240,8 @@ Status TableManifest::load(const std::string& path,
                 // Current table's min key should be bigger than `last_max_key`.
                 // Otherwise, set the flag.
                 if ( !t_info->minKey.empty() &&
-                     last_max_key >= t_info->minKey ) {
+                     cmp_keys( tableMgr->getDbConfig(),
+                               last_max_key, t_info->minKey ) >= 0 ) {
                     _log_warn( myLog, "detected key order inversion. prev table %zu max key %s, "
                                "table %zu min key %s, set prevTableSearchRequired flag",
                                prev_table_number,
@@ -435,7 +440,7 @@ Status TableManifest::extendLevel() {
         new_level = levels.size();
         // Other threads may read it without lock,
         // should not be visible before it is assigned.
-        levels.push_back(new LevelInfo());
+        levels.push_back(new LevelInfo(tableMgr->getDbConfig()));
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
@@ -720,7 +725,8 @@ Status TableManifest::getTablesRange(const size_t level,
             }
 
             if ( max_key.empty() ||
-                 t_info->minKey <= max_key ) {
+                 cmp_keys( tableMgr->getDbConfig(),
+                           t_info->minKey, max_key ) <= 0 ) {
                 t_info->grab();
                 pushTablesInStack(t_info, tables_out);
                 tables_out.push_back(t_info);
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 2681ac8..25af914 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -20,6 +20,7 @@ limitations under the License.
 #include "internal_helper.h"
 #include "skiplist.h"
 #include "table_file.h"
+#include "table_helper.h"
 
 #include <libjungle/jungle.h>
 
@@ -84,7 +85,7 @@ struct TableInfo {
         TableInfo *aa, *bb;
         aa = _get_entry(a, TableInfo, snode);
         bb = _get_entry(b, TableInfo, snode);
-        int cmp = SizedBuf::cmp(aa->minKey, bb->minKey);
+        int cmp = cmp_keys((const DBConfig*)aux, aa->minKey, bb->minKey);
         if (cmp) return cmp;
 
         // WARNING:
-- 
2.43.0


From c6beddeee6652ebb562f9762b702c052c6e0297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:48:53 +0000
Subject: [PATCH 62/89] fix: backup of manifest file should report failures and
 never leave a hole

---
 src/internal_helper.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 3ffafd2..5082f12 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -296,9 +296,9 @@ Status BackupRestore::copyFile(FileOps* f_ops,
 
     TC( f_ops->pread(s_file, tmp_buf.data, tmp_buf.size, 0) );
     TC( f_ops->pwrite(d_file, tmp_buf.data, tmp_buf.size, 0) );
-    f_ops->ftruncate(d_file, file_size);
+    TC( f_ops->ftruncate(d_file, file_size) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
 
     f_ops->close(s_file);
@@ -348,9 +348,9 @@ Status BackupRestore::backup(FileOps* f_ops,
                            length - bytes_to_skip,
                            bytes_to_skip ) );
     }
-    f_ops->ftruncate(d_file, length);
+    TC( f_ops->ftruncate(d_file, length) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
     f_ops->close(d_file);
     delete d_file;
@@ -390,6 +390,11 @@ Status BackupRestore::backup(FileOps* f_ops,
     }
 
     size_t file_size = f_ops->eof(*file);
+    if (file_size < bytes_to_skip) {
+        // The existing backup does not contain the data to skip,
+        // we should write the entire data.
+        bytes_to_skip = 0;
+    }
     if (length > bytes_to_skip) {
         TC( f_ops->pwrite( *file,
                         ctx.data + bytes_to_skip,
@@ -397,11 +402,11 @@ Status BackupRestore::backup(FileOps* f_ops,
                         bytes_to_skip ) );
     }
     if (file_size > length) {
-        f_ops->ftruncate(*file, length);
+        TC( f_ops->ftruncate(*file, length) );
     }
 
     if (call_fsync) {
-        f_ops->fsync(*file);
+        TC( f_ops->fsync(*file) );
     }
     return s;
    } catch (Status s) {
-- 
2.43.0


From 4ab78097eaf881829ea21f443bd58a101a224014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 63/89] fix: partially written log data should be truncated
 after failed flush

---
 src/log_file.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index a96f1fe..ff0196c 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -515,8 +515,17 @@ Status LogFile::flushMemTable(uint64_t upto, uint64_t& flushed_seq_out) {
 
     RwSerializer rws(fOps, fHandle, true);
 
-    TC( mTable->flush(rws, upto, flushed_seq_out) );
-    TC( mTable->appendFlushMarker(rws) );
+    cs_off_t size_before_flush = fOps->eof(fHandle);
+    s = mTable->flush(rws, upto, flushed_seq_out);
+    if (s) s = mTable->appendFlushMarker(rws);
+    if (!s) {
+        // Get rid of partially written data if exists. Otherwise, the data
+        // appended by the next attempt cannot be read by `load()`.
+        if (fOps->eof(fHandle) > size_before_flush) {
+            fOps->ftruncate(fHandle, size_before_flush);
+        }
+        throw s;
+    }
 
     TC( fOps->flush(fHandle) );
 
-- 
2.43.0


From 354d5dce08e73dd69b3348ac09ab24db372fecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 64/89] fix: failed manifest write should be reported and
 redone

---
 src/db_manifest.cc  |  4 ++--
 src/log_manifest.cc | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index e0e5fb9..a8c5c71 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -178,10 +178,10 @@ Status DBManifest::store(bool call_fsync)
     EP( fOps->pwrite(mFile, mani_buf.data, ss.pos(), 0) );
 
     // Should truncate tail.
-    fOps->ftruncate(mFile, ss.pos());
+    EP( fOps->ftruncate(mFile, ss.pos()) );
 
     if (call_fsync) {
-        fOps->fsync(mFile);
+        EP( fOps->fsync(mFile) );
     }
 
     // After success, make a backup file one more time,
diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index b8f6577..51b575f 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -667,10 +667,16 @@ Status LogManifest::storeInternal(bool call_fsync) {
     }
 
     if (ss.pos() > first_diff_pos) {
-        EP( fOps->pwrite( mFile,
+        s = fOps->pwrite( mFile,
                           mani_buf.data + first_diff_pos,
                           ss.pos() - first_diff_pos,
-                          first_diff_pos ) );
+                          first_diff_pos );
+        if (!s) {
+            // The contents of the file are unknown,
+            // should write the entire data next time.
+            lenCachedManifest = 0;
+            return s;
+        }
     }
     _log_trace(myLog, "new buffer size %zu, cached %zu, first diff %zu",
                ss.pos(), lenCachedManifest, first_diff_pos);
@@ -687,7 +693,12 @@ Status LogManifest::storeInternal(bool call_fsync) {
 
     // Should truncate tail.
     if (need_truncate) {
-        fOps->ftruncate(mFile, ss.pos());
+        s = fOps->ftruncate(mFile, ss.pos());
+        if (!s) {
+            // Same as above.
+            lenCachedManifest = 0;
+            return s;
+        }
     }
 
     bool backup_done = false;
-- 
2.43.0


From 1ff5068bfe02d597a219c924ddec296926a1b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 65/89] fix: failed table manifest write should be reported

---
 src/table_manifest.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 65664cc..af23324 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -291,7 +291,10 @@ Status TableManifest::store(bool call_fsync) {
 
     Status s;
 
-    RwSerializer ss(fOps, mFile);
+    SizedBuf mani_buf(4096);
+    SizedBuf::Holder h_mani_buf(mani_buf);
+    // Resizable serializer.
+    RwSerializer ss(&mani_buf);
 
     // WARNING:
     //   Adding and removing tables by another thread should not happen in the
@@ -386,19 +389,14 @@ Status TableManifest::store(bool call_fsync) {
     ss.putU32(TABMANI_VERSION);
 
     // CRC32
-    size_t ctx_size = ss.pos();
-
-    // Read whole file.
-    RwSerializer ss_read(fOps, mFile);
-    SizedBuf temp_buf(ctx_size);
-    SizedBuf::Holder h_temp_buf(temp_buf);
-    ss_read.get(temp_buf.data, temp_buf.size);
-    uint32_t crc_val = crc32_8(temp_buf.data, temp_buf.size, 0);
+    uint32_t crc_val = crc32_8(mani_buf.data, ss.pos(), 0);
 
     ss.putU32(crc_val);
 
+    EP( fOps->pwrite(mFile, mani_buf.data, ss.pos(), 0) );
+
     // Should truncate tail.
-    fOps->ftruncate(mFile, ss.pos());
+    EP( fOps->ftruncate(mFile, ss.pos()) );
 
     if (call_fsync) {
         s = fOps->fsync(mFile);
-- 
2.43.0


From a41628c98ac393961dfa794c45dd4305601b61bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 66/89] fix: close should report the failure of the last sync

---
 src/db_internal.h | 2 +-
 src/db_mgr.cc     | 3 ++-
 src/jungle.cc     | 6 ++++--
 src/log_mgr.cc    | 8 +++++---
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 95df691..9f0fd2a 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -83,7 +83,7 @@ public:
 
     ~DBInternal();
 
-    void destroy();
+    Status destroy();
 
     // Correct contradict attributes.
     void adjustConfig();
diff --git a/src/db_mgr.cc b/src/db_mgr.cc
index a9b87b8..8289946 100644
--- a/src/db_mgr.cc
+++ b/src/db_mgr.cc
@@ -360,9 +360,10 @@ Status DBMgr::close(DB* db) {
             // Delete group handle as well.
             delete db->p->dbGroup;
         }
-        db->p->destroy();
+        Status s = db->p->destroy();
         delete db_wrap;
         delete db;
+        return s;
     } else {
         uint64_t ref_c = db_wrap->refCount.fetch_sub(1, MOR);
         _log_debug(db->p->myLog, "Decrease DB %p ref_count = %ld", db, ref_c);
diff --git a/src/jungle.cc b/src/jungle.cc
index 68dc95a..fdc3df1 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -1034,7 +1034,8 @@ DB::DBInternal::DBInternal()
 
 DB::DBInternal::~DBInternal() {}
 
-void DB::DBInternal::destroy() {
+Status DB::DBInternal::destroy() {
+    Status s;
     flags.closing = true;
     if (tableMgr) tableMgr->disallowCompaction();
     waitForBgTasks();
@@ -1055,7 +1056,7 @@ void DB::DBInternal::destroy() {
         DELETE(mani);
     }
 
-    if (logMgr) logMgr->close();
+    if (logMgr) s = logMgr->close();
     if (tableMgr) tableMgr->close();
     DELETE(logMgr);
     DELETE(tableMgr);
@@ -1069,6 +1070,7 @@ void DB::DBInternal::destroy() {
     if (!kvsID) { // Only default DB.
         DELETE(myLog);
     }
+    return s;
 }
 
 void DB::DBInternal::adjustConfig() {
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index f2c96b9..fd067a6 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -2203,11 +2203,12 @@ Status LogMgr::close() {
     //   that no other thread is working on sync or flush.
     //   Otherwise, it may write incomplete data to the manifest file,
     //   which may cause data corruption.
+    Status s;
     if (!db_config->readOnly) {
         // Last sync before close (not in read-only mode).
         needSkippedManiSync = true;
-        syncInternal(true);
-        _log_info(myLog, "Last sync done");
+        s = syncInternal(true);
+        _log_info(myLog, "Last sync done, %d", s.getValue());
     } else {
         _log_info(myLog, "read-only mode: skip the last sync");
     }
@@ -2224,7 +2225,8 @@ Status LogMgr::close() {
     _log_info(myLog, "Disabled reclaiming for %p, %zu ticks", this, ticks);
 
     initialized = false;
-    return Status();
+    // If the last sync failed, the caller should know it.
+    return s;
 }
 
 Status LogMgr::syncSeqnum(TableMgr* t_mgr) {
-- 
2.43.0


From 121d9d6ee9c39c98f39e68cd5d84b9fe21ea29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 67/89] fix: compaction should not ignore errors of creating
 and adding tables

---
 src/table_compaction.cc | 6 +++---
 src/table_mgr.cc        | 6 +++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 71cecff..a777b09 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -725,7 +725,7 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
 
     uint64_t dst_table_num = 0;
     std::string dst_filename;
-    EP( mani->issueTableNumber(dst_table_num) );
+    TC( mani->issueTableNumber(dst_table_num) );
     dst_filename = TableFile::getTableFileName(opt.path, opt.prefixNum, dst_table_num);
     _log_info(myLog, "destination table number %zu, filename %s",
               dst_table_num, dst_filename.c_str());
@@ -890,10 +890,10 @@ Status TableMgr::compactL0(const CompactOptions& options,
                         TableFile::getBfSizeByLevel(db_config, 0);
                 }
             }
-            createNewTableFile(0, new_normal_file, t_opt);
+            TC( createNewTableFile(0, new_normal_file, t_opt) );
             {   // WARNING: Should not race with storing manifest file.
                 std::lock_guard<std::mutex> l(mani->getLock());
-                EP( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
+                TC( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
             }
             new_normal_table_num = new_normal_file->getNumber();
         }
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 0dfc8d5..d61cda7 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -74,7 +74,11 @@ Status TableMgr::createNewTableFile( size_t level,
     std::string t_filename =
         TableFile::getTableFileName(opt.path, opt.prefixNum, t_num);
 
-    EP( t_file->create(level, t_num, t_filename, opt.fOps, t_opt) );
+    s = t_file->create(level, t_num, t_filename, opt.fOps, t_opt);
+    if (!s) {
+        delete t_file;
+        return s;
+    }
     uint64_t bf_size = t_file->getBfSize();
     _log_info(myLog, "level %zu: created new table %zu_%zu, "
               "BF size %zu bytes (%zu bits)",
-- 
2.43.0


From 4727bd210596927d70091e9b8bbe3abb811f0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 68/89] fix: records found in a log file unknown to the
 manifest should be flushed

---
 src/memtable.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index ce6ac11..58cfc04 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1014,6 +1014,7 @@ Status MemTable::load(RwSerializer& rws,
     size_t filesize = rws.size();
     size_t last_valid_size = rws.pos();
     uint64_t num_record = 0, num_flush = 0, num_chk = 0;
+    uint64_t first_seq = NOT_INITIALIZED;
     uint64_t last_seq = NOT_INITIALIZED;
     std::string m;
 
@@ -1031,6 +1032,7 @@ Status MemTable::load(RwSerializer& rws,
             uint64_t seq = 0;
             EB( loadRecord(rws, flags, seq),  "failed to load record" )
             last_seq = seq;
+            if (!valid_number(first_seq) || seq < first_seq) first_seq = seq;
             num_record++;
             last_valid_size = rws.pos();
 
@@ -1060,6 +1062,12 @@ Status MemTable::load(RwSerializer& rws,
         maxSeqNum = last_seq;
         seqNumAlloc = last_seq;
         syncedSeqNum = last_seq;
+        if (!valid_number(minSeqNum)) {
+            // Crash happened after records were written but before log manifest
+            // was updated. Without the min seq number they will not be flushed.
+            minSeqNum = first_seq;
+            startSeqNum = first_seq;
+        }
     }
 
     if (NOT_INITIALIZED != last_seq && last_seq < synced_seq) {
-- 
2.43.0


From a392f39872dd7fe3b21a2fc6ae05be3ce152353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 69/89] fix: table files should not be removed before the
 manifest without them is stored

---
 src/table_file.cc     | 16 ++++++++++++----
 src/table_file.h      |  4 +++-
 src/table_manifest.cc | 29 +++++++++++++++++++++++++++++
 src/table_manifest.h  | 23 ++++++++++++++++++++++-
 src/table_mgr.cc      |  5 +++++
 src/table_mgr.h       |  2 ++
 6 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index df9a89d..9fd4ce7 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1627,15 +1627,23 @@ Status TableFile::getCheckpointSeqnum(uint64_t chk, uint64_t& seqnum_out) {
     return Status::ERROR;
 }
 
-Status TableFile::destroySelf() {
-    if (fOps->exist(filename.c_str())) {
+Status TableFile::destroySelf(uint64_t removal_number) {
+    // If crash happens before the manifest file is updated,
+    // this file is still needed.
+    if (tableMgr->deferFileRemoval(removal_number, filename)) return Status();
+
+    return removeFile(fOps, filename);
+}
+
+Status TableFile::removeFile(FileOps* f_ops, const std::string& filename) {
+    if (f_ops->exist(filename.c_str())) {
         // Instead removing it immediately,
         // put it into remove list.
         DBMgr* dbm = DBMgr::getWithoutInit();
         std::string bf_filename = filename + ".bf";
         if (!dbm) {
-            fOps->remove(filename.c_str());
-            fOps->remove(bf_filename.c_str());
+            f_ops->remove(filename.c_str());
+            f_ops->remove(bf_filename.c_str());
         } else {
             dbm->addFileToRemove(filename);
             dbm->addFileToRemove(bf_filename);
diff --git a/src/table_file.h b/src/table_file.h
index 13d4097..ed33ee6 100644
--- a/src/table_file.h
+++ b/src/table_file.h
@@ -203,7 +203,9 @@ public:
                           const std::string& dst_filename,
                           const CompactOptions& options);
 
-    Status destroySelf();
+    Status destroySelf(uint64_t removal_number);
+
+    static Status removeFile(FileOps* f_ops, const std::string& filename);
 
     Status getLatestSnapMarker(uint64_t& last_snap_seqnum);
 
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index af23324..c46a636 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -74,6 +74,8 @@ TableManifest::TableManifest(const TableMgr* table_mgr,
     , fOps(_f_ops)
     , mFile(nullptr)
     , maxTableNum(NOT_INITIALIZED)
+    , numRemovals(0)
+    , numRemovalsStored(0)
     , myLog(nullptr)
 {
     levels.reserve(NUM_RESERVED_LEVELS);
@@ -300,6 +302,7 @@ Status TableManifest::store(bool call_fsync) {
     //   Adding and removing tables by another thread should not happen in the
     //   middle, otherwise the manifest will contain only a part of it.
     std::unique_lock<std::mutex> ll(tableUpdateLock);
+    uint64_t num_removals = numRemovals.load();
 
     //   << Table manifest file format >>
     // Latest table file number,        8 bytes
@@ -408,10 +411,34 @@ Status TableManifest::store(bool call_fsync) {
             EP( BackupRestore::backup(fOps, mFileName, call_fsync) );
         }
     }
+    if (!s) return s;
 
+    // Now it is safe to remove the files of tables
+    // that do not exist in the manifest file anymore.
+    std::lock_guard<std::mutex> lf(filesToRemoveLock);
+    numRemovalsStored = num_removals;
+    auto entry = filesToRemove.begin();
+    while (entry != filesToRemove.end()) {
+        if (entry->first <= numRemovalsStored) {
+            TableFile::removeFile(fOps, entry->second);
+            entry = filesToRemove.erase(entry);
+        } else {
+            entry++;
+        }
+    }
     return s;
 }
 
+bool TableManifest::deferFileRemoval(uint64_t removal_number,
+                                     const std::string& filename)
+{
+    std::lock_guard<std::mutex> lf(filesToRemoveLock);
+    if (removal_number <= numRemovalsStored) return false;
+
+    filesToRemove.push_back( std::make_pair(removal_number, filename) );
+    return true;
+}
+
 Status TableManifest::storeTableStack(RwSerializer& ss,
                                       TableInfo* base_table)
 {
@@ -514,6 +541,7 @@ Status TableManifest::removeTableFile(size_t level,
     LevelInfo* cur_level = levels[level];
     if (!table_to_remove->baseTable) {
         // Stack of other table. Do nothing on skiplist.
+        table_to_remove->removalNumber = numRemovals.fetch_add(1) + 1;
         table_to_remove->setRemoved();
         cur_level->numTables.fetch_sub(1);
         _log_info(myLog, "level %zu: removed table %zu_%zu from stack "
@@ -538,6 +566,7 @@ Status TableManifest::removeTableFile(size_t level,
             skiplist_wait_for_free(&t_info->snode);
 
             // NOTE: the last done() call will kill itself (suicide).
+            t_info->removalNumber = numRemovals.fetch_add(1) + 1;
             t_info->setRemoved();
             cur_level->numTables.fetch_sub(1);
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 25af914..e65c1d2 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -59,6 +59,7 @@ struct TableInfo {
         , file(nullptr)
         , refCount(0)
         , removed(false)
+        , removalNumber(0)
         , migration(false)
         , migratedTo(nullptr)
         , status( query_purpose ? QUERY_PURPOSE : NORMAL )
@@ -115,7 +116,7 @@ struct TableInfo {
                 //       table is being migrated to next level, as
                 //       next level's table info will reuse it.
                 if (!migration) {
-                    file->destroySelf();
+                    file->destroySelf(removalNumber);
                     delete file;
                 }
                 TableInfo* next_info = migratedTo;
@@ -172,6 +173,9 @@ struct TableInfo {
     // Flag indicating whether or not this file is removed.
     std::atomic<bool> removed;
 
+    // Serial number of the removal, valid only when `removed` is set.
+    uint64_t removalNumber;
+
     // Flag indicating that this table is being migrated.
     std::atomic<bool> migration;
 
@@ -217,6 +221,10 @@ public:
                         bool allow_stacking = true);
     Status removeTableFile(size_t level, TableInfo* table_to_remove);
 
+    // If the manifest file without the table is not stored yet,
+    // keep the file until then, and return `true`.
+    bool deferFileRemoval(uint64_t removal_number, const std::string& filename);
+
     bool doesHashPartitionExist(uint32_t hash_num);
 
     Status getL0Tables(uint32_t target_hash_num,
@@ -318,6 +326,19 @@ private:
      */
     std::mutex mFileWriteLock;
 
+    // Number of tables removed so far. Protected by `tableUpdateLock`.
+    std::atomic<uint64_t> numRemovals;
+
+    // `numRemovals` that the latest stored manifest file contains.
+    uint64_t numRemovalsStored;
+
+    // Files of removed tables, but the manifest file on disk
+    // still refers to them.
+    std::list< std::pair<uint64_t, std::string> > filesToRemove;
+
+    // Lock for `numRemovalsStored` and `filesToRemove`.
+    std::mutex filesToRemoveLock;
+
     /**
      * Logger.
      */
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index d61cda7..b34ac73 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -561,6 +561,11 @@ Status TableMgr::storeManifest() {
     return Status();
 }
 
+bool TableMgr::deferFileRemoval(uint64_t removal_number,
+                                const std::string& filename) const {
+    return mani->deferFileRemoval(removal_number, filename);
+}
+
 void TableMgr::getTablesOfSnapshot(DB* snap_handle,
                                    std::list<TableInfo*>& tables_out)
 {
diff --git a/src/table_mgr.h b/src/table_mgr.h
index d646b4b..450ce49 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -187,6 +187,8 @@ public:
 
     Status storeManifest();
 
+    bool deferFileRemoval(uint64_t removal_number, const std::string& filename) const;
+
     Status get(DB* snap_handle,
                Record& rec_inout,
                bool meta_only = false);
-- 
2.43.0


From f7cb6a52f6d35342f45e81b74a35759aef1258fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 70/89] fix: failure of loading a table should be reported

---
 src/table_manifest.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index c46a636..a2b9c6b 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -216,7 +216,13 @@ Status TableManifest::load(const std::string& path,
                                      ( dirPath, prefix_num, table_number );
 
             TableFileOptions t_opt;
-            t_file->load(ii, table_number, t_filename, fOps, t_opt);
+            s = t_file->load(ii, table_number, t_filename, fOps, t_opt);
+            if (!s) {
+                _log_err(myLog, "failed to load table %zu: %d", table_number, (int)s);
+                delete t_file;
+                delete t_info;
+                throw s;
+            }
 
             // Checkpoints.
             t_file->loadCheckpoints(ss);
@@ -274,6 +280,8 @@ Status TableManifest::load(const std::string& path,
    } catch (Status s) {
     fOps->close(mFile);
     DELETE(mFile);
+    for (LevelInfo* l_info: levels) delete l_info;
+    levels.clear();
     return s;
    }
 }
-- 
2.43.0


From b87331f83a70351d95233206934160e8b60bbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:42 +0000
Subject: [PATCH 71/89] fix: read failure on opening should not be treated as
 corruption

---
 src/log_file.cc       |  4 +++-
 src/log_manifest.cc   | 29 +++++++++++++++++++----------
 src/log_mgr.cc        |  6 ++++--
 src/table_manifest.cc | 18 ++++++++++--------
 4 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index ff0196c..08abef0 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -234,7 +234,9 @@ Status LogFile::loadMemTable() {
     SizedBuf read_buf(fileSize ? fileSize : 8 + 4);
     SizedBuf::Holder h_read_buf(read_buf);
 
-    if (fileSize) fOps->pread(fHandle, read_buf.data, read_buf.size, 0);
+    if (fileSize) {
+        EP( fOps->pread(fHandle, read_buf.data, read_buf.size, 0) );
+    }
 
     uint8_t footer_file[8];
     RwSerializer ss(read_buf);
diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 51b575f..0461574 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -261,41 +261,42 @@ Status LogManifest::load(const std::string& path,
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
     // Footer check
-    RwSerializer ss(fOps, mFile);
+    RwSerializer ss_file(fOps, mFile);
 
     // If crash happened in the middle of `storeInternal()`, after writing
     // shorter data but before truncating the file, there can be garbage bytes
     // at the end. The actual size is determined by the number of log files.
     const size_t HEADER_SIZE = 28, ENTRY_SIZE = 32, FOOTER_SIZE = 16;
     if (file_size >= HEADER_SIZE + FOOTER_SIZE) {
-        ss.pos(HEADER_SIZE - sizeof(uint32_t));
-        size_t num_entries = ss.getU32(s);
+        ss_file.pos(HEADER_SIZE - sizeof(uint32_t));
+        size_t num_entries = ss_file.getU32(s);
         size_t actual_size = HEADER_SIZE + num_entries * ENTRY_SIZE + FOOTER_SIZE;
         if (actual_size < file_size) file_size = actual_size;
     }
 
     uint8_t chk_footer[8];
-    ss.pos(file_size - 16);
-    ss.get(chk_footer, 8);
+    ss_file.pos(file_size - 16);
+    ss_file.get(chk_footer, 8);
     if (memcmp(LOGMANI_FOOTER, chk_footer, 8) != 0) {
         throw Status(Status::FILE_CORRUPTION);
     }
 
     // Version
-    uint32_t ver_file = ss.getU32(s);
+    uint32_t ver_file = ss_file.getU32(s);
     (void)ver_file;
 
     // CRC check
-    uint32_t crc_file = ss.getU32(s);
+    uint32_t crc_file = ss_file.getU32(s);
 
     SizedBuf chk_buf(file_size - 4);
     SizedBuf::Holder h_chk_buf(chk_buf);
-    ss.pos(0);
-    ss.get(chk_buf.data, chk_buf.size);
+    ss_file.pos(0);
+    ss_file.get(chk_buf.data, chk_buf.size);
     uint32_t crc_local = crc32_8(chk_buf.data, chk_buf.size, 0);
     if (crc_local != crc_file) throw Status(Status::CHECKSUM_ERROR);
 
-    ss.pos(0);
+    // NOTE: Should parse the verified data, rather than reading the file again.
+    RwSerializer ss(chk_buf);
     maxLogFileNum.store(ss.getU64(s), MOR);
     lastFlushedLog.store(ss.getU64(s), MOR);
     lastSyncedLog.store(ss.getU64(s), MOR);
@@ -310,6 +311,7 @@ Status LogManifest::load(const std::string& path,
 
     bool first_file_read = false;
     for (uint32_t ii=0; ii < num_log_files; ++ii) {
+        s = Status();
         LogFile* l_file = new LogFile(logMgr);
         l_file->setLogger(myLog);
 
@@ -465,6 +467,13 @@ Status LogManifest::load(const std::string& path,
                 // Make it escape loop.
                 ii = num_log_files;
             }
+            if ( s == Status::FILE_READ_SIZE_MISMATCH ||
+                 s == Status::ERROR ) {
+                // Failed to open or read the file, while its data may be intact.
+                // We should not ignore (and then remove) it.
+                delete l_file;
+                throw s;
+            }
             // Otherwise: tolerate.
         }
         first_file_read = true;
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index fd067a6..18fe639 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -109,8 +109,10 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
     if (opt.fOps->exist(m_filename.c_str())) {
         // Manifest file already exists, load it.
         s = mani->load(opt.path, m_filename, opt.prefixNum);
-        if (!s) {
-            // Error happened, try again using backup file.
+        if ( !s &&
+             s != Status::FILE_READ_SIZE_MISMATCH &&
+             s != Status::ERROR ) {
+            // Error happened (other than failure of reading log files), try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
             TC(BackupRestore::restore(opt.fOps, m_filename));
             s = mani->load(opt.path, m_filename, opt.prefixNum);
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index a2b9c6b..ec2b067 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -137,30 +137,31 @@ Status TableManifest::load(const std::string& path,
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
     // Footer check
-    RwSerializer ss(fOps, mFile);
+    RwSerializer ss_file(fOps, mFile);
     uint8_t footer_file[8];
-    ss.pos(file_size - 16);
-    ss.get(footer_file, 8);
+    ss_file.pos(file_size - 16);
+    ss_file.get(footer_file, 8);
     if (memcmp(TABMANI_FOOTER, footer_file, 8) != 0) {
         throw Status(Status::FILE_CORRUPTION);
     }
 
     // Version check
-    uint32_t ver_file = ss.getU32(s);
+    uint32_t ver_file = ss_file.getU32(s);
     (void)ver_file;
 
     // CRC check
-    uint32_t crc_file = ss.getU32(s);
+    uint32_t crc_file = ss_file.getU32(s);
 
     SizedBuf chk_buf(file_size - 4);
     SizedBuf::Holder h_chk_buf(chk_buf);
-    ss.pos(0);
-    ss.get(chk_buf.data, chk_buf.size);
+    ss_file.pos(0);
+    ss_file.get(chk_buf.data, chk_buf.size);
     uint32_t crc_local = crc32_8(chk_buf.data, chk_buf.size, 0);
     if (crc_local != crc_file) throw Status(Status::CHECKSUM_ERROR);
 
     // Max (latest) table file number.
-    ss.pos(0);
+    // NOTE: Should parse the verified data, rather than reading the file again.
+    RwSerializer ss(chk_buf);
     maxTableNum.store(ss.getU64(s), MOR);
 
     // Number of levels.
@@ -182,6 +183,7 @@ Status TableManifest::load(const std::string& path,
 
         for (size_t jj=0; jj<num_tables; ++jj) {
             // For each table
+            s = Status();
             uint64_t table_number = ss.getU64(s);
             TableInfo* t_info = nullptr;
 
-- 
2.43.0


From 5b1ba350f09707492803f4bcdac95944e174be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:55:00 +0000
Subject: [PATCH 72/89] fix: empty table should not break loading the following
 levels

---
 src/table_manifest.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index ec2b067..041e18a 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -170,6 +170,7 @@ Status TableManifest::load(const std::string& path,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         // For each level
+        s = Status();
         LevelInfo* l_info = new LevelInfo(tableMgr->getDbConfig());
         levels[ii] = l_info;
 
-- 
2.43.0


From 9bf81f701fd954ea506cf2870fff78d0b213ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:07 +0000
Subject: [PATCH 73/89] fix: async requests for different work should not
 overwrite each other

---
 src/flusher.cc | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/flusher.cc b/src/flusher.cc
index 6be8d94..114fb1b 100644
--- a/src/flusher.cc
+++ b/src/flusher.cc
@@ -37,20 +37,41 @@ FlusherQueue::~FlusherQueue() {
 
 void FlusherQueue::push(FlusherQueueElem* elem) {
     std::unique_lock<std::mutex> l(queueLock);
-    // Find existing request for the same DB.
-    for (auto& entry: queue) {
-        FlusherQueueElem*& elem_entry = entry;
+    if (!elem->fOptions.execDelayUs) {
+        // Requests are served in order, those ahead
+        // of an immediate request become immediate as well.
+        for (auto& entry: queue) entry->fOptions.execDelayUs = 0;
+    }
+    // Find the latest request for the same DB.
+    for (auto itr = queue.rbegin(); itr != queue.rend(); ++itr) {
+        FlusherQueueElem*& elem_entry = *itr;
         if (elem_entry->targetDb == elem->targetDb) {
+            FlushOptions& cur_opt = elem_entry->fOptions;
+            const FlushOptions& new_opt = elem->fOptions;
+            // Requests for different work cannot be merged,
+            // as otherwise one of them will not be served.
+            if ( cur_opt.purgeOnly != new_opt.purgeOnly ||
+                 cur_opt.syncOnly != new_opt.syncOnly ||
+                 cur_opt.beyondLastSync != new_opt.beyondLastSync ||
+                 cur_opt.numFilesLimit != new_opt.numFilesLimit ) {
+                break;
+            }
             // Merge handler list.
             for (auto& he: elem->handlers) {
                 elem_entry->handlers.push_back(he);
             }
-            // Set up-to-date info.
-            elem_entry->fOptions = elem->fOptions;
-            elem_entry->seqUpto = elem->seqUpto;
+            // Set up-to-date info, satisfying both requests.
+            bool call_fsync = cur_opt.callFsync || new_opt.callFsync;
+            cur_opt = new_opt;
+            cur_opt.callFsync = call_fsync;
+            if ( !valid_number(elem->seqUpto) ||
+                 ( valid_number(elem_entry->seqUpto) &&
+                   elem->seqUpto > elem_entry->seqUpto ) ) {
+                elem_entry->seqUpto = elem->seqUpto;
+            }
             _log_debug(elem_entry->targetDb->p->myLog,
-                       "Overwrote existing req %p by %p.",
-                       elem_entry, elem);
+                       "Merged req %p into existing req %p.",
+                       elem, elem_entry);
 
             // Delete newly given one.
             delete elem;
-- 
2.43.0


From b014ef251065cfa7f367871147ddb92370bfa4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 74/89] fix: flushLogs on a read-only handle should not modify
 the database

---
 src/log_mgr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 18fe639..bcd1db0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1429,6 +1429,9 @@ Status LogMgr::flush(const FlushOptions& options,
 
     DBMgr* dbm = DBMgr::getWithoutInit();
     const DBConfig* db_config = getDbConfig();
+    // Return error in read-only mode.
+    if (db_config->readOnly) return Status::WRITE_VIOLATION;
+
     OpSemaWrapper ow(&flushSema, db_config->serializeMultiThreadedLogFlush);
     if (!ow.acquire()) {
         _log_debug(myLog, "Flush skipped. Other thread is working on it.");
-- 
2.43.0


From 3ceb65b507cdb0b2283de75902fa28cffa522768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 75/89] fix: compaction, split and merge on a read-only handle
 should be refused

---
 src/jungle.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jungle.cc b/src/jungle.cc
index fdc3df1..7912deb 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -1107,6 +1107,10 @@ Status DB::DBInternal::checkHandleValidity(OpType op_type) {
                   op_type);
         return Status::ROLLBACK_IN_PROGRESS;
     }
+    // Read-only mode: no compaction, split, and merge.
+    if (op_type == DBInternal::OPTYPE_COMPACT && dbConfig.readOnly) {
+        return Status::COMPACTION_IS_NOT_ALLOWED;
+    }
     return Status::OK;
 }
 
-- 
2.43.0


From 27746b0e2964906c9a95add2ada59a94d2be1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 76/89] fix: opening a database in read-only mode should not
 restore or create files

---
 src/log_manifest.cc |  7 +++++--
 src/log_mgr.cc      | 20 ++++++++++++++++----
 src/table_mgr.cc    | 17 +++++++++++++----
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 0461574..fb79d64 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -440,8 +440,11 @@ Status LogManifest::load(const std::string& path,
                     }
                     break;
                 }
-                // Otherwise, there is no valid log file. Should create one,
-                // and set its number to max file number.
+                // Otherwise, there is no valid log file.
+                // Read-only mode: should not create a new one.
+                if (db_config->readOnly) throw s;
+
+                // Should create one, and set its number to max file number.
                 l_file = new LogFile(logMgr);
                 l_file_num = maxLogFileNum;
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index bcd1db0..031f2f3 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -114,7 +114,14 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
              s != Status::ERROR ) {
             // Error happened (other than failure of reading log files), try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
-            TC(BackupRestore::restore(opt.fOps, m_filename));
+            if (opt.dbConfig->readOnly) {
+                // Should not modify any file in read-only mode,
+                // read the backup file directly.
+                m_filename += ".bak";
+                if (!opt.fOps->exist(m_filename.c_str())) throw s;
+            } else {
+                TC(BackupRestore::restore(opt.fOps, m_filename));
+            }
             s = mani->load(opt.path, m_filename, opt.prefixNum);
         }
         if (!s) throw s;
@@ -122,9 +129,11 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
     } else {
         // Not exist, initial setup phase.
 
-        // If `m_filename` is from custom path, should return error.
-        if (!opt.dbConfig->customManifestPath.empty()) {
-            _log_err(myLog, "custom manifest does not exist: %s", m_filename.c_str());
+        // If `m_filename` is from custom path, or if it is read-only mode,
+        // should return error.
+        if ( !opt.dbConfig->customManifestPath.empty() ||
+             opt.dbConfig->readOnly ) {
+            _log_err(myLog, "manifest does not exist: %s", m_filename.c_str());
             throw Status(Status::MANIFEST_NOT_EXIST);
         }
 
@@ -174,6 +183,9 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
 
     if (mani->getNumLogFiles() == 0) {
         // No valid log file exists. Start from zero.
+        // (Read-only mode cannot create a new log file.)
+        if (opt.dbConfig->readOnly) throw Status(Status::FILE_NOT_EXIST);
+
         // NOTE: Log file number should be issued by manifest, otherwise
         //       max log file number doesn't point to the new log file.
         uint64_t log_num = 0;
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index b34ac73..af56f16 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -208,7 +208,14 @@ Status TableMgr::init(const TableMgrOptions& _options) {
         if (!s) {
             // Error happened, try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
-            TC(BackupRestore::restore(opt.fOps, m_filename));
+            if (db_config->readOnly) {
+                // Should not modify any file in read-only mode,
+                // read the backup file directly.
+                m_filename += ".bak";
+                if (!opt.fOps->exist(m_filename.c_str())) throw s;
+            } else {
+                TC(BackupRestore::restore(opt.fOps, m_filename));
+            }
             s = mani->load(opt.path, opt.prefixNum, m_filename);
         }
         if (!s) throw s;
@@ -268,9 +275,11 @@ Status TableMgr::init(const TableMgrOptions& _options) {
     } else {
         // Not exist, initial setup phase.
 
-        // If `m_filename` is from custom path, should return error.
-        if (!opt.dbConfig->customManifestPath.empty()) {
-            _log_err(myLog, "custom manifest does not exist: %s", m_filename.c_str());
+        // If `m_filename` is from custom path, or if it is read-only mode,
+        // should return error.
+        if ( !opt.dbConfig->customManifestPath.empty() ||
+             db_config->readOnly ) {
+            _log_err(myLog, "manifest does not exist: %s", m_filename.c_str());
             throw Status(Status::MANIFEST_NOT_EXIST);
         }
 
-- 
2.43.0


From dab89154916a1209b8ec555fa64e883fcb4b73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 77/89] fix: records of a log file that the manifest does not
 know should be visible to snapshots

---
 src/log_manifest.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index fb79d64..1c464ec 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -507,6 +507,11 @@ Status LogManifest::load(const std::string& path,
                    _seq_str(purged_seq).c_str(),
                    _seq_str(synced_seq).c_str() );
 
+        if (!valid_number(min_seq)) {
+            // Manifest file does not know what this file contains (see above),
+            // it should be able to be found by its sequence numbers.
+            min_seq = l_file->getMinSeqNum();
+        }
         addNewLogFile(l_file_num, l_file, min_seq);
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
-- 
2.43.0


From 35ec9e7042ccfa04d3ba4479825ab550b312267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:50 +0000
Subject: [PATCH 78/89] fix: a snapshot should show all older records when no
 log file holds the latest number

---
 src/log_mgr.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 031f2f3..c109732 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -449,7 +449,13 @@ Status LogMgr::openSnapshot(DB* snap_handle,
 
     // Get log file numbers.
     EP( mani->getMinLogFileNum(l_num_min) );
-    EP( mani->getLogFileNumBySeq(checkpoint, l_num_max) );
+    s = mani->getLogFileNumBySeq(checkpoint, l_num_max);
+    if (!s) {
+        // No log file contains the given sequence number, e.g., records in
+        // the last log file were lost by crash. All records older than it
+        // should be visible.
+        EP( mani->getMaxLogFileNum(l_num_max) );
+    }
 
     bool log_store_mode = getDbConfig()->logSectionOnly;
     bool retry_init = false;
-- 
2.43.0


From a3fa73847d0fd460441767e7595124a728e5babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 79/89] fix: log records failed to decompress should not be
 dropped when a database is opened

---
 src/log_manifest.cc | 2 ++
 src/log_mgr.cc      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 1c464ec..805c856 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -471,6 +471,8 @@ Status LogManifest::load(const std::string& path,
                 ii = num_log_files;
             }
             if ( s == Status::FILE_READ_SIZE_MISMATCH ||
+                 s == Status::INVALID_CONFIG ||
+                 s == Status::DECOMPRESSION_FAILED ||
                  s == Status::ERROR ) {
                 // Failed to open or read the file, while its data may be intact.
                 // We should not ignore (and then remove) it.
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c109732..9fae24f 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -111,6 +111,8 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
         s = mani->load(opt.path, m_filename, opt.prefixNum);
         if ( !s &&
              s != Status::FILE_READ_SIZE_MISMATCH &&
+             s != Status::INVALID_CONFIG &&
+             s != Status::DECOMPRESSION_FAILED &&
              s != Status::ERROR ) {
             // Error happened (other than failure of reading log files), try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
-- 
2.43.0


From b1f7b48ce74f18acdb8dff9de13a239f50f9d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 80/89] fix: prefix search should stop when decompression
 fails, instead of retrying forever

---
 src/table_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 9fd4ce7..75dc39f 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1427,7 +1427,7 @@ Status TableFile::getPrefix(DB* snap_handle,
         if (!s) {
             _log_err(myLog, "decompression failed: %d, key %s",
                      s, rec_out.kv.key.toReadableString().c_str());
-            continue;
+            return s;
         }
 
         rec_out.seqNum = doc->seqnum;
-- 
2.43.0


From 091e9ca33247389291b2de46f115fde7c8cb2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 81/89] fix: sync should not fail when the compressed value is
 bigger than the original one

---
 src/memtable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 58cfc04..e3d7984 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1429,7 +1429,8 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
         crc_data = crc32_8(value_ref.data, value_ref.size, crc_data);
         TC( ss_tmp_buf.putU32(crc_data) );
 
-        size_t data_len = rec->kv.key.size + rec->kv.value.size + rec->meta.size;
+        // NOTE: Compressed value may be bigger than the original one.
+        size_t data_len = rec->kv.key.size + value_ref.size + rec->meta.size;
         if (data_len >= PAGE_LIMIT) {
             // Data itself is bigger than a page, flush and bypass buffer.
             TC( rws.put(tmp_buf.data, ss_tmp_buf.pos()) );
-- 
2.43.0


From 6ef0f058dc4eb5de151c1e71c3274a34eaefb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 82/89] fix: a long name of a key-value store should not
 overflow the stack

---
 src/db_manifest.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index a8c5c71..51d8666 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -116,15 +116,15 @@ Status DBManifest::load(const std::string& path,
 
     _log_debug(myLog, "Max KVS ID %ld, # KVS %d", maxKVSID.load(), num_kvs);
 
-    char kvs_name_buf[256];
     for (uint32_t ii=0; ii<num_kvs; ++ii) {
         uint64_t kvs_id = ss.getU64(s);
         uint32_t name_len = ss.getU32(s);
-        kvs_name_buf[name_len] = 0;
-        s = ss.get(kvs_name_buf, name_len);
+        if (!ss.available(name_len)) return Status::FILE_CORRUPTION;
 
-        _log_debug(myLog, "ID %d, name %s", kvs_id, kvs_name_buf);
-        std::string kvs_name_str(kvs_name_buf);
+        std::string kvs_name_str(name_len, '\0');
+        EP( ss.get(&kvs_name_str[0], name_len) );
+
+        _log_debug(myLog, "ID %d, name %s", kvs_id, kvs_name_str.c_str());
         NameToID.insert( std::make_pair(kvs_name_str, kvs_id) );
         IDToName.insert( std::make_pair(kvs_id, kvs_name_str) );
     }
-- 
2.43.0


From 15430cb1a99ab1dd951ca0f7d274ac390757f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 83/89] fix: failure of opening a key-value store in a group
 should be reported, instead of crashing or returning a broken handle

---
 src/db_group.cc    | 23 ++++++++++++++++++++---
 src/db_manifest.cc | 10 ++++++++++
 src/db_manifest.h  |  1 +
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/db_group.cc b/src/db_group.cc
index 9d004da..243ea11 100644
--- a/src/db_group.cc
+++ b/src/db_group.cc
@@ -115,6 +115,7 @@ Status DBGroup::openDB(DB** ptr_out,
 
     // Own objects: logMgr, tableMgr.
     s = db->p->mani->getKVSID(db_name, db->p->kvsID);
+    bool new_kvs = false;
     if (!s) {
         // Create a new KVS
         s = db->p->mani->addNewKVS(db_name);
@@ -123,7 +124,17 @@ Status DBGroup::openDB(DB** ptr_out,
         s = db->p->mani->getKVSID(db_name, db->p->kvsID);
         if (!s) return s;
 
-        db->p->mani->store(true);
+        new_kvs = true;
+    }
+
+   try {
+    if (new_kvs) {
+        s = db->p->mani->store(true);
+        if (!s) {
+            // Without the manifest, the KVS cannot be found after restart.
+            db->p->mani->removeKVS(db_name);
+            throw s;
+        }
     }
 
     db->p->kvsName = db_name;
@@ -137,7 +148,7 @@ Status DBGroup::openDB(DB** ptr_out,
     log_mgr_opt.dbConfig = &db->p->dbConfig;
     db->p->logMgr = new LogMgr(db);
     db->p->logMgr->setLogger(db->p->myLog);
-    db->p->logMgr->init(log_mgr_opt);
+    TC( db->p->logMgr->init(log_mgr_opt) );
 
     TableMgrOptions table_mgr_opt;
     table_mgr_opt.fOps = db->p->fOps;
@@ -146,7 +157,13 @@ Status DBGroup::openDB(DB** ptr_out,
     table_mgr_opt.dbConfig = &db->p->dbConfig;
     db->p->tableMgr = new TableMgr(db);
     db->p->tableMgr->setLogger(db->p->myLog);
-    db->p->tableMgr->init(table_mgr_opt);
+    TC( db->p->tableMgr->init(table_mgr_opt) );
+
+   } catch (Status s) {
+    db->p->destroy();
+    delete db;
+    return s;
+   }
 
     // In case of previous crash,
     // sync table's last seqnum if log is lagging behind.
diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index 51d8666..1405a0c 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -208,6 +208,16 @@ Status DBManifest::addNewKVS(const std::string& kvs_name)
     return Status();
 }
 
+Status DBManifest::removeKVS(const std::string& kvs_name) {
+    auto entry = NameToID.find(kvs_name);
+    if (entry == NameToID.end())
+        return Status::KVS_NOT_FOUND;
+
+    IDToName.erase(entry->second);
+    NameToID.erase(entry);
+    return Status();
+}
+
 Status DBManifest::getKVSID(const std::string& kvs_name,
                             uint64_t& kvs_id_out)
 {
diff --git a/src/db_manifest.h b/src/db_manifest.h
index 62a815f..99113ee 100644
--- a/src/db_manifest.h
+++ b/src/db_manifest.h
@@ -40,6 +40,7 @@ public:
                 const std::string& filename);
     Status store(bool call_fsync);
     Status addNewKVS(const std::string& kvs_name);
+    Status removeKVS(const std::string& kvs_name);
     Status getKVSID(const std::string& kvs_name,
                     uint64_t& kvs_id_out);
     Status getKVSName(const uint64_t kvs_id,
-- 
2.43.0


From 3d219122f96ab8bba0f9bf120994b0731cbb74ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 84/89] fix: a damaged DB manifest should be restored from its
 backup, instead of forgetting all key-value stores

---
 src/db_manifest.cc |  8 ++++----
 src/jungle.cc      | 30 ++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index 1405a0c..4589110 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -58,11 +58,11 @@ Status DBManifest::create(const std::string& path,
     // Create a new file.
     Status s;
     _log_info(myLog, "Create new DB manifest %s", mFileName.c_str());
-    fOps->open(&mFile, mFileName.c_str());
-
-    store(false);
+    EP( fOps->open(&mFile, mFileName.c_str()) );
 
-    return Status();
+    // NOTE: Should be durable, as the manifest file that cannot be read
+    //       is treated as the one that has never been written.
+    return store(true);
 }
 
 Status DBManifest::load(const std::string& path,
diff --git a/src/jungle.cc b/src/jungle.cc
index 7912deb..d171ec9 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -124,13 +124,39 @@ Status DB::open(DB** ptr_out,
         db->p->mani = new DBManifest(db->p->fOps);
         db->p->mani->setLogger(db->p->myLog);
         std::string m_filename = db->p->path + "/db_manifest";
-        db->p->mani->load(db->p->path, m_filename);
+        s = db->p->mani->load(db->p->path, m_filename);
+        if ( s == Status::FILE_CORRUPTION ||
+             s == Status::CHECKSUM_ERROR ) {
+            // Crash happened while writing the manifest file,
+            // try again using the backup file.
+            _log_err(db->p->myLog, "loading DB manifest error: %d, try again", s);
+            if (db->p->fOps->exist(m_filename + ".bak")) {
+                if (db->p->dbConfig.readOnly) {
+                    // Should not modify any file in read-only mode.
+                    m_filename += ".bak";
+                } else {
+                    TC( BackupRestore::restore(db->p->fOps, m_filename) );
+                }
+                DELETE(db->p->mani);
+                db->p->mani = new DBManifest(db->p->fOps);
+                db->p->mani->setLogger(db->p->myLog);
+                s = db->p->mani->load(db->p->path, m_filename);
+            }
+            if ( s == Status::FILE_CORRUPTION ||
+                 s == Status::CHECKSUM_ERROR ) {
+                // Neither of them was ever completely written,
+                // which means there is no KVS other than the default one.
+                _log_warn(db->p->myLog, "no valid DB manifest, start from empty one");
+                s = Status();
+            }
+        }
+        if (!s) throw s;
     } else {
         // Create DB manifest.
         db->p->mani = new DBManifest(db->p->fOps);
         db->p->mani->setLogger(db->p->myLog);
         std::string m_filename = db->p->path + "/db_manifest";
-        db->p->mani->create(db->p->path, m_filename);
+        TC( db->p->mani->create(db->p->path, m_filename) );
     }
 
     // Main DB handle's ID is 0.
-- 
2.43.0


From 9fbdb2c366d27ef4a08d8d1dd4456a73b89dae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 85/89] fix: sequence numbers of a database built in bulk
 should not be issued again

---
 src/log_mgr.cc  | 3 ++-
 src/memtable.cc | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 9fae24f..a07d59d 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -163,8 +163,9 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
             // If start seqnum is given on the initialization,
             // set sync/flush seqnum properly for the first log file.
             l_file->updateMaxSeqNum(opt.startSeqnum - 1);
-            l_file->setFlushedSeqNum(opt.startSeqnum - 1);
+            // NOTE: Flushed seqnum cannot be set without synced seqnum.
             l_file->setSyncedSeqNum(opt.startSeqnum - 1);
+            l_file->setFlushedSeqNum(opt.startSeqnum - 1);
         }
         TC(mani->addNewLogFile(log_num, l_file, 1));
         needSkippedManiSync = true;
diff --git a/src/memtable.cc b/src/memtable.cc
index e3d7984..c470eb6 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1068,6 +1068,13 @@ Status MemTable::load(RwSerializer& rws,
             minSeqNum = first_seq;
             startSeqNum = first_seq;
         }
+    } else if ( valid_number(synced_seq) &&
+                valid_number(flushed_seq) &&
+                synced_seq <= flushed_seq ) {
+        // No record in the file, and everything before it is in tables.
+        // Should remember the seq number, otherwise it will be issued again
+        // once the manifest is stored and then loaded.
+        syncedSeqNum = synced_seq;
     }
 
     if (NOT_INITIALIZED != last_seq && last_seq < synced_seq) {
-- 
2.43.0


From ba6ba3c24ef0a94d6fcacfd563cbe35a20c2cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 86/89] fix: the smallest table of a bulk build should have an
 empty minimum key whatever its number is

---
 src/jungle_builder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jungle_builder.cc b/src/jungle_builder.cc
index bc6f704..fca6bbc 100644
--- a/src/jungle_builder.cc
+++ b/src/jungle_builder.cc
@@ -55,8 +55,10 @@ Status Builder::buildFromTableFiles(const BuildParams& params) {
     uint64_t minkey_table_number = 0;
     uint64_t max_seqnum = 0;
     std::string cur_min_key;
+    bool min_key_found = false;
     for (auto& td: params.tables) {
-        if (td.minKey < cur_min_key) {
+        if (!min_key_found || td.minKey < cur_min_key) {
+            min_key_found = true;
             cur_min_key = td.minKey;
             minkey_table_number = td.tableNumber;
         }
-- 
2.43.0


From a4bded6be05fb7b980a2049ed0fd4895b12c63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:19 +0000
Subject: [PATCH 87/89] fix: a failing bulk build should be reported, and
 should not crash

---
 src/jungle_builder.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jungle_builder.cc b/src/jungle_builder.cc
index fca6bbc..5bedda8 100644
--- a/src/jungle_builder.cc
+++ b/src/jungle_builder.cc
@@ -44,6 +44,8 @@ Status Builder::buildFromTableFiles(const BuildParams& params) {
     EP( t_mani.create(params.path, mani_filename) );
 
     t_mgr.mani = &t_mani;
+    // `t_mani` is not owned by `t_mgr`, should be detached in any case.
+    GcFunc detach_mani( [&]() { t_mgr.mani = nullptr; } );
 
     // Make level 1 (only when `tables` is not empty).
     if (!params.tables.empty()) {
@@ -98,7 +100,7 @@ Status Builder::buildFromTableFiles(const BuildParams& params) {
     t_mani.adjustMaxTableNumber(max_table_num);
 
     // Flush manifest file.
-    t_mani.store(true);
+    EP( t_mani.store(true) );
 
     // Create the initial log file with the biggest sequence number + 1.
     LogMgr l_mgr(nullptr);
@@ -107,11 +109,10 @@ Status Builder::buildFromTableFiles(const BuildParams& params) {
     l_opt.fOps = f_ops.get();
     l_opt.dbConfig = &params.dbConfig;
     l_opt.startSeqnum = max_seqnum + 1;
-    l_mgr.init(l_opt);
-    l_mgr.sync(false);
-    l_mgr.close();
+    EP( l_mgr.init(l_opt) );
+    EP( l_mgr.sync(false) );
+    EP( l_mgr.close() );
 
-    t_mgr.mani = nullptr;
     return s;
 }
 
@@ -284,7 +285,8 @@ Status Builder::finalizeFile() {
 
 Status Builder::commit() {
     if (numDocs) {
-        finalizeFile();
+        Status s;
+        EP( finalizeFile() );
     }
 
     return buildFromTableFiles(buildParams);
-- 
2.43.0


From e0bc98b80405d393f1cd604309a8c2a0de56ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:39 +0000
Subject: [PATCH 88/89] fix: a global batch should not ignore other key-value
 stores in the same group

---
 src/db_internal.h   | 2 ++
 src/global_batch.cc | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 9f0fd2a..47759a6 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -315,6 +315,8 @@ class GlobalBatchExecutor {
 public:
     GlobalBatchExecutor() : gbIdCounter(1) {}
 
+    static bool isLess(const DB* ll, const DB* rr);
+
     Status execute(const GlobalBatch& g_batch);
 
 private:
diff --git a/src/global_batch.cc b/src/global_batch.cc
index e9201cb..2a8e877 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -23,7 +23,7 @@ namespace jungle {
 bool GlobalBatch::BatchPairLess::operator()
      (const BatchPair& ll, const BatchPair& rr) const
 {
-    return (ll.db->getPath() < rr.db->getPath());
+    return GlobalBatchExecutor::isLess(ll.db, rr.db);
 }
 
 GlobalBatch::GlobalBatch() {}
@@ -63,6 +63,12 @@ Status GlobalBatch::execute() {
     return dbm->getGlobalBatchExecutor()->execute(*this);
 }
 
+bool GlobalBatchExecutor::isLess(const DB* ll, const DB* rr) {
+    // NOTE: Key-value stores in the same group share the same path.
+    if (ll->p->path != rr->p->path) return ll->p->path < rr->p->path;
+    return ll->p->kvsID < rr->p->kvsID;
+}
+
 Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
     Status s;
 
-- 
2.43.0


From 9abe006e22044a597009557b2d3868d6bb940887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:39 +0000
Subject: [PATCH 89/89] fix: an empty batch should be ignored in a global batch

---
 src/global_batch.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index 2a8e877..c4e0270 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -46,6 +46,9 @@ GlobalBatch& GlobalBatch::addBatch(DB* db, const std::list<Record>& batch) {
     // Should ignore read-only DB.
     if (db->isReadOnly()) return *this;
 
+    // Nothing to write.
+    if (batch.empty()) return *this;
+
     BatchPair new_pair = {db, batch};
     auto entry = pairList.find(new_pair);
     if (entry != pairList.end()) {
-- 
2.43.0


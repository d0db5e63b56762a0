From 6e16f733e6f061b547807c7692f52bd4146b355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 01/41] fix: order PriorWorkerSet tasks by priority, not by
 pointer value

---
 src/common/runnable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/runnable.h b/src/common/runnable.h
index f6a2690..aeedeaf 100644
--- a/src/common/runnable.h
+++ b/src/common/runnable.h
@@ -67,7 +67,7 @@ using TaskRunnablePtr = std::shared_ptr<TaskRunnable>;
 
 // Custom Comparator for priority_queue
 struct CompareTaskRunnable {
-  bool operator()(const TaskRunnablePtr& lhs, TaskRunnablePtr& rhs) const { return lhs.get() < rhs.get(); }
+  bool operator()(const TaskRunnablePtr& lhs, const TaskRunnablePtr& rhs) const { return *lhs < *rhs; }
 };
 
 int ExecuteRoutine(void*, bthread::TaskIterator<TaskRunnablePtr>& iter);
-- 
2.43.0


From f45a7a66378ac07590659540120e405768d96d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 02/41] fix: signal BthreadCond before unlocking so a woken
 waiter cannot destroy it first

---
 src/common/synchronization.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/synchronization.cc b/src/common/synchronization.cc
index 4da3d00..750e7d9 100644
--- a/src/common/synchronization.cc
+++ b/src/common/synchronization.cc
@@ -42,17 +42,17 @@ void BthreadCond::Increase() {
 void BthreadCond::DecreaseSignal() {
   bthread_mutex_lock(&mutex_);
   --count_;
-  bthread_mutex_unlock(&mutex_);
-
+  // Signal before unlocking: once unlocked, the waiter may return and destroy this object.
   bthread_cond_signal(&cond_);
+  bthread_mutex_unlock(&mutex_);
 }
 
 void BthreadCond::DecreaseBroadcast() {
   bthread_mutex_lock(&mutex_);
   --count_;
-  bthread_mutex_unlock(&mutex_);
-
+  // Signal before unlocking: once unlocked, the waiter may return and destroy this object.
   bthread_cond_broadcast(&cond_);
+  bthread_mutex_unlock(&mutex_);
 }
 
 int BthreadCond::Wait(int cond) {
-- 
2.43.0


From 00ae20cc007f6d78e30c6e6456b995466b9fd1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 03/41] fix: SetMinValidTs must not let a smaller concurrent
 value overwrite a larger one

---
 src/mvcc/ts_provider.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mvcc/ts_provider.h b/src/mvcc/ts_provider.h
index 45a3b56..9d75f18 100644
--- a/src/mvcc/ts_provider.h
+++ b/src/mvcc/ts_provider.h
@@ -109,8 +109,9 @@ class BatchTsList {
   void Flush();
 
   void SetMinValidTs(int64_t min_valid_ts) {
-    if (min_valid_ts > min_valid_ts_.load(std::memory_order_acquire)) {
-      min_valid_ts_.store(min_valid_ts, std::memory_order_release);
+    // Regions become leader concurrently, a smaller value must not overwrite a larger one.
+    int64_t current = min_valid_ts_.load(std::memory_order_acquire);
+    while (min_valid_ts > current && !min_valid_ts_.compare_exchange_weak(current, min_valid_ts)) {
     }
   }
 
-- 
2.43.0


From df9445031d09c06a222101300e8f513dd3c13e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 04/41] fix: evaluate conditional raw writes only on a leader
 that may serve reads

---
 src/engine/storage.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/engine/storage.cc b/src/engine/storage.cc
index d1062b8..de26f32 100644
--- a/src/engine/storage.cc
+++ b/src/engine/storage.cc
@@ -244,9 +244,15 @@ butil::Status Storage::KvPut(std::shared_ptr<Context> ctx, std::vector<pb::commo
 
 butil::Status Storage::KvPutIfAbsent(std::shared_ptr<Context> ctx, const std::vector<pb::common::KeyValue>& kvs,
                                      bool is_atomic, std::vector<bool>& key_states) {
+  // The condition is evaluated against local state, which only the leader may trust.
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvPutIfAbsent(ctx, kvs, is_atomic, key_states);
+  status = writer->KvPutIfAbsent(ctx, kvs, is_atomic, key_states);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
@@ -280,9 +286,15 @@ butil::Status Storage::KvDeleteRange(std::shared_ptr<Context> ctx, const pb::com
 butil::Status Storage::KvCompareAndSet(std::shared_ptr<Context> ctx, const std::vector<pb::common::KeyValue>& kvs,
                                        const std::vector<std::string>& expect_values, bool is_atomic,
                                        std::vector<bool>& key_states) {
+  // The condition is evaluated against local state, which only the leader may trust.
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvCompareAndSet(ctx, kvs, expect_values, is_atomic, key_states);
+  status = writer->KvCompareAndSet(ctx, kvs, expect_values, is_atomic, key_states);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
-- 
2.43.0


From 57523cdb93a699121d3851ff29fe42d4df901a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:02 +0000
Subject: [PATCH 05/41] fix: sync the raw engine before a region snapshot lets
 the raft log be truncated

---
 src/engine/raw_engine.h         |  2 ++
 src/engine/rocks_raw_engine.cc  | 14 ++++++++++++++
 src/engine/rocks_raw_engine.h   |  1 +
 src/raft/store_state_machine.cc | 10 ++++++++++
 4 files changed, 27 insertions(+)

diff --git a/src/engine/raw_engine.h b/src/engine/raw_engine.h
index 547785e..7623efa 100644
--- a/src/engine/raw_engine.h
+++ b/src/engine/raw_engine.h
@@ -135,6 +135,8 @@ class RawEngine : public std::enable_shared_from_this<RawEngine> {
                                                    std::vector<pb::common::Range>& ranges) = 0;
 
   virtual void Flush(const std::string& cf_name) = 0;
+  // Make everything written so far survive a power failure.
+  virtual butil::Status SyncWal() { return butil::Status(); }
   virtual butil::Status Compact(const std::string& cf_name) = 0;
 
  protected:
diff --git a/src/engine/rocks_raw_engine.cc b/src/engine/rocks_raw_engine.cc
index 2e26d5d..68a696b 100644
--- a/src/engine/rocks_raw_engine.cc
+++ b/src/engine/rocks_raw_engine.cc
@@ -1156,6 +1156,20 @@ void RocksRawEngine::Flush(const std::string& cf_name) {
   }
 }
 
+butil::Status RocksRawEngine::SyncWal() {
+  if (db_ == nullptr) {
+    return butil::Status();
+  }
+
+  auto status = db_->SyncWAL();
+  if (!status.ok()) {
+    DINGO_LOG(ERROR) << fmt::format("[rocksdb] sync wal failed, error: {}", status.ToString());
+    return butil::Status(pb::error::EINTERNAL, "Internal sync wal error");
+  }
+
+  return butil::Status();
+}
+
 butil::Status RocksRawEngine::Compact(const std::string& cf_name) {
   DINGO_LOG(INFO) << fmt::format("[rocksdb] compact column family {}", cf_name);
   if (db_ != nullptr) {
diff --git a/src/engine/rocks_raw_engine.h b/src/engine/rocks_raw_engine.h
index 1ae0771..5321902 100644
--- a/src/engine/rocks_raw_engine.h
+++ b/src/engine/rocks_raw_engine.h
@@ -287,6 +287,7 @@ class RocksRawEngine : public RawEngine {
   butil::Status IngestExternalFile(const std::string& cf_name, const std::vector<std::string>& files) override;
 
   void Flush(const std::string& cf_name) override;
+  butil::Status SyncWal() override;
   butil::Status Compact(const std::string& cf_name) override;
 
   std::vector<int64_t> GetApproximateSizes(const std::string& cf_name, std::vector<pb::common::Range>& ranges) override;
diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index 2b41109..a0cfc36 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -321,6 +321,16 @@ void StoreStateMachine::on_shutdown() {
 
 void StoreStateMachine::on_snapshot_save(braft::SnapshotWriter* writer, braft::Closure* done) {
   DINGO_LOG(INFO) << fmt::format("[raft.sm][region({})] on_snapshot_save", region_->Id());
+  // The raft log up to the snapshot may be truncated afterwards, so what was applied must not depend on it any more.
+  auto status = raw_engine_->SyncWal();
+  if (!status.ok()) {
+    DINGO_LOG(ERROR) << fmt::format("[raft.sm][region({})] sync raw engine failed, error: {}", region_->Id(),
+                                    status.error_str());
+    done->status().set_error(EIO, "Fail to sync raw engine");
+    done->Run();
+    return;
+  }
+
   auto event = std::make_shared<SmSnapshotSaveEvent>();
   event->engine = raw_engine_;
   event->writer = writer;
-- 
2.43.0


From ed8a6d992d82ab030db7c5f20b491fb2ac7e8555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:25 +0000
Subject: [PATCH 06/41] fix: raw writes wait until the new leader has raised
 its minimum valid ts

---
 src/engine/storage.cc                  | 16 ++++++++++++++--
 src/event/store_state_machine_event.cc | 12 ++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/engine/storage.cc b/src/engine/storage.cc
index de26f32..c4cb7aa 100644
--- a/src/engine/storage.cc
+++ b/src/engine/storage.cc
@@ -232,9 +232,15 @@ butil::Status Storage::KvGet(std::shared_ptr<Context> ctx, const std::vector<std
 }
 
 butil::Status Storage::KvPut(std::shared_ptr<Context> ctx, std::vector<pb::common::KeyValue>& kvs) {
+  // A leader that has not caught up yet may hold cached ts smaller than those already applied.
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvPut(ctx, kvs);
+  status = writer->KvPut(ctx, kvs);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
@@ -262,9 +268,15 @@ butil::Status Storage::KvPutIfAbsent(std::shared_ptr<Context> ctx, const std::ve
 
 butil::Status Storage::KvDelete(std::shared_ptr<Context> ctx, const std::vector<std::string>& keys,
                                 std::vector<bool>& key_states) {
+  // A leader that has not caught up yet may hold cached ts smaller than those already applied.
+  auto status = ValidateLeader(ctx->RegionId());
+  if (BAIDU_UNLIKELY(!status.ok())) {
+    return status;
+  }
+
   auto writer = GetEngineWriter(ctx->StoreEngineType(), ctx->RawEngineType());
 
-  auto status = writer->KvDelete(ctx, keys, key_states);
+  status = writer->KvDelete(ctx, keys, key_states);
   if (BAIDU_UNLIKELY(!status.ok())) {
     return status;
   }
diff --git a/src/event/store_state_machine_event.cc b/src/event/store_state_machine_event.cc
index 7f7a012..3d54f0a 100644
--- a/src/event/store_state_machine_event.cc
+++ b/src/event/store_state_machine_event.cc
@@ -85,6 +85,12 @@ int SmLeaderStartEventListener::OnEvent(std::shared_ptr<Event> event) {
   auto the_event = std::dynamic_pointer_cast<SmLeaderStartEvent>(event);
   auto region = the_event->region;
 
+  // Set raw apply max ts before the region may serve, cached ts may be smaller than what was already applied
+  auto ts_provider = Server::GetInstance().GetTsProvider();
+  if (ts_provider != nullptr) {
+    ts_provider->SetMinValidTs(region->RawAppliedMaxTs());
+  }
+
   auto raft_store_engine = Server::GetInstance().GetRaftStoreEngine();
   auto node = raft_store_engine->GetNode(region->Id());
   if (node != nullptr) {
@@ -95,12 +101,6 @@ int SmLeaderStartEventListener::OnEvent(std::shared_ptr<Event> event) {
     node->SetConsistentReadable(true);
   }
 
-  // Set raw apply max ts
-  auto ts_provider = Server::GetInstance().GetTsProvider();
-  if (ts_provider != nullptr) {
-    ts_provider->SetMinValidTs(region->RawAppliedMaxTs());
-  }
-
   auto store_region_meta = GET_STORE_REGION_META;
   // Update region meta
   if (store_region_meta != nullptr) {
-- 
2.43.0


From 1c8c92112c32de7dd8fdaa96916d74c9718fb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 07/41] fix: TxnGc must not dereference a missing gc safe point

---
 src/engine/txn_engine_helper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index c8de756..ceecc4f 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4772,7 +4772,7 @@ butil::Status TxnEngineHelper::Gc(RawEnginePtr raw_engine, std::shared_ptr<Engin
 
   store::RegionPtr region = Server::GetInstance().GetRegion(ctx->RegionId());
   if (region == nullptr) {
-    DINGO_LOG(ERROR) << fmt::format("[txn_gc][region({})] Gc", region->Id())
+    DINGO_LOG(ERROR) << fmt::format("[txn_gc][region({})] Gc", ctx->RegionId())
                      << ", region is not found, region_id: " << ctx->RegionId();
     return butil::Status(pb::error::Errno::EREGION_NOT_FOUND, "region is not found");
   }
@@ -4795,6 +4795,12 @@ butil::Status TxnEngineHelper::Gc(RawEnginePtr raw_engine, std::shared_ptr<Engin
   int64_t tenant_id = definition.tenant_id();
 
   auto gc_safe_point = gc_safe_point_manager->FindSafePoint(tenant_id);
+  if (gc_safe_point == nullptr) {
+    DINGO_LOG(ERROR) << fmt::format("[txn_gc][tenant({})][region({})] Gc, safe_point_ts: {}", tenant_id, region->Id(),
+                                    safe_point_ts)
+                     << ", gc safe point of the tenant is not known yet";
+    return butil::Status(pb::error::Errno::EINTERNAL, "gc safe point of the tenant is not known yet");
+  }
 
   return DoGc(raw_engine, raft_engine, ctx, safe_point_ts, gc_safe_point, range.start_key(), range.end_key());
 }
-- 
2.43.0


From af525fe2fad8fbfac2121768406357a4f3975a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:22 +0000
Subject: [PATCH 08/41] fix: gc keeps the version a snapshot above the safe
 point reads

---
 src/engine/txn_engine_helper.cc | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index ceecc4f..5771a59 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4894,8 +4894,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
   write_iter->Seek(write_iter_options.lower_bound);
 
-  // this var is too long. this is important var. do not cut down it.
-  bool is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
   // this var is too long. this is important var. do not cut down it.
   bool is_first_put_key_if_write_ts_le_safe_point_ts = true;
 
@@ -4932,7 +4930,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // reset for first put
     if (last_write_key != write_key) {
-      is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
       last_write_key = write_key;
       is_first_put_key_if_write_ts_le_safe_point_ts = true;
     }
@@ -4948,11 +4945,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // write_ts > safe_point_ts key value
     if (write_ts > safe_point_ts) {
-      if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-        if (pb::store::Op::Put == op || pb::store::Op::Delete == op) {
-          is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = true;
-        }
-      }
       write_iter->Next();
       continue;
     }
@@ -4961,15 +4953,13 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
     switch (op) {
       case pb::store::Put: {
         // caution!!!
-        // if write_ts > safe_point_ts. not exist delete or put key.
         // if write_ts <= safe_point_ts. first is put key. this first put key can not be delete !!!
-        if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_write_ts_le_safe_point_ts) {
-            // others put key can be delete. clear this flag.
-            is_first_put_key_if_write_ts_le_safe_point_ts = false;
-            write_iter->Next();
-            continue;
-          }
+        // it is what a snapshot between safe_point_ts and the next version of the key reads.
+        if (is_first_put_key_if_write_ts_le_safe_point_ts) {
+          // others put key can be delete. clear this flag.
+          is_first_put_key_if_write_ts_le_safe_point_ts = false;
+          write_iter->Next();
+          continue;
         }
         kv_deletes_write.emplace_back(write_iter_key);
         if (write_info.short_value().empty()) {
@@ -5003,12 +4993,9 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       }
       case pb::store::Delete: {
         // caution!!!
-        // if write_ts > safe_point_ts. not exist delete or put key.
         // if write_ts <= safe_point_ts. first is delete key. this first put key actually can be delete.
-        if (!is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts) {
-          if (is_first_put_key_if_write_ts_le_safe_point_ts) {
-            is_first_put_key_if_write_ts_le_safe_point_ts = false;
-          }
+        if (is_first_put_key_if_write_ts_le_safe_point_ts) {
+          is_first_put_key_if_write_ts_le_safe_point_ts = false;
         }
         kv_deletes_write.emplace_back(write_iter_key);
         break;
-- 
2.43.0


From 5e7a190b3515387a200a01df2edfa015bc0db90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:11 +0000
Subject: [PATCH 09/41] fix: pessimistic prewrite without its lock checks for
 later and own commits

---
 src/engine/txn_engine_helper.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 5771a59..76d8727 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3075,7 +3075,8 @@ butil::Status TxnEngineHelper::Prewrite(
     // if there is a commit, there will be a key | commit_ts : WriteInfo| in write_cf
     // for optimistic prewrite, we need to check if commit_ts >= start_ts
     // for pessimistic prewrite, we need to check if commit_ts >= for_update_ts, but this check is done in lock
-    // phase, so we do not need to check here
+    // phase, so we do not need to check here, unless the pessimistic lock is gone: then nothing protected the key
+    // since, this transaction itself may be committed already (a repeated prewrite), or another one
     {
       PhaseTimer t(commit_et, txn_reader, start_ts, mutation.key(), "check commit");
       int64_t commit_ts = 0;
@@ -3093,7 +3094,7 @@ butil::Status TxnEngineHelper::Prewrite(
           << ", write_info: " << write_info.ShortDebugString();
 
       if (commit_ts >= start_ts) {
-        if (!need_check_pessimistic_lock) {
+        if (!need_check_pessimistic_lock || prev_lock_info.primary_lock().empty()) {
           pb::store::WriteInfo prev_write_info;
           int64_t prev_commit_ts = 0;
           bool find_record = false;
@@ -3132,7 +3133,10 @@ butil::Status TxnEngineHelper::Prewrite(
           // setup write_conflict ( this may not be necessary, when lock_info is set)
           auto *txn_result = response->add_txn_result();
           auto *write_conflict = txn_result->mutable_write_conflict();
-          write_conflict->set_reason(::dingodb::pb::store::WriteConflict_Reason::WriteConflict_Reason_Optimistic);
+          write_conflict->set_reason(
+              need_check_pessimistic_lock
+                  ? ::dingodb::pb::store::WriteConflict_Reason::WriteConflict_Reason_PessimisticRetry
+                  : ::dingodb::pb::store::WriteConflict_Reason::WriteConflict_Reason_Optimistic);
           write_conflict->set_start_ts(start_ts);
           write_conflict->set_conflict_ts(commit_ts);
           write_conflict->set_key(mutation.key());
-- 
2.43.0


From 429a8d7006d881aa34e7045ccd38cdefeb0a5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:24 +0000
Subject: [PATCH 10/41] fix: keep the installed snapshot's sst files so a crash
 can load it again

---
 src/handler/raft_snapshot_handler.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/handler/raft_snapshot_handler.cc b/src/handler/raft_snapshot_handler.cc
index fb0a594..3868da1 100644
--- a/src/handler/raft_snapshot_handler.cc
+++ b/src/handler/raft_snapshot_handler.cc
@@ -439,13 +439,8 @@ bool RaftSnapshot::LoadSnapshotDingo(braft::SnapshotReader* reader, store::Regio
                                    sst_path);
   }
 
-  for (const auto& sst_file : sst_files) {
-    // Clean merge temp file
-    if (sst_file.empty()) {
-      continue;
-    }
-    Helper::RemoveFileOrDirectory(sst_file);
-  }
+  // Keep the sst files: if the store crashes before the new applied index is durable, this snapshot is loaded again
+  // after the restart and the region is cleared first. The files go away together with the snapshot directory.
 
   DINGO_LOG(INFO) << fmt::format("[raft.snapshot][region({})] load snapshot success", region->Id());
 
-- 
2.43.0


From 79d93261bdb66d42606ab496363cf388bd91fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:15 +0000
Subject: [PATCH 11/41] fix: txn gc writes its delete batches only between keys

---
 src/engine/txn_engine_helper.cc | 50 ++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 76d8727..47e493f 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4932,6 +4932,33 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       DINGO_LOG(FATAL) << s;
     }
 
+    // write out a full batch only between keys. a batch that removes a key's delete or rollback record before its older
+    // puts would let readers see these puts again.
+    if (last_write_key != write_key &&
+        (kv_deletes_lock.size() + kv_deletes_write.size() + kv_deletes_data.size()) >= FLAGS_gc_delete_batch_count) {
+      auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
+      if (internal_gc_stop) {
+        DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail) << fmt::format(
+            "[txn_gc][tenant({})][region({})][type({})][txn] gc_stop set stop.  start_key : {} end_key : {}. return",
+            gc_safe_point->GetTenantId(), ctx->RegionId(), pb::common::RegionType_Name(type),
+            Helper::StringToHex(region_start_key), Helper::StringToHex(region_end_key));
+        goto _interrupt1;
+      }
+
+      if (safe_point_ts < internal_safe_point_ts) {
+        DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail) << fmt::format(
+            "[txn_gc][tenant({})][region({})][type({})][txn] current safe_point_ts : {}. newest safe_point_ts : {}. "
+            "Don't worry, we'll deal with it next time. ignore.  start_key : {} end_key : {}",
+            gc_safe_point->GetTenantId(), ctx->RegionId(), pb::common::RegionType_Name(type), safe_point_ts,
+            internal_safe_point_ts, Helper::StringToHex(region_start_key), Helper::StringToHex(region_end_key));
+      }
+
+      total_delete_count += (kv_deletes_lock.size() + kv_deletes_write.size() + kv_deletes_data.size());
+      DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, last_write_key, gc_safe_point->GetTenantId(), type,
+                          safe_point_ts, kv_deletes_lock, kv_deletes_data, kv_deletes_write, lock_start_key,
+                          lock_end_key, last_lock_start_key, last_lock_end_key);
+    }
+
     // reset for first put
     if (last_write_key != write_key) {
       last_write_key = write_key;
@@ -5031,29 +5058,6 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       }
     }
 
-    if ((kv_deletes_lock.size() + kv_deletes_write.size() + kv_deletes_data.size()) >= FLAGS_gc_delete_batch_count) {
-      auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
-      if (internal_gc_stop) {
-        DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail) << fmt::format(
-            "[txn_gc][tenant({})][region({})][type({})][txn] gc_stop set stop.  start_key : {} end_key : {}. return",
-            gc_safe_point->GetTenantId(), ctx->RegionId(), pb::common::RegionType_Name(type),
-            Helper::StringToHex(region_start_key), Helper::StringToHex(region_end_key));
-        goto _interrupt1;
-      }
-
-      if (safe_point_ts < internal_safe_point_ts) {
-        DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail) << fmt::format(
-            "[txn_gc][tenant({})][region({})][type({})][txn] current safe_point_ts : {}. newest safe_point_ts : {}. "
-            "Don't worry, we'll deal with it next time. ignore.  start_key : {} end_key : {}",
-            gc_safe_point->GetTenantId(), ctx->RegionId(), pb::common::RegionType_Name(type), safe_point_ts,
-            internal_safe_point_ts, Helper::StringToHex(region_start_key), Helper::StringToHex(region_end_key));
-      }
-
-      total_delete_count += (kv_deletes_lock.size() + kv_deletes_write.size() + kv_deletes_data.size());
-      DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, write_key, gc_safe_point->GetTenantId(), type,
-                          safe_point_ts, kv_deletes_lock, kv_deletes_data, kv_deletes_write, lock_start_key,
-                          lock_end_key, last_lock_start_key, last_lock_end_key);
-    }
     write_iter->Next();
   }
 
-- 
2.43.0


From 1ad1d876a220f08ceeda23513c53a4f89fd99d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:28 +0000
Subject: [PATCH 12/41] fix: a rollback record must not overwrite another
 transaction's commit record

---
 src/engine/txn_engine_helper.cc | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 47e493f..b2af5e6 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4076,8 +4076,22 @@ butil::Status TxnEngineHelper::BatchRollback(RawEnginePtr raw_engine, std::share
 
 bvar::LatencyRecorder g_txn_do_rollback_latency("dingo_txn_do_rollback");
 
+// The commit ts of an async commit or 1PC transaction is computed by the store, so it can be equal to the start ts of
+// another transaction. The rollback record of that transaction must not overwrite the commit record: readers would lose
+// the committed value. The commit record itself keeps a late prewrite out, its commit ts is not less than the start ts.
+static bool IsCommitRecordOfOtherTxn(RawEnginePtr raw_engine, const std::string &key, int64_t start_ts) {
+  std::string value;
+  auto status = raw_engine->Reader()->KvGet(Constant::kTxnWriteCF, mvcc::Codec::EncodeKey(key, start_ts), value);
+  if (!status.ok()) {
+    return false;
+  }
+  pb::store::WriteInfo write_info;
+  return write_info.ParseFromString(value) && write_info.start_ts() != start_ts &&
+         write_info.op() != pb::store::Op::Rollback;
+}
+
 // DoRollback
-butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shared_ptr<Engine> raft_engine,
+butil::Status TxnEngineHelper::DoRollback(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
                                           std::shared_ptr<Context> ctx,
                                           std::vector<std::string> &keys_to_rollback_with_data,
                                           std::vector<std::string> &keys_to_rollback_without_data,
@@ -4104,6 +4118,9 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     kv_deletes_lock.emplace_back(mvcc::Codec::EncodeKey(key, Constant::kLockVer));
 
     // add write
+    if (IsCommitRecordOfOtherTxn(raw_engine, key, start_ts)) {
+      continue;
+    }
     pb::store::WriteInfo write_info;
     write_info.set_start_ts(start_ts);
     write_info.set_op(::dingodb::pb::store::Op::Rollback);
@@ -4122,6 +4139,9 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     kv_deletes_data.emplace_back(mvcc::Codec::EncodeKey(key, start_ts));
 
     // add write
+    if (IsCommitRecordOfOtherTxn(raw_engine, key, start_ts)) {
+      continue;
+    }
     pb::store::WriteInfo write_info;
     write_info.set_start_ts(start_ts);
     write_info.set_op(::dingodb::pb::store::Op::Rollback);
@@ -4134,6 +4154,9 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
 
   for (const auto &key : keys_miss_lock_to_rollback) {
     // add write
+    if (IsCommitRecordOfOtherTxn(raw_engine, key, start_ts)) {
+      continue;
+    }
     pb::store::WriteInfo write_info;
     write_info.set_start_ts(start_ts);
     write_info.set_op(::dingodb::pb::store::Op::Rollback);
@@ -4190,7 +4213,7 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
 }
 
 // MarkRollBackOnMissingLock
-butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engine*/,
+butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr raw_engine,
                                                          std::shared_ptr<Engine> raft_engine,
                                                          std::shared_ptr<Context> ctx, std::string primary_key,
                                                          int64_t start_ts) {
@@ -4199,6 +4222,10 @@ butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engi
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail) << "[txn]MarkRollBackOnMissingLock start_ts: " << start_ts
                                                         << ", primary_key: " << Helper::StringToHex(primary_key);
 
+  if (IsCommitRecordOfOtherTxn(raw_engine, primary_key, start_ts)) {
+    return butil::Status::OK();
+  }
+
   // add write
   pb::store::WriteInfo write_info;
   write_info.set_start_ts(start_ts);
-- 
2.43.0


From a98722dccbd920a28c5012d69b76fb75a47a8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:40 +0000
Subject: [PATCH 13/41] fix: commit of a transaction another client already
 committed is not a rollback

---
 src/engine/txn_engine_helper.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index b2af5e6..54de8ad 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3383,8 +3383,8 @@ butil::Status TxnEngineHelper::Commit(RawEnginePtr raw_engine, std::shared_ptr<E
       int64_t prev_commit_ts = 0;
       {
         PhaseTimer t(already_commit_et, txn_reader, start_ts, key, "check already commit", "Commit");
-        auto ret2 =
-            txn_reader.GetWriteInfo(start_ts, commit_ts, start_ts, key, false, true, true, write_info, prev_commit_ts);
+        auto ret2 = txn_reader.GetWriteInfo(start_ts, Constant::kMaxVer, start_ts, key, false, true, true, write_info,
+                                            prev_commit_ts);
         if (!ret2.ok()) {
           DINGO_LOG(ERROR) << fmt::format("[txn][region({})] Commit, start_Ts: {}, commit_ts: {}", region->Id(),
                                           start_ts, commit_ts)
@@ -3396,8 +3396,9 @@ butil::Status TxnEngineHelper::Commit(RawEnginePtr raw_engine, std::shared_ptr<E
         }
       }
 
-      // if prev_commit_ts == commit_ts, means this key of start_ts is already committed, can skip it
-      if (prev_commit_ts == commit_ts) {
+      // this key of start_ts is already committed, can skip it. prev_commit_ts may differ from commit_ts if the transaction
+      // was async commit and another client resolved it.
+      if (prev_commit_ts > 0) {
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail)
             << fmt::format("[txn][region({})] Commit, start_Ts: {}, commit_ts: {}", region->Id(), start_ts, commit_ts)
             << ", key: " << Helper::StringToHex(key) << " is already committed, prev_commit_ts: " << prev_commit_ts;
-- 
2.43.0


From cd50aa554ec87e78837063e9d93d7cb3a333633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:54 +0000
Subject: [PATCH 14/41] fix: a repeated async commit prewrite reports the
 min_commit_ts of its lock

---
 src/engine/txn_engine_helper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 54de8ad..8f159e6 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3199,7 +3199,13 @@ butil::Status TxnEngineHelper::Prewrite(
           << prev_lock_info.ShortDebugString() << ", mutation: " << mutation.ShortDebugString();
       // if enable 1pc need to fallback to 2pc
       try_one_pc = false;
-      use_async_commit = false;
+      if (use_async_commit && prev_lock_info.use_async_commit()) {
+        // the lock is still an async commit lock: another client may commit it at its min_commit_ts, so the caller must
+        // not take the transaction for a 2pc one.
+        final_min_commit_ts = std::max(final_min_commit_ts, prev_lock_info.min_commit_ts());
+      } else {
+        use_async_commit = false;
+      }
       continue;
     }
 
-- 
2.43.0


From 68f7f9f0c58c1b1ea61bdd315303416f17ea5693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:11 +0000
Subject: [PATCH 15/41] fix: a new leader syncs the txn access max ts before it
 computes commit ts

---
 src/engine/txn_engine_helper.cc        | 23 +++++++++++++++++++++++
 src/event/store_state_machine_event.cc |  2 ++
 src/meta/store_meta_manager.h          | 12 ++++++++++++
 src/mvcc/ts_provider.cc                |  5 +++++
 src/mvcc/ts_provider.h                 |  3 +++
 5 files changed, 45 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 8f159e6..7f0d2fa 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -2179,9 +2179,32 @@ butil::Status TxnEngineHelper::PessimisticRollback(RawEnginePtr raw_engine, std:
 
 bvar::LatencyRecorder g_txn_prewrite_latency("dingo_txn_prewrite");
 
+// Raise the access max ts of a new leader above every ts read on previous leaders.
+static bool SyncTxnAccessMaxTs(store::RegionPtr region) {
+  int64_t epoch = region->TxnAccessMaxTsEpoch();
+  if (BAIDU_LIKELY(region->TxnAccessMaxTsSyncedEpoch() == epoch)) {
+    return true;
+  }
+
+  auto ts_provider = Server::GetInstance().GetTsProvider();
+  int64_t ts = ts_provider != nullptr ? ts_provider->GetRemoteTs() : 0;
+  if (ts == 0) {
+    DINGO_LOG(WARNING) << fmt::format("[txn][region({})]", region->Id()) << " sync txn access max ts failed";
+    return false;
+  }
+
+  region->SyncTxnAccessMaxTs(ts, epoch);
+  return true;
+}
+
 int64_t TxnEngineHelper::GenFinalMinCommitTs(store::RegionPtr region, pb::store::LockInfo &lock_info, std::string key,
                                              int64_t start_ts, int64_t for_update_ts, int64_t max_commit_ts) {
   int64_t region_id = region->Id();
+  if (!SyncTxnAccessMaxTs(region)) {
+    // fallback to 2pc
+    return 0;
+  }
+
   auto new_entry = std::make_shared<ConcurrencyManager::LockEntry>();
   RWLockWriteGuard guard(&new_entry->rw_lock);
   new_entry->lock_info = lock_info;
diff --git a/src/event/store_state_machine_event.cc b/src/event/store_state_machine_event.cc
index 3d54f0a..b967f70 100644
--- a/src/event/store_state_machine_event.cc
+++ b/src/event/store_state_machine_event.cc
@@ -90,6 +90,8 @@ int SmLeaderStartEventListener::OnEvent(std::shared_ptr<Event> event) {
   if (ts_provider != nullptr) {
     ts_provider->SetMinValidTs(region->RawAppliedMaxTs());
   }
+  // The previous leader may have served txn reads this store knows nothing about
+  region->InvalidateTxnAccessMaxTs();
 
   auto raft_store_engine = Server::GetInstance().GetRaftStoreEngine();
   auto node = raft_store_engine->GetNode(region->Id());
diff --git a/src/meta/store_meta_manager.h b/src/meta/store_meta_manager.h
index 5d8548b..ae0da5c 100644
--- a/src/meta/store_meta_manager.h
+++ b/src/meta/store_meta_manager.h
@@ -198,6 +198,16 @@ class Region {
   }
   int64_t TxnAccessMaxTs() { return txn_access_max_ts_.load(std::memory_order_acquire); }
 
+  // The access max ts is kept in memory by the leader only, a new leader must first raise it above every ts that was
+  // read on previous leaders. Each leader start opens a new epoch, the ts is usable once it is synced in that epoch.
+  void InvalidateTxnAccessMaxTs() { txn_access_max_ts_epoch_.fetch_add(1, std::memory_order_acq_rel); }
+  int64_t TxnAccessMaxTsEpoch() { return txn_access_max_ts_epoch_.load(std::memory_order_acquire); }
+  int64_t TxnAccessMaxTsSyncedEpoch() { return txn_access_max_ts_synced_epoch_.load(std::memory_order_acquire); }
+  void SyncTxnAccessMaxTs(int64_t ts, int64_t epoch) {
+    SetTxnAccessMaxTs(ts);
+    txn_access_max_ts_synced_epoch_.store(epoch, std::memory_order_release);
+  }
+
   // memory_lock_manager
   void LockKey(const std::string& key, ConcurrencyManager::LockEntryPtr lock_entry);
   void UnlockKeys(const std::vector<std::string>& keys);
@@ -217,6 +227,8 @@ class Region {
   std::atomic<int64_t> raw_applied_max_ts_{0};
 
   std::atomic<int64_t> txn_access_max_ts_{0};
+  std::atomic<int64_t> txn_access_max_ts_epoch_{0};
+  std::atomic<int64_t> txn_access_max_ts_synced_epoch_{0};
 
   pb::raft::SplitStrategy split_strategy_{};
 
diff --git a/src/mvcc/ts_provider.cc b/src/mvcc/ts_provider.cc
index a3db596..88422d7 100644
--- a/src/mvcc/ts_provider.cc
+++ b/src/mvcc/ts_provider.cc
@@ -304,6 +304,11 @@ int64_t TsProvider::GetTs(int64_t after_ts) {
   return 0;
 }
 
+int64_t TsProvider::GetRemoteTs() {
+  std::unique_ptr<BatchTs> batch_ts(SendTsoRequest());
+  return batch_ts != nullptr ? batch_ts->GetTs() : 0;
+}
+
 void TsProvider::RenewBatchTs() {
   for (uint32_t retry_count = 0; retry_count < FLAGS_ts_provider_renew_max_retry_num; ++retry_count) {
     BatchTs* batch_ts = SendTsoRequest();
diff --git a/src/mvcc/ts_provider.h b/src/mvcc/ts_provider.h
index 9d75f18..4858048 100644
--- a/src/mvcc/ts_provider.h
+++ b/src/mvcc/ts_provider.h
@@ -172,6 +172,9 @@ class TsProvider : public std::enable_shared_from_this<TsProvider> {
 
   int64_t GetTs(int64_t after_ts = 0);
 
+  // take a ts from the tso service, not from the cache. return 0 if failed.
+  int64_t GetRemoteTs();
+
   uint64_t GetTsCount() const { return get_ts_count_.get_value(); }
   uint64_t GetTsFailCount() const { return get_ts_fail_count_.get_value(); }
 
-- 
2.43.0


From dd05f45356b15a87533a306bc099c062e4b5868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:54 +0000
Subject: [PATCH 16/41] fix: a new TSO leader serves only after its first sync
 is applied

---
 src/coordinator/tso_control.cc | 36 ++++++++++++++++++++++++++++------
 src/coordinator/tso_control.h  |  3 +++
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 729645f..f3d72ab 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -142,7 +142,9 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
     response->mutable_error()->set_errmsg("tso count should be positive");
     return;
   }
-  if (!is_healty_) {
+  // A new leader serves only after its own first sync is applied: until then current_timestamp is what the former leader
+  // replicated, and timestamps above it have already been handed out.
+  if (!is_healty_ || !IsSynced()) {
     DINGO_LOG(ERROR) << "TSO has wrong status, retry later";
     response->mutable_error()->set_errcode(pb::error::Errno::ERETRY_LATER);
     response->mutable_error()->set_errmsg("timestamp not ok, retry later");
@@ -154,7 +156,10 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
     {
       BAIDU_SCOPED_LOCK(tso_mutex_);
       int64_t physical = tso_obj_.current_timestamp.physical();
-      if (physical != 0) {
+      if (!IsSynced()) {
+        DINGO_LOG(WARNING) << "leader changed while generating tso, retry later";
+        need_retry = true;
+      } else if (physical != 0) {
         int64_t new_logical = tso_obj_.current_timestamp.logical() + count;
         if (new_logical < kMaxLogical) {
           current = tso_obj_.current_timestamp;
@@ -287,7 +292,8 @@ void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoRes
   int64_t physical = request.save_physical();
   const pb::meta::TsoTimestamp& current = request.current_timestamp();
   // can't rollback
-  if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
+  // can't keep the physical part either, its logical parts may have been handed out
+  if (physical < tso_obj_.last_save_physical || current.physical() <= tso_obj_.current_timestamp.physical()) {
     DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                        << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical() << ", "
                        << current.logical() << ", " << tso_obj_.current_timestamp.logical() << ")";
@@ -314,6 +320,7 @@ TsoControl::TsoControl() {
   bthread_mutex_init(&tso_mutex_, nullptr);
 
   leader_term_.store(-1, butil::memory_order_release);
+  synced_term_.store(-1, butil::memory_order_release);
 }
 
 // tso_update_timer_ is a timer to update timestamp
@@ -375,6 +382,11 @@ void TsoControl::GetServerLocation(pb::common::Location& raft_location, pb::comm
 
 bool TsoControl::IsLeader() { return leader_term_.load(butil::memory_order_acquire) > 0; }
 
+bool TsoControl::IsSynced() {
+  int64_t term = leader_term_.load(butil::memory_order_acquire);
+  return term > 0 && synced_term_.load(butil::memory_order_acquire) == term;
+}
+
 void TsoControl::SetLeaderTerm(int64_t term) { leader_term_.store(term, butil::memory_order_release); }
 
 void TsoControl::OnLeaderStart(int64_t term) {
@@ -390,15 +402,23 @@ void TsoControl::OnLeaderStart(int64_t term) {
     current.set_physical(last_save + kUpdateTimestampGuardMs);
   }
   last_save = current.physical() + kSaveIntervalMs;
-  auto func = [this, last_save, current]() {
+  auto func = [this, term, last_save, current]() {
     LOG(INFO) << "leader_start current(phy:" << current.physical() << ",log:" << current.logical()
               << ") save:" << last_save;
     int ret = SyncTimestamp(current, last_save);
     if (ret < 0) {
       LOG(INFO) << "sync timestamp failed";
-      is_healty_ = false;
+      if (leader_term_.load(butil::memory_order_acquire) == term) {
+        is_healty_ = false;
+      }
+    } else {
+      LOG(INFO) << "sync timestamp ok";
+      is_healty_ = true;
+      int64_t synced_term = synced_term_.load(butil::memory_order_acquire);
+      while (synced_term < term &&
+             !synced_term_.compare_exchange_weak(synced_term, term, butil::memory_order_acq_rel)) {
+      }
     }
-    LOG(INFO) << "sync timestamp ok";
     tso_update_timer_.start();
   };
   Bthread bth;
@@ -534,6 +554,10 @@ butil::Status TsoControl::SubmitMetaIncrementAsync(google::protobuf::Closure* do
   auto status = engine_->AsyncWrite(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), meta_increment));
   if (!status.ok()) {
     DINGO_LOG(ERROR) << "ApplyMetaIncrement failed, errno=" << status.error_code() << " errmsg=" << status.error_str();
+    if (response != nullptr) {
+      response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(status.error_code()));
+      response->mutable_error()->set_errmsg(status.error_str());
+    }
     if (done != nullptr) {
       brpc::ClosureGuard fail_done(done);
     }
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 27a4415..df5d0be 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -137,6 +137,7 @@ class TsoControl : public MetaControl {
 
   // functions below are for raft fsm
   bool IsLeader() override;
+  bool IsSynced();
   void SetLeaderTerm(int64_t term) override;
   void OnLeaderStart(int64_t term) override;
   void OnLeaderStop() override;
@@ -182,6 +183,8 @@ class TsoControl : public MetaControl {
 
   // node is leader or not
   butil::atomic<int64_t> leader_term_;
+  // term whose first sync is applied
+  butil::atomic<int64_t> synced_term_;
 
   // raft node
   std::shared_ptr<RaftNode> raft_node_;
-- 
2.43.0


From f6cd53bb41145cd4a802b96cb1929091a6e5bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:47 +0000
Subject: [PATCH 17/41] fix: auto-increment range end overflowed 32 bits and
 handed out the same ids again

---
 src/coordinator/auto_increment_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index e0550f3..db1c3b0 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -403,7 +403,7 @@ int64_t AutoIncrementControl::GetGenerateEndId(int64_t start_id, uint32_t count,
   }
 
   int64_t real_start_id = GetRealStartId(start_id, increment, offset);
-  return real_start_id + count * increment;
+  return real_start_id + static_cast<int64_t>(count) * increment;
 }
 
 int64_t AutoIncrementControl::GetRealStartId(int64_t start_id, uint32_t auto_increment_increment,
-- 
2.43.0


From 1c97d87c30a6890aeeb2054523181859249f5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:48 +0000
Subject: [PATCH 18/41] fix: a repeated auto-increment create must not reset
 the counter

---
 src/coordinator/auto_increment_control.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index db1c3b0..cff88ff 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -345,7 +345,18 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
     if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
       DINGO_LOG(INFO) << "create auto increment, table id: " << table_id
                       << ", start id: " << auto_increment.increment().start_id();
-      auto_increment_map_[table_id] = auto_increment.increment().start_id();
+      // Another create may have been applied since this one was checked: the ids generated since must not come again.
+      int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
+      if (start_id_ptr == nullptr) {
+        auto_increment_map_[table_id] = auto_increment.increment().start_id();
+      } else if (*start_id_ptr != auto_increment.increment().start_id()) {
+        DINGO_LOG(WARNING) << "auto increment table id: " << table_id << " is exist, start id: " << *start_id_ptr;
+        auto* create_response = dynamic_cast<pb::meta::CreateAutoIncrementResponse*>(response);
+        if (is_leader && create_response != nullptr) {
+          create_response->mutable_error()->set_errcode(pb::error::Errno::EAUTO_INCREMENT_EXIST);
+          create_response->mutable_error()->set_errmsg("auto increment exist");
+        }
+      }
     } else if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
       if (start_id_ptr == nullptr) {
-- 
2.43.0


From d3638b8aa958a81af47074beda114a0dc5a5cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:48 +0000
Subject: [PATCH 19/41] fix: an auto-increment update overtaken by generated
 ids must not bring them back

---
 src/coordinator/auto_increment_control.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index cff88ff..ffe66b5 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -184,7 +184,10 @@ butil::Status AutoIncrementControl::UpdateAutoIncrement(int64_t table_id, int64_
   auto_increment->set_id(table_id);
   auto* increment = auto_increment->mutable_increment();
   increment->set_start_id(start_id);
-  increment->set_source_start_id(source_start_id);
+  // a forced update does not depend on the source
+  if (!force) {
+    increment->set_source_start_id(source_start_id);
+  }
   increment->set_update_type(pb::coordinator_internal::AutoIncrementUpdateType::UPDATE_ONLY);
   auto_increment->set_op_type(pb::coordinator_internal::MetaIncrementOpType::UPDATE);
   return butil::Status::OK();
@@ -385,6 +388,11 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
         if (source_start_id != auto_increment.increment().source_start_id()) {
           DINGO_LOG(WARNING) << "start id compare not equal: " << source_start_id << " | "
                              << auto_increment.increment().source_start_id();
+          // ids were generated since this update was checked, it must not bring them back
+          if (auto_increment.increment().source_start_id() != 0 &&
+              auto_increment.increment().start_id() <= source_start_id) {
+            continue;
+          }
         }
         auto_increment_map_[table_id] = auto_increment.increment().start_id();
         DINGO_LOG(INFO) << "update auto increment, table id: " << table_id
-- 
2.43.0


From 76bffc847f48876407f9eff84be44913f88d56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:48 +0000
Subject: [PATCH 20/41] fix: generating ids of a just deleted auto-increment
 answers an error

---
 src/coordinator/auto_increment_control.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index ffe66b5..575b648 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -364,6 +364,11 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
       if (start_id_ptr == nullptr) {
         DINGO_LOG(WARNING) << "for update, cannot find table id: " << table_id;
+        auto* generate_response = dynamic_cast<pb::meta::GenerateAutoIncrementResponse*>(response);
+        if (is_leader && generate_response != nullptr) {
+          generate_response->mutable_error()->set_errcode(pb::error::Errno::EAUTO_INCREMENT_NOT_FOUND);
+          generate_response->mutable_error()->set_errmsg("auto increment not found");
+        }
         continue;
       }
 
-- 
2.43.0


From 38cfef4bf7754c5564827dd0618d4c7e1dd2c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 21/41] fix: version kv range with count_only reports the
 number of keys

---
 src/coordinator/kv_control_kv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 0530faa..b3a1b43 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -286,7 +286,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     kv.push_back(kv_temp);
   }
 
-  return_count = kv.size();
+  return_count = count_only ? std::min<int64_t>(limit_count, limit) : static_cast<int64_t>(kv.size());
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvRange finish, key: " << key << "(" << Helper::StringToHex(key) << "), range_end: " << range_end << "("
-- 
2.43.0


From 289a119d273471fd23d5749bfb4646f02b7346f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 22/41] fix: version kv put with ignore_value keeps the value

---
 src/coordinator/kv_control_kv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index b3a1b43..e46167d 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -471,8 +471,8 @@ butil::Status KvControl::KvPut(const pb::common::KeyValue &key_value_in, int64_t
   kv_index_meta_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_PUT);
   kv_index_meta_increment->set_ignore_lease(ignore_lease);
   kv_index_meta_increment->set_lease_id(lease_grant_id);
+  kv_index_meta_increment->set_ignore_value(ignore_value);
   if (!ignore_value) {
-    kv_index_meta_increment->set_ignore_value(ignore_value);
     kv_index_meta_increment->set_value(key_value_in.value());
   }
   if (!ignore_lease) {
-- 
2.43.0


From f4b472d68aa76813d517e3f60f8e39577a0f42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:21 +0000
Subject: [PATCH 23/41] fix: version kv entries applied again after a crash
 must not change the result

---
 src/coordinator/kv_control_kv.cc | 55 +++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index e46167d..cf86189 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -605,6 +605,11 @@ butil::Status KvControl::KvPutApply(const std::string &key,
 
     last_mod_revision = kv_index.mod_revision();
 
+    if (last_mod_revision.main() == op_revision.main() && last_mod_revision.sub() == op_revision.sub()) {
+      // the log entry is replayed after a crash and this key was already written
+      return butil::Status::OK();
+    }
+
     if (kv_index.generations_size() == 0) {
       auto *generation = kv_index.add_generations();
       generation->mutable_create_revision()->set_main(op_revision.main());
@@ -773,12 +778,14 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
     last_mod_revision = kv_index.mod_revision();
 
-    if (kv_index.generations_size() == 0) {
-      // create a null generator means delete
-      auto *generation = kv_index.add_generations();
+    // no generation or a null generation means deleted, the key may have been deleted by an earlier entry, or by this
+    // entry before a crash, so there is nothing to do
+    if (kv_index.generations_size() == 0 ||
+        !kv_index.generations(kv_index.generations_size() - 1).has_create_revision()) {
       DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
-          << "KvDeleteApply kv_index add null generation[0]: " << generation->ShortDebugString() << ", key: " << key
-          << "(" << Helper::StringToHex(key) << ")";
+          << "KvDeleteApply key is already deleted, nothing to do, key: " << key << "(" << Helper::StringToHex(key)
+          << ")";
+      return butil::Status::OK();
     } else {
       // auto &latest_generation = *kv_index.mutable_generations()->rbegin();
       auto *latest_generation = kv_index.mutable_generations(kv_index.generations_size() - 1);
@@ -840,12 +847,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
 
   // do real write to state machine
   // CAUTION: When deleting kv, we must do PutRawKvRev before put RawKvIndex
-  ret = PutRawKvIndex(key, kv_index);
-  if (!ret.ok()) {
-    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
-                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
-  }
-
   ret = PutRawKvRev(op_revision, kv_rev);
   if (!ret.ok()) {
     DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvRev failed, revision: " << op_revision.ShortDebugString()
@@ -854,6 +855,12 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
     return ret;
   }
 
+  ret = PutRawKvIndex(key, kv_index);
+  if (!ret.ok()) {
+    DINGO_LOG(ERROR) << "KvDeleteApply PutRawKvIndex failed, key: " << key << "(" << Helper::StringToHex(key)
+                     << "), kv_index: " << kv_index.ShortDebugString() << ", error: " << ret.error_str();
+  }
+
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvDeleteApply success, key: " << key << "(" << Helper::StringToHex(key)
       << "), revision: " << op_revision.ShortDebugString();
@@ -1077,6 +1084,20 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     }
   }
 
+  // delete revisions in kv_rev
+  // CAUTION: this must be done before the update of kv_index, if we crash in between the log entry is applied again and
+  // the revisions to delete are computed from kv_index
+  for (const auto &kv_revision : revisions_to_delete) {
+    pb::coordinator_internal::KvRevInternal kv_rev;
+    kv_rev.set_id(RevisionToString(kv_revision));
+
+    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
+                    << ", key: " << key << "(" << Helper::StringToHex(key)
+                    << "), kv_rev: " << kv_rev.ShortDebugString();
+
+    DeleteRawKvRev(kv_revision);
+  }
+
   // if new_kv_index has no generations, delete it
   // else put new_kv_index
   if (new_kv_index.generations_size() == 0) {
@@ -1091,18 +1112,6 @@ butil::Status KvControl::KvCompactApply(const std::string &key,
     PutRawKvIndex(key, new_kv_index);
   }
 
-  // delete revisions in kv_rev
-  for (const auto &kv_revision : revisions_to_delete) {
-    pb::coordinator_internal::KvRevInternal kv_rev;
-    kv_rev.set_id(RevisionToString(kv_revision));
-
-    DINGO_LOG(INFO) << "KvCompactApply delete kv_rev, kv_revision: " << kv_revision.ShortDebugString()
-                    << ", key: " << key << "(" << Helper::StringToHex(key)
-                    << "), kv_rev: " << kv_rev.ShortDebugString();
-
-    DeleteRawKvRev(kv_revision);
-  }
-
   return butil::Status::OK();
 }
 
-- 
2.43.0


From 1ae04fc525a8697e291043bb91aa851fb23fd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:21 +0000
Subject: [PATCH 24/41] fix: version kv put and delete report the previous
 value they replaced

---
 src/coordinator/kv_control.h      |  6 ++--
 src/coordinator/kv_control_fsm.cc | 11 +++++--
 src/coordinator/kv_control_kv.cc  | 50 ++++++++++++++++---------------
 src/server/version_service.cc     | 15 ++++------
 4 files changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/coordinator/kv_control.h b/src/coordinator/kv_control.h
index 2dc7da2..cc0801e 100644
--- a/src/coordinator/kv_control.h
+++ b/src/coordinator/kv_control.h
@@ -295,10 +295,12 @@ class KvControl : public MetaControl {
 
   // KvPutApply is the apply function for put
   butil::Status KvPutApply(const std::string &key, const pb::coordinator_internal::RevisionInternal &op_revision,
-                           bool ignore_lease, int64_t lease_id, bool ignore_value, const std::string &value);
+                           bool ignore_lease, int64_t lease_id, bool ignore_value, const std::string &value,
+                           pb::version::Kv &prev_kv);
 
   // KvDeleteRangeApply is the apply function for delete
-  butil::Status KvDeleteApply(const std::string &key, const pb::coordinator_internal::RevisionInternal &op_revision);
+  butil::Status KvDeleteApply(const std::string &key, const pb::coordinator_internal::RevisionInternal &op_revision,
+                              pb::version::Kv &prev_kv);
 
   // KvCompact is the compact function
   butil::Status KvCompact(const std::vector<std::string> &keys,
diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 1cfce1b..e3210f8 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -456,8 +456,9 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
           }
 
           // call KvPutApply
+          pb::version::Kv prev_kv;
           auto ret = KvPutApply(kv_index.id(), new_op_revision, kv_index.ignore_lease(), kv_index.lease_id(),
-                                kv_index.ignore_value(), kv_index.value());
+                                kv_index.ignore_value(), kv_index.value(), prev_kv);
           if (ret.ok()) {
             DINGO_LOG(INFO) << "ApplyMetaIncrement kv_index UPDATE,PUT [id=" << kv_index.id() << "] success";
 
@@ -466,6 +467,7 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
               auto* put_response = dynamic_cast<pb::version::PutResponse*>(response);
               if (put_response != nullptr) {
                 put_response->mutable_header()->set_revision(new_op_revision.main());
+                *(put_response->mutable_prev_kv()) = prev_kv;
               }
             }
           } else {
@@ -484,7 +486,8 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
           }
 
           // call KvDeleteApply
-          auto ret = KvDeleteApply(kv_index.id(), new_op_revision);
+          pb::version::Kv prev_kv;
+          auto ret = KvDeleteApply(kv_index.id(), new_op_revision, prev_kv);
           if (ret.ok()) {
             DINGO_LOG(INFO) << "ApplyMetaIncrement kv_index UPDATE,DELETE [id=" << kv_index.id() << "] success";
 
@@ -493,6 +496,10 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
               auto* delete_range_response = dynamic_cast<pb::version::DeleteRangeResponse*>(response);
               if (delete_range_response != nullptr) {
                 delete_range_response->mutable_header()->set_revision(new_op_revision.main());
+                if (prev_kv.create_revision() > 0) {
+                  delete_range_response->set_deleted(delete_range_response->deleted() + 1);
+                  *(delete_range_response->add_prev_kvs()) = prev_kv;
+                }
               }
             }
           } else {
diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index cf86189..6c7b575 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -564,7 +564,8 @@ butil::Status KvControl::KvDeleteRange(const std::string &key, const std::string
 
 butil::Status KvControl::KvPutApply(const std::string &key,
                                     const pb::coordinator_internal::RevisionInternal &op_revision, bool ignore_lease,
-                                    int64_t lease_id, bool ignore_value, const std::string &value) {
+                                    int64_t lease_id, bool ignore_value, const std::string &value,
+                                    pb::version::Kv &prev_kv) {
   DINGO_LOG(INFO) << "KvPutApply, key: " << key << "(" << Helper::StringToHex(key)
                   << "), op_revision: " << op_revision.ShortDebugString() << ", ignore_lease: " << ignore_lease
                   << ", lease_id: " << lease_id << ", ignore_value: " << ignore_value << ", value: " << value << "("
@@ -578,7 +579,6 @@ butil::Status KvControl::KvPutApply(const std::string &key,
   new_create_revision.set_sub(op_revision.sub());
   int64_t new_version = 1;
 
-  pb::version::Kv prev_kv;
   pb::version::Kv new_kv;
 
   auto ret = GetRawKvIndex(key, kv_index);
@@ -624,17 +624,17 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       // auto &latest_generation = *kv_index.mutable_generations()->rbegin();
       auto *latest_generation = kv_index.mutable_generations(kv_index.generations_size() - 1);
       if (latest_generation->has_create_revision()) {
+        // only in this situation, the prev_kv is meaningful
+        prev_kv.set_create_revision(latest_generation->create_revision().main());
+        prev_kv.set_mod_revision(kv_index.mod_revision().main());
+        prev_kv.set_version(latest_generation->verison());
+
         *(latest_generation->add_revisions()) = op_revision;
         latest_generation->set_verison(latest_generation->verison() + 1);
 
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvPutApply latest_generation add revsion: " << latest_generation->ShortDebugString() << ", key: " << key
             << "(" << Helper::StringToHex(key) << ")";
-
-        // only in this situation, the prev_kv is meaningful
-        prev_kv.set_create_revision(latest_generation->create_revision().main());
-        prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
       } else {
         latest_generation->mutable_create_revision()->set_main(op_revision.main());
         latest_generation->mutable_create_revision()->set_sub(op_revision.sub());
@@ -661,6 +661,12 @@ butil::Status KvControl::KvPutApply(const std::string &key,
   pb::coordinator_internal::KvRevInternal kv_rev;
   GetRawKvRev(last_mod_revision, kv_rev_last);
 
+  if (prev_kv.create_revision() > 0) {
+    prev_kv.set_lease(kv_rev_last.kv().lease());
+    prev_kv.mutable_kv()->set_key(key);
+    prev_kv.mutable_kv()->set_value(kv_rev_last.kv().value());
+  }
+
   kv_rev.set_id(RevisionToString(op_revision));
 
   // kv is KvInternal
@@ -726,11 +732,6 @@ butil::Status KvControl::KvPutApply(const std::string &key,
     DINGO_LOG(INFO) << "KvPutApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
                     << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
 
-    if (prev_kv.create_revision() > 0) {
-      prev_kv.set_lease(kv_rev_last.kv().lease());
-      prev_kv.mutable_kv()->set_key(key);
-      prev_kv.mutable_kv()->set_value(kv_rev_last.kv().value());
-    }
     new_kv.set_create_revision(new_create_revision.main());
     new_kv.set_mod_revision(op_revision.main());
     new_kv.set_version(new_version);
@@ -750,7 +751,8 @@ butil::Status KvControl::KvPutApply(const std::string &key,
 }
 
 butil::Status KvControl::KvDeleteApply(const std::string &key,
-                                       const pb::coordinator_internal::RevisionInternal &op_revision) {
+                                       const pb::coordinator_internal::RevisionInternal &op_revision,
+                                       pb::version::Kv &prev_kv) {
   DINGO_LOG(INFO) << "KvDeleteApply, key: " << key << "(" << Helper::StringToHex(key)
                   << "), revision: " << op_revision.ShortDebugString();
 
@@ -762,7 +764,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
   new_create_revision.set_sub(op_revision.sub());
   int64_t new_version = 1;
 
-  pb::version::Kv prev_kv;
   pb::version::Kv new_kv;
 
   auto ret = GetRawKvIndex(key, kv_index);
@@ -790,6 +791,11 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       // auto &latest_generation = *kv_index.mutable_generations()->rbegin();
       auto *latest_generation = kv_index.mutable_generations(kv_index.generations_size() - 1);
       if (latest_generation->has_create_revision()) {
+        // only in this situation, the prev_kv is meaningful
+        prev_kv.set_create_revision(latest_generation->create_revision().main());
+        prev_kv.set_mod_revision(kv_index.mod_revision().main());
+        prev_kv.set_version(latest_generation->verison());
+
         // add a the delete revision to latest generation
         *(latest_generation->add_revisions()) = op_revision;
         latest_generation->set_verison(latest_generation->verison() + 1);
@@ -799,11 +805,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
             << "KvDeleteApply kv_index add null generation[1]: " << generation->ShortDebugString() << ", key: " << key
             << "(" << Helper::StringToHex(key) << ")";
-
-        // only in this situation, the prev_kv is meaningful
-        prev_kv.set_create_revision(latest_generation->create_revision().main());
-        prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
       } else {
         // a null generation means delete
         // so we do not need to add a new generation
@@ -827,6 +828,12 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
   pb::coordinator_internal::KvRevInternal kv_rev;
   GetRawKvRev(last_mod_revision, kv_rev_last);
 
+  if (prev_kv.create_revision() > 0) {
+    prev_kv.set_lease(kv_rev_last.kv().lease());
+    prev_kv.mutable_kv()->set_key(key);
+    prev_kv.mutable_kv()->set_value(kv_rev_last.kv().value());
+  }
+
   kv_rev.set_id(RevisionToString(op_revision));
 
   // kv is KvInternal
@@ -870,11 +877,6 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
     DINGO_LOG(INFO) << "KvDeleteApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
                     << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
 
-    if (prev_kv.create_revision() > 0) {
-      prev_kv.set_lease(kv_rev_last.kv().lease());
-      prev_kv.mutable_kv()->set_key(key);
-      prev_kv.mutable_kv()->set_value(kv_rev_last.kv().value());
-    }
     new_kv.set_create_revision(new_create_revision.main());
     new_kv.set_mod_revision(op_revision.main());
     new_kv.set_version(new_version);
diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index c3d8380..4f01588 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -535,8 +535,9 @@ void DoKvPut(google::protobuf::RpcController* controller, const pb::version::Put
     return;
   }
 
-  if (request->need_prev_kv()) {
-    *(response->mutable_prev_kv()) = prev_kv;
+  // prev_kv is set when the put is applied, the one found before may be outdated
+  if (!request->need_prev_kv()) {
+    response->clear_prev_kv();
   }
 
   DINGO_LOG(INFO) << "KvPut success: key_value=" << request->key_value().ShortDebugString()
@@ -591,15 +592,11 @@ void DoKvDeleteRange(google::protobuf::RpcController* /*controller*/, const pb::
     return;
   }
 
-  if (request->need_prev_kv()) {
-    for (const auto& kv : prev_kvs) {
-      auto* resp_kv = response->add_prev_kvs();
-      *resp_kv = kv;
-    }
+  // deleted and prev_kvs are set when the delete is applied, the ones found before may be outdated
+  if (!request->need_prev_kv()) {
+    response->clear_prev_kvs();
   }
 
-  response->set_deleted(deleted_count);
-
   DINGO_LOG(INFO) << "DeleteRange success: key=" << request->key() << ", end_key=" << request->range_end()
                   << ", revision=" << response->header().revision();
 }
-- 
2.43.0


From ce1f9337ffe95aa0f3597d7aa1a8b818ba34a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 25/41] fix: a one-time version kv watch that leaves out puts
 must not report one

---
 src/coordinator/kv_control_watch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index 95a2171..63e4c55 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -92,7 +92,7 @@ butil::Status KvControl::OneTimeWatch(const std::string& watch_key, int64_t star
 
   if (!kvs_temp.empty()) {
     // compare start_revision and current revision
-    if (kvs_temp[0].mod_revision() > start_revision) {
+    if (!no_put_event && kvs_temp[0].mod_revision() > start_revision) {
       auto* event = response->add_events();
       event->set_type(::dingodb::pb::version::Event_EventType::Event_EventType_PUT);
       *(event->mutable_kv()) = kvs_temp[0];
-- 
2.43.0


From 5697982c7ea472956804221c0e5144ed18794cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 26/41] fix: one-time version kv watches lose events and
 answers of watches added while the leader changes

---
 src/coordinator/kv_control_fsm.cc |  6 +++++
 src/coordinator/kv_control_kv.cc  | 44 +++++++++++++------------------
 src/server/version_service.cc     |  1 +
 3 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index e3210f8..e395824 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -83,6 +83,12 @@ void KvControl::OnLeaderStart(int64_t term) {
   one_time_watch_closure_status_map_.Clear();
   {
     BAIDU_SCOPED_LOCK(one_time_watch_map_mutex_);
+
+    // a watch may have been added after OnLeaderStop, its caller is still waiting
+    for (auto& it : one_time_watch_closure_map_) {
+      it.second.Done();
+    }
+
     one_time_watch_map_.clear();
     one_time_watch_closure_map_.clear();
   }
diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 6c7b575..16b697d 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -728,19 +728,15 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       << "), kv_index: " << kv_index.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvPutApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
-    new_kv.set_create_revision(new_create_revision.main());
-    new_kv.set_mod_revision(op_revision.main());
-    new_kv.set_version(new_version);
-    new_kv.set_lease(kv_rev.kv().lease());
-    new_kv.mutable_kv()->set_key(key);
-    new_kv.mutable_kv()->set_value(kv_rev.kv().value());
-
-    TriggerOneWatch(key, pb::version::Event::EventType::Event_EventType_PUT, new_kv, prev_kv);
-  }
+  // one_time_watch_map_ must not be looked at without its lock, a watch that is just being added would miss the event
+  new_kv.set_create_revision(new_create_revision.main());
+  new_kv.set_mod_revision(op_revision.main());
+  new_kv.set_version(new_version);
+  new_kv.set_lease(kv_rev.kv().lease());
+  new_kv.mutable_kv()->set_key(key);
+  new_kv.mutable_kv()->set_value(kv_rev.kv().value());
+
+  TriggerOneWatch(key, pb::version::Event::EventType::Event_EventType_PUT, new_kv, prev_kv);
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvPutApply success after trigger watch, key: " << key << "(" << Helper::StringToHex(key)
@@ -873,19 +869,15 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       << "), revision: " << op_revision.ShortDebugString();
 
   // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvDeleteApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
-    new_kv.set_create_revision(new_create_revision.main());
-    new_kv.set_mod_revision(op_revision.main());
-    new_kv.set_version(new_version);
-    new_kv.set_lease(kv_rev.kv().lease());
-    new_kv.mutable_kv()->set_key(key);
-    new_kv.mutable_kv()->set_value(kv_rev.kv().value());
-
-    TriggerOneWatch(key, pb::version::Event::EventType::Event_EventType_DELETE, new_kv, prev_kv);
-  }
+  // one_time_watch_map_ must not be looked at without its lock, a watch that is just being added would miss the event
+  new_kv.set_create_revision(new_create_revision.main());
+  new_kv.set_mod_revision(op_revision.main());
+  new_kv.set_version(new_version);
+  new_kv.set_lease(kv_rev.kv().lease());
+  new_kv.mutable_kv()->set_key(key);
+  new_kv.mutable_kv()->set_value(kv_rev.kv().value());
+
+  TriggerOneWatch(key, pb::version::Event::EventType::Event_EventType_DELETE, new_kv, prev_kv);
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvDeleteApply success after trigger watch, key: " << key << "(" << Helper::StringToHex(key)
diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index 4f01588..ae0f6c5 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -697,6 +697,7 @@ void DoWatch(google::protobuf::RpcController* controller, const pb::version::Wat
     DINGO_LOG(ERROR) << "Watch failed: no put event and no delete event";
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
     response->mutable_error()->set_errmsg("no put event and no delete event");
+    return;
   }
 
   kv_control->OneTimeWatch(one_time_req.key(), one_time_req.start_revision(), no_put_event, no_delete_event,
-- 
2.43.0


From 9c1bd26008504b5f3a9fb12834a9322910ccbf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 27/41] fix: a coordinator that loads a snapshot older than the
 first id must keep the base of the ids

---
 src/coordinator/coordinator_control_fsm.cc | 3 +++
 src/coordinator/kv_control_fsm.cc          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index f4368a5..1dbf9c7 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -430,6 +430,9 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
       return false;
     }
 
+    // the snapshot may be older than the first use of an id
+    InitIds();
+
     // remove data in rocksdb
     if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
       DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index e395824..d575821 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -195,6 +195,9 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
       return false;
     }
 
+    // the snapshot may be older than the first use of an id
+    InitIds();
+
     // remove data in rocksdb
     if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
       DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-- 
2.43.0


From 7749641f6399a6d97522dfe52c316263a8d1c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 28/41] fix: a version kv delete range must detach every
 deleted key from its lease

---
 src/coordinator/kv_control_kv.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 16b697d..370f55f 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -531,9 +531,7 @@ butil::Status KvControl::KvDeleteRange(const std::string &key, const std::string
     }
 
     // prepare for lease remove
-    std::set<std::string> keys;
-    keys.insert(kv_to_delete.kv().key());
-    keys_to_remove_lease.insert_or_assign(kv_to_delete.lease(), keys);
+    keys_to_remove_lease[kv_to_delete.lease()].insert(kv_to_delete.kv().key());
 
     if (need_lease_remove_keys) {
       DINGO_LOG(INFO) << "KvDelete will remove lease for key: " << kv_to_delete.kv().key() << "("
-- 
2.43.0


From 4c4714fb76ae9e4287e55dd6b78eb6c60bb7fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 29/41] fix: version kv auto compaction skips every 51st key

---
 src/coordinator/kv_control_kv.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 370f55f..a34034a 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -917,9 +917,8 @@ void KvControl::CompactionTask() {
   // do compaction for each key
   std::vector<std::string> keys_to_compact;
   for (const auto &key : keys) {
-    if (keys_to_compact.size() < 50) {
-      keys_to_compact.push_back(key);
-    } else {
+    keys_to_compact.push_back(key);
+    if (keys_to_compact.size() >= 50) {
       auto ret = KvCompact(keys_to_compact, compact_revision);
       if (!ret.ok()) {
         DINGO_LOG(ERROR) << "KvCompact failed, error: " << ret.error_str() << ", keys size: " << keys_to_compact.size();
-- 
2.43.0


From 2643cc46537cb39a554eca05bd59bcebdddabe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 30/41] fix: two version kv lease grants at the same time must
 not both get the same id

---
 src/coordinator/kv_control_lease.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 5492594..9494970 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -111,7 +111,12 @@ butil::Status KvControl::LeaseGrant(int64_t lease_id, int64_t ttl_seconds, int64
   // update lease_to_key_map_
   {
     BAIDU_SCOPED_LOCK(lease_to_key_map_mutex_);
-    lease_to_key_map_.emplace(lease_with_keys.lease.id(), lease_with_keys);
+
+    // another grant of the same id may be on its way
+    if (!lease_to_key_map_.emplace(lease_with_keys.lease.id(), lease_with_keys).second) {
+      DINGO_LOG(WARNING) << "lease id " << granted_id << " already exists";
+      return butil::Status(pb::error::Errno::ELEASE_NOT_EXISTS_OR_EXPIRED, "lease id %lu already exists", granted_id);
+    }
   }
 
   return butil::Status::OK();
-- 
2.43.0


From 5f394a0dc403b1ca6b0470e840bd2c1a60ef3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:13 +0000
Subject: [PATCH 31/41] fix: a crash while a coordinator loads a snapshot must
 not lose it, write the applied index last

---
 src/coordinator/coordinator_control_fsm.cc | 20 +++++++++++---------
 src/coordinator/kv_control_fsm.cc          | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/coordinator/coordinator_control_fsm.cc b/src/coordinator/coordinator_control_fsm.cc
index 1dbf9c7..3b341f8 100644
--- a/src/coordinator/coordinator_control_fsm.cc
+++ b/src/coordinator/coordinator_control_fsm.cc
@@ -439,16 +439,11 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
       return false;
     }
     DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-
-    // write data to rocksdb
-    if (!meta_writer_->Put(kvs)) {
-      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
   }
-  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
-  kvs.clear();
+  // the applied index is part of id_epoch, it is written after everything else, else a crash in between would make the
+  // restart skip the snapshot
+  std::vector<pb::common::KeyValue> id_epoch_kvs;
+  id_epoch_kvs.swap(kvs);
 
   // 1.coordinator map
   kvs.reserve(meta_snapshot_file.coordinator_map_kvs_size());
@@ -951,6 +946,13 @@ bool CoordinatorControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::Meta
   DINGO_LOG(INFO) << "LoadSnapshot tenant_mem_meta, count=" << kvs.size();
   kvs.clear();
 
+  // write id_epoch to rocksdb
+  if (!meta_writer_->Put(id_epoch_kvs)) {
+    DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
+    return false;
+  }
+  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << id_epoch_kvs.size();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index d575821..0f93342 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -204,16 +204,11 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
       return false;
     }
     DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-
-    // write data to rocksdb
-    if (!meta_writer_->Put(kvs)) {
-      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
   }
-  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
-  kvs.clear();
+  // the applied index is part of id_epoch, it is written after everything else, else a crash in between would make the
+  // restart skip the snapshot
+  std::vector<pb::common::KeyValue> id_epoch_kvs;
+  id_epoch_kvs.swap(kvs);
 
   // 14.lease_map_
   kvs.reserve(meta_snapshot_file.lease_map_kvs_size());
@@ -297,6 +292,13 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
   DINGO_LOG(INFO) << "LoadSnapshot version_kv_rev_meta, count=" << kvs.size();
   kvs.clear();
 
+  // write id_epoch to rocksdb
+  if (!meta_writer_->Put(id_epoch_kvs)) {
+    DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
+    return false;
+  }
+  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << id_epoch_kvs.size();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
-- 
2.43.0


From 51d6aaf86962e18f838113e25c1b2fc70af07a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:54 +0000
Subject: [PATCH 32/41] fix: a repeated pessimistic lock returns the value of
 its for_update_ts, not of the transaction's start

---
 src/engine/txn_engine_helper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 7f0d2fa..ad124af 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1769,7 +1769,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret2 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret2 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret2.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
@@ -1803,7 +1803,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret3 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret3 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret3.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
-- 
2.43.0


From d8c5f667ee8a55a40c2d9ab66c781870a341b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:58 +0000
Subject: [PATCH 33/41] fix: a version kv lease renewal applied after the
 lease's end must not bring the lease back

---
 src/coordinator/kv_control_fsm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 0f93342..3f67015 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -382,7 +382,7 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         }
 
       } else if (version_lease.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
-        auto ret = kv_lease_meta_->Put(version_lease.id(), version_lease.lease());
+        auto ret = kv_lease_meta_->PutIfExists(version_lease.id(), version_lease.lease());
         if (!ret.ok()) {
           DINGO_LOG(FATAL) << "ApplyMetaIncrement version_lease UPDATE, [id=" << version_lease.id()
                            << "] failed, set errcode=" << ret.error_code() << ", error_str=" << ret.error_str();
-- 
2.43.0


From e10751d429e27a949315d179bc98f69763f63d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:28 +0000
Subject: [PATCH 34/41] fix: a version kv range must not lose a key whose
 revision is replaced and compacted meanwhile

---
 src/coordinator/kv_control_kv.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index a34034a..58877e1 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -155,7 +155,8 @@ butil::Status KvControl::DeleteRawKvIndex(const std::string &key) {
 butil::Status KvControl::GetRawKvRev(const pb::coordinator_internal::RevisionInternal &revision,
                                      pb::coordinator_internal::KvRevInternal &kv_rev) {
   auto ret = kv_rev_meta_->Get(RevisionToString(revision), kv_rev);
-  if (!ret.ok()) {
+  // Get returns OK and an empty element if the key is not found
+  if (!ret.ok() || kv_rev.id().empty()) {
     DINGO_LOG(WARNING) << "GetRawKvRev not found, revision:[" << revision.ShortDebugString() << "]";
     return butil::Status(EINVAL, "GetRawKvRev not found");
   }
@@ -252,10 +253,29 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
                      << ", key: " << key << "(" << Helper::StringToHex(key) << ")";
 
     pb::coordinator_internal::KvRevInternal kv_rev;
-    auto ret = GetRawKvRev(kv_index_value.mod_revision(), kv_rev);
+    auto mod_revision = kv_index_value.mod_revision();
+    auto ret = GetRawKvRev(mod_revision, kv_rev);
+    while (!ret.ok()) {
+      DINGO_LOG(WARNING) << "GetRawKvRev failed, revision: " << mod_revision.ShortDebugString()
+                         << ", error: " << ret.error_str();
+
+      // the key may have been modified and the revision compacted after the index is read, follow the latest index
+      pb::coordinator_internal::KvIndexInternal latest_index;
+      if (!GetRawKvIndex(kv_index_value.id(), latest_index).ok() || latest_index.generations_size() == 0) {
+        break;
+      }
+      const auto &generation = latest_index.generations(latest_index.generations_size() - 1);
+      if (!generation.has_create_revision() || generation.revisions_size() == 0 ||
+          (latest_index.mod_revision().main() == mod_revision.main() &&
+           latest_index.mod_revision().sub() == mod_revision.sub())) {
+        break;
+      }
+
+      mod_revision = latest_index.mod_revision();
+      ret = GetRawKvRev(mod_revision, kv_rev);
+    }
     if (!ret.ok()) {
-      DINGO_LOG(ERROR) << "GetRawKvRev failed, revision: " << kv_index_value.mod_revision().ShortDebugString()
-                       << ", error: " << ret.error_str();
+      limit_count--;
       continue;
     }
 
-- 
2.43.0


From 7016024fec4b11f385bfabdbb6a303a563fa44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:05 +0000
Subject: [PATCH 35/41] fix: merge commands must not wait in the apply queue of
 a worker for an apply queued behind them

---
 src/raft/store_state_machine.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index a0cfc36..be500c3 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -107,6 +107,18 @@ int StoreStateMachine::DispatchEvent(dingodb::EventType event_type, std::shared_
   return 0;
 }
 
+// Merge commands wait for other regions' apply, so they must not occupy a worker which may also be picked for the
+// apply they wait for.
+static bool IsMergeCommand(const pb::raft::RaftCmdRequest& raft_cmd) {
+  for (const auto& request : raft_cmd.requests()) {
+    if (request.cmd_type() == pb::raft::CmdType::PREPARE_MERGE ||
+        request.cmd_type() == pb::raft::CmdType::COMMIT_MERGE) {
+      return true;
+    }
+  }
+  return false;
+}
+
 void StoreStateMachine::on_apply(braft::Iterator& iter) {
   BAIDU_SCOPED_LOCK(apply_mutex_);
 
@@ -193,7 +205,7 @@ void StoreStateMachine::on_apply(braft::Iterator& iter) {
       event->term_id = iter.term();
       event->log_id = iter.index();
 
-      if (BAIDU_LIKELY(worker_set_ != nullptr)) {
+      if (BAIDU_LIKELY(worker_set_ != nullptr && !IsMergeCommand(*raft_cmd))) {
         // Run in queue.
         auto cond = std::make_shared<BthreadCond>();
 
-- 
2.43.0


From 752ce8374a6f2bfdfb92e757e471dbbfddcdc030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:05 +0000
Subject: [PATCH 36/41] fix: a split or merge must move the store's valid ts
 past what is applied in the keys taken over

---
 src/handler/raft_apply_handler.cc | 22 ++++++++++++++++++----
 src/raft/store_state_machine.cc   |  7 +++++++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 044a0cb..63c2d5f 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -231,6 +231,15 @@ void SplitHandler::SplitClosure::Run() {
   store_region_meta->UpdateNeedBootstrapDoSnapshot(region, false);
 }
 
+// The keys may have been written by a leader on another store, so the ts cached by this store may be smaller than what
+// is applied already. Leader start is too early when the region has not taken over the keys yet.
+static void SetMinValidTs(int64_t min_valid_ts) {
+  auto ts_provider = Server::GetInstance().GetTsProvider();
+  if (ts_provider != nullptr) {
+    ts_provider->SetMinValidTs(min_valid_ts);
+  }
+}
+
 // Pre create region split
 bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::RegionPtr from_region, int64_t term_id,
                                 int64_t log_id) {
@@ -301,6 +310,7 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   to_region->SetParentId(from_region->Id());
   // Set apply max ts
   to_region->SetRawAppliedMaxTs(from_region->RawAppliedMaxTs());
+  SetMinValidTs(from_region->RawAppliedMaxTs());
 
   // Set txn apply max ts
   to_region->SetTxnAccessMaxTs(from_region->TxnAccessMaxTs());
@@ -944,6 +954,14 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
 
   store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::MERGING);
 
+  // Set apply max ts before the merged range may serve
+  int64_t raw_max_ts = std::max(target_region->RawAppliedMaxTs(), source_region->RawAppliedMaxTs());
+  target_region->SetRawAppliedMaxTs(raw_max_ts);
+  SetMinValidTs(raw_max_ts);
+
+  // The source leader may have served txn reads this store knows nothing about
+  target_region->InvalidateTxnAccessMaxTs();
+
   {
     auto old_target_range = target_region->Range(false);
     // Set target region range and epoch
@@ -974,10 +992,6 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
     store_region_meta->UpdateEpochVersionAndRange(source_region, new_version, new_range, "merge source");
   }
 
-  // Set apply max ts
-  int64_t raw_max_ts = std::max(target_region->RawAppliedMaxTs(), source_region->RawAppliedMaxTs());
-  target_region->SetRawAppliedMaxTs(raw_max_ts);
-
   // Set apply max ts
   int64_t txn_max_ts = std::max(target_region->TxnAccessMaxTs(), source_region->TxnAccessMaxTs());
   target_region->SetTxnAccessMaxTs(txn_max_ts);
diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index be500c3..f40bf85 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -278,6 +278,13 @@ int32_t StoreStateMachine::CatchUpApplyLog(const std::vector<pb::raft::LogEntry>
           entry.index(), applied_index_,
           raft_cmd->requests().empty() ? "" : pb::raft::CmdType_Name(raft_cmd->requests().at(0).cmd_type()));
 
+      // update apply max ts
+      for (const auto& request : raft_cmd->requests()) {
+        if (BAIDU_LIKELY(request.ts() > 0)) {
+          region_->SetRawAppliedMaxTs(request.ts());
+        }
+      }
+
       auto event = std::make_shared<SmApplyEvent>();
       event->region = region_;
       event->engine = raw_engine_;
-- 
2.43.0


From 8951503187fb7cef073c71ea0119d5519131644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:05 +0000
Subject: [PATCH 37/41] fix: finish or redo a split which a crash interrupted

---
 src/engine/raft_store_engine.cc   | 45 +++++++++++++++++++++++++++++++
 src/handler/raft_apply_handler.cc | 14 ++++++++--
 2 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/engine/raft_store_engine.cc b/src/engine/raft_store_engine.cc
index 9a6dc73..08e93a6 100644
--- a/src/engine/raft_store_engine.cc
+++ b/src/engine/raft_store_engine.cc
@@ -81,6 +81,43 @@ static bool CleanRaftDirectory(int64_t region_id, const std::string& raft_log_pa
   return Helper::RemoveAllFileOrDirectory(region_raft_log_path);
 }
 
+// A crash may have interrupted the apply of a split. When the parent has already given up the range of its child the
+// split request is not applied again, so finish here what is left. Otherwise the child waits for the parent to apply
+// the split request again.
+static void RecoverInterruptedSplit(std::shared_ptr<StoreRegionMeta> store_region_meta, store::RegionPtr region) {
+  bool is_splitting = region->State() == pb::common::StoreRegionState::SPLITTING;
+  if (!is_splitting && region->State() != pb::common::StoreRegionState::STANDBY) {
+    return;
+  }
+
+  auto range = region->Range(false);
+  if (range.start_key() >= range.end_key()) {
+    // child which is not split yet
+    return;
+  }
+
+  bool is_taken_over = true;
+  auto parent_region = region->ParentId() > 0 ? store_region_meta->GetRegion(region->ParentId()) : nullptr;
+  if (parent_region != nullptr) {
+    auto parent_range = parent_region->Range(false);
+    is_taken_over = parent_range.start_key() >= range.end_key() || parent_range.end_key() <= range.start_key();
+  }
+
+  DINGO_LOG(INFO) << fmt::format("[raft.engine][region({})] recover interrupted split, state({}) taken over({}).",
+                                 region->Id(), pb::common::StoreRegionState_Name(region->State()), is_taken_over);
+
+  if (!is_taken_over) {
+    if (is_splitting) {
+      region->SetState(pb::common::StoreRegionState::STANDBY);
+      store_region_meta->UpdateRegion(region);
+    }
+    return;
+  }
+
+  store_region_meta->UpdateState(region, pb::common::StoreRegionState::NORMAL);
+  store_region_meta->UpdateNeedBootstrapDoSnapshot(region, true);
+}
+
 // Recover raft node from region meta data.
 // Invoke when server starting.
 bool RaftStoreEngine::Recover() {
@@ -92,6 +129,14 @@ bool RaftStoreEngine::Recover() {
   // shuffle regions for balance leader on restart
   Helper::ShuffleVector(regions);
 
+  for (auto& region : regions) {
+    RecoverInterruptedSplit(store_region_meta, region);
+    // Nothing clears the flag which a split or merge before the restart has set, applying it again sets it again.
+    if (region->Type() == pb::common::STORE_REGION && region->TemporaryDisableChange()) {
+      store_region_meta->UpdateTemporaryDisableChange(region, false);
+    }
+  }
+
   int count = 0;
   auto ctx = std::make_shared<Context>();
   auto listener_factory = std::make_shared<StoreSmEventListenerFactory>();
diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 63c2d5f..4e345f1 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -324,7 +324,11 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   from_region->UpdateLastSplitTimestamp();
 
   // set child region version/range/state
-  store_region_meta->UpdateEpochVersionAndRange(to_region, to_region->Epoch().version() + 1, to_range, "split child");
+  // the child already has its range when a crash interrupted an earlier apply of this request
+  if (to_region->Range(false).start_key() != to_range.start_key() ||
+      to_region->Range(false).end_key() != to_range.end_key()) {
+    store_region_meta->UpdateEpochVersionAndRange(to_region, to_region->Epoch().version() + 1, to_range, "split child");
+  }
 
   // set parent region version/range/state
   store_region_meta->UpdateEpochVersionAndRange(from_region, from_region->Epoch().version() + 1, from_range,
@@ -566,7 +570,13 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   child_range.set_end_key(request.split_key());
   *(definition.mutable_range()) = child_range;
 
-  auto child_region = CreateNewRegion(raft_store_engine, parent_node, definition, parent_region->Id());
+  SetMinValidTs(parent_region->RawAppliedMaxTs());
+  // the child already exists when a crash interrupted an earlier apply of this request
+  auto child_region = store_region_meta->GetRegion(child_region_id);
+  if (child_region == nullptr || child_region->State() != pb::common::StoreRegionState::STANDBY ||
+      child_region->ParentId() != parent_region_id) {
+    child_region = CreateNewRegion(raft_store_engine, parent_node, definition, parent_region->Id());
+  }
   if (child_region == nullptr) {
     DINGO_LOG(FATAL) << fmt::format("[split.spliting][region({}->{})] create child region failed.", parent_region_id,
                                     child_region_id);
-- 
2.43.0


From b4b6f3b9f7ff166d4bcd6279a6e0c82ef1d3c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:06 +0000
Subject: [PATCH 38/41] fix: sync a created region before it is reported, a
 split counts on it

---
 src/store/region_controller.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/store/region_controller.cc b/src/store/region_controller.cc
index 3b8fb64..f51a720 100644
--- a/src/store/region_controller.cc
+++ b/src/store/region_controller.cc
@@ -184,6 +184,15 @@ butil::Status CreateRegionTask::CreateRegion(const pb::common::RegionDefinition&
                                    region->Id());
   }
 
+  // The coordinator counts on the region once it is reported, so it must survive a power failure.
+  auto meta_raw_engine = Server::GetInstance().GetRawEngine(pb::common::RAW_ENG_ROCKSDB);
+  if (meta_raw_engine != nullptr) {
+    auto sync_status = meta_raw_engine->SyncWal();
+    if (!sync_status.ok()) {
+      return sync_status;
+    }
+  }
+
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
   // index region
   if (GetRole() == pb::common::INDEX) {
-- 
2.43.0


From da110049a6b521b0bc52482397a4242932c09b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:06 +0000
Subject: [PATCH 39/41] fix: a merge must replay all logs which a restarted
 source replica lacks

---
 src/handler/raft_apply_handler.cc | 11 +++++++++--
 src/raft/store_state_machine.cc   |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 4e345f1..e8061e5 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -955,8 +955,15 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
       return 0;
     }
 
-    if (!request.entries().empty()) {
-      actual_apply_log_count = state_machine->CatchUpApplyLog(Helper::PbRepeatedToVector(request.entries()));
+    // A restarted replica may have to replay more than the entries the command carries, its own log has the ones before.
+    auto entries = GetRaftLogEntries(
+        source_region->Id(), state_machine->GetAppliedIndex() + 1,
+        request.entries().empty() ? request.prepare_merge_log_id() : request.entries().at(0).index());
+    for (const auto &entry : request.entries()) {
+      entries.push_back(entry);
+    }
+    if (!entries.empty()) {
+      actual_apply_log_count = state_machine->CatchUpApplyLog(entries);
     }
   }
 
diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index f40bf85..9cffdea 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -293,7 +293,10 @@ int32_t StoreStateMachine::CatchUpApplyLog(const std::vector<pb::raft::LogEntry>
       event->term_id = entry.term();
       event->log_id = entry.index();
 
-      DispatchEvent(EventType::kSmApply, event);
+      // A log of an older version was abandoned by the other replicas.
+      if (raft_cmd->header().epoch().version() == region_->Epoch().version()) {
+        DispatchEvent(EventType::kSmApply, event);
+      }
 
       applied_term_ = entry.term();
       applied_index_ = entry.index();
-- 
2.43.0


From 08ec9a3703bac1e36051a94a09b7a3dac8f7af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:06 +0000
Subject: [PATCH 40/41] fix: a merge interrupted by a restart after its
 preparation must be prepared again

---
 src/raft/store_state_machine.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index 9cffdea..5164236 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -119,6 +119,13 @@ static bool IsMergeCommand(const pb::raft::RaftCmdRequest& raft_cmd) {
   return false;
 }
 
+// A restart interrupted the merge which this command prepares, so it must be prepared again.
+static bool IsInterruptedPrepareMerge(store::RegionPtr region, const pb::raft::RaftCmdRequest& raft_cmd) {
+  return region->State() == pb::common::StoreRegionState::MERGING && !raft_cmd.requests().empty() &&
+         raft_cmd.requests().at(0).cmd_type() == pb::raft::CmdType::PREPARE_MERGE &&
+         raft_cmd.requests().at(0).prepare_merge().job_id() == region->LastChangeJobId();
+}
+
 void StoreStateMachine::on_apply(braft::Iterator& iter) {
   BAIDU_SCOPED_LOCK(apply_mutex_);
 
@@ -163,9 +170,14 @@ void StoreStateMachine::on_apply(braft::Iterator& iter) {
     bool need_apply = true;
     // Check region state
     auto region_state = region_->State();
+    bool is_interrupted_merge = BAIDU_UNLIKELY(IsInterruptedPrepareMerge(region_, *raft_cmd));
+    if (is_interrupted_merge) {
+      // The region does not serve while it is MERGING, the handler moves the version on again.
+      region_->SetEpochVersionAndRange(raft_cmd->header().epoch().version(), region_->Range(false));
+    }
     if (BAIDU_UNLIKELY(region_state == pb::common::StoreRegionState::DELETING ||
                        region_state == pb::common::StoreRegionState::DELETED ||
-                       region_state == pb::common::StoreRegionState::MERGING ||
+                       (region_state == pb::common::StoreRegionState::MERGING && !is_interrupted_merge) ||
                        region_state == pb::common::StoreRegionState::ORPHAN ||
                        region_state == pb::common::StoreRegionState::TOMBSTONE)) {
       std::string s = fmt::format("Region({}) is {} state, abandon apply log", region_->Id(),
-- 
2.43.0


From feba46d8b3e72c517a8322c8c858df0c760efec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:11 +0000
Subject: [PATCH 41/41] fix: the dead list of a timestamp provider must not be
 appended to after its tail was deleted

---
 src/mvcc/ts_provider.cc | 7 +++++++
 src/mvcc/ts_provider.h  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/mvcc/ts_provider.cc b/src/mvcc/ts_provider.cc
index 88422d7..74b8cba 100644
--- a/src/mvcc/ts_provider.cc
+++ b/src/mvcc/ts_provider.cc
@@ -17,6 +17,7 @@
 #include <atomic>
 #include <cstdint>
 #include <memory>
+#include <mutex>
 
 #include "common/helper.h"
 #include "common/logging.h"
@@ -159,6 +160,8 @@ void BatchTsList::PushDead(BatchTs* batch_ts) {
   batch_ts->next.store(nullptr);
   batch_ts->SetDeadTime(Helper::TimestampMs());
 
+  std::lock_guard<bthread::Mutex> guard(dead_mutex_);
+
   BatchTs* tail = nullptr;
   BatchTs* tail_next = nullptr;
 
@@ -185,6 +188,8 @@ void BatchTsList::PushDead(BatchTs* batch_ts) {
 }
 
 void BatchTsList::CleanDead() {
+  std::lock_guard<bthread::Mutex> guard(dead_mutex_);
+
   BatchTs* head = nullptr;
   BatchTs* tail = nullptr;
   BatchTs* head_next = nullptr;
@@ -259,6 +264,8 @@ uint32_t BatchTsList::ActualCount() {
 }
 
 uint32_t BatchTsList::ActualDeadCount() {
+  std::lock_guard<bthread::Mutex> guard(dead_mutex_);
+
   uint32_t count = 0;
   BatchTs* node = dead_head_.load();
   while (node) {
diff --git a/src/mvcc/ts_provider.h b/src/mvcc/ts_provider.h
index 4858048..e45e7d4 100644
--- a/src/mvcc/ts_provider.h
+++ b/src/mvcc/ts_provider.h
@@ -21,6 +21,7 @@
 #include <string>
 #include <vector>
 
+#include "bthread/mutex.h"
 #include "common/runnable.h"
 #include "common/synchronization.h"
 
@@ -140,6 +141,8 @@ class BatchTsList {
   // temporary save dead BatchTs, for delay delete.
   std::atomic<BatchTs*> dead_head_{nullptr};
   std::atomic<BatchTs*> dead_tail_{nullptr};
+  // a dead BatchTs must not be deleted while it is the tail which another thread appends to.
+  mutable bthread::Mutex dead_mutex_;
 
   // tso physical time
   std::atomic<int64_t> last_physical_{0};
-- 
2.43.0


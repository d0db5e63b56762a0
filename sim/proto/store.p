syntax = "proto3"; package dingodb.pb.store; import "proto/common.proto"; import "proto/error.proto"; import "proto/coordinator.proto"; import "proto/stream.proto"; option cc_generic_services = true;
enum IsolationLevel { InvalidIsolationLevel, SnapshotIsolation, ReadCommitted; }
message Context { int64 region_id; common.RegionEpoch region_epoch; IsolationLevel isolation_level; repeated int64 resolved_locks; }
message TxnInfo_ { int64 x; }
enum Op { None, Put, Delete, PutIfAbsent, Lock, Rollback, CheckNotExists; }
message Mutation { Op op; bytes key, value; common.VectorWithId vector; common.DocumentWithId document;  }
enum Action { NoAction, TTLExpireRollback, LockNotExistRollback, MinCommitTSPushed, LockNotExistDoNothing; }
message LockInfo { bytes primary_lock; int64 lock_ts; bytes key; int64 for_update_ts, lock_ttl; Op lock_type; int64 txn_size; bytes extra_data; bool use_async_commit; int64 min_commit_ts; repeated bytes secondaries; bytes short_value;  }
message WriteInfo { int64 start_ts; Op op; bytes short_value; }
message WriteConflict { enum Reason { Optimistic, PessimisticRetry, SelfRolledBack, RcCheckTs, LazyUniquenessCheck; } int64 start_ts, conflict_ts; bytes key, primary_key; int64 conflict_commit_ts; Reason reason; }
message AlreadyExist { bytes key; } message TxnNotFound { bytes key; int64 start_ts; bytes primary_key; }
message TxnResultInfo { CommitTsExpired commit_ts_expired; LockInfo locked; WriteConflict write_conflict; TxnNotFound txn_not_found; PrimaryMismatch primary_mismatch; AlreadyExist_ z; }
message AlreadyExist_ { int64 x; } message PrimaryMismatch { LockInfo lock_info; }
message TxnDataKey { bytes key; int64 start_ts; } message TxnDataValue { bytes value; }
message TxnLockKey { bytes key; } message TxnLockValue { LockInfo lock_info; }
message TxnWriteKey { bytes key; int64 commit_ts; } message TxnWriteValue { WriteInfo write_info; }
enum AggregationType { AGGREGATION_NONE, SUM, COUNT, COUNTWITHNULL, MAX, MIN, SUM0; }
message AggregationOperator { AggregationType oper; int32 index_of_column; }
message Coprocessor { int32 schema_version; common.SchemaWrapper original_schema, result_schema; repeated int32 selection_columns; bytes expression; repeated int32 group_by_columns; repeated AggregationOperator aggregation_operators; int64 limit; int64 codec_version; }
message BackupDataRequest { string backup_ts; int64 backup_tso; int64 compression_level; common.CompressionType compression_type; Context context; bytes end_key; bool need_leader; common.RegionType region_type; common.RequestInfo request_info; bytes start_key; common.StorageBackend storage_backend; string storage_path; }
message BackupDataResponse { error.Error error; common.BackupDataFileValueSstMetaGroup sst_metas; }
message BackupMetaRequest { string backup_ts; int64 backup_tso; int64 compression_level; common.CompressionType compression_type; Context context; bytes end_key; bool need_leader; common.RegionType region_type; common.RequestInfo request_info; bytes start_key; common.StorageBackend storage_backend; string storage_path; }
message BackupMetaResponse { error.Error error; common.BackupDataFileValueSstMetaGroup sst_metas; }
message ControlConfigRequest { Context context; repeated common.ControlConfigVariable control_config_variable; common.RequestInfo request_info; }
message ControlConfigResponse { repeated common.ControlConfigVariable control_config_variable; error.Error error; }
message CoprocessorV1 { }
message HelloRequest { Context context; bool get_region_metrics; bool is_just_version_info; common.RequestInfo request_info; }
message HelloResponse { error.Error error; int64 region_count; int64 region_leader_count; repeated common.RegionMetrics region_metrics; common.StoreOwnMetrics store_own_metrics; common.VersionInfo version_info; }
message KvBatchCompareAndSetRequest { Context context; repeated bytes expect_values; bool is_atomic; repeated common.KeyValue kvs; common.RequestInfo request_info; }
message KvBatchCompareAndSetResponse { error.Error error; repeated bool key_states; int64 ts; }
message KvBatchDeleteRequest { Context context; repeated bytes keys; common.RequestInfo request_info; }
message KvBatchDeleteResponse { error.Error error; repeated bool key_states; }
message KvBatchGetRequest { Context context; repeated bytes keys; common.RequestInfo request_info; int64 ts; }
message KvBatchGetResponse { error.Error error; repeated common.KeyValue kvs; }
message KvBatchPutIfAbsentRequest { Context context; bool is_atomic; repeated common.KeyValue kvs; common.RequestInfo request_info; int64 ttl; }
message KvBatchPutIfAbsentResponse { error.Error error; repeated bool key_states; int64 ts; }
message KvBatchPutRequest { Context context; repeated common.KeyValue kvs; common.RequestInfo request_info; int64 ttl; }
message KvBatchPutResponse { error.Error error; int64 ts; }
message KvCompareAndSetRequest { Context context; bytes expect_value; common.KeyValue kv; common.RequestInfo request_info; int64 ttl; }
message KvCompareAndSetResponse { error.Error error; bool key_state; int64 ts; }
message KvDeleteRangeRequest { Context context; common.RangeWithOptions range; common.RequestInfo request_info; }
message KvDeleteRangeResponse { error.Error error; }
message KvGetRequest { Context context; bytes key; common.RequestInfo request_info; int64 ts; }
message KvGetResponse { error.Error error; bytes value; }
message KvPutIfAbsentRequest { Context context; common.KeyValue kv; common.RequestInfo request_info; int64 ttl; }
message KvPutIfAbsentResponse { error.Error error; bool key_state; int64 ts; }
message KvPutRequest { Context context; common.KeyValue kv; common.RequestInfo request_info; int64 ttl; }
message KvPutResponse { error.Error error; int64 ts; }
message KvScanBeginRequest { Context context; Coprocessor coprocessor; bool disable_auto_release; bool disable_coprocessor; bool key_only; int64 max_fetch_cnt; common.RangeWithOptions range; common.RequestInfo request_info; int64 ts; }
message KvScanBeginRequestV2 { Context context; common.CoprocessorV2 coprocessor; bool disable_auto_release; bool key_only; int64 max_fetch_cnt; common.RangeWithOptions range; common.RequestInfo request_info; int64 scan_id; int64 ts; }
message KvScanBeginResponse { error.Error error; repeated common.KeyValue kvs; bytes scan_id; }
message KvScanBeginResponseV2 { error.Error error; repeated common.KeyValue kvs; int64 scan_id; }
message KvScanContinueRequest { Context context; int64 max_fetch_cnt; common.RequestInfo request_info; bytes scan_id; }
message KvScanContinueRequestV2 { Context context; int64 max_fetch_cnt; common.RequestInfo request_info; int64 scan_id; }
message KvScanContinueResponse { error.Error error; repeated common.KeyValue kvs; }
message KvScanContinueResponseV2 { error.Error error; bool has_more; repeated common.KeyValue kvs; }
message KvScanReleaseRequest { Context context; common.RequestInfo request_info; bytes scan_id; }
message KvScanReleaseRequestV2 { Context context; common.RequestInfo request_info; int64 scan_id; }
message KvScanReleaseResponse { error.Error error; }
message KvScanReleaseResponseV2 { error.Error error; }
message RestoreDataRequest { string backup_ts; int64 backup_tso; Context context; bytes end_key; bool need_leader; common.RequestInfo request_info; common.BackupDataFileValueSstMetaGroup sst_metas; bytes start_key; common.StorageBackend storage_backend; }
message RestoreDataResponse { error.Error error; }
message RestoreMetaRequest { string backup_ts; int64 backup_tso; Context context; bytes end_key; bool need_leader; common.RequestInfo request_info; common.BackupDataFileValueSstMetaGroup sst_metas; bytes start_key; common.StorageBackend storage_backend; }
message RestoreMetaResponse { error.Error error; }
message TxnBatchGetRequest { Context context; repeated bytes keys; common.RequestInfo request_info; int64 start_ts; }
message TxnBatchGetResponse { repeated common.DocumentWithId documents; error.Error error; repeated common.KeyValue kvs; TxnResultInfo txn_result; repeated common.VectorWithId vectors; }
message TxnBatchRollbackRequest { Context context; repeated bytes keys; common.RequestInfo request_info; int64 start_ts; }
message TxnBatchRollbackResponse { error.Error error; TxnResultInfo txn_result; }
message TxnCheckSecondaryLocksRequest { Context context; repeated bytes keys; common.RequestInfo request_info; int64 start_ts; }
message TxnCheckSecondaryLocksResponse { int64 commit_ts; error.Error error; repeated LockInfo locks; TxnResultInfo txn_result; }
message TxnCheckTxnStatusRequest { int64 caller_start_ts; Context context; int64 current_ts; bool force_sync_commit; int64 lock_ts; bytes primary_key; common.RequestInfo request_info; bool rollback_if_not_exist; }
message TxnCheckTxnStatusResponse { Action action; int64 commit_ts; error.Error error; int64 lock_ttl; TxnResultInfo txn_result; }
message TxnCommitRequest { int64 commit_ts; Context context; repeated bytes keys; common.RequestInfo request_info; int64 start_ts; }
message TxnCommitResponse { error.Error error; TxnResultInfo txn_result; }
message TxnDeleteRangeRequest { Context context; bytes end_key; common.RequestInfo request_info; bytes start_key; }
message TxnDeleteRangeResponse { error.Error error; }
message TxnDumpRequest { Context context; bytes end_key; int64 end_ts; common.RequestInfo request_info; bytes start_key; int64 start_ts; }
message TxnDumpResponse { repeated TxnDataKey data_keys; repeated TxnDataValue data_values; error.Error error; repeated TxnLockKey lock_keys; repeated TxnLockValue lock_values; TxnResultInfo txn_result; repeated TxnWriteKey write_keys; repeated TxnWriteValue write_values; }
message TxnGcRequest { Context context; common.RequestInfo request_info; int64 safe_point_ts; }
message TxnGcResponse { error.Error error; }
message TxnGetRequest { Context context; bytes key; common.RequestInfo request_info; int64 start_ts; }
message TxnGetResponse { common.Document document; error.Error error; TxnResultInfo txn_result; bytes value; common.Vector vector; }
message TxnHeartBeatRequest { int64 advise_lock_ttl; Context context; bytes primary_lock; common.RequestInfo request_info; int64 start_ts; }
message TxnHeartBeatResponse { error.Error error; int64 lock_ttl; TxnResultInfo txn_result; }
message TxnPessimisticLockRequest { Context context; int64 for_update_ts; int64 lock_ttl; repeated Mutation mutations; bytes primary_lock; common.RequestInfo request_info; bool return_values; int64 start_ts; }
message TxnPessimisticLockResponse { repeated common.DocumentWithId documents; error.Error error; repeated common.KeyValue kvs; repeated TxnResultInfo txn_result; repeated common.VectorWithId vector; }
message TxnPessimisticRollbackRequest { Context context; int64 for_update_ts; repeated bytes keys; common.RequestInfo request_info; int64 start_ts; }
message TxnPessimisticRollbackResponse { error.Error error; repeated TxnResultInfo txn_result; }
message TxnPrewriteRequest { Context context; repeated TxnPrewriteRequest.ForUpdateTsCheck for_update_ts_checks; repeated TxnPrewriteRequest.LockExtraData lock_extra_datas; int64 lock_ttl; int64 max_commit_ts; int64 min_commit_ts; repeated Mutation mutations; repeated TxnPrewriteRequest.PessimisticCheck pessimistic_checks; bytes primary_lock; common.RequestInfo request_info; repeated bytes secondaries; int64 start_ts; bool try_one_pc; int64 txn_size; bool use_async_commit; enum PessimisticCheck { SKIP_PESSIMISTIC_CHECK, DO_PESSIMISTIC_CHECK, DO_CONSTRAINT_CHECK; } message ForUpdateTsCheck { int32 index; int64 expected_for_update_ts; } message LockExtraData { int32 index; bytes extra_data; } }
message TxnPrewriteResponse { error.Error error; repeated AlreadyExist keys_already_exist; int64 min_commit_ts; int64 one_pc_commit_ts; repeated TxnResultInfo txn_result; }
message TxnResolveLockRequest { int64 commit_ts; Context context; repeated bytes keys; common.RequestInfo request_info; int64 start_ts; repeated TxnInfo txn_infos; }
message TxnResolveLockResponse { error.Error error; TxnResultInfo txn_result; }
message TxnScanLockRequest { Context context; bytes end_key; int64 limit; int64 max_ts; common.RequestInfo request_info; bytes start_key; stream.StreamRequestMeta stream_meta; }
message TxnScanLockResponse { bytes end_key; error.Error error; bool has_more; repeated LockInfo locks; stream.StreamResponseMeta stream_meta; TxnResultInfo txn_result; }
message TxnScanRequest { Context context; common.CoprocessorV2 coprocessor; bool is_reverse; bool key_only; int64 limit; common.RangeWithOptions range; common.RequestInfo request_info; int64 start_ts; stream.StreamRequestMeta stream_meta; }
message TxnScanResponse { repeated common.DocumentWithId documents; bytes end_key; error.Error error; bool has_more; repeated common.KeyValue kvs; stream.StreamResponseMeta stream_meta; TxnResultInfo txn_result; repeated common.VectorWithId vectors; }
message CommitTsExpired { int64 start_ts, attempted_commit_ts; bytes key; int64 min_commit_ts; } message TxnInfo { int64 start_ts, commit_ts; }

service StoreService {
  rpc Hello(HelloRequest) returns (HelloResponse);
  rpc GetMemoryInfo(HelloRequest) returns (HelloResponse);
  rpc KvGet(KvGetRequest) returns (KvGetResponse);
  rpc KvBatchGet(KvBatchGetRequest) returns (KvBatchGetResponse);
  rpc KvScanBegin(KvScanBeginRequest) returns (KvScanBeginResponse);
  rpc KvScanContinue(KvScanContinueRequest) returns (KvScanContinueResponse);
  rpc KvScanRelease(KvScanReleaseRequest) returns (KvScanReleaseResponse);
  rpc KvScanBeginV2(KvScanBeginRequestV2) returns (KvScanBeginResponseV2);
  rpc KvScanContinueV2(KvScanContinueRequestV2) returns (KvScanContinueResponseV2);
  rpc KvScanReleaseV2(KvScanReleaseRequestV2) returns (KvScanReleaseResponseV2);
  rpc KvPut(KvPutRequest) returns (KvPutResponse);
  rpc KvBatchPut(KvBatchPutRequest) returns (KvBatchPutResponse);
  rpc KvBatchDelete(KvBatchDeleteRequest) returns (KvBatchDeleteResponse);
  rpc KvDeleteRange(KvDeleteRangeRequest) returns (KvDeleteRangeResponse);
  rpc KvPutIfAbsent(KvPutIfAbsentRequest) returns (KvPutIfAbsentResponse);
  rpc KvBatchPutIfAbsent(KvBatchPutIfAbsentRequest) returns (KvBatchPutIfAbsentResponse);
  rpc KvCompareAndSet(KvCompareAndSetRequest) returns (KvCompareAndSetResponse);
  rpc KvBatchCompareAndSet(KvBatchCompareAndSetRequest) returns (KvBatchCompareAndSetResponse);
  rpc TxnGet(TxnGetRequest) returns (TxnGetResponse);
  rpc TxnScan(TxnScanRequest) returns (TxnScanResponse);
  rpc TxnBatchGet(TxnBatchGetRequest) returns (TxnBatchGetResponse);
  rpc TxnScanLock(TxnScanLockRequest) returns (TxnScanLockResponse);
  rpc TxnDump(TxnDumpRequest) returns (TxnDumpResponse);
  rpc TxnPessimisticLock(TxnPessimisticLockRequest) returns (TxnPessimisticLockResponse);
  rpc TxnPessimisticRollback(TxnPessimisticRollbackRequest) returns (TxnPessimisticRollbackResponse);
  rpc TxnPrewrite(TxnPrewriteRequest) returns (TxnPrewriteResponse);
  rpc TxnCommit(TxnCommitRequest) returns (TxnCommitResponse);
  rpc TxnCheckTxnStatus(TxnCheckTxnStatusRequest) returns (TxnCheckTxnStatusResponse);
  rpc TxnCheckSecondaryLocks(TxnCheckSecondaryLocksRequest) returns (TxnCheckSecondaryLocksResponse);
  rpc TxnResolveLock(TxnResolveLockRequest) returns (TxnResolveLockResponse);
  rpc TxnBatchRollback(TxnBatchRollbackRequest) returns (TxnBatchRollbackResponse);
  rpc TxnHeartBeat(TxnHeartBeatRequest) returns (TxnHeartBeatResponse);
  rpc TxnGc(TxnGcRequest) returns (TxnGcResponse);
  rpc TxnDeleteRange(TxnDeleteRangeRequest) returns (TxnDeleteRangeResponse);
  rpc BackupData(BackupDataRequest) returns (BackupDataResponse);
  rpc BackupMeta(BackupMetaRequest) returns (BackupMetaResponse);
  rpc ControlConfig(ControlConfigRequest) returns (ControlConfigResponse);
  rpc RestoreMeta(RestoreMetaRequest) returns (RestoreMetaResponse);
  rpc RestoreData(RestoreDataRequest) returns (RestoreDataResponse);
}

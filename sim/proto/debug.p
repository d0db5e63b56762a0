syntax = "proto3"; package dingodb.pb.debug; import "proto/common.proto"; import "proto/error.proto"; import "proto/version.proto"; import "proto/coordinator_internal.proto"; import "proto/store.proto"; option cc_generic_services = true;
enum DebugType { NONE, STORE_REGION_META_STAT, STORE_REGION_META_DETAILS, STORE_REGION_CONTROL_COMMAND, STORE_RAFT_META, STORE_REGION_EXECUTOR, STORE_REGION_METRICS, STORE_FILE_READER, INDEX_VECTOR_INDEX_METRICS, TS_PROVIDER_METRICS, STORE_METRICS, STORE_REGION_CHANGE_RECORD, STORE_REGION_ACTUAL_METRICS, DOCUMENT_INDEX_METRICS, RAFT_LOG_META, GC_METRICS; }
message AddRegionRequest { }
message AddRegionResponse { }
message AdjustThreadPoolSizeRequest { }
message AdjustThreadPoolSizeResponse { }
message BindCoreRequest { }
message BindCoreResponse { }
message ChangeRegionRequest { }
message ChangeRegionResponse { }
message CompactRequest { }
message CompactResponse { }
message DebugRequest { }
message DebugResponse { message TxnGcHistoryItem { int64 start_time_ms, end_time_ms, iter_count, delete_count, safe_point_ts, region_id; } message GcRegionHistory { int64 region_id; TxnGcHistoryItem last_history, last_delete_history; } message GCMetrics { int64 first_start_time_ms, run_count, last_end_time_ms, total_iter_count, total_delete_count; repeated TxnGcHistoryItem history; repeated GcRegionHistory region_histories; TxnGcHistoryItem last_with_delete_history; } }
message DestroyRegionRequest { }
message DestroyRegionResponse { }
message DumpMemoryLockRequest { }
message DumpMemoryLockResponse { }
message DumpRegionRequest { }
message DumpRegionResponse { }
message GetMemoryStatsRequest { }
message GetMemoryStatsResponse { }
message MergeRegionRequest { }
message MergeRegionResponse { }
message ModifyRegionMetaRequest { }
message ModifyRegionMetaResponse { }
message ReleaseFreeMemoryRequest { }
message ReleaseFreeMemoryResponse { }
message ShowAffinityRequest { }
message ShowAffinityResponse { }
message SnapshotRequest { }
message SnapshotResponse { }
message SnapshotVectorIndexRequest { }
message SnapshotVectorIndexResponse { }
message TraceWorkQueueRequest { }
message TraceWorkQueueResponse { }
message TransferLeaderRequest { }
message TransferLeaderResponse { }
message TriggerRebuildVectorIndexRequest { }
message TriggerRebuildVectorIndexResponse { }
message TriggerSaveVectorIndexRequest { }
message TriggerSaveVectorIndexResponse { }
message TriggerVectorIndexSnapshotRequest { }
message TriggerVectorIndexSnapshotResponse { }
message UnbindCoreRequest { }
message UnbindCoreResponse { }
service DebugService {
  rpc AddRegion(AddRegionRequest) returns (AddRegionResponse);
  rpc ChangeRegion(ChangeRegionRequest) returns (ChangeRegionResponse);
  rpc MergeRegion(MergeRegionRequest) returns (MergeRegionResponse);
  rpc DestroyRegion(DestroyRegionRequest) returns (DestroyRegionResponse);
  rpc Snapshot(SnapshotRequest) returns (SnapshotResponse);
  rpc TransferLeader(TransferLeaderRequest) returns (TransferLeaderResponse);
  rpc ModifyRegionMeta(ModifyRegionMetaRequest) returns (ModifyRegionMetaResponse);
  rpc SnapshotVectorIndex(SnapshotVectorIndexRequest) returns (SnapshotVectorIndexResponse);
  rpc TriggerVectorIndexSnapshot(TriggerVectorIndexSnapshotRequest) returns (TriggerVectorIndexSnapshotResponse);
  rpc TriggerRebuildVectorIndex(TriggerRebuildVectorIndexRequest) returns (TriggerRebuildVectorIndexResponse);
  rpc TriggerSaveVectorIndex(TriggerSaveVectorIndexRequest) returns (TriggerSaveVectorIndexResponse);
  rpc Compact(CompactRequest) returns (CompactResponse);
  rpc Debug(DebugRequest) returns (DebugResponse);
  rpc GetMemoryStats(GetMemoryStatsRequest) returns (GetMemoryStatsResponse);
  rpc ReleaseFreeMemory(ReleaseFreeMemoryRequest) returns (ReleaseFreeMemoryResponse);
  rpc TraceWorkQueue(TraceWorkQueueRequest) returns (TraceWorkQueueResponse);
  rpc AdjustThreadPoolSize(AdjustThreadPoolSizeRequest) returns (AdjustThreadPoolSizeResponse);
  rpc BindCore(BindCoreRequest) returns (BindCoreResponse);
  rpc UnbindCore(UnbindCoreRequest) returns (UnbindCoreResponse);
  rpc ShowAffinity(ShowAffinityRequest) returns (ShowAffinityResponse);
  rpc DumpRegion(DumpRegionRequest) returns (DumpRegionResponse);
  rpc DumpRegionMemoryLock(DumpMemoryLockRequest) returns (DumpMemoryLockResponse);
}

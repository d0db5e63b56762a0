syntax = "proto3"; package dingodb.pb.node; import "proto/common.proto"; import "proto/error.proto"; import "proto/raft.proto"; import "proto/store_internal.proto"; import "proto/coordinator.proto"; import "proto/store.proto"; option cc_generic_services = true;
enum LogLevel { DEBUG, INFO, WARNING, ERROR, FATAL; }
message ChangeLogLevelRequest { LogDetail log_detail; LogLevel log_level; common.RequestInfo request_info; }
message ChangeLogLevelResponse { error.Error error; }
message CheckVectorIndexRequest { int64 job_id; bool need_hold_if_absent; common.RequestInfo request_info; int64 vector_index_id; }
message CheckVectorIndexResponse { error.Error error; bool is_exist; int64 last_build_epoch_version; }
message CommitMergeRequest { repeated raft.LogEntry entries; int64 job_id; int64 prepare_merge_log_id; common.RequestInfo request_info; common.RegionEpoch source_region_epoch; int64 source_region_id; common.Range source_region_range; common.RegionEpoch target_region_epoch; int64 target_region_id; }
message CommitMergeResponse { error.Error error; }
message DeleteFailPointRequest { repeated string names; common.RequestInfo request_info; }
message DeleteFailPointResponse { error.Error error; }
message GetFailPointRequest { repeated string names; common.RequestInfo request_info; }
message GetFailPointResponse { error.Error error; repeated FailPoint failpoints; }
message GetLogLevelRequest { common.RequestInfo request_info; }
message GetLogLevelResponse { error.Error error; LogDetail log_detail; LogLevel log_level; }
message GetMemoryStatsRequest { common.RequestInfo request_info; }
message GetMemoryStatsResponse { error.Error error; }
message GetNodeInfoRequest { int64 cluster_id; common.RequestInfo request_info; }
message GetNodeInfoResponse { error.Error error; NodeInfo node_info; }
message GetRaftStatusRequest { repeated int64 region_ids; common.RequestInfo request_info; }
message GetRaftStatusResponse { repeated RaftStatusEntry entries; error.Error error; }
message GetRegionInfoRequest { repeated int64 region_ids; common.RequestInfo request_info; }
message GetRegionInfoResponse { error.Error error; repeated store_internal.Region regions; }
message GetVectorIndexSnapshotRequest { common.RequestInfo request_info; int64 vector_index_id; }
message GetVectorIndexSnapshotResponse { error.Error error; }
message InstallVectorIndexSnapshotRequest { VectorIndexSnapshotMeta meta; common.RequestInfo request_info; string uri; }
message InstallVectorIndexSnapshotResponse { error.Error error; }
message LogDetail { int64 log_buf_secs; int64 max_log_size; bool stop_logging_if_full_disk; int64 verbose; }
message MetricsRequest { common.RequestInfo request_info; }
message MetricsResponse { error.Error error; }
message NodeInfo { int64 id; common.Location raft_location; common.ClusterRole role; common.Location server_location; }
message RaftStatusEntry { common.BRaftStatus raft_status; int64 region_id; }
message ReleaseFreeMemoryRequest { common.RequestInfo request_info; }
message ReleaseFreeMemoryResponse { error.Error error; }
message SetFailPointRequest { FailPoint failpoint; common.RequestInfo request_info; }
message SetFailPointResponse { error.Error error; }
message VectorIndexSnapshotMeta { repeated string filenames; int64 snapshot_log_index; int64 vector_index_id; }
message FailPointAction { int32 percent; int32 max_count, run_count; string type; string arg; } message FailPoint { repeated FailPointAction actions; string config; string name; }

service NodeService {
  rpc GetNodeInfo(GetNodeInfoRequest) returns (GetNodeInfoResponse);
  rpc GetRegionInfo(GetRegionInfoRequest) returns (GetRegionInfoResponse);
  rpc GetRaftStatus(GetRaftStatusRequest) returns (GetRaftStatusResponse);
  rpc GetLogLevel(GetLogLevelRequest) returns (GetLogLevelResponse);
  rpc ChangeLogLevel(ChangeLogLevelRequest) returns (ChangeLogLevelResponse);
  rpc DingoMetrics(MetricsRequest) returns (MetricsResponse);
  rpc SetFailPoint(SetFailPointRequest) returns (SetFailPointResponse);
  rpc GetFailPoints(GetFailPointRequest) returns (GetFailPointResponse);
  rpc DeleteFailPoints(DeleteFailPointRequest) returns (DeleteFailPointResponse);
  rpc InstallVectorIndexSnapshot(InstallVectorIndexSnapshotRequest) returns (InstallVectorIndexSnapshotResponse);
  rpc GetVectorIndexSnapshot(GetVectorIndexSnapshotRequest) returns (GetVectorIndexSnapshotResponse);
  rpc CheckVectorIndex(CheckVectorIndexRequest) returns (CheckVectorIndexResponse);
  rpc CommitMerge(CommitMergeRequest) returns (CommitMergeResponse);
  rpc GetMemoryStats(GetMemoryStatsRequest) returns (GetMemoryStatsResponse);
  rpc ReleaseFreeMemory(ReleaseFreeMemoryRequest) returns (ReleaseFreeMemoryResponse);
}

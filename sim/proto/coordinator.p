syntax = "proto3"; package dingodb.pb.coordinator; import "proto/common.proto"; import "proto/error.proto"; option cc_generic_services = true;
enum IdEpochType { ID_NONE, ID_NEXT_COORINATOR, ID_NEXT_STORE, ID_NEXT_EXECUTOR, ID_NEXT_SCHEMA, ID_NEXT_REGION, ID_NEXT_TABLE, ID_NEXT_INDEX, ID_NEXT_REGION_CMD, ID_NEXT_JOB, ID_NEXT_TENANT, ID_NEXT_LEASE, ID_NEXT_REVISION, ID_NEXT_META_WATCH, EPOCH_COORINATOR, EPOCH_STORE, EPOCH_EXECUTOR, EPOCH_SCHEMA, EPOCH_REGION, EPOCH_TABLE, EPOCH_INDEX, EPOCH_MDS, ID_DDL_JOB, ID_SCHEMA_VERSION, ID_GC_SAFE_POINT, ID_GC_RESOLVE_LOCK_SAFE_POINT, RAFT_APPLY_TERM, RAFT_APPLY_INDEX; }
enum RaftControlNodeIndex { CoordinatorNodeIndex, KvNodeIndex, TsoNodeIndex, AutoIncrementNodeIndex; }
enum RaftControlOp { None, AddPeer, RemovePeer, TransferLeader, Snapshot, ResetPeer; }
enum RegionCmdType { CMD_NONE, CMD_CREATE, CMD_DELETE, CMD_SPLIT, CMD_MERGE, CMD_CHANGE_PEER, CMD_TRANSFER_LEADER, CMD_SNAPSHOT, CMD_PURGE, CMD_STOP, CMD_DESTROY_EXECUTOR, CMD_SNAPSHOT_VECTOR_INDEX, CMD_UPDATE_DEFINITION, CMD_SWITCH_SPLIT, CMD_HOLD_VECTOR_INDEX, CMD_DELETE_DATA; }
enum RegionCmdStatus { STATUS_NONE, STATUS_DONE, STATUS_FAIL; }
enum TaskPreCheckType { PRE_CHECK_NONE, REGION_CHECK, STORE_REGION_CHECK; }
enum CoordinatorOperationType { COORDINATOR_OP_TYPE_NONE, COORDINATOR_OP_TYPE_DROP_REGION; }
message AddDeletedRegionMapRequest { bool force; int64 region_id; common.RequestInfo request_info; }
message AddDeletedRegionMapResponse { error.Error error; }
message AddStoreOperationRequest { common.RequestInfo request_info; StoreOperation store_operation; }
message AddStoreOperationResponse { error.Error error; }
message BalanceLeaderRequest { bool dryrun; common.StoreType store_type; }
message BalanceLeaderResponse { error.Error error; string expect_leader_score; string leader_score; repeated Task tasks; }
message BalanceRegionRequest { bool dryrun; common.StoreType store_type; }
message BalanceRegionResponse { error.Error error; string score; Task task; }
message ChangePeerRegionRequest { ChangePeerRequest change_peer_request; common.RequestInfo request_info; }
message ChangePeerRegionResponse { error.Error error; }
message CleanDeletedRegionMapRequest { int64 region_id; common.RequestInfo request_info; }
message CleanDeletedRegionMapResponse { error.Error error; }
message CleanJobListRequest { int64 job_id; common.RequestInfo request_info; }
message CleanJobListResponse { error.Error error; }
message CleanStoreOperationRequest { common.RequestInfo request_info; int64 store_id; }
message CleanStoreOperationResponse { error.Error error; }
message ConfigCoordinatorRequest { int32 force_read_only; common.RequestInfo request_info; bool set_force_read_only; bool is_force_read_only; string force_read_only_reason; }
message ConfigCoordinatorResponse { error.Error error; }
message ControlConfigRequest { repeated common.ControlConfigVariable control_config_variable; common.RequestInfo request_info; }
message ControlConfigResponse { repeated common.ControlConfigVariable control_config_variable; error.Error error; }
message CoordinatorMemoryInfo { int64 applied_index; int64 applied_term; int64 auto_increment_map_count; int64 auto_increment_map_size; int64 common_disk_map_count; int64 common_mem_map_count; int64 common_mem_map_size; int64 coordinator_map_count; int64 coordinator_map_size; bool deleted_index_map_count; bool deleted_region_map_count; bool deleted_table_map_count; int64 executor_map_count; int64 executor_map_size; int64 executor_user_map_count; int64 executor_user_map_size; int64 id_epoch_map_count; int64 id_epoch_safe_map_temp_count; int64 id_epoch_safe_map_temp_size; repeated common.KeyValue id_epoch_values; int64 index_map_count; int64 index_map_size; int64 index_metrics_map_count; int64 index_metrics_map_size; int64 job_map_count; int64 job_map_size; int64 kv_index_map_count; int64 kv_index_map_size; int64 kv_lease_map_count; int64 kv_lease_map_size; int64 kv_rev_map_count; int64 kv_watch_count; int64 meta_event_count; int64 meta_watch_count; int64 region_cmd_map_count; int64 region_cmd_map_size; int64 region_map_count; int64 region_map_size; int64 region_metrics_map_count; int64 region_metrics_map_size; int64 schema_map_count; int64 schema_map_size; int64 store_map_count; int64 store_map_size; int64 store_metrics_map_count; int64 store_metrics_map_size; int64 store_operation_map_count; int64 store_operation_map_size; int64 store_region_metrics_map_count; int64 store_region_metrics_map_size; int64 table_index_map_count; int64 table_index_map_size; int64 table_map_count; int64 table_map_size; int64 table_metrics_map_count; int64 table_metrics_map_size; int64 tenant_map_count; int64 tenant_map_size; int64 total_size; }
message CoordinatorOperation { CoordinatorOperationType coordinator_op_type; DropRegionOperation drop_region_operation; }
message CreateExecutorRequest { int64 cluster_id; common.Executor executor; common.RequestInfo request_info; }
message CreateExecutorResponse { error.Error error; common.Executor executor; }
message CreateExecutorUserRequest { int64 cluster_id; common.ExecutorUser executor_user; common.RequestInfo request_info; }
message CreateExecutorUserResponse { error.Error error; common.ExecutorUser executor_user; }
message CreateIdsRequest { int64 count; IdEpochType id_epoch_type; common.RequestInfo request_info; }
message CreateIdsResponse { error.Error error; repeated int64 ids; }
message CreateRegionIdRequest { int64 count; common.RequestInfo request_info; }
message CreateRegionIdResponse { error.Error error; repeated int64 region_ids; }
message CreateRegionRequest { int64 index_id; common.IndexParameter index_parameter; int64 part_id; common.Range range; common.RawEngine raw_engine; int64 region_id; string region_name; common.RegionType region_type; int64 replica_num; common.RequestInfo request_info; string resource_tag; int64 schema_id; int64 split_from_region_id; common.StorageEngine store_engine; repeated int64 store_ids; int64 table_id; int64 tenant_id; bool use_region_name_direct; }
message CreateRegionResponse { error.Error error; int64 region_id; }
message CreateStoreRequest { int64 cluster_id; common.RequestInfo request_info; }
message CreateStoreResponse { error.Error error; string keyring; int64 store_id; }
message DeleteExecutorRequest { int64 cluster_id; common.Executor executor; common.RequestInfo request_info; }
message DeleteExecutorResponse { error.Error error; }
message DeleteExecutorUserRequest { int64 cluster_id; common.ExecutorUser executor_user; common.RequestInfo request_info; }
message DeleteExecutorUserResponse { error.Error error; }
message DeleteRegionMetricsRequest { int64 region_id; common.RequestInfo request_info; }
message DeleteRegionMetricsResponse { error.Error error; }
message DeleteStoreMetricsRequest { common.RequestInfo request_info; int64 store_id; }
message DeleteStoreMetricsResponse { error.Error error; }
message DeleteStoreRequest { int64 cluster_id; string keyring; common.RequestInfo request_info; int64 store_id; }
message DeleteStoreResponse { error.Error error; }
message DropRegionPermanentlyRequest { int64 cluster_id; int64 region_id; common.RequestInfo request_info; }
message DropRegionPermanentlyResponse { error.Error error; }
message DropRegionRequest { int64 region_id; common.RequestInfo request_info; }
message DropRegionResponse { error.Error error; }
message ExecutorHeartbeatRequest { common.Executor executor; common.RequestInfo request_info; }
message ExecutorHeartbeatResponse { error.Error error; common.ExecutorMap executormap; int64 executormap_epoch; }
message GetCoordinatorMapRequest { int64 cluster_id; bool get_coordinator_map; common.RequestInfo request_info; }
message GetCoordinatorMapResponse { common.Location auto_increment_leader_location; repeated common.Location coordinator_locations; common.CoordinatorMap coordinator_map; int64 epoch; error.Error error; common.Location kv_leader_location; common.Location leader_location; common.Location tso_leader_location; }
message GetDeletedRegionMapRequest { common.RequestInfo request_info; }
message GetDeletedRegionMapResponse { int64 epoch; error.Error error; common.RegionMap regionmap; }
message GetExecutorMapRequest { string cluster_name; common.RequestInfo request_info; }
message GetExecutorMapResponse { int64 epoch; error.Error error; common.ExecutorMap executormap; }
message GetExecutorUserMapRequest { int64 cluster_id; common.RequestInfo request_info; }
message GetExecutorUserMapResponse { error.Error error; common.ExecutorUserMap executor_user_map; }
message GetGCSafePointRequest { bool get_all_tenant; common.RequestInfo request_info; repeated int64 tenant_ids; repeated int64 tenant_resolve_lock_ids; }
message GetGCSafePointResponse { error.Error error; bool gc_stop; int64 resolve_lock_safe_point; int64 safe_point; map<int64,int64> tenant_resolve_lock_safe_points; map<int64,int64> tenant_safe_points; }
message GetJobListRequest { int64 archive_limit; int64 archive_start_id; bool get_job_id_only; bool include_archive; int64 job_id; common.RequestInfo request_info; }
message GetJobListResponse { error.Error error; repeated Job job_list; }
message GetOrphanRegionRequest { common.RequestInfo request_info; int64 store_id; }
message GetOrphanRegionResponse { error.Error error; map<int64,common.RegionMetrics> orphan_regions; }
message GetRangeRegionMapRequest { common.RequestInfo request_info; }
message GetRangeRegionMapResponse { error.Error error; repeated RangeRegion range_regions; }
message GetRegionCmdRequest { int64 end_region_cmd_id; common.RequestInfo request_info; int64 start_region_cmd_id; int64 store_id; }
message GetRegionCmdResponse { error.Error error; repeated error.Error region_cmd_errors; repeated RegionCmd region_cmds; }
message GetRegionCountRequest { common.RequestInfo request_info; }
message GetRegionCountResponse { error.Error error; int64 region_count; }
message GetRegionMapRequest { common.RequestInfo request_info; int64 tenant_id; }
message GetRegionMapResponse { int64 epoch; error.Error error; common.RegionMap regionmap; }
message GetRegionMetricsRequest { int64 region_id; common.RequestInfo request_info; }
message GetRegionMetricsResponse { error.Error error; repeated common.RegionMetrics region_metrics; }
message GetStoreMapRequest { repeated common.StoreType filter_store_types; common.RequestInfo request_info; }
message GetStoreMapResponse { int64 epoch; error.Error error; common.StoreMap storemap; }
message GetStoreMetricsRequest { int64 region_id; common.RequestInfo request_info; int64 store_id; }
message GetStoreMetricsResponse { error.Error error; repeated common.StoreMetrics store_metrics; }
message GetStoreOperationRequest { common.RequestInfo request_info; int64 store_id; }
message GetStoreOperationResponse { error.Error error; repeated StoreOperation store_operations; }
message GetStoreOwnMetricsRequest { common.RequestInfo request_info; repeated int64 store_ids; }
message GetStoreOwnMetricsResponse { error.Error error; repeated common.StoreOwnMetrics store_own_metrics; }
message HelloRequest { bool get_memory_info; string hello; bool is_just_version_info; common.RequestInfo request_info; }
message HelloResponse { ClusterState cluster_state; error.Error error; CoordinatorMemoryInfo memory_info; common.CoordinatorState state; string status_detail; common.VersionInfo version_info; }
message Job { string create_time; string finish_time; int64 id; string name; int32 next_step; string status; repeated Task tasks; string update_time; }
message MergeRegionRequest { MergeRequest merge_request; common.RequestInfo request_info; }
message MergeRegionResponse { error.Error error; }
message MergeRequest { int64 source_region_id; int64 target_region_id; }
message QueryRegionRequest { int64 region_id; common.RequestInfo request_info; }
message QueryRegionResponse { error.Error error; common.Region region; }
message RaftControlRequest { string new_leader; repeated string new_peers; RaftControlNodeIndex node_index; RaftControlOp op_type; string peer; string remove_peer; common.RequestInfo request_info; string add_peer; }
message RaftControlResponse { error.Error error; string leader; }
message RegionCmd { ChangePeerRequest change_peer_request; CreateRequest create_request; int64 create_timestamp; DeleteDataRequest delete_data_request; DeleteRequest delete_request; DestroyRegionExecutorRequest destroy_executor_request; error.Error error; HoldVectorIndexRequest hold_vector_index_request; int64 id; bool is_notify; int64 job_id; MergeRequest merge_request; PurgeRequest purge_request; RegionCmdType region_cmd_type; int64 region_id; int64 retry; SnapshotVectorIndexRequest snapshot_vector_index_request; SplitRequest split_request; RegionCmdStatus status; StopRequest stop_request; int64 store_id; SwitchSplitRequest switch_split_request; TransferLeaderRequest transfer_leader_request; UpdateDefinitionRequest update_definition_request; }
message RegisterBackupRequest { int64 backup_current_timestamp; string backup_name; string backup_path; int64 backup_start_timestamp; int64 backup_timeout_s; common.RequestInfo request_info; }
message RegisterBackupResponse { error.Error error; }
message RegisterBackupStatusRequest { common.RequestInfo request_info; }
message RegisterBackupStatusResponse { string backup_name; error.Error error; bool is_backing_up; }
message RegisterRestoreRequest { common.RequestInfo request_info; int64 restore_current_timestamp; string restore_name; string restore_path; int64 restore_start_timestamp; int64 restore_timeout_s; }
message RegisterRestoreResponse { error.Error error; }
message RegisterRestoreStatusRequest { common.RequestInfo request_info; }
message RegisterRestoreStatusResponse { error.Error error; bool is_restoring; string restore_name; }
message RemoveStoreOperationRequest { int64 region_cmd_id; common.RequestInfo request_info; int64 store_id; }
message RemoveStoreOperationResponse { error.Error error; }
message ScanRegionInfo { common.Location leader; repeated common.Location learners; common.Range range; common.RegionEpoch region_epoch; int64 region_id; ScanRegionStatus status; repeated common.Location voters; }
message ScanRegionsRequest { bytes key; int64 limit; bytes range_end; common.RequestInfo request_info; }
message ScanRegionsResponse { error.Error error; repeated ScanRegionInfo regions; }
message SplitRegionRequest { common.RequestInfo request_info; SplitRequest split_request; }
message SplitRegionResponse { error.Error error; }
message SplitRequest { int64 split_from_region_id; int64 split_to_region_id; bytes split_watershed_key; bool store_create_region; }
message StoreHeartbeatRequest { common.RequestInfo request_info; int64 self_storemap_epoch; common.Store store; common.StoreMetrics store_metrics; }
message StoreHeartbeatResponse { ClusterState cluster_state; error.Error error; common.StoreMap storemap; int64 storemap_epoch; }
message StoreOperation { repeated error.Error errors; bool is_success; TaskPreCheck pre_check; repeated RegionCmd region_cmds; int64 retry_count; int64 store_id; }
message Task { repeated CoordinatorOperation coordinator_operations; int64 region_id; int64 source_store_id; int64 step; repeated StoreOperation store_operations; int64 target_store_id; }
message TaskPreCheck { RegionCheck region_check; StoreRegionCheck store_region_check; TaskPreCheckType type; }
message TransferLeaderRegionRequest { bool is_force; int64 leader_store_id; int64 region_id; common.RequestInfo request_info; }
message TransferLeaderRegionResponse { error.Error error; }
message UnRegisterBackupRequest { string backup_name; common.RequestInfo request_info; }
message UnRegisterBackupResponse { error.Error error; }
message UnRegisterRestoreRequest { common.RequestInfo request_info; string restore_name; }
message UnRegisterRestoreResponse { error.Error error; }
message UpdateExecutorUserRequest { int64 cluster_id; common.ExecutorUser executor_user; common.ExecutorUser executor_user_update; common.RequestInfo request_info; }
message UpdateExecutorUserResponse { error.Error error; common.ExecutorUser executor_user; }
message UpdateGCSafePointRequest { UpdateGCSafePointRequest.GcFlagType gc_flag; common.RequestInfo request_info; int64 resolve_lock_safe_point; int64 safe_point; map<int64,int64> tenant_resolve_lock_safe_points; map<int64,int64> tenant_safe_points; enum GcFlagType { GC_NONE, GC_START, GC_STOP; } }
message UpdateGCSafePointResponse { error.Error error; bool gc_stop; int64 new_safe_point; }
message UpdateRegionCmdStatusRequest { error.Error error; int64 job_id; int64 region_cmd_id; common.RequestInfo request_info; RegionCmdStatus status; }
message UpdateRegionCmdStatusResponse { error.Error error; }
message UpdateStoreRequest { int64 cluster_id; string keyring; common.RequestInfo request_info; int64 store_id; common.StoreInState store_in_state; }
message UpdateStoreResponse { error.Error error; }
enum JobStatus { JOB_STATUS_NONE, JOB_STATUS_INIT; }
message ClusterState { string cluster_force_read_only_reason; string cluster_read_only_reason; bool cluster_is_read_only, cluster_is_force_read_only; }
message RangeRegion { bytes end_key; int64 region_id; bytes start_key; } message ScanRegionStatus {  int64 last_update_timestamp; common.RegionState state; common.RegionRaftStatus raft_status; common.ReplicaStatus replica_status; common.RegionType region_type; int64 create_timestamp; common.RegionHeartbeatState heartbeat_state; } message RegionCheck { repeated common.Peer peers; common.RegionRaftStatus raft_status; common.Range range; int64 region_id; common.ReplicaStatus replica_status; common.RegionState state; int64 vector_snapshot_log_id; } message StoreRegionCheck { bool check_vector_index_is_hold; bool check_vector_index_is_ready; bool is_hold_vector_index; bool is_ready; repeated common.Peer peers; common.RaftNodeState raft_node_status; common.Range range; int64 region_id; int64 store_id; common.StoreRegionState store_region_state; int64 vector_index_version; } message RegionCmdError { int64 region_cmd_id; error.Error error; }
message DropRegionOperation { int64 region_id; }
message CreateRequest { common.RegionDefinition region_definition; int64 split_from_region_id; } message DeleteRequest { int64 region_id; } message ChangePeerRequest { common.RegionDefinition region_definition; } message TransferLeaderRequest { bool is_force; common.Peer peer; } message SnapshotVectorIndexRequest { int64 raft_log_index; int64 vector_index_id; } message PurgeRequest { int64 region_id; } message StopRequest { int64 region_id; } message UpdateDefinitionRequest { common.RegionDefinition new_region_definition; } message SwitchSplitRequest { int64 disable_split; int64 region_id; } message HoldVectorIndexRequest { bool is_hold; int64 region_id; } message DestroyRegionExecutorRequest { int64 region_id; } message DeleteDataRequest { common.Range range; repeated string raw_cf_names; repeated string txn_cf_names; }

service CoordinatorService {
  rpc Hello(HelloRequest) returns (HelloResponse);
  rpc GetMemoryInfo(HelloRequest) returns (HelloResponse);
  rpc StoreHeartbeat(StoreHeartbeatRequest) returns (StoreHeartbeatResponse);
  rpc GetRegionMap(GetRegionMapRequest) returns (GetRegionMapResponse);
  rpc GetDeletedRegionMap(GetDeletedRegionMapRequest) returns (GetDeletedRegionMapResponse);
  rpc AddDeletedRegionMap(AddDeletedRegionMapRequest) returns (AddDeletedRegionMapResponse);
  rpc CleanDeletedRegionMap(CleanDeletedRegionMapRequest) returns (CleanDeletedRegionMapResponse);
  rpc GetRegionCount(GetRegionCountRequest) returns (GetRegionCountResponse);
  rpc GetStoreMap(GetStoreMapRequest) returns (GetStoreMapResponse);
  rpc GetStoreMetrics(GetStoreMetricsRequest) returns (GetStoreMetricsResponse);
  rpc GetStoreOwnMetrics(GetStoreOwnMetricsRequest) returns (GetStoreOwnMetricsResponse);
  rpc DeleteStoreMetrics(DeleteStoreMetricsRequest) returns (DeleteStoreMetricsResponse);
  rpc GetRegionMetrics(GetRegionMetricsRequest) returns (GetRegionMetricsResponse);
  rpc DeleteRegionMetrics(DeleteRegionMetricsRequest) returns (DeleteRegionMetricsResponse);
  rpc CreateStore(CreateStoreRequest) returns (CreateStoreResponse);
  rpc DeleteStore(DeleteStoreRequest) returns (DeleteStoreResponse);
  rpc UpdateStore(UpdateStoreRequest) returns (UpdateStoreResponse);
  rpc ExecutorHeartbeat(ExecutorHeartbeatRequest) returns (ExecutorHeartbeatResponse);
  rpc CreateExecutor(CreateExecutorRequest) returns (CreateExecutorResponse);
  rpc DeleteExecutor(DeleteExecutorRequest) returns (DeleteExecutorResponse);
  rpc GetExecutorMap(GetExecutorMapRequest) returns (GetExecutorMapResponse);
  rpc CreateExecutorUser(CreateExecutorUserRequest) returns (CreateExecutorUserResponse);
  rpc UpdateExecutorUser(UpdateExecutorUserRequest) returns (UpdateExecutorUserResponse);
  rpc DeleteExecutorUser(DeleteExecutorUserRequest) returns (DeleteExecutorUserResponse);
  rpc GetExecutorUserMap(GetExecutorUserMapRequest) returns (GetExecutorUserMapResponse);
  rpc GetCoordinatorMap(GetCoordinatorMapRequest) returns (GetCoordinatorMapResponse);
  rpc ConfigCoordinator(ConfigCoordinatorRequest) returns (ConfigCoordinatorResponse);
  rpc CreateRegionId(CreateRegionIdRequest) returns (CreateRegionIdResponse);
  rpc QueryRegion(QueryRegionRequest) returns (QueryRegionResponse);
  rpc CreateRegion(CreateRegionRequest) returns (CreateRegionResponse);
  rpc DropRegion(DropRegionRequest) returns (DropRegionResponse);
  rpc DropRegionPermanently(DropRegionPermanentlyRequest) returns (DropRegionPermanentlyResponse);
  rpc SplitRegion(SplitRegionRequest) returns (SplitRegionResponse);
  rpc MergeRegion(MergeRegionRequest) returns (MergeRegionResponse);
  rpc ChangePeerRegion(ChangePeerRegionRequest) returns (ChangePeerRegionResponse);
  rpc GetOrphanRegion(GetOrphanRegionRequest) returns (GetOrphanRegionResponse);
  rpc TransferLeaderRegion(TransferLeaderRegionRequest) returns (TransferLeaderRegionResponse);
  rpc GetStoreOperation(GetStoreOperationRequest) returns (GetStoreOperationResponse);
  rpc CleanStoreOperation(CleanStoreOperationRequest) returns (CleanStoreOperationResponse);
  rpc AddStoreOperation(AddStoreOperationRequest) returns (AddStoreOperationResponse);
  rpc RemoveStoreOperation(RemoveStoreOperationRequest) returns (RemoveStoreOperationResponse);
  rpc GetRegionCmd(GetRegionCmdRequest) returns (GetRegionCmdResponse);
  rpc GetJobList(GetJobListRequest) returns (GetJobListResponse);
  rpc CleanJobList(CleanJobListRequest) returns (CleanJobListResponse);
  rpc UpdateRegionCmdStatus(UpdateRegionCmdStatusRequest) returns (UpdateRegionCmdStatusResponse);
  rpc RaftControl(RaftControlRequest) returns (RaftControlResponse);
  rpc ScanRegions(ScanRegionsRequest) returns (ScanRegionsResponse);
  rpc GetRangeRegionMap(GetRangeRegionMapRequest) returns (GetRangeRegionMapResponse);
  rpc UpdateGCSafePoint(UpdateGCSafePointRequest) returns (UpdateGCSafePointResponse);
  rpc GetGCSafePoint(GetGCSafePointRequest) returns (GetGCSafePointResponse);
  rpc BalanceLeader(BalanceLeaderRequest) returns (BalanceLeaderResponse);
  rpc BalanceRegion(BalanceRegionRequest) returns (BalanceRegionResponse);
  rpc CreateIds(CreateIdsRequest) returns (CreateIdsResponse);
  rpc RegisterBackup(RegisterBackupRequest) returns (RegisterBackupResponse);
  rpc UnRegisterBackup(UnRegisterBackupRequest) returns (UnRegisterBackupResponse);
  rpc ControlConfig(ControlConfigRequest) returns (ControlConfigResponse);
  rpc RegisterRestore(RegisterRestoreRequest) returns (RegisterRestoreResponse);
  rpc UnRegisterRestore(UnRegisterRestoreRequest) returns (UnRegisterRestoreResponse);
  rpc RegisterBackupStatus(RegisterBackupStatusRequest) returns (RegisterBackupStatusResponse);
  rpc RegisterRestoreStatus(RegisterRestoreStatusRequest) returns (RegisterRestoreStatusResponse);
}

syntax = "proto3"; package dingodb.pb.coordinator_internal; import "proto/common.proto"; import "proto/meta.proto"; import "proto/coordinator.proto"; import "proto/error.proto";
enum MetaIncrementOpType { INVALID, CREATE, UPDATE, DELETE, MODIFY; }
enum AutoIncrementUpdateType { UPDATE_ONLY, READ_MODIFY_WRITE; }
enum KvIndexEventType { KV_INDEX_EVENT_TYPE_NONE, KV_INDEX_EVENT_TYPE_PUT, KV_INDEX_EVENT_TYPE_DELETE, KV_INDEX_EVENT_TYPE_COMPACTION; }
message RevisionInternal {  int64 main, sub; }
message KvIndexInternal {  message Generation { RevisionInternal create_revision; int64 verison; repeated RevisionInternal revisions; } bytes id; RevisionInternal mod_revision; repeated Generation generations; }
message KvInternal { bytes id, value; RevisionInternal create_revision, mod_revision; int64 version, lease; bool is_deleted; }
message KvRevInternal {  bytes id; KvInternal kv; }
message LeaseInternal {  int64 id, ttl_seconds, create_ts_seconds, last_renew_ts_seconds; }
message AutoIncrementStorageElement { int64 table_id, start_id; }
message AutoIncrementStorage {  repeated AutoIncrementStorageElement elements; }
message TsoStorage { meta.TsoTimestamp last_physical; int64 physical; }
message CommonInternal {  bytes id; bytes value; }
message IdEpochInternal {  int64 id; int64 value; }
message CoordinatorInternal {  int64 id; common.Location location; }
message ExecutorUserInternal {  string id; string keyring; }
message IndexMetricsInternal {  int64 id; meta.IndexMetrics index_metrics; }
message TableMetricsInternal {  int64 id; meta.TableMetrics table_metrics; }
message RegionCmdInternal {  int64 id; coordinator.RegionCmd region_cmd; error.Error error; }
message StoreOperationInternal {  int64 id; repeated int64 region_cmd_ids; }
message SchemaInternal {  int64 id; string name; repeated int64 table_ids, index_ids; int64 tenant_id, revision; }
message TenantInternal {  int64 id; string name, comment; int64 create_timestamp, update_timestamp, delete_timestamp, safe_point_ts, resolve_lock_safe_point, revision; }
message TableInternal {  int64 id, schema_id, table_id; common.Range range; meta.TableDefinition definition; }
message TableIndexInternal {  int64 id; repeated meta.DingoCommonId table_ids; int64 revision; int64 tenant_id; }
message RegionInternal {  int64 id, epoch; common.RegionType region_type; common.RegionDefinition definition; common.RegionState state; int64 create_timestamp, deleted_timestamp; }
message MetaIncrementRegionCmdStatus {  int64 region_cmd_id; coordinator.RegionCmdStatus status; error.Error error; }
message MoveRegionCmd { int64 region_cmd_id, from_store_id, to_store_id; }
message MetaIncrementJob {  int64 id; int64 job_id; MetaIncrementOpType op_type; coordinator.Job job; MoveRegionCmd move_region_cmd; repeated MetaIncrementRegionCmdStatus region_cmds_status; }
message MetaIncrementTenant {  int64 id; MetaIncrementOpType op_type; TenantInternal tenant; }
message MetaIncrementIdEpoch { int64 id; MetaIncrementOpType op_type; IdEpochInternal idepoch; }
message MetaIncrementCoordinator { int64 id; MetaIncrementOpType op_type; CoordinatorInternal coordinator; }
message MetaIncrementStore { int64 id; MetaIncrementOpType op_type; common.Store store; }
message MetaIncrementExecutor { string id; MetaIncrementOpType op_type; common.Executor executor; }
message MetaIncrementExecutorUser { string id; MetaIncrementOpType op_type; ExecutorUserInternal executor_user; }
message MetaIncrementSchema { int64 id; MetaIncrementOpType op_type; int64 tenant_id; SchemaInternal schema_internal; }
message MetaIncrementRegion { int64 id; MetaIncrementOpType op_type; int64 table_id; RegionInternal region; }
message MetaIncrementTable { int64 id; MetaIncrementOpType op_type; int64 schema_id; TableInternal table; }
message MetaIncrementIndex { int64 id; MetaIncrementOpType op_type; int64 schema_id; TableInternal table; }
message MetaIncrementStoreMetrics { int64 id; MetaIncrementOpType op_type; common.StoreMetrics store_metrics; }
message MetaIncrementTableMetrics { int64 id; MetaIncrementOpType op_type; TableMetricsInternal table_metrics; }
message MetaIncrementIndexMetrics { int64 id; MetaIncrementOpType op_type; IndexMetricsInternal index_metrics; }
message MetaIncrementStoreOperation { int64 id; MetaIncrementOpType op_type; StoreOperationInternal store_operation; MoveRegionCmd move_region_cmd; }
message MetaIncrementRegionCmd { int64 id, job_id; MetaIncrementOpType op_type; RegionCmdInternal region_cmd; }
message AutoIncrementIncrement { AutoIncrementUpdateType update_type; int64 start_id, source_start_id, generate_count, increment, offset; }
message MetaIncrementAutoIncrement { int64 id; MetaIncrementOpType op_type; AutoIncrementIncrement increment; }
message MetaIncrementTimestampOracle { int64 id; MetaIncrementOpType op_type; meta.TsoRequest tso_request; }
message MetaIncrementKvIndex { bytes id; MetaIncrementOpType op_type; KvIndexEventType event_type; RevisionInternal op_revision; bool ignore_lease, ignore_value; int64 lease_id; bytes value; }
message MetaIncrementKvRev { bytes id; MetaIncrementOpType op_type; KvRevInternal kv_rev; }
message MetaIncrementLease { int64 id; MetaIncrementOpType op_type; LeaseInternal lease; }
message MetaIncrementCommon { bytes id; MetaIncrementOpType op_type; CommonInternal common; }
message MetaIncrementTableIndex { int64 id; MetaIncrementOpType op_type; TableIndexInternal table_indexes; repeated meta.DingoCommonId table_ids_to_add, table_ids_to_del; }
message MetaIncrement {  repeated MetaIncrementIdEpoch idepochs; repeated MetaIncrementCoordinator coordinators; repeated MetaIncrementStore stores; repeated MetaIncrementExecutor executors; repeated MetaIncrementExecutorUser executor_users; repeated MetaIncrementSchema schemas; repeated MetaIncrementRegion regions, deleted_regions; repeated MetaIncrementTable tables, deleted_tables; repeated MetaIncrementIndex indexes, deleted_indexes; repeated MetaIncrementStoreMetrics store_metrics; repeated MetaIncrementTableMetrics table_metrics; repeated MetaIncrementIndexMetrics index_metrics; repeated MetaIncrementStoreOperation store_operations; repeated MetaIncrementRegionCmd region_cmds; repeated MetaIncrementJob jobs; repeated MetaIncrementAutoIncrement auto_increment; repeated MetaIncrementTimestampOracle timestamp_oracles; repeated MetaIncrementKvIndex kv_indexes; repeated MetaIncrementKvRev kv_revs; repeated MetaIncrementLease leases; repeated MetaIncrementCommon common_disk_s, common_mem_s; repeated MetaIncrementTableIndex table_indexes; repeated MetaIncrementTenant tenants; }
message MetaSnapshotFile {  TsoStorage tso_storage; AutoIncrementStorage auto_increment_storage; repeated common.KeyValue common_disk_map_kvs, common_mem_map_kvs, coordinator_map_kvs, deleted_index_map_kvs, deleted_region_map_kvs, deleted_table_map_kvs, executor_map_kvs, executor_user_map_kvs, id_epoch_map_kvs, index_map_kvs, job_map_kvs, kv_index_map_kvs, kv_rev_map_kvs, lease_map_kvs, region_cmd_map_kvs, region_map_kvs, schema_map_kvs, store_map_kvs, store_operation_map_kvs, table_index_map_kvs, table_map_kvs, tenant_map_kvs; }

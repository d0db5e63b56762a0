syntax = "proto3"; package dingodb.pb.common;
enum ClusterRole { ILLEGAL = 0; COORDINATOR = 1; STORE = 2; EXECUTOR = 3; INDEX = 4; DISKANN = 5; DOCUMENT = 6; }
enum CoordinatorServiceType { ServiceTypeCoordinator, ServiceTypeMeta, ServiceTypeAutoIncrement, ServiceTypeVersion; }
message Location { string host; int32 port; int32 index; }
enum StoreState { STORE_NEW, STORE_NORMAL, STORE_OFFLINE; }
enum StoreInState { STORE_IN, STORE_OUT; }
enum StoreType { NODE_TYPE_STORE, NODE_TYPE_INDEX, NODE_TYPE_DOCUMENT; }
message Store { int64 id; int64 epoch; StoreState state; StoreInState in_state; StoreType store_type; Location server_location; Location raft_location; string resource_tag; string keyring; int64 create_timestamp; int64 last_seen_timestamp; int64 leader_num_weight; }
message StoreMap { int64 epoch; repeated Store stores; }
enum CoordinatorState { COORDINATOR_NEW, COORDINATOR_NORMAL, COORDINATOR_OFFLINE, COORDINATOR_ERROR; }
message Coordinator { int64 id; int64 epoch; CoordinatorState state; Location location; string resource_tag; int64 create_timestamp; int64 last_seen_timestamp; }
message CoordinatorMap { int64 epoch; repeated Coordinator coordinators; }
enum ExecutorState { EXECUTOR_NEW, EXECUTOR_NORMAL, EXECUTOR_OFFLINE; }
message ExecutorUser { string user; string keyring; }
message Executor { string id; int64 epoch; ExecutorState state; Location server_location; ExecutorUser executor_user; string resource_tag; int64 create_timestamp; int64 last_seen_timestamp; string cluster_name; int64 leader_id; }
message ExecutorMap { int64 epoch; repeated Executor executors; }
message ExecutorUserMap { int64 epoch; repeated ExecutorUser executor_users; }
enum PeerRole { VOTER, LEARNER; }
message Peer { int64 store_id; PeerRole role; Location server_location; Location raft_location; }
enum RegionType { STORE_REGION, INDEX_REGION, DOCUMENT_REGION; }
message RegionEpoch { int64 conf_version, version; }
message Range { bytes start_key, end_key; }
message RangeWithOptions { Range range; bool with_start, with_end; }
message KeyValue { bytes key, value; int64 ts; int64 ttl; }
enum RawEngine { RAW_ENG_ROCKSDB, RAW_ENG_BDB, RAW_ENG_XDPROCKS; }
enum StorageEngine { STORE_ENG_RAFT_STORE, STORE_ENG_MONO_STORE, STORE_ENG_MEMORY; }
enum Engine { ENG_ROCKSDB, LSM, BTREE, TXN_LSM, TXN_BTREE, ENG_BDB; }
enum RegionState { REGION_NEW, REGION_NORMAL, REGION_EXPAND, REGION_EXPANDING, REGION_EXPANDED, REGION_SHRINK, REGION_SHRINKING, REGION_SHRANK, REGION_DELETE, REGION_DELETING, REGION_DELETED, REGION_SPLITTING, REGION_MERGING, REGION_STANDBY, REGION_TOMBSTONE, REGION_NONE; }
enum RegionHeartbeatState { REGION_ONLINE, REGION_DOWN; }
enum RegionRaftStatus { REGION_RAFT_HEALTHY, REGION_RAFT_RECOVERING, REGION_RAFT_LAGGY, REGION_RAFT_CONSECUTIVE_ERROR; }
enum ReplicaStatus { REPLICA_NORMAL, REPLICA_DEGRAED, REPLICA_UNAVAILABLE, REPLICA_NONE; }
enum StoreRegionState { NEW, NORMAL, STANDBY, SPLITTING, MERGING, DELETING, DELETED, ORPHAN, TOMBSTONE; }
enum RaftNodeState { STATE_NONE, STATE_LEADER, STATE_TRANSFERRING, STATE_CANDIDATE, STATE_FOLLOWER, STATE_ERROR, STATE_UNINITIALIZED, STATE_SHUTTING, STATE_SHUTDOWN, STATE_END; }
message RegionStatus { RegionRaftStatus raft_status; ReplicaStatus replica_status; RegionHeartbeatState heartbeat_status; int64 last_update_timestamp; }
message VectorIndexStatus { bool is_stop, is_ready, is_own_ready, is_switching, is_build_error, is_rebuild_error, is_hold_vector_index; int64 apply_log_id, snapshot_log_id, last_build_epoch_version; }
message DocumentIndexStatus { bool is_hold_document_index; bool is_stop, is_ready, is_own_ready, is_switching, is_build_error, is_rebuild_error; int64 apply_log_id, snapshot_log_id, last_build_epoch_version; }
message RaftPeerStatus { string peer_id; bool valid; int64 last_rpc_send_timestamp, flying_append_entries_size, readonly_index, consecutive_error_times, next_index; bool installing_snapshot; }
message BRaftStatus { RaftNodeState raft_state; string peer_id; string leader_peer_id; bool readonly; int64 term, committed_index, known_applied_index, pending_index, pending_queue_size, applying_index, first_index, last_index, disk_index; map<string, RaftPeerStatus> stable_followers; map<string, RaftPeerStatus> unstable_followers; }
message VectorIndexMetrics { repeated int64 entries; VectorIndexType vector_index_type; int64 current_count, deleted_count, max_id, min_id, memory_bytes, search_total_num, search_total_usage; bool need_save; }
message DocumentIndexMetrics { repeated int64 entries; int64 total_num_docs, total_num_tokens, max_id, min_id; string meta_json, json_parameter; }
message RegionMetrics { int64 last_update_metrics_version; int64 id; int64 leader_store_id; StoreRegionState store_region_state; BRaftStatus braft_status; int64 row_count; bytes min_key, max_key; int64 region_size, last_update_metrics_timestamp, snapshot_epoch_version, key_count; VectorIndexMetrics vector_index_metrics; DocumentIndexMetrics document_index_metrics; RegionDefinition region_definition; VectorIndexStatus vector_index_status; DocumentIndexStatus document_index_status; RegionStatus region_status; int64 last_update_metrics_log_index; bool is_clean_data; int64 apply_index; }
message RegionDefinition { int64 id; RegionEpoch epoch; RegionType region_type; string name; repeated Peer peers; Range range; int64 schema_id, table_id, index_id, part_id, tenant_id; IndexParameter index_parameter; RawEngine raw_engine; StorageEngine store_engine; int64 revision; string charset; }
message Region { int64 id; RegionType region_type; int64 epoch; RegionState state; int64 leader_store_id; int64 create_timestamp; int64 last_update_timestamp; RegionDefinition definition; RegionMetrics metrics; RegionStatus status; int64 deleted_timestamp; }
message RegionMap { int64 epoch; repeated Region regions; }
message StoreOwnMetrics { bool is_ready_only; string read_only_reason; int64 id; int64 system_total_memory, system_used_memory, system_free_memory, system_shared_memory, system_buffer_memory, system_cached_memory, system_available_memory, system_total_swap, system_free_swap, system_total_capacity, system_free_capacity, system_cpu_usage, system_io_util, process_used_memory, process_used_capacity, process_used_cpu; bool is_ready; double io_util; double iowait; }
message StoreMetrics { int64 id; StoreOwnMetrics store_own_metrics; map<int64, RegionMetrics> region_metrics_map; bool is_partial_region_metrics; bool is_update_epoch_version; }
message RequestInfo { int64 request_id; int64 epoch; }
message TimeInfo { repeated ElapsedTime elapsed_times; int64 total_rpc_time_ns, service_queue_wait_time_ns, prepair_commit_time_ns, raft_commit_time_ns, raft_queue_wait_time_ns, raft_apply_time_ns; string a; int64 read_store_time_ns, store_write_time_ns, vector_index_write_time_ns, document_index_write_time_ns; }
message ResponseInfo { int64 request_id; TimeInfo time_info; int64 max_timestamp; }
message VersionInfo { string git_commit_hash, git_tag_name, git_commit_user, git_commit_mail, git_commit_time, major_version, minor_version, dingo_build_type, dingo_contrib_build_type; bool use_mkl, use_openblas, use_tcmalloc, use_profiler, use_sanitizer, use_diskann, diskann_depend_on_system; string boost_summary; bool use_bdb; bool use_xdprocks; }
message ControlConfigVariable { string name, value; bool is_already_set, is_error_occurred; }
enum CompressionType { COMPRESSION_TYPE_NONE, ZLIB, GZIP, SNAPPY, LZ4, ZSTD; }
message ElapsedTime { string name; int64 skip_version; StorageEnginePerfSummary storage_engine_perf_summary; int64 time_us; } message RocksDBPerfSummary { } message StorageEnginePerfSummary { int64 internal_skipped_count; int64 internal_tombstone_count; int64 io_time_ns; int64 miss_block_count; RocksDBPerfSummary rocksdb; } message StorageBackend { Local local; }
message Local { string path; }
message RateLimiter { int64 x; }
message BackupDataFileValueSstMeta { string file_name; int64 region_id; string dir_name; int64 file_size; string cf; bytes start_key, end_key; int64 start_version, end_version, total_kvs, total_bytes; string encryption; bytes sha256, x; RegionEpoch region_epoch; int64 crc64xor; RegionDefinition d;  bytes encryption_iv; }
message BackupDataFileValueSstMetaGroup { repeated BackupDataFileValueSstMeta backup_data_file_value_sst_metas; }
message BackupMeta {  string file_name, dir_name; int64 file_size; string remark; string exec_node; bytes encryption; bytes sha256; }
enum IndexType { INDEX_TYPE_NONE, INDEX_TYPE_VECTOR, INDEX_TYPE_SCALAR, INDEX_TYPE_DOCUMENT; }
enum ScalarIndexType { SCALAR_INDEX_TYPE_NONE, SCALAR_INDEX_TYPE_LSM, SCALAR_INDEX_TYPE_BTREE; }
message ScalarIndexParameter { ScalarIndexType scalar_index_type; bool is_unique; }
enum VectorIndexType { VECTOR_INDEX_TYPE_NONE, VECTOR_INDEX_TYPE_FLAT, VECTOR_INDEX_TYPE_IVF_FLAT, VECTOR_INDEX_TYPE_IVF_PQ, VECTOR_INDEX_TYPE_HNSW, VECTOR_INDEX_TYPE_DISKANN, VECTOR_INDEX_TYPE_BRUTEFORCE, VECTOR_INDEX_TYPE_BINARY_FLAT, VECTOR_INDEX_TYPE_BINARY_IVF_FLAT; }
enum MetricType { METRIC_TYPE_NONE, METRIC_TYPE_L2, METRIC_TYPE_INNER_PRODUCT, METRIC_TYPE_COSINE, METRIC_TYPE_HAMMING; }
enum ValueType { FLOAT, UINT8, INT8_T; }
message CreateFlatParam { int32 dimension; MetricType metric_type; }
message CreateBinaryFlatParam { int32 dimension; MetricType metric_type; }
message CreateIvfFlatParam { int32 dimension; MetricType metric_type; int32 ncentroids; }
message CreateBinaryIvfFlatParam { int32 dimension; MetricType metric_type; int32 ncentroids; }
message CreateIvfPqParam { int32 dimension; MetricType metric_type; int32 ncentroids, nsubvector, bucket_init_size, bucket_max_size, nbits_per_idx; }
message CreateHnswParam { uint32 dimension; MetricType metric_type; uint32 efConstruction, max_elements, nlinks; }
message CreateDiskAnnParam { uint32 dimension; MetricType metric_type; ValueType value_type; uint32 max_degree, search_list_size; }
message CreateBruteForceParam { int32 dimension; MetricType metric_type; }
message VectorIndexParameter { VectorIndexType vector_index_type; oneof index_parameter { CreateFlatParam flat_parameter; CreateIvfFlatParam ivf_flat_parameter; CreateIvfPqParam ivf_pq_parameter; CreateHnswParam hnsw_parameter; CreateDiskAnnParam diskann_parameter; CreateBruteForceParam bruteforce_parameter; CreateBinaryFlatParam binary_flat_parameter; CreateBinaryIvfFlatParam binary_ivf_flat_parameter; } ScalarSchema scalar_schema; bool enable_scalar_speed_up_with_document; }
message DocumentIndexParameter { ScalarSchema scalar_schema; string json_parameter; }
message IndexParameter { IndexType index_type; ScalarIndexParameter scalar_index_parameter; VectorIndexParameter vector_index_parameter; DocumentIndexParameter document_index_parameter; repeated string origin_keys; repeated string origin_with_keys; bool is_auto_increment; }
enum ScalarFieldType { NONE, BOOL, INT8, INT16, INT32, INT64, FLOAT32, DOUBLE, STRING, BYTES, DATETIME, DECIMAL; }
message ScalarSchemaItem { string key; ScalarFieldType field_type; bool enable_speed_up; }
message ScalarSchema { repeated ScalarSchemaItem fields; }
message ScalarField { oneof data { bool bool_data; sint32 int_data; int64 long_data; float float_data; double double_data; string string_data; bytes bytes_data; string datetime_data; string decimal_data; } }
message ScalarValue { ScalarFieldType field_type; repeated ScalarField fields; }
message DocumentValue { ScalarFieldType field_type; ScalarField field_value; }
message Vector { int32 dimension; ValueType value_type; repeated float float_values; repeated bytes binary_values; }
message VectorScalardata { map<string, ScalarValue> scalar_data; }
message VectorTableData { bytes table_key, table_value; }
message VectorWithId { int64 id; Vector vector; VectorScalardata scalar_data; VectorTableData table_data; }
message VectorWithDistance { VectorWithId vector_with_id; float distance; MetricType metric_type; }
message VectorWithKey { bool is_delete; bytes key; KeyValue kv; VectorWithId vector_with_id; }
message Document { map<string, DocumentValue> document_data; VectorTableData table_data; }
message DocumentWithId { int64 id; Document document; }
message DocumentWithScore { DocumentWithId document_with_id; float score; }
message DocumentSearchParameter { int32 top_n; string query_string; bool use_id_filter; repeated int64 document_ids; repeated string column_names; bool without_scalar_data; repeated string selected_keys; bool query_unlimited; }
message SearchFlatParam { int32 parallel_on_queries; }
message SearchIvfFlatParam { int32 nprobe, parallel_on_queries; }
message SearchIvfPqParam { int32 nprobe, parallel_on_queries, recall_num; }
message SearchHNSWParam { int32 efSearch; }
message SearchDiskAnnParam { uint32 beamwidth; }
message SearchBinaryFlatParam { int32 parallel_on_queries; }
message SearchBinaryIvfFlatParam { int32 nprobe, parallel_on_queries; }
enum VectorFilter { SCALAR_FILTER, TABLE_FILTER, VECTOR_ID_FILTER; }
enum VectorFilterType { QUERY_NONE, QUERY_POST, QUERY_PRE; }
message VectorSearchParameter { int32 top_n; bool without_vector_data, without_scalar_data, without_table_data; repeated string selected_keys; bool use_scalar_filter; VectorFilter vector_filter; VectorFilterType vector_filter_type; CoprocessorV2 vector_coprocessor; repeated int64 vector_ids; bool is_sorted; bool is_negation; bool enable_range_search; float radius; bool use_brute_force; string query_string; oneof search { SearchFlatParam flat; SearchIvfFlatParam ivf_flat; SearchIvfPqParam ivf_pq; SearchHNSWParam hnsw; SearchDiskAnnParam diskann; SearchBinaryFlatParam binary_flat; SearchBinaryIvfFlatParam binary_ivf_flat; } bool is_vector_ids_negation;  }
message VectorBuildParameter { DiskAnnBuild diskann; } message DiskAnnBuild { int64 x; }
message VectorLoadParameter { DiskAnnLoad diskann; } message DiskAnnLoad { uint32 num_nodes_to_cache; bool warmup; }
enum DiskANNCoreState { UNKNOWN, UNINITIALIZED, INITIALIZED, IMPORTING, IMPORTED, BUILDING, BUILDED, UPDATINGPATH, UPDATEDPATH, LOADING, LOADED, SEARCHING, SEARCHED, RESETING, RESET, DESTROYING, DESTROYED, IDLE, FAILED, FAKEBUILDED, NODATA; }
enum DiskANNState { DISKANN_INITIALIZED, DISKANN_BUILDING, DISKANN_BUILDED, DISKANN_BUILD_FAILED, DISKANN_LOADING, DISKANN_LOADED, DISKANN_LOAD_FAILED, DISKANN_NODATA; }
message VectorStateParameter { DiskAnnStateParam diskann; } message DiskAnnStateParam { DiskANNState state; }
message Schema { enum Type { BOOL, INTEGER, FLOAT, LONG, DOUBLE, STRING, BOOLLIST, INTEGERLIST, FLOATLIST, LONGLIST, DOUBLELIST, STRINGLIST, DECIMAL, DECIMALLIST; } Type type; bool is_key, is_nullable; int32 index; string name; }
message SchemaWrapper { repeated Schema schema; int64 common_id; }
message CoprocessorV2 { int32 schema_version; SchemaWrapper original_schema, result_schema; repeated int32 selection_columns; bytes rel_expr; bool for_agg_count; int64 codec_version; int64 limit; bool is_index; }
message DocumentIndexExtendedStatusItem { DocumentIndexStatus s; } message DocumentIndexExtendedStatus { repeated DocumentIndexExtendedStatusItem items; }
message BackupParam { string x; }
message LoadDiskAnnParam { }


enum RegionVectorIndexStatus { VECTOR_INDEX_STATUS_NONE, VECTOR_INDEX_STATUS_NORMAL; }

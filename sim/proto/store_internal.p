syntax = "proto3"; package dingodb.pb.store_internal; import "proto/common.proto"; import "proto/raft.proto"; import "proto/coordinator.proto";
message Region { repeated common.StoreRegionState history_states; common.RegionType region_type; int64 id; common.RegionDefinition definition; common.StoreRegionState state; bool need_bootstrap_do_snapshot, disable_change, temporary_disable_change; int64 create_timestamp; int64 last_split_timestamp, last_change_job_id; int64 parent_id; repeated RegionChild childs;  int64 snapshot_epoch_version; raft.SplitStrategy split_strategy; common.StorageEngine store_engine; int64 leader_id; int64 applied_max_ts; int64 vector_index_apply_log_id; int64 txn_access_max_ts; bool is_hold_vector_index;  common.RawEngine raw_engine; int64 part_id; int64 delete_timestamp; bool has_raw_data; int64 split_record; MergeState merge_state; }
message MergeState { int64 x; }
message RegionChild { int64 child_id; bytes child_region_key; }
message RaftMeta { int64 applied_index; int64 region_id, term, applied_id; }
message LogIndexMeta { int64 first_log_index; int64 last_log_index; repeated TruncateIndex truncate_indexes; int64 a; }
message LogMeta { int64 vector_index_first_log_index; int64 first_log_index; }
message RaftSnapshotRegionMeta { common.RegionEpoch epoch; common.Range range; int64 term, log_index; }
message SstFileInfo { string cf_name; int64 level; string name, path; bytes start_key, end_key; }
message RegionChangeRecord { string job_content; coordinator.RegionCmdType job_type; repeated RegionChangeRecordTimePoint timeline; int64 job_id, region_id; string begin_time, end_time; string name; repeated TimePoint timepoints; message TimePoint { string event; string time; } }
message DocumentIndexMeta { }
message DocumentIndexSnapshotMeta { }
message VectorIndexMeta { }
message VectorIndexSnapshotMeta { }


message TruncateIndex { int32 client_type; int64 truncate_index; } message RegionChangeRecordTimePoint { string event; string time; }

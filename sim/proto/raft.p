syntax = "proto3"; package dingodb.pb.raft; import "proto/common.proto"; import "proto/error.proto"; import "proto/store.proto"; import "proto/coordinator_internal.proto";
enum CmdType { NONE, PUT, PUTIFABSENT, DELETERANGE, DELETEBATCH, SPLIT, COMPAREANDSET, PREPARE_MERGE, COMMIT_MERGE, ROLLBACK_MERGE, META_WRITE, VECTOR_ADD, VECTOR_DELETE, VECTOR_BATCH_ADD, REBUILD_VECTOR_INDEX, SAVE_RAFT_SNAPSHOT, TXN, DOCUMENT_ADD, DOCUMENT_DELETE, DOCUMENT_BATCH_ADD; }
message PutRequest { string cf_name; repeated common.KeyValue kvs; }
message PutIfAbsentRequest { string cf_name; repeated common.KeyValue kvs; bool is_atomic; }
message CompareAndSetRequest { string cf_name; repeated common.KeyValue kvs; repeated bytes expect_values; bool is_atomic; }
message DeleteRangeRequest { string cf_name; repeated common.Range ranges; }
message DeleteBatchRequest { string cf_name; repeated bytes keys; }
message RaftMetaRequest { coordinator_internal.MetaIncrement meta_increment; }
enum SplitStrategy { PRE_CREATE_REGION, POST_CREATE_REGION; }
message SplitRequest { int64 from_region_id, to_region_id; bytes split_key; common.RegionEpoch epoch; int64 job_id; SplitStrategy split_strategy; repeated common.Peer to_peers; }
message PrepareMergeRequest { int64 job_id, target_region_id; common.RegionEpoch target_region_epoch; common.Range target_region_range; repeated common.Peer x; int64 min_applied_log_id; }
message LogEntry { int64 index, term; bytes data; }
message CommitMergeRequest { int64 job_id, source_region_id; common.RegionEpoch source_region_epoch; common.Range source_region_range; int64 prepare_merge_log_id; repeated LogEntry entries; }
message RollbackMergeRequest { int64 min_applied_log_id; common.RegionEpoch target_region_epoch; int64 target_region_id; int64 job_id; }
message RebuildVectorIndexRequest { int64 cmd_id; } message SaveRaftSnapshotRequest { int64 region_id; }
message VectorAddRequest { string cf_name; repeated common.VectorWithId vectors; bool is_update; int64 ttl; }
message VectorDeleteRequest { string cf_name; repeated int64 ids; }
message VectorBatchAddRequest { repeated int64 delete_vector_ids; bool is_update; repeated common.KeyValue kvs_default; repeated common.KeyValue kvs_scalar; repeated common.KeyValue kvs_scalar_speed_up; repeated common.KeyValue kvs_table; repeated common.VectorWithId vectors; int64 x; }
message VectorBatchDeleteRequest { int64 x; }
message DocumentAddRequest { string cf_name; repeated common.DocumentWithId documents; bool is_update; int64 ttl; }
message DocumentDeleteRequest { string cf_name; repeated int64 ids; }
message DocumentBatchAddRequest { string cf_name; repeated int64 delete_document_ids; repeated common.DocumentWithId documents; bool is_update; repeated common.KeyValue kvs; int64 x; }
message PutsWithCf { string cf_name; repeated common.KeyValue kvs; } message DeletesWithCf { string cf_name; repeated bytes keys; }
message MultiCfPutAndDeleteRequest { repeated PutsWithCf puts_with_cf; repeated DeletesWithCf deletes_with_cf; VectorAddRequest vector_add; VectorDeleteRequest vector_del; DocumentAddRequest document_add; DocumentDeleteRequest document_del; }
message TxnDeleteRangeRequest { bytes start_key, end_key; }
message TxnRaftRequest { MultiCfPutAndDeleteRequest multi_cf_put_and_delete; TxnDeleteRangeRequest mvcc_delete_range; }
message Request { CmdType cmd_type; int64 ts; int64 ttl; PutRequest put; PutIfAbsentRequest put_if_absent; DeleteRangeRequest delete_range; DeleteBatchRequest delete_batch; SplitRequest split; CompareAndSetRequest compare_and_set; RaftMetaRequest meta_req; VectorAddRequest vector_add; VectorDeleteRequest vector_delete; VectorBatchAddRequest vector_batch_add; RebuildVectorIndexRequest rebuild_vector_index; SaveRaftSnapshotRequest save_snapshot; TxnRaftRequest txn_raft_req; PrepareMergeRequest prepare_merge; CommitMergeRequest commit_merge; RollbackMergeRequest rollback_merge; DocumentAddRequest document_add; DocumentDeleteRequest document_delete; DocumentBatchAddRequest document_batch_add; }
message Response { CmdType cmd_type; }
message RequestHeader { int64 region_id; common.RegionEpoch epoch; store.TxnInfo_ x; }
message ResponseHeader { error.Error error; }
message RaftCmdRequest { RequestHeader header; repeated Request requests; }
message RaftCmdResponse { ResponseHeader header; repeated Response responses; }



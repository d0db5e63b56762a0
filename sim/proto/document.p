syntax = "proto3"; package dingodb.pb.document; import "proto/common.proto"; import "proto/error.proto"; import "proto/stream.proto"; import "proto/coordinator.proto"; import "proto/store.proto"; option cc_generic_services = true;
message DocumentAddRequest { store.Context context; repeated common.DocumentWithId documents; bool is_update; common.RequestInfo request_info; int64 ttl; }
message DocumentAddResponse { error.Error error; repeated bool key_states; int64 ts; }
message DocumentBatchQueryRequest { store.Context context; repeated int64 document_ids; common.RequestInfo request_info; repeated string selected_keys; int64 ts; bool without_scalar_data; bool without_table_data; }
message DocumentBatchQueryResponse { repeated common.DocumentWithId doucments; error.Error error; }
message DocumentCountRequest { store.Context context; int64 document_id_end; int64 document_id_start; common.RequestInfo request_info; int64 ts; }
message DocumentCountResponse { int64 count; error.Error error; }
message DocumentDeleteRequest { store.Context context; repeated int64 ids; common.RequestInfo request_info; }
message DocumentDeleteResponse { error.Error error; repeated bool key_states; int64 ts; }
message DocumentGetBorderIdRequest { store.Context context; bool get_min; common.RequestInfo request_info; int64 ts; }
message DocumentGetBorderIdResponse { error.Error error; int64 id; }
message DocumentGetRegionMetricsRequest { store.Context context; common.RequestInfo request_info; }
message DocumentGetRegionMetricsResponse { error.Error error; common.RegionMetrics metrics; }
message DocumentScanQueryRequest { store.Context context; int64 document_id_end; int64 document_id_start; bool is_reverse_scan; int64 max_scan_count; common.RequestInfo request_info; repeated string selected_keys; int64 ts; bool without_scalar_data; bool without_table_data; }
message DocumentScanQueryResponse { repeated common.DocumentWithId documents; error.Error error; }
message DocumentSearchAllRequest { store.Context context; common.DocumentSearchParameter parameter; common.RequestInfo request_info; stream.StreamRequestMeta stream_meta; }
message DocumentSearchAllResponse { repeated common.DocumentWithScore document_with_scores; error.Error error; stream.StreamResponseMeta stream_meta; }
message DocumentSearchRequest { store.Context context; common.DocumentSearchParameter parameter; common.RequestInfo request_info; }
message DocumentSearchResponse { repeated common.DocumentWithScore document_with_scores; error.Error error; }
message HelloRequest { store.Context context; bool get_region_metrics; bool is_just_version_info; common.RequestInfo request_info; }
message HelloResponse { error.Error error; int64 region_count; int64 region_leader_count; repeated common.RegionMetrics region_metrics; common.StoreOwnMetrics store_own_metrics; common.VersionInfo version_info; }
service DocumentService {
  rpc Hello(HelloRequest) returns (HelloResponse);
  rpc GetMemoryInfo(HelloRequest) returns (HelloResponse);
  rpc DocumentBatchQuery(DocumentBatchQueryRequest) returns (DocumentBatchQueryResponse);
  rpc DocumentSearch(DocumentSearchRequest) returns (DocumentSearchResponse);
  rpc DocumentSearchAll(DocumentSearchAllRequest) returns (DocumentSearchAllResponse);
  rpc DocumentGetBorderId(DocumentGetBorderIdRequest) returns (DocumentGetBorderIdResponse);
  rpc DocumentScanQuery(DocumentScanQueryRequest) returns (DocumentScanQueryResponse);
  rpc DocumentGetRegionMetrics(DocumentGetRegionMetricsRequest) returns (DocumentGetRegionMetricsResponse);
  rpc DocumentCount(DocumentCountRequest) returns (DocumentCountResponse);
  rpc DocumentAdd(DocumentAddRequest) returns (DocumentAddResponse);
  rpc DocumentDelete(DocumentDeleteRequest) returns (DocumentDeleteResponse);
  rpc TxnGet(store.TxnGetRequest) returns (store.TxnGetResponse);
  rpc TxnScan(store.TxnScanRequest) returns (store.TxnScanResponse);
  rpc TxnBatchGet(store.TxnBatchGetRequest) returns (store.TxnBatchGetResponse);
  rpc TxnScanLock(store.TxnScanLockRequest) returns (store.TxnScanLockResponse);
  rpc TxnDump(store.TxnDumpRequest) returns (store.TxnDumpResponse);
  rpc TxnPessimisticLock(store.TxnPessimisticLockRequest) returns (store.TxnPessimisticLockResponse);
  rpc TxnPessimisticRollback(store.TxnPessimisticRollbackRequest) returns (store.TxnPessimisticRollbackResponse);
  rpc TxnPrewrite(store.TxnPrewriteRequest) returns (store.TxnPrewriteResponse);
  rpc TxnCommit(store.TxnCommitRequest) returns (store.TxnCommitResponse);
  rpc TxnCheckTxnStatus(store.TxnCheckTxnStatusRequest) returns (store.TxnCheckTxnStatusResponse);
  rpc TxnResolveLock(store.TxnResolveLockRequest) returns (store.TxnResolveLockResponse);
  rpc TxnBatchRollback(store.TxnBatchRollbackRequest) returns (store.TxnBatchRollbackResponse);
  rpc TxnHeartBeat(store.TxnHeartBeatRequest) returns (store.TxnHeartBeatResponse);
  rpc TxnGc(store.TxnGcRequest) returns (store.TxnGcResponse);
  rpc TxnDeleteRange(store.TxnDeleteRangeRequest) returns (store.TxnDeleteRangeResponse);
  rpc BackupData(store.BackupDataRequest) returns (store.BackupDataResponse);
  rpc RestoreData(store.RestoreDataRequest) returns (store.RestoreDataResponse);
  rpc ControlConfig(store.ControlConfigRequest) returns (store.ControlConfigResponse);
}

syntax = "proto3"; package dingodb.pb.index; import "proto/common.proto"; import "proto/error.proto"; import "proto/coordinator.proto"; import "proto/store.proto"; option cc_generic_services = true;
enum AlgorithmType { ALGORITHM_NONE, ALGORITHM_FAISS, ALGORITHM_HNSWLIB; }
message HelloRequest { store.Context context; bool get_region_metrics; bool is_just_version_info; common.RequestInfo request_info; }
message HelloResponse { error.Error error; int64 region_count; int64 region_leader_count; repeated common.RegionMetrics region_metrics; common.StoreOwnMetrics store_own_metrics; common.VersionInfo version_info; }
message VectorAddRequest { store.Context context; bool is_update; common.RequestInfo request_info; int64 ttl; repeated common.VectorWithId vectors; }
message VectorAddResponse { error.Error error; repeated bool key_states; int64 ts; }
message VectorBatchQueryRequest { store.Context context; common.RequestInfo request_info; repeated string selected_keys; int64 ts; repeated int64 vector_ids; bool without_scalar_data; bool without_table_data; bool without_vector_data; }
message VectorBatchQueryResponse { error.Error error; repeated common.VectorWithId vectors; }
message VectorBuildRequest { store.Context context; common.VectorBuildParameter parameter; common.RequestInfo request_info; int64 ts; }
message VectorBuildResponse { error.Error error; common.VectorStateParameter state; }
message VectorCalcDistanceRequest { AlgorithmType algorithm_type; store.Context context; bool is_return_normlize; common.MetricType metric_type; repeated common.Vector op_left_vectors; repeated common.Vector op_right_vectors; common.RequestInfo request_info; }
message VectorCalcDistanceResponse { repeated VectorDistance distances; error.Error error; repeated common.Vector op_left_vectors; repeated common.Vector op_right_vectors; }
message VectorCountMemoryRequest { store.Context context; common.RequestInfo request_info; }
message VectorCountMemoryResponse { int64 count; error.Error error; }
message VectorCountRequest { store.Context context; common.RequestInfo request_info; int64 ts; int64 vector_id_end; int64 vector_id_start; }
message VectorCountResponse { int64 count; error.Error error; }
message VectorDeleteRequest { store.Context context; repeated int64 ids; common.RequestInfo request_info; }
message VectorDeleteResponse { error.Error error; repeated bool key_states; int64 ts; }
message VectorDisplayDocumentDetailsRequest { store.Context context; common.RequestInfo request_info; }
message VectorDisplayDocumentDetailsResponse { error.Error error; }
message VectorDumpRequest { store.Context context; bool dump_all; common.RequestInfo request_info; }
message VectorDumpResponse { repeated string dump_datas; error.Error error; }
message VectorGetBorderIdRequest { store.Context context; bool get_min; common.RequestInfo request_info; int64 ts; }
message VectorGetBorderIdResponse { error.Error error; int64 id; }
message VectorGetRegionMetricsRequest { store.Context context; common.RequestInfo request_info; }
message VectorGetRegionMetricsResponse { error.Error error; common.RegionMetrics metrics; }
message VectorImportRequest { store.Context context; repeated int64 delete_ids; common.RequestInfo request_info; int64 ttl; repeated common.VectorWithId vectors; }
message VectorImportResponse { error.Error error; int64 ttl; }
message VectorLoadRequest { store.Context context; common.VectorLoadParameter parameter; common.RequestInfo request_info; }
message VectorLoadResponse { error.Error error; common.VectorStateParameter state; }
message VectorResetRequest { store.Context context; bool delete_data_file; common.RequestInfo request_info; }
message VectorResetResponse { error.Error error; common.VectorStateParameter state; }
message VectorScanQueryRequest { store.Context context; bool is_reverse_scan; int64 max_scan_count; common.RequestInfo request_info; common.VectorScalardata scalar_for_filter; repeated string selected_keys; int64 ts; bool use_scalar_filter; int64 vector_id_end; int64 vector_id_start; bool without_scalar_data; bool without_table_data; bool without_vector_data; }
message VectorScanQueryResponse { error.Error error; repeated common.VectorWithId vectors; }
message VectorSearchDebugRequest { store.Context context; common.VectorSearchParameter parameter; common.RequestInfo request_info; common.Vector vector; repeated common.VectorWithId vector_with_ids; }
message VectorSearchDebugResponse { repeated VectorWithDistanceResult batch_results; int64 deserialization_id_time_us; error.Error error; int64 scan_scalar_time_us; int64 search_time_us; }
message VectorSearchRequest { store.Context context; common.VectorSearchParameter parameter; common.RequestInfo request_info; repeated common.VectorWithId vector_with_ids; }
message VectorSearchResponse { repeated VectorWithDistanceResult batch_results; error.Error error; }
message VectorStatusRequest { store.Context context; common.RequestInfo request_info; }
message VectorStatusResponse { error.Error error; error.Error internal_error; common.VectorStateParameter state; }
message VectorWithDistanceResult { }
message VectorBuildParameter { } message VectorLoadParameter { } message VectorDistance { int64 internal_distances; }

service IndexService {
  rpc Hello(HelloRequest) returns (HelloResponse);
  rpc GetMemoryInfo(HelloRequest) returns (HelloResponse);
  rpc VectorBatchQuery(VectorBatchQueryRequest) returns (VectorBatchQueryResponse);
  rpc VectorSearch(VectorSearchRequest) returns (VectorSearchResponse);
  rpc VectorGetBorderId(VectorGetBorderIdRequest) returns (VectorGetBorderIdResponse);
  rpc VectorScanQuery(VectorScanQueryRequest) returns (VectorScanQueryResponse);
  rpc VectorGetRegionMetrics(VectorGetRegionMetricsRequest) returns (VectorGetRegionMetricsResponse);
  rpc VectorCount(VectorCountRequest) returns (VectorCountResponse);
  rpc VectorCountMemory(VectorCountMemoryRequest) returns (VectorCountMemoryResponse);
  rpc VectorImport(VectorImportRequest) returns (VectorImportResponse);
  rpc VectorBuild(VectorBuildRequest) returns (VectorBuildResponse);
  rpc VectorLoad(VectorLoadRequest) returns (VectorLoadResponse);
  rpc VectorStatus(VectorStatusRequest) returns (VectorStatusResponse);
  rpc VectorReset(VectorResetRequest) returns (VectorResetResponse);
  rpc VectorDump(VectorDumpRequest) returns (VectorDumpResponse);
  rpc VectorDisplayDocumentDetails(VectorDisplayDocumentDetailsRequest) returns (VectorDisplayDocumentDetailsResponse);
  rpc VectorSearchDebug(VectorSearchDebugRequest) returns (VectorSearchDebugResponse);
  rpc VectorAdd(VectorAddRequest) returns (VectorAddResponse);
  rpc VectorDelete(VectorDeleteRequest) returns (VectorDeleteResponse);
  rpc TxnGet(store.TxnGetRequest) returns (store.TxnGetResponse);
  rpc TxnScan(store.TxnScanRequest) returns (store.TxnScanResponse);
  rpc TxnBatchGet(store.TxnBatchGetRequest) returns (store.TxnBatchGetResponse);
  rpc TxnScanLock(store.TxnScanLockRequest) returns (store.TxnScanLockResponse);
  rpc TxnDump(store.TxnDumpRequest) returns (store.TxnDumpResponse);
  rpc TxnPessimisticLock(store.TxnPessimisticLockRequest) returns (store.TxnPessimisticLockResponse);
  rpc TxnPessimisticRollback(store.TxnPessimisticRollbackRequest) returns (store.TxnPessimisticRollbackResponse);
  rpc TxnPrewrite(store.TxnPrewriteRequest) returns (store.TxnPrewriteResponse);
  rpc TxnCommit(store.TxnCommitRequest) returns (store.TxnCommitResponse);
  rpc TxnCheckTxnStatus(store.TxnCheckTxnStatusRequest) returns (store.TxnCheckTxnStatusResponse);
  rpc TxnResolveLock(store.TxnResolveLockRequest) returns (store.TxnResolveLockResponse);
  rpc TxnBatchRollback(store.TxnBatchRollbackRequest) returns (store.TxnBatchRollbackResponse);
  rpc TxnHeartBeat(store.TxnHeartBeatRequest) returns (store.TxnHeartBeatResponse);
  rpc TxnGc(store.TxnGcRequest) returns (store.TxnGcResponse);
  rpc TxnDeleteRange(store.TxnDeleteRangeRequest) returns (store.TxnDeleteRangeResponse);
  rpc BackupData(store.BackupDataRequest) returns (store.BackupDataResponse);
  rpc ControlConfig(store.ControlConfigRequest) returns (store.ControlConfigResponse);
  rpc RestoreData(store.RestoreDataRequest) returns (store.RestoreDataResponse);
}

syntax = "proto3"; package dingodb.pb.diskann; import "proto/common.proto"; import "proto/error.proto"; import "proto/store.proto"; option cc_generic_services = true;
message VectorBuildRequest { }
message VectorBuildResponse { }
message VectorCloseRequest { }
message VectorCloseResponse { }
message VectorCountRequest { }
message VectorCountResponse { }
message VectorDestroyRequest { }
message VectorDestroyResponse { }
message VectorDumpAllRequest { }
message VectorDumpAllResponse { }
message VectorDumpRequest { }
message VectorDumpResponse { }
message VectorLoadRequest { }
message VectorLoadResponse { }
message VectorNewRequest { }
message VectorNewResponse { }
message VectorPushDataRequest { }
message VectorPushDataResponse { }
message VectorResetRequest { }
message VectorResetResponse { }
message VectorSearchRequest { }
message VectorSearchResponse { }
message VectorSetImportTooManyRequest { }
message VectorSetImportTooManyResponse { }
message VectorSetNoDataRequest { }
message VectorSetNoDataResponse { }
message VectorStatusRequest { }
message VectorStatusResponse { }
message VectorTryLoadRequest { }
message VectorTryLoadResponse { }
service DiskAnnService {
  rpc VectorNew(VectorNewRequest) returns (VectorNewResponse);
  rpc VectorPushData(VectorPushDataRequest) returns (VectorPushDataResponse);
  rpc VectorBuild(VectorBuildRequest) returns (VectorBuildResponse);
  rpc VectorLoad(VectorLoadRequest) returns (VectorLoadResponse);
  rpc VectorTryLoad(VectorTryLoadRequest) returns (VectorTryLoadResponse);
  rpc VectorSearch(VectorSearchRequest) returns (VectorSearchResponse);
  rpc VectorReset(VectorResetRequest) returns (VectorResetResponse);
  rpc VectorClose(VectorCloseRequest) returns (VectorCloseResponse);
  rpc VectorDestroy(VectorDestroyRequest) returns (VectorDestroyResponse);
  rpc VectorStatus(VectorStatusRequest) returns (VectorStatusResponse);
  rpc VectorCount(VectorCountRequest) returns (VectorCountResponse);
  rpc VectorSetNoData(VectorSetNoDataRequest) returns (VectorSetNoDataResponse);
  rpc VectorSetImportTooMany(VectorSetImportTooManyRequest) returns (VectorSetImportTooManyResponse);
  rpc VectorDump(VectorDumpRequest) returns (VectorDumpResponse);
  rpc VectorDumpAll(VectorDumpAllRequest) returns (VectorDumpAllResponse);
}

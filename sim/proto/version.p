syntax = "proto3"; package dingodb.pb.version; import "proto/common.proto"; import "proto/error.proto"; import "proto/coordinator.proto"; import "proto/coordinator_internal.proto"; option cc_generic_services = true;
message Kv { int64 create_revision, mod_revision, version; int64 lease; common.KeyValue kv; }
message Event { enum EventType { NONE, PUT, DELETE, NOT_EXISTS; } EventType type; Kv kv; Kv prev_kv; }
enum EventFilterType { NOPUT, NODELETE; }
message CompactionRequest { int64 compact_revision; bytes key; bytes range_end; common.RequestInfo request_info; }
message CompactionResponse { int64 compaction_count; error.Error error; }
message DeleteRangeRequest { bytes key; bool need_prev_kv; bytes range_end; common.RequestInfo request_info; }
message DeleteRangeResponse { int64 deleted; error.Error error; ResponseHeader header; repeated Kv prev_kvs; }
message GetCurrVersionRequest { VersionId verid; }
message GetCurrVersionResponse { int64 version; }
message GetNewVersionRequest { VersionId verid; int64 version; }
message GetNewVersionResponse { int64 version; }
message GetRawKvIndexRequest { bytes key; common.RequestInfo request_info; }
message GetRawKvIndexResponse { error.Error error; KvIndex kvindex; }
message GetRawKvRevRequest { common.RequestInfo request_info; coordinator_internal.RevisionInternal revision; }
message GetRawKvRevResponse { error.Error error; KvRev kvrev; }
message HelloRequest { bool get_memory_info; string hello; common.RequestInfo request_info; }
message HelloResponse { error.Error error; coordinator.CoordinatorMemoryInfo memory_info; }
message LeaseGrantRequest { int64 id; common.RequestInfo request_info; int64 ttl; }
message LeaseGrantResponse { error.Error error; int64 id; int64 ttl; }
message LeaseQueryRequest { int64 id; bool keys; common.RequestInfo request_info; }
message LeaseQueryResponse { error.Error error; int64 grantedttl; int64 id; repeated bytes keys; int64 ttl; }
message LeaseRenewRequest { int64 id; common.RequestInfo request_info; }
message LeaseRenewResponse { error.Error error; int64 id; int64 ttl; }
message LeaseRevokeRequest { int64 id; common.RequestInfo request_info; }
message LeaseRevokeResponse { error.Error error; }
message ListLeasesRequest { common.RequestInfo request_info; }
message ListLeasesResponse { error.Error error; repeated LeaseStatus leases; }
message PutRequest { bool ignore_lease; bool ignore_value; common.KeyValue key_value; int64 lease; bool need_prev_kv; common.RequestInfo request_info; }
message PutResponse { error.Error error; ResponseHeader header; Kv prev_kv; }
message RangeRequest { bool count_only; bytes key; bool keys_only; int64 limit; bytes range_end; common.RequestInfo request_info; }
message RangeResponse { int64 count; error.Error error; repeated Kv kvs; bool more; }
message VersionId { VersionType type; int64 id; }
enum VersionType { SCHEMA, TABLE, PART, REGION; }
message WatchRequest { OneTimeWatchRequest one_time_request; common.RequestInfo request_info; }
message WatchResponse { error.Error error; repeated Event events; }

message ResponseHeader { int64 revision; } message KvIndex { repeated coordinator_internal.KvIndexInternal.Generation generations; bytes id; coordinator_internal.RevisionInternal mod_revision; } message KvRev { bytes id; coordinator_internal.KvInternal kv; } message LeaseStatus { int64 id; } message OneTimeWatchRequest { repeated EventFilterType filters; bytes key; bool need_prev_kv; int64 start_revision; bool wait_on_not_exist_key; }

service VersionService {
  rpc Hello(HelloRequest) returns (HelloResponse);
  rpc GetMemoryInfo(HelloRequest) returns (HelloResponse);
  rpc GetNewVersion(GetNewVersionRequest) returns (GetNewVersionResponse);
  rpc GetCurrVersion(GetCurrVersionRequest) returns (GetCurrVersionResponse);
  rpc LeaseGrant(LeaseGrantRequest) returns (LeaseGrantResponse);
  rpc LeaseRevoke(LeaseRevokeRequest) returns (LeaseRevokeResponse);
  rpc LeaseRenew(LeaseRenewRequest) returns (LeaseRenewResponse);
  rpc LeaseQuery(LeaseQueryRequest) returns (LeaseQueryResponse);
  rpc ListLeases(ListLeasesRequest) returns (ListLeasesResponse);
  rpc GetRawKvIndex(GetRawKvIndexRequest) returns (GetRawKvIndexResponse);
  rpc GetRawKvRev(GetRawKvRevRequest) returns (GetRawKvRevResponse);
  rpc KvRange(RangeRequest) returns (RangeResponse);
  rpc KvPut(PutRequest) returns (PutResponse);
  rpc KvDeleteRange(DeleteRangeRequest) returns (DeleteRangeResponse);
  rpc KvCompaction(CompactionRequest) returns (CompactionResponse);
  rpc Watch(WatchRequest) returns (WatchResponse);
}

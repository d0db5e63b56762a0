syntax = "proto3"; package dingodb.pb.push; import "proto/common.proto"; import "proto/error.proto"; import "proto/coordinator.proto"; import "proto/store.proto"; option cc_generic_services = true;
message PushHeartbeatRequest { coordinator.StoreHeartbeatResponse heartbeat_response; common.RequestInfo request_info; }
message PushHeartbeatResponse { error.Error error; }
message PushStoreOperationRequest { common.RequestInfo request_info; coordinator.StoreOperation store_operation; }
message PushStoreOperationResponse { error.Error error; repeated RegionCmdResult region_cmd_results; }
message RegionCmdResult { error.Error error; int64 region_cmd_id; coordinator.RegionCmdType region_cmd_type; }

service PushService {
  rpc PushHeartbeat(PushHeartbeatRequest) returns (PushHeartbeatResponse);
  rpc PushStoreOperation(PushStoreOperationRequest) returns (PushStoreOperationResponse);
}

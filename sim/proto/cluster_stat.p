syntax = "proto3"; package dingodb.pb.cluster; option cc_generic_services = true; 
message ClusterStatRequest { }
message ClusterStatResponse { }
message JobListRequest { }
message JobListResponse { }
message RegionRequest { }
message RegionResponse { }
message StoreMetricsRequest { }
message StoreMetricsResponse { }
message StoreOperationRequest { }
message StoreOperationResponse { }
message TableRequest { }
message TableResponse { }
service store_operation {
  rpc default_method(StoreOperationRequest) returns (StoreOperationResponse);
}
service dingo {
  rpc default_method(ClusterStatRequest) returns (ClusterStatResponse);
}
service table {
  rpc default_method(TableRequest) returns (TableResponse);
}
service store_metrics {
  rpc default_method(StoreMetricsRequest) returns (StoreMetricsResponse);
}
service job {
  rpc default_method(JobListRequest) returns (JobListResponse);
}
service region {
  rpc default_method(RegionRequest) returns (RegionResponse);
}

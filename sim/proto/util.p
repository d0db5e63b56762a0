syntax = "proto3"; package dingodb.pb.util; import "proto/common.proto"; import "proto/error.proto"; import "proto/store.proto"; import "proto/index.proto"; option cc_generic_services = true;

service UtilService {
  rpc VectorCalcDistance(index.VectorCalcDistanceRequest) returns (index.VectorCalcDistanceResponse);
}

syntax = "proto3"; package dingodb.pb.stream; 
message StreamRequestMeta { string stream_id; int32 limit; bool close; } message StreamResponseMeta { string stream_id; bool has_more; }



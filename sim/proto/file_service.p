syntax = "proto3"; package dingodb.pb.fileservice; import "proto/common.proto"; import "proto/error.proto"; option cc_generic_services = true; 
message CleanFileReaderRequest { int64 reader_id; common.RequestInfo request_info; }
message CleanFileReaderResponse { error.Error error; }
message GetFileRequest { string filename; int64 offset; int64 reader_id; common.RequestInfo request_info; int64 size; }
message GetFileResponse { bool eof; error.Error error; int64 read_size; }
service FileService {
  rpc GetFile(GetFileRequest) returns (GetFileResponse);
  rpc CleanFileReader(CleanFileReaderRequest) returns (CleanFileReaderResponse);
}

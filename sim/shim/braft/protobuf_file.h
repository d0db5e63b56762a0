#pragma once
#include <string>
#include <google/protobuf/message.h>
#include "braft/file_system_adaptor.h"
namespace braft {
class ProtoBufFile {
 public:
  explicit ProtoBufFile(const char* p, FileSystemAdaptor* = nullptr) : path_(p) {}
  explicit ProtoBufFile(const std::string& p, FileSystemAdaptor* = nullptr) : path_(p) {}
  int save(const ::google::protobuf::Message* m, bool sync);
  int load(::google::protobuf::Message* m);
 private: std::string path_;
};
}

#pragma once
#include <string>
#include <vector>
#include <google/protobuf/message.h>
#include "braft/configuration.h"
#include "braft/configuration_manager.h"
#include "braft/enum.pb.h"
#include "braft/errno.pb.h"
#include "braft/local_file_meta.pb.h"
#include "braft/local_storage.pb.h"
#include "braft/raft.pb.h"
#include "butil/status.h"
#include "gflags/gflags.h"
namespace braft {
DECLARE_bool(raft_sync);

DECLARE_bool(raft_create_parent_directories);
bool raft_sync_meta();
struct IOMetric { int64_t start_time_us = 0, bthread_queue_time_us = 0, open_segment_time_us = 0, append_entry_time_us = 0, sync_segment_time_us = 0; };
class LogStorage {
 public:
  virtual ~LogStorage() = default;
  virtual int init(ConfigurationManager* m) = 0;
  virtual int64_t first_log_index() = 0;
  virtual int64_t last_log_index() = 0;
  virtual LogEntry* get_entry(const int64_t index) = 0;
  virtual int64_t get_term(const int64_t index) = 0;
  virtual int append_entry(const LogEntry* e) = 0;
  virtual int append_entries(const std::vector<LogEntry*>& e, IOMetric* m) = 0;
  virtual int truncate_prefix(const int64_t first_index_kept) = 0;
  virtual int truncate_suffix(const int64_t last_index_kept) = 0;
  virtual int reset(const int64_t next_log_index) = 0;
  virtual LogStorage* new_instance(const std::string& uri) const = 0;
  virtual butil::Status gc_instance(const std::string& uri) const { return butil::Status(1, "not supported"); }
};
class Snapshot : public butil::Status {
 public:
  Snapshot() = default;
  virtual ~Snapshot() = default;
  virtual std::string get_path() = 0;
  virtual void list_files(std::vector<std::string>* files) = 0;
  virtual int get_file_meta(const std::string& filename, ::google::protobuf::Message* m) { return -1; }
};
class SnapshotWriter : public Snapshot {
 public:
  virtual int save_meta(const SnapshotMeta& m) = 0;
  virtual int add_file(const std::string& f) { return add_file(f, nullptr); }
  virtual int add_file(const std::string& f, const ::google::protobuf::Message* m) = 0;
  virtual int remove_file(const std::string& f) = 0;
};
class SnapshotReader : public Snapshot {
 public:
  virtual int load_meta(SnapshotMeta* m) = 0;
  virtual std::string generate_uri_for_copy() = 0;
};
}

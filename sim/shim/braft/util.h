#pragma once
#include <set>
#include <string>
#include <vector>
#include "braft/configuration.h"
#include "braft/raft.h"
#include "bthread/bthread.h"
#include "butil/iobuf.h"
#include "butil/scoped_lock.h"
#include "butil/string_printf.h"
#include "butil/strings/string_split.h"
#include "bthread/mutex.h"
namespace braft {
typedef ::bthread::Mutex raft_mutex_t;
class Closure;
uint32_t murmurhash32(const void* key, int len);
uint32_t murmurhash32(const butil::IOBuf& buf);
uint32_t crc32(const void* key, int len);
uint32_t crc32(const butil::IOBuf& buf);
ssize_t file_pread(butil::IOPortal* portal, int fd, off_t offset, size_t size);
ssize_t file_pwrite(const butil::IOBuf& data, int fd, off_t offset);
int gc_dir(const std::string& path);
bool is_zero(const char* p, size_t n);
void run_closure_in_bthread(::google::protobuf::Closure* c, bool in_pthread = false);
struct RunClosureInBthread { void operator()(google::protobuf::Closure* d) { run_closure_in_bthread(d); } };
typedef std::unique_ptr<google::protobuf::Closure, RunClosureInBthread> AsyncClosureGuardBase;
// Runs the closure in a new bthread when it goes out of scope.
class AsyncClosureGuard {
 public:
  explicit AsyncClosureGuard(google::protobuf::Closure* d = nullptr) : d_(d) {}
  ~AsyncClosureGuard() { if (d_) run_closure_in_bthread(d_); }
  void reset(google::protobuf::Closure* d) { if (d_) run_closure_in_bthread(d_); d_ = d; }
  google::protobuf::Closure* release() { auto* d = d_; d_ = nullptr; return d; }
  AsyncClosureGuard(const AsyncClosureGuard&) = delete;
 private: google::protobuf::Closure* d_;
};
std::string fileuri2path(const std::string& uri);
}

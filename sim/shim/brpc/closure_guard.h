#pragma once
#include <google/protobuf/service.h>
#include "butil/macros.h"
namespace brpc {
class ClosureGuard {
 public:
  ClosureGuard() = default;
  explicit ClosureGuard(google::protobuf::Closure* d) : d_(d) {}
  ~ClosureGuard() { if (d_) d_->Run(); }
  void reset(google::protobuf::Closure* d) { if (d_) d_->Run(); d_ = d; }
  google::protobuf::Closure* release() { auto* d = d_; d_ = nullptr; return d; }
  bool empty() const { return d_ == nullptr; }
  void swap(ClosureGuard& o) { std::swap(d_, o.d_); }
  ClosureGuard(const ClosureGuard&) = delete; void operator=(const ClosureGuard&) = delete;
 private: google::protobuf::Closure* d_ = nullptr;
};
}

#pragma once
#include <string>
#include <vector>
namespace butil {
// Entries sorted by name: directory order is a source of nondeterminism.
class DirReaderPosix {
 public:
  explicit DirReaderPosix(const char* path);
  bool IsValid() const { return ok_; }
  bool Next() { ++i_; return i_ < (int)n_.size(); }
  const char* name() const { return n_[i_].c_str(); }
  static bool IsFallback() { return false; }
 private:
  bool ok_ = false; int i_ = -1; std::vector<std::string> n_;
};
}

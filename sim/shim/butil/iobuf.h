#pragma once
#include <sys/types.h>
#include <sys/uio.h>
#include <google/protobuf/io/zero_copy_stream.h>
#include <google/protobuf/message.h>
#include <algorithm>
#include <cstring>
#include <functional>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include "butil/strings/string_piece.h"
#include "butil/macros.h"
#include "butil/status.h"
namespace butil {
// A byte rope reduced to one string: the observable byte-queue behaviour only.
class IOBuf {
 public:
  struct Area {};
  struct Movable {
    explicit Movable(IOBuf& v) : v_(&v) {}
    IOBuf& value() const { return *v_; }
    IOBuf* v_;
  };
  static const size_t DEFAULT_BLOCK_SIZE = 8192;
  IOBuf() = default;
  IOBuf(const IOBuf&) = default;
  IOBuf(const Movable& m) { s_.swap(m.value().s_); }
  IOBuf& operator=(const IOBuf&) = default;
  IOBuf& operator=(const std::string& s) { s_ = s; return *this; }
  void operator=(const Movable& m) { s_.clear(); s_.swap(m.value().s_); }
  ~IOBuf() = default;
  void swap(IOBuf& o) { s_.swap(o.s_); }
  void clear() { s_.clear(); }
  size_t size() const { return s_.size(); }
  size_t length() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  size_t pop_front(size_t n) { n = std::min(n, s_.size()); s_.erase(0, n); return n; }
  size_t pop_back(size_t n) { n = std::min(n, s_.size()); s_.resize(s_.size() - n); return n; }
  bool cut1(void* c) { if (s_.empty()) return false; *(char*)c = s_[0]; s_.erase(0, 1); return true; }
  size_t cutn(IOBuf* o, size_t n) { n = std::min(n, s_.size()); o->s_.append(s_, 0, n); s_.erase(0, n); return n; }
  size_t cutn(void* o, size_t n) { n = std::min(n, s_.size()); memcpy(o, s_.data(), n); s_.erase(0, n); return n; }
  size_t cutn(std::string* o, size_t n) { n = std::min(n, s_.size()); o->append(s_, 0, n); s_.erase(0, n); return n; }
  ssize_t cut_into_file_descriptor(int fd, size_t hint = 1024 * 1024);
  ssize_t pcut_into_file_descriptor(int fd, off_t off, size_t hint = 1024 * 1024);
  static ssize_t cut_multiple_into_file_descriptor(int fd, IOBuf* const* p, size_t n);
  static ssize_t pcut_multiple_into_file_descriptor(int fd, off_t off, IOBuf* const* p, size_t n);
  void append(const IOBuf& o) { s_.append(std::string(o.s_)); }
  void append(const Movable& m) { s_.append(m.value().s_); m.value().clear(); }
  int push_back(char c) { s_.push_back(c); return 0; }
  int append(const void* d, size_t n) { s_.append((const char*)d, n); return 0; }
  int append(const char* d) { s_.append(d); return 0; }
  int append(const std::string& d) { s_.append(d); return 0; }
  
  int append_user_data(void* d, size_t n, void (*del)(void*)) { s_.append((const char*)d, n); if (del) del(d); return 0; }
  int append_user_data(void* d, size_t n, std::function<void(void*)> del) { s_.append((const char*)d, n); if (del) del(d); return 0; }
  int resize(size_t n) { return resize(n, '\0'); }
  int resize(size_t n, char c) { s_.resize(n, c); return 0; }
  size_t copy_to(void* b, size_t n = (size_t)-1, size_t pos = 0) const {
    if (pos >= s_.size()) return 0; n = std::min(n, s_.size() - pos); memcpy(b, s_.data() + pos, n); return n; }
  size_t copy_to(std::string* s, size_t n = (size_t)-1L, size_t pos = 0) const { s->clear(); return append_to(s, n, pos); }
  size_t append_to(std::string* s, size_t n = (size_t)-1L, size_t pos = 0) const {
    if (pos >= s_.size()) return 0; n = std::min(n, s_.size() - pos); s->append(s_, pos, n); return n; }
  size_t append_to(IOBuf* b, size_t n = (size_t)-1L, size_t pos = 0) const { return append_to(&b->s_, n, pos); }
  const void* fetch(void* aux, size_t n) const { if (n > s_.size()) return nullptr; memcpy(aux, s_.data(), n); return aux; }
  const void* fetch1() const { return s_.empty() ? nullptr : s_.data(); }
  std::string to_string() const { return s_; }
  bool equals(const StringPiece& o) const { return s_ == o.as_string(); }
  bool equals(const IOBuf& o) const { return s_ == o.s_; }
  size_t backing_block_num() const { return s_.empty() ? 0 : 1; }
  StringPiece backing_block(size_t i) const { return i == 0 ? StringPiece(s_) : StringPiece(); }
  std::string& raw() { return s_; }
  const std::string& raw() const { return s_; }
 protected:
  std::string s_;
};
inline bool operator==(const IOBuf& a, const IOBuf& b) { return a.equals(b); }
inline bool operator!=(const IOBuf& a, const IOBuf& b) { return !a.equals(b); }
inline bool operator==(const IOBuf& a, const StringPiece& b) { return a.equals(b); }
inline std::ostream& operator<<(std::ostream& os, const IOBuf& b) { return os << b.raw(); }
inline void swap(IOBuf& a, IOBuf& b) { a.swap(b); }

class IOPortal : public IOBuf {
 public:
  IOPortal() = default;
  ssize_t append_from_file_descriptor(int fd, size_t max);
  ssize_t pappend_from_file_descriptor(int fd, off_t off, size_t max);
  void clear() { s_.clear(); }
  void return_cached_blocks() {}
};

class IOBufAsZeroCopyInputStream : public google::protobuf::io::ZeroCopyInputStream {
 public:
  explicit IOBufAsZeroCopyInputStream(const IOBuf& b) : b_(b) {}
  bool Next(const void** d, int* n) override {
    if (pos_ >= b_.size()) return false; *d = b_.raw().data() + pos_; *n = b_.size() - pos_; pos_ = b_.size(); return true; }
  void BackUp(int n) override { pos_ -= n; }
  bool Skip(int n) override { if (pos_ + n > b_.size()) { pos_ = b_.size(); return false; } pos_ += n; return true; }
  int64_t ByteCount() const override { return pos_; }
 private:
  const IOBuf& b_; size_t pos_ = 0;
};
class IOBufAsZeroCopyOutputStream : public google::protobuf::io::ZeroCopyOutputStream {
 public:
  explicit IOBufAsZeroCopyOutputStream(IOBuf* b) : b_(b) {}
  IOBufAsZeroCopyOutputStream(IOBuf* b, uint32_t) : b_(b) {}
  bool Next(void** d, int* n) override { size_t o = b_->size(); b_->resize(o + 4096); *d = &b_->raw()[o]; *n = 4096; cnt_ += 4096; return true; }
  void BackUp(int n) override { b_->pop_back(n); cnt_ -= n; }
  int64_t ByteCount() const override { return cnt_; }
 private:
  IOBuf* b_; int64_t cnt_ = 0;
};
class IOBufBuilder : public std::ostream {
 public:
  IOBufBuilder() : std::ostream(nullptr) { rdbuf(&sb_); }
  IOBuf& buf() { pull(); return b_; }
  void move_to(IOBuf& t) { pull(); t = IOBuf::Movable(b_); }
  void buf(const IOBuf& b) { pull(); b_ = b; }
 private:
  void pull() { b_.append(sb_.str()); sb_.str(""); }
  std::stringbuf sb_; IOBuf b_;
};
class IOBufAppender { public: int append(const void* d, size_t n) { return b_.append(d, n); } int append(const StringPiece& s) { return b_.append(s.data(), s.size()); } int push_back(char c) { return b_.push_back(c); } IOBuf& buf() { return b_; } void move_to(IOBuf& t) { t = IOBuf::Movable(b_); } private: IOBuf b_; };
class IOBufBytesIterator {
 public:
  explicit IOBufBytesIterator(const IOBuf& b) : b_(&b) {}
  char operator*() const { return b_->raw()[p_]; }
  operator const void*() const { return p_ < b_->size() ? (const void*)1 : nullptr; }
  void operator++() { ++p_; }
  void operator++(int) { ++p_; }
  size_t bytes_left() const { return b_->size() - p_; }
  size_t copy_and_forward(void* d, size_t n) { n = b_->copy_to(d, n, p_); p_ += n; return n; }
  size_t copy_and_forward(std::string* s, size_t n) { n = b_->append_to(s, n, p_); p_ += n; return n; }
  size_t forward(size_t n) { n = std::min(n, bytes_left()); p_ += n; return n; }
 private:
  const IOBuf* b_; size_t p_ = 0;
};
}  // namespace butil

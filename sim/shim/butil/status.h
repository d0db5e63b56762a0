#pragma once
#include <stdarg.h>
#include <cstdio>
#include <ostream>
#include <string>
#include "butil/strings/string_piece.h"
namespace butil {
class Status {
 public:
  Status() = default;
  Status(int code, const char* fmt, ...) __attribute__((__format__(__printf__, 3, 4))) {
    va_list ap; va_start(ap, fmt); code_ = code; vset(fmt, ap); va_end(ap);
  }
  Status(int code, const StringPiece& s) : code_(code), msg_(s.as_string()) {}
  int set_error(int code, const char* fmt, ...) __attribute__((__format__(__printf__, 3, 4))) {
    va_list ap; va_start(ap, fmt); code_ = code; vset(fmt, ap); va_end(ap); return 0;
  }
  int set_error(int code, const StringPiece& s) { code_ = code; msg_ = s.as_string(); return 0; }
  void reset() { code_ = 0; msg_.clear(); }
  static Status OK() { return Status(); }
  bool ok() const { return code_ == 0; }
  int error_code() const { return code_; }
  const char* error_cstr() const { return code_ == 0 ? "OK" : msg_.c_str(); }
  StringPiece error_data() const { return code_ == 0 ? StringPiece("OK") : StringPiece(msg_); }
  std::string error_str() const { return code_ == 0 ? "OK" : msg_; }
  void swap(Status& o) { std::swap(code_, o.code_); msg_.swap(o.msg_); }
 private:
  void vset(const char* fmt, va_list ap) {
    va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, fmt, c); va_end(c);
    msg_.resize(n > 0 ? n : 0); if (n > 0) vsnprintf(&msg_[0], n + 1, fmt, ap);
  }
  int code_ = 0;
  std::string msg_;
};
inline std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.error_str(); }
}  // namespace butil

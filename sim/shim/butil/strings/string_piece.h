#pragma once
#include <cstring>
#include <ostream>
#include <string>
#include <string_view>
namespace butil {
class StringPiece {
 public:
  static const size_t npos = -1;
  StringPiece() : p_(nullptr), n_(0) {}
  StringPiece(const char* s) : p_(s), n_(s ? strlen(s) : 0) {}
  StringPiece(const std::string& s) : p_(s.data()), n_(s.size()) {}
  StringPiece(const char* s, size_t n) : p_(s), n_(n) {}
  const char* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  void set(const char* s, size_t n) { p_ = s; n_ = n; }
  void clear() { p_ = nullptr; n_ = 0; }
  void remove_suffix(size_t n) { n_ -= n; }
  void remove_prefix(size_t n) { p_ += n; n_ -= n; }
  char operator[](size_t i) const { return p_[i]; }
  std::string as_string() const { return p_ ? std::string(p_, n_) : std::string(); }
  bool starts_with(const StringPiece& x) const { return n_ >= x.n_ && memcmp(p_, x.p_, x.n_) == 0; }
  bool ends_with(const StringPiece& x) const { return n_ >= x.n_ && memcmp(p_ + n_ - x.n_, x.p_, x.n_) == 0; }
  StringPiece substr(size_t pos, size_t n = npos) const { if (pos > n_) pos = n_; return StringPiece(p_ + pos, n > n_ - pos ? n_ - pos : n); }
  size_t find(char c, size_t pos = 0) const { return std::string_view(p_, n_).find(c, pos); }
  const char* begin() const { return p_; }
  const char* end() const { return p_ + n_; }
  operator std::string() const { return as_string(); }
 private:
  const char* p_;
  size_t n_;
};
inline bool operator==(const StringPiece& a, const StringPiece& b) { return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), a.size()) == 0); }
inline bool operator!=(const StringPiece& a, const StringPiece& b) { return !(a == b); }
inline bool operator<(const StringPiece& a, const StringPiece& b) { return std::string_view(a.data(), a.size()) < std::string_view(b.data(), b.size()); }
inline std::ostream& operator<<(std::ostream& os, const StringPiece& s) { return os.write(s.data(), s.size()); }
}  // namespace butil

#pragma once
// Byte buffer of dingo's serial library (submodule absent): big-endian writers and readers.
#include <cstdint>
#include <string>
#include <vector>
namespace dingodb {
class Buf {
 public:
  explicit Buf(int) {}
  Buf(int, bool) {}
  explicit Buf(const std::string& s) : b_(s) {}
  Buf(const std::string& s, bool) : b_(s) {}
  void Write(uint8_t c) { b_.push_back((char)c); }
  void WriteInt(int32_t v) { for (int i = 3; i >= 0; i--) Write((uint32_t)v >> (8 * i)); }
  void WriteLong(int64_t v) { for (int i = 7; i >= 0; i--) Write((uint64_t)v >> (8 * i)); }
  uint8_t Read() { return r_ < b_.size() ? (uint8_t)b_[r_++] : 0; }
  int32_t ReadInt() { uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | Read(); return (int32_t)v; }
  int64_t ReadLong() { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | Read(); return (int64_t)v; }
  std::string GetString() { return b_; }
  int GetBytes(std::string& s) { s = b_; return (int)s.size(); }
  int GetBytes(std::string* s) { *s = b_; return (int)s->size(); }
 private: std::string b_; size_t r_ = 0;
};
}

#pragma once
#include <arpa/inet.h>
#include <cstdint>
#include <cstring>
namespace butil {
class RawPacker {
 public:
  explicit RawPacker(void* s) : p_((char*)s) {}
  RawPacker& pack32(uint32_t v) { v = htonl(v); memcpy(p_, &v, 4); p_ += 4; return *this; }
  RawPacker& pack64(uint64_t v) { pack32(v >> 32); return pack32((uint32_t)v); }
 private: char* p_;
};
class RawUnpacker {
 public:
  explicit RawUnpacker(const void* s) : p_((const char*)s) {}
  RawUnpacker& unpack32(uint32_t& v) { memcpy(&v, p_, 4); v = ntohl(v); p_ += 4; return *this; }
  RawUnpacker& unpack64(uint64_t& v) { uint32_t h, l; unpack32(h); unpack32(l); v = ((uint64_t)h << 32) | l; return *this; }
 private: const char* p_;
};
}

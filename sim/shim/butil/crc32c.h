#pragma once
#include <cstddef>
#include <cstdint>
namespace butil { namespace crc32c {
uint32_t Extend(uint32_t init, const char* data, size_t n);
inline bool IsFastCrc32Supported() { return true; }
inline uint32_t Value(const char* d, size_t n) { return Extend(0, d, n); }
} }

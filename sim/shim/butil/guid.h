#pragma once
#include <cstdio>
#include <string>
#include "sim_clock.h"
namespace butil {
inline std::string GenerateGUID() {
  uint64_t a = sim_rand64(), b = sim_rand64(); char buf[64];
  snprintf(buf, sizeof buf, "%08X-%04X-%04X-%04X-%012llX", (unsigned)(a >> 32), (unsigned)(a >> 16 & 0xffff), (unsigned)(a & 0xffff), (unsigned)(b >> 48), (unsigned long long)(b & 0xffffffffffffull));
  return buf;
}
}

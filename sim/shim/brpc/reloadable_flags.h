#pragma once
#include "gflags/gflags.h"
#define BRPC_VALIDATE_GFLAG(flag, fn) const int BAIDU_CONCAT(sim_register_FLAGS_, flag) __attribute__((unused)) = ((void)(fn), 0)
#define BRPC_ALLOW_RUNTIME_MODIFY_GFLAG(flag)
#include "butil/macros.h"
#include <cstdint>
namespace brpc {
inline bool PassValidate(const char*, bool) { return true; }
inline bool PassValidate(const char*, int32_t) { return true; }
inline bool PassValidate(const char*, uint32_t) { return true; }
inline bool PassValidate(const char*, int64_t) { return true; }
inline bool PassValidate(const char*, uint64_t) { return true; }
inline bool PassValidate(const char*, double) { return true; }
inline bool PassValidate(const char*, const std::string&) { return true; }
inline bool PositiveInteger(const char*, int64_t v) { return v > 0; }
inline bool NonNegativeInteger(const char*, int64_t v) { return v >= 0; }
inline bool SimOverloads() { return true; }
}
#undef BRPC_VALIDATE_GFLAG
#define BRPC_VALIDATE_GFLAG(flag, fn) static_assert(true, "")

#pragma once
#include <cstddef>
#include "butil/compiler_specific.h"
#ifndef DISALLOW_COPY_AND_ASSIGN
#define DISALLOW_COPY_AND_ASSIGN(T) T(const T&) = delete; void operator=(const T&) = delete
#endif
#define DISALLOW_COPY(T) T(const T&) = delete
#define DISALLOW_ASSIGN(T) void operator=(const T&) = delete
#define BAIDU_CASSERT(expr, msg) static_assert(expr, #msg)
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#define arraysize(a) ARRAY_SIZE(a)
#define BAIDU_CONCAT(a, b) BAIDU_CONCAT_HELPER(a, b)
#define BAIDU_CONCAT_HELPER(a, b) a##b
#define BAIDU_TYPEOF __typeof__
#define BRPC_VALIDATE_GFLAG_UNUSED
template <typename T> inline void ignore_result(const T&) {}

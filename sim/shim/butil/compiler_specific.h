#pragma once
#define BAIDU_LIKELY(expr) (__builtin_expect((bool)(expr), true))
#define BAIDU_UNLIKELY(expr) (__builtin_expect((bool)(expr), false))
#define ALLOW_UNUSED __attribute__((unused))
#define WARN_UNUSED_RESULT __attribute__((warn_unused_result))
#define BUTIL_FORCE_INLINE __attribute__((always_inline)) inline
#define BAIDU_FORCE_INLINE __attribute__((always_inline)) inline
#define PRINTF_FORMAT(a, b) __attribute__((format(printf, a, b)))
#define BAIDU_CACHELINE_ALIGNMENT __attribute__((aligned(64)))
#define BAIDU_SYMBOLS_WEAK __attribute__((weak))
#define OVERRIDE override

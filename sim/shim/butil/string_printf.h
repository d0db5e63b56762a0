#pragma once
#include <stdarg.h>
#include <cstdio>
#include <string>
namespace butil {
inline int string_vappendf(std::string* out, const char* fmt, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, fmt, c); va_end(c); if (n > 0) { size_t o = out->size(); out->resize(o + n); vsnprintf(&(*out)[o], n + 1, fmt, ap); } return 0; }
inline int string_appendf(std::string* out, const char* fmt, ...) { va_list ap; va_start(ap, fmt); string_vappendf(out, fmt, ap); va_end(ap); return 0; }
inline int string_printf(std::string* out, const char* fmt, ...) { out->clear(); va_list ap; va_start(ap, fmt); string_vappendf(out, fmt, ap); va_end(ap); return 0; }
inline std::string string_printf(const char* fmt, ...) { std::string s; va_list ap; va_start(ap, fmt); string_vappendf(&s, fmt, ap); va_end(ap); return s; }
}

#pragma once
#include <ostream>
#include <string>
#include "brpc/controller.h"
#include "butil/string_printf.h"
namespace brpc {
template <typename T> struct MinWidth { const T* v; size_t n; };
template <typename T> inline MinWidth<T> min_width(const T& v, size_t n) { return MinWidth<T>{&v, n}; }
template <typename T> inline std::ostream& operator<<(std::ostream& os, const MinWidth<T>& m) { return os << *m.v; }
inline const char* gridtable_style() { return ""; }
inline const char* TabsHead() { return ""; }
inline bool UseHTML(const HttpHeader&) { return false; }
inline const char* logo() { return ""; }
}

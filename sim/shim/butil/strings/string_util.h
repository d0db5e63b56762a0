#pragma once
#include <string>
#include "butil/strings/string_piece.h"
namespace butil {
enum TrimPositions { TRIM_NONE = 0, TRIM_LEADING = 1, TRIM_TRAILING = 2, TRIM_ALL = 3 };
inline TrimPositions TrimWhitespaceASCII(const std::string& in, TrimPositions pos, std::string* out) {
  const char* ws = " \t\r\n\f\v"; size_t b = 0, e = in.size();
  if (pos & TRIM_LEADING) { b = in.find_first_not_of(ws); if (b == std::string::npos) { out->clear(); return TRIM_ALL; } }
  if (pos & TRIM_TRAILING) { e = in.find_last_not_of(ws); e = e == std::string::npos ? 0 : e + 1; }
  *out = in.substr(b, e - b); return TRIM_NONE;
}
inline TrimPositions TrimWhitespace(const std::string& in, TrimPositions pos, std::string* out) { return TrimWhitespaceASCII(in, pos, out); }
}
